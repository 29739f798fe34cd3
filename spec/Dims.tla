-------------------------------- MODULE Dims --------------------------------
(* The shapes the harness instantiates (kept in step with harness/src/dims.rs). *)
LOCAL INSTANCE Integers
VLens == 0..32
VLensFew == {0, 1, 2, 3, 4, 5, 8, 16, 17, 31, 32}
MShapes == {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 3>>, <<0, 4>>, <<1, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>,
    <<2, 0>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<2, 4>>, <<3, 0>>, <<3, 1>>, <<3, 2>>, <<3, 3>>, <<3, 4>>,
    <<4, 0>>, <<4, 1>>, <<4, 2>>, <<4, 3>>, <<4, 4>>, <<5, 5>>, <<6, 6>>, <<7, 7>>, <<8, 8>>, <<3, 5>>,
    <<5, 3>>, <<2, 6>>, <<6, 2>>, <<5, 7>>, <<7, 5>>, <<4, 8>>, <<8, 4>>, <<9, 2>>, <<2, 9>>, <<1, 16>>,
    <<16, 1>>, <<2, 16>>, <<16, 2>>, <<1, 32>>, <<32, 1>>, <<3, 17>>, <<17, 3>>, <<10, 12>>}
MShapesFew == {<<0, 0>>, <<0, 2>>, <<2, 0>>, <<1, 1>>, <<2, 3>>, <<3, 2>>, <<1, 4>>, <<4, 1>>, <<4, 4>>, <<16,
    2>>, <<3, 17>>}
PShapes == {<<0, 0, 0>>, <<0, 0, 2>>, <<2, 0, 0>>, <<0, 2, 0>>, <<2, 0, 3>>, <<0, 3, 2>>, <<3, 2, 0>>, <<1, 0,
    1>>, <<4, 0, 4>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 1, 3>>, <<1, 2, 1>>, <<1, 2, 2>>, <<1, 2, 3>>, <<1,
    3, 1>>, <<1, 3, 2>>, <<1, 3, 3>>, <<2, 1, 1>>, <<2, 1, 2>>, <<2, 1, 3>>, <<2, 2, 1>>, <<2, 2, 2>>,
    <<2, 2, 3>>, <<2, 3, 1>>, <<2, 3, 2>>, <<2, 3, 3>>, <<3, 1, 1>>, <<3, 1, 2>>, <<3, 1, 3>>, <<3, 2,
    1>>, <<3, 2, 2>>, <<3, 2, 3>>, <<3, 3, 1>>, <<3, 3, 2>>, <<3, 3, 3>>, <<4, 4, 4>>, <<4, 3, 2>>, <<2,
    4, 1>>, <<5, 5, 5>>, <<6, 6, 6>>, <<7, 7, 7>>, <<8, 8, 8>>, <<5, 7, 5>>, <<7, 5, 3>>, <<1, 32, 1>>,
    <<2, 16, 1>>, <<16, 1, 2>>, <<3, 17, 3>>, <<4, 8, 4>>, <<2, 9, 2>>, <<8, 4, 8>>}
RShapes == {<<0, 1>>, <<0, 3>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<2, 4>>,
    <<3, 1>>, <<3, 2>>, <<3, 3>>, <<3, 4>>, <<4, 1>>, <<4, 2>>, <<4, 3>>, <<4, 4>>, <<5, 5>>, <<3, 5>>,
    <<5, 3>>, <<2, 6>>, <<6, 2>>, <<4, 8>>, <<8, 4>>, <<9, 2>>, <<2, 9>>, <<1, 16>>, <<16, 1>>, <<2,
    16>>, <<16, 2>>, <<1, 32>>, <<32, 1>>}
CShapes == {<<0, 1>>, <<0, 2>>, <<0, 5>>, <<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 1>>, <<3, 3>>, <<4, 1>>, <<4, 2>>,
    <<4, 4>>, <<5, 1>>, <<5, 5>>, <<6, 1>>, <<6, 2>>, <<6, 3>>, <<6, 6>>, <<7, 7>>, <<8, 2>>, <<8, 4>>,
    <<8, 8>>, <<9, 3>>, <<10, 2>>, <<10, 5>>, <<12, 1>>, <<12, 2>>, <<12, 3>>, <<12, 4>>, <<12, 6>>,
    <<15, 3>>, <<15, 5>>, <<16, 1>>, <<16, 2>>, <<16, 4>>, <<16, 8>>, <<18, 6>>, <<20, 4>>, <<21, 7>>,
    <<24, 8>>, <<25, 5>>, <<27, 9>>, <<28, 7>>, <<30, 10>>, <<30, 3>>, <<32, 1>>, <<32, 2>>, <<32, 4>>,
    <<32, 8>>, <<32, 16>>, <<32, 32>>}
CShapesFew == {<<0, 2>>, <<2, 1>>, <<4, 2>>, <<6, 2>>, <<6, 3>>, <<8, 8>>, <<32, 8>>}
SqDims == 1..8
(* harness/src/bin/big.rs, lin2.rs *)
BShapes == {<<9, 9>>, <<12, 12>>, <<16, 16>>, <<17, 17>>, <<32, 32>>, <<9, 10>>, <<32, 17>>, <<17, 32>>, <<11, 31>>, <<31, 11>>}
BSq == {9, 12, 16, 17, 32}
BProd == {<<9, 9, 9>>, <<16, 16, 16>>, <<17, 17, 17>>, <<32, 32, 32>>, <<32, 17, 32>>, <<17, 32, 17>>, <<11, 31, 11>>, <<31, 11, 31>>}
LSq == {9, 10, 12, 16, 17, 18, 24, 31, 32}
=============================================================================
