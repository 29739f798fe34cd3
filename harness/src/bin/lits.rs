//! Prelude aliases and literal macros (spec/Literals.tla).
#[macro_use] extern crate rowcol;
use rc_harness::fact::*;
use rc_harness::out::*;
use rc_harness::*;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use std::cell::RefCell;

thread_local!(static ORDER: RefCell<Vec<i64>> = RefCell::new(vec![]));
/// an element that can only be moved
struct X(i64);
fn e(i: i64) -> X { ORDER.with(|o| o.borrow_mut().push(i)); X(i) }

trait Bits { const B: i64; }
impl Bits for f32 { const B: i64 = 32; }
impl Bits for f64 { const B: i64 = 64; }
trait What { fn what() -> Vec<i64>; }
impl<T: Bits, N: ArrayLen<T>> What for Vector<T, N> { fn what() -> Vec<i64> { vec![1, N::to_usize() as i64, 0, T::B] } }
impl<T: Bits, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>> What for Matrix<T, R, C> {
    fn what() -> Vec<i64> { vec![2, R::to_usize() as i64, C::to_usize() as i64, T::B] }
}
fn vl<N: ArrayLen<X>>(v: Vector<X, N>) -> Vec<Vec<i64>> { vec![vec![v.len() as i64], v.into_iter().map(|x| x.0).collect()] }
fn ml<R: ArrayLen<Vector<X, C>>, C: ArrayLen<X>>(m: Matrix<X, R, C>) -> Vec<Vec<i64>> {
    let (r, c) = m.dim();
    let mut x = vec![];
    for i in 0..r { for j in 0..c { x.push(m[(i, j)].0) } }
    vec![vec![r as i64, c as i64], x]
}
fn alias(k: i64, n: i64, b: i64) -> Vec<i64> {
    match (k, n, b) {
        (1, 1, 32) => <Vector1f32 as What>::what(),
        (1, 1, 64) => <Vector1f64 as What>::what(),
        (1, 2, 32) => <Vector2f32 as What>::what(),
        (1, 2, 64) => <Vector2f64 as What>::what(),
        (1, 3, 32) => <Vector3f32 as What>::what(),
        (1, 3, 64) => <Vector3f64 as What>::what(),
        (1, 4, 32) => <Vector4f32 as What>::what(),
        (1, 4, 64) => <Vector4f64 as What>::what(),
        (1, 5, 32) => <Vector5f32 as What>::what(),
        (1, 5, 64) => <Vector5f64 as What>::what(),
        (1, 6, 32) => <Vector6f32 as What>::what(),
        (1, 6, 64) => <Vector6f64 as What>::what(),
        (1, 7, 32) => <Vector7f32 as What>::what(),
        (1, 7, 64) => <Vector7f64 as What>::what(),
        (1, 8, 32) => <Vector8f32 as What>::what(),
        (1, 8, 64) => <Vector8f64 as What>::what(),
        (1, 9, 32) => <Vector9f32 as What>::what(),
        (1, 9, 64) => <Vector9f64 as What>::what(),
        (1, 10, 32) => <Vector10f32 as What>::what(),
        (1, 10, 64) => <Vector10f64 as What>::what(),
        (2, 2, 32) => <Matrix2f32 as What>::what(),
        (2, 2, 64) => <Matrix2f64 as What>::what(),
        (2, 3, 32) => <Matrix3f32 as What>::what(),
        (2, 3, 64) => <Matrix3f64 as What>::what(),
        (2, 4, 32) => <Matrix4f32 as What>::what(),
        (2, 4, 64) => <Matrix4f64 as What>::what(),
        _ => harness_bug("alias"),
    }
}
fn vlit(n: i64) -> Vec<Vec<i64>> {
    match n {
        0 => vl(vector![]),
        1 => vl(vector![e(1)]),
        2 => vl(vector![e(1), e(2)]),
        3 => vl(vector![e(1), e(2), e(3)]),
        4 => vl(vector![e(1), e(2), e(3), e(4)]),
        5 => vl(vector![e(1), e(2), e(3), e(4), e(5)]),
        6 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6)]),
        7 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7)]),
        8 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8)]),
        9 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9)]),
        10 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10)]),
        11 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11)]),
        12 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12)]),
        13 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13)]),
        14 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14)]),
        15 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15)]),
        16 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16)]),
        17 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17)]),
        18 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18)]),
        19 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19)]),
        20 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20)]),
        21 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21)]),
        22 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22)]),
        23 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23)]),
        24 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24)]),
        25 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25)]),
        26 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26)]),
        27 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27)]),
        28 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28)]),
        29 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29)]),
        30 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30)]),
        31 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31)]),
        32 => vl(vector![e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32)]),
        _ => harness_bug("vector literal"),
    }
}
fn mlit(r: i64, c: i64) -> Vec<Vec<i64>> {
    match (r, c) {
        (0, 0) => ml(matrix![]),
        (1, 0) => ml(matrix![[]]),
        (1, 1) => ml(matrix![[e(1)]]),
        (1, 2) => ml(matrix![[e(1), e(2)]]),
        (1, 3) => ml(matrix![[e(1), e(2), e(3)]]),
        (1, 4) => ml(matrix![[e(1), e(2), e(3), e(4)]]),
        (1, 5) => ml(matrix![[e(1), e(2), e(3), e(4), e(5)]]),
        (1, 6) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6)]]),
        (2, 0) => ml(matrix![[], []]),
        (2, 1) => ml(matrix![[e(1)], [e(2)]]),
        (2, 2) => ml(matrix![[e(1), e(2)], [e(3), e(4)]]),
        (2, 3) => ml(matrix![[e(1), e(2), e(3)], [e(4), e(5), e(6)]]),
        (2, 4) => ml(matrix![[e(1), e(2), e(3), e(4)], [e(5), e(6), e(7), e(8)]]),
        (2, 5) => ml(matrix![[e(1), e(2), e(3), e(4), e(5)], [e(6), e(7), e(8), e(9), e(10)]]),
        (2, 6) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6)], [e(7), e(8), e(9), e(10), e(11), e(12)]]),
        (3, 0) => ml(matrix![[], [], []]),
        (3, 1) => ml(matrix![[e(1)], [e(2)], [e(3)]]),
        (3, 2) => ml(matrix![[e(1), e(2)], [e(3), e(4)], [e(5), e(6)]]),
        (3, 3) => ml(matrix![[e(1), e(2), e(3)], [e(4), e(5), e(6)], [e(7), e(8), e(9)]]),
        (3, 4) => ml(matrix![[e(1), e(2), e(3), e(4)], [e(5), e(6), e(7), e(8)], [e(9), e(10), e(11), e(12)]]),
        (3, 5) => ml(matrix![[e(1), e(2), e(3), e(4), e(5)], [e(6), e(7), e(8), e(9), e(10)], [e(11), e(12), e(13), e(14), e(15)]]),
        (3, 6) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6)], [e(7), e(8), e(9), e(10), e(11), e(12)], [e(13), e(14), e(15), e(16), e(17), e(18)]]),
        (4, 0) => ml(matrix![[], [], [], []]),
        (4, 1) => ml(matrix![[e(1)], [e(2)], [e(3)], [e(4)]]),
        (4, 2) => ml(matrix![[e(1), e(2)], [e(3), e(4)], [e(5), e(6)], [e(7), e(8)]]),
        (4, 3) => ml(matrix![[e(1), e(2), e(3)], [e(4), e(5), e(6)], [e(7), e(8), e(9)], [e(10), e(11), e(12)]]),
        (4, 4) => ml(matrix![[e(1), e(2), e(3), e(4)], [e(5), e(6), e(7), e(8)], [e(9), e(10), e(11), e(12)], [e(13), e(14), e(15), e(16)]]),
        (4, 5) => ml(matrix![[e(1), e(2), e(3), e(4), e(5)], [e(6), e(7), e(8), e(9), e(10)], [e(11), e(12), e(13), e(14), e(15)], [e(16), e(17), e(18), e(19), e(20)]]),
        (4, 6) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6)], [e(7), e(8), e(9), e(10), e(11), e(12)], [e(13), e(14), e(15), e(16), e(17), e(18)], [e(19), e(20), e(21), e(22), e(23), e(24)]]),
        (5, 0) => ml(matrix![[], [], [], [], []]),
        (5, 1) => ml(matrix![[e(1)], [e(2)], [e(3)], [e(4)], [e(5)]]),
        (5, 2) => ml(matrix![[e(1), e(2)], [e(3), e(4)], [e(5), e(6)], [e(7), e(8)], [e(9), e(10)]]),
        (5, 3) => ml(matrix![[e(1), e(2), e(3)], [e(4), e(5), e(6)], [e(7), e(8), e(9)], [e(10), e(11), e(12)], [e(13), e(14), e(15)]]),
        (5, 4) => ml(matrix![[e(1), e(2), e(3), e(4)], [e(5), e(6), e(7), e(8)], [e(9), e(10), e(11), e(12)], [e(13), e(14), e(15), e(16)], [e(17), e(18), e(19), e(20)]]),
        (5, 5) => ml(matrix![[e(1), e(2), e(3), e(4), e(5)], [e(6), e(7), e(8), e(9), e(10)], [e(11), e(12), e(13), e(14), e(15)], [e(16), e(17), e(18), e(19), e(20)], [e(21), e(22), e(23), e(24), e(25)]]),
        (5, 6) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6)], [e(7), e(8), e(9), e(10), e(11), e(12)], [e(13), e(14), e(15), e(16), e(17), e(18)], [e(19), e(20), e(21), e(22), e(23), e(24)], [e(25), e(26), e(27), e(28), e(29), e(30)]]),
        (6, 0) => ml(matrix![[], [], [], [], [], []]),
        (6, 1) => ml(matrix![[e(1)], [e(2)], [e(3)], [e(4)], [e(5)], [e(6)]]),
        (6, 2) => ml(matrix![[e(1), e(2)], [e(3), e(4)], [e(5), e(6)], [e(7), e(8)], [e(9), e(10)], [e(11), e(12)]]),
        (6, 3) => ml(matrix![[e(1), e(2), e(3)], [e(4), e(5), e(6)], [e(7), e(8), e(9)], [e(10), e(11), e(12)], [e(13), e(14), e(15)], [e(16), e(17), e(18)]]),
        (6, 4) => ml(matrix![[e(1), e(2), e(3), e(4)], [e(5), e(6), e(7), e(8)], [e(9), e(10), e(11), e(12)], [e(13), e(14), e(15), e(16)], [e(17), e(18), e(19), e(20)], [e(21), e(22), e(23), e(24)]]),
        (6, 5) => ml(matrix![[e(1), e(2), e(3), e(4), e(5)], [e(6), e(7), e(8), e(9), e(10)], [e(11), e(12), e(13), e(14), e(15)], [e(16), e(17), e(18), e(19), e(20)], [e(21), e(22), e(23), e(24), e(25)], [e(26), e(27), e(28), e(29), e(30)]]),
        (6, 6) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6)], [e(7), e(8), e(9), e(10), e(11), e(12)], [e(13), e(14), e(15), e(16), e(17), e(18)], [e(19), e(20), e(21), e(22), e(23), e(24)], [e(25), e(26), e(27), e(28), e(29), e(30)], [e(31), e(32), e(33), e(34), e(35), e(36)]]),
        (1, 32) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32)]]),
        (32, 1) => ml(matrix![[e(1)], [e(2)], [e(3)], [e(4)], [e(5)], [e(6)], [e(7)], [e(8)], [e(9)], [e(10)], [e(11)], [e(12)], [e(13)], [e(14)], [e(15)], [e(16)], [e(17)], [e(18)], [e(19)], [e(20)], [e(21)], [e(22)], [e(23)], [e(24)], [e(25)], [e(26)], [e(27)], [e(28)], [e(29)], [e(30)], [e(31)], [e(32)]]),
        (2, 16) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16)], [e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32)]]),
        (16, 2) => ml(matrix![[e(1), e(2)], [e(3), e(4)], [e(5), e(6)], [e(7), e(8)], [e(9), e(10)], [e(11), e(12)], [e(13), e(14)], [e(15), e(16)], [e(17), e(18)], [e(19), e(20)], [e(21), e(22)], [e(23), e(24)], [e(25), e(26)], [e(27), e(28)], [e(29), e(30)], [e(31), e(32)]]),
        (3, 17) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17)], [e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32), e(33), e(34)], [e(35), e(36), e(37), e(38), e(39), e(40), e(41), e(42), e(43), e(44), e(45), e(46), e(47), e(48), e(49), e(50), e(51)]]),
        (17, 3) => ml(matrix![[e(1), e(2), e(3)], [e(4), e(5), e(6)], [e(7), e(8), e(9)], [e(10), e(11), e(12)], [e(13), e(14), e(15)], [e(16), e(17), e(18)], [e(19), e(20), e(21)], [e(22), e(23), e(24)], [e(25), e(26), e(27)], [e(28), e(29), e(30)], [e(31), e(32), e(33)], [e(34), e(35), e(36)], [e(37), e(38), e(39)], [e(40), e(41), e(42)], [e(43), e(44), e(45)], [e(46), e(47), e(48)], [e(49), e(50), e(51)]]),
        (10, 12) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12)], [e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24)], [e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32), e(33), e(34), e(35), e(36)], [e(37), e(38), e(39), e(40), e(41), e(42), e(43), e(44), e(45), e(46), e(47), e(48)], [e(49), e(50), e(51), e(52), e(53), e(54), e(55), e(56), e(57), e(58), e(59), e(60)], [e(61), e(62), e(63), e(64), e(65), e(66), e(67), e(68), e(69), e(70), e(71), e(72)], [e(73), e(74), e(75), e(76), e(77), e(78), e(79), e(80), e(81), e(82), e(83), e(84)], [e(85), e(86), e(87), e(88), e(89), e(90), e(91), e(92), e(93), e(94), e(95), e(96)], [e(97), e(98), e(99), e(100), e(101), e(102), e(103), e(104), e(105), e(106), e(107), e(108)], [e(109), e(110), e(111), e(112), e(113), e(114), e(115), e(116), e(117), e(118), e(119), e(120)]]),
        (7, 7) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6), e(7)], [e(8), e(9), e(10), e(11), e(12), e(13), e(14)], [e(15), e(16), e(17), e(18), e(19), e(20), e(21)], [e(22), e(23), e(24), e(25), e(26), e(27), e(28)], [e(29), e(30), e(31), e(32), e(33), e(34), e(35)], [e(36), e(37), e(38), e(39), e(40), e(41), e(42)], [e(43), e(44), e(45), e(46), e(47), e(48), e(49)]]),
        (8, 8) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8)], [e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16)], [e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24)], [e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32)], [e(33), e(34), e(35), e(36), e(37), e(38), e(39), e(40)], [e(41), e(42), e(43), e(44), e(45), e(46), e(47), e(48)], [e(49), e(50), e(51), e(52), e(53), e(54), e(55), e(56)], [e(57), e(58), e(59), e(60), e(61), e(62), e(63), e(64)]]),
        (9, 4) => ml(matrix![[e(1), e(2), e(3), e(4)], [e(5), e(6), e(7), e(8)], [e(9), e(10), e(11), e(12)], [e(13), e(14), e(15), e(16)], [e(17), e(18), e(19), e(20)], [e(21), e(22), e(23), e(24)], [e(25), e(26), e(27), e(28)], [e(29), e(30), e(31), e(32)], [e(33), e(34), e(35), e(36)]]),
        (4, 9) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9)], [e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18)], [e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27)], [e(28), e(29), e(30), e(31), e(32), e(33), e(34), e(35), e(36)]]),
        (32, 32) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32)], [e(33), e(34), e(35), e(36), e(37), e(38), e(39), e(40), e(41), e(42), e(43), e(44), e(45), e(46), e(47), e(48), e(49), e(50), e(51), e(52), e(53), e(54), e(55), e(56), e(57), e(58), e(59), e(60), e(61), e(62), e(63), e(64)], [e(65), e(66), e(67), e(68), e(69), e(70), e(71), e(72), e(73), e(74), e(75), e(76), e(77), e(78), e(79), e(80), e(81), e(82), e(83), e(84), e(85), e(86), e(87), e(88), e(89), e(90), e(91), e(92), e(93), e(94), e(95), e(96)], [e(97), e(98), e(99), e(100), e(101), e(102), e(103), e(104), e(105), e(106), e(107), e(108), e(109), e(110), e(111), e(112), e(113), e(114), e(115), e(116), e(117), e(118), e(119), e(120), e(121), e(122), e(123), e(124), e(125), e(126), e(127), e(128)], [e(129), e(130), e(131), e(132), e(133), e(134), e(135), e(136), e(137), e(138), e(139), e(140), e(141), e(142), e(143), e(144), e(145), e(146), e(147), e(148), e(149), e(150), e(151), e(152), e(153), e(154), e(155), e(156), e(157), e(158), e(159), e(160)], [e(161), e(162), e(163), e(164), e(165), e(166), e(167), e(168), e(169), e(170), e(171), e(172), e(173), e(174), e(175), e(176), e(177), e(178), e(179), e(180), e(181), e(182), e(183), e(184), e(185), e(186), e(187), e(188), e(189), e(190), e(191), e(192)], [e(193), e(194), e(195), e(196), e(197), e(198), e(199), e(200), e(201), e(202), e(203), e(204), e(205), e(206), e(207), e(208), e(209), e(210), e(211), e(212), e(213), e(214), e(215), e(216), e(217), e(218), e(219), e(220), e(221), e(222), e(223), e(224)], [e(225), e(226), e(227), e(228), e(229), e(230), e(231), e(232), e(233), e(234), e(235), e(236), e(237), e(238), e(239), e(240), e(241), e(242), e(243), e(244), e(245), e(246), e(247), e(248), e(249), e(250), e(251), e(252), e(253), e(254), e(255), e(256)], [e(257), e(258), e(259), e(260), e(261), e(262), e(263), e(264), e(265), e(266), e(267), e(268), e(269), e(270), e(271), e(272), e(273), e(274), e(275), e(276), e(277), e(278), e(279), e(280), e(281), e(282), e(283), e(284), e(285), e(286), e(287), e(288)], [e(289), e(290), e(291), e(292), e(293), e(294), e(295), e(296), e(297), e(298), e(299), e(300), e(301), e(302), e(303), e(304), e(305), e(306), e(307), e(308), e(309), e(310), e(311), e(312), e(313), e(314), e(315), e(316), e(317), e(318), e(319), e(320)], [e(321), e(322), e(323), e(324), e(325), e(326), e(327), e(328), e(329), e(330), e(331), e(332), e(333), e(334), e(335), e(336), e(337), e(338), e(339), e(340), e(341), e(342), e(343), e(344), e(345), e(346), e(347), e(348), e(349), e(350), e(351), e(352)], [e(353), e(354), e(355), e(356), e(357), e(358), e(359), e(360), e(361), e(362), e(363), e(364), e(365), e(366), e(367), e(368), e(369), e(370), e(371), e(372), e(373), e(374), e(375), e(376), e(377), e(378), e(379), e(380), e(381), e(382), e(383), e(384)], [e(385), e(386), e(387), e(388), e(389), e(390), e(391), e(392), e(393), e(394), e(395), e(396), e(397), e(398), e(399), e(400), e(401), e(402), e(403), e(404), e(405), e(406), e(407), e(408), e(409), e(410), e(411), e(412), e(413), e(414), e(415), e(416)], [e(417), e(418), e(419), e(420), e(421), e(422), e(423), e(424), e(425), e(426), e(427), e(428), e(429), e(430), e(431), e(432), e(433), e(434), e(435), e(436), e(437), e(438), e(439), e(440), e(441), e(442), e(443), e(444), e(445), e(446), e(447), e(448)], [e(449), e(450), e(451), e(452), e(453), e(454), e(455), e(456), e(457), e(458), e(459), e(460), e(461), e(462), e(463), e(464), e(465), e(466), e(467), e(468), e(469), e(470), e(471), e(472), e(473), e(474), e(475), e(476), e(477), e(478), e(479), e(480)], [e(481), e(482), e(483), e(484), e(485), e(486), e(487), e(488), e(489), e(490), e(491), e(492), e(493), e(494), e(495), e(496), e(497), e(498), e(499), e(500), e(501), e(502), e(503), e(504), e(505), e(506), e(507), e(508), e(509), e(510), e(511), e(512)], [e(513), e(514), e(515), e(516), e(517), e(518), e(519), e(520), e(521), e(522), e(523), e(524), e(525), e(526), e(527), e(528), e(529), e(530), e(531), e(532), e(533), e(534), e(535), e(536), e(537), e(538), e(539), e(540), e(541), e(542), e(543), e(544)], [e(545), e(546), e(547), e(548), e(549), e(550), e(551), e(552), e(553), e(554), e(555), e(556), e(557), e(558), e(559), e(560), e(561), e(562), e(563), e(564), e(565), e(566), e(567), e(568), e(569), e(570), e(571), e(572), e(573), e(574), e(575), e(576)], [e(577), e(578), e(579), e(580), e(581), e(582), e(583), e(584), e(585), e(586), e(587), e(588), e(589), e(590), e(591), e(592), e(593), e(594), e(595), e(596), e(597), e(598), e(599), e(600), e(601), e(602), e(603), e(604), e(605), e(606), e(607), e(608)], [e(609), e(610), e(611), e(612), e(613), e(614), e(615), e(616), e(617), e(618), e(619), e(620), e(621), e(622), e(623), e(624), e(625), e(626), e(627), e(628), e(629), e(630), e(631), e(632), e(633), e(634), e(635), e(636), e(637), e(638), e(639), e(640)], [e(641), e(642), e(643), e(644), e(645), e(646), e(647), e(648), e(649), e(650), e(651), e(652), e(653), e(654), e(655), e(656), e(657), e(658), e(659), e(660), e(661), e(662), e(663), e(664), e(665), e(666), e(667), e(668), e(669), e(670), e(671), e(672)], [e(673), e(674), e(675), e(676), e(677), e(678), e(679), e(680), e(681), e(682), e(683), e(684), e(685), e(686), e(687), e(688), e(689), e(690), e(691), e(692), e(693), e(694), e(695), e(696), e(697), e(698), e(699), e(700), e(701), e(702), e(703), e(704)], [e(705), e(706), e(707), e(708), e(709), e(710), e(711), e(712), e(713), e(714), e(715), e(716), e(717), e(718), e(719), e(720), e(721), e(722), e(723), e(724), e(725), e(726), e(727), e(728), e(729), e(730), e(731), e(732), e(733), e(734), e(735), e(736)], [e(737), e(738), e(739), e(740), e(741), e(742), e(743), e(744), e(745), e(746), e(747), e(748), e(749), e(750), e(751), e(752), e(753), e(754), e(755), e(756), e(757), e(758), e(759), e(760), e(761), e(762), e(763), e(764), e(765), e(766), e(767), e(768)], [e(769), e(770), e(771), e(772), e(773), e(774), e(775), e(776), e(777), e(778), e(779), e(780), e(781), e(782), e(783), e(784), e(785), e(786), e(787), e(788), e(789), e(790), e(791), e(792), e(793), e(794), e(795), e(796), e(797), e(798), e(799), e(800)], [e(801), e(802), e(803), e(804), e(805), e(806), e(807), e(808), e(809), e(810), e(811), e(812), e(813), e(814), e(815), e(816), e(817), e(818), e(819), e(820), e(821), e(822), e(823), e(824), e(825), e(826), e(827), e(828), e(829), e(830), e(831), e(832)], [e(833), e(834), e(835), e(836), e(837), e(838), e(839), e(840), e(841), e(842), e(843), e(844), e(845), e(846), e(847), e(848), e(849), e(850), e(851), e(852), e(853), e(854), e(855), e(856), e(857), e(858), e(859), e(860), e(861), e(862), e(863), e(864)], [e(865), e(866), e(867), e(868), e(869), e(870), e(871), e(872), e(873), e(874), e(875), e(876), e(877), e(878), e(879), e(880), e(881), e(882), e(883), e(884), e(885), e(886), e(887), e(888), e(889), e(890), e(891), e(892), e(893), e(894), e(895), e(896)], [e(897), e(898), e(899), e(900), e(901), e(902), e(903), e(904), e(905), e(906), e(907), e(908), e(909), e(910), e(911), e(912), e(913), e(914), e(915), e(916), e(917), e(918), e(919), e(920), e(921), e(922), e(923), e(924), e(925), e(926), e(927), e(928)], [e(929), e(930), e(931), e(932), e(933), e(934), e(935), e(936), e(937), e(938), e(939), e(940), e(941), e(942), e(943), e(944), e(945), e(946), e(947), e(948), e(949), e(950), e(951), e(952), e(953), e(954), e(955), e(956), e(957), e(958), e(959), e(960)], [e(961), e(962), e(963), e(964), e(965), e(966), e(967), e(968), e(969), e(970), e(971), e(972), e(973), e(974), e(975), e(976), e(977), e(978), e(979), e(980), e(981), e(982), e(983), e(984), e(985), e(986), e(987), e(988), e(989), e(990), e(991), e(992)], [e(993), e(994), e(995), e(996), e(997), e(998), e(999), e(1000), e(1001), e(1002), e(1003), e(1004), e(1005), e(1006), e(1007), e(1008), e(1009), e(1010), e(1011), e(1012), e(1013), e(1014), e(1015), e(1016), e(1017), e(1018), e(1019), e(1020), e(1021), e(1022), e(1023), e(1024)]]),
        (1, 10) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10)]]),
        (10, 1) => ml(matrix![[e(1)], [e(2)], [e(3)], [e(4)], [e(5)], [e(6)], [e(7)], [e(8)], [e(9)], [e(10)]]),
        (31, 2) => ml(matrix![[e(1), e(2)], [e(3), e(4)], [e(5), e(6)], [e(7), e(8)], [e(9), e(10)], [e(11), e(12)], [e(13), e(14)], [e(15), e(16)], [e(17), e(18)], [e(19), e(20)], [e(21), e(22)], [e(23), e(24)], [e(25), e(26)], [e(27), e(28)], [e(29), e(30)], [e(31), e(32)], [e(33), e(34)], [e(35), e(36)], [e(37), e(38)], [e(39), e(40)], [e(41), e(42)], [e(43), e(44)], [e(45), e(46)], [e(47), e(48)], [e(49), e(50)], [e(51), e(52)], [e(53), e(54)], [e(55), e(56)], [e(57), e(58)], [e(59), e(60)], [e(61), e(62)]]),
        (2, 31) => ml(matrix![[e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31)], [e(32), e(33), e(34), e(35), e(36), e(37), e(38), e(39), e(40), e(41), e(42), e(43), e(44), e(45), e(46), e(47), e(48), e(49), e(50), e(51), e(52), e(53), e(54), e(55), e(56), e(57), e(58), e(59), e(60), e(61), e(62)]]),
        _ => harness_bug("matrix literal"),
    }
}
fn run(l: &str) -> String {
    let q = Req::parse(l);
    ORDER.with(|o| o.borrow_mut().clear());
    match &q.w[0][..] {
        "alias" => { let x = alias(q.i(1), q.i(2), q.i(3));
            event([vec![s("alias")], q.w[1..4].to_vec(), x.iter().map(|y| y.to_string()).collect()].concat()) }
        "vlit" => { let x = vlit(q.i(1));
            event(vec![s("vlit"), q.w[1].clone(), x[0][0].to_string(), ints(x[1].clone()), ORDER.with(|o| ints(o.borrow().clone()))]) }
        "mlit" => { let x = mlit(q.i(1), q.i(2));
            event(vec![s("mlit"), q.w[1].clone(), q.w[2].clone(), x[0][0].to_string(), x[0][1].to_string(), ints(x[1].clone()), ORDER.with(|o| ints(o.borrow().clone()))]) }
        _ => harness_bug(l),
    }
}
fn main() { drive(run) }
