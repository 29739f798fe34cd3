#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))
V, M, I, A, O = 'src/vector.rs', 'src/matrix/mod.rs', 'src/matrix/iter.rs', 'src/matrix/arith.rs', 'src/matrix/ops.rs'

p('C01', 'Consuming iteration hands out or drops every element exactly once',
  'When a vector is consumed by its by-value iterator or split into by-value chunks, every element is either handed to the caller or dropped by the iterator, exactly once, never both and never twice, whatever mixture of front, back, skipping, counting and adaptor calls is made and wherever the iterator is abandoned. An element that has been handed out is never touched by the iterator again, and memory outside the not-yet-consumed elements is never read or dropped.',
  ['histories', 'inputs'], 'Every length 0..32, every element type (with and without a destructor, zero-sized), every sequence of next/next_back/nth/nth_back/len/count/last/fold/rev calls with any argument, ending anywhere.',
  'The tests call nth(1) once and reverse one 3-element Copy vector; no test mixes both ends, runs past the end or uses a type with a destructor.',
  [V], [('IntoIter next/back cursors delimit the live range of a NoDrop array', V + ': IntoIter, Iterator/DoubleEndedIterator/Drop impls'), ('Chunks delegates to IntoIter', V + ': Chunks')],
  [('next, back', 'half-open range of slots still owned by the iterator', V)], ['return value of each call', 'destructor calls of the element type'])

p('C02', 'Vector iterators behave as an exact-size double-ended queue of the elements',
  'The by-value iterator and the chunk iterator of a vector yield the elements (or consecutive chunks of the requested length, in element order) from the front in increasing and from the back in decreasing index order, each position once in total over both ends. After any history, the reported length, size hint and count equal the number of items still to come; skipping past the end yields nothing and leaves the iterator exhausted, and an exhausted iterator stays exhausted at both ends.',
  ['histories', 'inputs'], 'Every length 0..32, every chunk length dividing it, every sequence of iterator calls with any argument (up to the largest usize).',
  'Tests check one forward and one reverse walk; lengths after mixed-end use, over-long skips and calls after exhaustion are never exercised.',
  [V], [('cursor arithmetic in next/next_back/nth/len/size_hint', V + ': IntoIter'), ('take(I)/rev().take(I) on the inner iterator', V + ': Chunks::next, next_back, size_hint')],
  None, ['return values of next, next_back, nth, nth_back, len, size_hint, count, last, fold, rev'])

p('C03', 'Row and column iterators are exact-size double-ended views of the matrix',
  'Row and column iterators (by clone and by reference, and the element iterator inside a by-reference column) yield exactly the rows/columns/elements of the matrix at their true coordinates, from the front in increasing and from the back in decreasing order, each once in total over both ends. After any history the reported length, size hint and count equal the number of items still to come, skipping past the end exhausts the iterator, exhausted iterators stay exhausted, and the matrix itself is unchanged.',
  ['histories', 'inputs'], 'Every matrix shape (including zero rows or columns and non-square), every sequence of iterator calls with any argument, all five iterator kinds.',
  'One 2x3 test walks each kind in one direction only; lengths are checked only before the first call, and no test mixes ends, skips or overshoots.',
  [I, M], [('front/back cursors over rows or columns', I + ': RowsIter, ColsIter, RowsIterRef, ColsIterRef, ColsIterRefInner')],
  [('front/.1, back/.2', 'range of row/column indices still to be yielded', I)], ['return values of every iterator method'])

p('C04', 'Collecting yields a completely filled vector or panics',
  'Collecting an iterator into an N-vector yields exactly its first N items in order; if the source ends before N items the collection panics after dropping each item already taken exactly once. With debug assertions on, a source with more than N items panics as well; with them off the surplus is never stored. No vector with a missing, duplicated or uninitialised element is ever observable, whatever the source claims about its size.',
  ['inputs', 'fault_sequences'], 'Every N in 0..32, every source length, fused and unfused sources, honest and lying size hints, sources that panic midway, element types with and without destructors, both build profiles.',
  'No test collects a source of the wrong length, a panicking source, or a type with a destructor.',
  [V], [('slot-by-slot fill of an uninitialised array with explicit partial drop', V + ': FromIterator for Vector')],
  [('i', 'number of slots initialised', V)], ['result or panic', 'destructor calls', 'items pulled from the source'])

p('C05', 'Unwinding from user code never drops or uses an element twice',
  'If user-supplied code (closure, clone, comparison, arithmetic, source iterator or destructor) panics at any point inside any container operation, then during the unwinding and afterwards no element is dropped twice, no dropped or never-initialised element is read or dropped, and borrowed operands remain intact. Elements may be leaked only by such a panic.',
  ['fault_sequences', 'inputs'], 'Every operation of the vector, matrix and iterator API, every callback position at which a single panic can strike, several sizes including zero.',
  'No test panics inside a callback or uses an element type with a destructor.',
  [V, M, I, A], [('NoDrop wrapping of partially moved/filled arrays; cursor updated before the element is moved out', V + ': FromIterator, IntoIter'), ('in-place assignment only after the new value is complete', M + ': transpose, clamp; ' + A + ': MulAssign')],
  None, ['creation, read and destructor events of every element'])

p('C06', 'Completed operations neither leak, duplicate nor use a dead element',
  'For every container operation that returns normally, each element that was created (moved in, cloned or computed) is dropped exactly once by the time all operands and results have been dropped, and is never read or compared after its drop. By-value operands are consumed, by-reference operands keep all their elements.',
  ['inputs', 'histories'], 'Every operation and every by-value/by-reference operand form, every size including zero, element types with a destructor, alone and in long operation histories.',
  'All tests use Copy element types except one BigInt product; destructors are never counted.',
  [V, M, I, A, O], [('moves through IntoIter/FromIterator', V), ('Copy only when elements are Copy', V + ', ' + M)],
  None, ['creation, read and destructor events of every element'])

p('C07', 'Every constructor puts each element at the position it names',
  'new, the macros, generate, diag, identity, one, zero, default, the bounded extremes, and the reshape from a vector of rows*columns elements each produce the container whose element at every index is the one the constructor specifies (reshape and nested arrays being row-major). Generator functions are called exactly once per position, in row-major order with that position, and the is-zero test is true exactly when every element is zero.',
  ['inputs'], 'Every vector length 0..32, every matrix shape incl. rectangular and zero-sized, arbitrary (uninterpreted) elements.',
  'Tests construct 2x2/3x3 examples; rectangular diag, reshape (no test at all), call order and large or empty shapes are never checked.',
  [V, M, 'src/macros.rs', 'src/util.rs'], [('generate -> collect', V + ', ' + M), ('diag consumes the diagonal while generating row-major; Min length', M + ': diag; src/util.rs'), ('From<Vector> via into_chunks', M)],
  None, ['all elements read back through indexing', 'closure call log'])

p('C08', 'All access paths name the same element; writes touch nothing else',
  'Dynamic, statically checked and unchecked indexing, slices, the dereferenced array, iterators and row/column views all denote the same element for the same position, and a write through any of them changes exactly that element as seen through all of them, in every history of writes. A dynamic index outside the shape always panics, even when the flattened offset would be in range, and changes nothing.',
  ['histories', 'inputs'], 'Every shape, every position, every pair of write path and read path, every out-of-range index (per coordinate), arbitrary histories.',
  'Tests index a few in-range cells of 2x2 matrices; out-of-range and cross-path agreement are not tested.',
  [V, M, I], [('per-dimension bounds check of Vector<Vector<T>> indexing', M + ': Index<MatrixIdx>'), ('get_unchecked behind type-level comparison', V + ', ' + M + ': Index<UInt..>')],
  None, ['elements through every read path after every write'])

p('C09', 'Elementwise arithmetic acts position by position in every operand form',
  'Addition, subtraction and negation of vectors and matrices, multiplication and division by a scalar, and their assigning forms compute, at every position, exactly the element operation on the operands at that position in the written order, for any element type (also non-commutative) and in all by-value/by-reference forms. All forms of one operation agree, and by-reference operands are unchanged.',
  ['inputs'], 'All vector lengths 0..32, all matrix shapes, all operand forms, arbitrary element algebra (checked symbolically with uninterpreted elements and over finite fields).',
  'Tests try one or two small integer examples per form; non-commutative order, rectangular and large shapes are never covered.',
  [V, A], [('zip/map/collect over both operands', V + ': impl_vector_arith!'), ('matrix ops delegate to vector ops per row', A + ': impl_matrix_arith!')],
  None, ['result elements', 'operand elements afterwards'])

p('C10', 'Products follow the row-by-column definition in every operand form',
  'The product of an LxN and an NxR matrix has at (i,j) the sum over k of left(i,k)*right(k,j) with factors in that order; matrix-vector product, dot product, in-place product and power are the corresponding sums (power 0 is the identity), and the cross product of 3-vectors is the standard one. All by-value/by-reference forms agree for every ring, including non-commutative ones, and for zero-sized dimensions the empty sum is zero.',
  ['inputs'], 'All shape triples, all operand forms, all exponents, arbitrary ring elements (symbolic) plus finite-field values with many zeros.',
  'Tests multiply a few 2x2 integer matrices; rectangular, large, empty, and non-commutative cases and most reference forms are untested.',
  [A, V, M], [('rows_iter_ref x cols_iter_ref with fold from zero', A + ': Mul impls'), ('num::pow by squaring', M + ': pow'), ('dot, cross', V)],
  None, ['result elements'])

p('C11', 'Transposition, mapping and whole-container predicates respect coordinates',
  'transposed/transpose place element (i,j) at (j,i) and are involutions; map applies the function once to each element with its own coordinates, in row-major order, and keeps shape; conjugate conjugates each element. all/any are the conjunction/disjunction of the predicate over every (coordinate, element) pair, true/false on empty matrices, and never evaluate a pair twice.',
  ['inputs'], 'Every shape incl. rectangular and zero-sized, arbitrary elements and predicates (every single-position predicate).',
  'One 2x2 transposition and one 2x2 conjugation are tested; map coordinates, all/any on positions and rectangular shapes are not.',
  [M, I], [('transposed collects the column iterator', M + ': transposed'), ('nested enumerate', M + ': map, all, any')],
  None, ['result elements', 'closure call log'])

p('C12', 'Determinant and cofactors are exact over every field, zero pivots included',
  'For every square matrix over an exact field, of every supported size, the determinant equals the Leibniz sum and the cofactor at (i,j) equals (-1)^(i+j) times the determinant of the matrix without row i and column j; in particular for matrices whose elimination meets zero pivots and for singular ones. A cofactor index outside the matrix panics.',
  ['inputs'], 'All square sizes (1..8 explored), all values over small prime fields (exhaustive for small sizes), rationals, every zero pattern.',
  'Tests check a handful of matrices, the N>3 ones only in f32 with nonzero pivots (one assertion there is not even an assert).',
  [O], [('closed formulas for 1..3', O + ': Determinant U1,U2,U3'), ('elimination with fall-back to cofactor expansion on zero pivot', O + ': Determinant N>3'), ('minor extraction by filtered enumeration', O + ': Cofactor')],
  None, ['returned scalar'])

p('C13', 'Inverse exists exactly for nonsingular matrices and is two-sided',
  'For every square matrix A over an exact field, of every supported size, inverse() returns nothing exactly when det(A)=0, and otherwise a matrix B with A*B = B*A = identity, whatever the pivot pattern (e.g. permutation matrices). A itself is unchanged.',
  ['inputs'], 'All square sizes (1..8 explored), all values over small prime fields (exhaustive for small sizes), rationals, every zero pattern.',
  'Tests invert one matrix per size class, all with nonzero pivots; no singular matrix and no zero-pivot matrix is ever tried.',
  [O], [('adjugate/determinant for 2 and 3', O + ': Inverse U2,U3'), ('Gauss-Jordan elimination with row exchange', O + ': Inverse N>3')],
  None, ['returned option and its elements'])

p('C14', 'Sums, extrema and clamping are those of the element multiset',
  'sum is the sum of all elements (zero if empty). max/min and max_by/min_by return an element of the container that no other element exceeds/undercuts under the given order, wherever it is located; clamp and clamped (which agree) replace every element by itself if within the bounds and by the nearer bound otherwise, for lower <= upper.',
  ['inputs'], 'All lengths and shapes for which they exist, every position of the extremum, ties, arbitrary total orders, all bound pairs.',
  'Tests use one 3-vector and one 2x2 matrix, extremum in one place.',
  [V, M], [('fold/iterator max, row-wise then across rows', V + ': max.. ; ' + M + ': max, sum'), ('cmp::min(max, cmp::max(min, v))', V + ', ' + M + ': clamp')],
  None, ['returned element or container'])

p('C15', 'Equality and approximate equality hold exactly when they hold elementwise',
  'Two containers compare equal exactly when the elements at every position compare equal, and total equality is claimed only for elements that have it. Two matrices are relatively (ulps-) equal under given tolerances exactly when every pair of elements at the same position is, with those same tolerances and the element type\'s defaults.',
  ['inputs'], 'Every shape, every single differing position and every tolerance, vectors of different element types, unordered floating values (NaN).',
  'Equality is only used incidentally in asserts that succeed; a difference at a particular position is never shown to be noticed, approximate equality never tested on matrices.',
  [V, M], [('slice equality', V + ': PartialEq'), ('row/element all() with cloned tolerances', M + ': ApproxEq'), ('Eq bounds', V + ', ' + M)],
  None, ['boolean results'])

p('C16', 'Text rendering shows every cell in place in an aligned bracketed grid',
  'Displaying a matrix with non-empty cells yields, for each row, as many lines as its tallest cell, where every line has the same display width, begins and ends with the bracket piece for its position (top, middle, bottom), and holds the cells\' corresponding lines in column order, each cell\'s block centred (odd space to the right) in its column\'s maximal width and columns separated by one space. Debug output lists all elements in row-major order with row structure, and neither rendering panics for any shape, including zero rows or columns.',
  ['inputs'], 'Every shape, all combinations of cell widths and heights incl. wide and zero-width characters and nested matrices.',
  'One 2x2 and one nested 3x2 example are tested; empty shapes, single rows/columns, wide characters are not.',
  [M, V], [('two-pass width/height computation and padding', M + ': Display'), ('Debug', M + ', ' + V)],
  None, ['formatted string'])

p('C17', 'Shape errors are rejected at compile time and all valid shapes accepted',
  'A program using an operation with shapes for which it is undefined (sum or comparison of different shapes, product with mismatched inner dimension, determinant/inverse/identity/power of a non-square matrix, statically checked index out of range, chunk length not dividing the length, reshape of wrong length, wrongly sized array literal, extremum of an empty vector, cross product other than 3) does not compile, while the same program with valid shapes does.',
  ['programs', 'configurations'], 'All combinations of dimensions in a bounded range for every shape-constrained operation.',
  'Unit tests can only contain programs that compile.',
  [V, M, A, O, 'src/macros.rs', 'src/util.rs'], [('type-level dimensions and typenum comparison bounds', V + ', ' + M + ', ' + A + ', ' + O)],
  None, ['compiler verdict per program'])

p('C18', 'Values are exactly their elements, contiguous, and never use the heap',
  'A vector or matrix occupies exactly length times element size bytes with the elements contiguous in index (row-major) order, is Copy exactly when its elements are, and keeps its elements inside itself. No operation other than rendering to text allocates memory by itself.',
  ['inputs', 'configurations'], 'All lengths and shapes, several element types, every operation, all feature combinations.',
  'No test looks at layout or allocation.',
  [V, M], [('Vector wraps [T; N], Matrix wraps Vector<Vector>', V + ', ' + M)], None, ['size_of, element addresses', 'global allocator calls'])

p('C19', 'Prelude aliases and literal macros denote the shape and scalar they name',
  'Every VectorNfS alias is the N-vector and every MatrixNfS alias the NxN matrix of the S-bit float it names. vector![...] and matrix![...] with any number of elements/rows build the container with exactly that many elements/rows and columns, in the written order.',
  ['configurations', 'inputs'], 'All 26 aliases; macro invocations of every size 0..32 (vector) and a range of shapes (matrix).',
  'Tests use two aliases and macros of at most 2x2 or 5 elements.',
  ['src/prelude.rs', 'src/macros.rs'], [('type aliases', 'src/prelude.rs'), ('recursive counting', 'src/macros.rs')], None, ['type identity, dimensions, elements'])

p('C20', 'Norm and normalisation match the Euclidean definition',
  'norm() is the square root of the sum of the squares of all elements, for every length and position of the nonzero elements (exactly, whenever all intermediate values are exactly representable; zero for the empty or zero vector). normalized() divides every element by that norm.',
  ['inputs'], 'All lengths 0..32, integer-valued vectors (positive, negative, zero entries) with exactly representable norm, f32 and f64.',
  'One 2-vector (3,4) is tested.',
  [V], [('fold of squares, sqrt; clone divided by norm', V + ': norm, normalized')], None, ['returned scalar and vector'])

p('C21', 'Results do not depend on build profile or optional features',
  'Every history of valid operations gives identical results in debug and optimised builds and under every combination of the optional features, and element ownership is accounted for identically. The optional features only add (text rendering) or measure (display width) and change no other behaviour.',
  ['configurations', 'histories'], 'All 2^3 feature combinations times debug/release, over generated operation histories.',
  'The suite runs in one profile with default features only.',
  ['Cargo.toml', 'src/lib.rs', V, M], [('cfg attributes; debug_assert-only checks', 'src/lib.rs, ' + V + ', ' + M), ('needs_drop forwarding', 'Cargo.toml')], None, ['recorded traces per configuration'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
