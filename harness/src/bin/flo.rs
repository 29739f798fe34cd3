//! Elements that are no ring: floating point numbers with infinities and NaN, operations between different types
//! (spec/Floats.tla).
use rc_harness::fact::*;
use rc_harness::out::*;
use rc_harness::*;
use rowcol::matrix::{Determinant, Inverse, Matrix};
use rowcol::vector::{ArrayLen, Vector};
use num::Zero;
use std::ops::*;

const INF: i64 = 1000001;
const NAN: i64 = 1000003;
trait Fl: num::Float + num::Signed + AddAssign + SubAssign + MulAssign + DivAssign + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self> { fn of(x: i64) -> Self; fn out(self) -> f64; }
// "b" in front of an operation: generic numbers in, the bits of the results out
thread_local! { static BITS: std::cell::Cell<bool> = std::cell::Cell::new(false); }
fn bits() -> bool { BITS.with(|b| b.get()) }
macro_rules! fl { ($t:ident) => { impl Fl for $t {
    fn of(x: i64) -> $t { if bits() { x as $t / 1009.0 } else if x == INF { $t::INFINITY } else if x == -INF { $t::NEG_INFINITY } else if x == NAN { $t::NAN } else { x as $t } }
    fn out(self) -> f64 { self as f64 }
} } }
fl!(f32);
fl!(f64);
fn obs<T: Fl>(x: T) -> i64 {
    let y = x.out();
    if bits() { let k = if y != y { 0 } else { y.to_bits() }; return ((k ^ (k >> 31)) & 0x3fffffff) as i64; }
    if y != y { NAN } else if y.is_infinite() { if y > 0.0 { INF } else { -INF } } else if y == y.trunc() && y.abs() < 1e6 { y as i64 } else { 1999999 }
}
fn fix(x: f64) -> i64 { let y = x * 1048576.0; if y == y && y.abs() < 2e9 { y.round() as i64 } else { 2000000001 } }
fn vo<T: Fl, N: ArrayLen<T>>(v: Vector<T, N>) -> Vec<i64> { (0..N::to_usize()).map(|i| obs(v.as_slice()[i])).collect() }
fn mo<T: Fl, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(m: Matrix<T, R, C>) -> Vec<i64> {
    let mut q = vec![];
    for r in 0..R::to_usize() { for c in 0..C::to_usize() { q.push(obs(m[(r, c)])); } }
    q
}
fn vof<T: Fl, N: ArrayLen<T>>(a: &[i64]) -> Vector<T, N> { Vector::generate(|i| T::of(a[i])) }
fn mof<T: Fl, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(a: &[i64]) -> Matrix<T, R, C> { let c = C::to_usize(); Matrix::generate(|(i, j)| T::of(a[i * c + j])) }

macro_rules! forms { ($f:expr, $x:expr, $y:expr, $op:tt, $as:tt) => {{ let (mut x, y) = ($x, $y); match $f {
    0 => x $op y, 1 => x $op &y, 2 => &x $op y, 3 => &x $op &y, _ => { x $as y; x } }}} }
macro_rules! scal { ($f:expr, $x:expr, $y:expr, $op:tt, $as:tt) => {{ let (mut x, y) = ($x, $y); match $f {
    0 => x $op y, 1 => x $op &y, _ => { x $as y; x } }}} }

fn vec1<T: Fl, N: ArrayLen<T>>(op: &str, f: i64, a: &[i64], b: &[i64]) -> Vec<i64> where for<'a> &'a T: Add<T, Output = T> + Add<&'a T, Output = T> + Sub<T, Output = T> + Sub<&'a T, Output = T> {
    let x = || vof::<T, N>(a);
    let y = || vof::<T, N>(b);
    match op {
        "fadd" => vo(forms!(f, x(), y(), +, +=)),
        "fsub" => vo(forms!(f, x(), y(), -, -=)),
        "fmul" => vo(scal!(f, x(), T::of(b[0]), *, *=)),
        "fdiv" => vo(scal!(f, x(), T::of(b[0]), /, /=)),
        "fneg" => vo(-x()),
        "fdot" => vec![obs(x().dot(&y()))],
        "fsum" => vec![obs(x().sum())],
        "fiszero" => vec![x().is_zero() as i64],
        "feq" => { let q = x(); vec![(q == y()) as i64, (q == q) as i64] }
        "fnorm" => vec![obs(x().norm())],
        "funit" => vo(x().normalized()),
        _ => harness_bug(op),
    }
}
fn cross<T: Fl>(a: &[i64], b: &[i64]) -> Vec<i64> { vo(vof::<T, dims::U3>(a).cross(&vof(b))) }
fn mat1<T: Fl, R: ArrayLen<Vector<T, C>> + ArrayLen<T>, C: ArrayLen<T>>(op: &str, f: i64, a: &[i64], b: &[i64]) -> Vec<i64> where for<'a> &'a T: Add<T, Output = T> + Add<&'a T, Output = T> + Sub<T, Output = T> + Sub<&'a T, Output = T> {
    let x = || mof::<T, R, C>(a);
    let y = || mof::<T, R, C>(b);
    match op {
        "fadd" => mo(forms!(f, x(), y(), +, +=)),
        "fsub" => mo(forms!(f, x(), y(), -, -=)),
        "fmul" => mo(scal!(f, x(), T::of(b[0]), *, *=)),
        "fdiv" => mo(scal!(f, x(), T::of(b[0]), /, /=)),
        "fneg" => mo(-x()),
        "fsum" => vec![obs(x().sum())],
        "fiszero" => vec![x().is_zero() as i64],
        "feq" => { let q = x(); vec![(q == y()) as i64, (q == q) as i64] }
        "fmv" => { let w: Vector<T, C> = vof(b); vo(if f == 0 { x() * w } else { x() * &w }) }
        _ => harness_bug(op),
    }
}
fn prod<T: Fl, L: ArrayLen<Vector<T, N>> + ArrayLen<Vector<T, R>>, N: ArrayLen<Vector<T, R>> + ArrayLen<T>, R: ArrayLen<T>>(f: i64, a: &[i64], b: &[i64]) -> Vec<i64> {
    let (x, y) = (mof::<T, L, N>(a), mof::<T, N, R>(b));
    mo(match f { 0 => x * y, 1 => x * &y, 2 => &x * y, _ => &x * &y })
}
fn proda<T: Fl, N: ArrayLen<Vector<T, N>> + ArrayLen<T>>(a: &[i64], b: &[i64]) -> Vec<i64> { let mut x = mof::<T, N, N>(a); x *= mof::<T, N, N>(b); mo(x) }

// entries a * 2^sc
macro_rules! lin { ($t:ident, $op:expr, $n:expr, $sc:expr, $a:expr) => { sqdisp!($n, N, {
    let n = $n as i32;
    let sc = $sc as i32;
    if bits() {
        let m = mof::<$t, N, N>($a);
        if $op == "fdet" { vec![obs(m.determinant())] } else { m.inverse().map_or(vec![], |b| mo(b)) }
    } else {
    let m = Matrix::<$t, N, N>::generate(|(i, j)| $a[i * $n + j] as $t * (2.0 as $t).powi(sc));
    if $op == "fdet" { vec![fix(m.determinant() as f64 * 2f64.powi(-n * sc))] }
    else { match m.inverse() { None => vec![0], Some(b) => {
        let mut q = vec![1];
        for i in 0..$n { for j in 0..$n { q.push(fix(b[(i, j)] as f64 * 2f64.powi(sc))); } }
        q } } }
    }
}) } }

// operations that take and return different types
#[derive(Clone)] struct A(i64);
#[derive(Clone)] struct B(i64);
#[derive(Clone)] struct D(i64);
fn h(op: i64, x: i64, y: i64) -> D { D(100000 * op + 1000 * x + y) }
macro_rules! het { ($($tr:ident $f:ident $k:expr;)*) => { $(
    impl $tr<B> for A { type Output = D; fn $f(self, o: B) -> D { h($k, self.0, o.0) } }
    impl<'a> $tr<&'a B> for A { type Output = D; fn $f(self, o: &B) -> D { h($k, self.0, o.0) } }
    impl<'a> $tr<B> for &'a A { type Output = D; fn $f(self, o: B) -> D { h($k, self.0, o.0) } }
    impl<'a, 'b> $tr<&'b B> for &'a A { type Output = D; fn $f(self, o: &B) -> D { h($k, self.0, o.0) } }
)* } }
het! { Add add 1; Sub sub 2; Mul mul 3; Div div 4; }
macro_rules! heta { ($($tr:ident $f:ident $k:expr;)*) => { $(
    impl $tr<B> for A { fn $f(&mut self, o: B) { self.0 = h($k, self.0, o.0).0 } }
)* } }
heta! { AddAssign add_assign 1; SubAssign sub_assign 2; MulAssign mul_assign 3; DivAssign div_assign 4; }
impl Neg for A { type Output = D; fn neg(self) -> D { h(5, self.0, 0) } }
// matrices add elements of one type only, but may yield another
impl Add for B { type Output = D; fn add(self, o: B) -> D { h(1, self.0, o.0) } }
impl<'a> Add<&'a B> for B { type Output = D; fn add(self, o: &B) -> D { h(1, self.0, o.0) } }
impl<'a> Add<B> for &'a B { type Output = D; fn add(self, o: B) -> D { h(1, self.0, o.0) } }
impl<'a, 'b> Add<&'b B> for &'a B { type Output = D; fn add(self, o: &B) -> D { h(1, self.0, o.0) } }
impl Sub for B { type Output = D; fn sub(self, o: B) -> D { h(2, self.0, o.0) } }
impl<'a> Sub<&'a B> for B { type Output = D; fn sub(self, o: &B) -> D { h(2, self.0, o.0) } }
impl<'a> Sub<B> for &'a B { type Output = D; fn sub(self, o: B) -> D { h(2, self.0, o.0) } }
impl<'a, 'b> Sub<&'b B> for &'a B { type Output = D; fn sub(self, o: &B) -> D { h(2, self.0, o.0) } }

fn hv<N: ArrayLen<A> + ArrayLen<B> + ArrayLen<D>>(op: &str, f: i64, a: &[i64], b: &[i64]) -> Vec<i64> {
    let mut x = Vector::<A, N>::generate(|i| A(a[i]));
    let y = || Vector::<B, N>::generate(|i| B(b[i]));
    if f == 4 {
        match op { "hadd" => x += y(), "hsub" => x -= y(), "hmul" => x *= B(b[0]), _ => x /= B(b[0]) };
        return (0..N::to_usize()).map(|i| x.as_slice()[i].0).collect();
    }
    let r: Vector<D, N> = match (op, f) {
        ("hadd", 0) => x + y(), ("hadd", 1) => x + &y(), ("hadd", 2) => &x + y(), ("hadd", _) => &x + &y(),
        ("hsub", 0) => x - y(), ("hsub", 1) => x - &y(), ("hsub", 2) => &x - y(), ("hsub", _) => &x - &y(),
        ("hmul", 0) => x * B(b[0]), ("hmul", _) => x * &B(b[0]),
        ("hdiv", 0) => x / B(b[0]), ("hdiv", _) => x / &B(b[0]),
        ("hneg", _) => -x,
        _ => harness_bug(op),
    };
    (0..N::to_usize()).map(|i| r.as_slice()[i].0).collect()
}
fn hm<R: ArrayLen<Vector<A, C>> + ArrayLen<Vector<B, C>> + ArrayLen<Vector<D, C>>, C: ArrayLen<A> + ArrayLen<B> + ArrayLen<D>>(op: &str, f: i64, a: &[i64], b: &[i64]) -> Vec<i64> {
    let c = C::to_usize();
    if f == 4 {
        let mut x = Matrix::<A, R, C>::generate(|(i, j)| A(a[i * c + j]));
        let y = Matrix::<B, R, C>::generate(|(i, j)| B(b[i * c + j]));
        match op { "hadd" => x += y, _ => x -= y };
        return (0..a.len()).map(|k| x[(k / c, k % c)].0).collect();
    }
    let x = || Matrix::<B, R, C>::generate(|(i, j)| B(a[i * c + j]));
    let y = || Matrix::<B, R, C>::generate(|(i, j)| B(b[i * c + j]));
    let r: Matrix<D, R, C> = match (op, f) {
        ("hadd", 0) => x() + y(), ("hadd", 1) => x() + &y(), ("hadd", 2) => &x() + y(), ("hadd", _) => &x() + &y(),
        ("hsub", 0) => x() - y(), ("hsub", 1) => x() - &y(), ("hsub", 2) => &x() - y(), ("hsub", _) => &x() - &y(),
        ("hneg", _) => -Matrix::<A, R, C>::generate(|(i, j)| A(a[i * c + j])),
        ("hmap", _) => x().map(|(i, j), e| h(6, e.0, (i * c + j) as i64)),
        _ => harness_bug(op),
    };
    (0..a.len()).map(|k| r[(k / c, k % c)].0).collect()
}

fn run(l: &str) -> String {
    let q = Req::parse(l);
    let op = q.w[0].trim_start_matches('b');
    BITS.with(|b| b.set(q.w[0].starts_with('b')));
    let (f, bits) = (q.i(1), q.i(2));
    let (isv, d, sc) = (q.i(3) == 1, (q.u(4), q.u(5), q.u(6)), q.i(7));
    let (a, b) = q.n.split_at(d.0 * d.1);
    let w = bits == 32;
    macro_rules! two { ($e32:expr, $e64:expr) => { if w { $e32 } else { $e64 } } }
    let res = guard(|| match op {
        "fmm" => if f == 4 { two!(sqdisp!(all d.0, N, proda::<f32, N>(a, b)), sqdisp!(all d.0, N, proda::<f64, N>(a, b))) }
                 else { two!(pdisp!(d, L, K, R, prod::<f32, L, K, R>(f, a, b)), pdisp!(d, L, K, R, prod::<f64, L, K, R>(f, a, b))) },
        "fcross" => two!(cross::<f32>(a, b), cross::<f64>(a, b)),
        "fdet" | "finv" => two!(lin!(f32, op, d.0, sc, a), lin!(f64, op, d.0, sc, a)),
        _ if op.starts_with('h') => if isv { vdisp!(d.0, N, hv::<N>(op, f, a, b)) } else { mdisp!((d.0, d.1), R, C, hm::<R, C>(op, f, a, b)) },
        _ if isv => two!(vdisp!(d.0, N, vec1::<f32, N>(op, f, a, b)), vdisp!(d.0, N, vec1::<f64, N>(op, f, a, b))),
        _ => two!(mdisp!((d.0, d.1), R, C, mat1::<f32, R, C>(op, f, a, b)), mdisp!((d.0, d.1), R, C, mat1::<f64, R, C>(op, f, a, b))),
    });
    event(vec![s(&q.w[0]), f.to_string(), bits.to_string(), ints(vec![d.0 as i64, d.1 as i64, d.2 as i64]), sc.to_string(), ints(q.n.clone()),
               s(if res.is_some() { "ok" } else { "panic" }), ints(res.unwrap_or_default())])
}
fn main() { drive(run) }
