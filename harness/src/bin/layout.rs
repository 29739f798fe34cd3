//! Memory layout and heap use (spec/Layout.tla).
use rc_harness::fact::*;
use rc_harness::out::*;
use rc_harness::*;
use rowcol::matrix::Matrix;
use rowcol::prelude::{Cofactor, Determinant, Inverse};
use rowcol::vector::{ArrayLen, Vector};
use approx::ApproxEq;
use num::{Bounded, Complex, One, Zero};
use std::alloc::{GlobalAlloc, Layout, System};
use std::hint::black_box;
use std::mem::{align_of, size_of};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

struct Counting;
static CALLS: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { CALLS.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { CALLS.fetch_add(1, SeqCst); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { CALLS.fetch_add(1, SeqCst); System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;

struct Log { r: usize, c: usize, ev: Vec<String> }
impl Log {
    fn t<X>(&mut self, name: &str, f: impl FnOnce() -> X) {
        let mut n = 0;
        let ok = guard(|| {
            let before = CALLS.load(SeqCst);
            let x = black_box(f());
            drop(x);
            n = CALLS.load(SeqCst) - before;
        });
        self.ev.push(format!("[\"alloc\",\"{}\",{},{},\"{}\",{}]", name, self.r, self.c, if ok.is_some() { "ok" } else { "panic" }, n));
    }
}

fn sizev<T: Default, N: ArrayLen<T>>() -> String {
    let v = Vector::<T, N>::generate(|_| T::default());
    let base = &v as *const _ as usize;
    let offs: Vec<i64> = v.as_slice().iter().map(|e| e as *const T as usize as i64 - base as i64).collect();
    format!("{},{},{},{},{}", size_of::<T>(), align_of::<T>(), size_of::<Vector<T, N>>(), align_of::<Vector<T, N>>(), ints(offs))
}
fn sizem<T: Default, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>() -> String {
    let m = Matrix::<T, R, C>::generate(|_| T::default());
    let base = &m as *const _ as usize;
    let mut offs = vec![];
    for i in 0..R::to_usize() { for j in 0..C::to_usize() { offs.push(&m[(i, j)] as *const T as usize as i64 - base as i64) } }
    format!("{},{},{},{},{}", size_of::<T>(), align_of::<T>(), size_of::<Matrix<T, R, C>>(), align_of::<Matrix<T, R, C>>(), ints(offs))
}

fn vec<N: ArrayLen<i64> + ArrayLen<f64>>(l: &mut Log) {
    let n = N::to_usize();
    let mk = || Vector::<i64, N>::generate(|i| black_box(1 + i as i64 * 3));
    let a = mk();
    let b = mk();
    l.t("generate", mk);
    l.t("collect", || (0..n as i64).collect::<Vector<i64, N>>());
    l.t("clone", || a.clone());
    l.t("new-into_inner", || Vector::<i64, N>::new(mk().into_inner()));
    l.t("len", || (a.len(), a.is_empty()));
    l.t("slices", || { let mut v = mk(); v.as_slice_mut().iter_mut().for_each(|x| *x += 1); for x in v.iter_mut() { *x += 1 } let s: &[i64] = v.as_ref(); s.len() + v.as_slice().len() + v.iter().count() });
    l.t("index", || { let mut v = mk(); let mut t = 0; for i in 0..n { v[i] += 1; t += v[i] } t });
    l.t("into_iter", || mk().into_iter().fold(0, |x, y| x + y));
    l.t("into_iter-rev", || mk().into_iter().rev().count());
    l.t("into_iter-part", || { let mut it = mk().into_iter(); (it.nth(1), it.next_back(), it.len(), it.next()) });
    l.t("add", || mk() + mk());
    l.t("add-rv", || &a + mk());
    l.t("add-vr", || mk() + &b);
    l.t("add-rr", || &a + &b);
    l.t("sub", || mk() - mk());
    l.t("sub-rr", || &a - &b);
    l.t("assign", || { let mut v = mk(); v += mk(); v -= mk(); v *= 3; v /= 2; v });
    l.t("neg", || -mk());
    l.t("scale", || (mk() * 3, mk() / 2));
    l.t("dot", || a.dot(&b));
    l.t("sum", || a.sum());
    l.t("clamp", || { let mut v = mk(); v.clamp(2, 9); (v.clamped(3, 4), 0) });
    l.t("eq", || (a == b, a != b));
    l.t("zero", || (Vector::<i64, N>::zero(), a.is_zero(), Vector::<i64, N>::default()));
    l.t("bounded", || (Vector::<i64, N>::min_value(), Vector::<i64, N>::max_value()));
    let f = Vector::<f64, N>::generate(|i| black_box(i as f64 + 0.5));
    l.t("norm", || (f.norm(), f.normalized()));
}
fn mat<R, C>(l: &mut Log)
    where R: ArrayLen<Vector<i64, C>> + ArrayLen<Vector<f64, C>> + ArrayLen<Vector<Complex<f64>, C>> + ArrayLen<i64>,
          C: ArrayLen<i64> + ArrayLen<f64> + ArrayLen<Complex<f64>> + ArrayLen<Vector<i64, R>>,
{
    let (r, c) = (R::to_usize(), C::to_usize());
    let mk = || Matrix::<i64, R, C>::generate(|(i, j)| black_box(1 + (i * c + j) as i64 * 3));
    let a = mk();
    let b = mk();
    l.t("generate", mk);
    l.t("clone", || a.clone());
    l.t("dim", || (a.dim(), a.rows(), a.cols()));
    l.t("index", || { let mut v = mk(); let mut t = 0; for i in 0..r { for j in 0..c { v[(i, j)] += 1; t += v[(i, j)] } } t });
    l.t("map", || mk().map(|(i, j), x| x as f64 + (i * j) as f64));
    l.t("all-any", || (a.all(|_, &x| x > 0), a.any(|_, &x| x < 0)));
    l.t("transposed", || a.transposed());
    l.t("rows_iter", || a.rows_iter().fold(0, |s, v| s + v.sum()));
    l.t("cols_iter", || a.cols_iter().rev().fold(0, |s, v| s + v.sum()));
    l.t("rows_iter_ref", || a.rows_iter_ref().rev().fold(0, |s, v| s + v.len()));
    l.t("cols_iter_ref", || a.cols_iter_ref().fold(0, |s, v| s + v.fold(0, |x, y| x + y)));
    l.t("nth-back", || (a.rows_iter().nth(1), a.cols_iter().nth(1), a.rows_iter_ref().next_back(), a.cols_iter_ref().next_back().map(|x| x.len())));
    l.t("add", || mk() + mk());
    l.t("add-rr", || &a + &b);
    l.t("add-rv", || &a + mk());
    l.t("add-vr", || mk() + &b);
    l.t("sub", || mk() - mk());
    l.t("sub-rr", || &a - &b);
    l.t("assign", || { let mut v = mk(); v += mk(); v -= mk(); v *= 3; v /= 2; v });
    l.t("neg", || -mk());
    l.t("scale", || (mk() * 3, mk() * &3, mk() / 2, mk() / &2));
    l.t("mv", || (mk() * Vector::<i64, C>::generate(|j| j as i64), mk() * &Vector::<i64, C>::generate(|j| j as i64)));
    l.t("sum", || a.sum());
    l.t("clamp", || { let mut v = mk(); v.clamp(2, 9); v.clamped(3, 4) });
    l.t("eq", || (a == b, a != b));
    l.t("zero", || (Matrix::<i64, R, C>::zero(), a.is_zero(), Matrix::<i64, R, C>::default()));
    l.t("bounded", || (Matrix::<i64, R, C>::min_value(), Matrix::<i64, R, C>::max_value()));
    let z = Matrix::<Complex<f64>, R, C>::generate(|(i, j)| Complex::new(i as f64, j as f64));
    l.t("conjugate", || z.conjugate());
    let f = Matrix::<f64, R, C>::generate(|(i, j)| (i * 7 + j) as f64);
    l.t("approx", || (f.relative_eq(&f, 0.1, 0.1), f.ulps_eq(&f, 0.1, 3)));
}
/// big elements: everything that only moves or clones them
type Big = [u64; 24];
fn big(x: usize) -> Big { black_box([x as u64; 24]) }
fn bigvec<N: ArrayLen<Big>>(l: &mut Log) {
    let n = N::to_usize();
    let mk = || Vector::<Big, N>::generate(big);
    let a = mk();
    l.t("big-generate", mk);
    l.t("big-collect", || (0..n).map(big).collect::<Vector<Big, N>>());
    l.t("big-clone", || a.clone());
    l.t("big-new-into_inner", || Vector::<Big, N>::new(mk().into_inner()));
    l.t("big-index", || { let mut v = mk(); let mut t = 0; for i in 0..n { v[i][3] += 1; t += v[i][3] } t });
    l.t("big-into_iter", || mk().into_iter().fold(0, |x, y| x + y[0]));
    l.t("big-into_iter-rev", || mk().into_iter().rev().count());
    l.t("big-into_iter-part", || { let mut it = mk().into_iter(); (it.nth(1), it.next_back(), it.len(), it.next()) });
    l.t("big-eq", || (a == a, a != mk()));
    l.t("big-extremes", || (Vector::<Big, N>::generate(big).into_iter().max(), a.iter().min().cloned()));
}
fn bigmat<R, C>(l: &mut Log) where R: ArrayLen<Vector<Big, C>> + ArrayLen<Vector<u64, C>> + ArrayLen<Big>, C: ArrayLen<Big> + ArrayLen<u64> + ArrayLen<Vector<Big, R>> {
    let mk = || Matrix::<Big, R, C>::generate(|(i, j)| big(i * 40 + j));
    let a = mk();
    l.t("big-generate", mk);
    l.t("big-clone", || a.clone());
    l.t("big-map", || mk().map(|_, x| x));
    l.t("big-map-less", || mk().map(|_, x| x[0]));
    l.t("big-transposed", || a.transposed());
    l.t("big-rows_iter", || a.rows_iter().fold(0, |s, v| s + v.len()));
    l.t("big-cols_iter", || a.cols_iter().rev().fold(0, |s, v| s + v.len()));
    l.t("big-refs", || a.rows_iter_ref().rev().fold(0, |s, v| s + v.len()) + a.cols_iter_ref().fold(0, |s, v| s + v.count()));
    l.t("big-all-any", || (a.all(|_, x| x[0] < 9999), a.any(|_, x| x[0] > 9999)));
    l.t("big-eq", || a == a);
}
fn prod<X, Y, Z>(l: &mut Log)
    where X: ArrayLen<Vector<i64, Y>> + ArrayLen<Vector<i64, Z>>, Y: ArrayLen<i64> + ArrayLen<Vector<i64, Z>>, Z: ArrayLen<i64>
{
    let mk = || Matrix::<i64, X, Y>::generate(|(i, j)| black_box((i * 3 + j) as i64));
    let nk = || Matrix::<i64, Y, Z>::generate(|(i, j)| black_box((i * 5 + j) as i64));
    let (a, b) = (mk(), nk());
    l.t("mm", || mk() * nk());
    l.t("mm-rv", || &a * nk());
    l.t("mm-vr", || mk() * &b);
    l.t("mm-rr", || &a * &b);
}
macro_rules! lin { ($N:ty, $l:expr) => {{
    let l: &mut Log = $l;
    let a = Matrix::<f64, $N, $N>::generate(|(i, j)| black_box(if i == j { 3.0 } else { (i * 7 + j * 3 + 1) as f64 % 5.0 }));
    let z = Matrix::<f64, $N, $N>::generate(|(i, j)| black_box(if (i + 1) % <$N>::to_usize() == j { 2.0 } else { 0.0 }));
    l.t("det", || a.determinant());
    // a zero pivot costs factorial time
    if <$N>::to_usize() <= 8 { l.t("det-perm", || z.determinant()); }
    l.t("inv", || a.inverse());
    l.t("inv-perm", || z.inverse());
    l.t("inv-singular", || Matrix::<f64, $N, $N>::zero().inverse());
    l.t("pow", || (a.pow(0), a.pow(1), a.pow(6)));
    l.t("one", || (Matrix::<f64, $N, $N>::one(), Matrix::<f64, $N, $N>::identity()));
    l.t("transpose", || { let mut b = a; b.transpose(); b });
    l.t("mul-assign", || { let mut b = a; b *= a; b });
    l.t("copy", || { let b = a; let c = a; b == c });
    l.t("diag", || Matrix::<f64, $N, $N>::diag(std::array::from_fn(|i| i as f64)));
    l.t("new", || Matrix::<f64, $N, $N>::new(std::array::from_fn(|i| std::array::from_fn(|j| (i + j) as f64))));
    let k = Matrix::<i64, $N, $N>::generate(|(i, j)| (i * 5 + j * 3) as i64 % 7);
    let v = Vector::<i64, $N>::generate(|i| (i * 5) as i64 % 7);
    l.t("mextremes", || (k.max(), k.min(), k.max_by(|a, b| a.cmp(b)), k.min_by(|a, b| a.cmp(b))));
    l.t("vextremes", || (v.max(), v.min(), v.max_by(|a, b| a.cmp(b)), v.min_by(|a, b| a.cmp(b))));
    l.t("reshape", || Matrix::<i64, $N, U2>::from(Vector::<i64, rowcol::typenum::Prod<$N, U2>>::generate(|i| i as i64)));
}} }
use rowcol::typenum::consts::*;
use rowcol::typenum::Unsigned;

fn run(l: &str) -> String {
    let q = Req::parse(l);
    let (k, r, c, i) = (q.i(1), q.u(2), q.u(3), q.i(4));
    if q.w[0] == "size" {
        macro_rules! one { ($T:ty) => { if k == 1 { vdisp!(r, N, sizev::<$T, N>()) } else { mdisp!((r, c), R, C, sizem::<$T, R, C>()) } } }
        let x = match i { 1 => one!(u8), 2 => one!(u16), 3 => one!(u64), 4 => one!([u8; 3]), 5 => one!(()), 6 => one!(u128), _ => harness_bug(l) };
        return event(vec![s("size"), k.to_string(), r.to_string(), c.to_string(), x]);
    }
    let mut g = Log { r, c, ev: vec![] };
    let z = &mut g;
    match k {
        1 => vdisp!(r, N, vec::<N>(z)),
        2 => mdisp!((r, c), R, C, mat::<R, C>(z)),
        6 => vdisp!(r, N, bigvec::<N>(z)),
        7 => mdisp!(@ (r, c), R, C, bigmat::<R, C>(z), 1 U1 1 U1, 2 U2 3 U3, 3 U3 2 U2, 4 U4 4 U4, 8 U8 8 U8, 16 U16 2 U2, 10 U10 12 U12),
        8 => mdisp!(@ (r, c), R, C, mat::<R, C>(z), 12 U12 12 U12, 32 U32 32 U32, 31 U31 11 U11),
        9 => pdisp!(@ (r, c, i as usize), X, Y, Z, prod::<X, Y, Z>(z), 32 U32 32 U32 32 U32, 17 U17 32 U32 17 U17),
        10 => vdisp!(@ r, N, lin!(N, z), 9 U9, 12 U12, 16 U16),
        3 => pdisp!((r, c, i as usize), X, Y, Z, prod::<X, Y, Z>(z)),
        4 => { vdisp!(@ r, N, lin!(N, z), 1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 7 U7, 8 U8);
               if r > 1 { vdisp!(@ r, N, { let a = Matrix::<f64, N, N>::generate(|(i, j)| (i + 2 * j) as f64); z.t("cof", || a.cofactor((0, r - 1))) }, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 7 U7, 8 U8) }
               if r == 3 { let a = Vector::<i64, U3>::generate(|i| i as i64); z.t("cross", || a.cross(&a)) } }
        5 => ckdisp!((r, c), N, I, {
            z.t("chunks", || { let v = Vector::<i64, N>::generate(|i| i as i64); let mut t = 0; for k in v.into_chunks::<I>() { t += k.sum() } t });
            z.t("chunks-back", || { let v = Vector::<i64, N>::generate(|i| i as i64); let mut k = v.into_chunks::<I>(); (k.next_back(), k.next(), k.size_hint(), k.nth(1)) });
        }),
        _ => harness_bug(l),
    }
    format!("{{\"ev\":[{}]}}", g.ev.join(","))
}
fn main() { drive(run) }
