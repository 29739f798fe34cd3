//! The register machine: rowcol's operations on registers holding vectors and
//! matrices of harness elements.  Spec counterpart: spec/RowCol.tla.
use crate::elem::*;
use crate::ledger::{self, with, Value};
use crate::out::*;
use num::{Bounded, One, Zero};
use rowcol::matrix::Matrix;
use rowcol::vector::{ArrayLen, Vector};
use std::any::Any;
use std::cmp::Ordering;
use num::Complex;

pub const NREG: usize = 8;

pub struct Reg {
    pub k: u8, // 1 vector, 2 matrix
    pub r: usize,
    pub c: usize,
    pub b: Box<dyn Any>,
    pub show: fn(&dyn Any) -> Vec<Value>,
}

#[derive(Clone)]
pub struct Op {
    pub name: String,
    pub f: i64,
    pub d: usize,
    pub a: usize,
    pub b: usize,
    pub p: Vec<i64>,
    pub fuse: u64,
}
impl Op {
    pub fn x(&self, i: usize) -> i64 { self.p[i] }
    pub fn u(&self, i: usize) -> usize { us(self.p[i]) }
    pub fn aref(&self) -> bool { self.f & 1 != 0 }
    pub fn bref(&self) -> bool { self.f & 2 != 0 }
}
/// negative -k stands for 2^64 - k
pub fn us(a: i64) -> usize { if a < 0 { usize::MAX - (-a as usize) + 1 } else { a as usize } }

#[derive(Default)]
pub struct O {
    pub res: Vec<Value>,
    pub nums: Vec<i64>,
    pub calls: Vec<Vec<i64>>,
}
impl O {
    fn flag(&mut self, b: bool) { self.nums.push(b as i64) }
}

pub struct Regs(pub Vec<Option<Reg>>);
impl Regs {
    pub fn new() -> Regs { Regs((0..NREG).map(|_| None).collect()) }
    pub fn reg(&self, i: usize) -> &Reg { self.0[i - 1].as_ref().expect("empty register") }
    pub fn take<V: 'static>(&mut self, i: usize) -> V { *self.0[i - 1].take().expect("empty register").b.downcast::<V>().expect("register type") }
    pub fn r<V: 'static>(&self, i: usize) -> &V { self.reg(i).b.downcast_ref::<V>().expect("register type") }
    pub fn m<V: 'static>(&mut self, i: usize) -> &mut V { self.0[i - 1].as_mut().expect("empty register").b.downcast_mut::<V>().expect("register type") }
    pub fn dims(&self, i: usize) -> (usize, usize) { let r = self.reg(i); (r.r, r.c) }
}

/// Values in memory order, read behind the library's back.
fn raw<E: Elem, V>(v: &V, n: usize) -> Vec<Value> {
    assert_eq!(std::mem::size_of::<V>(), n * std::mem::size_of::<E>());
    let s = unsafe { std::slice::from_raw_parts(v as *const V as *const E, n) };
    s.iter().map(|e| e.val()).collect()
}

/// the harness's element for parameter x
pub fn pv(x: i64) -> Value {
    if with(|l| l.sym) {
        if x == 0 { v_zero() } else { sym_gen(x as i32) }
    } else if with(|l| l.rat) { rat_of(x) } else { Value::Gf(md(x)) }
}

/// user comparison: order by ((v * k) mod p) / q
fn key(v: &Value, k: i64, q: i64) -> i64 { match v { Value::Gf(x) => md(x * k).div_euclid(q), _ => 0 } }

/// a source that announces lo..=hi items whatever it has, may yield again after its end
pub struct Source<E> { pub left: i64, pub next: i64, pub lo: i64, pub hi: i64, pub again: i64, pub ended: bool, pub _e: std::marker::PhantomData<E>, pub asked: i64 }
impl<E: Elem> Iterator for Source<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        ledger::tick();
        self.asked += 1;
        if self.left == 0 {
            if self.again > 0 && self.ended { self.left = self.again; self.again = 0; }
            else { self.ended = true; return None; }
        }
        self.left -= 1;
        self.next += 1;
        Some(E::mk(pv(self.next), self.next))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (us(self.lo), if self.hi == -9 { None } else { Some(us(self.hi)) }) }
}

#[macro_export]
macro_rules! ops_for { ($E:ty, $m:ident) => { pub mod $m {
use super::*;
type E = $E;

pub fn mk(x: i64) -> E { <E as Elem>::mk(pv(x), 0) }
pub fn showv<N: ArrayLen<E> + 'static>(x: &dyn Any) -> Vec<Value> {
    raw::<E, _>(x.downcast_ref::<Vector<E, N>>().unwrap(), N::to_usize())
}
pub fn showm<R: ArrayLen<Vector<E, C>> + 'static, C: ArrayLen<E> + 'static>(x: &dyn Any) -> Vec<Value> {
    raw::<E, _>(x.downcast_ref::<Matrix<E, R, C>>().unwrap(), R::to_usize() * C::to_usize())
}
pub fn putv<N: ArrayLen<E> + 'static>(g: &mut Regs, d: usize, v: Vector<E, N>) {
    g.0[d - 1] = Some(Reg { k: 1, r: N::to_usize(), c: 0, b: Box::new(v), show: showv::<N> });
}
pub fn putm<R: ArrayLen<Vector<E, C>> + 'static, C: ArrayLen<E> + 'static>(g: &mut Regs, d: usize, v: Matrix<E, R, C>) {
    g.0[d - 1] = Some(Reg { k: 2, r: R::to_usize(), c: C::to_usize(), b: Box::new(v), show: showm::<R, C> });
}
fn clampargs(op: &Op) -> (E, E) { (mk(op.x(0)), mk(op.x(1))) }

/// operations on vectors of one length
pub fn vec_op<N: ArrayLen<E> + 'static>(g: &mut Regs, o: &mut O, op: &Op) -> bool {
    let n = N::to_usize();
    macro_rules! bin { ($tr:ident, $fn:ident) => {{
        use std::ops::$tr;
        let v: Vector<E, N> = match (op.aref(), op.bref()) {
            (false, false) => { let a: Vector<E, N> = g.take(op.a); let b: Vector<E, N> = g.take(op.b); $tr::$fn(a, b) }
            (true, false) => { let b: Vector<E, N> = g.take(op.b); $tr::$fn(g.r::<Vector<E, N>>(op.a), b) }
            (false, true) => { let a: Vector<E, N> = g.take(op.a); $tr::$fn(a, g.r::<Vector<E, N>>(op.b)) }
            (true, true) => $tr::$fn(g.r::<Vector<E, N>>(op.a), g.r::<Vector<E, N>>(op.b)),
        };
        putv::<N>(g, op.d, v);
    }} }
    match &op.name[..] {
        "vgen" => {
            let cs = std::mem::take(&mut o.calls);
            let mut cs = cs;
            let v = Vector::<E, N>::generate(|i| { ledger::tick(); cs.push(vec![i as i64]); mk(op.p[(i + 1).min(op.p.len() - 1)]) });
            o.calls = cs;
            putv::<N>(g, op.d, v);
        }
        "vcol" => { let v: Vector<E, N> = op.p[1..1 + n].iter().map(|&x| { ledger::tick(); mk(x) }).collect(); putv::<N>(g, op.d, v); }
        "vcolx" => {
            // n, items, claimed lower bound, claimed upper bound, items after the end
            let mut src = Source::<E> { left: op.x(1), next: 0, lo: op.x(2), hi: op.x(3), again: op.x(4), ended: false, _e: std::marker::PhantomData, asked: 0 };
            let v: Vector<E, N> = if op.f == 0 { src.by_ref().collect() } else { src.collect() };
            putv::<N>(g, op.d, v);
        }
        "vdef" => { let v = Vector::<E, N>::default(); putv::<N>(g, op.d, v); }
        "vzero" => { let v = <Vector<E, N> as Zero>::zero(); putv::<N>(g, op.d, v); }
        "vmin" => { let v = <Vector<E, N> as Bounded>::min_value(); putv::<N>(g, op.d, v); }
        "vmax" => { let v = <Vector<E, N> as Bounded>::max_value(); putv::<N>(g, op.d, v); }
        "vclone" => { let v = g.r::<Vector<E, N>>(op.a).clone(); putv::<N>(g, op.d, v); }
        "vinner" => { let a: Vector<E, N> = g.take(op.a); let arr = a.into_inner(); putv::<N>(g, op.d, Vector::new(arr)); }
        "vlen" => { let a = g.r::<Vector<E, N>>(op.a); o.nums.push(a.len() as i64); o.flag(a.is_empty()); }
        "vread" => {
            let a = g.r::<Vector<E, N>>(op.a);
            match op.f {
                0 => for i in 0..n { o.res.push(a[i].val()) },
                1 => for e in a.as_slice() { o.res.push(e.val()) },
                2 => { let s: &[E] = a.as_ref(); for e in s { o.res.push(e.val()) } }
                3 => { let s: &[E] = AsRef::<[E]>::as_ref(&**a); for e in s { o.res.push(e.val()) } }
                4 => for e in a.iter() { o.res.push(e.val()) },
                5 => for i in 0..n { o.res.push(unsafe { a.get_unchecked(i) }.val()) },
                6 => for e in a.iter().rev() { o.res.insert(0, e.val()) },
                _ => $crate::harness_bug("path"),
            }
        }
        "vget" => {
            let a = g.r::<Vector<E, N>>(op.a);
            let i = op.u(0);
            let e = match op.f { 0 => &a[i], 1 => &a.as_slice()[i], 2 => &AsRef::<[E]>::as_ref(a)[i], 4 => a.iter().nth(i).unwrap(),
                5 => unsafe { a.get_unchecked(i) }, _ => $crate::harness_bug("path") };
            o.res.push(e.val());
        }
        "vset" => {
            let x = mk(op.x(1));
            let a = g.m::<Vector<E, N>>(op.a);
            let i = op.u(0);
            match op.f {
                0 => a[i] = x,
                1 => a.as_slice_mut()[i] = x,
                2 => AsMut::<[E]>::as_mut(a)[i] = x,
                3 => (&mut **a).as_mut()[i] = x,
                4 => *a.iter_mut().nth(i).unwrap() = x,
                5 => unsafe { *a.get_unchecked_mut(i) = x },
                _ => $crate::harness_bug("path"),
            }
        }
        "vadd" => bin!(Add, add),
        "vsub" => bin!(Sub, sub),
        "vadda" => { let b: Vector<E, N> = g.take(op.b); *g.m::<Vector<E, N>>(op.a) += b; }
        "vsuba" => { let b: Vector<E, N> = g.take(op.b); *g.m::<Vector<E, N>>(op.a) -= b; }
        "vneg" => { let a: Vector<E, N> = g.take(op.a); putv::<N>(g, op.d, -a); }
        "vmuls" => { let s = mk(op.x(0)); let a: Vector<E, N> = g.take(op.a); let v = if op.f == 0 { a * s } else { a * &s }; putv::<N>(g, op.d, v); }
        "vdivs" => { let s = mk(op.x(0)); let a: Vector<E, N> = g.take(op.a); let v = if op.f == 0 { a / s } else { a / &s }; putv::<N>(g, op.d, v); }
        "vmulsa" => { let s = mk(op.x(0)); if op.f == 0 { *g.m::<Vector<E, N>>(op.a) *= s } else { *g.m::<Vector<E, N>>(op.a) *= &s } }
        "vdivsa" => { let s = mk(op.x(0)); if op.f == 0 { *g.m::<Vector<E, N>>(op.a) /= s } else { *g.m::<Vector<E, N>>(op.a) /= &s } }
        "vdot" => { let e = g.r::<Vector<E, N>>(op.a).dot(g.r::<Vector<E, N>>(op.b)); o.res.push(e.val()); }
        "vsum" => { let e = g.r::<Vector<E, N>>(op.a).sum(); o.res.push(e.val()); }
        "vclamp" => { let (lo, hi) = clampargs(op); g.m::<Vector<E, N>>(op.a).clamp(lo, hi); }
        "vclamped" => { let (lo, hi) = clampargs(op); let v = g.r::<Vector<E, N>>(op.a).clamped(lo, hi); putv::<N>(g, op.d, v); }
        "veq" => { let (a, b) = (g.r::<Vector<E, N>>(op.a), g.r::<Vector<E, N>>(op.b)); o.flag(a == b); o.flag(a != b); }
        "viszero" => { let a = g.r::<Vector<E, N>>(op.a); o.flag(a.is_zero()); }
        "vdrop" => { let a: Vector<E, N> = g.take(op.a); drop(a); }
        _ => return false,
    }
    true
}

/// operations on matrices of one shape
pub fn mat_op<R, C>(g: &mut Regs, o: &mut O, op: &Op) -> bool
    where R: ArrayLen<Vector<E, C>> + ArrayLen<Vector<Complex<E>, C>> + ArrayLen<E> + 'static,
          C: ArrayLen<E> + ArrayLen<Complex<E>> + ArrayLen<Vector<E, R>> + 'static,
{
    let (r, c) = (R::to_usize(), C::to_usize());
    macro_rules! bin { ($tr:ident, $fn:ident) => {{
        use std::ops::$tr;
        let v: Matrix<E, R, C> = match (op.aref(), op.bref()) {
            (false, false) => { let a: Matrix<E, R, C> = g.take(op.a); let b: Matrix<E, R, C> = g.take(op.b); $tr::$fn(a, b) }
            (true, false) => { let b: Matrix<E, R, C> = g.take(op.b); $tr::$fn(g.r::<Matrix<E, R, C>>(op.a), b) }
            (false, true) => { let a: Matrix<E, R, C> = g.take(op.a); $tr::$fn(a, g.r::<Matrix<E, R, C>>(op.b)) }
            (true, true) => $tr::$fn(g.r::<Matrix<E, R, C>>(op.a), g.r::<Matrix<E, R, C>>(op.b)),
        };
        putm::<R, C>(g, op.d, v);
    }} }
    match &op.name[..] {
        "mgen" => {
            let mut cs = std::mem::take(&mut o.calls);
            let m = Matrix::<E, R, C>::generate(|(i, j)| { ledger::tick(); cs.push(vec![i as i64, j as i64]); mk(op.p[(2 + i * c + j).min(op.p.len() - 1)]) });
            o.calls = cs;
            putm::<R, C>(g, op.d, m);
        }
        "mdef" => { let v = Matrix::<E, R, C>::default(); putm::<R, C>(g, op.d, v); }
        "mzero" => { let v = <Matrix<E, R, C> as Zero>::zero(); putm::<R, C>(g, op.d, v); }
        "mmin" => { let v = <Matrix<E, R, C> as Bounded>::min_value(); putm::<R, C>(g, op.d, v); }
        "mmax" => { let v = <Matrix<E, R, C> as Bounded>::max_value(); putm::<R, C>(g, op.d, v); }
        "mclone" => { let v = g.r::<Matrix<E, R, C>>(op.a).clone(); putm::<R, C>(g, op.d, v); }
        "mdim" => { let a = g.r::<Matrix<E, R, C>>(op.a); let d = a.dim(); o.nums.extend([d.0 as i64, d.1 as i64, a.rows() as i64, a.cols() as i64]); }
        "mread" => {
            let a = g.r::<Matrix<E, R, C>>(op.a);
            match op.f {
                0 => for i in 0..r { for j in 0..c { o.res.push(a[(i, j)].val()) } },
                1 => for i in 0..r { for j in 0..c { o.res.push(unsafe { a.get_unchecked((i, j)) }.val()) } },
                2 => for row in a.rows_iter_ref() { for e in row { o.res.push(e.val()) } },
                3 => { let cols: Vec<Vec<Value>> = a.cols_iter_ref().map(|k| k.map(|e| e.val()).collect()).collect();
                       for i in 0..r { for j in 0..c { o.res.push(cols[j][i].clone()) } } }
                4 => for row in a.rows_iter() { for e in row.iter() { o.res.push(e.val()) } },
                5 => { let cols: Vec<Vec<Value>> = a.cols_iter().map(|k| k.iter().map(|e| e.val()).collect()).collect();
                       for i in 0..r { for j in 0..c { o.res.push(cols[j][i].clone()) } } }
                6 => { let cols: Vec<Vec<Value>> = a.cols_iter_ref().rev().map(|k| k.rev().map(|e| e.val()).collect()).collect();
                       for i in 0..r { for j in 0..c { o.res.push(cols[c - 1 - j][r - 1 - i].clone()) } } }
                _ => $crate::harness_bug("path"),
            }
        }
        "mget" => {
            let a = g.r::<Matrix<E, R, C>>(op.a);
            let i = (op.u(0), op.u(1));
            let e = match op.f { 0 => &a[i], 1 => unsafe { a.get_unchecked(i) }, _ => $crate::harness_bug("path") };
            o.res.push(e.val());
        }
        "mcolin" => {
            // the public constructor of the by-reference column iterator
            let a = g.r::<Matrix<E, R, C>>(op.a);
            let v: Vector<Vector<E, C>, R> = a.rows_iter().collect();
            let v = &v;
            let it = rowcol::matrix::iter::ColsIterRefInner::new(v, op.u(0));
            // an out-of-range column must have been refused before anything is read
            if op.u(0) < c { for e in it { o.res.push(e.val()) } }
        }
        "mset" => {
            let x = mk(op.x(2));
            let a = g.m::<Matrix<E, R, C>>(op.a);
            let i = (op.u(0), op.u(1));
            match op.f { 0 => a[i] = x, 1 => unsafe { *a.get_unchecked_mut(i) = x }, _ => $crate::harness_bug("path") }
        }
        "madd" => bin!(Add, add),
        "msub" => bin!(Sub, sub),
        "madda" => { let b: Matrix<E, R, C> = g.take(op.b); *g.m::<Matrix<E, R, C>>(op.a) += b; }
        "msuba" => { let b: Matrix<E, R, C> = g.take(op.b); *g.m::<Matrix<E, R, C>>(op.a) -= b; }
        "mneg" => { let a: Matrix<E, R, C> = g.take(op.a); putm::<R, C>(g, op.d, -a); }
        "mmuls" => { let s = mk(op.x(0)); let a: Matrix<E, R, C> = g.take(op.a); let v = if op.f == 0 { a * s } else { a * &s }; putm::<R, C>(g, op.d, v); }
        "mdivs" => { let s = mk(op.x(0)); let a: Matrix<E, R, C> = g.take(op.a); let v = if op.f == 0 { a / s } else { a / &s }; putm::<R, C>(g, op.d, v); }
        "mmulsa" => { let s = mk(op.x(0)); *g.m::<Matrix<E, R, C>>(op.a) *= s; }
        "mdivsa" => { let s = mk(op.x(0)); *g.m::<Matrix<E, R, C>>(op.a) /= s; }
        "mv" => {
            let a: Matrix<E, R, C> = g.take(op.a);
            let v: Vector<E, R> = if op.bref() { a * g.r::<Vector<E, C>>(op.b) } else { let b: Vector<E, C> = g.take(op.b); a * b };
            putv::<R>(g, op.d, v);
        }
        "mtransposed" => { let v: Matrix<E, C, R> = g.r::<Matrix<E, R, C>>(op.a).transposed();
            g.0[op.d - 1] = Some(Reg { k: 2, r: c, c: r, b: Box::new(v), show: showt::<R, C> }); }
        "mmap" => {
            let a: Matrix<E, R, C> = g.take(op.a);
            let mut cs = std::mem::take(&mut o.calls);
            let mut seen = Vec::new();
            let m: Matrix<E, R, C> = a.map(|(i, j), x| { ledger::tick(); cs.push(vec![i as i64, j as i64]); seen.push(x.val()); x + mk(1000 + 40 * i as i64 + j as i64) });
            o.calls = cs;
            o.res = seen;
            putm::<R, C>(g, op.d, m);
        }
        "mall" | "many" => {
            // predicate: is (i,j) in the listed positions?
            let a = g.r::<Matrix<E, R, C>>(op.a);
            let mut cs = std::mem::take(&mut o.calls);
            let mut seen = Vec::new();
            let mut pred = |(i, j): (usize, usize), x: &E| { ledger::tick(); cs.push(vec![i as i64, j as i64]); seen.push(x.val());
                op.p.chunks(2).any(|q| q[0] == i as i64 && q[1] == j as i64) };
            let b = if op.name == "mall" { a.all(&mut pred) } else { a.any(&mut pred) };
            o.calls = cs;
            o.res = seen;
            o.flag(b);
        }
        "mconj" => {
            let (re, im): (Matrix<E, R, C>, Matrix<E, R, C>) = (g.take(op.a), g.take(op.b));
            let mut ims: Vec<E> = Vec::new();
            let _: Matrix<E, R, C> = im.map(|_, x| { ims.push(x); mk(0) });
            let mut it = ims.into_iter();
            let z: Matrix<Complex<E>, R, C> = re.map(|_, x| Complex::new(x, it.next().unwrap()));
            let w = z.conjugate();
            drop(z);
            let mut ims: Vec<E> = Vec::new();
            let re: Matrix<E, R, C> = w.map(|_, x| { let Complex { re, im } = x; ims.push(im); re });
            for e in &ims { o.res.push(e.val()) }
            putm::<R, C>(g, op.d, re);
        }
        "msum" => { let e = g.r::<Matrix<E, R, C>>(op.a).sum(); o.res.push(e.val()); }
        "mclamp" => { let (lo, hi) = clampargs(op); g.m::<Matrix<E, R, C>>(op.a).clamp(lo, hi); }
        "mclamped" => { let (lo, hi) = clampargs(op); let v = g.r::<Matrix<E, R, C>>(op.a).clamped(lo, hi); putm::<R, C>(g, op.d, v); }
        "meq" => { let (a, b) = (g.r::<Matrix<E, R, C>>(op.a), g.r::<Matrix<E, R, C>>(op.b)); o.flag(a == b); o.flag(a != b); }
        "miszero" => { let a = g.r::<Matrix<E, R, C>>(op.a); o.flag(a.is_zero()); }
        "mdrop" => { let a: Matrix<E, R, C> = g.take(op.a); drop(a); }
        _ => return false,
    }
    true
}
fn showt<R: ArrayLen<E> + 'static, C: ArrayLen<Vector<E, R>> + 'static>(x: &dyn Any) -> Vec<Value> {
    raw::<E, _>(x.downcast_ref::<Matrix<E, C, R>>().unwrap(), R::to_usize() * C::to_usize())
}

/// constructors by generator function only (for binaries that need operands of many shapes)
pub fn gen_op<R: ArrayLen<Vector<E, C>> + 'static, C: ArrayLen<E> + 'static>(g: &mut Regs, o: &mut O, op: &Op) {
    let c = C::to_usize();
    let mut cs = std::mem::take(&mut o.calls);
    let m = Matrix::<E, R, C>::generate(|(i, j)| { ledger::tick(); cs.push(vec![i as i64, j as i64]); mk(op.p[(2 + i * c + j).min(op.p.len() - 1)]) });
    o.calls = cs;
    putm::<R, C>(g, op.d, m);
}

/// operations on square matrices of one size
pub fn sq_op<N>(g: &mut Regs, _o: &mut O, op: &Op) -> bool
    where N: ArrayLen<Vector<E, N>> + ArrayLen<E> + 'static
{
    match &op.name[..] {
        "mid" => { let v = Matrix::<E, N, N>::identity(); putm::<N, N>(g, op.d, v); }
        "mone" => { let v = <Matrix<E, N, N> as One>::one(); putm::<N, N>(g, op.d, v); }
        "mtranspose" => g.m::<Matrix<E, N, N>>(op.a).transpose(),
        "mpow" => { let v = g.r::<Matrix<E, N, N>>(op.a).pow(op.p.iter().fold(0usize, |e, &x| (e << 16) | x as usize)); putm::<N, N>(g, op.d, v); }
        "mma" => { let b: Matrix<E, N, N> = g.take(op.b); *g.m::<Matrix<E, N, N>>(op.a) *= b; }
        _ => return false,
    }
    true
}

/// matrix products
pub fn prod_op<A, K, B>(g: &mut Regs, _o: &mut O, op: &Op) -> bool
    where A: ArrayLen<Vector<E, K>> + ArrayLen<Vector<E, B>> + 'static, K: ArrayLen<E> + ArrayLen<Vector<E, B>> + 'static, B: ArrayLen<E> + 'static
{
    let v: Matrix<E, A, B> = match (op.aref(), op.bref()) {
        (false, false) => { let a: Matrix<E, A, K> = g.take(op.a); let b: Matrix<E, K, B> = g.take(op.b); a * b }
        (true, false) => { let b: Matrix<E, K, B> = g.take(op.b); g.r::<Matrix<E, A, K>>(op.a) * b }
        (false, true) => { let a: Matrix<E, A, K> = g.take(op.a); a * g.r::<Matrix<E, K, B>>(op.b) }
        (true, true) => g.r::<Matrix<E, A, K>>(op.a) * g.r::<Matrix<E, K, B>>(op.b),
    };
    putm::<A, B>(g, op.d, v);
    true
}

pub fn by<'a>(op: &'a Op) -> impl FnMut(&E, &E) -> Ordering + 'a {
    move |a, b| { ledger::tick(); key(&a.val(), op.x(0), op.x(1)).cmp(&key(&b.val(), op.x(0), op.x(1))) }
}
} } }

ops_for!(Tok, tok);
ops_for!(Cp, cp);

// ---------------------------------------------------------------- scenario driver
/// `gf|int|rat|sym p log|nolog tok|cp ; [!fuse:]op f d a b : ints ; ...`
pub fn parse(line: &str) -> (String, i64, bool, bool, Vec<Op>) {
    let mut parts = line.split(';');
    let h: Vec<&str> = parts.next().unwrap().split_whitespace().collect();
    let ops = parts.map(|s| {
        let (l, r) = s.split_once(':').unwrap();
        let w: Vec<&str> = l.split_whitespace().collect();
        let (fuse, w) = if w[0].starts_with('!') { (w[0][1..].parse().unwrap(), &w[1..]) } else { (0, &w[..]) };
        Op { name: w[0].to_string(), f: w[1].parse().unwrap(), d: w[2].parse().unwrap(), a: w[3].parse().unwrap(), b: w[4].parse().unwrap(),
             p: r.split_whitespace().map(|x| x.parse().unwrap()).collect(), fuse }
    }).collect();
    (h[0].to_string(), h[1].parse().unwrap(), h[2] == "log", h[3] == "cp", ops)
}

fn jreg(g: &Regs, i: usize) -> String {
    if i == 0 { return "[]".into(); }
    match &g.0[i - 1] {
        None => "[]".into(),
        Some(r) => format!("[{},{},{},{}]", r.k, r.r, r.c, list((r.show)(&*r.b).iter().map(v_json))),
    }
}

pub fn run(line: &str, exec: impl Fn(&mut Regs, &mut O, &Op, bool)) -> String {
    let (m, p, lg, cp, ops) = parse(line);
    ledger::reset();
    with(|l| { l.sym = m == "sym"; l.rat = m == "rat"; l.p = p; l.logging = lg; });
    let mut g = Regs::new();
    let mut ev = Vec::new();
    let mut panicked = false;
    for op in &ops {
        let mut o = O::default();
        with(|l| { l.ticks = 0; l.fuse = op.fuse; l.blown = false; });
        let ok = crate::guard(|| exec(&mut g, &mut o, op, cp)).is_some();
        let (ticks, blown) = with(|l| { l.fuse = 0; (l.ticks, l.blown) });
        if !ok { panicked = true; }
        ev.push(format!("[\"{}\",{},{},{},{},{},\"{}\",{},{},{},{},{},{},{},{}]", op.name, op.f, op.d, op.a, op.b, ints(op.p.iter().cloned()),
            if ok && !blown { "ok" } else if blown { "blown" } else { "panic" }, jreg(&g, op.d), jreg(&g, op.a), jreg(&g, op.b), list(o.res.iter().map(v_json)),
            ints(o.nums), list(o.calls.into_iter().map(ints)), ledger::live_count(), ticks));
    }
    let all = list((1..=NREG).map(|i| jreg(&g, i)));
    for i in 0..NREG { let r = g.0[i].take(); let _ = crate::guard(|| drop(r)); }
    ev.push(format!("[\"end\",0,0,0,0,[],\"{}\",[],[],[],[],[{},{}],[],{},0]", if panicked { "panic" } else { "ok" },
        with(|l| l.bad), with(|l| l.e.len()), ledger::live_count()));
    let logs = if lg { with(|l| list(l.log.iter().map(|x| format!("[{},{}]", x.0, x.1)))) } else { "[]".into() };
    format!("{{\"m\":\"{}\",\"p\":{},\"t\":\"{}\",\"dbg\":{},\"ev\":{},\"regs\":{},\"log\":{}}}", m, p, if cp { "cp" } else { "tok" },
        // whether too-long sources must be refused depends on debug assertions
        if ops.iter().any(|o| o.name == "vcolx") && cfg!(debug_assertions) { 1 } else { 0 }, list(ev), all, logs)
}
