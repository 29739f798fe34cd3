//! Element types.
//!
//! `Tok`  – 8 bytes (feature `fat`: 192, aligned to 64), has a destructor; value, liveness and origin live in the ledger.
//! `Cp`   – `Copy`, 4 bytes, a prime-field number held inline; allocates nothing.
//! `Zst`  – zero-sized with a destructor, counted only.
use crate::ledger::{self, with, Value};
use num::{Bounded, Num, One, Signed, Zero};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::ops::*;

const MAGIC: u32 = 0x7a11_600d;

pub fn modulus() -> i64 { with(|l| l.p) }

fn inv_mod(a: i64, p: i64) -> i64 {
    // extended Euclid; a != 0
    let (mut r0, mut r1, mut s0, mut s1) = (p, a.rem_euclid(p), 0i64, 1i64);
    while r1 != 0 {
        let q = r0 / r1;
        let t = r0 - q * r1; r0 = r1; r1 = t;
        let t = s0 - q * s1; s0 = s1; s1 = t;
    }
    s0.rem_euclid(p)
}

/// residue, or the number itself when there is no modulus
pub fn md(x: i64) -> i64 { let p = modulus(); if p == 0 { x } else { x.rem_euclid(p) } }
fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a } else { gcd(b, a % b) } }
fn rat(n: Option<i128>, d: Option<i128>) -> Value {
    match (n, d) {
        (Some(n), Some(d)) if d != 0 => { let g = gcd(n.abs(), d.abs()) * d.signum(); Value::Rat(n / g, d / g) }
        _ => panic!("fraction out of range"),
    }
}
/// the fraction a residue stands for: the signed representative
pub fn rat_of(x: i64) -> Value { let p = modulus(); let r = x.rem_euclid(p); Value::Rat(if 2 * r > p { r - p } else { r } as i128, 1) }
fn is_neg(v: &Value) -> bool {
    match v { Value::Gf(x) => { let p = modulus(); if p == 0 { *x < 0 } else { 2 * *x > p } } Value::Rat(n, _) => *n < 0, Value::Sym(_) => false }
}

pub fn sym_gen(g: i32) -> Value {
    let mut m = BTreeMap::new();
    m.insert(vec![g], 1);
    Value::Sym(m)
}
fn norm(m: BTreeMap<Vec<i32>, i64>) -> Value { Value::Sym(m.into_iter().filter(|x| x.1 != 0).collect()) }

pub fn v_zero() -> Value { if with(|l| l.rat) { Value::Rat(0, 1) } else if with(|l| l.sym) { Value::Sym(BTreeMap::new()) } else { Value::Gf(0) } }
pub fn v_one() -> Value {
    if with(|l| l.rat) { Value::Rat(1, 1) } else if with(|l| l.sym) {
        let mut m = BTreeMap::new();
        m.insert(vec![], 1);
        Value::Sym(m)
    } else { Value::Gf(md(1)) }
}
pub fn v_add(a: &Value, b: &Value) -> Value {
    match (a, b) {
        (Value::Gf(x), Value::Gf(y)) => Value::Gf(md(x + y)),
        (Value::Rat(a, b), Value::Rat(c, d)) => rat(a.checked_mul(*d).and_then(|u| c.checked_mul(*b).and_then(|v| u.checked_add(v))), b.checked_mul(*d)),
        (Value::Sym(x), Value::Sym(y)) => {
            let mut m = x.clone();
            for (w, c) in y { *m.entry(w.clone()).or_insert(0) += c; }
            norm(m)
        }
        _ => panic!("mixed values"),
    }
}
pub fn v_neg(a: &Value) -> Value {
    match a {
        Value::Gf(x) => Value::Gf(md(-x)),
        Value::Rat(n, d) => Value::Rat(-n, *d),
        Value::Sym(x) => Value::Sym(x.iter().map(|(w, c)| (w.clone(), -c)).collect()),
    }
}
pub fn v_sub(a: &Value, b: &Value) -> Value { v_add(a, &v_neg(b)) }
pub fn v_mul(a: &Value, b: &Value) -> Value {
    match (a, b) {
        (Value::Gf(x), Value::Gf(y)) => Value::Gf(md(x * y)),
        (Value::Rat(a, b), Value::Rat(c, d)) => rat(a.checked_mul(*c), b.checked_mul(*d)),
        (Value::Sym(x), Value::Sym(y)) => {
            let mut m: BTreeMap<Vec<i32>, i64> = BTreeMap::new();
            for (w, c) in x { for (v, d) in y {
                // free reduction, so that formal inverses cancel
                let mut word = w.clone();
                for &g in v {
                    if word.last() == Some(&-g) { word.pop(); } else { word.push(g); }
                }
                *m.entry(word).or_insert(0) += c * d;
            } }
            norm(m)
        }
        _ => panic!("mixed values"),
    }
}
pub fn v_div(a: &Value, b: &Value) -> Value {
    match (a, b) {
        (Value::Gf(x), Value::Gf(y)) => {
            if *y == 0 { panic!("division by zero"); }
            if modulus() == 0 { return Value::Gf(x / y); }
            let i = inv_mod(*y, modulus());
            v_mul(a, &Value::Gf(i))
        }
        (Value::Rat(a, b), Value::Rat(c, d)) => {
            if *c == 0 { panic!("division by zero"); }
            rat(a.checked_mul(*d), b.checked_mul(*c))
        }
        (Value::Sym(_), Value::Sym(y)) => {
            if y.len() != 1 { panic!("symbolic division by a non-monomial"); }
            let (w, c) = y.iter().next().unwrap();
            if c.abs() != 1 { panic!("symbolic division by a non-unit"); }
            let iw: Vec<i32> = w.iter().rev().map(|g| -g).collect();
            let mut m = BTreeMap::new();
            m.insert(iw, *c);
            v_mul(a, &Value::Sym(m))
        }
        _ => panic!("mixed values"),
    }
}
pub fn v_json(v: &Value) -> String {
    match v {
        Value::Gf(x) => x.to_string(),
        // fractions are shown modulo p; -1 if they have no residue
        Value::Rat(n, d) => { let p = modulus(); let (n, d) = (n.rem_euclid(p as i128) as i64, d.rem_euclid(p as i128) as i64);
            if d == 0 { "-1".to_string() } else { (n * inv_mod(d, p) % p).to_string() } }
        Value::Sym(m) => crate::out::list(m.iter().map(|(w, c)| {
            format!("[{},{}]", c, crate::out::ints(w.iter().map(|&g| g as i64)))
        })),
    }
}

/// What the catalogue needs from an element beyond the operator traits.
pub trait Elem: Sized {
    fn mk(v: Value, origin: i64) -> Self;
    /// Value as observed by the harness (not a use by the library).
    fn val(&self) -> Value;
}

// ---------------------------------------------------------------- Tok
#[cfg(feature = "fat")] const PAD: usize = 37;
#[cfg(not(feature = "fat"))] const PAD: usize = 0;
/// With feature `fat` an element has 192 bytes and an alignment of 64, and the identity is repeated at its end.
#[cfg_attr(feature = "fat", repr(C, align(64)))]
pub struct Tok {
    magic: u32, id: u32,
    /// never zero: `Option<Tok>` uses the gap
    #[cfg(feature = "fat")] #[allow(dead_code)] gap: &'static u32,
    pad: [u32; PAD],
}
#[cfg(feature = "fat")] static GAP: u32 = 0;
impl Tok {
    fn raw(id: u32) -> Tok { Tok { magic: MAGIC, id, #[cfg(feature = "fat")] gap: &GAP, pad: [id; PAD] } }
    pub fn id(&self) -> u32 {
        if self.magic == MAGIC && self.pad.iter().all(|&x| x == self.id) && self as *const Tok as usize % std::mem::align_of::<Tok>() == 0 { self.id } else { 0 }
    }
    fn new(v: Value) -> Tok { Tok::raw(ledger::create(v, 0)) }
    fn rd(&self) -> Value { ledger::read(self.id()).map(|e| e.val).unwrap_or_else(v_zero) }
    pub fn origin(&self) -> i64 { ledger::peek(self.id()).map(|e| e.origin).unwrap_or(-7) }
    pub fn is_live(&self) -> bool { ledger::peek(self.id()).map(|e| e.live).unwrap_or(false) }
}
impl Elem for Tok {
    fn mk(v: Value, origin: i64) -> Tok { Tok::raw(ledger::create(v, origin)) }
    fn val(&self) -> Value { ledger::peek(self.id()).map(|e| e.val).unwrap_or_else(v_zero) }
}
impl Drop for Tok {
    fn drop(&mut self) {
        ledger::dropped(self.id());
        ledger::tick();
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        ledger::tick();
        match ledger::read(self.id()) {
            Some(e) => Tok::raw(ledger::create(e.val, e.origin)),
            None => Tok::new(v_zero()),
        }
    }
}
impl PartialEq for Tok { fn eq(&self, o: &Tok) -> bool { ledger::tick(); self.rd() == o.rd() } }
impl Eq for Tok {}
impl PartialOrd for Tok { fn partial_cmp(&self, o: &Tok) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Tok { fn cmp(&self, o: &Tok) -> Ordering { ledger::tick(); v_cmp(&self.rd(), &o.rd()) } }
impl Default for Tok { fn default() -> Tok { ledger::tick(); Tok::new(v_zero()) } }
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&v_json(&self.rd())) }
}
impl std::fmt::Display for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&v_json(&self.rd())) }
}

// ---------------------------------------------------------------- Cp
#[derive(Clone, Copy)]
#[cfg_attr(feature = "fat", repr(align(64)))]
pub struct Cp(pub u32);
impl Cp {
    fn new(v: Value) -> Cp { match v { Value::Gf(x) => Cp(x as u32), _ => crate::harness_bug("Cp is numeric") } }
    fn rd(&self) -> Value { Value::Gf(self.0 as i64) }
}
impl Elem for Cp {
    fn mk(v: Value, _origin: i64) -> Cp { Cp::new(v) }
    fn val(&self) -> Value { self.rd() }
}
impl PartialEq for Cp { fn eq(&self, o: &Cp) -> bool { self.0 == o.0 } }
impl Eq for Cp {}
impl PartialOrd for Cp { fn partial_cmp(&self, o: &Cp) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Cp { fn cmp(&self, o: &Cp) -> Ordering { self.0.cmp(&o.0) } }
impl Default for Cp { fn default() -> Cp { Cp(0) } }
impl std::fmt::Debug for Cp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) }
}
impl std::fmt::Display for Cp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) }
}

// ---------------------------------------------------------------- operators
fn tick_for<T: Ticks>() { T::t() }
trait Ticks { fn t(); }
impl Ticks for Tok { fn t() { ledger::tick() } }
impl Ticks for Cp { fn t() {} }

macro_rules! binop {
    ($E:ty, $Tr:ident, $f:ident, $TrA:ident, $fa:ident, $op:ident) => {
        impl $Tr<$E> for $E { type Output = $E;
            fn $f(self, o: $E) -> $E { tick_for::<$E>(); <$E>::new($op(&self.rd(), &o.rd())) } }
        impl<'a> $Tr<&'a $E> for $E { type Output = $E;
            fn $f(self, o: &'a $E) -> $E { tick_for::<$E>(); <$E>::new($op(&self.rd(), &o.rd())) } }
        impl<'a> $Tr<$E> for &'a $E { type Output = $E;
            fn $f(self, o: $E) -> $E { tick_for::<$E>(); <$E>::new($op(&self.rd(), &o.rd())) } }
        impl<'a, 'b> $Tr<&'b $E> for &'a $E { type Output = $E;
            fn $f(self, o: &'b $E) -> $E { tick_for::<$E>(); <$E>::new($op(&self.rd(), &o.rd())) } }
        impl $TrA<$E> for $E {
            fn $fa(&mut self, o: $E) { tick_for::<$E>(); let v = $op(&self.rd(), &o.rd()); *self = <$E>::new(v); } }
        impl<'a> $TrA<&'a $E> for $E {
            fn $fa(&mut self, o: &'a $E) { tick_for::<$E>(); let v = $op(&self.rd(), &o.rd()); *self = <$E>::new(v); } }
    };
}
fn v_rem(a: &Value, b: &Value) -> Value { match (a, b) { (Value::Gf(x), Value::Gf(y)) if modulus() == 0 => Value::Gf(x % y), _ => a.clone() } }
fn v_abs(a: &Value) -> Value { if is_neg(a) { v_neg(a) } else { a.clone() } }
fn v_signum(a: &Value) -> Value { if *a == v_zero() { v_zero() } else if is_neg(a) { v_neg(&v_one()) } else { v_one() } }
fn v_cmp(a: &Value, b: &Value) -> Ordering { match (a, b) { (Value::Rat(a, b), Value::Rat(c, d)) => (a * d).cmp(&(c * b)), _ => a.cmp(b) } }
macro_rules! ops {
    ($E:ty) => {
        binop!($E, Add, add, AddAssign, add_assign, v_add);
        binop!($E, Sub, sub, SubAssign, sub_assign, v_sub);
        binop!($E, Mul, mul, MulAssign, mul_assign, v_mul);
        binop!($E, Div, div, DivAssign, div_assign, v_div);
        binop!($E, Rem, rem, RemAssign, rem_assign, v_rem);
        impl Neg for $E { type Output = $E; fn neg(self) -> $E { tick_for::<$E>(); <$E>::new(v_neg(&self.rd())) } }
        impl<'a> Neg for &'a $E { type Output = $E; fn neg(self) -> $E { tick_for::<$E>(); <$E>::new(v_neg(&self.rd())) } }
        impl Zero for $E {
            fn zero() -> $E { tick_for::<$E>(); <$E>::new(v_zero()) }
            fn is_zero(&self) -> bool { tick_for::<$E>(); self.rd() == v_zero() }
        }
        impl One for $E { fn one() -> $E { tick_for::<$E>(); <$E>::new(v_one()) } }
        impl Num for $E {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<$E, ()> { Err(()) }
        }
        impl Signed for $E {
            fn abs(&self) -> $E { tick_for::<$E>(); <$E>::new(v_abs(&self.rd())) }
            fn abs_sub(&self, o: &$E) -> $E { tick_for::<$E>(); <$E>::new(v_sub(&self.rd(), &o.rd())) }
            fn signum(&self) -> $E { tick_for::<$E>(); <$E>::new(v_signum(&self.rd())) }
            fn is_positive(&self) -> bool { tick_for::<$E>(); let v = self.rd(); v != v_zero() && !is_neg(&v) }
            fn is_negative(&self) -> bool { tick_for::<$E>(); is_neg(&self.rd()) }
        }
        impl Bounded for $E {
            fn min_value() -> $E { tick_for::<$E>(); <$E>::new(if with(|l| l.sym) { sym_gen(30001) } else if modulus() == 0 { Value::Gf(-1000000) } else { Value::Gf(0) }) }
            fn max_value() -> $E { tick_for::<$E>(); <$E>::new(if with(|l| l.sym) { sym_gen(30002) } else if modulus() == 0 { Value::Gf(1000000) } else { Value::Gf(modulus() - 1) }) }
        }
    };
}
ops!(Tok);
ops!(Cp);

// ---------------------------------------------------------------- Zst
pub struct Zst;
impl Zst { pub fn mk() -> Zst { with(|l| l.zst_live += 1); Zst } }
impl Drop for Zst {
    fn drop(&mut self) { with(|l| { l.zst_live -= 1; l.zst_drops += 1; if l.zst_live < 0 { l.bad += 1; } }) }
}
impl Clone for Zst { fn clone(&self) -> Zst { Zst::mk() } }
