//! Vector norms (spec/Norm.tla).
use rc_harness::fact::*;
use rc_harness::out::*;
use rc_harness::*;
use rowcol::vector::{ArrayLen, Vector};

trait Fl: num::Float { fn of(x: i64, sc: i64) -> Self; fn out(self) -> f64; }
impl Fl for f32 { fn of(x: i64, sc: i64) -> f32 { x as f32 * 2f32.powi(sc as i32) } fn out(self) -> f64 { self as f64 } }
impl Fl for f64 { fn of(x: i64, sc: i64) -> f64 { x as f64 * 2f64.powi(sc as i32) } fn out(self) -> f64 { self } }

/// rounded to an integer; nonsense values stand out
fn fix(x: f64) -> i64 { if x.is_finite() && x.abs() < 2e9 { x.round() as i64 } else { -2000000001 } }
fn norm<T: Fl, N: ArrayLen<T>>(b: i64, unit: bool, sc: i64, v: &[i64]) -> Vec<i64> {
    let x = Vector::<T, N>::generate(|i| T::of(v[i], sc));
    if unit {
        let u = x.normalized();
        (0..N::to_usize()).map(|i| fix(u.as_slice()[i].out() * if b == 32 { 1048576.0 } else { 268435456.0 })).collect()
    } else {
        let n = x.norm().out() * 2f64.powi(-sc as i32);
        vec![fix(n * 1048576.0), fix(n * 256.0), (n == n.round()) as i64]
    }
}
fn run(l: &str) -> String {
    let q = Req::parse(l);
    let unit = q.w[0] == "unit";
    let (b, n, sc) = (q.i(1), q.u(2), q.i(3));
    let res = guard(|| if b == 32 { vdisp!(n, N, norm::<f32, N>(b, unit, sc, &q.n)) } else { vdisp!(n, N, norm::<f64, N>(b, unit, sc, &q.n)) });
    event(vec![s(&q.w[0]), b.to_string(), n.to_string(), sc.to_string(), ints(q.n.clone()),
               s(if res.is_some() { "ok" } else { "panic" }), ints(res.unwrap_or_default())])
}
fn main() { drive(run) }
