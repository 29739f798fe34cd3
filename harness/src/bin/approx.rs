//! Equality and approximate equality (spec/Approx.tla).
use approx::{ApproxEq, Relative, Ulps};
use rc_harness::fact::*;
use rc_harness::out::*;
use rc_harness::*;
use rowcol::matrix::Matrix;
use rowcol::vector::{ArrayLen, Vector};

const NAN: i64 = 9999;
#[derive(Clone)]
struct Ap(i64);
#[derive(Clone)]
struct Bp(i64);
#[derive(Clone)]
struct Ep(i64);
fn eq(x: i64, y: i64) -> bool { x != NAN && y != NAN && x == y }
impl PartialEq for Ap { fn eq(&self, o: &Ap) -> bool { eq(self.0, o.0) } }
impl PartialEq<Bp> for Ap { fn eq(&self, o: &Bp) -> bool { eq(self.0, o.0) } }
impl ApproxEq for Ap {
    type Epsilon = Ep;
    fn default_epsilon() -> Ep { Ep(2) }
    fn default_max_relative() -> Ep { Ep(3) }
    fn default_max_ulps() -> u32 { 5 }
    fn relative_eq(&self, o: &Ap, e: Ep, r: Ep) -> bool {
        let d = (self.0 - o.0).abs();
        self.0 != NAN && o.0 != NAN && (d <= e.0 || 10 * d <= r.0 * o.0.abs())
    }
    fn ulps_eq(&self, o: &Ap, e: Ep, u: u32) -> bool {
        let d = (self.0 - o.0).abs();
        self.0 != NAN && o.0 != NAN && (d <= e.0 || (d <= 4 * u as i64 && (o.0 >= 0 || self.0 < 0)))
    }
}

fn vec<N: ArrayLen<Ap> + ArrayLen<Bp>>(how: i64, a: &[i64], b: &[i64]) -> Vec<i64> {
    let x = Vector::<Ap, N>::generate(|i| Ap(a[i]));
    let (p, q) = match how {
        1 => (x == x, x != x),
        2 => { let y = Vector::<Bp, N>::generate(|i| Bp(b[i])); (x == y, x != y) }
        _ => { let y = Vector::<Ap, N>::generate(|i| Ap(b[i])); (x == y, x != y) }
    };
    vec![p as i64, q as i64]
}

fn mat<R: ArrayLen<Vector<Ap, C>>, C: ArrayLen<Ap>>(op: &str, mode: i64, a: &[i64], b: &[i64], e: i64, t: i64) -> Vec<i64> {
    let c = C::to_usize();
    let x = Matrix::<Ap, R, C>::generate(|(i, j)| Ap(a[i * c + j]));
    if op == "aeq" && mode == 1 { return vec![(x == x) as i64, (x != x) as i64]; }
    let y = Matrix::<Ap, R, C>::generate(|(i, j)| Ap(b[i * c + j]));
    let rel = || { let r = Relative::new(&x, &y); let r = if mode & 1 != 0 { r.epsilon(Ep(e)) } else { r }; if mode & 2 != 0 { r.max_relative(Ep(t)) } else { r } };
    let ulp = || { let r = Ulps::new(&x, &y); let r = if mode & 1 != 0 { r.epsilon(Ep(e)) } else { r }; if mode & 2 != 0 { r.max_ulps(t as u32) } else { r } };
    let (p, q) = match (op, mode) {
        ("aeq", _) => (x == y, x != y),
        ("relative", 7) => (x.relative_eq(&y, Ep(e), Ep(t)), x.relative_ne(&y, Ep(e), Ep(t))),
        ("ulps", 7) => (x.ulps_eq(&y, Ep(e), t as u32), x.ulps_ne(&y, Ep(e), t as u32)),
        ("relative", _) => (rel().eq(), rel().ne()),
        ("ulps", _) => (ulp().eq(), ulp().ne()),
        _ => {
            return vec![<Matrix<Ap, R, C> as ApproxEq>::default_epsilon().0, <Matrix<Ap, R, C> as ApproxEq>::default_max_relative().0,
                        <Matrix<Ap, R, C> as ApproxEq>::default_max_ulps() as i64];
        }
    };
    vec![p as i64, q as i64]
}

fn run(l: &str) -> String {
    let q = Req::parse(l);
    let (mode, r, c, e, t) = (q.i(1), q.u(2), q.u(3), q.i(4), q.i(5));
    let (a, b) = q.n.split_at(q.n.len() / 2);
    let res = guard(|| if q.w[0] == "aeq" && e == 1 { vdisp!(r, N, vec::<N>(mode, a, b)) }
        else { mdisp!((r, c), R, C, mat::<R, C>(&q.w[0], mode, a, b, e, t)) });
    event(vec![s(&q.w[0]), mode.to_string(), r.to_string(), c.to_string(), ints(a.to_vec()), ints(b.to_vec()), e.to_string(), t.to_string(),
               s(if res.is_some() { "ok" } else { "panic" }), ints(res.unwrap_or_default())])
}
fn main() { drive(run) }
