//! Mixed histories: every operation over few shapes, on both element types.
use rc_harness::cat::*;
use rc_harness::elem::*;
use rc_harness::out::drive;
use rc_harness::*;
#[allow(unused_imports)] use rowcol::prelude::*;
#[allow(unused_imports)] use rowcol::vector::Vector;
#[allow(unused_imports)] use rowcol::matrix::Matrix;

macro_rules! hd {
    ($n:expr, $N:ident, $e:expr) => { vdisp!(@ $n, $N, $e, 0 U0, 1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 8 U8, 9 U9, 12 U12, 16 U16) };
}
macro_rules! hm {
    ($rc:expr, $R:ident, $C:ident, $e:expr) => { mdisp!(@ $rc, $R, $C, $e, 0 U0 0 U0, 0 U0 2 U2, 2 U2 0 U0, 1 U1 1 U1, 1 U1 3 U3, 3 U3 1 U1, 2 U2 2 U2, 2 U2 3 U3, 3 U3 2 U2,
        3 U3 3 U3, 4 U4 4 U4, 2 U2 4 U4, 4 U4 2 U2, 3 U3 4 U4, 4 U4 3 U3) };
}
macro_rules! hf {
    ($rc:expr, $R:ident, $C:ident, $e:expr) => { mdisp!(@ $rc, $R, $C, $e, 1 U1 1 U1, 1 U1 3 U3, 3 U3 1 U1, 2 U2 2 U2, 2 U2 3 U3, 3 U3 2 U2,
        3 U3 3 U3, 4 U4 4 U4, 2 U2 4 U4, 4 U4 2 U2, 3 U3 4 U4, 4 U4 3 U3) };
}
macro_rules! hp {
    ($x:expr, $A:ident, $K:ident, $B:ident, $e:expr) => { pdisp!(@ $x, $A, $K, $B, $e, 1 U1 1 U1 1 U1, 2 U2 2 U2 2 U2, 3 U3 3 U3 3 U3, 4 U4 4 U4 4 U4, 2 U2 3 U3 2 U2, 3 U3 2 U2 3 U3,
        2 U2 2 U2 3 U3, 3 U3 2 U2 2 U2, 2 U2 3 U3 3 U3, 3 U3 3 U3 2 U2, 1 U1 3 U3 1 U1, 3 U3 1 U1 3 U3, 2 U2 0 U0 2 U2, 0 U0 2 U2 0 U0,
        2 U2 3 U3 4 U4, 4 U4 3 U3 2 U2, 2 U2 4 U4 2 U2, 4 U4 2 U2 4 U4, 3 U3 4 U4 3 U3, 4 U4 3 U3 4 U4) };
}
macro_rules! elem { ($E:ty, $m:ident, $g:expr, $o:expr, $op:expr) => {{
    let (g, o, op): (&mut Regs, &mut O, &Op) = ($g, $o, $op);
    match &op.name[..] {
        "vnew" => hd!(op.u(0), N, { let v = Vector::<$E, N>::new(std::array::from_fn(|i| $m::mk(op.p[i + 1]))); $m::putv::<N>(g, op.d, v) }),
        "vextreme" => { let n = g.dims(op.a).0;
            let x = vdisp!(@ n, N, { let a = g.r::<Vector<$E, N>>(op.a);
                match op.f { 0 => a.max(), 1 => a.min(), 2 => a.max_by($m::by(op)), _ => a.min_by($m::by(op)) }.val() }, 1 U1, 2 U2, 3 U3, 4 U4, 5 U5, 6 U6, 8 U8, 9 U9, 12 U12, 16 U16);
            o.res.push(x) }
        "vcross" => { let v: Vector<$E, U3> = g.r::<Vector<$E, U3>>(op.a).cross(g.r::<Vector<$E, U3>>(op.b)); $m::putv::<U3>(g, op.d, v) }
        "mnew" => hm!((op.u(0), op.u(1)), R, C, { let c = op.u(1);
            let v = Matrix::<$E, R, C>::new(std::array::from_fn(|i| std::array::from_fn(|j| $m::mk(op.p[2 + i * c + j])))); $m::putm::<R, C>(g, op.d, v) }),
        "mdiag" => hm!((op.u(0), op.u(1)), R, C, { let v = Matrix::<$E, R, C>::diag(std::array::from_fn(|i| $m::mk(op.p[2 + i]))); $m::putm::<R, C>(g, op.d, v) }),
        "mfrom" => hf!((op.u(0), op.u(1)), R, C, { let v: Vector<$E, rowcol::typenum::Prod<R, C>> = g.take(op.a); $m::putm::<R, C>(g, op.d, Matrix::<$E, R, C>::from(v)) }),
        "mextreme" => { let n = g.dims(op.a).0;
            let x = vdisp!(@ n, N, { let a = g.r::<Matrix<$E, N, N>>(op.a);
                match op.f { 0 => a.max(), 1 => a.min(), 2 => a.max_by($m::by(op)), _ => a.min_by($m::by(op)) }.val() }, 1 U1, 2 U2, 3 U3, 4 U4);
            o.res.push(x) }
        "mdet" => { let n = g.dims(op.a).0; let x = vdisp!(@ n, N, g.r::<Matrix<$E, N, N>>(op.a).determinant().val(), 1 U1, 2 U2, 3 U3, 4 U4); o.res.push(x) }
        "mcof" => { let n = g.dims(op.a).0; let x = vdisp!(@ n, N, g.r::<Matrix<$E, N, N>>(op.a).cofactor((op.u(0), op.u(1))).val(), 2 U2, 3 U3, 4 U4); o.res.push(x) }
        "minv" => { let n = g.dims(op.a).0;
            vdisp!(@ n, N, { let v = g.r::<Matrix<$E, N, N>>(op.a).inverse(); o.nums.push(v.is_some() as i64);
                match v { Some(x) => $m::putm::<N, N>(g, op.d, x), None => g.0[op.d - 1] = None } }, 1 U1, 2 U2, 3 U3, 4 U4) }
        "mm" => { let (a, b) = (g.dims(op.a), g.dims(op.b)); hp!((a.0, a.1, b.1), A, K, B, $m::prod_op::<A, K, B>(g, o, op)); }
        s if s.starts_with('v') => { let n = if op.a > 0 { g.dims(op.a).0 } else { op.u(0) };
            if !hd!(n, N, $m::vec_op::<N>(g, o, op)) { rc_harness::harness_bug(&op.name) } }
        _ => {
            let d = if op.a > 0 { g.dims(op.a) } else if op.p.len() >= 2 { (op.u(0), op.u(1)) } else { (op.u(0), op.u(0)) };
            if d.0 == d.1 && vdisp!(@ d.0, N, $m::sq_op::<N>(g, o, op), 0 U0, 1 U1, 2 U2, 3 U3, 4 U4) { return; }
            if !hm!(d, R, C, $m::mat_op::<R, C>(g, o, op)) { rc_harness::harness_bug(&op.name) }
        }
    }
}} }

fn exec(g: &mut Regs, o: &mut O, op: &Op, cp: bool) {
    if cp { elem!(Cp, cp, g, o, op) } else { elem!(Tok, tok, g, o, op) }
}
fn main() { drive(|l| run(l, exec)) }
