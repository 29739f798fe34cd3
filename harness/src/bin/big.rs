//! Matrix operations over large shapes (spec/Dims.tla: BShapes, BProd, BSq).
use rc_harness::cat::*;
use rc_harness::elem::*;
use rc_harness::out::drive;
use rc_harness::*;
#[allow(unused_imports)] use rowcol::prelude::*;
#[allow(unused_imports)] use rowcol::vector::Vector;
#[allow(unused_imports)] use rowcol::matrix::Matrix;

macro_rules! bdisp { ($d:expr, $R:ident, $C:ident, $e:expr) => { mdisp!(@ $d, $R, $C, $e,
    9 U9 9 U9, 12 U12 12 U12, 16 U16 16 U16, 17 U17 17 U17, 32 U32 32 U32,
    9 U9 10 U10, 32 U32 17 U17, 17 U17 32 U32, 11 U11 31 U31, 31 U31 11 U11) } }
macro_rules! bsq { ($n:expr, $N:ident, $e:expr) => { vdisp!(@ $n, $N, $e, 9 U9, 12 U12, 16 U16, 17 U17, 32 U32) } }
macro_rules! bprod { ($x:expr, $A:ident, $K:ident, $B:ident, $e:expr) => { pdisp!(@ $x, $A, $K, $B, $e,
    9 U9 9 U9 9 U9, 16 U16 16 U16 16 U16, 17 U17 17 U17 17 U17, 32 U32 32 U32 32 U32, 32 U32 17 U17 32 U32, 17 U17 32 U32 17 U17, 11 U11 31 U31 11 U11, 31 U31 11 U11 31 U31) } }

fn exec(g: &mut Regs, o: &mut O, op: &Op, _cp: bool) {
    match &op.name[..] {
        "vgen" | "vread" => { let n = if op.a > 0 { g.dims(op.a).0 } else { op.u(0) }; vdisp!(n, N, tok::vec_op::<N>(g, o, op)); return; }
        "mm" => { let (a, b) = (g.dims(op.a), g.dims(op.b)); bprod!((a.0, a.1, b.1), A, K, B, tok::prod_op::<A, K, B>(g, o, op)); return; }
        "mnew" => { bdisp!((op.u(0), op.u(1)), R, C, {
            let c = op.u(1);
            let v = Matrix::<Tok, R, C>::new(std::array::from_fn(|i| std::array::from_fn(|j| tok::mk(op.p[2 + i * c + j]))));
            tok::putm::<R, C>(g, op.d, v); }); return; }
        "mdiag" => { bdisp!((op.u(0), op.u(1)), R, C, {
            let v = Matrix::<Tok, R, C>::diag(std::array::from_fn(|i| tok::mk(op.p[2 + i])));
            tok::putm::<R, C>(g, op.d, v); }); return; }
        "mextreme" => { let n = g.dims(op.a).0;
            let x = bsq!(n, N, { let a = g.r::<Matrix<Tok, N, N>>(op.a);
                match op.f { 0 => a.max(), 1 => a.min(), 2 => a.max_by(tok::by(op)), _ => a.min_by(tok::by(op)) }.val() });
            o.res.push(x); return; }
        _ => {}
    }
    let d = if op.a > 0 { g.dims(op.a) } else if op.p.len() >= 2 { (op.u(0), op.u(1)) } else { (op.u(0), op.u(0)) };
    if d.0 == d.1 && bsq!(d.0, N, tok::sq_op::<N>(g, o, op)) { return; }
    if !bdisp!(d, R, C, tok::mat_op::<R, C>(g, o, op)) { rc_harness::harness_bug(&op.name) }
}
fn main() { drive(|l| run(l, exec)) }
