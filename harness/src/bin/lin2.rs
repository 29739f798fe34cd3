//! Determinant, cofactor and inverse of larger matrices.
use rc_harness::cat::*;
use rc_harness::elem::*;
use rc_harness::out::drive;
use rc_harness::*;
#[allow(unused_imports)] use rowcol::prelude::*;
#[allow(unused_imports)] use rowcol::matrix::Matrix;

macro_rules! lsq { ($n:expr, $N:ident, $e:expr) => { vdisp!(@ $n, $N, $e, 9 U9, 10 U10, 12 U12, 16 U16, 17 U17, 18 U18, 24 U24, 31 U31, 32 U32) } }
fn exec(g: &mut Regs, o: &mut O, op: &Op, _cp: bool) {
    let n = if op.a > 0 { g.dims(op.a).0 } else { op.u(0) };
    match &op.name[..] {
        "mgen" => lsq!(n, N, tok::gen_op::<N, N>(g, o, op)),
        "mdet" => { let x = lsq!(n, N, g.r::<Matrix<Tok, N, N>>(op.a).determinant().val()); o.res.push(x); }
        "mcof" => { let x = lsq!(n, N, g.r::<Matrix<Tok, N, N>>(op.a).cofactor((op.u(0), op.u(1))).val()); o.res.push(x); }
        "minv" => lsq!(n, N, { let v = g.r::<Matrix<Tok, N, N>>(op.a).inverse();
            o.nums.push(v.is_some() as i64);
            match v { Some(x) => tok::putm::<N, N>(g, op.d, x), None => g.0[op.d - 1] = None } }),
        _ => rc_harness::harness_bug(&op.name),
    }
}
fn main() { drive(|l| run(l, exec)) }
