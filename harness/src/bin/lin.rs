//! Determinant, cofactor and inverse for 1..=8.
use rc_harness::cat::*;
use rc_harness::elem::*;
use rc_harness::out::drive;
use rc_harness::*;
#[allow(unused_imports)] use rowcol::prelude::*;
#[allow(unused_imports)] use rowcol::vector::Vector;
#[allow(unused_imports)] use rowcol::matrix::Matrix;

fn exec(g: &mut Regs, o: &mut O, op: &Op, _cp: bool) {
    if lin_static!(g, o, op, Tok, tok) { return; }
    match &op.name[..] {
        "mgen" => sqdisp!(all op.u(0), N, tok::gen_op::<N, N>(g, o, op)),
        "mm" => { let a = g.dims(op.a); sqdisp!(all a.0, N, tok::prod_op::<N, N, N>(g, o, op)); }
        _ => rc_harness::harness_bug(&op.name),
    }
}
fn main() { drive(|l| run(l, exec)) }
