//! Vector operations over every length 0..=32.
use rc_harness::cat::*;
use rc_harness::elem::*;
use rc_harness::out::drive;
use rc_harness::*;
#[allow(unused_imports)] use rowcol::prelude::*;
#[allow(unused_imports)] use rowcol::vector::Vector;
#[allow(unused_imports)] use rowcol::matrix::Matrix;

fn exec(g: &mut Regs, o: &mut O, op: &Op, _cp: bool) {
    if vec_static!(g, o, op, Tok, tok,) { return; }
    let n = if op.a > 0 { g.dims(op.a).0 } else { op.u(0) };
    if !vdisp!(n, N, tok::vec_op::<N>(g, o, op)) { rc_harness::harness_bug(&op.name) }
}
fn main() { drive(|l| run(l, exec)) }
