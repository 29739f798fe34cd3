//! Matrix operations over every shape of dims.rs (products excepted).
use rc_harness::cat::*;
use rc_harness::elem::*;
use rc_harness::out::drive;
use rc_harness::*;
#[allow(unused_imports)] use rowcol::prelude::*;
#[allow(unused_imports)] use rowcol::vector::Vector;
#[allow(unused_imports)] use rowcol::matrix::Matrix;

fn exec(g: &mut Regs, o: &mut O, op: &Op, _cp: bool) {
    if mat_static!(g, o, op, Tok, tok,) { return; }
    if op.name == "vgen" || op.name == "vread" { vdisp!(op.u(0), N, tok::vec_op::<N>(g, o, op)); return; }
    let d = if op.a > 0 { g.dims(op.a) } else if op.p.len() >= 2 { (op.u(0), op.u(1)) } else { (op.u(0), op.u(0)) };
    if d.0 == d.1 && sqdisp!(all d.0, N, tok::sq_op::<N>(g, o, op)) { return; }
    if !mdisp!(d, R, C, tok::mat_op::<R, C>(g, o, op)) { rc_harness::harness_bug(&op.name) }
}
fn main() { drive(|l| run(l, exec)) }
