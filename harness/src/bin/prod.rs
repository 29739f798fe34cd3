//! Matrix products over the shapes of pdisp!.
use rc_harness::cat::*;
use rc_harness::elem::*;
use rc_harness::out::drive;
use rc_harness::*;
#[allow(unused_imports)] use rowcol::prelude::*;
#[allow(unused_imports)] use rowcol::vector::Vector;
#[allow(unused_imports)] use rowcol::matrix::Matrix;

fn exec(g: &mut Regs, o: &mut O, op: &Op, _cp: bool) {
    match &op.name[..] {
        "mgen" => mdisp!((op.u(0), op.u(1)), R, C, tok::gen_op::<R, C>(g, o, op)),
        "mm" => { let (a, b) = (g.dims(op.a), g.dims(op.b));
            pdisp!((a.0, a.1, b.1), A, K, B, tok::prod_op::<A, K, B>(g, o, op)); }
        _ => rc_harness::harness_bug(&op.name),
    }
}
fn main() { drive(|l| run(l, exec)) }
