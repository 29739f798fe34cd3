//! Display and Debug (spec/Render.tla).
use rc_harness::fact::*;
use rc_harness::out::*;
use rc_harness::*;
use rowcol::matrix::Matrix;
use rowcol::vector::{ArrayLen, Vector};

struct Cell(String);
impl std::fmt::Display for Cell { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }

fn display<R, C>(cells: &[String]) -> String
    where R: ArrayLen<Vector<Cell, C>> + ArrayLen<Vector<(String, usize), C>> + ArrayLen<usize>,
          C: ArrayLen<Cell> + ArrayLen<(String, usize)> + ArrayLen<usize>,
{
    let c = C::to_usize();
    format!("{}", Matrix::<Cell, R, C>::generate(|(i, j)| Cell(cells[i * c + j].clone())))
}
fn mdebug<R: ArrayLen<Vector<i64, C>>, C: ArrayLen<i64>>(alt: bool, v: &[i64]) -> String {
    let c = C::to_usize();
    let m = Matrix::<i64, R, C>::generate(|(i, j)| v[i * c + j]);
    if alt { format!("{:#?}", m) } else { format!("{:?}", m) }
}
fn vdebug<N: ArrayLen<i64>>(alt: bool, v: &[i64]) -> String {
    let x = Vector::<i64, N>::generate(|i| v[i]);
    if alt { format!("{:#?}", x) } else { format!("{:?}", x) }
}
fn run(l: &str) -> String {
    let q = Req::parse(l);
    let op = &q.w[0][..];
    let (r, c) = (q.u(1), q.u(2));
    let alt = op.ends_with('a');
    let mut cells = vec![];
    if op == "mdisplay" {
        let mut p = 0;
        while p < q.n.len() {
            let k = q.n[p] as usize;
            cells.push(q.n[p + 1..p + 1 + k].iter().map(|&x| char::from_u32(x as u32).unwrap()).collect::<String>());
            p += k + 1;
        }
    }
    let res = guard(|| match op {
        "mdisplay" => mdisp!((r, c), R, C, display::<R, C>(&cells)),
        "mdebug" | "mdebuga" => mdisp!((r, c), R, C, mdebug::<R, C>(alt, &q.n)),
        "vdebug" | "vdebuga" => vdisp!(r, N, vdebug::<N>(alt, &q.n)),
        _ => harness_bug(op),
    });
    let shown = if op == "mdisplay" { list(cells.iter().map(|x| codes(x))) } else { ints(q.n.clone()) };
    event(vec![s(op), (cfg!(feature = "unicode_width") as i64).to_string(), r.to_string(), c.to_string(), shown,
               s(if res.is_some() { "ok" } else { "panic" }), codes(&res.unwrap_or_default())])
}
fn main() { drive(run) }
