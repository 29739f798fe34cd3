//! Replays iterator histories (C01, C02, C03) and records what the real
//! iterators return and which elements they destroy.
//!
//! scenario:  KIND ELEM d1 d2 d3 : op op ...
//! output  :  {"k":KIND,"t":ELEM,"d":[d1,d2,d3],"ev":[[op,a1,a2,outcome,items,nums,dropped,live],...]}
use rc_harness::elem::*;
use rc_harness::ledger::{self, with, Value, DROP};
use rc_harness::out::*;
use rc_harness::*;
use rowcol::matrix::Matrix;
use rowcol::prelude::*;
use rowcol::vector::Vector;

type Items = Vec<Vec<i64>>;

/// What the history driver can ask of any iterator.
trait It {
    fn next(&mut self) -> Option<Vec<i64>>;
    fn next_back(&mut self) -> Option<Vec<i64>>;
    fn nth(&mut self, k: usize) -> Option<Vec<i64>>;
    fn nth_back(&mut self, k: usize) -> Option<Vec<i64>>;
    fn len(&self) -> usize;
    fn hint(&self) -> (usize, Option<usize>);
    fn take(&mut self, k: usize) -> Items;
    fn try_fold(&mut self, k: usize) -> (bool, Items);
    fn try_rfold(&mut self, k: usize) -> (bool, Items);
    fn position(&mut self, k: usize) -> (Option<usize>, Items);
    fn rposition(&mut self, k: usize) -> (Option<usize>, Items);
    fn find(&mut self, k: usize) -> (usize, Option<Vec<i64>>);
    fn rfind(&mut self, k: usize) -> (usize, Option<Vec<i64>>);
    fn any(&mut self, k: usize) -> (bool, Items);
    fn all(&mut self, k: usize) -> (bool, Items);
    fn find_map(&mut self, k: usize) -> (bool, Items);
    fn try_each(&mut self, k: usize) -> (bool, Items);
    fn max_by(self: Box<Self>) -> (usize, Option<Vec<i64>>);
    fn min_by(self: Box<Self>) -> (usize, Option<Vec<i64>>);
    fn reduce(self: Box<Self>) -> (usize, Option<Vec<i64>>);
    fn partition(self: Box<Self>) -> Items;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Vec<i64>>;
    fn fold(self: Box<Self>) -> Items;
    fn rfold(self: Box<Self>) -> Items;
    fn rev(self: Box<Self>) -> Items;
    fn collect(self: Box<Self>) -> Items;
    fn for_each(self: Box<Self>) -> Items;
    fn skip(self: Box<Self>, k: usize) -> Items;
    fn step(self: Box<Self>, k: usize) -> Items;
}
struct W<I, S> { it: I, sink: S }
impl<I: DoubleEndedIterator + ExactSizeIterator, S: FnMut(I::Item) -> Vec<i64>> It for W<I, S> {
    fn next(&mut self) -> Option<Vec<i64>> { self.it.next().map(&mut self.sink) }
    fn next_back(&mut self) -> Option<Vec<i64>> { self.it.next_back().map(&mut self.sink) }
    fn nth(&mut self, k: usize) -> Option<Vec<i64>> { self.it.nth(k).map(&mut self.sink) }
    fn nth_back(&mut self, k: usize) -> Option<Vec<i64>> { self.it.nth_back(k).map(&mut self.sink) }
    fn len(&self) -> usize { self.it.len() }
    fn hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
    fn take(&mut self, k: usize) -> Items {
        let v: Vec<I::Item> = self.it.by_ref().take(k).collect();
        v.into_iter().map(&mut self.sink).collect()
    }
    // internal iteration that stops after k + 1 items
    fn try_fold(&mut self, k: usize) -> (bool, Items) {
        let (mut seen, sink) = (vec![], &mut self.sink);
        let r = self.it.try_fold(0usize, |i, x| { seen.push(cb(x, sink)); if i == k || seen.len() > CAP { Err(()) } else { Ok(i + 1) } });
        (r.is_err(), seen)
    }
    fn try_rfold(&mut self, k: usize) -> (bool, Items) {
        let (mut seen, sink) = (vec![], &mut self.sink);
        let r = self.it.try_rfold(0usize, |i, x| { seen.push(cb(x, sink)); if i == k || seen.len() > CAP { Err(()) } else { Ok(i + 1) } });
        (r.is_err(), seen)
    }
    fn position(&mut self, k: usize) -> (Option<usize>, Items) {
        let (mut seen, sink) = (vec![], &mut self.sink);
        let r = self.it.position(|x| { seen.push(cb(x, sink)); seen.len() > k || seen.len() > CAP });
        (r, seen)
    }
    fn rposition(&mut self, k: usize) -> (Option<usize>, Items) {
        let (mut seen, sink) = (vec![], &mut self.sink);
        let r = self.it.rposition(|x| { seen.push(cb(x, sink)); seen.len() > k || seen.len() > CAP });
        (r, seen)
    }
    // searches: the visited items that are not asked for are destroyed (find, rfind) or given to the closure (the rest)
    fn find(&mut self, k: usize) -> (usize, Option<Vec<i64>>) {
        let mut seen = 0usize;
        let r = self.it.find(|_| { seen += 1; ledger::tick(); seen > k || seen > CAP });
        (seen, r.map(&mut self.sink))
    }
    fn rfind(&mut self, k: usize) -> (usize, Option<Vec<i64>>) {
        let mut seen = 0usize;
        let r = self.it.rfind(|_| { seen += 1; ledger::tick(); seen > k || seen > CAP });
        (seen, r.map(&mut self.sink))
    }
    fn any(&mut self, k: usize) -> (bool, Items) {
        let (mut seen, sink) = (vec![], &mut self.sink);
        let r = self.it.any(|x| { seen.push(cb(x, sink)); seen.len() > k || seen.len() > CAP });
        (r, seen)
    }
    fn all(&mut self, k: usize) -> (bool, Items) {
        let (mut seen, sink) = (vec![], &mut self.sink);
        let r = self.it.all(|x| { seen.push(cb(x, sink)); !(seen.len() > k || seen.len() > CAP) });
        (!r, seen)
    }
    fn find_map(&mut self, k: usize) -> (bool, Items) {
        let (mut seen, sink) = (vec![], &mut self.sink);
        let r = self.it.find_map(|x| { seen.push(cb(x, sink)); if seen.len() > k || seen.len() > CAP { Some(()) } else { None } });
        (r.is_some(), seen)
    }
    fn try_each(&mut self, k: usize) -> (bool, Items) {
        let (mut seen, sink) = (vec![], &mut self.sink);
        let r = self.it.try_for_each(|x| { seen.push(cb(x, sink)); if seen.len() > k || seen.len() > CAP { Err(()) } else { Ok(()) } });
        (r.is_err(), seen)
    }
    // choosing one item of all: under a comparison that calls every later item greater, the last and the first
    fn max_by(self: Box<Self>) -> (usize, Option<Vec<i64>>) {
        let W { it, mut sink } = *self;
        let mut n = 0;
        let r = it.max_by(|_, _| { n += 1; ledger::tick(); if n > CAP { panic!("runaway iterator") } std::cmp::Ordering::Less });
        (n, r.map(&mut sink))
    }
    fn min_by(self: Box<Self>) -> (usize, Option<Vec<i64>>) {
        let W { it, mut sink } = *self;
        let mut n = 0;
        let r = it.min_by(|_, _| { n += 1; ledger::tick(); if n > CAP { panic!("runaway iterator") } std::cmp::Ordering::Less });
        (n, r.map(&mut sink))
    }
    fn reduce(self: Box<Self>) -> (usize, Option<Vec<i64>>) {
        let W { it, mut sink } = *self;
        let mut n = 0;
        let r = it.reduce(|_, b| { n += 1; ledger::tick(); if n > CAP { panic!("runaway iterator") } b });
        (n, r.map(&mut sink))
    }
    fn partition(self: Box<Self>) -> Items {
        let W { it, mut sink } = *self;
        let mut n = 0;
        let (a, b): (Vec<I::Item>, Vec<I::Item>) = it.partition(|_| { n += 1; ledger::tick(); if n > CAP { panic!("runaway iterator") } n % 2 == 1 });
        a.into_iter().chain(b).map(&mut sink).collect()
    }
    fn for_each(self: Box<Self>) -> Items {
        let W { it, mut sink } = *self;
        let mut a = Vec::new();
        it.for_each(|x| { a.push(cb(x, &mut sink)); if a.len() > CAP { panic!("runaway iterator") } });
        a
    }
    fn count(self: Box<Self>) -> usize { let W { it, .. } = *self; it.count() }
    fn last(self: Box<Self>) -> Option<Vec<i64>> { let W { it, mut sink } = *self; it.last().map(&mut sink) }
    fn fold(self: Box<Self>) -> Items {
        let W { it, mut sink } = *self;
        it.fold(Vec::new(), |mut a, x| { a.push(cb(x, &mut sink)); cap(a) })
    }
    fn rfold(self: Box<Self>) -> Items {
        let W { it, mut sink } = *self;
        it.rfold(Vec::new(), |mut a, x| { a.push(cb(x, &mut sink)); cap(a) })
    }
    fn rev(self: Box<Self>) -> Items { let W { it, mut sink } = *self; it.rev().take(CAP).map(&mut sink).collect() }
    fn collect(self: Box<Self>) -> Items { let W { it, mut sink } = *self; it.take(CAP).map(&mut sink).collect() }
    fn skip(self: Box<Self>, k: usize) -> Items { let W { it, mut sink } = *self; it.skip(k).take(CAP).map(&mut sink).collect() }
    fn step(self: Box<Self>, k: usize) -> Items { let W { it, mut sink } = *self; it.step_by(k + 1).take(CAP).map(&mut sink).collect() }
}
/// No iterator here has more items; a runaway one is cut off.
const CAP: usize = 64;
/// a caller's closure: it may be made to panic, with the item in its hands
fn cb<T>(x: T, sink: &mut impl FnMut(T) -> Vec<i64>) -> Vec<i64> { ledger::tick(); sink(x) }
fn cap(a: Items) -> Items { if a.len() > CAP { panic!("runaway iterator") } a }

/// `fuse`: the user callback of this call that panics (0: none)
struct Op { c: char, a: i64, b: i64, fuse: u64 }
fn arg(x: &str) -> i64 { x.parse().unwrap() }
/// negative codes stand for huge numbers: -1, -2 the largest; -100-j: the quotient 2^64 / j; -200-j: that plus one; -300..: word sizes
fn us(a: i64) -> usize {
    let top = 1u128 << 64;
    match a {
        0..=i64::MAX => a as usize,
        -132..=-102 => (top / (-100 - a) as u128) as usize,
        -232..=-202 => (top / (-200 - a) as u128) as usize + 1,
        -300 => 1 << 63, -301 => 1 << 32, -302 => (1 << 32) + 1, -303 => 1 << 31, -304 => (1 << 63) + 1,
        _ => usize::MAX - (-a as usize) + 1,
    }
}
fn parse(s: &str) -> Vec<Op> {
    s.split_whitespace().map(|w| {
        let (w, fuse) = match w.split_once('!') { Some((w, k)) => (w, k.parse().unwrap()), None => (w, 0) };
        let c = w.chars().next().unwrap();
        let rest = &w[1..];
        let (a, b) = match rest.find('.') {
            Some(i) => (arg(&rest[..i]), arg(&rest[i + 1..])),
            None => (if rest.is_empty() { 0 } else { arg(rest) }, 0),
        };
        Op { c, a, b, fuse }
    }).collect()
}
fn num(x: usize) -> i64 { if x > 1_000_000 { 1_000_000 } else { x as i64 } }

struct Rec { ev: Vec<String>, mark: usize, own: bool, zst: bool, nbase: u64, zdrops: u64 }
impl Rec {
    /// labels destroyed since the last call: for owning kinds all, for views the originals only
    fn dropped(&mut self) -> Vec<i64> {
        if self.zst {
            let d = with(|l| l.zst_drops);
            let n = d - self.zdrops;
            self.zdrops = d;
            return vec![-1; n as usize];
        }
        let (own, mark, nbase) = (self.own, self.mark, self.nbase as i64);
        let (r, m) = with(|l| {
            let r: Vec<i64> = l.log[mark..].iter().filter(|e| e.0 == DROP && (own || e.1 <= nbase))
                .map(|e| if e.1 == 0 { -5 } else { l.e[e.1 as usize - 1].origin }).collect();
            (r, l.log.len())
        });
        self.mark = m;
        r
    }
    fn live(&self) -> i64 { if self.zst { with(|l| l.zst_live) } else { ledger::live_count() } }
    fn push(&mut self, op: &Op, outcome: &str, items: Items, nums: Vec<i64>) {
        let d = self.dropped();
        let live = self.live();
        self.ev.push(format!("[\"{}\",{},{},\"{}\",{},{},{},{}]", op.c, op.a, op.b, outcome,
            list(items.into_iter().map(ints)), ints(nums), ints(d), live));
    }
}

fn outcome(ok: bool) -> &'static str {
    if with(|l| { l.fuse = 0; l.blown }) { "blown" } else if ok { "ok" } else { "panic" }
}

/// Runs the history; false if something panicked.
fn history(mut it: Box<dyn It + '_>, ops: &[Op], rec: &mut Rec) -> bool {
    let one = |o: Option<Vec<i64>>| -> Items { o.into_iter().collect() };
    for op in ops {
        let (a, b) = (us(op.a), us(op.b));
        with(|l| { l.ticks = 0; l.fuse = op.fuse; l.blown = false; });
        let mut nums = vec![];
        let r: Option<Items> = match op.c {
            'n' => guard(|| it.next()).map(one),
            'b' => guard(|| it.next_back()).map(one),
            'h' => guard(|| it.nth(a)).map(one),
            'H' => guard(|| it.nth_back(a)).map(one),
            'l' => guard(|| it.len()).map(|n| { nums.push(num(n)); vec![] }),
            'z' => guard(|| it.hint()).map(|(l, h)| { nums.push(num(l)); nums.push(h.map(num).unwrap_or(-1)); vec![] }),
            'k' => guard(|| it.take(a)),
            'p' => guard(|| it.try_fold(a)).map(|(b, v)| { nums.push(b as i64); v }),
            'q' => guard(|| it.try_rfold(a)).map(|(b, v)| { nums.push(b as i64); v }),
            'i' => guard(|| it.position(a)).map(|(i, v)| { nums.push(i.map(num).unwrap_or(-1)); v }),
            'j' => guard(|| it.rposition(a)).map(|(i, v)| { nums.push(i.map(num).unwrap_or(-1)); v }),
            'I' => guard(|| it.find(a)).map(|(n, v)| { nums.push(num(n)); one(v) }),
            'J' => guard(|| it.rfind(a)).map(|(n, v)| { nums.push(num(n)); one(v) }),
            'A' => guard(|| it.any(a)).map(|(b, v)| { nums.push(b as i64); v }),
            'L' => guard(|| it.all(a)).map(|(b, v)| { nums.push(b as i64); v }),
            'm' => guard(|| it.find_map(a)).map(|(b, v)| { nums.push(b as i64); v }),
            'v' => guard(|| it.try_each(a)).map(|(b, v)| { nums.push(b as i64); v }),
            'a' => guard(|| {
                let mut v = vec![];
                for _ in 0..a { if let Some(x) = it.next() { v.push(x) } else { nums.push(0) } }
                for _ in 0..b { if let Some(x) = it.next_back() { v.push(x) } else { nums.push(1) } }
                v
            }),
            c => {
                // consuming calls end the history
                let r = match c {
                    'c' => guard(|| it.count()).map(|n| { nums.push(num(n)); vec![] }),
                    't' => guard(|| it.last()).map(one),
                    'M' => guard(|| it.max_by()).map(|(n, v)| { nums.push(num(n)); one(v) }),
                    'N' => guard(|| it.min_by()).map(|(n, v)| { nums.push(num(n)); one(v) }),
                    'U' => guard(|| it.reduce()).map(|(n, v)| { nums.push(num(n)); one(v) }),
                    'P' => guard(|| it.partition()),
                    'f' => guard(|| it.fold()),
                    'g' => guard(|| it.for_each()),
                    'F' => guard(|| it.rfold()),
                    'r' => guard(|| it.rev()),
                    'o' => guard(|| it.collect()),
                    's' => guard(|| it.skip(a)),
                    'y' => guard(|| it.step(a)),
                    'd' => guard(|| { drop(it); vec![] }),
                    _ => rc_harness::harness_bug("bad op"),
                };
                let ok = r.is_some();
                rec.push(op, outcome(ok), r.unwrap_or_default(), nums);
                return ok;
            }
        };
        let ok = r.is_some();
        rec.push(op, outcome(ok), r.unwrap_or_default(), nums);
        if !ok {
            // do not let a half-broken iterator unwind through the rest of the run
            let _ = guard(|| drop(it));
            return false;
        }
    }
    let _ = guard(|| drop(it));
    true
}

fn lab(t: &Tok) -> i64 { if t.is_live() { t.origin() } else { -6 } }
fn mk(label: i64) -> Tok { Tok::mk(Value::Gf(label), label) }
fn mkc(label: i64) -> Cp { Cp(label as u32) }

/// A holder that keeps handed-out items alive and gives them up at the end.
macro_rules! own_run {
    ($it:expr, $ops:expr, $rec:expr, $show:expr) => {{
        let mut keep = Vec::new();
        let ok = {
            let it = $it;
            let kp = &mut keep;
            history(Box::new(W { it, sink: move |x| { let s = $show(&x); kp.push(x); s } }), $ops, $rec)
        };
        (ok, keep)
    }};
}

fn scenario(line: &str) -> String {
    let (head, tail) = line.split_once(':').unwrap();
    let h: Vec<&str> = head.split_whitespace().collect();
    let (kind, et) = (h[0], h[1]);
    let d: Vec<usize> = h[2..5].iter().map(|x| x.parse().unwrap()).collect();
    let ops = parse(tail);
    ledger::reset();
    with(|l| { l.logging = true; l.p = 1 << 20 });
    let mut rec = Rec { ev: vec![], mark: 0, own: kind == "own" || kind == "chunks", zst: et == "zst", nbase: 0, zdrops: 0 };
    let end = Op { c: 'e', a: 0, b: 0, fuse: 0 };
    let ops = &ops[..];
    match (kind, et) {
        ("own", "tok") => vdisp!(d[0], N, {
            let v: Vector<Tok, N> = (0..d[0]).map(|i| mk(i as i64 + 1)).collect();
            rec.mark = with(|l| l.log.len());
            let (_ok, keep) = own_run!(v.into_iter(), ops, &mut rec, |x: &Tok| vec![lab(x)]);
            let r = guard(|| drop(keep));
            rec.push(&end, if r.is_some() { "ok" } else { "panic" }, vec![], vec![with(|l| l.bad) as i64]);
        }),
        ("own", "cp") => vdisp!(few d[0], N, {
            let v: Vector<Cp, N> = (0..d[0]).map(|i| mkc(i as i64 + 1)).collect();
            let (_ok, keep) = own_run!(v.into_iter(), ops, &mut rec, |x: &Cp| vec![x.0 as i64]);
            drop(keep);
            rec.push(&end, "ok", vec![], vec![0]);
        }),
        ("own", "zst") => vdisp!(few d[0], N, {
            let v: Vector<Zst, N> = (0..d[0]).map(|_| Zst::mk()).collect();
            rec.zdrops = with(|l| l.zst_drops);
            let (_ok, keep) = own_run!(v.into_iter(), ops, &mut rec, |_: &Zst| vec![-1]);
            drop(keep);
            rec.push(&end, "ok", vec![], vec![with(|l| l.bad) as i64]);
        }),
        ("chunks", "tok") => ckdisp!((d[0], d[1]), N, I, {
            let v: Vector<Tok, N> = (0..d[0]).map(|i| mk(i as i64 + 1)).collect();
            rec.mark = with(|l| l.log.len());
            let (_ok, keep) = own_run!(v.into_chunks::<I>(), ops, &mut rec, |x: &Vector<Tok, I>| x.iter().map(lab).collect::<Vec<i64>>());
            let r = guard(|| drop(keep));
            rec.push(&end, if r.is_some() { "ok" } else { "panic" }, vec![], vec![with(|l| l.bad) as i64]);
        }),
        ("chunks", "cp") => ckdisp!(few (d[0], d[1]), N, I, {
            let v: Vector<Cp, N> = (0..d[0]).map(|i| mkc(i as i64 + 1)).collect();
            let (_ok, keep) = own_run!(v.into_chunks::<I>(), ops, &mut rec, |x: &Vector<Cp, I>| x.iter().map(|c| c.0 as i64).collect::<Vec<i64>>());
            drop(keep);
            rec.push(&end, "ok", vec![], vec![0]);
        }),
        (_, "tok") => mdisp!((d[0], d[1]), R, C, {
            let m = Matrix::<Tok, R, C>::generate(|(i, j)| mk(i as i64 * 100 + j as i64 + 1));
            rec.nbase = (d[0] * d[1]) as u64;
            rec.mark = with(|l| l.log.len());
            match kind {
                "rows" => { let (_, keep) = own_run!(m.rows_iter(), ops, &mut rec, |x: &Vector<Tok, C>| x.iter().map(lab).collect::<Vec<i64>>()); drop(keep); }
                "cols" => { let (_, keep) = own_run!(m.cols_iter(), ops, &mut rec, |x: &Vector<Tok, R>| x.iter().map(lab).collect::<Vec<i64>>()); drop(keep); }
                "rowsref" => { history(Box::new(W { it: m.rows_iter_ref(), sink: |x: &[Tok]| x.iter().map(lab).collect::<Vec<i64>>() }), ops, &mut rec); }
                "colsref" => { history(Box::new(W { it: m.cols_iter_ref(), sink: |x: rowcol::matrix::iter::ColsIterRefInner<Tok, R, C>| x.map(lab).collect::<Vec<i64>>() }), ops, &mut rec); }
                "colin" => { history(Box::new(W { it: m.cols_iter_ref().nth(d[2]).unwrap(), sink: |x: &Tok| vec![lab(x)] }), ops, &mut rec); }
                _ => rc_harness::harness_bug("bad kind"),
            }
            let after: Vec<Vec<i64>> = (0..d[0]).map(|i| (0..d[1]).map(|j| lab(&m[(i, j)])).collect()).collect();
            rec.push(&end, "ok", after, vec![with(|l| l.bad) as i64]);
            drop(m);
            rec.push(&Op { c: 'E', a: 0, b: 0, fuse: 0 }, "ok", vec![], vec![with(|l| l.bad) as i64]);
        }),
        (_, "cp") => mdisp!(few (d[0], d[1]), R, C, {
            let m = Matrix::<Cp, R, C>::generate(|(i, j)| mkc(i as i64 * 100 + j as i64 + 1));
            match kind {
                "rows" => { let (_, keep) = own_run!(m.rows_iter(), ops, &mut rec, |x: &Vector<Cp, C>| x.iter().map(|c| c.0 as i64).collect::<Vec<i64>>()); drop(keep); }
                "cols" => { let (_, keep) = own_run!(m.cols_iter(), ops, &mut rec, |x: &Vector<Cp, R>| x.iter().map(|c| c.0 as i64).collect::<Vec<i64>>()); drop(keep); }
                "rowsref" => { history(Box::new(W { it: m.rows_iter_ref(), sink: |x: &[Cp]| x.iter().map(|c| c.0 as i64).collect::<Vec<i64>>() }), ops, &mut rec); }
                "colsref" => { history(Box::new(W { it: m.cols_iter_ref(), sink: |x: rowcol::matrix::iter::ColsIterRefInner<Cp, R, C>| x.map(|c| c.0 as i64).collect::<Vec<i64>>() }), ops, &mut rec); }
                "colin" => { history(Box::new(W { it: m.cols_iter_ref().nth(d[2]).unwrap(), sink: |x: &Cp| vec![x.0 as i64] }), ops, &mut rec); }
                _ => rc_harness::harness_bug("bad kind"),
            }
            let after: Vec<Vec<i64>> = (0..d[0]).map(|i| (0..d[1]).map(|j| m[(i, j)].0 as i64).collect()).collect();
            rec.push(&end, "ok", after, vec![0]);
        }),
        _ => rc_harness::harness_bug("bad kind"),
    }
    format!("{{\"k\":\"{}\",\"t\":\"{}\",\"d\":[{},{},{}],\"ev\":{}}}", kind, et, d[0], d[1], d[2], list(rec.ev))
}

fn main() { drive(scenario); }
