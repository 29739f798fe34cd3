//! The ownership ledger.  Every element of the harness is a token; creation,
//! read and destruction of a token are recorded here.  Tokens own no memory
//! themselves, so that a faulty container which drops or duplicates one is
//! observed instead of corrupting the process.
use std::cell::RefCell;
use std::collections::BTreeMap;

/// Element values: a prime-field number (modulus 0: a plain integer), an exact
/// fraction in lowest terms, or a polynomial in non-commuting generators
/// (word -> coefficient).
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Value {
    Gf(i64),
    Rat(i128, i128),
    Sym(BTreeMap<Vec<i32>, i64>),
}

pub const CREATE: i64 = 0;
pub const DROP: i64 = 1;
pub const READ: i64 = 2;

#[derive(Clone)]
pub struct Entry {
    pub live: bool,
    pub val: Value,
    /// label of the original element this one was cloned from (0: computed)
    pub origin: i64,
}

pub struct Ledger {
    pub e: Vec<Entry>, // id i is e[i-1]
    pub log: Vec<(i64, i64)>,
    pub logging: bool,
    /// double drops, garbage drops, reads of dead or garbage tokens
    pub bad: u32,
    pub ticks: u64,
    pub fuse: u64, // 0 = off
    pub blown: bool,
    pub p: i64,
    pub sym: bool,
    pub rat: bool,
    pub zst_live: i64,
    pub zst_drops: u64,
}

thread_local! {
    pub static L: RefCell<Ledger> = RefCell::new(Ledger {
        e: Vec::new(), log: Vec::new(), logging: false, bad: 0, ticks: 0, fuse: 0,
        blown: false, p: 7, sym: false, rat: false, zst_live: 0, zst_drops: 0,
    });
}

pub fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    L.with(|l| f(&mut l.borrow_mut()))
}

pub fn reset() {
    with(|l| {
        l.e.clear();
        l.log.clear();
        l.bad = 0;
        l.ticks = 0;
        l.fuse = 0;
        l.blown = false;
        l.zst_live = 0;
        l.zst_drops = 0;
    })
}

pub fn create(val: Value, origin: i64) -> u32 {
    with(|l| {
        l.e.push(Entry { live: true, val, origin });
        let id = l.e.len() as i64;
        if l.logging { l.log.push((CREATE, id)); }
        id as u32
    })
}

/// Reads token `id` (0: garbage); None if it never existed.
pub fn read(id: u32) -> Option<Entry> {
    with(|l| {
        let ok = id >= 1 && (id as usize) <= l.e.len();
        if l.logging { l.log.push((READ, if ok { id as i64 } else { 0 })); }
        if !ok { l.bad += 1; return None; }
        let e = l.e[id as usize - 1].clone();
        if !e.live { l.bad += 1; }
        Some(e)
    })
}

/// Looks at a token without recording a use (harness-side observation).
pub fn peek(id: u32) -> Option<Entry> {
    with(|l| {
        let ok = id >= 1 && (id as usize) <= l.e.len();
        if !ok { l.bad += 1; return None; }
        Some(l.e[id as usize - 1].clone())
    })
}

pub fn dropped(id: u32) {
    with(|l| {
        let ok = id >= 1 && (id as usize) <= l.e.len();
        if l.logging { l.log.push((DROP, if ok { id as i64 } else { 0 })); }
        if !ok { l.bad += 1; return; }
        let e = &mut l.e[id as usize - 1];
        if !e.live { l.bad += 1; }
        e.live = false;
    })
}

/// One user callback; panics when the armed fuse is reached.
pub fn tick() {
    let blow = with(|l| {
        l.ticks += 1;
        if l.fuse != 0 && l.ticks == l.fuse && !l.blown && !std::thread::panicking() {
            l.blown = true;
            true
        } else { false }
    });
    if blow { panic!("injected"); }
}

pub fn live_ids() -> Vec<i64> {
    with(|l| (0..l.e.len()).filter(|&i| l.e[i].live).map(|i| i as i64 + 1).collect())
}
pub fn live_count() -> i64 {
    with(|l| l.e.iter().filter(|e| e.live).count() as i64)
}
