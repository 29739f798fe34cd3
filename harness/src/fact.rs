//! Requests for single calls: `word word .. : int int ..`, one recorded event per request (spec/FactTrace.tla).
pub struct Req { pub w: Vec<String>, pub n: Vec<i64> }
impl Req {
    pub fn parse(l: &str) -> Req {
        let (a, b) = match l.find(':') { Some(p) => (&l[..p], &l[p + 1..]), None => (l, "") };
        Req { w: a.split_whitespace().map(|s| s.to_string()).collect(), n: b.split_whitespace().map(|s| s.parse().unwrap()).collect() }
    }
    pub fn i(&self, k: usize) -> i64 { self.w[k].parse().unwrap() }
    pub fn u(&self, k: usize) -> usize { self.i(k) as usize }
}
pub fn event(fields: Vec<String>) -> String { format!("{{\"ev\":[[{}]]}}", fields.join(",")) }
pub fn codes(s: &str) -> String { crate::out::ints(s.chars().map(|c| c as i64)) }
