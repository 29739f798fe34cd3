//! Tiny JSON output helpers and crash-proof line output.
use std::io::Write;

pub fn ints<I: IntoIterator<Item = i64>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}
pub fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}
pub fn s(x: &str) -> String { format!("\"{}\"", x) }

/// Writes progress (index of the scenario about to run) so that the driver knows
/// which scenario killed the process, and flushes results scenario by scenario.
pub struct Out { w: std::io::BufWriter<std::fs::File>, prog: std::fs::File, n: u64 }
impl Out {
    pub fn new(path: &str, prog: &str) -> Out {
        let f = std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap();
        let p = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(prog).unwrap();
        Out { w: std::io::BufWriter::with_capacity(1 << 16, f), prog: p, n: 0 }
    }
    pub fn begin(&mut self, idx: usize) {
        use std::os::unix::fs::FileExt;
        let _ = self.prog.write_at(format!("{:>12}\n", idx).as_bytes(), 0);
        self.n += 1;
    }
    pub fn line(&mut self, s: &str) {
        // one write per scenario: nothing of it is lost if a later one aborts
        let _ = self.w.write_all(s.as_bytes());
        let _ = self.w.write_all(b"\n");
        let _ = self.w.flush();
    }
}

/// Standard main loop: `bin SCENARIOS OUT PROGRESS START`, one line per scenario.
pub fn drive(mut run: impl FnMut(&str) -> String) {
    crate::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let start: usize = a[4].parse().unwrap();
    let mut o = Out::new(&a[2], &a[3]);
    for (i, l) in text.lines().enumerate().skip(start) {
        o.begin(i);
        let r = run(l);
        o.line(&r);
    }
    o.begin(usize::MAX >> 1);
}
