//! Shared parts of the conformance harness: the ownership ledger, the element
//! types driven through rowcol's generic containers, and the dispatch macros
//! that turn run-time dimensions into type-level ones.
pub mod ledger;
pub mod elem;
pub mod dims;
pub mod out;
pub mod cat;
pub mod disp;
pub mod fact;

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Runs `f`, turning a panic into None.
pub fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// A scenario the harness cannot run: an error of the check, never a finding about rowcol.
pub fn harness_bug(what: &str) -> ! {
    eprintln!("harness: cannot run this scenario: {}", what);
    std::process::exit(99)
}
