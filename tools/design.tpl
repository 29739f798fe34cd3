# Model-based verification of sinkuu/rowcol

## Language and toolchain

TLA+ checked with TLC.  Reasons: (1) every judgement here is evaluation-heavy (polynomials of a free
ring, determinants over prime fields, sets of iterator states), which TLC's explicit-state evaluator does
directly while an SMT encoding (Apalache/Quint verify) would not scale; (2) trace validation needs
nondeterministic specifications evaluated along recorded traces, with `ndJsonDeserialize` and `IOEnv` of
the CommunityModules; (3) one language serves three purposes: design models that are model checked, the
generator of histories, and the judge of recorded histories.

## Architecture

```
 spec/*Impl.tla      design models (state machines of the algorithms), exhaustively model checked
 spec/Deque, RowCol, Ledger, LinDef, Ring, ...  the abstract specification (state + transitions)
 spec/IterGen, CatGen, ...   TLC enumerates / randomly walks histories of calls  --> ndjson
 harness/ (Rust)     executes each history on the real crate (path dependency on /repo), records a trace
 spec/*Trace.tla     TLC accepts a trace iff it is a behaviour of the abstract specification
 run/*.py            glue: build, generate, run, judge, evidence
```

The oracle is always the specification: the harness only records (results, register contents read behind
the library's back in memory order, closure calls, live elements, allocator calls, panics).  A trace is
rejected when TLC finds no transition for the next event (deadlock) or the observation is not even in the
domain of the specification (evaluation error); both are reported as VIOLATION with the history and the
event.  Harness build failures and harness bugs (exit 99) are errors (exit 2), never violations.

Two representations make finite histories speak for all inputs:

* **Free ring.**  Elements are polynomials over non-commuting generators (`Ring.tla`, mode `sym`).  The
  containers are generic, so they cannot look at the values; an identity observed for one assignment of
  distinct generators holds in every ring, including non-commutative ones.  Matrix results are compared
  coefficient by coefficient.
* **Identities.**  Elements are tokens whose creation, reads, and destruction are logged; the `Ledger`
  specification accepts only logs in which each identity is created once, read only while alive, and
  dropped at most once (exactly once for completed histories).  Tokens own no memory, so that a faulty
  container is observed rather than crashing; a crash or hang of the process is a violation too.

What remains finite: dimensions (the crate only has 0..32: all 33 vector lengths, 48 matrix shapes, 52
product shapes), history length, and element values where the code *does* branch on values (pivots,
extrema, zero tests: prime fields, exhaustive for small ones).

All checks build the harness in two profiles: `dev` and `nodebug` (= no debug assertions, no overflow
checks), since debug assertions hide defects from debug test runs.

## Properties
@@PROPS@@

## Defects found and repaired in /repo ("fix:" commits; see known-findings.txt)

@@FIXES@@

## Deliberately not counted as defects

* elements leaked while unwinding from a panic in user code (safe Rust allows it; C05 says so);
* without debug assertions, a source longer than the vector is truncated (documented `debug_assert`);
* `Display` of a matrix ends every line with a newline and uses `⎡ ⎤` for a one-line matrix;
* which of several equal extrema is returned; `clamp` with lower > upper; `{:#?}` flags of `Matrix`;
* `Display` when every cell of a row is the empty string (a row of height zero).
* floating-point accuracy of determinant and inverse (the crate documents exactness for no type; the
  properties are stated over exact fields).

## Planted bugs (seeded/) and what catches them

@@SEEDS@@

Each was confirmed in a throw-away overlay of /repo and /verif (`tools/seed.py`): it applies, the stable
tests pass, its demonstration passes on the unchanged tree and fails with it.
