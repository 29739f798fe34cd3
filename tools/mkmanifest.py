#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "run"))
TECH = "TLA+ specification checked with TLC; TLC-generated histories replayed into the real code; recorded traces validated against the specification"
BASE = "Everything observed on the generated histories is a behaviour of the specification; code never executed by a history is not covered. Trusted: rustc, TLC, the harness's element types and ledger."
C = {
 "C01": ("model_checking", TECH + "; design model of the cursors (IterImpl) refines the deque", "Cursor algorithm model-checked for up to 5 elements with panicking destructors; all (front,back) states of the real iterators of every length 0..32 for three element types. " + BASE),
 "C02": ("model_checking", TECH + "; design model of the cursors (IterImpl) refines the deque", "As C01, for returned items, lengths and size hints. " + BASE),
 "C03": ("model_checking", TECH + "; design model of the row/column cursors (ViewImpl)", "All (front,back) states of the five iterator kinds over 48 shapes. " + BASE),
 "C04": ("model_checking", TECH + "; design model of the collecting algorithm (CollectImpl)", "Every vector length 0..32 with short, exact, long, unfused and lying sources, with and without debug assertions. " + BASE),
 "C05": ("fault_enumeration", TECH + "; every user callback of every operation made to panic in turn", "Complete enumeration of single panics over one instance per operation, form and (small) shape; leaks caused by the panic are allowed. " + BASE),
 "C06": ("model_checking", TECH + "; element identities followed by the Ledger specification", "Every operation and operand form over representative shapes; identity-level creation/read/destruction log judged step by step. " + BASE),
 "C07": ("model_checking", TECH, "Every constructor over every length and 48 shapes with uninterpreted elements (one symbolic run stands for all element values). " + BASE),
 "C08": ("model_checking", TECH, "Every access path at every position (large shapes: boundary positions in quick), all kinds of out-of-range index, random histories of writes. " + BASE),
 "C09": ("model_checking", TECH, "Every operation and operand form over every length and 48 shapes in the free non-commutative ring, which implies the result for every ring. " + BASE),
 "C10": ("model_checking", TECH, "Products over 52 shape triples in all forms in the free ring and over prime fields; powers with exponents up to usize::MAX over prime fields. " + BASE),
 "C11": ("model_checking", TECH, "Every shape, every single-position predicate, closure call logs. " + BASE),
 "C12": ("model_checking", TECH + "; determinant specified by Laplace expansion, itself checked against the Leibniz sum", "Exhaustive 1x1/2x2/3x3 over small fields, permutation patterns, zero-pivot, rank-deficient, sparse and random matrices up to 8x8 over several prime fields. Floating-point accuracy is out of scope. " + BASE),
 "C13": ("model_checking", TECH + "; inverse specified by its defining equations", "Same matrix families as C12. Floating-point accuracy is out of scope. " + BASE),
 "C14": ("model_checking", TECH, "Extremum at every position, all short vectors over few values, all bound pairs. " + BASE),
 "C15": ("model_checking", TECH, "Every single differing position, logged tolerances of an instrumented element type. " + BASE),
 "C16": ("model_checking", TECH + "; expected text computed by the Render specification", "Cell widths/heights incl. wide and zero-width characters, with and without the unicode_width feature. " + BASE),
 "C17": ("model_checking", "TLA+ specification of the shape rules (Shapes); TLC enumerates programs and their verdicts; rustc's verdict on each is compared", "Bounded dimensions; compiler verdict, not error text. Trusted: rustc, TLC."),
 "C18": ("model_checking", TECH + "; layout facts and allocator calls recorded as trace events", "All lengths and shapes, four element types; allocation counted per operation. " + BASE),
 "C19": ("model_checking", TECH + "; TLC enumerates aliases and macro invocations with their meaning", "All 26 aliases; macro sizes 0..32. " + BASE),
 "C20": ("model_checking", TECH, "Integer vectors with exactly representable norms, all lengths; normalisation judged with a relative tolerance of 2^-20. Accuracy in general is out of scope. " + BASE),
 "C21": ("model_checking", TECH + "; the same TLC-generated histories judged in every build configuration", "Random walks of the register machine over both element types, per profile and feature combination. " + BASE),
}
NA = {}
import check
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i in check.GROUPS:
        lv, t, n = C[i]
        checks.append(dict(property=i, quick_cmd="python3 run/check.py %s" % i, thorough_cmd="python3 run/check.py %s thorough" % i,
                           technique=t, level=lv, level_note=n))
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in check.GROUPS]
m = dict(version=1, setup_cmd="python3 run/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the public API exposes all abstract state, and instrumented element types passed to the generic containers record the rest.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
