"""C17 (and the trait claims of C15, C18): the compiler as the system under test. Each program of spec/Shapes.tla is written out
in Rust, compiled against the current tree, and the verdicts are judged by the specification."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib


def V(n, t="i64"):
    return "Vector<%s, U%d>" % (t, n)


def M(r, c, t="i64"):
    return "Matrix<%s, U%d, U%d>" % (t, r, c)


def A(n, t="i64"):
    return "[%s; %d]" % (t, n)


AOP = {"add": "+", "sub": "-"}
ELEM = {1: "i64", 2: "f64", 3: "String", 4: "Rc<i64>", 5: "Plain", 6: "Partial", 7: "&'static Plain", 8: "Cell<i64>"}
CLAIM = {"copy": "Copy", "eq": "Eq", "clone": "Clone", "send": "Send", "sync": "Sync"}
HEAD = """#![allow(warnings)]
#[macro_use] extern crate rowcol;
extern crate num;
extern crate approx;
use rowcol::prelude::*;
use rowcol::matrix::Matrix;
use rowcol::vector::Vector;
use rowcol::typenum::consts::*;
use approx::ApproxEq;
use num::One;
use std::rc::Rc;
use std::cell::Cell;
pub struct Plain(i64);
#[derive(Clone, Copy, PartialEq)] pub struct Partial(i64);
pub fn need_copy<T: Copy>() {} pub fn need_eq<T: Eq>() {} pub fn need_clone<T: Clone>() {} pub fn need_send<T: Send>() {} pub fn need_sync<T: Sync>() {}
"""


def body(op, d):
    """parameters and body of a function that is the program"""
    for k in ("vadd", "vsub", "madd", "msub"):
        if op.startswith(k) and (op == k or op[4:] in ("rv", "vr", "rr")):
            a, b = (V(d[0]), V(d[1])) if op[0] == "v" else (M(*d[:2]), M(*d[2:]))
            f = op[4:] or "vv"
            ra, rb = {"vv": ("", ""), "rv": ("&", ""), "vr": ("", "&"), "rr": ("&", "&")}[f]
            return "a: %s%s, b: %s%s" % (ra, a, rb, b), "let _ = a %s b;" % AOP[op[1:4]]
    if op in ("vadda", "vsuba"):
        return "mut a: %s, b: %s" % (V(d[0]), V(d[1])), "a %s= b;" % AOP[op[1:4]]
    if op in ("madda", "msuba"):
        return "mut a: %s, b: %s" % (M(*d[:2]), M(*d[2:])), "a %s= b;" % AOP[op[1:4]]
    if op == "vdot":
        return "a: %s, b: %s" % (V(d[0]), V(d[1])), "let _ = a.dot(&b);"
    if op in ("veq", "vne"):
        return "a: %s, b: %s" % (V(d[0]), V(d[1])), "let _ = a %s b;" % ("==" if op == "veq" else "!=")
    if op == "veqh":
        return "a: %s, b: %s" % (V(d[0], "String"), V(d[1], "&'static str")), "let _ = a == b;"
    if op in ("meq", "mne"):
        return "a: %s, b: %s" % (M(*d[:2]), M(*d[2:])), "let _ = a %s b;" % ("==" if op == "meq" else "!=")
    if op == "mrel":
        return "a: %s, b: %s" % (M(d[0], d[1], "f64"), M(d[2], d[3], "f64")), "let _ = a.relative_eq(&b, 0.1, 0.1);"
    if op == "mulps":
        return "a: %s, b: %s" % (M(d[0], d[1], "f64"), M(d[2], d[3], "f64")), "let _ = a.ulps_eq(&b, 0.1, 2);"
    if op.startswith("mm") and (op == "mm" or op[2:] in ("rv", "vr", "rr")):
        ra, rb = {"": ("", ""), "rv": ("&", ""), "vr": ("", "&"), "rr": ("&", "&")}[op[2:]]
        return "a: %s%s, b: %s%s" % (ra, M(*d[:2]), rb, M(*d[2:])), "let _ = a * b;"
    if op == "mma":
        return "mut a: %s, b: %s" % (M(*d[:2]), M(*d[2:])), "a *= b;"
    if op in ("mv", "mvr"):
        return "a: %s, b: %s%s" % (M(*d[:2]), "&" if op == "mvr" else "", V(d[2])), "let _ = a * b;"
    if op in ("det", "inv", "cof"):
        return "a: " + M(d[0], d[1], "f64"), "let _ = a.%s;" % {"det": "determinant()", "inv": "inverse()", "cof": "cofactor((0, 0))"}[op]
    if op == "ident":
        return "", "let _ = <%s>::identity();" % M(*d)
    if op == "one":
        return "", "let _ = <%s as One>::one();" % M(*d)
    if op == "pow":
        return "a: " + M(*d), "let _ = a.pow(3);"
    if op == "transpose":
        return "mut a: " + M(*d), "a.transpose();"
    if op[1:] in ("max", "min", "maxby", "minby"):
        return "a: " + (V(d[0]) if op[0] == "v" else M(*d)), "let _ = a.%s;" % {"max": "max()", "min": "min()", "maxby": "max_by(|x, y| x.cmp(y))", "minby": "min_by(|x, y| x.cmp(y))"}[op[1:]]
    if op == "vcross":
        return "a: %s, b: %s" % (V(d[0]), V(d[1])), "let _ = a.cross(&b);"
    if op == "vsget":
        return "a: " + V(d[0]), "let _ = a[U%d::new()];" % d[1]
    if op == "vsset":
        return "mut a: " + V(d[0]), "a[U%d::new()] = 1;" % d[1]
    if op == "msget":
        return "a: " + M(*d[:2]), "let _ = a[(U%d::new(), U%d::new())];" % (d[2], d[3])
    if op == "msset":
        return "mut a: " + M(*d[:2]), "a[(U%d::new(), U%d::new())] = 1;" % (d[2], d[3])
    if op == "chunks":
        return "a: " + V(d[0]), "let _ = a.into_chunks::<U%d>();" % d[1]
    if op == "chunkitem":
        return "a: " + V(d[0]), "let x: Option<%s> = a.into_chunks::<U%d>().next();" % (V(d[2]), d[1])
    if op == "vnew":
        return "a: " + A(d[1]), "let _ = %s::new(a);" % V(d[0]).replace("<", "::<", 1)
    if op == "mnew":
        return "a: " + A(d[2], A(d[3])), "let _ = %s::new(a);" % M(*d[:2]).replace("<", "::<", 1)
    if op == "diag":
        return "a: " + A(d[2]), "let _ = %s::diag(a);" % M(*d[:2]).replace("<", "::<", 1)
    if op == "reshape":
        return "a: " + V(d[2]), "let _: %s = a.into();" % M(*d[:2])
    if op == "vlit":
        return "", "let _: %s = vector![%s];" % (V(d[0]), ", ".join(["1"] * d[1]))
    if op in ("mlit", "ragged"):
        rows = d if op == "ragged" else [d[3]] * d[2]
        t = "Matrix<i64, _, _>" if op == "ragged" else M(*d[:2])
        return "", "let _: %s = matrix![%s];" % (t, ", ".join("[" + ", ".join(["1"] * k) + "]" for k in rows))
    if op == "rmm":
        return "a: %s, b: %s" % (M(d[0], d[1]), M(d[1], d[2])), "let x: %s = a * b;" % M(d[3], d[4])
    if op == "rmv":
        return "a: %s, b: %s" % (M(d[0], d[1]), V(d[1])), "let x: %s = a * b;" % V(d[2])
    if op == "rtransposed":
        return "a: " + M(*d[:2]), "let x: %s = a.transposed();" % M(*d[2:])
    if op == "rmap":
        return "a: " + M(*d[:2]), "let x: %s = a.map(|(i, j), e| (i + j) as f64 + e as f64);" % M(d[2], d[3], "f64")
    if op == "rinv":
        return "a: " + M(d[0], d[0], "f64"), "let x: Option<%s> = a.inverse();" % M(d[1], d[2], "f64")
    if op == "rrow":
        return "a: " + M(*d[:2]), "let x: Option<%s> = a.rows_iter().next();" % V(d[2])
    if op == "rcol":
        return "a: " + M(*d[:2]), "let x: Option<%s> = a.cols_iter().next();" % V(d[2])
    if op == "rvadd":
        return "a: %s, b: %s" % (V(d[0]), V(d[0])), "let x: %s = a + b;" % V(d[1])
    if op == "rinner":
        return "a: " + V(d[0]), "let x: %s = a.into_inner();" % A(d[1])
    if op[1:].startswith("claim_"):
        t = V(d[1], ELEM[d[0]]) if op[0] == "v" else M(d[1], d[2], ELEM[d[0]])
        return "", "need_%s::<%s>();" % (op[7:], t)
    raise vlib.ToolError("no program for " + op)


def text(q):
    a, b = body(q["op"], q["d"])
    return "pub fn p_%s_%s(%s) { %s }" % (q["op"], "_".join(map(str, q["d"])), a, b)


class Compiler:
    def __init__(self, ctx, features):
        """compiles rowcol itself; where its library and its dependencies are"""
        vlib.build("iter", "dev", features)
        tag = "dev-" + ("_".join(sorted(features)) or "none")
        self.target = os.path.join(vlib.BUILD, tag)
        cmd = ["cargo", "build", "--offline", "--locked", "--bin", "iter", "--no-default-features", "--message-format=json"]
        if features:
            cmd += ["--features", ",".join(features)]
        r = subprocess.run(cmd, cwd=vlib.HARNESS, env=vlib.env({"CARGO_TARGET_DIR": self.target}), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        lib = {}
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith(".rlib"):
                        lib[m["target"]["name"].replace("-", "_")] = f
        if not {"rowcol", "num", "approx"} <= set(lib):
            raise vlib.ToolError("cannot find the built libraries: %s" % sorted(lib))
        self.ctx, self.lib = ctx, lib

    def rustc(self, name, src, emit):
        p = self.ctx.path(name + ".rs")
        with open(p, "w") as f:
            f.write(src)
        out = self.ctx.path(name + ".out")
        cmd = ["rustc", "--edition", "2015", "--crate-type", "lib", "--crate-name", name, "--emit", emit + "=" + out, "--error-format=json", "--cap-lints", "allow",
               "-L", "dependency=" + os.path.join(self.target, "debug", "deps")]
        for k in ("rowcol", "num", "approx"):
            cmd += ["--extern", "%s=%s" % (k, self.lib[k])]
        r = subprocess.run(cmd + [p], cwd=self.ctx.work, env=vlib.env({"RUST_MIN_STACK": "67108864"}), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=600)
        for f in (p, out):
            if os.path.exists(f):
                os.unlink(f)
        lines, other = set(), []
        for l in r.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                other.append(l)
                continue
            if m.get("level") != "error" or not m.get("spans"):
                if m.get("level") == "error" and "aborting due to" not in m["message"]:
                    other.append(m["message"])
                continue
            hit = False
            for sp in m["spans"]:
                while sp:
                    if sp["file_name"].endswith(name + ".rs"):
                        hit = True
                        if sp["is_primary"] or True:
                            lines.add(sp["line_start"])
                    sp = sp["expansion"]["span"] if sp.get("expansion") else None
            if not hit:
                other.append(m["message"])
        return r.returncode, lines, other

    def batch(self, name, progs):
        """which of the programs the compiler complains about"""
        src = HEAD + "\n".join(text(q) for q in progs) + "\n"
        first = HEAD.count("\n") + 1
        rc, lines, other = self.rustc(name, src, "metadata")
        if rc not in (0, 1):
            return None
        bad = {l - first for l in lines}
        if any(b < 0 for b in bad):
            raise vlib.ToolError("the preamble of the shape programs does not compile: %s" % other[:3])
        return bad

    def alone(self, name, q):
        """the verdict on a single program, code generation included"""
        t = text(q)
        a, b = body(q["op"], q["d"])
        rc, lines, other = self.rustc(name, HEAD + t + "\n", "obj")
        if rc == 0:
            return 1
        if not lines and not other:
            raise vlib.ToolError("rustc exited with %s and no error on %s" % (rc, t))
        return 0


def spread(progs):
    """the same programs, operations taking turns"""
    by = {}
    for q in progs:
        by.setdefault(q["op"], []).append(q)
    out = []
    while by:
        for op in sorted(by):
            out.append(by[op].pop(0))
            if not by[op]:
                del by[op]
    return out


def run_programs(families, features=(vlib.DEFAULT_FEATURES,)):
    def go(ctx):
        with ThreadPoolExecutor(4) as ex:
            gens = [ex.submit(vlib.generate, ctx, "FactGen", ctx.path("gen-" + f), {"FAMILY": f}) for f in families]
            comps = [ex.submit(Compiler, ctx, f) for f in features]
            progs = [q for g in gens for q in g.result()]
            comps = [c.result() for c in comps]
        traces = []
        for ci, comp in enumerate(comps):
            yes, no = [q for q in progs if q["v"] == 1], [q for q in progs if q["v"] == 0]
            jobs = []
            for kind, qs in (("y", yes), ("n", no)):
                k = max(1, min(16, len(qs) // 40))
                jobs += [("b%d%s%d" % (ci, kind, i), kind, qs[i::k]) for i in range(k)]
            got = {}
            doubt = []
            with ThreadPoolExecutor(8) as ex:
                fs = [(j, ex.submit(comp.batch, j[0], j[2])) for j in jobs]
                for (nm, kind, qs), f in fs:
                    bad = f.result()
                    for i, q in enumerate(qs):
                        v = q["v"] if bad is None else (0 if i in bad else 1)
                        got[id(q)] = v
                        if bad is None or v != q["v"]:
                            doubt.append(q)
                # a verdict taken from a batch may be due to its neighbours: look again, one at a time
                # (enough of them to report; a change that breaks thousands breaks the first ones too)
                doubt = spread(doubt)
                fs = [(q, ex.submit(comp.alone, "a%d_%d" % (ci, i), q)) for i, q in enumerate(doubt[:200])]
                for q, f in fs:
                    got[id(q)] = f.result()
            if len(doubt) > 200:
                ctx.notes.append("%d programs in doubt, 200 of them compiled alone" % len(doubt))
                for q in doubt[200:]:
                    got[id(q)] = q["v"]
            traces += [({"ev": [["prog", q["op"], q["d"], got[id(q)]]]}, text(q)) for q in progs]
        ctx.runs += len(traces)
        ctx.measured["programs_compiled"] = len(traces)
        ctx.measured["programs_expected_to_be_rejected"] = sum(1 for q in progs if q["v"] == 0) * len(comps)
        ctx.measured["programs_compiled_alone"] = len(doubt)
        ctx.samples += [text(progs[i]) for i in range(0, len(progs), max(1, len(progs) // 4))][:4]
        vlib.judge(ctx, "FactTrace", traces, label="programs")
    return go


CHECKS = {
    "C17": {"run": run_programs(("shapes",)), "assumptions": ["rustc type checking, the program templates, TLC"]},
}
