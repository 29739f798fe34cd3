"""C21: long mixed histories under every build of the crate, all held to the same specification."""
from concurrent.futures import ThreadPoolExecutor
import vlib, p_ops, p_iter, p_facts

DEF, STD, NONE, ND, ALL = vlib.DEFAULT_FEATURES, ("std",), (), ("use_needs_drop",), ("std", "unicode_width", "use_needs_drop")
QUICK = (("dev", DEF), ("release", DEF), ("nodebug", NONE), ("release", ND))
FULL = tuple((p, f) for p in ("dev", "release") for f in (DEF, STD, NONE, ND, ALL, ("unicode_width",), ("std", "use_needs_drop"), ("unicode_width", "use_needs_drop"))) + (("nodebug", NONE),)


# single operations of every other check, sampled: the specification of C01 .. C20 has to hold in every build
SHARED = {"v": ("ctor", "access", "writes", "arith", "prod", "sums", "eq", "collect"), "m": ("ctor", "access", "writes", "arith", "prod", "map", "sums", "eq"),
          "p": ("prod",), "l": ("det", "inv"), "L": ("det", "inv")}
FACTS = {"text": ("render",), "approx": ("approx", "equal"), "norm": ("norm",), "flo": ("fprod", "farith", "fsum", "fnorm", "finv")}


def pick(s, n):
    s = sorted(set(s))
    k = max(1, len(s) // n)
    return s[vlib.SEED % k::k]


def run(ctx):
    builds = FULL if vlib.DEEP else QUICK
    deep = vlib.DEEP
    areas = list(SHARED)
    names = ["hist", "iter"] + [p_ops.BIN[a] for a in areas] + list(FACTS)
    # Display exists with std only
    has = lambda b, f: b != "text" or "std" in f
    jobs = [(b, p, f) for p, f in builds for b in names if has(b, f)]
    with ThreadPoolExecutor(8) as ex:
        bins = ex.submit(vlib.build_all, jobs)
        hs = ex.submit(vlib.generate, ctx, "HistGen", ctx.path("gen-hist"), {})
        its = [ex.submit(vlib.generate, ctx, "IterGen", ctx.path("gen-" + fam), {"KINDS": "all", "FAMILY": fam, "COUNT": "10000" if deep else "1500"}) for fam in ("walk", "edges")]
        sh = {a: [(f, ex.submit(p_ops.gen, ctx, f, a)) for f in fams] for a, fams in SHARED.items()}
        bi = ex.submit(vlib.generate, ctx, "FactGen", ctx.path("gen-bits"), {"FAMILY": "bits"})
        fa = {b: [ex.submit(vlib.generate, ctx, "FactGen", ctx.path("gen-" + f), {"FAMILY": f}) for f in fams] for b, fams in FACTS.items()}
        scen = [p_ops.line(h, logged=h["t"] == "tok" and i % 3 == 0, el=h["t"]) for i, h in enumerate(hs.result())]
        walk, edges = ([p_iter.line(h) for h in g.result()] for g in its)
        iters = sorted(set(walk + pick(edges, 40000 if deep else 3000)))
        shared = {a: sorted(set(sum((pick([p_ops.line(h) for h in g.result()], 3000 if deep else 200) for _, g in gs), []))) for a, gs in sh.items()}
        facts = {b: sorted(set(sum((pick([p_facts.line(q) for q in g.result()], 10000 if deep else 800) for g in gs), []))) for b, gs in fa.items()}
        bits = sorted(set(p_facts.line(q) for q in bi.result()))
        paths = dict(zip(jobs, bins.result()))
    p_ops.sample(ctx, scen)
    p_ops.sample(ctx, iters)
    lab = lambda p, f: p + "-" + ("_".join(f) or "none")
    on = lambda b: [(paths[(b, p, f)], lab(p, f) + ("" if b == "hist" else "-" + b)) for p, f in builds if has(b, f)]
    tr = vlib.run_and_judge(ctx, on("hist"), scen, "RowColTrace", agree=True)
    logs = [x for x in tr if x[0]["log"]]
    vlib.judge(ctx, "LedgerTrace", logs, label="ledger")
    more = [vlib.run_and_judge(ctx, on("iter"), iters, "IterTrace", agree=True)]
    for a in areas:
        more.append(vlib.run_and_judge(ctx, on(p_ops.BIN[a]), shared[a], "RowColTrace", agree=True))
    for b in FACTS:
        more.append(vlib.run_and_judge(ctx, on(b), facts[b], "FactTrace", agree=True))
    vlib.run_and_judge(ctx, on("flo"), bits, None, agree=True)
    ctx.measured["builds_compared"] = [lab(p, f) for p, f in builds]
    ctx.measured["distinct_histories"] = len(set(scen)) + len(iters) + sum(map(len, shared.values())) + sum(map(len, facts.values()))
    ctx.measured["operations_per_history"] = round(sum(len(t["ev"]) for t, _ in tr) / max(1, len(tr)), 1)


CHECKS = {"C21": {"run": run, "assumptions": p_ops.TRUST}}
