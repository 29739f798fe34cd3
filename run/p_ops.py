"""Container operations against the register machine (spec/RowCol.tla)."""
from concurrent.futures import ThreadPoolExecutor
import vlib

BIN = {"v": "vec", "m": "mat", "p": "prod", "l": "lin", "b": "big", "L": "lin2"}


def line(h, logged=False, el="tok", fuse=None):
    ops = []
    for i, (n, f, d, a, b, p) in enumerate(h["ops"]):
        pre = "!%d " % fuse[1] if fuse and fuse[0] == i else ""
        ops.append("%s%s %d %d %d %d : %s" % (pre, n, f, d, a, b, " ".join(map(str, p))))
    return "%s %d %s %s ; %s" % (h["m"], h["p"], "log" if logged else "nolog", el, " ; ".join(ops))


def gen(ctx, family, area, **kw):
    hs = vlib.generate(ctx, "CatGen", ctx.path("gen-%s-%s" % (family, area)), {"FAMILY": family, "AREA": area, **kw})
    return hs


def sample(ctx, scen, k=2):
    ctx.samples += [s[:400] for s in scen[::max(1, len(scen) // k)]][:k]


PROFILES = ("dev", "nodebug", "fat")


def builds(a, profiles=PROFILES):
    """the large shapes are not built with big elements"""
    return [p for p in profiles if p != "fat" or a not in "bL"]


def run_families(fams, profiles=PROFILES):
    """fams: (family, area) pairs; every history is run on the real code in each profile and judged."""
    def go(ctx):
        areas = sorted({a for _, a in fams})
        jobs = [(BIN[a], p, vlib.DEFAULT_FEATURES) for a in areas for p in builds(a, profiles)]
        with ThreadPoolExecutor(6) as ex:
            bins = ex.submit(vlib.build_all, jobs)
            gens = [(f, a, ex.submit(gen, ctx, f, a)) for f, a in fams]
            scen = {}
            for f, a, g in gens:
                s = [line(h) for h in g.result()]
                sample(ctx, s)
                scen.setdefault(a, []).extend(s)
            paths = dict(zip(jobs, bins.result()))
        total = 0
        for a in areas:
            s = sorted(set(scen[a]))
            total += len(s)
            vlib.run_and_judge(ctx, [(paths[(BIN[a], p, vlib.DEFAULT_FEATURES)], p + "-" + a) for p in builds(a, profiles)], s, "RowColTrace")
        ctx.measured["distinct_histories"] = total
    return go


def retarget(scenario, k):
    """the same history with user callback k of its last operation panicking"""
    head, *ops = scenario.split(" ; ")
    ops[-1] = "!%d %s" % (k, ops[-1])
    return " ; ".join([head] + ops)


def logged(scenario):
    return scenario.replace(" nolog ", " log ", 1)


def points(n):
    """which of a call's n callbacks are made to panic"""
    if vlib.DEEP or n <= 24:
        return range(1, n + 1)
    return sorted(set(list(range(1, 9)) + list(range(9, n, max(1, n // 10))) + list(range(n - 7, n + 1))))


def run_faults(ctx):
    import p_iter
    profiles = PROFILES
    areas = "vmpl"
    jobs = [(b, p, vlib.DEFAULT_FEATURES) for p in profiles for b in [BIN[a] for a in areas] + ["iter"]]
    with ThreadPoolExecutor(8) as ex:
        bins = ex.submit(vlib.build_all, jobs)
        gi = ex.submit(vlib.generate, ctx, "IterGen", ctx.path("gen-it"), {"KINDS": "vec", "FAMILY": "faults", "COUNT": "0"})
        gens = {a: ex.submit(gen, ctx, "faults", a) for a in areas}
        paths = dict(zip(jobs, bins.result()))
    total = 0
    log_traces = []
    blown = set()
    for a in areas:
        base = sorted(set(line(h) for h in gens[a].result()))
        probe = vlib.run_scenarios(ctx, paths[(BIN[a], "dev", vlib.DEFAULT_FEATURES)], base, "probe-" + a)
        scen = []
        for t, s in probe:
            if t in (None, "skipped"):
                ctx.violation("the process died or hung while running this scenario", {"scenario": s})
                continue
            ticks = t["ev"][-2][14]
            scen += [retarget(s, k) for k in points(ticks)]
        sample(ctx, scen)
        # identities are followed one by one on a share of the histories, counts on all of them
        scen = [logged(s) if vlib.DEEP or i % 5 == 0 else s for i, s in enumerate(scen)]
        total += len(scen)
        tr = vlib.run_and_judge(ctx, [(paths[(BIN[a], p, vlib.DEFAULT_FEATURES)], p + "-" + a) for p in builds(a, profiles)], scen, "RowColTrace")
        log_traces += [x for x in tr if x[0]["log"]]
        blown |= {sc for t, sc in tr if any(e[6] == "blown" for e in t["ev"])}
    vlib.judge(ctx, "LedgerTrace", log_traces, label="ledger")
    ctx.measured["element_identity_events"] = sum(len(t["log"]) for t, _ in log_traces)
    scen = sorted(set(p_iter.line(h) for h in gi.result()))
    sample(ctx, scen)
    total += len(scen)
    it = vlib.run_and_judge(ctx, [(paths[("iter", p, vlib.DEFAULT_FEATURES)], p + "-iter") for p in profiles], scen, "IterTrace")
    ctx.measured["evaluations"] = total
    ctx.measured["distinct_nontrivial"] = len(blown) + len({sc for t, sc in it if any(e[3] == "blown" for e in t["ev"])})
    ctx.measured["rule"] = ("a case is one history with one user callback (the k-th) of its last operation made to panic; "
                            "non-trivial: the panic was really injected while the operation ran")


def run_each(ctx):
    profiles = PROFILES
    areas = "vmplb"
    jobs = [(BIN[a], p, vlib.DEFAULT_FEATURES) for a in areas for p in builds(a, profiles)]
    with ThreadPoolExecutor(8) as ex:
        bins = ex.submit(vlib.build_all, jobs)
        gens = {a: ex.submit(gen, ctx, "each", a) for a in areas}
        paths = dict(zip(jobs, bins.result()))
    total, logs = 0, []
    for a in areas:
        scen = sorted(set(line(h, logged=True) for h in gens[a].result()))
        sample(ctx, scen)
        total += len(scen)
        logs += vlib.run_and_judge(ctx, [(paths[(BIN[a], p, vlib.DEFAULT_FEATURES)], p + "-" + a) for p in builds(a, profiles)], scen, "RowColTrace")
    vlib.judge(ctx, "LedgerTrace", logs, label="ledger")
    ctx.measured["element_identity_events"] = sum(len(t["log"]) for t, _ in logs)
    ctx.measured["distinct_histories"] = total


TRUST = ["rustc, the harness's element ledger, TLC"]


def chk(*fams, **kw):
    return {"run": run_families(fams, **kw), "assumptions": TRUST}


CHECKS = {
    "C04": chk(("collect", "v")),
    "C05": {"run": run_faults, "assumptions": TRUST, "level": "fault_enumeration"},
    "C06": {"run": run_each, "assumptions": TRUST},
    "C07": chk(("ctor", "v"), ("ctor", "m"), ("ctor", "b")),
    "C08": chk(("access", "v"), ("access", "m"), ("writes", "v"), ("writes", "m"), ("access", "b")),
    "C09": chk(("arith", "v"), ("arith", "m"), ("arith", "b")),
    "C10": chk(("prod", "v"), ("prod", "m"), ("prod", "p"), ("prod", "b")),
    "C11": chk(("map", "m"), ("map", "b")),
    "C12": chk(("det", "l"), ("ratdet", "l"), ("det", "L")),
    "C13": chk(("inv", "l"), ("ratinv", "l"), ("inv", "L")),
    "C14": chk(("sums", "v"), ("sums", "m"), ("sums", "b")),
}
