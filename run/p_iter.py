"""C01, C02, C03: iterators against the exact-size double-ended queue (spec/Deque.tla)."""
from concurrent.futures import ThreadPoolExecutor
import vlib


def line(h):
    def op(o):
        c, a, b = o[:3]
        fuse = "!%d" % o[3] if len(o) > 3 else ""
        if c == "a":
            return "a%d.%d" % (a, b) + fuse
        if c in "hHksypqijIJALmv":
            return "%s%d" % (c, a) + fuse
        return c + fuse
    return "%s %s %d %d %d : %s" % (h["k"], h["t"], *h["d"], " ".join(op(o) for o in h["ops"]))


def run_iter(kinds, families):
    def go(ctx):
        bins = ThreadPoolExecutor(1).submit(vlib.build_all, [("iter", "dev", vlib.DEFAULT_FEATURES), ("iter", "nodebug", vlib.DEFAULT_FEATURES), ("iter", "fat", vlib.DEFAULT_FEATURES)])
        scen = []
        for fam, count in families():
            hs = vlib.generate(ctx, "IterGen", ctx.path("gen-" + fam), {"KINDS": kinds, "FAMILY": fam, "COUNT": str(count)})
            scen += [line(h) for h in hs]
        ctx.measured["generated_histories"] = len(scen)
        ctx.measured["distinct_histories"] = len(set(scen))
        ctx.samples = [scen[i] for i in range(0, len(scen), max(1, len(scen) // 6))][:7]
        scen = sorted(set(scen))
        dev, nod, fat = bins.result()
        vlib.run_and_judge(ctx, [(dev, "dev"), (nod, "nodebug"), (fat, "fat")], scen, "IterTrace")
    return go


def fams():
    return [("edges", 0), ("tree", 0), ("walk", 20000 if vlib.DEEP else 2000)]


TRUST = ["rustc, the harness's element ledger, TLC"]
CHECKS = {
    "C01": {"run": run_iter("vec", fams), "assumptions": TRUST},
    "C02": {"run": run_iter("vec", fams), "assumptions": TRUST},
    "C03": {"run": run_iter("mat", fams), "assumptions": TRUST},
}
