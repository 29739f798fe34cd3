"""Single calls whose result is a fact about their arguments: text, approximate equality, layout, literals, norms."""
from concurrent.futures import ThreadPoolExecutor
import vlib, p_ops, p_shapes

STD = ("std",)
DEF = vlib.DEFAULT_FEATURES


def line(q):
    return " ".join(map(str, q["w"])) + " : " + " ".join(map(str, q["n"]))


def compiles(ctx, bin_, why):
    """The programs of this binary use nothing but what the property promises: if they do not compile although the
    library and a binary that uses little of it do, the promise is broken."""
    try:
        vlib.build("text", "dev", DEF)
    except vlib.ToolError:
        raise why
    ctx.violation("what the specification lists does not compile: %s" % str(why)[-1200:], {"binary": bin_, "compiler": str(why)})


def run_facts(parts, also=(), promise=False):
    """parts: (binary, families, builds)"""
    def facts(ctx):
        try:
            go(ctx)
        except vlib.ToolError as e:
            if not (promise and "harness build failed" in str(e)):
                raise
            compiles(ctx, parts[0][0], e)

    def both(ctx):
        # the programs must be judged even if the binary does not build
        late = None
        try:
            facts(ctx)
        except vlib.ToolError as e:
            late = e
        for f in also:
            f(ctx)
        if late:
            raise late

    def go(ctx):
        jobs = [(b, p, f) for b, _, builds in parts for p, f in builds]
        with ThreadPoolExecutor(6) as ex:
            bins = ex.submit(vlib.build_all, jobs)
            gens = {fam: ex.submit(vlib.generate, ctx, "FactGen", ctx.path("gen-" + fam), {"FAMILY": fam}) for _, fams, _ in parts for fam in fams}
            scen = {fam: [line(q) for q in g.result()] for fam, g in gens.items()}
            paths = dict(zip(jobs, bins.result()))
        total = 0
        for b, fams, builds in parts:
            s = sorted(set(sum((scen[f] for f in fams), [])))
            p_ops.sample(ctx, s, 4)
            total += len(s)
            vlib.run_and_judge(ctx, [(paths[(b, p, f)], "%s-%s-%s" % (b, p, "_".join(f) or "none")) for p, f in builds], s, "FactTrace")
        ctx.measured["distinct_requests"] = total
    return both


FLO = (("dev", DEF), ("release", DEF))


def with_floats(pid, *families):
    """the property's container histories, and the same operations on elements that are no ring (spec/Floats.tla)"""
    base = p_ops.CHECKS[pid]
    facts = run_facts([("flo", families, FLO)])

    def go(ctx):
        base["run"](ctx)
        facts(ctx)
    return {**base, "run": go}


TRUST = ["rustc, the harness, TLC"]
CHECKS = {
    "C15": {"run": run_facts([("approx", ("approx", "equal"), (("dev", DEF), ("nodebug", DEF))), ("flo", ("feq",), FLO)], also=(p_ops.run_families((("eq", "v"), ("eq", "m"), ("eq", "b"))), p_shapes.run_programs(("claims-eq",)))), "assumptions": TRUST},
    "C16": {"run": run_facts([("text", ("render",), (("dev", DEF), ("nodebug", DEF), ("dev", STD)))]), "assumptions": TRUST},
    "C18": {"run": run_facts([("layout", ("layout",), (("dev", DEF), ("release", DEF), ("dev", ()), ("dev", ("use_needs_drop",))))], also=(p_shapes.run_programs(("claims-own",)),)), "assumptions": TRUST},
    "C19": {"run": run_facts([("lits", ("literals",), (("dev", DEF), ("dev", ())))], promise=True), "assumptions": TRUST},
    "C20": {"run": run_facts([("norm", ("norm",), (("dev", DEF), ("release", DEF))), ("flo", ("fnorm",), FLO)]), "assumptions": TRUST},
    "C07": with_floats("C07", "fzero"),
    "C09": with_floats("C09", "farith"),
    "C10": with_floats("C10", "fprod"),
    "C11": with_floats("C11", "fmap"),
    "C12": with_floats("C12", "fdet"),
    "C13": with_floats("C13", "finv"),
    "C14": with_floats("C14", "fsum"),
}
