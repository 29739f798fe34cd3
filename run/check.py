#!/usr/bin/env python3
"""check.py ID : decides one property of rowcol with its TLA+ specification.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import models, vlib

GROUPS = {}
for mod in ("p_iter", "p_ops", "p_facts", "p_shapes", "p_hist"):
    m = importlib.import_module(mod)
    GROUPS.update(m.CHECKS)


def known(pid):
    p = os.path.join(vlib.VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    return out


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        vlib.TIER = sys.argv[2]
        vlib.DEEP = vlib.TIER == "thorough"
    ctx = vlib.Ctx(pid)
    try:
        spec = GROUPS[pid]
        beside = models.Models(ctx)
        try:
            spec["run"](ctx)
        finally:
            beside.wait()
    except vlib.ToolError as e:
        if not ctx.violations:
            print("ERROR: %s" % e)
            return 2
        ctx.notes.append("after a violation: %s" % str(e)[:300])
    except Exception:
        if not ctx.violations:
            traceback.print_exc()
            return 2
    finally:
        ctx.done()
    ev = vlib.evidence(ctx, spec.get("level", "model_checking"), spec.get("assumptions", []), spec.get("extra"))
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(vlib.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what, p in ctx.violations[:5]:
        print("  %s" % what[:1500])
    if ctx.violations:
        print("VIOLATION property=%s replay=%s" % (pid, ctx.violations[0][1]))
        return 1
    print("OK property=%s: %d specification states, %d traces of the real code (%d events) validated, %.1f s" %
          (pid, ctx.states, ctx.traces, ctx.events, ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
