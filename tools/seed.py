#!/usr/bin/env python3
"""Tries planted bugs in throw-away overlays of /repo and /verif (own mount namespace; nothing real changes).
  tools/seed.py [--demo] [--checks own|all|C01,C02] [-j N] ID...
Without --checks only the planted bug itself is confirmed (builds, tests pass, demo passes without and fails with it)."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks, jobs, ids, demo, quiet = None, 3, [], True, []
while args:
    a = args.pop(0)
    if a == "--checks": checks = args.pop(0)
    elif a == "-j": jobs = int(args.pop(0))
    elif a == "--nodemo": demo = False
    elif a == "--quiet": quiet = args.pop(0).split(",")  # behaviour-preserving patch files: the checks must pass
    else: ids.append(a)
if not ids and not quiet: ids = sorted(os.listdir(os.path.join(HERE, "seeded")))
claimed = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]

def inns(script, tag):
    base = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    for d in ("ru", "rw", "vu", "vw"): os.mkdir(os.path.join(base, d))
    pre = ("set -e; B=%s; mount -t overlay overlay -o lowerdir=/repo,upperdir=$B/ru,workdir=$B/rw /repo; "
           "mount -t overlay overlay -o lowerdir=/verif,upperdir=$B/vu,workdir=$B/vw /verif; set +e; cd /repo; " % base)
    env = {k: v for k, v in os.environ.items()}
    env.update(VERIF_SEED="1", VERIF_TIER="quick")
    p = subprocess.run(["unshare", "-m", "bash", "-c", pre + script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    shutil.rmtree(base, ignore_errors=True)
    return p.returncode, p.stdout

def one(i):
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    msg = []
    if demo:
        t = tempfile.mkdtemp(prefix="seeddemo-", dir="/tmp")
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(os.path.join(d, f), t)
        rc, out = inns("bash /opt/vp/build.sh >/dev/null 2>&1 || exit 50; timeout 300 bash %s/demo.sh" % t, i)
        if rc != 0: msg.append("DEMO FAILS ON UNCHANGED TREE rc=%d %s" % (rc, out[-800:]))
        rc, out = inns("git apply %s/patch.diff || exit 51; bash /opt/vp/build.sh >/tmp/%s.build 2>&1 || { tail -30 /tmp/%s.build; exit 50; }; bash /opt/vp/test.sh /tmp/%s.res.json > /tmp/%s.test 2>&1; "
                       "timeout 300 bash %s/demo.sh; echo DEMO=$?" % (d, i, i, i, i, t), i)
        if rc in (50, 51): msg.append("PATCH/BUILD rc=%d %s" % (rc, out[-1500:]))
        else:
            base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open("/tmp/%s.res.json" % i))
            stable = base.get("stable") or base.get("passed") or base
            passed = set(res.get("passed") or [])
            missing = [x for x in stable if x not in passed] if isinstance(stable, list) else ["?"]
            if missing: msg.append("TESTS FAIL: %s" % missing[:5])
            dm = out.strip().split("DEMO=")[-1]
            if dm == "0": msg.append("DEMO PASSES WITH PATCH")
            if dm not in ("0", "1", "101"): msg.append("demo rc %s: %s" % (dm, out[-300:]))
        shutil.rmtree(t, ignore_errors=True)
        for x in (".build", ".res.json", ".test"):
            if os.path.exists("/tmp/" + i + x): os.unlink("/tmp/" + i + x)
    if checks:
        cs = claimed if checks == "all" else [meta["property"]] if checks == "own" else checks.split(",")
        for c in cs:
            if c not in claimed: msg.append("%s not claimed" % c); continue
            rc, out = inns("git apply %s/patch.diff || exit 51; cd /verif; timeout 900 python3 run/check.py %s" % (d, c), i)
            v = "VIOLATION property=%s " % c in out
            msg.append("%s: %s" % (c, "caught" if rc == 1 and v else "MISSED" if rc == 0 else "ERROR rc=%d %s" % (rc, out[-1500:])))
    print(i, meta["property"], "; ".join(msg) or "confirmed", flush=True)
    return i, msg
def silent(a):
    f, c = a
    rc, out = inns("git apply %s || exit 51; cd /verif; timeout 900 python3 run/check.py %s" % (os.path.abspath(f), c), "q")
    print(os.path.basename(f), c, "quiet" if rc == 0 else "ALARM rc=%d %s" % (rc, out[-3000:]), flush=True)
if quiet:
    cs = claimed if checks in (None, "all") else checks.split(",")
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(silent, [(f, c) for f in quiet for c in cs]))
    sys.exit(0)
with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, ids))
