"""Shared machinery of the checks: building the harness from /repo's working tree, generating
scenarios with TLC, running the real code, judging the recorded traces with TLC."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
DEEP = TIER == "thorough"


class ToolError(Exception):
    pass


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


class Ctx:
    """One run of one check."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, ".work", "replay-" + pid)
        self.violations = []      # (what, replay path)
        self.states = 0           # distinct states of model checking runs (specification)
        self.transitions = 0
        self.judged_states = 0    # distinct states of trace validation runs
        self.traces = 0
        self.events = 0
        self.runs = 0             # executions of the real code
        self.samples = []
        self.notes = []
        self.models = []
        self.measured = {}
        self.lock = threading.Lock()
        self.hung = False         # a scenario hung: the rest need not be run

    def path(self, name):
        return os.path.join(self.work, name)

    def violation(self, what, replay_obj):
        with self.lock:
            os.makedirs(self.replays, exist_ok=True)
            p = os.path.join(self.replays, "%d.json" % len(self.violations))
            with open(p, "w") as f:
                json.dump({"property": self.pid, "what": what, **replay_obj}, f, indent=1)
            self.violations.append((what, p))

    def done(self):
        shutil.rmtree(self.work, ignore_errors=True)


# ------------------------------------------------------------------ environment
def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_PROFILE") and
         k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR")}
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.update(extra or {})
    return e


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


# ------------------------------------------------------------------ harness
DEFAULT_FEATURES = ("std", "unicode_width")


def build(bin_, profile="dev", features=DEFAULT_FEATURES):
    """Builds one harness binary against /repo's working tree; returns its path."""
    return build_group([bin_], profile, features, 8)[0]


def build_group(bins, profile, features, jobs):
    tag = profile + "-" + ("_".join(sorted(features)) or "none")
    target = os.path.join(BUILD, tag)
    os.makedirs(target, exist_ok=True)
    e = env({"CARGO_TARGET_DIR": target})
    stamp = os.path.join(target, "repo.stamp")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != now:
        # never trust file times for the code under test
        subprocess.run(["cargo", "clean", "--offline", "-p", "rowcol"] + (["--profile", profile] if profile not in ("dev", "fat") else []),
                       cwd=HARNESS, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for prof in os.listdir(target):
            dep = os.path.join(target, prof, "deps")
            if os.path.isdir(dep):
                for f in os.listdir(dep):
                    if "rowcol" in f:
                        os.unlink(os.path.join(dep, f))
            fp = os.path.join(target, prof, ".fingerprint")
            if os.path.isdir(fp):
                for f in os.listdir(fp):
                    if f.startswith("rowcol-") or f.startswith("rc-harness-"):
                        shutil.rmtree(os.path.join(fp, f), ignore_errors=True)
    with open(stamp, "w") as f:
        f.write("building")
    cmd = ["cargo", "build", "--offline", "--locked", "-j", str(jobs), "--no-default-features"] + [a for b in bins for a in ("--bin", b)]
    fs = list(features)
    if profile == "fat":      # dev, with big and strongly aligned elements
        fs, profile = fs + ["fat"], "dev"
    if fs:
        cmd += ["--features", ",".join(fs)]
    if profile != "dev":
        cmd += ["--profile", profile]
    r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("harness build failed (%s, %s):\n%s" % (" ".join(bins), tag, r.stdout[-6000:]))
    with open(stamp, "w") as f:
        f.write(now)
    return [os.path.join(target, "debug" if profile == "dev" else profile, b) for b in bins]


def build_all(jobs):
    """jobs: list of (bin, profile, features); one cargo per target directory."""
    groups = {}
    for j in jobs:
        if j[0] not in groups.setdefault(j[1:], []):
            groups[j[1:]].append(j[0])
    each = max(2, 10 // len(groups))
    out = {}

    def one(k):
        for b, p in zip(groups[k], build_group(groups[k], k[0], k[1], each)):
            out[(b,) + k] = p

    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(one, k) for k in groups]:
            f.result()
    return [out[j] for j in jobs]


MEMORY = 3 << 30      # address space of one harness process: endless growth must not take the machine with it


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _watch(ctx, cmd, prog, stall):
    """Runs the harness; it hangs if it stays on one scenario for `stall` seconds. Stopped once another one hung."""
    ef = prog + ".err"
    with open(ef, "wb") as eh:
        p = subprocess.Popen(cmd, env=env({"RUST_MIN_STACK": "268435456"}), stdout=subprocess.DEVNULL, stderr=eh, preexec_fn=_limit)
        last, since = None, time.time()
        while True:
            try:
                p.wait(0.05 if time.time() - since < 2 else 0.5)
                rc = p.returncode
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                now = open(prog).read()
            except OSError:
                now = None
            if now != last:
                last, since = now, time.time()
            elif time.time() - since > stall:
                ctx.hung = True
                p.kill()
                p.wait()
                rc = "timeout"
                break
            if ctx.hung:
                p.kill()
                p.wait()
                rc = "stopped"
                break
    err = open(ef, "rb").read()[-600:].decode("utf8", "replace")
    os.unlink(ef)
    return rc, err


def run_bin(ctx, binary, scen_path, out_path, timeout=60, max_crash=3):
    """Runs all scenarios; a scenario that kills or hangs the process is recorded as such."""
    prog = out_path + ".progress"
    start, crashes = 0, []
    n = sum(1 for _ in open(scen_path))
    if os.path.exists(out_path):
        os.unlink(out_path)
    open(out_path, "w").close()
    while start < n:
        rc, err = _watch(ctx, [binary, scen_path, out_path, prog, str(start)], prog, timeout)
        if rc == 99:
            k = int(open(prog).read().split()[0]) if os.path.exists(prog) and open(prog).read().split() else -1
            raise ToolError("the harness cannot run scenario %d of %s: %s\n%s" % (k, scen_path, err, open(scen_path).read().split("\n")[k][:900]))
        try:
            at = int(open(prog).read().strip())
        except (OSError, ValueError):
            raise ToolError("%s did not start: rc=%s %s" % (binary, rc, err))
        if at >= n:
            if rc != 0:
                raise ToolError("%s ended with %s after the last scenario: %s" % (binary, rc, err))
            break
        if rc == "stopped":
            # elsewhere a scenario hung: what is left is not run
            _trim(out_path, at)
            with open(out_path, "a") as f:
                f.write("null\n" * (n - at))
            crashes.append((at - 1, rc, err))
            break
        # scenario `at` killed the process
        crashes.append((at, rc, err))
        _trim(out_path, at)
        with open(out_path, "a") as f:
            f.write("null\n")
        start = at + 1
        if len(crashes) >= max_crash or rc == "timeout":
            with open(out_path, "a") as f:
                for _ in range(start, n):
                    f.write("null\n")
            break
    ctx.runs += n
    return crashes


def _trim(path, k):
    lines = open(path).read().split("\n")[:k]
    lines += ["null"] * (k - len(lines))
    with open(path, "w") as f:
        for l in lines:
            f.write(l + "\n")


# ------------------------------------------------------------------ TLC
STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(ctx, module, cfg, envv=None, workers=4, timeout=800, extra=(), heap="3g"):
    """Runs TLC; returns (exit code, output)."""
    md = ctx.path("md-%s-%d" % (module, int(time.time() * 1e6)))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", _classpath(), "tlc2.TLC", "-workers", str(workers),
           "-metadir", md, "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=env(envv), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    txt = "\n".join(l for l in r.stdout.split("\n") if not l.startswith(("Parsing file", "Semantic processing", "Linting of")))
    return r.returncode, txt


_cp = None


def _classpath():
    global _cp
    if _cp is None:
        d = "/opt/veriftools/tla"
        jars = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar")]
        jars.sort(key=lambda j: (os.path.basename(j) != "tla2tools.jar", j))
        _cp = ":".join(jars)
    return _cp


def model_check(ctx, module, cfg, expect=0, name=None, workers=8, envv=None, timeout=800):
    """Model checks a design-level specification. expect: 0 passes, 12 must violate an invariant (sensitivity)."""
    rc, out = tlc(ctx, module, cfg, workers=workers, envv=envv, timeout=timeout, extra=("-seed", str(SEED)))
    m = STAT.findall(out)
    g, d = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if rc != expect:
        raise ToolError("specification %s/%s: TLC exit %d, expected %d\n%s" % (module, cfg, rc, expect, out[-3000:]))
    if expect == 0:
        ctx.states += d
        ctx.transitions += g
    ctx.models.append({"module": module, "cfg": cfg, "states": d, "generated": g,
                       "result": "holds" if expect == 0 else "rejected as it must be"})
    return out


def generate(ctx, module, out, envv, cfg="Const.cfg", timeout=300):
    e = {"OUT": out, "SEED": str(SEED), "DEEP": "1" if DEEP else "0"}
    e.update(envv)
    rc, txt = tlc(ctx, module, cfg, e, workers=1, timeout=timeout, extra=("-seed", str(SEED)))
    if rc != 0 or not os.path.exists(out):
        raise ToolError("scenario generation %s failed: rc %d\n%s" % (module, rc, txt[-3000:]))
    return [json.loads(l) for l in open(out)]


def judge(ctx, module, traces, cfg="Judge.cfg", envv=None, shards=None, label="", per_shard=12000, par=4, heap="3g"):
    """traces: list of (trace dict or None if the process died, scenario text). Rejected ones become violations."""
    alive = []
    for t, s in traces:
        if t is None:
            ctx.violation("the process died or hung while running this scenario", {"scenario": s, "label": label})
        else:
            alive.append((t, s))
    ctx.traces += len(alive)
    ctx.events += sum(len(t["ev"]) for t, _ in alive)
    if not alive:
        return
    n = len(alive)
    k = shards or max(1, min(par if n > 2000 else 1, n), (n + per_shard - 1) // per_shard)
    parts = [alive[i::k] for i in range(k)]

    def one(ix):
        part = parts[ix]
        p = ctx.path("trace-%s-%s-%d.ndjson" % (module, label.replace("/", "_"), ix))
        with open(p, "w") as f:
            for t, _ in part:
                f.write(json.dumps(t, separators=(",", ":")))
                f.write("\n")
        e = {"TRACE": p}
        e.update(envv or {})
        rc, out = tlc(ctx, module, cfg, e, workers=max(1, 8 // min(k, par)), heap=heap)
        m = STAT.findall(out)
        with ctx.lock:
            ctx.judged_states += int(m[-1][1]) if m else 0
        os.unlink(p)
        if rc == 0:
            return
        if re.search("OutOfMemoryError|StackOverflowError|GC overhead|No space left", out):
            raise ToolError("TLC ran out of memory on %s\n%s" % (module, out[:1500]))
        # a rejected trace is a deadlock; an observation outside the type of its variable is an evaluation error
        tids = re.findall(r"tid = (\d+)", out)
        ls = re.findall(r"\bl = (\d+)", out)
        if rc in (11, 12, 75, 151, 152, 153, 154, 155, 1, 255) and tids:
            tid, l = int(tids[-1]), int(ls[-1]) if ls else 0
            undefined = "Error: Deadlock" not in out and "is violated" not in out
            t, s = part[tid - 1]
            seq = t["log"] if module == "LedgerTrace" else t["ev"]
            ev = seq[l - 1] if 0 < l <= len(seq) else "the end"
            ctx.violation("the specification %s event %d of this trace: %s" %
                          ("has no value for" if undefined else "does not allow", l, json.dumps(ev)[:600]),
                          {"scenario": s, "label": label, "trace": t, "event": l, "module": module, "env": envv or {}})
            return
        raise ToolError("TLC failed on %s (rc %d)\n%s" % (module, rc, out[-3000:]))

    with ThreadPoolExecutor(par) as ex:
        for f in [ex.submit(one, i) for i in range(k)]:
            f.result()


def read_traces(path, scen):
    out = []
    with open(path) as f:
        for l, s in zip(f, scen):
            l = l.strip()
            out.append((None if l == "null" else json.loads(l), s))
    if len(out) != len(scen):
        raise ToolError("%d results for %d scenarios" % (len(out), len(scen)))
    return out


def run_scenarios(ctx, binary, scen, label, timeout=60, par=4):
    """scen: list of scenario lines; returns list of (trace, scenario)."""
    if len(scen) > 400 and par > 1:
        with ThreadPoolExecutor(par) as ex:
            fs = [ex.submit(run_scenarios, ctx, binary, scen[i::par], "%s.%d" % (label, i), timeout, 1) for i in range(par)]
            parts = [f.result() for f in fs]
        out = [None] * len(scen)
        for i in range(par):
            for k, x in enumerate(parts[i]):
                out[i + k * par] = x
        return out
    sp = ctx.path("scen-%s.txt" % label)
    with open(sp, "w") as f:
        for s in scen:
            f.write(s + "\n")
    op = ctx.path("out-%s.ndjson" % label)
    crashes = run_bin(ctx, binary, sp, op, timeout=timeout)
    tr = read_traces(op, scen)
    os.unlink(op)
    if len(crashes) >= 3 or any(c[1] in ("timeout", "stopped") for c in crashes):
        # the rest was not run
        last = crashes[-1][0]
        tr = tr[:last + 1] + [("skipped", x) for _, x in tr[last + 1:]]
    return tr


def run_and_judge(ctx, bins, scen, module, agree=False, **kw):
    """Runs the scenarios on every build concurrently and judges all the traces together.
    agree: all builds must moreover have behaved the same (module None: nothing else is asked)."""
    with ThreadPoolExecutor(4) as ex:
        fs = [(lab, ex.submit(run_scenarios, ctx, b, scen, lab)) for b, lab in bins]
        res = [(lab, f.result()) for lab, f in fs]
    merged = {}
    for lab, tr in res:
        for i, (t, s) in enumerate(tr):
            if t == "skipped":
                continue
            key = json.dumps(t, separators=(",", ":")) if t is not None else None
            if key is None:
                merged[(i, None, lab)] = (None, s, [lab])
            elif (i, key) in merged:
                merged[(i, key)][2].append(lab)
            else:
                merged[(i, key)] = (t, s, [lab])
    if agree:
        runs = {}
        for (i, _, *_), (t, s, _) in merged.items():
            if t is not None:
                runs.setdefault(i, (s, []))[1].append(t["ev"])
        # a scenario that behaved the same everywhere has one run
        differing = [({"module": module or "", "ev": [[e[k] if k < len(e) else [] for e in evs] for k in range(max(map(len, evs)))]}, s)
                     for s, evs in runs.values() if len(evs) > 1]
        with ctx.lock:
            ctx.measured["scenarios_compared_between_builds"] = ctx.measured.get("scenarios_compared_between_builds", 0) + len(runs)
            ctx.measured["of_which_differing_in_any_detail"] = ctx.measured.get("of_which_differing_in_any_detail", 0) + len(differing)
        judge(ctx, "BuildTrace", differing, label="agree")
    # builds that behave identically give identical traces, which need judging once
    judge(ctx, module or "BuildTrace", [(t, s) for t, s, _ in merged.values() if module or t is None], label="+".join(l for l, _ in res), **kw)
    ctx.measured["builds_compared"] = [l for l, _ in res]
    return [(t, s) for t, s, _ in merged.values() if t is not None]


# ------------------------------------------------------------------ results
def evidence(ctx, level, assumptions, extra):
    cov = {
        "states": ctx.states + ctx.judged_states,
        "transitions": ctx.transitions + ctx.events,
        "traces_validated_against_impl": ctx.traces,
        "samples": ctx.samples[:10],
        "specification_states": ctx.states,
        "trace_validation_states": ctx.judged_states,
        "events_observed": ctx.events,
        "executions_of_the_code": ctx.runs,
        "models": ctx.models,
        "notes": ctx.notes,
    }
    if "evaluations" in ctx.measured:
        del cov["executions_of_the_code"]
    cov.update(ctx.measured)
    cov.update(extra or {})
    return {"property": ctx.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
            "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - ctx.t0, 2),
            "violations": len(ctx.violations)}
