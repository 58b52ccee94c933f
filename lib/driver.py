"""Runs the symbolic executor on one property's harnesses and reports.

exit 0: every run complete, nothing violated.  exit 1: VIOLATION line, after the
solver's input was replayed against a native build of /repo.  exit 2: no answer.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(ROOT, "target")
NPROC = os.cpu_count() or 4

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def tree_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        files = []
        if os.path.isfile(p):
            files = [p]
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
            files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if os.path.islink(f) or not os.path.isfile(f):
                continue
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()

class Lock:
    """One build at a time when checks run side by side."""
    def __enter__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

class NoAnswer(Exception):
    pass

def build(what, script, args, key, outputs):
    stamp = os.path.join(TARGET, what + ".stamp")
    if os.path.exists(stamp) and open(stamp).read() == key and all(os.path.exists(o) for o in outputs):
        return 0.0
    if os.path.exists(stamp):
        os.remove(stamp)
    t = time.time()
    r = subprocess.run(["bash", os.path.join(ROOT, "lib", script)] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        log(r.stdout.decode(errors="replace")[-4000:])
        raise NoAnswer("build of %s failed" % what)
    open(stamp, "w").write(key)
    return time.time() - t

def repo_key():
    return tree_hash(REPO + "/crates", REPO + "/Cargo.toml", REPO + "/Cargo.lock", ROOT + "/harness", ROOT + "/lib/build_ir.sh", ROOT + "/lib/build_replay.sh")

ENGINE = os.path.join(TARGET, "engine", "release", "svx")
IR = os.path.join(TARGET, "ir", "all.bc")
REPLAY = {"plain": os.path.join(TARGET, "replay-plain", "debug", "svreplay"),
          "asan": os.path.join(TARGET, "replay-asan", "x86_64-unknown-linux-gnu", "debug", "svreplay")}

def build_all():
    with Lock():
        k = repo_key()
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(build, "engine", "build_engine.sh", [], tree_hash(ROOT + "/engine", ROOT + "/lib/build_engine.sh"), [ENGINE]),
                  ex.submit(build, "ir", "build_ir.sh", [], k, [IR]),
                  ex.submit(build, "replay-plain", "build_replay.sh", ["plain"], k, [REPLAY["plain"]])]
            for f in fs:
                f.result()

def build_asan():
    with Lock():
        build("replay-asan", "build_replay.sh", ["asan"], repo_key(), [REPLAY["asan"]])

# ---- native replay ---------------------------------------------------------
def replay_once(entry, params, tokens, kind, timeout):
    """(how it ended, events, stderr)"""
    d = tempfile.mkdtemp(prefix="svr", dir=TARGET)
    try:
        cwd = os.path.join(d, "cwd")
        os.mkdir(cwd)
        out = os.path.join(d, "events")
        open(out, "w").close()
        conf = "\x01".join([entry, out, ",".join(str(t) for t in tokens)] + ["%s=%d" % p for p in params.items()])
        env = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "NO_COLOR": "1", "HOME": d, "SV_REPLAY": conf, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77"}
        p = subprocess.Popen([REPLAY[kind]], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        try:
            err = p.communicate(timeout=timeout)[1].decode(errors="replace")
            end = "exit %d" % p.returncode if p.returncode >= 0 else "signal %d" % -p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            err, end = "", "timeout"
        ev = open(out, errors="replace").read().splitlines()
        return end, ev, err
    finally:
        shutil.rmtree(d, ignore_errors=True)

def reproduces(v, run):
    """Whether the native build fails on the solver's input as the engine says; a description."""
    kind, id = v["kind"], v["id"]
    entry, params = run["entry"], run["params"]
    if kind == "unsupported":
        return False, "the engine met something it has no model of"
    if kind == "memory":
        build_asan()
        end, ev, err = replay_once(entry, params, v["input"], "asan", 60)
        if end == "exit 77" or "AddressSanitizer" in err or end.startswith("signal"):
            m = re.search(r"AddressSanitizer: (\S+)", err)
            return True, "native run: " + (m.group(1) if m else end)
    if kind == "limit":
        end, ev, err = replay_once(entry, params, v["input"], "plain", 20)
        if end == "timeout":
            return True, "native run does not end within 20 s"
        if end.startswith("signal"):
            return True, "native run dies of " + end
        return False, "native run ends (%s)" % end
    for i in range(v.get("tries", 1)):
        end, ev, err = replay_once(entry, params, v["input"], "plain", 60)
        bad = [e for e in ev if e.startswith("check ") or e.startswith("panic ")]
        if bad:
            return True, "native run: " + bad[0]
        if end.startswith("signal") or end == "timeout":
            return True, "native run: " + end
        if kind == "exit" and "done" not in ev and end not in ("exit 0", "exit 40"):
            return True, "native run: " + end
    return False, "native run: %s %s" % (end, ev[-1:])

def validate(runs):
    """Replays sampled paths natively and compares what the harness noted."""
    jobs = []
    for r in runs:
        for s in r["samples"][:r.get("nsamples", 6)]:
            jobs.append((r, s))
    def one(j):
        r, s = j
        end, ev, err = replay_once(r["entry"], r["params"], s["input"], "plain", 60)
        notes = {}
        for e in ev:
            p = e.split(" ")
            if p[0] == "note":
                notes[p[1]] = bytes.fromhex(p[2] if len(p) > 2 else "").decode(errors="replace")
        ok = end == "exit 0" and "done" in ev and notes == s["notes"]
        return ok, (r["entry"], s, end, ev[-3:], notes)
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(one, jobs))
    bad = [x[1] for x in res if not x[0]]
    return len(res), bad

def demangle(n):
    if not n.startswith("_R"):
        return n
    out, i = [], 2
    while i < len(n):
        m = re.match(r"(\d+)_?", n[i:])
        if m and n[i] != "0":
            k = int(m.group(1))
            j = i + m.end()
            w = n[j:j + k]
            if len(w) == k and re.match(r"^[A-Za-z_]\w*$", w) and k < 80:
                out.append(w)
                i = j + k
                continue
        i += 1
    return "::".join(out)

# ---- known findings -----------------------------------------------------------
def known_findings(prop):
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) violation=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                res.append(dict(entry=m.group(2), violation=m.group(3), text=m.group(4)))
    return res

def run_property(prop, spec, tier):
    t0 = time.time()
    build_all()
    tb = time.time() - t0
    # The bounds below are what the engine was measured to complete with slack.
    out = os.path.join(TARGET, "out-%s-%d.json" % (prop, os.getpid()))
    cmd = [ENGINE, "--ir", IR, "--out", out]
    runs_spec = spec["runs"](tier)
    for r in runs_spec:
        c = r["entry"]
        for k, v in r.get("params", {}).items():
            c += ",%s=%d" % (k, v)
        c += ",time=%d,steps=%d" % (r.get("time", 800 if tier == "quick" else 3000), r.get("steps", 20_000_000))
        cmd += ["--run", c]
    p = subprocess.run(cmd, stderr=subprocess.PIPE)
    elog = p.stderr.decode(errors="replace")
    log(elog[-6000:])
    if p.returncode != 0 or not os.path.exists(out):
        raise NoAnswer("the engine failed: " + elog[-500:])
    doc = json.load(open(out))
    os.remove(out)
    runs = doc["runs"]
    for r, s in zip(runs, runs_spec):
        r["spec"] = s
        if "nsamples" in s:
            r["nsamples"] = s["nsamples"]
    # violations
    new, noanswer, knowns = [], [], []
    kf = known_findings(prop)
    todo = []
    for r in runs:
        per = {}
        for v in r["violations"]:
            k = (v["kind"], v["id"])
            per[k] = per.get(k, 0) + 1
            if per[k] <= 3:
                v["tries"] = r["spec"].get("tries", 1)
                todo.append((r, v))
    todo = todo[:64]
    if any(v["kind"] == "memory" for _, v in todo):
        build_asan()
    with concurrent.futures.ThreadPoolExecutor(max(2, NPROC // 2)) as ex:
        reps = list(ex.map(lambda x: reproduces(x[1], x[0]), todo))
    confirmed = {}
    for (r, v), (ok, how) in zip(todo, reps):
        k = (r["entry"], v["kind"], v["id"])
        if ok and k not in confirmed:
            confirmed[k] = (r, v, how)
    for (r, v), (ok, how) in zip(todo, reps):
        k = (r["entry"], v["kind"], v["id"])
        if not ok and k not in confirmed:
            noanswer.append("%s: %s %s: %s; input %s %s" % (r["entry"], v["kind"], v["id"], how, v["input"], v["note"]))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    for (e, kind, id), (r, v, how) in confirmed.items():
        hit = [k for k in kf if k["entry"] == e and k["violation"] == "%s:%s" % (kind, id.replace(" ", "_"))]
        if hit:
            knowns.append(hit[0]["text"])
            continue
        rd = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        name = "%s-%s.json" % (prop, hashlib.sha256(("%s %s %s" % (e, kind, id)).encode()).hexdigest()[:10])
        json.dump(dict(property=prop, entry=e, params=r["params"], kind=kind, id=id, input=v["input"], notes=v["note"], native=how,
                       replay="python3 lib/replay.py <this file>"), open(os.path.join(rd, name), "w"), indent=1)
        new.append((os.path.join("evidence", "replay", name), e, kind, id, v["note"], how))
    for r in runs:
        if r["engine_error"]:
            noanswer.append("%s: engine error: %s" % (r["entry"], elog[-800:]))
        if r["timed_out"]:
            noanswer.append("%s: not finished within its time" % r["entry"])
        if not r["violations"] and not r["timed_out"] and not r["engine_error"]:
            # Vacuity: everything a run is meant to reach was reached.
            for c in r["spec"].get("checks", []):
                if r["checks"].get(c, [0])[0] == 0:
                    noanswer.append("%s: check %r was never reached" % (r["entry"], c))
            for c in r["spec"].get("reach", []):
                if r["reach"].get(c, 0) == 0:
                    noanswer.append("%s: %r was never reached" % (r["entry"], c))
            if not r["checks"] and not r["spec"].get("nochecks"):
                noanswer.append("%s: no check reached" % r["entry"])
            if r["done"] == 0:
                noanswer.append("%s: no path completes" % r["entry"])
    nval, bad = (0, [])
    if not new:
        nval, bad = validate(runs)
        for b in bad[:3]:
            noanswer.append("the native build disagrees with the engine: %s" % (b,))
    fns = sorted({demangle(f) for r in runs for f in r["functions"] if "4seam" in f and "svh" not in demangle(f)})
    samples = []
    for r in runs:
        for s in r["samples"][:2]:
            samples.append(dict(entry=r["entry"], params=r["params"], input=s["input"], notes=s["notes"]))
    cov = dict(
        states=sum(r["paths"] for r in runs),
        transitions=sum(r["forks"] for r in runs),
        traces_validated_against_impl=nval - len(bad),
        samples=samples[:10],
        exhaustive=all(r["complete"] for r in runs),
        explanation="states: symbolic paths (classes of inputs with the same control flow), transitions: branch points split on symbolic values",
        bounds=spec["bounds"],
        outside=spec["outside"],
        z3=doc["z3"],
        solver_queries=sum(r["queries"] for r in runs),
        solver_sat=sum(r["sat"] for r in runs),
        solver_unsat=sum(r["unsat"] for r in runs),
        solver_seconds=round(sum(r["solver_seconds"] for r in runs), 2),
        forks_audited_by_solver=sum(r["audited_forks"] for r in runs),
        paths_audited_by_solver=sum(r["audited_paths"] for r in runs),
        instructions=sum(r["instructions"] for r in runs),
        runs=[dict(entry=r["entry"], params=r["params"], paths=r["paths"], completed=r["done"], assumed_away=r["assumed_away"],
                   complete=r["complete"], symbolic_bytes=r["symbolic_bytes"], seconds=r["seconds"], queries=r["queries"],
                   checks={k: dict(reached=v[0], by_simplification=v[1], by_solver=v[2]) for k, v in r["checks"].items()}, reached=r["reach"],
                   ends=r["ends"]) for r in runs],
        functions_encoded=len({f for r in runs for f in r["functions"]}),
        seam_functions_encoded=fns,
        build_seconds=round(tb, 1),
    )
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov,
              assumptions=spec.get("assumptions", []) + COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(new))
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for k in sorted(set(knowns)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if new:
        for f, e, kind, id, note, how in new[:20]:
            log("  %s %s %s | %s | %s" % (e, kind, id, note[:400], how))
        print("VIOLATION property=%s replay=%s" % (prop, new[0][0]))
        return 1
    if noanswer:
        for n in noanswer[:12]:
            log("no answer: " + n[:1500])
        print("NO ANSWER property=%s" % prop)
        return 2
    print("OK property=%s paths=%d validated=%d %.0fs" % (prop, cov["states"], nval, time.time() - t0))
    return 0

COMMON_ASSUMPTIONS = [
    "whole-program LLVM IR of the dev profile (overflow checks on, panic=abort), regenerated from /repo on every run; rustc and LLVM's opt are trusted",
    "libc calls (files, clock, environment, output, allocation that never fails) are models in engine/src/builtins.rs; hashing of HashMap keys is a model",
    "floating point is evaluated on concrete values only",
    "the engine is validated on every run: sampled paths are replayed on a native build and forks and path conditions are audited with z3",
]
