"""Shared machinery of the checks: number encoding, TLC, verdicts, known findings, evidence.

A check (harness/cNN.py) does three things with it:
  model(spec, cfg)      TLC explores the design specification (small constants) and its invariants
  scenarios(spec, cfg)  TLC writes out scenarios taken from the specification, for the driver
  traces(spec, runs)    TLC decides for every recorded run of the real code whether it is a behaviour
                        of the specification, and names the clause that fails
"""
import contextlib, hashlib, json, math, multiprocessing as mp, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback, warnings
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC, BUILD, EVID = (os.path.join(VERIF, d) for d in ("spec", "build", "evidence"))
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
QUICK = TIER != "thorough"
WORKERS = min(8, os.cpu_count() or 1)


class MachineryError(Exception): pass


# ---------------------------------------------------------------- numbers
def num(v):
    "Exact text of a float / int / 0-d tensor"
    if hasattr(v, "item"): v = v.item()
    if isinstance(v, bool): return "1" if v else "0"
    if isinstance(v, int): return str(v)
    if math.isnan(v): return "nan"
    if math.isinf(v): return "inf" if v > 0 else "-inf"
    n, d = v.as_integer_ratio()
    return str(n) if d == 1 else f"{n}/{d}"


def pieces(t, id):
    "a time span, for one id in six as the list of its pieces"
    import zlib
    k = zlib.crc32(str(id).encode())
    if k % 6 or len(t) < 2: return t
    j = 1 + k // 6 % (len(t) - 1)
    return [t[:j], t[j:]]


def vec(t):
    "Exact texts of the entries of a tensor, flattened"
    return [num(v) for v in t.detach().reshape(-1).tolist()]


def frac(q):
    from fractions import Fraction
    q = Fraction(q)
    return str(q.numerator) if q.denominator == 1 else f"{q.numerator}/{q.denominator}"


# ---------------------------------------------------------------- building and running TLC
def build():
    cls = os.path.join(BUILD, "Rat.class")
    src = os.path.join(VERIF, "java", "Rat.java")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src): return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    r = subprocess.run(["javac", "-cp", TLA, "-d", tmp, src], capture_output=True, text=True)
    if r.returncode: raise MachineryError("javac failed: " + r.stderr[-2000:])
    for f in os.listdir(tmp): os.replace(os.path.join(tmp, f), os.path.join(BUILD, f))
    os.rmdir(tmp)


def tlc(spec, cfg, work, env=None, timeout=600, extra=(), heap="6g", workers=None):
    "Runs TLC; returns (stdout, stats)"
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-cp", BUILD + ":" + TLA, "tlc2.TLC",
           "-workers", str(workers or WORKERS), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, spec]
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {spec} {cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    stats = {"generated": int(m.group(1)), "states": int(m.group(2))} if m else {}
    return r.returncode, out + r.stderr, stats


class Check:
    def __init__(self, pid, level="model_checking"):
        build()
        self.pid, self.level, self.t0 = pid, level, time.time()
        os.makedirs(EVID, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=f"verif_{pid}_", dir=os.environ.get("TMPDIR", "/tmp"))
        self.rng = random.Random(SEED * 1000003 + int(hashlib.sha1(pid.encode()).hexdigest()[:6], 16))
        self.states = self.transitions = self.validated = 0
        self.samples, self.fail, self.notes, self.extra = [], [], [], {}
        self.clauses = {}

    # ------------------------------------------------------------ model checking
    def model(self, spec, cfg, timeout=600, expect_actions=(), extra=()):
        "Explores a design specification exhaustively; a violated invariant there is an error of the machinery"
        rc, out, st = tlc(spec, cfg, self.work, timeout=timeout, extra=("-coverage", "1", *extra))
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError(f"model checking {spec} {cfg}: rc={rc}\n{out[-3000:]}")
        self.states += st.get("states", 0); self.transitions += st.get("generated", 0)
        cov = dict()
        for m in re.finditer(r"<(\w+) line [^>]*>: (\d+):(\d+)", out): cov[m.group(1)] = max(cov.get(m.group(1), 0), int(m.group(3)))
        for a in expect_actions:
            if cov.get(a, 0) == 0: raise MachineryError(f"{spec}: action {a} was never taken (vacuous model)")
        self.notes.append(f"{os.path.basename(cfg)}: {st.get('states', 0)} distinct states, actions {cov}")
        return out

    def scenarios(self, spec, cfg, timeout=300):
        "Lets TLC write scenarios (a JSON array) to the file named by SCEN_FILE"
        path = os.path.join(self.work, "scen.json")
        rc, out, st = tlc(spec, cfg, self.work, env={"SCEN_FILE": path}, timeout=timeout)
        if rc != 0 or not os.path.exists(path): raise MachineryError(f"scenarios {spec}: rc={rc}\n{out[-3000:]}")
        self.states += st.get("states", 0); self.transitions += st.get("generated", 0)
        return json.load(open(path))

    # ------------------------------------------------------------ traces of the real code
    def traces(self, spec, cfg, runs, timeout=800, chunk=4000):
        """Every run is a JSON object with an `id`; TLC prints one verdict per run. A run with a `crash` or `hang`
        entry is judged by the same specification (it has no behaviour that crashes or hangs)."""
        for k in range(0, len(runs), chunk): self._traces(spec, cfg, runs[k:k + chunk], timeout)

    def _traces(self, spec, cfg, runs, timeout):
        if not runs: return
        ids = [r["id"] for r in runs]
        if len(set(ids)) != len(ids): raise MachineryError("duplicate run ids")
        byid, live = {r["id"]: r for r in runs}, []
        for r in runs:
            if r.get("crash"): self.violation(r, "crash: " + r["crash"][:300])
            elif r.get("hang"): self.violation(r, "does not finish")
            else: live.append(r)
        if not live: return
        path = os.path.join(self.work, "trace.ndjson")
        with open(path, "w") as fh:
            for r in list(live):
                line = json.dumps({k: v for k, v in r.items() if k != "note"}) + "\n"
                if len(line) > 2e7: self.violation({"id": r["id"], "note": r.get("note", "")}, "the record is far larger than any behaviour of the specification"); live.remove(r)
                else: fh.write(line)
        if not live: return
        rc, out, st = tlc(spec, cfg, self.work, env={"TRACE_FILE": path}, timeout=timeout)
        got = {}
        for m in re.finditer(r'<<\s*"VERDICT",\s*"([^"]*)",\s*"([^"]*)",\s*(-?\d+)\s*>>', out): got[m.group(1)] = (m.group(2), int(m.group(3)))
        if rc != 0 or "No error has been found" not in out or len(got) != len(live):
            bad = self._unreadable(spec, cfg, live, timeout) if rc not in (0, None) and not re.search(r"OutOfMemory|heap space|StackOverflow|Parse Error|Semantic error", out) else None
            if bad is not None:
                self.violation(bad, "the record does not have the form that the specification gives it")
                for r in live:
                    clause, pos = got.get(r["id"], ("ok", 0))
                    if clause != "ok": self.violation(r, clause, pos)
                return got
            keep = os.path.join(EVID, f"{self.pid}.tlc.log"); open(keep, "w").write(out)
            raise MachineryError(f"trace validation {spec}: rc={rc} verdicts {len(got)}/{len(live)}\n{out[-3000:]}")
        self.states += st.get("states", 0); self.transitions += st.get("generated", 0)
        self.validated += len(live)
        for r in live:
            clause, pos = got[r["id"]]
            if clause != "ok": self.violation(r, clause, pos)
            elif len(self.samples) < 3: self.samples.append({"run": _short(r)})
        return got

    def _unreadable(self, spec, cfg, runs, timeout):
        "The specification cannot be evaluated on one of the runs (entries missing, not numbers, ...): finds one such run by bisection"
        path = os.path.join(self.work, "part.ndjson")
        def fails(part):
            with open(path, "w") as fh:
                for r in part: fh.write(json.dumps({k: v for k, v in r.items() if k != "note"}) + "\n")
            rc, out, _ = tlc(spec, cfg, self.work, env={"TRACE_FILE": path}, timeout=timeout)
            return rc != 0 and "Error:" in out
        while len(runs) > 1:
            half = runs[:len(runs) // 2]
            runs = half if fails(half) else runs[len(runs) // 2:]
        return runs[0] if fails(runs) else None

    def violation(self, run, clause, pos=-1):
        self.fail.append((run, clause, pos))

    # ------------------------------------------------------------ verdict
    def finish(self, exhaustive=False, assumptions=()):
        known = load_known(self.pid)
        new, hit = [], {}
        for run, clause, pos in self.fail:
            k = next((k for k in known if re.search(k["match"], f"{run['id']} {clause}")), None)
            if k is not None: hit.setdefault(k["what"], []).append(run["id"])
            else: new.append((run, clause, pos))
        for what, ids in hit.items(): print(f"KNOWN-FINDING: property={self.pid} {what} ({len(ids)} cases)")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
               "samples": self.samples or ["none"], "notes": self.notes, **self.extra}
        if exhaustive: cov["exhaustive"] = True
        ev = {"property": self.pid, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as fh: json.dump(ev, fh, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if new:
            rep = os.path.join(EVID, f"{self.pid}.replay.json")
            with open(rep, "w") as fh:
                json.dump([{"clause": c, "event": p, "run": r} for r, c, p in new[:20]], fh, indent=1)
            for r, c, p in new[:10]: print(f"  {r['id']}: {c} (event {p}) {r.get('note', '')}")
            print(f"  {len(new)} failing runs in all")
            print(f"VIOLATION property={self.pid} replay={rep}")
            return 1
        print(f"OK property={self.pid} states={self.states} traces={self.validated} wall={ev['wall_s']}s")
        return 0


def _short(r):
    s = json.dumps(r)
    return r if len(s) < 4000 else s[:4000] + "..."


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path): return []
    return [k for k in json.load(open(path))["findings"] if k.get("property") == pid and k.get("status") == "open"]


# ---------------------------------------------------------------- running the real code
class Hang(BaseException): pass


def _alarm(*_): raise Hang()


def _init_worker():
    sys.path.insert(0, REPO)
    warnings.filterwarnings("ignore")
    import torch
    torch.set_num_threads(1)
    signal.signal(signal.SIGALRM, _alarm)


def _run1(a):
    fn, scen, limit = a
    signal.alarm(limit)
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
            r = fn(scen)
    except Hang:
        r = {"id": scen["id"], "hang": True, "scen": {k: str(v)[:300] for k, v in scen.items()}}
    except MachineryError:
        raise
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        r = {"id": scen["id"], "crash": f"{type(ex).__name__}: {ex}", "where": [f"{f.filename}:{f.lineno}" for f in tb[-4:]],
             "scen": {k: str(v)[:300] for k, v in scen.items()}}
        if tb and not any(REPO in f.filename for f in tb): r["harness"] = True
    finally:
        signal.alarm(0)
    return r


def drive(fn, scens, limit=30, procs=None):
    "Runs fn(scenario) on the real code for every scenario; fn returns one recorded run (or a list of runs)"
    procs = procs or WORKERS
    if len(scens) < 4 or procs == 1:
        _init_worker(); res = [_run1((fn, s, limit)) for s in scens]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(procs, initializer=_init_worker) as pool:
            res = pool.map(_run1, [(fn, s, limit) for s in scens], chunksize=max(1, min(16, len(scens) // (4 * procs))))
    out = []
    for r in res: out.extend(r if isinstance(r, list) else [r])
    return out


def main(fn):
    try:
        sys.exit(fn())
    except MachineryError as ex:
        print("ERROR", ex); sys.exit(3)
