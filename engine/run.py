"""Explorer, replayer and reporting."""
import importlib
import json
import logging
import os
import pickle
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
Z3_PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"


class Scenario(object):
    """One harness.  `params` is the list of structural variants (mechanisms,
    sizes ...); everything else is symbolic.  `thorough` adds variants."""

    def __init__(self, fn, params=({},), thorough=(), name=None, bounds="",
                 timeout_ms=20000, max_paths=None):
        self.fn = fn
        self.name = name or fn.__name__
        self.params = list(params)
        self.thorough = list(thorough)
        self.bounds = bounds
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths


def load_prop(pid):
    return importlib.import_module("props.%s" % pid.lower())


def quiet():
    """The code under test prints and logs; neither is the subject here."""
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    import warnings
    warnings.simplefilter("ignore")


# ------------------------------------------------------------------ one path
def _names_executed(seen):
    out = set()
    for code in seen:
        fn = code.co_filename
        i = fn.find("/scaks/")
        if i >= 0:
            out.add("%s:%s" % (fn[i + 1:], code.co_qualname))
    return out


HANG = "does not terminate"


def _monitor(seen):
    mon = sys.monitoring
    mon.use_tool_id(mon.PROFILER_ID, "verif")

    def started(code, off):
        if "/scaks/" in code.co_filename:
            seen.add(code)
        return mon.DISABLE
    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, started)
    mon.set_events(mon.PROFILER_ID, mon.events.PY_START)


def run_path(scn, params, prefix, memo, scratch, budget_s, witness, seed):
    """Executed in a forked child: one execution path."""
    from .core import Engine, SteerPath, PathInfeasible, PathDone, Stats
    from .ctx import SymCtx
    d = tempfile.mkdtemp(dir=scratch)
    os.chdir(d)
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    random.seed(seed)
    stats = Stats()
    eng = Engine(stats, timeout_ms=scn.timeout_ms)
    Engine.current = eng
    eng.reset(prefix)
    eng.identify = not getattr(sys.modules.get(scn.fn.__module__), "GUARD_BANDS", False)
    eng.memo = dict(memo)
    ctx = SymCtx(eng)
    seen = set()
    try:
        _monitor(seen)
    except Exception:
        pass
    status, err = "ok", None

    def too_long(*a):
        raise PathTimeout()

    class PathTimeout(SteerPath):
        pass
    signal.signal(signal.SIGALRM, too_long)
    signal.setitimer(signal.ITIMER_REAL, budget_s)
    try:
        scn.fn(ctx, **params)
    except PathInfeasible:
        status = "infeasible"
    except PathDone:
        status = "done"
    except PathTimeout:
        status, err = "timeout", "path exceeded %ss" % budget_s
    except Exception as e:
        status = "exception"
        err = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1800:])
    except SteerPath as e:
        status = "infeasible"
    signal.setitimer(signal.ITIMER_REAL, 0)
    wit = None
    # every explored path must really be feasible: keep a model of it
    if status in ("ok", "exception", "done") and (witness or status == "exception") or status == "timeout":
        try:
            m = eng.model(timeout=8000)
            wit = ctx.extract(m, []) if m is not None else None
        except Exception as e:  # model evaluation trouble: no witness
            wit = None
        if m is None and status == "exception":
            r = eng._solve([], 8000, full=True)
            import z3
            if r == z3.unsat:
                status = "infeasible"
    return {"status": status, "err": err, "decisions": eng.decisions,
            "memo": eng.memo, "stats": stats, "labels": ctx.labels,
            "fails": ctx.fails, "unknown": ctx.unknown,
            "witness": wit, "funcs": sorted(_names_executed(seen)),
            "etype": err.split(":")[0] if err else None}


def child_main(wfd, *a):
    try:
        r = run_path(*a)
    except BaseException as e:  # engine trouble is reported, not lost
        r = {"status": "engine", "err": traceback.format_exc()[-2000:]}
    with os.fdopen(wfd, "wb") as f:
        pickle.dump(r, f)
    os._exit(0)


class Explorer(object):
    """Explores all paths of all scenario variants with forked workers."""

    def __init__(self, prop, tier, seed, deadline, scratch, jobs=8):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deadline, self.scratch, self.jobs = deadline, scratch, jobs
        self.rng = random.Random(seed)
        self.rows = {}
        self.fails = []
        self.exceptions = []
        self.slow, self.nslow = [], 0
        self.incomplete = []
        self.funcs = set()
        self.witnesses = []

    def tasks(self):
        out = []
        for scn in self.prop.SCENARIOS:
            ps = scn.params + (scn.thorough if self.tier == "thorough" else [])
            for i, p in enumerate(ps):
                out.append((scn, i, p))
        return out

    def run(self):
        from .core import Stats
        queue = []
        for scn, i, p in self.tasks():
            key = "%s[%d]" % (scn.name, i)
            self.rows[key] = {"scenario": scn.name, "params": p, "paths": 0,
                              "infeasible": 0, "stats": Stats(), "labels": {},
                              "unknown": [], "fails": 0, "cut": False,
                              "scn": scn, "started": time.time()}
            queue.append((key, scn, p, [], {}))
        queue.reverse()
        live = {}
        poll = select.poll()
        budget = 600 if self.tier == "thorough" else 150
        while queue or live:
            while queue and len(live) < self.jobs:
                key, scn, p, prefix, memo = queue.pop()
                row = self.rows[key]
                if row["fails"] >= 12 or row.get("slow", 0) >= 8 or time.time() > self.deadline or \
                        (scn.max_paths and row["paths"] >= scn.max_paths):
                    row["cut"] = True
                    continue
                r, w = os.pipe()
                left = max(2.0, min(budget, self.deadline - time.time()))
                if self.nslow >= 4:         # most likely the code under test hangs
                    left = min(left, 60.0)
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    child_main(w, scn, p, prefix, memo, self.scratch, left,
                               row["paths"] < 40, self.seed)
                os.close(w)
                live[r] = (pid, key, scn, p, prefix, b"", time.time() + left + 60)
                poll.register(r, select.POLLIN | select.POLLHUP)
            for fd, ev in poll.poll(1000):
                pid, key, scn, p, prefix, buf, dl = live[fd]
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    live[fd] = (pid, key, scn, p, prefix, buf + chunk, dl)
                    continue
                poll.unregister(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                try:
                    res = pickle.loads(buf)
                except Exception:
                    res = {"status": "engine", "err": "worker died"}
                self.absorb(key, scn, p, prefix, res, queue)
            for fd in list(live):
                pid, key, scn, p, prefix, buf, dl = live[fd]
                if time.time() > dl:
                    os.kill(pid, signal.SIGKILL)
        return self

    def absorb(self, key, scn, p, prefix, res, queue):
        row = self.rows[key]
        st = res["status"]
        if st == "engine":
            self.incomplete.append((key, res["err"]))
            return
        s, t = row["stats"], res["stats"]
        for k in ("queries", "checks", "unsat", "sat", "unknown", "solver_s",
                  "branches", "realised"):
            setattr(s, k, getattr(s, k) + getattr(t, k))
        s.max_depth = max(s.max_depth, t.max_depth)
        self.funcs.update(res["funcs"])
        if st == "infeasible":
            row["infeasible"] += 1
        else:
            row["paths"] += 1
        for k, v in res["labels"].items():
            row["labels"][k] = row["labels"].get(k, 0) + v
        row["unknown"].extend(res["unknown"])
        if res["unknown"]:
            self.incomplete.append((key, "solver gave no answer for: %s" %
                                    sorted(set(res["unknown"]))))
        for f in res["fails"]:
            row["fails"] += 1
            self.fails.append(dict(f, key=key, scenario=scn.name, params=p))
        if st == "exception":
            self.exceptions.append({"label": "exception:" + res["etype"],
                                    "inputs": res["witness"] or {}, "info": res["err"],
                                    "key": key, "scenario": scn.name, "params": p})
        elif st == "timeout":
            self.incomplete.append((key, res["err"]))
            row["slow"] = row.get("slow", 0) + 1
            self.nslow += 1
            if res["witness"] is not None and row["slow"] <= 2:
                # decided by running the real code on the inputs of this path
                self.slow.append({"label": HANG, "inputs": res["witness"], "info": res["err"],
                                  "key": key, "scenario": scn.name, "params": p})
        elif st == "ok" and res["witness"]:
            self.witnesses.append({"key": key, "scenario": scn.name, "params": p,
                                   "inputs": res["witness"]})
        dec = res["decisions"]
        for k in range(len(prefix), len(dec)):
            val, other = dec[k]
            if other and val is True:
                queue.append((key, scn, p, dec[:k] + [(False, False)], res["memo"]))


# ------------------------------------------------------------------- replay
def concrete_run(scn, params, values, rng=None):
    """-> (status, fails, labels, used, err)"""
    from .ctx import ConCtx, NotReproduced
    ctx = ConCtx(values, rng)
    d = tempfile.mkdtemp(dir=os.getcwd())
    old = os.getcwd()
    os.chdir(d)
    state = random.getstate()
    random.seed(1)
    try:
        scn.fn(ctx, **params)
        return "ok", ctx.fails, ctx.labels, ctx.used, None
    except NotReproduced as e:
        return "skip", [], ctx.labels, ctx.used, str(e)
    except Exception as e:
        return ("exception", ctx.fails, ctx.labels, ctx.used,
                "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1800:]))
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
        random.setstate(state)
        logging.getLogger("model").handlers = []


def isolated(fn, *a):
    """Run fn in a forked child so that no state leaks between replays."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            sys.stdout = open(os.devnull, "w")
            sys.stderr = open(os.devnull, "w")
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            out = fn(*a)
        except BaseException:
            out = ("crash", [], {}, {}, traceback.format_exc()[-1500:])
        with os.fdopen(w, "wb") as f:
            pickle.dump(out, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        buf = f.read()
    _, how = os.waitpid(pid, 0)
    if os.WIFSIGNALED(how) and os.WTERMSIG(how) == signal.SIGALRM:
        return ("hang", [], {}, {}, "no result after 60 s")
    try:
        return pickle.loads(buf)
    except Exception:
        return ("crash", [], {}, {}, "child died")


def exc_match(err, label):
    return err is not None and True


def replay_one(scn, params, label, values, trials, seed):
    """Try to reproduce `label` on the unpatched code.  Returns a dict or None."""
    rng = random.Random(seed)
    names = sorted(values)
    for t in range(1 if label == HANG else trials):
        if t == 0:
            v = dict(values)
        else:
            keep = (0.85, 0.5, 0.15, 0.0)[t % 4]
            v = {n: values[n] for n in names if rng.random() < keep}
        st, fails, labels, used, err = isolated(
            concrete_run, scn, params, v, random.Random(rng.random()))
        if label == HANG:
            return {"label": label, "values": v, "observed": err} if st == "hang" else None
        if st == "exception":
            if label.startswith("exception:"):
                return {"label": label, "values": used, "observed": err}
            if not fails:
                continue
        for lab, info in fails:
            if lab == label or label.startswith("exception:"):
                return {"label": lab, "values": used, "observed": info}
    return None


def load_concrete():
    """Import the code under test without symbolic stand-ins."""
    from . import shims_env
    return shims_env.import_plain(REPO)


def replay_batch(path):
    """Entry point of the replay subprocess: JSON in, JSON out."""
    job = json.load(open(path))
    quiet()
    load_concrete()
    prop = load_prop(job["property"])
    scns = {s.name: s for s in prop.SCENARIOS}
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    os.chdir(scratch)
    out = {"fails": [], "witnesses": []}
    deadline = time.time() + job.get("budget", 200)
    try:
        for f in job["fails"]:
            p = decode_params(f["params"])
            r = None
            if time.time() < deadline:
                r = replay_one(scns[f["scenario"]], p, f["label"], f["inputs"],
                               job["trials"], job["seed"])
            out["fails"].append(r)
        for w in job["witnesses"]:
            if time.time() > deadline:
                out["witnesses"].append(["skip", [], "time"])
                continue
            st, fails, labels, used, err = isolated(
                concrete_run, scns[w["scenario"]], decode_params(w["params"]),
                w["inputs"], random.Random(job["seed"]))
            out["witnesses"].append([st, fails, err])
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    json.dump(out, open(path + ".out", "w"), default=str)


def encode_params(p):
    return pickle.dumps(p).hex()


def decode_params(h):
    return pickle.loads(bytes.fromhex(h))


def run_replays(pid, fails, witnesses, seed, trials, budget):
    job = {"property": pid, "seed": seed, "trials": trials, "budget": budget,
           "fails": [dict(f, params=encode_params(f["params"]), info=None) for f in fails],
           "witnesses": [dict(w, params=encode_params(w["params"])) for w in witnesses]}
    fd, path = tempfile.mkstemp(prefix="verif_job_", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(job, f)
    try:
        p = subprocess.run([PY, os.path.join(VERIF, "check.py"), "--batch", path],
                           cwd=VERIF, capture_output=True, text=True,
                           timeout=budget + 120)
        if not os.path.exists(path + ".out"):
            raise RuntimeError("replay failed: %s" % p.stderr[-2000:])
        return json.load(open(path + ".out"))
    finally:
        for q in (path, path + ".out"):
            if os.path.exists(q):
                os.remove(q)


# --------------------------------------------------------------------- main
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def matches(finding, pid, f):
    if finding.get("property") != pid or finding.get("status") != "known":
        return False
    w = finding["where"]
    if w.get("scenario") != f["scenario"]:
        return False
    if "labels" in w and f["label"] not in w["labels"]:
        return False
    if "params" in w:
        return all(str(f["params"].get(k)) == str(v) for k, v in w["params"].items())
    return True


def main(pid, tier, seed):
    t0 = time.time()
    quiet()
    sys.path.append(Z3_PATH)
    budget = 5400 if tier == "thorough" else 420
    budget = int(os.environ.get("VERIF_BUDGET", budget))
    scratch = tempfile.mkdtemp(prefix="verif_sym_")
    old = os.getcwd()
    try:
        os.chdir(scratch)
        from . import shims
        missing = shims.import_scaks(REPO, symbolic=True)
        prop = load_prop(pid)
        only = os.environ.get("VERIF_ONLY")
        if only:
            prop.SCENARIOS = [s for s in prop.SCENARIOS if s.name in only.split(",")]
        ex = Explorer(prop, tier, seed, t0 + budget, scratch).run()
    finally:
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)
    return report(pid, prop, tier, seed, ex, t0, missing)


def report(pid, prop, tier, seed, ex, t0, missing):
    # one representative per (scenario variant, label), at most 24
    reps, seen = [], {}
    for f in ex.fails + ex.exceptions:
        k = (f["key"], f["label"])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 2:
            reps.append(f)
    reps = reps[:40] + [f for f in ex.slow if not any(g["key"] == f["key"] for g in reps)][:2]
    rng = random.Random(seed)
    byscn = {}
    for w in ex.witnesses:
        byscn.setdefault(w["key"], []).append(w)
    wits = []
    for k in sorted(byscn):
        ws = byscn[k]
        rng.shuffle(ws)
        wits.extend(ws[:2 if tier == "quick" else 6])
    rng.shuffle(wits)
    wits = wits[:30 if tier == "quick" else 120]
    res = {"fails": [], "witnesses": []}
    if reps or wits:
        res = run_replays(pid, reps, wits, seed, 24, 200)
    violations, known, unrepro = [], {}, []
    findings = known_findings()
    for f, r in zip(reps, res["fails"]):
        if r is None:
            if f["label"] != HANG:      # a slow path is listed as incomplete
                unrepro.append(f)
            continue
        f2 = dict(f, label=r["label"] if not f["label"].startswith("exception:") else f["label"])
        hit = [k for k in findings if matches(k, pid, f2)]
        if hit:
            known[hit[0]["id"]] = hit[0]
            continue
        violations.append((f, r))
    mism = [(w, r) for w, r in zip(wits, res["witnesses"]) if r[0] in ("exception",) or r[1]]
    validated = sum(1 for r in res["witnesses"] if r[0] == "ok" and not r[1])
    mism2 = []
    for w, r in mism:
        lab = r[1][0][0] if r[1] else "exception"
        f2 = {"scenario": w["scenario"], "params": w["params"], "label": lab}
        if not any(matches(k, pid, f2) for k in findings):
            mism2.append((w, r))

    vacuous = [k for k, row in ex.rows.items() if not row["labels"] and not row["fails"]
               and not row["cut"]]
    total = {k: 0 for k in ("queries", "checks", "unsat", "sat", "unknown", "branches",
                            "realised")}
    solver_s = 0.0
    for row in ex.rows.values():
        for k in total:
            total[k] += getattr(row["stats"], k)
        solver_s += row["stats"].solver_s
    paths = sum(r["paths"] for r in ex.rows.values())
    scen = []
    for k, row in sorted(ex.rows.items()):
        s = row["stats"]
        scen.append({"harness": k, "variant": short(row["params"]), "bounds": row["scn"].bounds,
                     "paths": row["paths"], "infeasible_prefixes": row["infeasible"],
                     "queries": s.queries, "obligations": s.checks, "proved": s.unsat,
                     "refuted": s.sat, "undecided": s.unknown,
                     "solver_s": round(s.solver_s, 3), "max_branch_depth": s.max_depth,
                     "labels": row["labels"], "cut_short": row["cut"]})
    replay_path = None
    rdir = os.path.join(VERIF, "replays")
    lines = []
    for n, (f, r) in enumerate(violations[:10]):
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s_%d.json" % (pid, n))
        json.dump({"property": pid, "scenario": f["scenario"],
                   "params": encode_params(f["params"]), "variant": short(f["params"]),
                   "label": r["label"], "values": r["values"],
                   "observed": str(r["observed"])[:2000],
                   "solver_counterexample": f["inputs"], "symbolic": str(f["info"])[:2000]},
                  open(rp, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
        lines.append("   %s %s: %s  observed: %s" % (
            f["scenario"], short(f["params"]), r["label"], str(r["observed"])[-300:]))
        lines.append("   inputs: %s" % short(r["values"], 400))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": "Bounded symbolic execution of the real Python functions: the scenario "
              "drives the implementation on symbolic inputs, every branch and every assertion is "
              "decided by Z3 over all values within the stated bounds.",
              "functions_encoded": sorted(ex.funcs),
              "functions_encoded_count": len(ex.funcs),
              "bounds": getattr(prop, "BOUNDS", ""),
              "outside": getattr(prop, "OUTSIDE", ""),
              "harnesses": scen, "paths": paths, "queries": total["queries"],
              "obligations": total["checks"], "proved": total["unsat"],
              "refuted": total["sat"], "undecided": total["unknown"],
              "branches_decided": total["branches"], "values_concretised": total["realised"],
              "solver_s": round(solver_s, 3),
              "paths_replayed_on_unpatched_code": validated,
              "replay_disagreements": len(mism2),
              "unreproduced_counterexamples": len(unrepro),
              "undecided_variants": sorted(set(k for k, e in ex.incomplete) |
                                           set(f["key"] for f in unrepro)),
              "incomplete": [str(x)[:300] for x in ex.incomplete[:20]],
              "known_findings": sorted(known),
              "modules_missing": [m[0] for m in missing],
              "samples": [{"harness": w["key"], "inputs": w["inputs"]} for w in wits[:5]],
          },
          "assumptions": ASSUMPTIONS + list(getattr(prop, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)

    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    print("%s: %d paths, %d obligations (%d proved), %d queries, %.1fs solver, %.1fs wall, "
          "%d replays agree" % (pid, paths, total["checks"], total["unsat"], total["queries"],
                                solver_s, time.time() - t0, validated))
    for l in lines:
        print(l)
    for k, e in ex.incomplete[:6]:
        print("INCONCLUSIVE %s: %s" % (k, str(e)[-600:]))
    for f in unrepro[:6]:
        print("UNREPRODUCED %s %s %s %s" % (f["key"], f["label"], short(f["inputs"], 300),
                                            str(f["info"])[-900:]))
    for w, r in mism2[:6]:
        print("DISAGREEMENT %s inputs=%s: %s" % (w["key"], short(w["inputs"], 300), str(r)[-800:]))
    cut = [k for k, r in ex.rows.items() if r["cut"] and not r["fails"]]
    for k in cut:
        print("CUT %s (time or path budget)" % k)
    for k in vacuous:
        print("VACUOUS %s" % k)
    if violations:
        return 1
    if os.environ.get("VERIF_STRICT") and (unrepro or ex.incomplete or mism2 or cut or vacuous):
        return 3
    # A harness variant is decided when all its paths were explored and every
    # obligation on them was answered.  If most are not, the check has no answer.
    bad = set(cut) | set(vacuous) | set(k for k, e in ex.incomplete) | \
        set(f["key"] for f in unrepro)
    if paths == 0 or not any(r["labels"] for r in ex.rows.values()) or \
            2 * len(bad) > len(ex.rows):
        print("no answer: %d of %d harness variants undecided" % (len(bad), len(ex.rows)))
        return 2
    return 0


def short(x, n=200):
    s = str(x)
    return s if len(s) <= n else s[:n] + "..."


ASSUMPTIONS = [
    "floating-point numbers are treated as exact reals; counterexamples are replayed in floats",
    "exp/log are interpreted by their algebraic laws, sign and monotonicity",
    "MPI and KMCLib are replaced by recording stand-ins; logging output is disabled",
]


def replay_file(path):
    """`check.py --replay FILE`: run one recorded counterexample."""
    job = json.load(open(path))
    quiet()
    load_concrete()
    prop = load_prop(job["property"])
    scn = {s.name: s for s in prop.SCENARIOS}[job["scenario"]]
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    os.chdir(scratch)
    try:
        st, fails, labels, used, err = isolated(concrete_run, scn, decode_params(job["params"]),
                                                job["values"])
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    print("status", st)
    for f in fails:
        print("FAILED", f)
    if err:
        print(err)
    return 1 if fails or st in ("exception", "hang") else 0


def selftest():
    """setup_cmd: the tools are there and the code under test can be loaded."""
    quiet()
    sys.path.append(Z3_PATH)
    import z3
    from . import shims
    missing = shims.import_scaks(REPO, symbolic=True)
    print("z3", z3.get_version_string(), "modules missing:", [m[0] for m in missing])
    return 0
