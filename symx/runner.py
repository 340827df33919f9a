"""Exploration of all paths of all obligations of a property, replay of counterexamples, evidence."""
import gc
import importlib
import json
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

from symx.plain import plain

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
JOBS = int(os.environ.get("SYMX_JOBS", str(os.cpu_count() or 4)))

PATH_SECONDS = 100
SAMPLES_PER_OB = 3


class Hang(BaseException):
    pass


# ------------------------------------------------------------------------------------------- running one path


def run_path(ob, prefix, known, want_model):
    from symx import core, instrument
    from symx.ctx import make_symctx
    path = core.Path(prefix)
    core.CUR = path
    instrument.FUNCS.clear()
    ctx = make_symctx()(path, known)
    res = {"status": "done"}
    sys.setrecursionlimit(6000)

    def on_alarm(sig, frame):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(PATH_SECONDS)
    try:
        try:
            ob.fn(ctx, **ob.params)
        finally:
            signal.alarm(0)
    except core.Violation as v:
        res["status"] = "violation"
        res["label"] = v.label
    except core.PathInfeasible:
        res["status"] = "infeasible"
    except core.Inconclusive as e:
        res["status"] = "inconclusive"
        res["label"] = str(e)
    except Hang:
        res["status"] = "hang"
        res["label"] = "does not terminate"
    except (Exception, AssertionError) as e:
        res["status"] = "exception"
        res["label"] = "unexpected exception " + type(e).__name__
        try:
            res["detail"] = traceback.format_exc(limit=-6)
        except BaseException:
            res["detail"] = type(e).__name__
    if res["status"] in ("violation", "exception", "hang") or (want_model and res["status"] == "done"):
        try:
            m = path.get_model()
            res["inputs"] = {k: core.eval_model(v, m) for k, v in path.inputs.items()}
            if res["status"] == "done":
                res["observations"] = [(n, plain(core.eval_model(v, m))) for n, v in path.observations]
        except core.PathInfeasible:
            res["status"] = "infeasible"
        except core.Inconclusive as e:
            if res["status"] == "done":
                pass
            else:
                res["status"] = "inconclusive"
                res["label"] = str(e)
    res["pending"] = path.pending
    res["checks"] = path.checks
    res["covers"] = path.covers
    res["queries"] = path.queries
    res["solver_s"] = path.solver_time
    res["decisions"] = max(0, len(path.trace) - max(0, len(prefix) - 1))
    res["funcs"] = [f"{c.co_filename}:{c.co_qualname}" for c in instrument.FUNCS]
    return res


def forked_path(ob, prefix, known, want_model):
    """run one path in a forked child, so that no state of the code under test survives it"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            gc.disable()
            try:
                res = run_path(ob, prefix, known, want_model)
            except BaseException as e:
                res = {"status": "inconclusive", "label": "engine: " + "".join(traceback.format_exception(e))[-1500:],
                       "pending": []}
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        return {"status": "inconclusive", "label": f"path process died (status {status})", "pending": []}
    return pickle.loads(data)


class Totals:
    FIELDS = ("paths", "decisions", "queries", "infeasible")

    def __init__(self):
        self.paths = self.decisions = self.queries = self.infeasible = 0
        self.solver_s = 0.0
        self.checks = {}
        self.covers = {}
        self.funcs = set()
        self.bad = []
        self.samples = []

    def add(self, res):
        self.decisions += res.get("decisions", 0)
        self.queries += res.get("queries", 0)
        self.solver_s += res.get("solver_s", 0.0)
        self.funcs.update(res.get("funcs", ()))
        for k, v in res.get("checks", {}).items():
            self.checks[k] = self.checks.get(k, 0) + v
        if res["status"] == "infeasible":
            self.infeasible += 1
            return
        self.paths += 1
        if res["status"] == "done":
            for k, v in res.get("covers", {}).items():
                self.covers[k] = self.covers.get(k, 0) + v
            if "inputs" in res:
                self.samples.append({"inputs": res["inputs"], "observations": res.get("observations", [])})
        else:
            self.bad.append({k: res.get(k) for k in ("status", "label", "detail", "inputs")})

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for a, b in ((self.checks, o.checks), (self.covers, o.covers)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.funcs |= o.funcs
        self.bad.extend(o.bad)
        self.samples.extend(o.samples)


def definite(bad):
    """the bad paths that may be counterexamples; of the others nothing is known"""
    return [b for b in bad if b["status"] != "inconclusive"]


def explore_chunk(ob, stack, budget, known, sample_every, fork_mode):
    """explore paths for `budget` seconds; returns (totals, prefixes left, must every path get its own process?)"""
    from symx.state import signature
    tot = Totals()
    t0 = time.time()
    n = 0
    clean = None if fork_mode else signature()
    while stack and time.time() - t0 < budget and not definite(tot.bad) and len(tot.bad) < 5:
        prefix = stack.pop()
        want = n % sample_every == 0
        n += 1
        if fork_mode:
            res = forked_path(ob, prefix, known, want)
        else:
            try:
                res = run_path(ob, prefix, known, want)
            except BaseException as e:
                res = {"status": "inconclusive", "label": "engine: " + "".join(traceback.format_exception(e))[-1500:],
                       "pending": []}
        stack.extend(res["pending"])
        tot.add(res)
        if not fork_mode and signature() != clean:
            return tot, stack, True
    return tot, stack, fork_mode


# ------------------------------------------------------------------------------------------- the pool


class Pool:
    """worker processes: forked per chunk; results over pipes"""
    def __init__(self, jobs):
        self.jobs = jobs
        self.running = {}

    def start(self, key, fn):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                for rr in self.running:
                    os.close(rr)
                out = pickle.dumps(fn())
                with os.fdopen(w, "wb") as f:
                    f.write(out)
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        os.close(w)
        self.running[r] = (pid, key, [])

    def wait(self, deadline):
        """-> list of (key, result); nothing if there is no result before the deadline"""
        done = []
        while not done and time.time() <= deadline:
            ready, _, _ = select.select(list(self.running), [], [], max(0.1, deadline - time.time()))
            for r in ready:
                data = os.read(r, 1 << 20)
                pid, key, chunks = self.running[r]
                if data:
                    chunks.append(data)
                else:
                    os.close(r)
                    os.waitpid(pid, 0)
                    del self.running[r]
                    blob = b"".join(chunks)
                    done.append((key, pickle.loads(blob) if blob else None))
        return done

    def kill(self):
        for r, (pid, key, c) in list(self.running.items()):
            for p in (-pid, pid):
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            os.close(r)
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        self.running = {}


def explore(obs, known, deadline, log, confirm):
    """explore all obligations completely; stops at the first counterexample that is confirmed. An obligation with a
    counterexample that isn't confirmed, or with many undecided paths, is given up; the others are still explored."""
    pool = Pool(JOBS)
    tasks = [(i, [[]]) for i in range(len(obs))]
    open_count = {i: 1 for i in range(len(obs))}
    totals = [Totals() for _ in obs]
    started = {}
    times = {}
    stop = False
    timed_out = False
    dead = []
    fork_mode = [False] * len(obs)
    given_up = set()
    refuted = {i: 0 for i in range(len(obs))}
    try:
        while (tasks or pool.running) and not stop:
            while tasks and len(pool.running) < pool.jobs:
                # the obligation with the fewest paths so far: a counterexample anywhere is found early
                i, stack = tasks.pop(min(range(len(tasks)), key=lambda k: totals[tasks[k][0]].paths))
                started.setdefault(i, time.time())
                ob = obs[i]
                paths = totals[i].paths
                budget = 0.4 if paths < 50 else 2.0 if len(tasks) < 3 * JOBS else 5.0
                every = 1 if paths < 3 else 29
                pool.start(i, lambda ob=ob, stack=stack, budget=budget, every=every, fm=fork_mode[i]:
                           explore_chunk(ob, stack, budget, known, every, fm))
            if time.time() > deadline:
                timed_out = True
                break
            for i, result in pool.wait(deadline):
                open_count[i] -= 1
                if result is None:
                    dead.append(i)
                    stop = True
                    continue
                tot, left, fm = result
                fork_mode[i] = fork_mode[i] or fm
                totals[i].merge(tot)
                if i in given_up:
                    left = []
                if left:
                    k = 1
                    if len(tasks) < 2 * JOBS:
                        k = min(len(left), max(1, 2 * JOBS - len(tasks)))
                    for j in range(k):
                        part = left[j::k]
                        if part:
                            tasks.append((i, part))
                            open_count[i] += 1
                if open_count[i] == 0:
                    times[i] = time.time() - started[i]
                    log(f"  {obs[i].name}: {totals[i].paths} paths, {sum(totals[i].checks.values())} assertions, "
                        f"{totals[i].queries} queries, {times[i]:.1f} s")
                if i not in given_up and definite(tot.bad):
                    if any([confirm(obs[i], b) for b in definite(tot.bad)]):
                        stop = True
                        break
                    refuted[i] += 1
                hangs = any([b["status"] == "hang" for b in tot.bad])
                if i not in given_up and (hangs or refuted[i] >= 3 or len(totals[i].bad) >= 10):
                    given_up.add(i)
                    tasks = [t for t in tasks if t[0] != i]
    finally:
        pool.kill()
    incomplete = [i for i in range(len(obs)) if open_count[i] > 0 or totals[i].bad or i in given_up]
    return totals, timed_out, dead, times, incomplete


# ------------------------------------------------------------------------------------------- replay


def replay_many(prop, items, timeout, no_known=False, tier=None):
    """items: list of (obligation name, inputs). Runs them on the unmodified code, each in its own process; returns
    a list of {"status": "ok"|"violation"|"assumption"|"hang"|"error", "label":..., "observations": [...]}"""
    os.makedirs(OUT, exist_ok=True)
    name = os.path.join(OUT, f"batch-{prop}-{os.getpid()}.json")
    with open(name, "w") as f:
        json.dump([{"obligation": o, "inputs": i, "no_known": no_known, "tier": tier} for o, i in items], f)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, os.path.join(VERIF, "replay.py"), "--batch", prop, name, str(timeout)],
                       capture_output=True, text=True, env=env, cwd=VERIF)
    os.unlink(name)
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        raise RuntimeError("replay process failed: " + p.stdout[-2000:] + p.stderr[-2000:])


# ------------------------------------------------------------------------------------------- findings


def load_findings(prop):
    """known_findings.jsonl: one JSON object per line"""
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            e = json.loads(line)
            if e["property"] == prop and e["kind"] == "known":
                out.append(e)
    return out


# ------------------------------------------------------------------------------------------- main


def main(prop, tier):
    t0 = time.time()
    limit = float(os.environ.get("SYMX_LIMIT", "700" if tier == "quick" else "3300"))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    log = lambda s: (print(s), sys.stdout.flush())
    from symx import instrument
    instrument.install({"richard": os.path.join(REPO, "richard"), "props": os.path.join(VERIF, "props")})
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    findings = load_findings(prop)
    known = [f["id"] for f in findings]
    try:
        mod = importlib.import_module("props." + prop.lower())
    except Exception as e:
        log("".join(traceback.format_exception(e)))
        log(f"ERROR {prop}: the code under test cannot be imported")
        return 3
    obs = mod.obligations(tier)
    only = os.environ.get("SYMX_ONLY")
    if only:
        obs = [o for o in obs if only in o.name]
    log(f"{prop} [{tier}] {len(obs)} obligations, {JOBS} processes")
    gc.collect()
    gc.freeze()
    reported = []
    unconfirmed = []

    def confirm(ob, b):
        # counterexamples are replayed on the real code
        r = replay_many(prop, [(ob.name, b["inputs"])], 60, tier=tier)[0]
        found = r["status"] in ("violation", "hang")
        (reported if found else unconfirmed).append((ob, b, r))
        return found

    totals, timed_out, dead, times, incomplete = explore(obs, known, t0 + limit, log, confirm)

    code = 0
    inconclusive = [(ob, b) for ob, tot in zip(obs, totals) for b in tot.bad if b["status"] == "inconclusive"]
    for ob, b, r in reported[:3]:
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, f"{prop}-{ob.name}-{len(os.listdir(OUT))}.json".replace(" ", "_").replace("/", "_"))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "obligation": ob.name, "inputs": b["inputs"], "label": r["label"]}, f, indent=1)
        log(f"  obligation {ob.name}: {r['label']}")
        log(f"  inputs: {json.dumps(b['inputs'])[:1500]}")
        if r.get("detail"):
            log("  " + r["detail"].replace("\n", "\n  "))
        log(f"VIOLATION property={prop} replay={path}")
        code = 1
    for ob, b, r in unconfirmed[:5]:
        log(f"NOT REPRODUCED {ob.name}: {b['label']} inputs {json.dumps(b['inputs'])[:1500]} -> {r}")
        log("  " + (b.get("detail") or "").replace("\n", "\n  "))
    for ob, b in inconclusive[:5]:
        log(f"INCONCLUSIVE {ob.name}: {b['label']}")
    if code == 0:
        # what was explored holds, but not everything within the bounds was explored
        for i in incomplete:
            log(f"INCOMPLETE {obs[i].name}: {totals[i].paths} paths explored, not all" + (" (out of time)" if timed_out else ""))
        for i in dead:
            log(f"ERROR: worker of {obs[i].name} died")
        if dead or (incomplete and os.environ.get("SYMX_STRICT")):
            code = 2
    complete = [i for i in range(len(obs)) if not i in incomplete] if code == 0 else []

    # --- vacuity and validation of the engine against the real code
    validated = 0
    if code == 0:
        if not any([tot.checks for tot in totals]):
            log("ERROR: no assertion was reached")
            code = 3
        for i, (ob, tot) in enumerate(zip(obs, totals)):
            if not tot.checks and i in complete:
                log(f"ERROR {ob.name}: no assertion was reached")
                code = 3
            for c in ob.covers:
                if not tot.covers.get(c) and i in complete:
                    log(f"ERROR {ob.name}: '{c}' was never reached (vacuous)")
                    code = 3
        items = []
        for ob, tot in zip(obs, totals):
            for s in tot.samples[:SAMPLES_PER_OB if tier == "quick" else 12]:
                items.append((ob, s))
        results = replay_many(prop, [(ob.name, s["inputs"]) for ob, s in items], 60, tier=tier) if items else []
        for (ob, s), r in zip(items, results):
            if r["status"] == "ok":
                got = json.loads(json.dumps(r["observations"]))
                want = json.loads(json.dumps(s["observations"]))
                if got != want:
                    log(f"ENGINE MISMATCH {ob.name} inputs {s['inputs']}: engine {want} real {got}")
                    code = 3
                validated += 1
            elif r["status"] == "violation":
                # the real code fails on an input the engine passed: still a real failing input
                path = os.path.join(OUT, f"{prop}-{ob.name}-sample.json".replace(" ", "_").replace("/", "_"))
                with open(path, "w") as f:
                    json.dump({"property": prop, "tier": tier, "obligation": ob.name, "inputs": s["inputs"], "label": r["label"]}, f)
                log(f"  (found by the validation of path samples) {r['label']} {r.get('detail')}")
                log(f"VIOLATION property={prop} replay={path}")
                code = 1
                break
            else:
                log(f"ENGINE MISMATCH {ob.name} inputs {s['inputs']}: real run {r}")
                code = 3

    # --- known findings
    if code == 0:
        for f in findings:
            r = replay_many(prop, [(f["obligation"], f["inputs"])], 60, True)[0] if f.get("obligation") else {"status": "violation"}
            if r["status"] == "violation":
                log(f"KNOWN-FINDING: property={prop} {f['what']}")
            else:
                log(f"(known finding {f['id']} no longer fails: {r['status']})")

    agg = Totals()
    for t in totals:
        agg.merge(t)
    wall = time.time() - t0
    funcs = sorted(x for x in agg.funcs if x.startswith(REPO + "/"))
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": agg.paths,
            "transitions": agg.decisions,
            "traces_validated_against_impl": validated,
            "samples": [{"obligation": ob.name, "inputs": s["inputs"]} for ob, tot in zip(obs, totals)
                        for s in tot.samples[:1]][:12],
            "meaning": "states: complete symbolic paths (each one class of inputs, closed under the path condition); "
                       "transitions: branch decisions on symbolic values; traces_validated: solver models of paths "
                       "re-run on the unmodified code with equal observations",
            "obligations": [{"name": ob.name, "bounds": ob.bounds, "paths": t.paths,
                             "assertions": sum(t.checks.values()), "queries": t.queries}
                            for ob, t in zip(obs, totals)],
            "assertions_decided": sum(agg.checks.values()),
            "solver_queries": agg.queries,
            "solver_s": round(agg.solver_s, 2),
            "functions_encoded": [x[len(REPO) + 1:] for x in funcs],
            "exhaustive_within_bounds": code == 0 and not incomplete,
            "incomplete": [obs[i].name for i in incomplete],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": len(reported),
        "wall_s": round(wall, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
    log(f"{prop}: exit {code}; {agg.paths} paths, {sum(agg.checks.values())} assertions, {agg.queries} queries, "
        f"solver {agg.solver_s:.1f} s, {validated} traces validated, wall {wall:.1f} s")
    return code
