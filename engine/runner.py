"""
Explores all paths of a property's harnesses and writes the evidence.

Every path condition and every assertion is decided by z3; a satisfiable
negated assertion gives a concrete counterexample, which is replayed on the
unmodified code (replay.py, another interpreter, no engine) before it counts.
"""

import gc
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NATIVE_PY = "/opt/venv/bin/python"


def _alarm(signum, frame):
    from .core import PathTimeout

    raise PathTimeout()


class Worker:
    def __init__(self, jobs, tasks, results, shared, deadline, path_timeout):
        self.jobs = jobs
        self.tasks = tasks
        self.results = results
        self.outstanding, self.idle, self.stop, self.bad = shared
        self.deadline = deadline
        self.path_timeout = path_timeout

    def loop(self):
        from . import core

        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGTERM, lambda *_: os._exit(0))
        sys.unraisablehook = lambda *_: None
        gc.disable()
        self.E = core.ENGINE
        self.core = core
        self.per_job = {}
        self.samples = []
        self.functions = _trace_functions()
        unexplored = {}
        while not self.stop.value:
            try:
                with self.idle.get_lock():
                    self.idle.value += 1
                try:
                    job, prefix = self.tasks.get(timeout=0.05)
                finally:
                    with self.idle.get_lock():
                        self.idle.value -= 1
            except queue.Empty:
                if self.outstanding.value == 0:
                    break
                if time.time() > self.deadline:
                    break
                continue
            if time.time() > self.deadline:
                unexplored[job] = unexplored.get(job, 0) + 1
                with self.outstanding.get_lock():
                    self.outstanding.value -= 1
                continue
            left = self.run_job(job, prefix)
            if left:
                unexplored[job] = unexplored.get(job, 0) + left
            with self.outstanding.get_lock():
                self.outstanding.value -= 1
        self.results.put(
            (
                "done",
                self.E.stats.as_dict(),
                dict(self.E.covers),
                self.per_job,
                sorted(self.functions),
                unexplored,
                self.samples,
            )
        )

    def run_job(self, job, prefix):
        E, core = self.E, self.core
        E.fresh_solver()
        stack = [prefix]
        pj = self.per_job.setdefault(job, [0, 0, 0, 0])
        n = 0
        while stack:
            if self.stop.value or time.time() > self.deadline:
                return len(stack)
            p = stack.pop()
            self.run_path(job, p, pj)
            stack.extend(E.pending)
            n += 1
            if n % 64 == 0:
                gc.collect()
            if len(E._zvars) and n % 4000 == 0:
                E.fresh_solver()
            if len(stack) > 1 and self.idle.value > 0:
                give = stack[: max(1, len(stack) // 2)]
                del stack[: len(give)]
                with self.outstanding.get_lock():
                    self.outstanding.value += len(give)
                for g in give:
                    self.tasks.put((job, g))
        return 0

    def run_path(self, job, prefix, pj):
        from . import hapi

        E, core = self.E, self.core
        name, fn, cfg = self.jobs[job]
        h = hapi.SymH(cfg)
        E.start_path(prefix)
        E.stats.paths += 1
        pj[0] += 1
        ob = E.stats.obligations
        signal.setitimer(signal.ITIMER_REAL, self.path_timeout)
        try:
            try:
                fn(h)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if E.stats.obligations > ob:
                pj[1] += 1
                if pj[1] == 3 and len(self.samples) < 3:
                    try:
                        self.samples.append((name, E.eval_inputs(E.model())))
                    except core.PathEnd:
                        pass
        except core.Infeasible:
            E.stats.pathend_infeasible += 1
        except core.Violation as e:
            self.report(job, "assertion", e.msg, e.model)
            pj[2] += 1
        except core.PathTimeout:
            E.stats.timeouts += 1
            pj[3] += 1
            self.try_report(job, "timeout", "path did not finish", prefix)
            E.fresh_solver()
        except core.SolverUnknown as e:
            self.results.put(("unknown", job, str(e)))
            pj[3] += 1
            E.fresh_solver()
        except core.PathEnd as e:
            self.results.put(("unknown", job, repr(e)))
            pj[3] += 1
        except RecursionError as e:
            self.try_report(job, "exception", "RecursionError", None)
            pj[3] += 1
        except Exception as e:
            tb = traceback.format_exc(limit=-6)
            self.try_report(job, "exception", "%s: %s" % (type(e).__name__, tb), None)
            pj[2] += 1
        finally:
            E.end_path()

    def try_report(self, job, kind, msg, prefix):
        E = self.E
        try:
            model = E.eval_inputs(E.model())
        except BaseException as e:
            self.results.put(("unknown", job, "no model for %s: %r" % (msg, e)))
            return
        self.report(job, kind, msg, model)

    def report(self, job, kind, msg, model):
        with self.bad.get_lock():
            self.bad.value += 1
            if self.bad.value > 200:
                return
        self.results.put(("cex", job, kind, msg, model))


def _trace_functions():
    """Names of the functions of /repo that were executed (sys.monitoring)."""
    seen = set()
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "vf")
    except ValueError:
        return seen

    def start(code, off):
        if code.co_filename.startswith(REPO + "/"):
            seen.add(
                os.path.relpath(code.co_filename, REPO) + ":" + code.co_qualname
            )
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    return seen


def native_replay(record, timeout=60):
    """
    Runs the harness with concrete inputs on the unmodified code.
    Returns (failed?, message).
    """
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["VERIF_REPO"] = REPO
    try:
        p = subprocess.run(
            [NATIVE_PY, os.path.join(VERIF, "replay.py"), "-"],
            input=json.dumps(record),
            capture_output=True,
            text=True,
            timeout=timeout,
            env=env,
        )
    except subprocess.TimeoutExpired:
        return True, "does not terminate within %d s" % timeout
    out = p.stdout.strip().splitlines()
    last = out[-1] if out else p.stderr.strip()[-500:]
    if p.returncode == 1 and last.startswith("REPRODUCED"):
        return True, last
    return False, last


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import rewrite

    roots = {"specfile": REPO, "props": VERIF, "rpm": os.path.join(VERIF, "stubs")}
    rewrite.install(roots)
    sys.setrecursionlimit(20000)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evfile = os.path.join(evdir, prop + ".json")
    load_error = None
    try:
        mod = importlib.import_module("props." + prop.lower())
    except Exception:
        # the tree cannot be loaded through the rewriter: ask the real
        # interpreter whether it can be imported at all
        load_error = traceback.format_exc(limit=-8)
        mod = None
    if mod is None:
        print("load error:", load_error)
        write_evidence(
            evfile, prop, tier, seed, t0, {"explanation": "could not load: " + load_error, "evaluations": 0}, [], []
        )
        return 0
    jobs = list(mod.harnesses(tier))
    budget = float(os.environ.get("VERIF_BUDGET", getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 800)))
    deadline = t0 + budget
    nproc = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 1))
    ctx = mp.get_context("fork")
    tasks = ctx.Queue()
    results = ctx.Queue()
    shared = (ctx.Value("i", len(jobs)), ctx.Value("i", 0), ctx.Value("i", 0), ctx.Value("i", 0))
    for j in range(len(jobs)):
        tasks.put((j, []))
    w = Worker(jobs, tasks, results, shared, deadline, getattr(mod, "PATH_TIMEOUT", 30))
    gc.freeze()
    procs = []
    for _ in range(nproc):
        p = ctx.Process(target=w.loop, daemon=True)
        p.start()
        procs.append(p)

    from . import core

    stats = core.Stats()
    covers, per_job, functions, unexplored = {}, {}, set(), {}
    samples = []
    unknowns, spurious, confirmed, known_hits = [], [], [], {}
    known = load_known(prop)
    seen_cex = set()
    pending_done = nproc
    while pending_done:
        try:
            r = results.get(timeout=1)
        except queue.Empty:
            if all(not p.is_alive() for p in procs) and results.empty():
                break
            if time.time() > deadline + 60:
                break
            continue
        if r[0] == "done":
            pending_done -= 1
            stats.add(r[1])
            for k, v in r[2].items():
                covers[k] = covers.get(k, 0) + v
            for k, v in r[3].items():
                a = per_job.setdefault(k, [0, 0, 0, 0])
                for i in range(4):
                    a[i] += v[i]
            functions.update(r[4])
            for k, v in r[5].items():
                unexplored[k] = unexplored.get(k, 0) + v
            samples.extend(r[6])
        elif r[0] == "unknown":
            unknowns.append((jobs[r[1]][0], r[2]))
        elif r[0] == "cex":
            _, job, kind, msg, model = r
            name, fn, cfg = jobs[job]
            rec = {
                "property": prop,
                "tier": tier,
                "harness": name,
                "cfg": cfg,
                "values": model,
                "kind": kind,
                "message": msg,
            }
            key = json.dumps([name, model], sort_keys=True)
            if key in seen_cex or confirmed:
                continue
            seen_cex.add(key)
            ok, text = native_replay(rec)
            if not ok:
                spurious.append({"harness": name, "values": model, "message": msg[-1500:], "native": text[-500:]})
                continue
            hit = match_known(known, rec, text)
            if hit is not None:
                known_hits[hit] = known_hits.get(hit, 0) + 1
                continue
            rec["native"] = text
            confirmed.append(rec)
            shared[2].value = 1
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.terminate()
    # vacuity guard
    missing = []
    if not confirmed and not any(unexplored.values()):
        missing = [c for c in getattr(mod, "COVERS", {}).get(tier, getattr(mod, "COVERS_ALL", [])) if c not in covers]
    violations = []
    for i, rec in enumerate(confirmed[:1]):
        rp = os.path.join(evdir, "replay-%s-%d.json" % (prop, i))
        with open(rp, "w") as f:
            json.dump(rec, f, indent=1)
        print("counterexample in harness %s: %s" % (rec["harness"], rec["native"]))
        print("inputs: " + json.dumps(rec["values"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        violations.append({"replay": rp, "message": rec["native"][:2000]})
    for k, n in known_hits.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    not_started = [jobs[j][0] for j in range(len(jobs)) if j not in per_job]
    complete = (
        not confirmed
        and not any(unexplored.values())
        and not unknowns
        and not spurious
        and not stats.realized
        and not not_started
        and not missing
    )
    hs = {}
    for j, (name, fn, cfg) in enumerate(jobs):
        a = per_job.get(j, [0, 0, 0, 0])
        x = hs.setdefault(name, {"configs": 0, "paths": 0, "paths_with_obligations": 0, "unexplored": 0})
        x["configs"] += 1
        x["paths"] += a[0]
        x["paths_with_obligations"] += a[1]
        x["unexplored"] += unexplored.get(j, 0)
    cov = {
        "explanation": (
            "Bounded symbolic execution of the current /repo sources: inputs are solver "
            "variables, z3 decides every branch and every assertion over all values within "
            "the bounds. " + getattr(mod, "BOUNDS", {}).get(tier, "")
        ),
        "evaluations": stats.obligations,
        "distinct_nontrivial": sum(a[1] for a in per_job.values()),
        "rule": "one evaluation = one assertion decided by the solver over all inputs of one path; distinct_nontrivial = paths that reached at least one assertion",
        "samples": [{"harness": a, "inputs": b} for a, b in samples[:6]],
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        "complete_within_bounds": complete,
        "harnesses": hs,
        "functions_encoded": sorted(functions),
        "functions_encoded_count": len(functions),
        "paths": stats.paths,
        "queries": stats.queries,
        "queries_sat": stats.sat,
        "queries_unsat": stats.unsat,
        "queries_unknown": stats.unknown,
        "solver_time_s": round(stats.solver_s, 3),
        "obligations": stats.obligations,
        "branches_forced_by_solver": stats.forced,
        "regex_alternatives": stats.cubes,
        "values_concretised": stats.realized,
        "path_timeouts": stats.timeouts,
        "unexplored_prefixes": sum(unexplored.values()),
        "jobs_not_started": not_started[:20],
        "reachability_witnesses": covers,
        "reachability_missing": missing,
        "unknown": [list(u) for u in unknowns[:10]],
        "unconfirmed_counterexamples": spurious[:10],
        "unconfirmed_count": len(spurious),
        "known_findings_hit": known_hits,
    }
    write_evidence(evfile, prop, tier, seed, t0, cov, getattr(mod, "ASSUMPTIONS", []), violations)
    print(
        "%s %s: %d paths, %d obligations, %d queries (%.1f s solver), %s, %.1f s"
        % (
            prop,
            tier,
            stats.paths,
            stats.obligations,
            stats.queries,
            stats.solver_s,
            "complete within bounds" if complete else "INCOMPLETE",
            time.time() - t0,
        )
    )
    if os.environ.get("VERIF_JOBSIZES"):
        for j in sorted(per_job, key=lambda j: -per_job[j][0])[: int(os.environ["VERIF_JOBSIZES"])]:
            print("  %7d paths %s %s" % (per_job[j][0], jobs[j][0], jobs[j][2]))
    if not complete and not confirmed:
        print(
            "  unexplored=%d realized=%d unknown=%d unconfirmed=%d timeouts=%d missing=%s not_started=%d"
            % (sum(unexplored.values()), stats.realized, len(unknowns), len(spurious), stats.timeouts, missing, len(not_started))
        )
        if os.environ.get("VERIF_DEBUG"):
            for s in spurious[: int(os.environ["VERIF_DEBUG"])]:
                print("  UNCONFIRMED", s["harness"], json.dumps(s["values"]))
                print("   ", s["message"])
                print("    native:", s["native"])
            for u in unknowns[:3]:
                print("  UNKNOWN", u)
    sys.stdout.flush()
    return 1 if confirmed else 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return [k for k in json.load(f).get("known", []) if k["property"] == prop]
    except FileNotFoundError:
        return []


def match_known(known, rec, text):
    for k in known:
        if k["harness"] == rec["harness"] and k.get("match", "") in text:
            if all(rec["values"].get(a) == b for a, b in k.get("values", {}).items()):
                return k["what"]
    return None


def write_evidence(path, prop, tier, seed, t0, cov, assumptions, violations):
    d = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "wall_s": round(time.time() - t0, 3),
        "assumptions": list(assumptions),
        "violations": violations,
    }
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
    os.replace(tmp, path)
