"""Runs the jobs of one property's check on all cores, replays counterexamples
on the real code in a fresh process, writes evidence."""
import fnmatch
import importlib
import json
import mmap
import multiprocessing as mp
import os
import pathlib
import pickle
import shutil
import signal
import subprocess
import sys
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
CORES = int(os.environ.get("VERIF_CORES", "0")) or os.cpu_count() or 4


class Job:
    def __init__(self, name, fn, cfg=None, path_timeout=10.0, budget=None, reach=(), validate_every=25, max_paths=None):
        self.name, self.fn, self.cfg = name, fn, cfg or {}
        self.path_timeout, self.budget, self.reach = path_timeout, budget, tuple(reach)
        self.validate_every = validate_every
        self.max_paths = max_paths


def load_findings():
    known, fixed = {}, []
    p = VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("known:"):
                f = dict(w.split("=", 1) for w in line.split()[1:3])
                known.setdefault(f["property"], {})[f["finding"]] = line.split(" ", 3)[3]
            elif line.startswith("fixed:"):
                fixed.append(line)
    return known


def scratch():
    s = os.environ.get("VERIF_SCRATCH")
    if s and os.path.isdir(s):
        return s, False
    from . import build
    return build.make(), True


def load_check(pid):
    return importlib.import_module("checks." + pid.lower())


# ---- job process -------------------------------------------------------------
def _worker(job, known, root, shm, conn):
    os.setpgid(0, 0) if False else None
    from . import explore, core
    funcs = set()
    try:
        mon = sys.monitoring
        mon.use_tool_id(3, "verif")

        def start(code, off):
            if code.co_filename.startswith(root):
                funcs.add(code.co_filename[len(root) + 1:] + ":" + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
    except Exception:
        pass
    n = [0]

    def progress(inputs):
        n[0] += 1
        b = pickle.dumps(inputs)
        if len(b) > len(shm) - 16:
            b = pickle.dumps({})
        shm.seek(8)
        shm.write(len(b).to_bytes(8, "little") + b)
        shm.seek(0)
        shm.write(n[0].to_bytes(8, "little"))
    t = time.time()
    try:
        sys.setrecursionlimit(3000)
        ex = explore.Explorer(job.fn, job.cfg, known, job.path_timeout, job.budget,
                              job.validate_every, progress, job.max_paths)
        cands = ex.explore()
        st = ex.st
        res = dict(cands=cands, st=st.__dict__, funcs=funcs, wall=time.time() - t)
    except BaseException as e:
        res = dict(error="".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:]), funcs=funcs)
    conn.send_bytes(pickle.dumps(res))
    conn.close()
    os._exit(0)


def run_jobs(jobs, known, root, total_budget=None, stop_on_violation=True, log=None):
    """-> list of (job, result dict)"""
    ctx = mp.get_context("fork")
    todo = list(reversed(jobs))
    live, done = {}, []
    t0 = time.time()
    stop = False
    while todo or live:
        while todo and len(live) < CORES and not stop:
            job = todo.pop()
            if total_budget is not None:
                left = total_budget - (time.time() - t0)
                if left < 1:
                    done.append((job, dict(skipped=True)))
                    continue
                job.budget = min(job.budget or left, left)
            shm = mmap.mmap(-1, 1 << 16)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(job, known, root, shm, w))
            p.start()
            w.close()
            live[p.pid] = [job, p, r, shm, time.time(), 0]
        if stop and todo:
            done += [(j, dict(skipped=True)) for j in todo]
            todo = []
        time.sleep(0.005)
        for pid in list(live):
            job, p, r, shm, last, cnt = live[pid]
            shm.seek(0)
            c = int.from_bytes(shm.read(8), "little")
            if c != cnt:
                live[pid][4:] = [time.time(), c]
                last = time.time()
            res = None
            if r.poll():
                try:
                    res = pickle.loads(r.recv_bytes())
                except EOFError:
                    res = None
                p.join(30)
                if res is None:
                    res = _crashed(shm, p.exitcode)
            elif not p.is_alive():
                res = _crashed(shm, p.exitcode)
            elif time.time() - last > job.path_timeout * 2 + 60:
                p.kill()
                p.join()
                res = _crashed(shm, None)
            if res is not None:
                r.close()
                shm.close()
                del live[pid]
                done.append((job, res))
                if log:
                    log(job, res)
                if stop_on_violation and (res.get("cands") or "crash" in res):
                    stop = True
        if stop:
            for pid in list(live):
                job, p, r, shm = live.pop(pid)[:4]
                p.kill()
                p.join()
                done.append((job, dict(skipped=True)))
    return done


def _crashed(shm, code):
    shm.seek(8)
    n = int.from_bytes(shm.read(8), "little")
    try:
        inputs = pickle.loads(shm.read(n))
    except Exception:
        inputs = {}
    return dict(crash=code, inputs=inputs)


# ---- replay ------------------------------------------------------------------
def _plain(v):
    from fractions import Fraction
    if isinstance(v, Fraction):
        return {"num": v.numerator, "den": v.denominator}
    return v


def _unplain(v):
    from fractions import Fraction
    return Fraction(v["num"], v["den"]) if isinstance(v, dict) else v


def write_replay(pid, job, inputs, label, k):
    d = VERIF / "evidence" / "replay"
    d.mkdir(parents=True, exist_ok=True)
    p = d / ("%s-%d.json" % (pid, k))
    p.write_text(json.dumps(dict(property=pid, job=job.name, fn=job.fn.__name__, module=job.fn.__module__, cfg=job.cfg,
                                 inputs={a: _plain(b) for a, b in inputs.items()}, label=label,
                                 timeout=job.path_timeout), indent=1))
    return p


def replay(path, root):
    """Run a recorded counterexample on the real code, in its own process.
    -> (reproduced, what happened)"""
    d = json.loads(pathlib.Path(path).read_text())
    env = dict(os.environ, VERIF_SCRATCH=root)
    limit = max(10.0, d.get("timeout", 10) * 2)
    try:
        r = subprocess.run([sys.executable, str(VERIF / "run.py"), "--replay-here", str(path)], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, text=True)
    except subprocess.TimeoutExpired:
        return True, "does not terminate (stopped after %gs)" % limit
    if r.returncode < 0:
        return True, "crashes with signal %d" % -r.returncode
    if r.returncode == 7:
        return True, r.stdout.strip().splitlines()[-1]
    if r.returncode == 0:
        return False, "not reproduced: " + r.stdout.strip()
    return False, "replay error: " + (r.stderr or r.stdout)[-500:]


def replay_here(path):
    from . import explore
    d = json.loads(pathlib.Path(path).read_text())
    root, mine = scratch()
    try:
        sys.path.insert(0, root)
        mod = importlib.import_module(d["module"])
        fn = getattr(mod, d["fn"])
        known = load_findings().get(d["property"], {})
        st, bad, ctx = explore.concrete_run(fn, d["cfg"], {a: _unplain(b) for a, b in d["inputs"].items()}, ())
        if st == "fail":
            print("%s: %s" % (st, bad[0]))
            return 7
        print(st)
        return 0
    finally:
        if mine:
            shutil.rmtree(root, ignore_errors=True)


# ---- main --------------------------------------------------------------------
def check(pid, tier, only=None, verbose=False, keep_going=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_findings().get(pid, {})
    root, mine = scratch()
    rc = 0
    try:
        sys.path.insert(0, root)
        mod = load_check(pid)
        jobs = mod.jobs(tier)
        from .api import halves, seeded
        if os.environ.get("VERIF_HALVES"):      # development: every job on fractional values
            jobs = [halves(j) for j in jobs]
        else:
            jobs += [halves(j) for j in jobs if j.fn is not seeded and any(fnmatch.fnmatchcase(j.name, x) for x in getattr(mod, "HALVES", ()))]
        if only:
            jobs = [j for j in jobs if only in j.name]
        build_s = time.time() - t0
        total = getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 800)
        total = float(os.environ.get("VERIF_BUDGET", total))

        def log(job, res):
            if verbose:
                s = res.get("st")
                print("  %-50s %s" % (job.name, "paths=%d queries=%d proved=%d static=%d solver=%.1fs wall=%.1fs %s" % (
                    s["paths"], s["queries"], s["proved"], s["static"], s["solver_s"], res["wall"],
                    s["incomplete"][:1]) if s else {k: v for k, v in res.items() if k != "funcs"}), flush=True)
        results = run_jobs(jobs, known, root, total, not keep_going, log)
        violations, errors, hits = [], [], {}
        agg = dict(paths=0, aborted=0, queries=0, obligations=0, proved=0, static=0, branches=0, validated=0, unknown=0, solver_s=0.0)
        incomplete, funcs, samples, reached = [], set(), [], {}
        vk = 0
        for job, res in results:
            funcs |= res.get("funcs", set())
            if "error" in res:
                errors.append("%s: %s" % (job.name, res["error"]))
                continue
            if "skipped" in res:
                incomplete.append("%s: not run (budget or earlier violation)" % job.name)
                continue
            if "crash" in res:
                cands = [(res["inputs"], "process died: %s" % res["crash"])]
            else:
                s = res["st"]
                for k in agg:
                    agg[k] += s[k]
                incomplete += ["%s: %s" % (job.name, x) for x in sorted(set(s["incomplete"]))]
                if len(samples) < 6:
                    samples += [dict(job=job.name, **x) for x in s["samples"][:1]]
                for fid, v in s["known_hits"].items():
                    hits.setdefault(fid, (job, v))
                cands = res["cands"]
                if not cands and not s["incomplete"]:
                    miss = set(job.reach) - s["reached"]
                    if miss:
                        errors.append("%s: vacuous, never reached %s" % (job.name, sorted(miss)))
                    if s["obligations"] == 0:
                        errors.append("%s: vacuous, no assertion reached" % job.name)
            for inp, label in cands:
                vk += 1
                p = write_replay(pid, job, inp, label, vk)
                ok, what = replay(p, root)
                if ok:
                    violations.append((p, job, what))
                    print("%s: %s\n  inputs: %s" % (job.name, what, inp))
                    print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
                else:
                    errors.append("%s: counterexample did not reproduce (%s): %s %s" % (job.name, label, what, inp))
        for fid in sorted(known):
            if fid in hits:
                job, (inp, label) = hits[fid]
                p = write_replay(pid, job, inp, label, 900 + len(fid))
                ok, what = replay(p, root)
                if ok:
                    print("KNOWN-FINDING: property=%s %s [%s: %s]" % (pid, known[fid], fid, what))
                else:
                    errors.append("known finding %s did not reproduce: %s" % (fid, what))
        wall = time.time() - t0
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(
                      states=agg["paths"], transitions=agg["branches"],
                      traces_validated_against_impl=agg["validated"] + len(violations),
                      samples=samples or [{"none": "no path was validated in this run"}],
                      method="concolic symbolic execution of the real code; z3 decides every branch flip and every assertion",
                      jobs=len(jobs), jobs_complete=len(jobs) - len({x.split(":")[0] for x in incomplete}),
                      exhaustive=not incomplete and not errors,
                      incomplete=incomplete[:20],
                      solver_queries=agg["queries"], solver_seconds=round(agg["solver_s"], 2), solver_unknown=agg["unknown"],
                      assertions=agg["obligations"], assertions_unsat_by_solver=agg["proved"],
                      assertions_ground_on_their_path=agg["static"], paths_cut_by_assumption=agg["aborted"],
                      functions_encoded=sorted(funcs), units=getattr(mod, "UNITS", []),
                      bounds=(mod.BOUNDS if isinstance(mod.BOUNDS, str) else mod.BOUNDS[tier])
                      + ("; the jobs named */half also with fractional values: every multiple of 1/2 within 2^29" if getattr(mod, "HALVES", None) else ""),
                      vacuity="each job must reach an assertion and its declared reachability labels; every explored path is witnessed by concrete inputs",
                      build_seconds=round(build_s, 2)),
                  assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(violations))
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / (pid + ".json")).write_text(json.dumps(ev, indent=1, default=str))
        print("%s %s: %d jobs, %d paths, %d queries (%.1fs in z3), %d assertions, %d validated, %d violations, %d errors, %d incomplete, %.1fs"
              % (pid, tier, len(jobs), agg["paths"], agg["queries"], agg["solver_s"], agg["obligations"], agg["validated"],
                 len(violations), len(errors), len(incomplete), wall))
        for e in errors:
            print("ERROR " + e, file=sys.stderr)
        for x in incomplete[:5]:
            print("INCOMPLETE " + x)
        if violations:
            rc = 1
        elif errors:
            rc = 2
    finally:
        if mine:
            shutil.rmtree(root, ignore_errors=True)
    return rc
