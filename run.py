#!/usr/bin/env python3
"""Check one property:  run.py C04   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
   Replay a violation:  run.py --replay FILE
"""
import os
import sys

if os.environ.get("SYMX_ENV") != "1":
    env = dict(os.environ, SYMX_ENV="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", JAX_ENABLE_X64="1", PYTHONHASHSEED="0",
               PYTHONWARNINGS="ignore", TF_CPP_MIN_LOG_LEVEL="3")
    py = "/opt/venv/bin/python"
    os.execve(py, [py, "-W", "ignore"] + [os.path.abspath(__file__)] + sys.argv[1:], env)

import json
import multiprocessing
import warnings
import subprocess
import tempfile
import time
from fractions import Fraction

warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMX_REPO", "/repo")
EVID = os.environ.get("SYMX_EVIDENCE", os.path.join(HERE, "evidence"))
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)
os.environ.setdefault("HOME", "/root")

WALL = {"quick": float(os.environ.get("SYMX_WALL", "780")), "thorough": float(os.environ.get("SYMX_WALL", "7200"))}


GRACE = 20.0


def load(pid):
    import importlib
    import gpcm
    assert os.path.realpath(os.path.dirname(gpcm.__file__)) == os.path.realpath(os.path.join(REPO, "gpcm")), gpcm.__file__
    return importlib.import_module("props." + pid.lower())


class FnTrace:
    """Which functions of the repository ran symbolically (sys.monitoring, no line tracing)."""

    def __init__(self):
        self.seen = set()
        self.root = os.path.realpath(REPO) + os.sep

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(3, "symx")
        except ValueError:
            return
        m.register_callback(3, m.events.PY_START, self.cb)
        m.set_events(3, m.events.PY_START)

    def cb(self, code, off):
        f = os.path.realpath(code.co_filename)
        if f.startswith(self.root):
            self.seen.add(f"{f[len(self.root):]}:{code.co_qualname}")
        return sys.monitoring.DISABLE

    def stop(self):
        try:
            sys.monitoring.set_events(3, 0)
            sys.monitoring.free_tool_id(3)
        except ValueError:
            pass


def ser_point(p):
    return {k: str(v) for k, v in p.items()}


def run_job(pid, hi, cfg, tier, seed, out):
    import io
    import contextlib
    mod = load(pid)
    from symx import explore, solver
    h = mod.HARNESSES[hi]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        warmed = explore.warm(h, cfg)
    tr = FnTrace()
    tr.start()
    with contextlib.redirect_stdout(buf):
        mul = 1 if tier == "quick" else 4
        job = explore.Job(pid, h, cfg, seed=seed, timeout_ms=h.timeout_ms * mul, max_paths=h.max_paths * mul,
                          max_seconds=h.max_seconds * mul)
        job.run()
    tr.stop()
    st = solver.STATS
    for v in job.violations:
        v["point"] = ser_point(v["point"])
    res = dict(harness=h.name, cfg=cfg, hi=hi, paths=job.paths, transitions=job.transitions, infeasible=job.infeasible,
               obligations=job.obligations, discharged=job.discharged, violations=job.violations,
               inconclusives=[(w, ser_point(p) if p else None) for w, p in job.inconclusives],
               assumptions=job.assumptions, validated=job.validated, warmed=warmed, validation_errors=job.validation_errors,
               witness=job.witness, wall=job.wall, functions=sorted(tr.seen), queries=st.queries, unsat=st.unsat,
               sat=st.sat, unknown=st.unknown, solver_time=st.time, by_kind=st.by_kind)
    with open(out, "w") as f:
        json.dump(res, f)


def child(args):
    try:
        run_job(*args)
    except BaseException as e:
        import traceback
        with open(args[-1], "w") as f:
            json.dump(dict(crash=f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-3000:], cfg=args[2], hi=args[1]), f)
    os._exit(0)


def run_all(pid, jobs, tier, seed, deadline, settled=lambda r: False):
    """Runs the jobs; once `settled` says of a result that it is a confirmed violation, what still runs gets GRACE seconds."""
    warnings.filterwarnings("ignore", category=DeprecationWarning)
    ctx = multiprocessing.get_context("fork")
    tmp = tempfile.mkdtemp(prefix="symx-")
    todo = list(enumerate(jobs))
    live, results = {}, {}
    ncpu = int(os.environ.get("SYMX_JOBS", "8"))
    todo.reverse()
    while todo or live:
        while todo and len(live) < ncpu:
            i, (hi, cfg) = todo.pop()
            out = os.path.join(tmp, f"{i}.json")
            p = ctx.Process(target=child, args=((pid, hi, cfg, tier, seed, out),))
            p.start()
            live[i] = (p, out, hi, cfg)
        time.sleep(0.02)
        late = time.time() > deadline
        for i in list(live):
            p, out, hi, cfg = live[i]
            if late and p.is_alive():
                p.kill()
            if not p.is_alive():
                p.join()
                try:
                    with open(out) as f:
                        results[i] = json.load(f)
                    os.unlink(out)
                except (OSError, ValueError):
                    results[i] = dict(crash="killed (time or memory)", tb="", cfg=cfg, hi=hi)
                del live[i]
                if settled(results[i]):
                    deadline = min(deadline, time.time() + GRACE)
        if late:
            for i, (hi, cfg) in todo:
                results[i] = dict(crash="not started: wall budget", tb="", cfg=cfg, hi=hi)
            todo = []
    os.rmdir(tmp)
    return [results[i] for i in sorted(results)]


def replay(path):
    with open(path) as f:
        r = json.load(f)
    mod = load(r["property"])
    from symx import explore
    h = {x.name: x for x in mod.HARNESSES}[r["harness"]]
    point = {k: Fraction(v) for k, v in r["assignment"].items()}
    if r.get("warm"):
        explore.warm(h, r["config"])
    c = explore.concrete(h, r["config"], point)
    if c.skipped:
        print("replay: assumptions do not hold for the assignment")
        return 3
    for label, why in c.failures:
        print(f"REPRODUCED {label}: {why}")
    if not c.failures:
        print(f"replay: {c.checked} assertions hold")
    return 1 if c.failures else 0


def main():
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load(pid)
    import symx.explore, symx.patch  # noqa: F401  (import before forking)
    jobs = [(hi, cfg) for hi, h in enumerate(mod.HARNESSES) for cfg in h.configs(tier)]
    only = os.environ.get("SYMX_ONLY")
    if only:
        jobs = [(hi, c) for hi, c in jobs if only in mod.HARNESSES[hi].name + json.dumps(c)]
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["known"] if k["property"] == pid] \
        if os.path.exists(os.path.join(HERE, "known_findings.json")) else []

    errors, confirmed, seen_known = [], [], []
    n = 0

    def candidates(r, cands):
        """Replays candidate counterexamples of one job against the real code."""
        nonlocal n
        for label, point, why in cands:
            if len(confirmed) >= 3:
                break
            n += 1
            path = os.path.join(rdir, f"{pid}-{n}.json")
            for warm in (False, True):  # in a process of its own, or after an execution with other values
                with open(path, "w") as f:
                    json.dump(dict(property=pid, harness=r["harness"], config=r["cfg"], label=label, why=why, assignment=point, warm=warm), f, indent=1)
                try:
                    rc = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), "--replay", path],
                                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
                    code, text = rc.returncode, rc.stdout
                except subprocess.TimeoutExpired:
                    code, text = 2, "replay timed out"
                if code != 0 or not r.get("warmed"):
                    break
            if code == 1 and "REPRODUCED" in text:
                labels = [ln.split()[1].rstrip(":") for ln in text.splitlines() if ln.startswith("REPRODUCED")]
                k = [k for k in known if k["harness"] == r["harness"] and all(r["cfg"].get(a) == b for a, b in k.get("config", {}).items())
                     and set(labels) <= set(k["labels"])]
                if k:
                    seen_known.append(k[0])
                    continue
                confirmed.append((path, r["harness"], r["cfg"], label, why, text.strip()))
            else:
                os.unlink(path)
                errors.append(f"{r['harness']} {r['cfg']} {label}: not reproduced on the real code: {why[:800]}\n{text[-500:]}")

    def settled(r):
        if "crash" not in r:
            candidates(r, [(v["label"], v["point"], v["why"] + "\n" + v.get("tb", "")) for v in r["violations"]])
        return bool(confirmed)

    results = run_all(pid, jobs, tier, seed, t0 + WALL[tier], settled)
    for r in results:
        if "crash" in r:
            errors.append(f"job {mod.HARNESSES[r['hi']].name} {r['cfg']}: {r['crash']}\n{r['tb']}")
            continue
        if not confirmed:
            candidates(r, [("(incomplete path)", p, w) for w, p in r["inconclusives"] if p][:6])
        for w, p in r["inconclusives"]:
            if not p:
                errors.append(f"{r['harness']} {r['cfg']}: inconclusive: {w}")
        for e in r["validation_errors"][:3]:
            errors.append(f"{r['harness']} {r['cfg']}: encoding disagrees with the real code: {e}")

    done = [r for r in results if "crash" not in r]
    wall = time.time() - t0
    tot = lambda k: sum(r[k] for r in done)
    kinds = {}
    for r in done:
        for k, v in r["by_kind"].items():
            d = kinds.setdefault(k, dict(queries=0, unsat=0, sat=0, unknown=0, time_s=0.0))
            for q in d:
                d[q] = round(d[q] + v[q], 4)
    assumptions = sorted({a for r in done for a in r["assumptions"]} | set(getattr(mod, "ASSUMPTIONS", [])))
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("transitions"), traces_validated_against_impl=tot("validated"),
            samples=[dict(harness=r["harness"], config=r["cfg"], paths=r["paths"], obligations=r["obligations"],
                          reachability_witness=r["witness"]) for r in done[:6]],
            explanation="states: feasible symbolic paths of the real code (each stands for all values of its path condition); "
                        "transitions: branch decisions; every obligation on every path is an SMT query over all values "
                        "within the bounds; traces_validated: solver points pushed through the unmodified code and compared.",
            jobs=len(done), obligations=tot("obligations"), discharged=tot("discharged"),
            infeasible_paths=tot("infeasible"), queries=tot("queries"), unsat=tot("unsat"), sat=tot("sat"),
            unknown=tot("unknown"), solver_time_s=round(tot("solver_time"), 2), queries_by_kind=kinds,
            functions_encoded=sorted({f for r in done for f in r["functions"]}),
            bounds={h.name: h.bounds for h in mod.HARNESSES},
            configurations=[dict(harness=r["harness"], **{"config": r["cfg"], "paths": r["paths"], "wall_s": round(r["wall"], 2)}) for r in done],
        ),
        assumptions=assumptions, wall_s=round(wall, 2), violations=len(confirmed))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k in {json.dumps(k, sort_keys=True) for k in seen_known}:
        print(f"KNOWN-FINDING: property={pid} {json.loads(k)['what']}")
    print(f"{pid} [{tier}]: {len(done)}/{len(jobs)} jobs, {tot('paths')} paths, {tot('discharged')}/{tot('obligations')} obligations, "
          f"{tot('queries')} queries ({tot('solver_time'):.1f} s in the solver), {tot('validated')} traces validated, {wall:.1f} s")
    if confirmed:
        for path, h, cfg, label, why, out in confirmed[:3]:
            print(f"  {h} {cfg} {label}: {why[:300]}\n    {out[:400]}")
        print(f"VIOLATION property={pid} replay={confirmed[0][0]}")
        sys.exit(1)
    if errors:
        for e in errors[:int(os.environ.get("SYMX_ERRS", "6"))]:
            print("ERROR:", e[:2500])
        print(f"{pid}: {len(errors)} errors; no verdict")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
