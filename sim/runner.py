"""Seeded search over simulated runs, minimisation, replay, evidence.

Every run happens in a freshly forked child of a warmed parent, so no run sees what another one left behind; one run
seed determines program, schedule and faults.
"""
import gc
import hashlib
import importlib
import itertools
import json
import os
import random
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")


def _load(pid):
    from . import base  # noqa: F401  (imports the library through the seams)
    return importlib.import_module("sim.worlds.%s" % pid.lower())


def run_seed_of(base_seed, pid, i):
    h = hashlib.sha256(("%d/%s/%d" % (base_seed, pid, i)).encode()).digest()
    return int.from_bytes(h[:7], "big")


# ------------------------------------------------------------------------------------------------------------------
def execute(mod, prog, switches=None, sched_seed=0):
    """One simulated run in this process.  Returns a JSON-able result."""
    from . import core
    import torch
    gc.collect()
    gc.disable()
    res = {"violation": None, "error": None}
    world = None
    sim = None
    try:
        torch.manual_seed(prog.get("torch_seed", 0))
        world = mod.W(prog)
        world.known_table = [e["key"] for e in known_table(mod.ID)]
        n = prog["nthreads"]
        chooser = core.ReplayChooser(switches) if switches is not None else \
            core.RandomChooser(random.Random(sched_seed), n)
        sim = core.Sim(prog["phases"], n, world.exec_op, chooser, opcodes=prog.get("opcodes", False),
                       max_op_steps=prog.get("max_op_steps", 300000))
        real_err, sys.stderr = sys.stderr, world.stderr
        try:
            world.setup(sim)
            sim.run()
            if sim.violation is None:
                world.finish(sim)
        finally:
            sys.stderr = real_err
        if sim.violation is not None:
            raise sim.violation
    except core.Violation as v:
        res["violation"] = {"cls": v.cls, "detail": v.detail}
    except core.HarnessError as e:
        res["error"] = str(e)
    except BaseException as e:
        v = core.as_violation(e)
        if v is None:
            res["error"] = traceback.format_exc()
        else:
            res["violation"] = {"cls": v.cls, "detail": v.detail}
    if sim is not None:
        res.update(switches=sim.switches, steps=sim.gstep, preempts=sim.n_preempt, forced=sim.forced,
                   pairs=sorted("%s>%s" % p for p in sim.pairs)[:400], fired=sim.fired,
                   trace=sim.trace_hash.hexdigest()[:16])
    if world is not None:
        res.update(digest=world.h.hexdigest(), probes=world.probes, samples=world.samples[:2], known=world.known)
    res["nops"] = sum(len(t) for ph in prog["phases"] for t in ph)
    return res


def _child(fd, job):
    try:
        signal.alarm(0)
        r = job()
    except BaseException:
        r = {"violation": None, "error": traceback.format_exc()}
    data = json.dumps(r, default=str).encode()
    off = 0
    while off < len(data):
        off += os.write(fd, data[off:off + 65536])
    os.close(fd)
    os._exit(0)


class Pool:
    """Runs jobs (closures) in forked children, W at a time; yields (key, result) as they finish."""

    def __init__(self, workers, timeout=150):
        self.workers = workers
        self.timeout = timeout
        self.live = {}

    def _spawn(self, key, job):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in list(self.live):
                try:
                    os.close(fd)
                except OSError:
                    pass
            _child(w, job)
        os.close(w)
        self.live[r] = [pid, key, bytearray(), time.monotonic()]

    def run(self, jobs):
        it = iter(jobs)
        more = True
        while more or self.live:
            while more and len(self.live) < self.workers:
                try:
                    key, job = next(it)
                except StopIteration:
                    more = False
                    break
                self._spawn(key, job)
            if not self.live:
                break
            rs, _, _ = select.select(list(self.live), [], [], 1.0)
            for fd in rs:
                ent = self.live[fd]
                b = os.read(fd, 1 << 20)
                if b:
                    ent[2] += b
                    continue
                os.close(fd)
                del self.live[fd]
                _, st = os.waitpid(ent[0], 0)
                try:
                    res = json.loads(bytes(ent[2]).decode())
                except ValueError:
                    res = {"violation": None, "error": "child died with status %d" % st}
                yield ent[1], res
            now = time.monotonic()
            for fd in list(self.live):
                ent = self.live[fd]
                if now - ent[3] > self.timeout:
                    os.kill(ent[0], signal.SIGKILL)
                    os.waitpid(ent[0], 0)
                    os.close(fd)
                    del self.live[fd]
                    yield ent[1], {"violation": None, "error": "run exceeded %ds of wall time (killed)" % self.timeout}

    def kill(self):
        for fd, ent in list(self.live.items()):
            try:
                os.kill(ent[0], signal.SIGKILL)
                os.waitpid(ent[0], 0)
            except OSError:
                pass
            os.close(fd)
        self.live.clear()


# ------------------------------------------------------------------------------------------------------------------
def gen_program(mod, base_seed, i, tier):
    s = run_seed_of(base_seed, mod.ID, i)
    rng = random.Random(s)
    prog = mod.gen(rng, tier)
    prog["run_seed"] = s
    k = 0
    for ph in prog["phases"]:
        for t in ph:
            for op in t:
                op["id"] = k
                k += 1
    return prog, s ^ 0x5DEECE66D


def minimise(mod, prog, res, pool, budget=45.0):
    """Delta-debugging over operations, faults and schedule switches; the violation class must persist."""
    t0 = time.monotonic()
    cls = res["violation"]["cls"]
    tried = 0

    def test(cands):
        """Returns index of the first candidate that still fails the same way, or None; runs them in parallel."""
        nonlocal tried
        results = {}
        jobs = [(k, (lambda p=p, s=s: execute(mod, p, switches=s))) for k, (p, s) in enumerate(cands)]
        for k, r in pool.run(jobs):
            results[k] = r
            tried += 1
        for k in range(len(cands)):
            v = results[k].get("violation")
            if v and v["cls"] == cls:
                return k, results[k]
        return None

    sw = res["switches"]
    got = test([(prog, sw), (prog, {})])
    if got is None:
        return prog, sw, res, tried, False
    k, r = got
    cur_p, cur_s, cur_r = prog, (sw if k == 0 else {}), r
    got2 = test([(prog, {})])
    if got2:
        cur_s, cur_r = {}, got2[1]

    def ops_of(p):
        return [(a, b, c) for a, ph in enumerate(p["phases"]) for b, t in enumerate(ph) for c in range(len(t))]

    def without(p, drop):
        drop = set(drop)
        q = dict(p)
        q["phases"] = [[[op for c, op in enumerate(t) if (a, b, c) not in drop] for b, t in enumerate(ph)]
                       for a, ph in enumerate(p["phases"])]
        return q

    changed = True
    while changed and time.monotonic() - t0 < budget:
        changed = False
        # operations
        size = max(1, len(ops_of(cur_p)) // 2)
        while size >= 1 and time.monotonic() - t0 < budget:
            locs = ops_of(cur_p)
            if len(locs) <= 1:
                break
            chunks = [locs[i:i + size] for i in range(0, len(locs), size)]
            got = test([(without(cur_p, c), cur_s) for c in chunks])
            if got is not None:
                cur_p, cur_r = without(cur_p, chunks[got[0]]), got[1]
                changed = True
            else:
                size //= 2
        # switches
        keys = list(cur_s)
        size = max(1, len(keys) // 2)
        while keys and size >= 1 and time.monotonic() - t0 < budget:
            keys = list(cur_s)
            chunks = [keys[i:i + size] for i in range(0, len(keys), size)][:64]
            cands = [(cur_p, {k: v for k, v in cur_s.items() if k not in set(c)}) for c in chunks]
            got = test(cands)
            if got is not None:
                cur_s, cur_r = cands[got[0]][1], got[1]
                changed = True
            else:
                size //= 2
        # faults and batch sizes
        for a, b, c in ops_of(cur_p):
            if time.monotonic() - t0 > budget:
                break
            op = cur_p["phases"][a][b][c]
            alts = []
            if op.get("fault"):
                alts.append({k: v for k, v in op.items() if k != "fault"})
            if isinstance(op.get("B"), int) and op["B"] > 1:
                alts.append(dict(op, B=1))
                if op["B"] > 2:
                    alts.append(dict(op, B=2))
            if not alts:
                continue
            cands = []
            for alt in alts:
                q = json.loads(json.dumps(cur_p))
                q["phases"][a][b][c] = alt
                cands.append((q, cur_s))
            got = test(cands)
            if got is not None:
                cur_p, cur_r = cands[got[0]][0], got[1]
                changed = True
    # keep only switches that still matter by key (ops that are gone)
    ids = {str(op["id"]) for ph in cur_p["phases"] for t in ph for op in t}
    pruned = {k: v for k, v in cur_s.items() if not k.split(":")[1].isdigit() or k.split(":")[1] in ids}
    got = test([(cur_p, pruned)])
    if got is not None:
        cur_s, cur_r = pruned, got[1]
    return cur_p, cur_s, cur_r, tried, True


def known_table(pid):
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid and e.get("status") == "known"]


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--log", default=None, help="write one line per run (run index, seed, digest, trace)")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    pid = a.property
    mod = _load(pid)

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        r = execute(mod, rep["program"], switches=rep["switches"])
        if r["error"]:
            print(r["error"])
            return 2
        if r["violation"] is None:
            print("replay: no violation")
            return 0
        ok = r["violation"]["cls"] == rep["violation"]["cls"] and r["digest"] == rep["digest"]
        print("replay: %s: %s" % (r["violation"]["cls"], r["violation"]["detail"]))
        print("replay: identical to the recorded run: %s" % ("yes" if ok and r["violation"] == rep["violation"]
                                                             else "no"))
        print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return 1

    runs = a.runs if a.runs is not None else mod.RUNS[a.tier]
    workers = a.workers or max(1, min(8, len(os.sched_getaffinity(0))))
    wall_cap = 780.0 if a.tier == "quick" else 3600.0 * 3
    print("check %s tier=%s VERIF_SEED=%d runs=%d workers=%d" % (pid, a.tier, a.seed, runs, workers))
    sys.stdout.flush()
    gc.collect()
    gc.freeze()   # so that collections in the forked runs do not touch (and copy) the shared pages
    pool = Pool(workers, timeout=getattr(mod, "RUN_TIMEOUT", 150))
    if hasattr(mod, "warm"):
        mod.warm()

    def jobs():
        for i in range(a.first, a.first + runs):
            if time.monotonic() - t0 > wall_cap or stop[0]:
                stop[0] = True
                return
            yield i, (lambda i=i: _one(mod, a.seed, i, a.tier))

    stop = [False]
    agg = dict(runs=0, steps=0, preempts=0, forced=0, ops=0, fired={}, probes={}, pairs=set(), traces=set(), nontriv=set(),
               samples=[], known={}, nthreads={}, errors=[], sites=set())
    first_v = None
    coarse = set()
    logf = open(a.log, "w") if a.log else None
    nviol = 0
    degraded = []

    def again():
        # CPython 3.12 sometimes crashes while tracing bytecodes; such a run is repeated at line granularity
        while degraded:
            i = degraded.pop()
            yield i, (lambda i=i: _one(mod, a.seed, i, a.tier, True))

    for i, r in itertools.chain(pool.run(jobs()), pool.run(again())):
        if r.get("error", None) and "died with status 11" in r["error"] and not r.get("coarse") and \
                gen_program(mod, a.seed, i, a.tier)[0].get("opcodes") and i not in coarse:
            degraded.append(i)
            coarse.add(i)
            continue
        if r.get("error"):
            agg["errors"].append((i, r["error"]))
            if len(agg["errors"]) >= 5:
                stop[0] = True
            continue
        agg["runs"] += 1
        agg["steps"] += r["steps"]
        agg["preempts"] += r["preempts"]
        agg["forced"] += r["forced"]
        agg["ops"] += r["nops"]
        agg["pairs"].update(r["pairs"])
        for k, where in r["fired"]:
            agg["fired"][k] = agg["fired"].get(k, 0) + 1
            agg["sites"].add("%s@%s" % (k, where))
        for k, v in r["probes"].items():
            agg["probes"][k] = agg["probes"].get(k, 0) + v
        agg["traces"].add(r["trace"])
        if r["preempts"] > 0 or r["fired"] or r["nops"] >= 3:
            agg["nontriv"].add((r["digest"], r["trace"]))
        if r.get("case"):
            agg["samples"].append({"run": i, "case": r["case"], "steps": r["steps"], "in_op_preemptions": r["preempts"],
                                   "faults_fired": r["fired"][:5], "observed": r["samples"]})
        for k in r["known"]:
            agg["known"][k] = agg["known"].get(k, 0) + 1
        if logf:
            logf.write("%d %s %s %s %d\n" % (i, r["digest"], r["trace"],
                                             r["violation"]["cls"] if r["violation"] else "-", r["steps"]))
        if r["violation"]:
            nviol += 1
            if a.keep_going:
                print("run %d: %s: %s" % (i, r["violation"]["cls"], r["violation"]["detail"]))
                sys.stdout.flush()
            if first_v is None or i < first_v[0]:
                first_v = (i, r)
            if not a.keep_going:
                stop[0] = True
    if logf:
        logf.close()
    search_wall = time.monotonic() - t0

    status = 0
    if first_v is not None:
        i, r = first_v
        prog, _ = gen_program(mod, a.seed, i, a.tier)
        if i in coarse:
            prog["opcodes"] = False
        print("run %d (run seed %d) violates %s: %s: %s" % (i, prog["run_seed"], pid, r["violation"]["cls"],
                                                           r["violation"]["detail"]))
        sys.stdout.flush()
        mp, ms, mr, tried, confirmed = minimise(mod, prog, r, pool)
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, "%s-seed%d-run%d.json" % (pid, a.seed, i))
        with open(path, "w") as f:
            json.dump({"property": pid, "verif_seed": a.seed, "run": i, "run_seed": prog["run_seed"],
                       "violation": mr["violation"], "digest": mr["digest"], "program": mp, "switches": ms,
                       "faults_fired": mr["fired"], "minimise_runs": tried, "confirmed": confirmed,
                       "replay_cmd": "cd /verif && ./check %s --replay %s" % (pid, path)}, f, indent=1)
        nop = sum(len(t) for ph in mp["phases"] for t in ph)
        print("minimised with %d runs to %d operation(s), %d schedule choice(s), faults fired: %s" % (
            tried, nop, len(ms), mr["fired"]))
        print("  %s: %s" % (mr["violation"]["cls"], mr["violation"]["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        status = 1
    elif agg["errors"]:
        for i, e in agg["errors"][:3]:
            print("run %d: harness error:\n%s" % (i, e))
        status = 2
    elif agg["runs"] < max(1, runs // 4):
        print("only %d of %d runs finished in the time allowed" % (agg["runs"], runs))
        status = 2

    for e in known_table(pid):
        if e["key"] in agg["known"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))

    if not a.no_evidence:
        hours = max(search_wall, 1e-9) / 3600
        ev = {
            "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
            "coverage": {
                "evaluations": agg["runs"],
                "distinct_nontrivial": len(agg["nontriv"]),
                "rule": ("one evaluation = one simulated run (program, schedule and faults from one run seed, in its own "
                         "forked process); non-trivial = at least one preemption inside library code, one fault fired "
                         "or a history of three or more operations; distinct = by hash of all observed results plus "
                         "the hash of the schedule trace. " + mod.RULE),
                "samples": agg["samples"] or ["none"],
                "runs_requested": runs,
                "runs_per_hour": round(agg["runs"] / hours),
                "operations": agg["ops"],
                "simulated_time": "the code under test reads no clock; the simulator's clock ticks once per executed "
                                  "line (or bytecode) of library code, counted in scheduling_points",
                "scheduling_points": agg["steps"],
                "in_operation_preemptions": agg["preempts"],
                "distinct_schedule_traces": len(agg["traces"]),
                "distinct_preemption_sites": len(agg["pairs"]),
                "faults_fired_by_kind": agg["fired"],
                "runs_repeated_at_line_granularity_after_interpreter_crash": len(coarse),
                "distinct_fault_sites": len(agg["sites"]),
                "probes": dict(sorted(agg["probes"].items())),
                "components_real": mod.REAL,
                "components_stubbed": mod.STUB,
                "known_findings_seen": agg["known"],
                "workers": workers,
            },
            "assumptions": mod.ASSUME,
            "wall_s": round(time.monotonic() - t0, 2),
            "violations": nviol,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if a.keep_going:
        print("probes", dict(sorted(agg["probes"].items())))
    print("%s: %d runs, %d operations, %d scheduling points, %d preemptions inside operations, faults %s, %.1fs%s" % (
        pid, agg["runs"], agg["ops"], agg["steps"], agg["preempts"], agg["fired"], time.monotonic() - t0,
        "" if status else " -- held"))
    return status


def summary(m):
    return {k: v for k, v in m.items() if isinstance(v, (int, float, str, bool))}


def _one(mod, seed, i, tier, coarse=False):
    prog, ss = gen_program(mod, seed, i, tier)
    if coarse:
        prog["opcodes"] = False
    r = execute(mod, prog, sched_seed=ss)
    if i < 3:
        r["case"] = {"callers": prog["nthreads"], "models": [summary(m) for m in prog.get("models", [])],
                     "first_operations_of_each_caller": json.loads(json.dumps(
                         [ops[:4] for ops in prog["phases"][0]], default=str))}
    r.pop("switches" if not r.get("violation") else "_", None)
    return r
