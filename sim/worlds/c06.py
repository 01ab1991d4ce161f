"""C06: goals solved in one batch do not affect one another."""
import numpy as np

from ..base import call, need, torch
from ..core import Violation
from ..fleet import REAL, STUB, gen_phases  # noqa: F401
from ..ikfleet import (FleetWorld, build_solver, gen_arms, gen_goals, gen_solver, goal_transform, make_goals)

ID = "C06"
RUNS = {"quick": 500, "thorough": 60000}
RULE = ("Program: an arm, 1-2 solvers without cross-batch stopping rules, a pool of goals of which some are poisoned "
        "(not-a-number, infinite, unreachable, flipped, not a rotation); 1-2 callers solve batches made of any subset, "
        "order, multiplicity and size of the pool, and subsets or orders of the attempts, between cancelled solves; each "
        "row is compared with the goal (and attempt) solved alone.")
ASSUME = ["rows whose solo answer moves by more than 1e-3 when its start moves by 1e-9 (double) or 1e-5 (single precision) "
          "are chaotic and not judged; the others must agree within 100 times that sensitivity"]


def gen(rng, tier):
    nt = rng.choice([1, 1, 1, 2])
    models = gen_arms(rng, 1, dtypes=("f64", "f64", "f64", "f32"))
    solvers = []
    for _ in range(rng.choice([1, 1, 2])):
        s = gen_solver(rng, models[0], 0, max_it=(1, 2, 3, 5, 8, 12), early=False, retries=(1, 1, 2, 3, 4))
        s["start"] = "given"
        solvers.append(s)
    pool = gen_goals(rng, rng.choice([3, 5, 8]))
    if not any(k in ("reach", "near") for k in pool):
        pool[0] = "reach"
    p_fault = rng.choice([0, 0, 0.2])
    n = len(pool)

    def make(r, ph, t):
        k = r.random()
        if k < 0.45:
            idx = [r.randrange(n) for _ in range(r.choice([1, 2, 2, 3, 4, 6, 9, 17, 33]))]
        elif k < 0.6:
            idx = [r.randrange(n)] * r.choice([2, 3, 8])
        else:
            idx = list(range(n))
            r.shuffle(idx)
        op = dict(op="batch", s=r.randrange(len(solvers)), idx=idx)
        if r.random() < 0.3:
            R = solvers[op["s"]]["R"]
            a = list(range(R))
            r.shuffle(a)
            op["att"] = a[: r.randint(1, R)]
            if r.random() < 0.3:
                op["att"] = op["att"] + [r.randrange(R)]
        elif r.random() < 0.2:          # every goal its own starting configurations
            op["own"] = r.getrandbits(20)
        if r.random() < p_fault:
            op["fault"] = dict(kind=r.choice(["cancel", "interrupt", "oom", "linalg"]), at=r.randint(1, 600))
        return op

    return dict(nthreads=nt, models=models, solvers=solvers, pool=pool, g=rng.randrange(1000), opcodes=False,
                phases=gen_phases(rng, nt, 1, (2, 5) if nt == 1 else (1, 3), make), max_op_steps=2000000)


FIELDS = ["solutions", "err_pos", "err_rot", "converged", "converged_pos", "converged_rot"]


class W(FleetWorld):
    def setup(self, sim):
        super().setup(sim)
        m = self.models[0]
        self.solvers = [build_solver(s, m) for s in self.prog["solvers"]]
        self.f64 = m.dtype == torch.float64
        self.solo = {}
        self.goals = []
        delta = 1e-9 if self.f64 else 1e-5
        g = np.random.default_rng(self.prog["g"])
        need_ = {(o["s"], i) for ph in self.prog["phases"] for t in ph for o in t for i in o["idx"]}
        for k, s in enumerate(self.prog["solvers"]):
            starts = self.solvers[k].initial_config.detach().to(torch.float64).numpy()
            G, _ = make_goals(self.prog["pool"], self.prog["g"], m.ref, starts, m.dtype)
            self.goals.append(G)
            for i in range(len(G)):
                if (k, i) not in need_:
                    continue
                T = goal_transform(G[i:i + 1], m.dtype)
                rows = []
                for j in range(3):
                    q = torch.tensor(starts + (0 if j == 0 else delta * g.normal(size=starts.shape)), dtype=m.dtype)
                    # every attempt alone as well: attempts must not see one another either
                    per = [build_solver(s, m, retry_configs=q[a:a + 1]).solve(T) for a in range(s["R"])]
                    rows.append({f: np.concatenate([np.asarray(getattr(x, f).detach().numpy(), float) for x in per], 1)[0]
                                 for f in FIELDS})
                self.solo[k, i] = rows

    def spread(self, rows, a):
        b = rows[0]
        out = 0.0
        for r in rows[1:]:
            for f in FIELDS:
                x, y = b[f][a], r[f][a]
                if f.startswith("conv"):
                    if not np.array_equal(x, y):
                        return np.inf
                elif not np.array_equal(np.isnan(x), np.isnan(y)):
                    return np.inf
                else:
                    with np.errstate(all="ignore"):
                        d = np.where((x == y) | (np.isnan(x) & np.isnan(y)), 0, np.abs(x - y) / (1 + 1e-3 * np.abs(x)))
                    out = max(out, float(np.max(d, initial=0)))
        return out

    def op_batch(self, tid, op, sim):
        m = self.models[0]
        k = self.solvers[op["s"]]
        R = self.prog["solvers"][op["s"]]["R"]
        att = op.get("att")
        if att is not None:
            starts = k.initial_config.detach()[att]
            k = build_solver(self.prog["solvers"][op["s"]], m, retry_configs=starts)
        else:
            att = list(range(R))
        atts = [att] * len(op["idx"])
        if "own" in op:
            g = np.random.default_rng(op["own"])
            atts = [[int(x) for x in g.integers(R, size=R)] for _ in op["idx"]]
            starts = k.initial_config.detach().clone()
            k = build_solver(self.prog["solvers"][op["s"]], m)
            k.initial_config = torch.stack([starts[a] for a in atts])
            self.probe("own-starts-per-goal")
        G = self.goals[op["s"]][op["idx"]]
        T = goal_transform(G, m.dtype)
        what = "batch solve (op %s, caller %d, solver %d, goals %s, attempts %s)" % (op["id"], tid, op["s"], op["idx"], atts if "own" in op else att)
        out = call(sim, lambda: k.solve(T), fault=op.get("fault"))
        self.note(tid, op["id"], out.kind())
        if out.fired:
            self.after_fault(out, what)
            return
        sol = need(out, what)
        got = {f: np.asarray(getattr(sol, f).detach().numpy(), float) for f in FIELDS}
        for f in FIELDS:
            if got[f].shape[:2] != (len(G), len(att)):
                raise Violation("wrong-shape", "%s: %s has shape %s" % (what, f, got[f].shape))
        for b, i in enumerate(op["idx"]):
            rows = self.solo[op["s"], i]
            for c, a in enumerate(atts[b]):
                sp = self.spread(rows, a)
                if not sp <= 1e-3:
                    self.probe("rows-chaotic")
                    continue
                tol = 100 * sp + (1e-8 if self.f64 else 1e-4)
                for f in FIELDS:
                    x, y = rows[0][f][a], got[f][b][c]
                    with np.errstate(all="ignore"):
                        ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol * (1 + 1e-3 * np.abs(x)))
                    if not np.all(ok):
                        raise Violation("rows-not-independent", "%s: row %d (goal %d, %s) attempt %d: %s = %s, alone %s "
                                        "(tolerance %.2g)" % (what, b, i, self.prog["pool"][i], a, f,
                                                              np.array2string(np.asarray(y), precision=7),
                                                              np.array2string(np.asarray(x), precision=7), tol))
                self.probe("rows-compared")
                if self.prog["pool"][i] in ("nan", "inf", "badrot"):
                    self.probe("poisoned-rows-compared")
        self.hold(what, sol)
