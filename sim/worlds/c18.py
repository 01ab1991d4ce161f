"""C18: an inverse-kinematics solve makes progress: what is within reach of its budget is found."""
import numpy as np

from .. import base
from ..base import call, need, torch
from ..core import Violation
from ..fleet import REAL, STUB, gen_fk_op, gen_jac_op, gen_phases
from ..ikfleet import (FleetWorld, build_solver, check_solution, gen_arms, gen_goals, gen_solver, goal_transform,
                       make_goals)

ID = "C18"
RUNS = {"quick": 1300, "thorough": 40000}
RULE = ("Program: 1-2 arms, 1-3 solvers with swarm-drawn options, 1-3 callers solving batches in which goals that some "
        "starting configuration meets already, or nearly meets at a well-conditioned configuration, are mixed with "
        "unreachable, flipped and not-a-number ones, between queries and solves that were cancelled or failed at a random "
        "library line or tensor operation. Judged: those goals are solved within the budget, no finite start and goal "
        "ends in a not-a-number, and on the reference arm most of the random reachable goals are solved.")
ASSUME = ["'nearly meets': within 0.01 rad / 0.01 m per joint of a start whose Jacobian has smallest singular value above 0.1, "
          "where the Newton steps contract; iterations left for a factor 4 below the tolerance",
          "with limits enforced or steps clamped, the goal's configuration and the start lie inside the limits",
          "stopping rules that give up on a goal because another attempt stalls are not judged for that goal's other attempts"]


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 3])
    models = gen_arms(rng, rng.choice([1, 1, 2]), min_dof=3)
    solvers = []
    for _ in range(rng.choice([1, 2, 3])):
        mi = rng.randrange(len(models))
        s = gen_solver(rng, models[mi], mi, max_it=(1, 2, 6, 10, 15, 30), retries=(1, 1, 2, 3, 5, 8))
        if rng.random() < 0.5:
            s.update(lr=1.0, ls=None, reg=rng.choice([1e-9, 1e-6]), noimp=rng.choice([None, None, "any"]))
        if rng.random() < 0.15:
            s.update(start="given", R=8, max_iterations=60, lr=1.0, ls=None, reg=1e-9, lm=0.1, noimp=None, any=False,
                     clamp=False, w=[1.0, 1.0], tol=[1e-3, 1e-2], enforce=rng.random() < 0.5, refine=10)
        solvers.append(s)
    p_fault = rng.choice([0, 0.2, 0.4])

    def make(r, ph, t):
        k = r.random()
        if k < 0.1:
            return gen_fk_op(r, models, big=False) if r.random() < 0.5 else \
                gen_jac_op(r, models, list(range(len(models))), big=False)
        s = r.randrange(len(solvers))
        n = r.choice([1, 1, 2, 3, 4, 7, 12])
        if solvers[s]["max_iterations"] == 60:
            n = r.choice([12, 20])
            kinds = ["reach"] * n
        else:
            other = gen_goals(r, n)
            kinds = [r.choice(["at", "close", "close"]) if r.random() < 0.6 else other[i] for i in range(n)]
        op = dict(op="solve", s=s, goals=kinds, g=r.randrange(1 << 20))
        if r.random() < p_fault:
            on = r.choice(["line", "op"])
            op["fault"] = dict(kind=r.choice(["cancel", "interrupt", "oom", "linalg"]), on=on,
                               at=r.randint(1, 900) if on == "line" else r.randint(1, 2500))
        return op

    return dict(nthreads=nt, models=models, solvers=solvers, opcodes=False, torch_seed=rng.randrange(1 << 30),
                phases=gen_phases(rng, nt, rng.choice([1, 1, 2]), (1, 4) if nt > 1 else (2, 6), make), max_op_steps=600000)


class W(FleetWorld):
    def setup(self, sim):
        super().setup(sim)
        self.solvers = [build_solver(s, self.models[s["m"]]) for s in self.prog["solvers"]]
        self.starts = [k.initial_config.detach().to(torch.float64).numpy().copy() for k in self.solvers]
        self.sv = []
        for s, st in zip(self.prog["solvers"], self.starts):
            m = self.models[s["m"]]
            w = np.array([s["w"][0]] * 3 + [s["w"][1]] * 3)
            J = m.ref.jac(st)[0] * w[None, :, None]
            self.sv.append(np.linalg.svd(J, compute_uv=False).min(-1) if m.ref.n >= 6 else np.zeros(len(st)))

    def goals(self, op):
        s = self.prog["solvers"][op["s"]]
        m = self.models[s["m"]]
        st = self.starts[op["s"]]
        plain = [k if k not in ("at", "close") else "start" for k in op["goals"]]
        T, ok = make_goals(plain, op["g"], m.ref, st, m.dtype)
        who = []
        for i, k in enumerate(op["goals"]):
            if k not in ("at", "close"):
                who.append(None)
                continue
            g = np.random.default_rng([op["g"], i, 5])
            a = int(g.integers(len(st)))
            q = st[a].copy()
            if k == "close":
                q += g.uniform(-0.01, 0.01, size=len(q))
            T[i] = m.ref.fk_of(q[None], m.ref.tip)[0]
            if m.dtype == torch.float32:
                T[i] = T[i].astype(np.float32).astype(float)
            who.append((k, a, q))
        return T, ok, who

    def judged(self, op, k, a, q):
        """None, or True if attempt a has to converge on this goal."""
        s = self.prog["solvers"][op["s"]]
        m = self.models[s["m"]]
        st = self.starts[op["s"]][a]
        tol = min(s["tol"])
        eps = 1.2e-7 if m.dtype == torch.float32 else 2.3e-16
        noise = (2.5e-5 if m.dtype == torch.float32 else 8e-6) * m.ref.reach + 8 * eps * m.ref.n * np.abs(st).max() * m.ref.reach
        if tol < 8 * noise:
            return False
        good = self.sv[op["s"]][a] > 0.1
        lo, hi = np.array(m.ref.limits()[0]), np.array(m.ref.limits()[1])
        inside = ((np.minimum(st, q) >= lo + 1e-5) & (np.maximum(st, q) <= hi - 1e-5)).all()
        if s["enforce"] and (not inside or (s["refine"] and not (good and s["lr"] <= 1.0))):
            return False
        if k == "at":
            return True
        roomy = ((np.minimum(st, q) >= lo + 0.05) & (np.maximum(st, q) <= hi - 0.05)).all()
        if not good or s["ls"] is not None or s["reg"] > 1e-6 or ((s["clamp"] or s["enforce"]) and not roomy):
            return False
        if s["noimp"] not in (None, "any") and s["R"] > 1:
            return False
        # first error, then a factor (1 - lr) per step, plus what damping leaves over
        e = 0.01 * np.sqrt(m.ref.n) * (m.ref.reach + 1) * max(s["w"]) * 1.5
        sv2 = self.sv[op["s"]][a] ** 2
        for _ in range(s["max_iterations"]):
            if e < tol * min(s["w"]) / 4:
                return True
            e = e * (1 - s["lr"] + s["lr"] * (s["lm"] * e * e + s["reg"]) / (sv2 + s["lm"] * e * e) * 2) \
                + 3 * (m.ref.reach + 1) * e * e * 0.1
        return False

    def op_solve(self, tid, op, sim):
        s = self.prog["solvers"][op["s"]]
        m = self.models[s["m"]]
        goals, ok, who = self.goals(op)
        T = goal_transform(goals, m.dtype)
        what = "solve (op %s, caller %d, solver %d, %d goals)" % (op["id"], tid, op["s"], len(goals))
        out = call(sim, lambda: self.solvers[op["s"]].solve(T), fault=op.get("fault"))
        self.note(tid, op["id"], out.kind())
        if out.fired:
            self.after_fault(out, what)
            return
        sol = need(out, what)
        conv = check_solution(self, m, s, goals, ok, sol, what)
        q = sol.solutions.detach().numpy()
        if s["reg"] >= 1e-9 and not np.isfinite(q[ok]).all() and np.isfinite(self.starts[op["s"]]).all():
            i = [k for k in range(len(goals)) if ok[k] and not np.isfinite(q[k]).all()][0]
            raise Violation("not-a-number", "%s: goal %d (%s) and the starts are finite, the answer is %s" % (
                what, i, op["goals"][i], q[i].tolist()))
        for i, x in enumerate(who):
            if x is None or not self.judged(op, *x):
                continue
            self.probe("judged-%s" % x[0])
            if not (conv[i].any() if s["any"] else conv[i, x[1]]):
                raise Violation("no-progress", "%s: goal %d is %s start %d, but attempt %d is off by %.4g / %.4g after %d "
                                "iterations of %d (tolerances %s)" % (
                                    what, i, "exactly at" if x[0] == "at" else "0.01 from", x[1], x[1],
                                    float(sol.err_pos[i, x[1]]), float(sol.err_rot[i, x[1]]), sol.iterations,
                                    s["max_iterations"], s["tol"]))
        if s["max_iterations"] == 60 and len(m.spec["frames"]) and m.spec["frames"][0]["name"] == "base" and m.ref.n == 7 \
                and m.ref.reach > 0.5:
            n = int(conv.any(1).sum())
            base_ = "random-goals-%s" % ("enforced" if s["enforce"] else "free")
            self.probe(base_, len(goals))
            self.probe(base_ + "-solved", n)
            if n < 0.75 * len(goals):
                raise Violation("no-progress", "%s: only %d of %d random reachable goals solved" % (what, n, len(goals)))
        self.hold(what, sol)
        self.probe("solves")
