"""C04: an inverse-kinematics result never claims more than it achieved."""
import numpy as np

from ..base import call, need, torch
from ..core import Violation
from ..fleet import REAL, STUB, build_model, gen_fk_op, gen_jac_op, gen_phases
from ..ikfleet import (FleetWorld, build_solver, check_solution, gen_arms, gen_goals, gen_solver, goal_transform,
                       make_goals)

ID = "C04"
RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("Program: 1-2 arms, 1-3 solvers with swarm-drawn options (both kernels, line search, damping, weights, every "
        "early-stopping rule, limit enforcement, clamping, given or randomly drawn starts), 1-3 callers solving batches "
        "of reachable, near, at-start, unreachable, flipped, infinite and not-a-number goals, with cancelled solves "
        "before them; each returned configuration is re-evaluated with the numpy reference and compared with every "
        "claim in the result.")
ASSUME = ["errors within the evaluation noise of the tolerance (2.5e-5 of reach in single, 8e-6 in double precision) are "
          "not judged", "limits are respected up to single-precision rounding (the library stores them in single precision)"]


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 3])
    models = gen_arms(rng, rng.choice([1, 1, 2]))
    solvers = []
    for _ in range(rng.choice([1, 2, 3])):
        mi = rng.randrange(len(models))
        solvers.append(gen_solver(rng, models[mi], mi))
    p_fault = rng.choice([0, 0, 0.2])
    clean = rng.random() < 0.4

    def make(r, ph, t):
        if r.random() < 0.15:
            return gen_fk_op(r, models, big=False) if r.random() < 0.5 else \
                gen_jac_op(r, models, list(range(len(models))), big=False)
        kinds = ["reach", "near", "start"] if clean else None
        op = dict(op="solve", s=r.randrange(len(solvers)), goals=gen_goals(r, r.choice([1, 1, 2, 3, 4, 7, 12]), kinds),
                  g=r.randrange(40))
        if r.random() < p_fault:
            op["fault"] = dict(kind=r.choice(["cancel", "interrupt", "oom", "linalg"]), at=r.randint(1, 900))
        return op

    return dict(nthreads=nt, models=models, solvers=solvers, opcodes=False, torch_seed=rng.randrange(1 << 30),
                phases=gen_phases(rng, nt, 1, (1, 4), make), max_op_steps=400000)


class W(FleetWorld):
    def setup(self, sim):
        super().setup(sim)
        self.solvers = [build_solver(s, self.models[s["m"]]) for s in self.prog["solvers"]]
        self.starts = [k.initial_config.detach().to(torch.float64).numpy().copy() for k in self.solvers]

    def op_solve(self, tid, op, sim):
        s = self.prog["solvers"][op["s"]]
        m = self.models[s["m"]]
        goals, ok = make_goals(op["goals"], op["g"], m.ref, self.starts[op["s"]], m.dtype)
        T = goal_transform(goals, m.dtype)
        what = "solve (op %s, caller %d, solver %d, %d goals)" % (op["id"], tid, op["s"], len(goals))
        out = call(sim, lambda: self.solvers[op["s"]].solve(T), fault=op.get("fault"))
        self.note(tid, op["id"], out.kind())
        if out.fired:
            self.after_fault(out, what)
            return
        sol = need(out, what)
        check_solution(self, m, s, goals, ok, sol, what)
        self.hold(what, sol)
        self.probe("solves")
