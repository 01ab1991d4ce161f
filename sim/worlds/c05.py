"""C05: an inverse-kinematics solve does not depend on other solves."""
import numpy as np  # noqa: F401

from ..base import call, fork_eval, need, near, same, snap, torch
from ..core import Violation
from ..fleet import REAL, STUB, gen_bad_op, gen_fk_op, gen_jac_op, gen_phases  # noqa: F401
from ..ikfleet import FleetWorld, build_solver, gen_arms, gen_goals, gen_solver, goal_transform, make_goals

ID = "C05"
RUNS = {"quick": 850, "thorough": 40000}
RULE = ("Program: 1-2 arms, 1-3 solvers (several on one arm), 1-3 callers solving a few goal batches over and over (up to 110 times in a row), in "
        "any order and at the same time, between queries, random draws by the callers, rejected requests, and solves "
        "cancelled or failing at a random library line or tensor operation; every solve is compared with the same solve "
        "done first thing in a fresh copy of the process, and the global random stream and the starting configurations "
        "are compared with what the callers' own draws leave.")
ASSUME = ["a solve repeated on equal inputs is bit-for-bit repeatable in one process (differences up to 1e-9 relative are "
          "accepted)", "models are not converted while solves are pending"]


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 2, 3])
    models = gen_arms(rng, rng.choice([1, 1, 2]))
    solvers = []
    for _ in range(rng.choice([1, 2, 3])):
        mi = rng.randrange(len(models))
        s = gen_solver(rng, models[mi], mi, max_it=(1, 2, 4, 8, 15))
        if solvers and rng.random() < 0.3:   # same arm and shape, different settings
            s = dict(rng.choice(solvers), seed=rng.randrange(1000), noimp=rng.choice([None, "any", "all", 0.5]),
                     any=rng.random() < 0.5, enforce=rng.random() < 0.5)
        solvers.append(s)
    sets = []
    for k in range(rng.choice([2, 3, 4])):
        s = rng.randrange(len(solvers))
        n = rng.choice([1, 1, 2, 3, 5, 8])
        sets.append(dict(s=s, kinds=gen_goals(rng, n), g=rng.randrange(40)))
    p_fault = rng.choice([0, 0.15, 0.35])
    p_bad = rng.choice([0, 0.1])

    def make(r, ph, t):
        k = r.random()
        if k < 0.10:
            return gen_fk_op(r, models, big=False) if r.random() < 0.5 else \
                gen_jac_op(r, models, list(range(len(models))), big=False)
        if k < 0.16:
            return dict(op="draw", n=r.randint(1, 5), how=r.choice(["rand", "randn", "perm"]))
        if k < 0.16 + p_bad:
            return dict(op="badsolve", s=r.randrange(len(solvers)),
                        bad=r.choice(["none", "shape", "string", "points", "clear"]))
        if r.random() < 0.012:
            return dict(op="soak", n=r.choice([12, 40, 110]), set=r.randrange(len(sets)))
        op = dict(op="solve", set=r.randrange(len(sets)))
        if r.random() < p_fault:
            on = r.choice(["line", "line", "op"])
            op["fault"] = dict(kind=r.choice(["cancel", "interrupt", "oom", "linalg"]), on=on,
                               at=r.randint(1, 900) if on == "line" else r.randint(1, 2500))
        return op

    return dict(nthreads=nt, models=models, solvers=solvers, sets=sets, opcodes=rng.random() < 0.05,
                torch_seed=rng.randrange(1 << 30),
                phases=gen_phases(rng, nt, rng.choice([1, 1, 2]), (1, 4) if nt > 1 else (3, 8), make),
                max_op_steps=2000000)


class W(FleetWorld):
    def build(self):
        super().setup(None)
        self.solvers = [build_solver(s, self.models[s["m"]]) for s in self.prog["solvers"]]

    def target(self, i):
        st = self.prog["sets"][i]
        m = self.models[self.prog["solvers"][st["s"]]["m"]]
        goals, _ = make_goals(st["kinds"], st["g"], m.ref, self.starts[st["s"]], m.dtype)
        return goal_transform(goals, m.dtype)

    def take_starts(self):
        self.starts = [k.initial_config.detach().to(torch.float64).numpy().copy() for k in self.solvers]
        self.start_snap = [snap(k.initial_config) for k in self.solvers]
        self.lim_snap = [snap((k.chain.low, k.chain.high)) for k in self.solvers]

    def setup(self, sim):
        def pristine(i):
            def fn():
                self.build()
                self.take_starts()
                T = self.target(i)
                try:
                    v = ("ok", snap(self.solvers[self.prog["sets"][i]["s"]].solve(T)))
                except Exception as e:  # noqa: BLE001
                    v = ("raises", type(e).__name__)
                return v, self.start_snap
            return fork_eval(fn)
        used = sorted({o["set"] for ph in self.prog["phases"] for t in ph for o in t if "set" in o})
        base = {i: pristine(i) for i in used}
        self.want = {i: b[0] for i, b in base.items()}
        self.build()
        self.take_starts()
        for i, b in base.items():
            for a, c in zip(b[1], self.start_snap):
                if not same(a, c):
                    raise Violation("irreproducible-start", "building the same solvers from the same seed in a fresh "
                                    "process drew other starting configurations")
        self.rng = torch.get_rng_state()

    def check_globals(self, what):
        if not torch.equal(torch.get_rng_state(), self.rng):
            raise Violation("random-stream-disturbed", "the global random stream moved during %s" % what)
        for k, s, a in zip(self.solvers, self.start_snap, range(99)):
            if not same(snap(k.initial_config), s):
                raise Violation("start-altered", "the starting configurations of solver %d changed during %s" % (a, what))
        for k, s, a in zip(self.solvers, self.lim_snap, range(99)):
            if not same(snap((k.chain.low, k.chain.high)), s):
                raise Violation("limits-altered", "the joint limits of the model of solver %d changed during %s" % (a, what))

    def exec_op(self, tid, op, sim):
        super().exec_op(tid, op, sim)
        self.check_globals("op %s of caller %d" % (op["id"], tid))

    def op_draw(self, tid, op, sim):
        f = {"rand": torch.rand, "randn": torch.randn, "perm": torch.randperm}[op["how"]]
        self.note(tid, op["id"], float(f(op["n"]).sum()))
        self.rng = torch.get_rng_state()
        self.probe("caller-draws")

    def op_badsolve(self, tid, op, sim):
        k = self.solvers[op["s"]]
        b = op["bad"]
        if b == "clear":
            need(call(sim, k.clear), "clear")
            return
        fn = {"none": lambda: k.solve(None), "string": lambda: k.solve("goal"),
              "points": lambda: k.solve(torch.zeros(3, 3)),
              "shape": lambda: k.solve(goal_transform(np.full((0, 4, 4), 1.0), torch.float32))}[b]
        out = call(sim, fn)
        self.note(tid, op["id"], out.kind())
        self.probe("bad-solve-%s" % ("rejected" if out.exc is not None else "tolerated"))

    def op_soak(self, tid, op, sim):
        """The hundredth solve is the first."""
        sets = sorted(self.want)
        one = dict(id=op["id"], op="solve")
        for i in range(op["n"]):
            mine = [x for x in sets if self.prog["sets"][x]["s"] == self.prog["sets"][op["set"]]["s"]]
            self.op_solve(tid, dict(one, set=mine[i % len(mine)]), sim)
        self.probe("soaks")

    def op_solve(self, tid, op, sim):
        st = self.prog["sets"][op["set"]]
        what = "solve (op %s, caller %d, solver %d, goal set %d)" % (op["id"], tid, st["s"], op["set"])
        T = self.target(op["set"])
        k = self.solvers[st["s"]]
        out = call(sim, lambda: k.solve(T), fault=op.get("fault"))
        self.note(tid, op["id"], out.kind())
        if out.fired:
            self.after_fault(out, what)
            return
        kind, want = self.want[op["set"]]
        if kind == "raises":
            if out.exc is None or type(out.exc).__name__ != want:
                raise Violation("depends-on-history", "%s: %s, but %s when done first" % (what, out.kind(), want))
            return
        sol = need(out, what)
        got = snap(sol)
        if not same(got, want):
            if not near(got, want, 1e-9):
                f = [n for n in want[1] if not same(got[1][n], want[1][n])]
                raise Violation("depends-on-history", "%s: %s differ from the same solve done first in a fresh process" % (
                    what, ", ".join(f)))
            self.probe("solves-equal-up-to-rounding")
        self.hold(what, sol)
        self.probe("solves-compared")
