"""C07: an operation that fails or is cancelled leaves no trace."""
import numpy as np

from .. import base, robots
from ..base import call, fork_eval, measure, near, need, pk, same, snap, torch
from ..core import Violation
from ..fleet import REAL, STUB, Model, gen_B, gen_models, gen_phases, build_model  # noqa: F401
from ..ikfleet import FleetWorld, build_solver, gen_arms, gen_goals, gen_solver, goal_transform, make_goals
from ..robots import RefModel, homog, random_rotation

ID = "C07"
RUNS = {"quick": 700, "thorough": 80000}
RULE = ("Program: 1-3 models and 0-2 solvers shared by 1-3 callers running pose, Jacobian, gradient, solve, load, "
        "extraction, structure and transform operations, a third of them failed at a uniformly drawn executed line, "
        "bytecode or tensor operation (cancellation, interrupt, allocation failure, numerical-library failure) or by bad "
        "arguments or raising callbacks; every later result, retries included, is compared with a fresh copy of the "
        "process in which the failed operations were never attempted.")
ASSUME = ["operations are repeatable bit for bit within one process image (differences up to 1e-9 relative in double, 1e-5 "
          "in single precision are accepted)", "an interrupted precision conversion is decided under C09"]

BAD = ["too_few", "too_many", "unknown_name", "missing_name", "bad_frame", "none", "string", "jac_str", "jac_tool",
       "bad_extract", "bad_root", "bad_doc", "bad_mjcf", "bad_starts", "bad_sampler", "cb_raises", "ls_raises", "bad_goal",
       "bad_compose", "bad_points", "bad_clamp", "missing_name", "missing_name", "jac_missing", "dtype_mix", "tool_mix",
       "bad_index", "jagged", "bad_axis", "goal_other", "clamp_missing"]


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 3])
    models = gen_models(rng, rng.choice([1, 1, 2]), min_dof=1)
    arms = gen_arms(rng, 1) if rng.random() < 0.6 else []
    models = models + arms
    solvers = []
    if arms:
        for _ in range(rng.choice([1, 1, 2])):
            solvers.append(gen_solver(rng, arms[0], len(models) - 1, max_it=(1, 2, 4, 8), retries=(1, 2, 3)))
            solvers[-1]["start"] = "given"
    p = rng.choice([0.2, 0.4, 0.6])
    keys = []
    sticky = rng.random() < 0.5

    def make(r, ph, t):
        k = r.random()
        mi = r.randrange(len(models))
        ser = models[mi]["kind"] == "serial"
        op = dict(m=mi, q=r.randrange(5), B=r.choice([1, 1, 2, 3, 5, 9]))
        if k < 0.22:
            op.update(op="fk", form=r.choice(base.FORMS_CHAIN), sel=r.getrandbits(16),
                      via=r.choice(["all", "all", "indices", "tensor"]))
        elif k < 0.36:
            op.update(op="jac" if ser else "fk", form=r.choice(["t2", "rg", "np2", "list", "dict_t"]), via="all",
                      tool=r.choice([None, "p3", "pB", "tf"]), ret=r.random() < 0.5, sel=r.getrandbits(16))
        elif k < 0.44:
            op.update(op="fwd", key=len(keys), sel=r.getrandbits(16))
            keys.append(len(keys))
        elif k < 0.54 and keys:
            op = dict(op="bwd", key=r.choice(keys[-4:]), w=r.randrange(9), double=r.random() < 0.2)
        elif k < 0.72 and solvers:
            op = dict(op="solve", s=r.randrange(len(solvers)), goals=gen_goals(r, r.choice([1, 2, 4])), g=r.randrange(20),
                      fresh=r.random() < 0.25)
        elif k < 0.80:
            op.update(op="load")
        elif k < 0.86:
            op.update(op="extract", pair=r.getrandbits(16), d64=r.random() < 0.3)
        elif k < 0.92:
            op.update(op="tf", sel=r.getrandbits(16))
        else:
            op.update(op="names", sel=r.getrandbits(16))
        if r.random() < p:
            if r.random() < 0.3:
                op = dict(op="bad", bad=r.choice(BAD), m=mi, q=op.get("q", 0), s=r.getrandbits(16))
            else:
                on = r.choice(["line", "line", "op"])
                op["fault"] = dict(kind=r.choice(["cancel", "interrupt", "oom", "linalg", "memerr"]), on=on,
                                   frac=r.random() if r.random() < 0.85 else r.choice([0.0, 0.999]))
                op["retry"] = r.random() < (0.8 if sticky else 0.4)
        return op

    fine = rng.random() < 0.15
    seed = rng.randrange(1 << 30)
    phases = gen_phases(rng, nt, rng.choice([1, 1, 2]), (2, 6) if nt > 1 else (4, 12), make)
    # CPython 3.12 crashes when bytecode tracing meets the recursive loaders in several threads
    fine = fine and not any(o["op"] in ("load", "extract", "bad") for ph in phases for t in ph for o in t)
    return dict(nthreads=nt, models=models, solvers=solvers, opcodes=fine, torch_seed=seed, phases=phases,
                max_op_steps=4000000)


class Boom(Exception):
    pass


class W(FleetWorld):
    def build(self):
        super().setup(None)
        self.solvers = [build_solver(s, self.models[s["m"]]) for s in self.prog["solvers"]]
        self.starts = [k.initial_config.detach().to(torch.float64).numpy().copy() for k in self.solvers]
        self.pend = {}

    def setup(self, sim):
        self.build()
        self.want, self.len = fork_eval(self.reference_universe, timeout=140)

    def reference_universe(self):
        want, length = {}, {}
        for op in [o for ph in self.prog["phases"] for t in ph for o in t if o["op"] == "fwd"]:
            if not op.get("fault") or op["retry"]:
                self.plain(op)   # another caller may differentiate it before its own turn comes here
        for ph in self.prog["phases"]:
            for ops in ph:
                for op in ops:
                    if op["op"] == "bad":
                        continue
                    if op.get("fault"):
                        fn = self.thunk(op)
                        length[op["id"]] = fork_eval(lambda: measure(fn, self.prog["opcodes"]))
                    want[op["id"]] = None
                    if not op.get("fault") or op["retry"]:
                        want[op["id"]] = self.plain(op)
                    elif op["op"] == "fwd":
                        # never attempted: but if the failure does not fire the result is judged by its own value
                        want[op["id"]] = fork_eval(lambda: self.plain(op))
                    else:
                        want[op["id"]] = fork_eval(lambda: self.plain(op))
        want["end"] = [snap(self.final(m)) for m in self.models]
        return want, length

    def plain(self, op):
        try:
            return ("ok", snap(self.thunk(op)()))
        except Exception as e:  # noqa: BLE001
            return ("raises", type(e).__name__)

    def exec_op(self, tid, op, sim):
        what = "%s (op %s, caller %d)" % (op["op"] if op["op"] != "bad" else "bad request " + op["bad"], op["id"], tid)
        if op["op"] == "bad":
            out = call(sim, self.bad_thunk(op))
            self.note(tid, op["id"], out.kind())
            if out.exc is None and op["bad"] not in ("bad_starts", "bad_goal", "jac_tool", "too_many", "bad_points",
                                                     "bad_clamp", "ls_raises", "too_few",
                                                     "dtype_mix", "tool_mix", "goal_other"):
                raise Violation("bad-request-accepted", "%s was accepted" % what)
            self.probe("bad-%s-%s" % (op["bad"], "rejected" if out.exc is not None else "tolerated"))
            return
        if op["op"] == "bwd" and op["key"] not in self.pend:
            self.probe("nothing-pending")
            return
        f = op.get("fault")
        if f:
            n, k = self.len[op["id"]]
            tot = n if f["on"] == "line" else k
            f = dict(kind=f["kind"], on=f["on"], at=1 + int(f["frac"] * max(tot, 1)))
        out = call(sim, self.thunk(op), fault=f)
        self.note(tid, op["id"], out.kind())
        if out.fired:
            self.after_fault(out, what)
            if not op["retry"]:
                return
            self.probe("retries")
            what = "retried " + what
            out = call(sim, self.thunk(op))
            self.note(tid, op["id"], out.kind())
        self.judge(op, out, what)

    def judge(self, op, out, what):
        kind, want = self.want[op["id"]]
        if kind == "raises":
            if out.exc is None or type(out.exc).__name__ != want:
                raise Violation("trace-left", "%s: %s, but %s had no operation failed" % (what, out.kind(), want))
            return
        if op["op"] == "bwd" and want == ("V", "None"):
            self.probe("nothing-pending")
            return
        v = need(out, what + " (fine had no operation failed)")
        got = snap(v)
        self.compare(got, want, what)
        self.hold(what, v)

    def compare(self, got, want, what):
        if not same(got, want):
            f32 = any(m.dtype == torch.float32 for m in self.models)
            if not near(got, want, 1e-5 if f32 else 1e-9):
                raise Violation("trace-left", "%s differs from what it gives had no operation failed (%s)" % (
                    what, base.diff(got, want)))
            self.probe("equal-up-to-rounding")
        self.probe("results-compared")

    def finish(self, sim):
        for m, w, i in zip(self.models, self.want["end"], range(99)):
            self.compare(snap(self.final(m)), w, "final state of model %d" % i)
        super().finish(sim)

    def final(self, m):
        c = m.obj
        q = torch.tensor(base.gen_q(7, m.ref, 3), dtype=m.dtype)
        out = [c.forward_kinematics_tensor(q), c.get_joint_parameter_names(), c.get_frame_names(exclude_fixed=False),
               c.get_joint_limits(), c.low, c.high, str(c.dtype), str(c)]
        if m.kind == "serial":
            out.append(c.jacobian(q))
        return out

    # -- operations -----------------------------------------------------------------------------------------
    def thunk(self, op):
        return getattr(self, "t_" + op["op"])(op)

    def t_fk(self, op):
        m = self.models[op["m"]]
        c = m.obj
        th, _ = self.inp(0, m, op)
        via = op["via"]
        ser = m.kind == "serial"
        if op["form"] in ("t1", "np1", "np2", "list", "dict_t", "dict_n", "dict_f", "dict_mix", "dict_s", "np32") and via == "tensor":
            via = "all"
        if via == "tensor":
            return lambda: c.forward_kinematics_tensor(th)
        if ser:
            e = via == "indices"
            return lambda: c.forward_kinematics(th, end_only=e)
        if via == "all":
            return lambda: c.forward_kinematics(th)
        g = np.random.default_rng(op["sel"])
        names = [m.ref.names[i] for i in g.permutation(len(m.ref.names))[: int(g.integers(1, len(m.ref.names) + 1))]]
        return lambda: c.forward_kinematics(th, frame_indices=c.get_frame_indices(*names))

    def t_jac(self, op):
        m = self.models[op["m"]]
        th, q = self.inp(0, m, op)
        g = np.random.default_rng(op["sel"])
        t = None
        if op["tool"] == "p3":
            t = torch.tensor(g.normal(size=3), dtype=m.dtype)
        elif op["tool"] == "pB":
            t = torch.tensor(g.normal(size=(len(q), 3)), dtype=m.dtype)
        elif op["tool"] == "tf":
            t = pk.Transform3d(matrix=torch.tensor(homog(random_rotation(g), g.normal(size=3)), dtype=m.dtype))
        return lambda: m.obj.jacobian(th, locations=t, ret_eef_pose=op["ret"])

    def t_fwd(self, op):
        m = self.models[op["m"]]
        th = torch.tensor(self.q_of(m, op), dtype=m.dtype).requires_grad_(True)

        def fn():
            T = m.obj.forward_kinematics_tensor(th)
            self.pend[op["key"]] = (th, T)
            return T
        return fn

    def t_bwd(self, op):
        def fn():
            if op["key"] not in self.pend:
                return None
            th, T = self.pend[op["key"]]
            w = torch.tensor(np.random.default_rng(op["w"]).normal(size=tuple(T.shape)), dtype=T.dtype)
            if not op["double"]:
                return torch.autograd.grad((T * w).sum(), [th], retain_graph=True)[0]
            g, = torch.autograd.grad((T * w).sum(), [th], create_graph=True)
            h, = torch.autograd.grad(g.square().sum(), [th], retain_graph=True)
            return h
        return fn

    def t_solve(self, op):
        s = self.prog["solvers"][op["s"]]
        m = self.models[s["m"]]
        goals, _ = make_goals(op["goals"], op["g"], m.ref, self.starts[op["s"]], m.dtype)
        T = goal_transform(goals, m.dtype)
        if op["fresh"]:
            return lambda: build_solver(s, m).solve(T)
        return lambda: self.solvers[op["s"]].solve(T)

    def t_load(self, op):
        d = self.prog["models"][op["m"]]

        def fn():
            m = build_model(d)
            return self.final(m)
        return fn

    def t_extract(self, op):
        m = self.models[op["m"]]
        pairs = m.ref.path_pairs()
        root, tip = pairs[op["pair"] % len(pairs)]
        kw = dict(dtype=torch.float64) if op["d64"] else {}

        def fn():
            c = pk.SerialChain(m.obj, tip, root, **kw)
            ref = RefModel(m.spec, root=root, tip=tip)
            return self.final(Model(c, ref, c.dtype, "serial", m.spec, None))
        return fn

    def t_tf(self, op):
        g = np.random.default_rng(op["sel"])
        dt = torch.float64
        A, B = [pk.Transform3d(matrix=torch.tensor(homog(random_rotation(g), g.normal(size=3)), dtype=dt))
                for _ in range(2)]
        p = torch.tensor(g.normal(size=(4, 3)), dtype=dt)
        return lambda: [A.compose(B), A.inverse(), A.translate(1.0, 2.0, 3.0), A.transform_points(p),
                        A.transform_normals(p), A.stack(B), A.to(torch.float32), pk.transforms.random_rotations]

    def t_names(self, op):
        m = self.models[op["m"]]
        c = m.obj
        n = m.ref.names[op["sel"] % len(m.ref.names)]
        return lambda: [c.get_joint_parameter_names(), c.get_frame_names(exclude_fixed=False), c.get_joint_limits(),
                        c.get_link_names(), [j.name for j in c.get_joints()], c.get_frame_indices(n),
                        c.find_frame(n).name, c.get_all_frame_indices(), c.print_tree(do_print=False),
                        [(j.name, [x.name for x in l]) for j, l in c.get_joints_and_child_links()],
                        c.clamp(torch.full((2, m.ref.n), 9.0, dtype=m.dtype))]

    # -- bad requests ---------------------------------------------------------------------------------------
    def bad_thunk(self, op):
        m = self.models[op["m"]]
        c = m.obj
        b = op["bad"]
        n = m.ref.n
        t = torch.tensor(base.gen_q(op["q"], m.ref, 2), dtype=m.dtype)
        ser = next((x for x in self.models if x.kind == "serial"), None)
        if b in ("jac_str", "jac_tool") and ser is None:
            b = "string"
        if b in ("bad_starts", "bad_sampler", "cb_raises", "ls_raises", "bad_goal", "goal_other") and not self.solvers:
            b = "none"
        if b == "jac_str":
            return lambda: ser.obj.jacobian("joints")
        if b == "jac_tool":
            return lambda: ser.obj.jacobian(torch.zeros(3, ser.ref.n, dtype=ser.dtype), locations=torch.zeros(2, 5))
        if b == "bad_extract":
            return lambda: pk.SerialChain(c, "no such frame")
        if b == "bad_root":
            return lambda: pk.SerialChain(c, m.ref.names[-1], "no such frame")
        if b == "bad_doc":
            doc = robots.emit(m.spec)
            return lambda: pk.build_chain_from_urdf(doc[: max(30, len(doc) * (op["s"] % 97) // 100)])
        if b == "bad_mjcf":
            return lambda: pk.build_chain_from_mjcf("<mujoco><worldbody><body name='a'><joint type='no' axis='0 0 1'/>"
                                                    "</body></worldbody></mujoco>")
        if b in ("bad_starts", "bad_sampler", "cb_raises", "ls_raises", "bad_goal", "goal_other"):
            s = self.prog["solvers"][op["s"] % len(self.solvers)]
            ms = self.models[s["m"]]
            k = self.solvers[op["s"] % len(self.solvers)]
            if b == "bad_starts":
                return lambda: pk.PseudoInverseIK(ms.obj, retry_configs=torch.zeros(2, ms.ref.n + 1, dtype=ms.dtype))
            if b == "bad_sampler":
                return lambda: pk.PseudoInverseIK(ms.obj, num_retries=3, config_sampling_method="no such method")
            if b == "cb_raises":
                def cb(n):
                    raise Boom("sampler")
                return lambda: pk.PseudoInverseIK(ms.obj, num_retries=3, config_sampling_method=cb)
            if b == "ls_raises":
                class LS(pk.BacktrackingLineSearch):
                    def do_line_search(self, *a, **k):
                        raise Boom("line search")
                T = goal_transform(np.eye(4)[None].repeat(2, 0), ms.dtype)
                return lambda: build_solver(s, ms, line_search=LS()).solve(T)
            if b == "goal_other":     # of another precision than the model
                return lambda: k.solve(pk.Transform3d(matrix=torch.eye(4, dtype=torch.float32 if ms.dtype == torch.float64
                                                                       else torch.float64).repeat(2, 1, 1)))
            return lambda: k.solve(pk.Transform3d(matrix=torch.zeros(0, 4, 4, dtype=ms.dtype)))
        if b == "bad_compose":
            A = pk.Transform3d(default_batch_size=2)
            B = pk.Transform3d(default_batch_size=3)
            return lambda: A.compose(B)
        if b == "bad_points":
            A = pk.Transform3d(default_batch_size=2)
            return lambda: A.transform_points(torch.zeros(3, 4, 3))
        if b == "bad_clamp":
            return lambda: c.clamp(torch.zeros(2, n + 2, dtype=m.dtype))
        if b == "too_few":
            if n < 2:
                return lambda: c.forward_kinematics(None)
            return lambda: c.forward_kinematics(t[:, : n - 1])
        if b == "too_many":
            return lambda: c.forward_kinematics(torch.cat([t, t], 1))
        if b == "unknown_name":
            return lambda: c.forward_kinematics({"no such joint": t[:, 0]})
        if b in ("missing_name", "clamp_missing") or b == "jac_missing" and m.kind == "serial":
            gone = op["s"] // 8 % n
            rows = 1 + op["s"] % 3
            tt = torch.tensor(base.gen_q(op["q"], m.ref, rows), dtype=m.dtype)
            th = {j: tt[:, i] for i, j in enumerate(m.ref.joints) if i != gone}
            if b == "clamp_missing":
                return lambda: c.clamp(th)
            if b == "jac_missing" and n >= 2:
                return lambda: c.jacobian(th, locations=torch.ones(3, dtype=m.dtype) if op["s"] % 2 else None)
            return lambda: c.forward_kinematics(th)
        if b in ("dtype_mix", "tool_mix"):      # values of another precision than the model
            other = t.to(torch.float32 if m.dtype == torch.float64 else torch.float64)
            if b == "tool_mix" and ser is not None:
                ts = torch.zeros(2, ser.ref.n, dtype=other.dtype) + 0.25
                return lambda: ser.obj.jacobian(ts, locations=torch.ones(3, dtype=ts.dtype) / 3, ret_eef_pose=True)
            return lambda: c.forward_kinematics(other)
        if b == "bad_index":
            idx = torch.tensor([0, len(m.ref.names) + 3])
            if m.kind == "serial":
                return lambda: c.get_frame_indices(m.ref.names[0], "no such frame")
            return lambda: c.forward_kinematics(t, frame_indices=idx)
        if b == "jagged":
            return lambda: c.forward_kinematics([0.1] * n + [[0.2]])
        if b == "bad_axis":
            return lambda: pk.Transform3d().rotate_axis_angle(0.3, axis="W")
        if b == "bad_frame":
            return lambda: c.get_frame_indices("no such frame")
        if b == "none":
            return lambda: c.forward_kinematics(None)
        return lambda: c.forward_kinematics("joints")
