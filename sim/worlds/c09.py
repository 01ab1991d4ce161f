"""C09: precision conversion and extraction keep models right and independent."""
import random
import zlib

import numpy as np

from .. import base
from ..base import DT, call, close, near, need, pk, snap, torch
from ..core import Violation
from ..fleet import FleetWorld, Model, REAL, STUB, build_model, gen_B, gen_models, gen_phases
from ..ikfleet import build_solver, check_solution, gen_goals, gen_solver, goal_transform, make_goals
from ..robots import RefModel, rot_axis

ID = "C09"
RUNS = {"quick": 3200, "thorough": 120000}
RULE = ("Program: 1-2 loaded robots and a growing family of sub-models extracted from them and from each other, owned in "
        "turns by 1-3 callers; each caller converts the models it owns back and forth (conversions cancelled or failed at a "
        "drawn line or tensor operation and then repeated), extracts further sub-models with or without a precision of "
        "their own, and queries poses, Jacobians, gradients, structure, single-joint transforms and inverse kinematics "
        "while other callers convert relatives of the same family; answers are compared with the reference and with a "
        "freshly loaded model converted once.")
ASSUME = ["a model is converted only while no other caller uses that same model (its relatives are in use)",
          "between an interrupted conversion and its repetition nothing is asked of that model",
          "robots with exactly representable geometry must be answered to 1e-10, others to the accuracy of the "
          "single-precision descriptions the loaders keep by design"]


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 3])
    models = gen_models(rng, rng.choice([1, 1, 2]), dtypes=("f32",))
    p_fault = rng.choice([0, 0.3, 0.6])
    p_conv = rng.choice([0.2, 0.35, 0.5])
    ik = rng.random() < 0.15

    def fault(r, p):
        if r.random() >= p:
            return None
        return dict(kind=r.choice(["cancel", "interrupt", "oom", "memerr"]), on=r.choice(["line", "line", "line", "op"]),
                    frac=r.random())

    def make(r, ph, t):
        op = dict(w=r.getrandbits(16))
        k = r.random()
        if k < p_conv:
            op.update(op="conv", dt=r.choice(["f32", "f64"]),
                      how=r.choice(["dtype", "dtype", "dtype", "both", "devobj", "device", "none"]),
                      retry=r.random() < 0.6, fault=fault(r, p_fault))
        elif k < p_conv + 0.13:
            op.update(op="extract", pair=r.getrandbits(16), noroot=r.random() < 0.5,
                      dt=r.choice([None, None, None, "f32", "f64"]), dev=r.random() < 0.2, fault=fault(r, p_fault / 2))
        else:
            op.update(q=r.randrange(6), B=gen_B(r, False), form=r.choice(base.FORMS_CHAIN), sel=r.getrandbits(16))
            j = r.random()
            if j < 0.35:
                op.update(op="fk", via=r.choice(["all", "all", "some", "tensor", "tensor_ag"]))
            elif j < 0.6:
                op.update(op="jac", tool=r.choice([None, "p3", "pB", "tf1", "tfB"]), tseed=r.randrange(5),
                          tdt=r.choice(["same", "f32", "f64"]), ret=r.random() < 0.4,
                          via=r.choice(["jac", "jac", "tensor", "tensor_pre", "calc"]))
            elif j < 0.72:
                op.update(op="grad", ag=r.random() < 0.7)
            elif j < 0.84:
                op.update(op="names")
            elif j < 0.92:
                op.update(op="local")
            elif j < 0.96 or not ik:
                op.update(op="twin")
            else:
                op.update(op="ik", goals=gen_goals(r, 2, ["reach", "near", "start"]), g=r.randrange(9),
                          seed=r.randrange(1000))
        return op

    return dict(nthreads=nt, models=models, opcodes=False, torch_seed=rng.randrange(1 << 30), max_op_steps=2000000,
                phases=gen_phases(rng, nt, rng.choice([1, 2, 3]), (3, 8) if nt > 1 else (5, 18), make))


class W(FleetWorld):
    def setup(self, sim):
        super().setup(sim)
        self.fam = {}
        for i, m in enumerate(self.models):
            m.key, m.born, m.owner0, m.dirty, m.fresh = "m%d" % i, 0, i, False, True
            self.fam[m.key] = m
        self.models = self.fam      # FleetWorld looks models up by op["m"]

    def mine(self, tid, sim):
        out = []
        for k in sorted(self.fam):
            m = self.fam[k]
            if m.born == sim.phase:
                owner = m.owner0
            else:
                owner = zlib.crc32(k.encode()) + sim.phase * 5
            if owner % sim.n == tid:
                out.append(m)
        return out

    def exec_op(self, tid, op, sim):
        own = self.mine(tid, sim)
        if op["op"] in ("jac", "ik"):
            own = [m for m in own if m.kind == "serial" and m.ref.n > 0] or own
        if not own:
            self.probe("owns-nothing")
            return
        m = own[op["w"] % len(own)]
        if op["op"] in ("jac", "ik") and m.kind != "serial":
            op = dict(op, op="fk", via="all")
        if m.dirty and op["op"] != "conv":
            need(call(sim, lambda: m.obj.to(dtype=m.dirty)), "repeated conversion before op %s" % op["id"])
            self.converted(m, m.dirty)
            self.probe("repeated-conversions")
        getattr(self, "op_" + op["op"])(tid, dict(op, m=m.key), sim)

    def converted(self, m, dt):
        m.dirty = False
        m.dtype = dt
        c = m.obj
        for what, v in (("dtype", c.dtype), ("low", c.low.dtype), ("high", c.high.dtype), ("axes", c.axes.dtype)):
            if v != dt:
                raise Violation("wrong-dtype", "after conversion of %s to %s, %s is %s" % (m.key, dt, what, v))

    def fault_of(self, op, m, lines, ops):
        f = op.get("fault")
        if not f:
            return None
        F = len(m.ref.names)
        tot = lines(F) if f["on"] == "line" else ops(F)
        return dict(kind=f["kind"], on=f["on"], at=1 + int(f["frac"] * tot))

    def op_conv(self, tid, op, sim):
        m = self.fam[op["m"]]
        dt = DT[op["dt"]]
        how = op["how"]
        if how in ("device", "none"):
            if m.dirty:
                how = "dtype"
            else:
                dt = m.dtype
        kw = {"dtype": dict(dtype=dt), "both": dict(dtype=dt, device="cpu"),
              "devobj": dict(dtype=dt, device=torch.device("cpu")), "device": dict(device="cpu"), "none": {}}[how]
        what = "conversion of %s to %s (op %s, caller %d)" % (m.key, dt, op["id"], tid)
        fl = self.fault_of(op, m, lambda F: 32 + 26 * F, lambda F: 8 + 4 * F)
        out = call(sim, lambda: m.obj.to(**kw), fault=fl)
        self.note(tid, op["id"], out.kind())
        if out.fired:
            self.after_fault(out, what)
            m.dirty = dt
            if not op["retry"]:
                return
            out = call(sim, lambda: m.obj.to(**kw))
            self.probe("repeated-conversions")
        got = need(out, what)
        if got is not m.obj:
            raise Violation("wrong-value", "%s returned another object" % what)
        self.converted(m, dt)
        self.probe("conversions")

    def op_extract(self, tid, op, sim):
        m = self.fam[op["m"]]
        pairs = m.ref.path_pairs()
        if not pairs:
            return
        root, tip = pairs[op["pair"] % len(pairs)]
        meta = dict(m.meta)
        if op["noroot"]:
            root, arg = m.ref.root, ""
        else:
            arg = root
        kw = {}
        dt = m.dtype
        if op["dt"]:
            dt = kw["dtype"] = DT[op["dt"]]
        if op["dev"]:
            kw["device"] = "cpu"
        if m.kind == "serial" and m.ref.index[tip] < m.ref.index[root]:
            return
        what = "extraction of %s..%s from %s (op %s, caller %d)" % (root, tip, m.key, op["id"], tid)
        fl = self.fault_of(op, m, lambda F: 300 + 160 * F, lambda F: 20 + 30 * F)
        out = call(sim, lambda: pk.SerialChain(m.obj, tip, arg, **kw), fault=fl)
        self.note(tid, op["id"], out.kind())
        if out.fired:
            self.after_fault(out, what)
            return
        c = need(out, what)
        n = Model(c, RefModel(m.spec, root=root, tip=tip), dt, "serial", m.spec, meta)
        n.key, n.born, n.owner0, n.dirty, n.fresh = "x%s" % op["id"], sim.phase, tid, False, False
        n.ref.reach = max(n.ref.reach, m.ref.reach)
        self.fam[n.key] = n
        self.converted(n, dt)
        self.probe("extractions")

    # -- queries --------------------------------------------------------------------------------------------
    def get(self, op):
        return self.fam[op["m"]]

    def op_fk(self, tid, op, sim):
        m = self.get(op)
        via = op["via"]
        ser = m.kind == "serial"
        op = dict(op)
        if via.startswith("tensor"):
            op["form"] = {"nc": "nc", "rg": "rg", "view": "view", "exp": "exp"}.get(op["form"], "t2")
        elif via == "all":
            op["via"] = "all" if ser else "dict"
        else:
            op["via"] = "end" if ser else "indices"
        super().op_fk(tid, op, sim)

    def op_jac(self, tid, op, sim):
        op = dict(op)
        if op["via"] == "calc" and op["tool"] and op["tool"].startswith("tf"):
            op["tool"] = "p3"
        if op["via"].startswith("tensor"):
            op["form"], op["tool"] = "t2", None
        super().op_jac(tid, op, sim)

    def op_names(self, tid, op, sim):
        super().op_names(tid, op, sim)
        m = self.get(op)
        v = need(call(sim, lambda: m.obj.clamp(torch.full((1, m.ref.n), 99.0, dtype=m.dtype))), "clamp")
        if v.dtype != m.dtype:
            raise Violation("wrong-dtype", "clamp of %s: %s, expected %s" % (m.key, v.dtype, m.dtype))
        hi = np.minimum(np.array(m.ref.limits()[1], float), 99.0)
        close(v, hi[None], 1e-5, "clamp of %s" % m.key)

    def op_grad(self, tid, op, sim):
        m = self.get(op)
        q = self.q_of(m, op)
        if m.ref.n == 0:
            return
        th = torch.tensor(q, dtype=m.dtype, requires_grad=True)
        g = np.random.default_rng(op["sel"])
        T = len(m.ref.names)
        G = g.normal(size=(T, len(q), 4, 4))
        G[:, :, 3] = 0

        def fn():
            X = m.obj.forward_kinematics_tensor(th, analytical_grad=op["ag"])
            w = torch.zeros_like(X)
            for i, n in enumerate(m.ref.names):
                w[m.obj.frame_to_idx[n]] = torch.tensor(G[i], dtype=m.dtype)
            return torch.autograd.grad((X * w).sum(), [th])[0]
        what = "gradient on %s (op %s, caller %d)" % (m.key, op["id"], tid)
        v = need(call(sim, fn), what)
        self.note(tid, op["id"], "grad")
        if v.dtype != m.dtype:
            raise Violation("wrong-dtype", "%s: %s, expected %s" % (what, v.dtype, m.dtype))
        close(v, m.ref.grad(q, G), m.tol() * (1 + np.abs(G).sum((0, 2, 3)).max()), what)
        self.probe("gradients")

    def op_local(self, tid, op, sim):
        """The frame objects are a second representation of the same model."""
        m = self.get(op)
        i = op["sel"] % len(m.ref.names)
        d = m.ref.nodes[i]
        g = np.random.default_rng(op["sel"])
        th = g.uniform(-2, 2, size=3)
        t = torch.tensor(th, dtype=m.dtype)
        th = t.to(torch.float64).numpy()

        def fn():
            f = m.obj.find_frame(d["name"])
            L = f.get_transform(t)
            return (L if f.link.offset is None else f.link.offset.compose(L)), f.joint.axis, f.joint.offset, f.link.offset
        what = "frame %s of %s (op %s, caller %d)" % (d["name"], m.key, op["id"], tid)
        L, ax, jo, lo = need(call(sim, fn), what)
        self.note(tid, op["id"], "local")
        for n, v in (("axis", ax), ("joint offset", jo), ("link offset", lo), ("transform", L)):
            if v is not None and v.dtype != m.dtype:
                raise Violation("wrong-dtype", "%s: %s is %s, expected %s" % (what, n, v.dtype, m.dtype))
        M = np.zeros((3, 4, 4))
        M[:] = np.eye(4)
        if d["type"] == "revolute":
            M[:, :3, :3] = rot_axis(d["axis"], th)
        elif d["type"] == "prismatic":
            M[:, :3, 3] = th[:, None] * d["axis"]
        close(L.get_matrix(), d["T"] @ M, m.tol(), what)
        self.probe("frame-transforms")

    def op_twin(self, tid, op, sim):
        """A freshly loaded model converted once."""
        m = self.get(op)
        if m.key[0] != "m":
            return
        meta = dict(m.meta, dtype="f64" if m.dtype == torch.float64 else "f32")
        if meta.get("how") == "extract64":
            meta["how"] = "extract"
        what = "comparison of %s with a freshly loaded twin (op %s, caller %d)" % (m.key, op["id"], tid)
        tw = need(call(sim, lambda: build_model(meta)), what)
        q = torch.tensor(self.q_of(m, op), dtype=m.dtype)

        def ask(c):
            out = [c.forward_kinematics_tensor(q), c.low, c.high, c.get_joint_limits(), c.axes, c.clamp(q * 3)]
            out += [f if f is None else f.get_matrix() for n in m.ref.names
                    for f in (c.find_frame(n).joint.offset, c.find_frame(n).link.offset)]
            if m.kind == "serial":
                out += [c.jacobian(q)]
            return out
        a = need(call(sim, lambda: ask(m.obj)), what)
        b = ask(tw.obj)
        self.note(tid, op["id"], "twin")
        if not near(snap(a), snap(b), 1e-12 if m.dtype == torch.float64 else 1e-6):
            raise Violation("differs-from-fresh", "%s: %s" % (what, base.diff(snap(a), snap(b))))
        self.probe("twins-compared")

    def op_ik(self, tid, op, sim):
        m = self.get(op)
        if m.ref.n < 2:
            return
        r = random.Random(op["seed"])
        s = gen_solver(r, dict(spec=m.spec, root=m.ref.root, tip=m.ref.tip), 0, max_it=(2, 4), retries=(1, 2))
        s["start"] = "given"
        what = "solve on %s (op %s, caller %d)" % (m.key, op["id"], tid)
        k = need(call(sim, lambda: build_solver(s, m)), what)
        st = k.initial_config.detach().to(torch.float64).numpy()
        goals, ok = make_goals(op["goals"], op["g"], m.ref, st, m.dtype)
        T = goal_transform(goals, m.dtype)
        sol = need(call(sim, lambda: k.solve(T)), what)
        self.note(tid, op["id"], "ik")
        check_solution(self, m, s, goals, ok, sol, what)
        self.probe("solves")

    def finish(self, sim):
        # every member of the family still answers
        for k in sorted(self.fam):
            m = self.fam[k]
            if m.dirty:
                m.obj.to(dtype=m.dirty)
                self.converted(m, m.dirty)
            q = base.gen_q(3, m.ref, 2)
            t = torch.tensor(q, dtype=m.dtype)
            T = m.obj.forward_kinematics_tensor(t)
            want = m.ref.fk(t.to(torch.float64).numpy())
            for i, n in enumerate(m.ref.names):
                self.check_pose(m, T[m.obj.frame_to_idx[n]], n, q, "final pose of %s in %s" % (n, k), want[i])
        self.probe("models-at-end", len(self.fam))
        self.check_held()
        self.samples.append({"max_error_over_tolerance": round(self.maxratio, 4)})
