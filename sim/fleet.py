"""A fleet of shared robot models and the query operations on them, with the reference oracle for each.

Used by the worlds of several properties.  gen_* functions draw programs (JSON); FleetWorld executes them.
"""
import numpy as np

from . import base
from .base import DT, World, call, close, gen_q, make_input, need, np as _np, pk, tol_for, torch  # noqa: F401
from .core import HarnessError, Violation
from pytorch_kinematics.jacobian import calc_jacobian
from .robots import RefModel, gen_spec, homog, random_rotation, inv_rigid, sibling  # noqa: F401


def np_rng(rng):
    return np.random.default_rng(rng.getrandbits(48))


def gen_B(rng, big=True):
    k = rng.random()
    if k < 0.3:
        return 1
    if k < 0.75:
        return rng.choice([2, 3, 4, 5, 6, 7])
    if k < 0.95 or not big:
        return rng.choice([8, 10, 12, 16, 17, 25])
    return rng.choice([33, 64, 100, 129, 257, 300, 300, 512, 513, 1000, 1025, 2049, 4100])


def gen_models(rng, nmodels, fmts=("urdf", "urdf", "sdf", "mjcf"), serial_only=False, min_dof=0, dtypes=("f32", "f64"),
               n=None, types=None):
    out = []
    specs = []
    for k in range(nmodels):
        g = np_rng(rng)
        if specs and rng.random() < 0.4:
            spec = rng.choice(specs)
            if rng.random() < 0.6:
                spec = sibling(g, spec, permute=True)
        else:
            for _ in range(50):
                fmt = rng.choice(list(fmts))
                nn = n if n is not None else (rng.randint(2, 6) if rng.random() < 0.6 else rng.randint(5, 11))
                if n is None and rng.random() < 0.05:
                    nn = rng.randint(12, 26) if rng.random() < 0.8 else rng.randint(30, 48)
                spec = gen_spec(g, fmt=fmt, n=nn, types=types)
                if fmt == "urdf" and rng.random() < 0.15:
                    spec["by_hand"] = True
                if RefModel(spec).n >= min_dof:
                    break
            specs.append(spec)
        ref = RefModel(spec)
        m = dict(spec=spec, dtype=rng.choice(list(dtypes)), kind="chain", root=None, tip=None)
        if serial_only or rng.random() < 0.45:
            m["kind"] = "serial"
            pairs = ref.path_pairs()
            if spec["fmt"] == "mjcf":  # sites are leaves only
                pass
            if rng.random() < 0.6:
                m["root"], m["tip"] = ref.root, rng.choice(ref.tips()) if ref.tips() else ref.names[-1]
                m["root"] = None
            else:
                m["root"], m["tip"] = rng.choice(pairs)
            ok = [p for p in pairs if RefModel(spec, root=p[0], tip=p[1]).n >= min_dof]
            if min_dof and RefModel(spec, root=m["root"], tip=m["tip"]).n < min_dof and ok:
                m["root"], m["tip"] = rng.choice(ok)
            m["how"] = rng.choice(["direct", "extract", "extract64"])
        out.append(m)
    return out


class Model:
    """A live library object with its reference."""

    def __init__(self, obj, ref, dtype, kind, spec, meta):
        self.obj, self.ref, self.dtype, self.kind, self.spec, self.meta = obj, ref, dtype, kind, spec, meta

    @property
    def exact(self):
        return bool(self.spec["exact"])

    def tol(self):
        return tol_for(self.dtype, self.ref, self.exact)


def build_model(m):
    spec = m["spec"]
    if m["kind"] == "chain":
        obj = base.load(spec)
        ref = RefModel(spec)
    else:
        ref = RefModel(spec, root=m["root"], tip=m["tip"])
        if m["how"] == "direct":
            obj = base.load(spec, m["tip"], m["root"])
        else:
            whole = base.load(spec)
            if m["how"] == "extract64" and m["dtype"] == "f64":
                whole = whole.to(dtype=torch.float64)
            obj = pk.SerialChain(whole, m["tip"], m["root"] or "")
    if m["dtype"] == "f64":
        obj = obj.to(dtype=torch.float64)
    return Model(obj, ref, DT[m["dtype"]], m["kind"], spec, m)


# ------------------------------------------------------------------------------------------------------------------
def gen_slot(rng, op):
    """Let the caller keep one array and overwrite it for each query, as control loops do."""
    if op["form"] in ("t2", "np2", "t1") and rng.random() < 0.45:
        op["slot"] = 0
        if rng.random() < 0.6:
            op["form"] = "t2"
        if op["form"] != "t1":
            op["B"] = rng.choice([1, 4, 4, 4])


def gen_fk_op(rng, models, big=True, mi=None):
    mi = rng.randrange(len(models)) if mi is None else mi
    m = models[mi]
    ser = m["kind"] == "serial"
    via = rng.choice(["dict", "dict", "indices", "tensor", "tensor_ag"]) if not ser else \
        rng.choice(["end", "end", "all", "tensor", "tensor_ag"])
    form = rng.choice(base.FORMS_CHAIN)
    if via.startswith("tensor"):
        form = rng.choice(["t2", "t2", "nc", "rg", "view", "exp"])
    op = dict(op="fk", m=mi, q=rng.randrange(6), B=gen_B(rng, big), form=form, via=via)
    if via == "indices":
        op["sel"] = rng.getrandbits(20)
    gen_slot(rng, op)
    if op["form"] in ("t2", "nc", "rg", "np2") and "slot" not in op and rng.random() < 0.04:
        op["B"] = 0
    if rng.random() < 0.2:
        op["mode"] = rng.choice(["nograd", "inference"])
    return op


def gen_soak_op(rng, models, jac=False, serial=None):
    """Many small queries in a row by one caller, as a control loop makes them."""
    return dict(op="soak", m=rng.choice(serial) if serial else rng.randrange(len(models)), q=rng.randrange(50),
                n=rng.choice([20, 70, 70, 140]), vary=rng.random() < 0.6, jac=jac)


def under(mode, fn):
    """fn as called by a caller that has switched gradients off."""
    if mode is None:
        return fn

    def run():
        with torch.no_grad() if mode == "nograd" else torch.inference_mode():
            return fn()
    return run


BAD_FK = ["too_few", "too_many", "unknown_name", "missing_name", "bad_frame", "none", "string", "nan_missing", "missing_name", "nan_one"]


def gen_bad_op(rng, models):
    return dict(op="fk_bad", m=rng.randrange(len(models)), q=rng.randrange(6), B=rng.choice([1, 2, 5]),
                bad=rng.choice(BAD_FK), gone=rng.randrange(6))


class FleetWorld(World):
    reuse_tools = True

    def setup(self, sim):
        self.models = [build_model(m) for m in self.prog["models"]]
        self.slots = {}
        self.maxratio = 0.0
        self.inputs = []

    # -- shared helpers -------------------------------------------------------------------------------------
    def q_of(self, m, op):
        q = gen_q(op["q"], m.ref, op["B"])
        if m.dtype == torch.float32:
            q = q.astype(np.float32).astype(float)
        return q

    def inp(self, tid, m, op):
        q = self.q_of(m, op)
        form = op.get("form", "t2")
        if m.ref.n == 0 and form.startswith("dict"):
            form = "t2"
        if "slot" in op and form in ("t2", "np2", "t1"):
            q = q[:1] if form == "t1" else q
            key = (tid, op["m"], len(q), form, op["slot"])
            t = self.slots.get(key)
            new = torch.tensor(q[0] if form == "t1" else q, dtype=m.dtype)
            if form == "np2":
                if t is None or t.dtype != new.numpy().dtype:
                    t = self.slots[key] = new.numpy().copy()
                else:
                    t[...] = new.numpy()
                    self.probe("input-buffer-reused")
            elif t is None or t.dtype != m.dtype:
                t = self.slots[key] = new
            else:
                t.copy_(new)
                self.probe("input-buffer-reused")
            return t, q
        return make_input(q, form, m.ref.joints, m.dtype, op["q"])

    def exec_op(self, tid, op, sim):
        getattr(self, "op_" + op["op"])(tid, op, sim)

    def check_pose(self, m, T, name, q, what, want=None):
        mat = T.get_matrix() if isinstance(T, pk.Transform3d) else T
        if mat.dtype != m.dtype:
            raise Violation("wrong-dtype", "%s: %s, expected %s" % (what, mat.dtype, m.dtype))
        w = m.ref.fk_of(q, name) if want is None else want
        d = close(mat, w, m.tol(), what)
        self.maxratio = max(self.maxratio, d / m.tol())

    # -- forward kinematics ---------------------------------------------------------------------------------
    def op_fk(self, tid, op, sim):
        m = self.models[op["m"]]
        th, q = self.inp(tid, m, op)
        via = op["via"]
        c = m.obj
        names = None
        if via == "dict":
            fn = lambda: c.forward_kinematics(th)  # noqa: E731
            names = m.ref.names
        elif via == "indices":
            g = np.random.default_rng(op["sel"])
            names = [m.ref.names[i] for i in g.permutation(len(m.ref.names))[: int(g.integers(1, len(m.ref.names) + 1))]]
            asked = names + names[:1] if op["sel"] % 5 == 0 else list(names)     # asking twice is no mistake

            def fn():
                fi = c.get_frame_indices(*asked)
                return c.forward_kinematics(th, frame_indices=fi)
        elif via == "end":
            fn = lambda: c.forward_kinematics(th)  # noqa: E731
        elif via == "all":
            fn = lambda: c.forward_kinematics(th, end_only=False)  # noqa: E731
            names = m.ref.names
        elif via == "tensor":
            fn = lambda: c.forward_kinematics_tensor(th)  # noqa: E731
        else:
            fn = lambda: c.forward_kinematics_tensor(th, analytical_grad=False)  # noqa: E731
        out = call(sim, under(op.get("mode"), fn), fault=op.get("fault"))
        self.note(tid, op["id"], out.kind())
        what = "forward kinematics (op %s, caller %d, %s via %s, B=%d)" % (op["id"], tid, op["form"], via, len(q))
        if out.fired:
            self.after_fault(out, what)
            return
        v = need(out, what)
        self.check_fk_value(m, v, q, via, names, what)
        self.hold(what, v)
        if via.startswith("tensor") and m.kind == "chain":
            self.probe("fk-tensor")
        self.probe("fk-" + ("serial" if m.kind == "serial" else "chain"))

    def check_fk_value(self, m, v, q, via, names, what):
        want = m.ref.fk(q)
        if via in ("dict", "indices", "all"):
            if list(sorted(v.keys())) != sorted(names):
                raise Violation("wrong-frames", "%s: frames %s, expected %s" % (what, sorted(v), sorted(names)))
            for n in names:
                self.check_pose(m, v[n], n, q, what + " frame " + n, want[m.ref.index[n]])
        elif via == "end":
            self.check_pose(m, v, m.ref.tip, q, what + " end frame", want[m.ref.index[m.ref.tip]])
        else:
            if v.dim() != 4 or v.shape[0] != len(m.ref.names):
                raise Violation("wrong-shape", "%s: %s" % (what, tuple(v.shape)))
            for n in m.ref.names:
                self.check_pose(m, v[m.obj.frame_to_idx[n]], n, q, what + " frame " + n, want[m.ref.index[n]])

    def after_fault(self, out, what):
        """A fault fired inside the call: an error must have come out, or a right result (checked by caller)."""
        if out.exc is None:
            raise Violation("fault-swallowed", "%s: an injected failure vanished and a result was returned" % what)
        if not isinstance(out.exc, base.INJECTED):
            # the library may translate the error, never turn it into a wrong value
            self.probe("fault-translated")
        self.probe("fault-surfaced")

    def op_soak(self, tid, op, sim):
        """A control loop: many small queries in a row, judged together afterwards."""
        m = self.models[op["m"]]
        c = m.obj
        g = np.random.default_rng([op["q"], 5])
        sizes = [int(x) for x in g.integers(1, 9, size=3)]
        qs, got, jacs = [], [], []
        jac = bool(op.get("jac"))
        for i in range(op["n"]):
            q = gen_q(1000 * op["q"] + i, m.ref, sizes[int(g.integers(3))] if op["vary"] else sizes[0])
            if m.dtype == torch.float32:
                q = q.astype(np.float32).astype(float)
            th = torch.tensor(q, dtype=m.dtype)
            what = "query %d of %d in a row (op %s, caller %d)" % (i, op["n"], op["id"], tid)
            if jac:
                J, T = need(call(sim, lambda: c.jacobian(th, ret_eef_pose=True)), what)
                jacs.append(J.clone())
                v = {m.ref.tip: T}
            elif m.kind == "serial":
                v = {m.ref.tip: need(call(sim, lambda: c.forward_kinematics(th)), what)}
            else:
                names = [m.ref.names[int(x)] for x in g.permutation(len(m.ref.names))[: int(g.integers(1, 4))]]
                v = need(call(sim, lambda: c.forward_kinematics(th, frame_indices=c.get_frame_indices(*names))), what)
                if sorted(v) != sorted(names):
                    raise Violation("wrong-frames", "%s: frames %s, expected %s" % (what, sorted(v), sorted(names)))
            if i % 16 == 0:
                self.hold(what, v)
            qs.append(q)
            got.append({n: (x if torch.is_tensor(x) else x.get_matrix()).clone() for n, x in v.items()})
        want = m.ref.fk(np.concatenate(qs))
        wj = m.ref.jac(np.concatenate(qs))[0] if jac else None
        k = 0
        for i, v in enumerate(got):
            what = "query %d of %d in a row (op %s, caller %d)" % (i, op["n"], op["id"], tid)
            for n, x in v.items():
                self.check_pose(m, x, n, qs[i], what + " frame " + n, want[m.ref.index[n]][k:k + len(qs[i])])
            if jac:
                close(jacs[i], wj[k:k + len(qs[i])], 1.5 * m.tol(), what + " Jacobian")
            k += len(qs[i])
        self.note(tid, op["id"], len(got))
        self.probe("soaked-queries", len(got))

    def op_fk_bad(self, tid, op, sim):
        m = self.models[op["m"]]
        c = m.obj
        q = self.q_of(m, op)
        n = m.ref.n
        b = op["bad"]
        t = torch.tensor(q, dtype=m.dtype)
        if b == "too_few":
            fn = lambda: c.forward_kinematics(t[:, : max(0, n - 1)])  # noqa: E731
        elif b == "too_many":
            fn = lambda: c.forward_kinematics(torch.cat([t, t, t[:, :1] if n else torch.ones(len(t), 1)], 1))  # noqa: E731
        elif b == "unknown_name":
            fn = lambda: c.forward_kinematics({"no such joint": t[:, 0] if n else t.sum(1)})  # noqa: E731
        elif b == "missing_name":
            gone = op.get("gone", 0) % max(n, 1)
            fn = lambda: c.forward_kinematics({j: t[:, i] for i, j in enumerate(m.ref.joints) if i != gone})  # noqa: E731
        elif b == "nan_missing":
            fn = lambda: c.forward_kinematics({j: t[:, i] * float("nan") for i, j in enumerate(m.ref.joints)})  # noqa: E731
        elif b == "nan_one":
            fn = lambda: c.forward_kinematics({j: t[:, i] * (float("nan") if i == op.get("gone", 0) % n else 1)  # noqa: E731
                                               for i, j in enumerate(m.ref.joints)})
        elif b == "bad_frame":
            fn = lambda: c.get_frame_indices("no such frame")  # noqa: E731
        elif b == "none":
            fn = lambda: c.forward_kinematics(None)  # noqa: E731
        else:
            fn = lambda: c.forward_kinematics("joints")  # noqa: E731
        out = call(sim, fn)
        self.note(tid, op["id"], out.kind())
        if b in ("missing_name", "unknown_name") and n >= 1 and out.ok:
            raise Violation("bad-request-accepted", "joint values with %s were accepted (op %s)" % (b, op["id"]))
        self.probe("bad-request-%s" % ("rejected" if out.exc is not None else "tolerated"))

    # -- structure ------------------------------------------------------------------------------------------
    def op_names(self, tid, op, sim):
        m = self.models[op["m"]]
        c = m.obj

        def fn():
            return (c.get_joint_parameter_names(), c.get_frame_names(exclude_fixed=False), c.get_joint_limits(),
                    c.n_joints, c.get_joint_velocity_limits(), c.get_joint_effort_limits(),
                    c.get_link_names(), [j.name for j in c.get_joints()])
        v = need(call(sim, fn, fault=None), "structure queries")
        self.check_names(m, v)
        g = np.random.default_rng(op["id"])
        i = int(g.integers(len(m.ref.names)))
        link = m.ref.names[i]
        j = m.ref.joints[int(g.integers(m.ref.n))] if m.ref.n else None
        ask = [m.ref.names[int(x)] for x in g.integers(len(m.ref.names), size=int(g.integers(1, 7)))]
        idx = need(call(sim, lambda: c.get_frame_indices(*ask)), "frame indices")
        if [c.idx_to_frame[int(x)] for x in idx] != ask:
            raise Violation("wrong-structure", "frame indices of %s are those of %s" % (
                ask, [c.idx_to_frame[int(x)] for x in idx]))
        a, b, miss, tree = need(call(sim, lambda: (c.find_link(link), c.find_joint(j) if j else None,
                                                   (c.find_link("no such link"), c.find_joint("no such joint")),
                                                   c.print_tree(do_print=False))), "look-ups by name")
        if a is None or a.name != link or (j and (b is None or b.name != j)) or miss != (None, None):
            raise Violation("wrong-structure", "look-ups of %r, %r and of names not there: %r, %r, %r" % (
                link, j, a, b, miss))
        if sorted(x for x in m.ref.names if x in tree) != sorted(m.ref.names):
            raise Violation("wrong-structure", "the printed tree lacks frames of %s: %s" % (m.ref.names, tree))
        self.probe("structure-queries-fleet")
        self.note(tid, op["id"], v[0], v[1])

    def check_names(self, m, v):
        ref = m.ref
        exp = [ref.joints, ref.names, ref.limits(), ref.n, ref.limits("vel"), ref.limits("eff"), ref.names, ref.joints]
        for what, g, w in zip(["joint names", "frame names", "limits", "joint count", "velocity limits",
                               "effort limits", "link names", "joints"], v, exp):
            if what == "velocity limits" or what == "effort limits":
                if m.spec["fmt"] != "urdf":
                    continue
            if what == "limits":
                for a, b in zip(g, w):
                    if len(a) != len(b) or any(not (float(x) == y or abs(float(x) - y) <= 1e-9) for x, y in zip(a, b)):
                        raise Violation("wrong-structure", "%s: %r, expected %r" % (what, g, w))
                continue
            if isinstance(w, tuple):
                if [list(map(float, x)) for x in g] != [list(map(float, x)) for x in w]:
                    raise Violation("wrong-structure", "%s: %r, expected %r" % (what, g, w))
                continue
            if (list(g) if isinstance(w, list) else g) != w:
                raise Violation("wrong-structure", "%s: %r, expected %r" % (what, g, w))

    # -- Jacobian -------------------------------------------------------------------------------------------
    def tool_of(self, m, op, B):
        """Returns (object for the library, (B or 1,4,4) float64 matrix) or (None, None)."""
        k = op.get("tool")
        if not k:
            return None, None
        g = np.random.default_rng([op["tseed"], 77])
        tdt = {"same": m.dtype, "f32": torch.float32, "f64": torch.float64}[op.get("tdt", "same")]

        def rnd(x):
            return x.astype(np.float32).astype(float) if tdt == torch.float32 or m.dtype == torch.float32 else x
        if k == "p3":
            p = rnd(g.uniform(-0.4, 0.4, size=3))
            return torch.tensor(p, dtype=tdt), homog(np.eye(3), p)[None]
        if k == "pE":
            p = rnd(g.uniform(-0.4, 0.4, size=3))
            return torch.tensor(p, dtype=tdt).expand(B, 3), homog(np.eye(3), p)[None]
        if k == "pB":
            p = rnd(g.uniform(-0.4, 0.4, size=(B, 3)))
            return torch.tensor(p, dtype=tdt), np.stack([homog(np.eye(3), x) for x in p])
        nb = B if k == "tfB" else 1
        M = np.stack([homog(rnd(random_rotation(g)), rnd(g.uniform(-0.4, 0.4, size=3))) for _ in range(nb)])
        return pk.Transform3d(matrix=torch.tensor(M, dtype=tdt)), M

    def op_jac(self, tid, op, sim):
        m = self.models[op["m"]]
        th, q = self.inp(tid, m, op)
        c = m.obj
        loc, tool = self.tool_of(m, op, len(q))
        if self.reuse_tools and "tslot" in op and torch.is_tensor(loc) and op["tool"] != "pE":     # one buffer, written anew for every query
            key = (tid, "tool", tuple(loc.shape), loc.dtype)
            if key in self.slots:
                self.slots[key].copy_(loc)
                self.probe("tool-buffer-reused")
            loc = self.slots.setdefault(key, loc)
        ret = op.get("ret", False)
        via = op.get("via", "jac")
        if via == "calc":
            fn = lambda: calc_jacobian(c, th, loc)  # noqa: E731
        elif via == "tensor":
            fn = lambda: c.jacobian_tensor(th, ret_eef_pose=ret)  # noqa: E731
            tool = None
        elif via == "tensor_pre":
            def fn():
                T = c.forward_kinematics_tensor(th)
                return c.jacobian_tensor(th, ret_eef_pose=ret, all_transforms=T)
            tool = None
        else:
            fn = lambda: c.jacobian(th, locations=loc, ret_eef_pose=ret)  # noqa: E731
        out = call(sim, under(op.get("mode"), fn), fault=op.get("fault"))
        self.note(tid, op["id"], out.kind())
        what = "Jacobian (op %s, caller %d, via %s, tool %s, B=%d)" % (op["id"], tid, via, op.get("tool"), len(q))
        if out.fired:
            self.after_fault(out, what)
            return
        v = need(out, what)
        J, Te = m.ref.jac(q, tool=tool)
        pose = None
        if ret and via != "calc":
            if not (isinstance(v, tuple) and len(v) == 2):
                raise Violation("wrong-shape", "%s: pose was asked for, got %s" % (what, type(v).__name__))
            got, pose = v
        else:
            got = v
        if not torch.is_tensor(got):
            raise Violation("wrong-shape", "%s: got %s" % (what, type(got).__name__))
        if got.dtype != m.dtype:
            raise Violation("wrong-dtype", "%s: %s, expected %s" % (what, got.dtype, m.dtype))
        tol = m.tol() * (1 if m.dtype == torch.float64 else 1.5)
        if tool is not None and op.get("tdt") == "f32" and m.dtype == torch.float64:
            tol = max(tol, 1e-6)
        self.maxratio = max(self.maxratio, close(got, J, tol, what) / tol)
        if pose is not None:
            close(pose, Te, tol, what + " returned pose")
            self.probe("jacobian-with-pose")
        self.hold(what, v)
        self.probe("jacobian-tool" if tool is not None else "jacobian-plain")

    def finish(self, sim):
        super().finish(sim)
        self.probes["max-error-permille-of-tolerance"] = 0
        self.samples.append({"max_error_over_tolerance": round(self.maxratio, 4)})


def gen_jac_op(rng, models, serial, big=True):
    mi = rng.choice(serial)
    op = dict(op="jac", m=mi, q=rng.randrange(6), B=gen_B(rng, big),
              form=rng.choice(["t2", "t2", "t2", "t1", "nc", "rg", "view", "np2", "np1", "list", "exp", "dict_t", "dict_f", "dict_mix",
                               "np32"]))
    k = rng.random()
    if k < 0.6:
        op["via"] = "jac"
        op["ret"] = rng.random() < 0.4
        op["tool"] = rng.choice([None, "p3", "pB", "pE", "tf1", "tfB"])
    elif k < 0.75:
        op["via"] = "calc"
        op["tool"] = rng.choice([None, "p3", "pB"])
    else:
        op["via"] = rng.choice(["tensor", "tensor_pre"])
        op["ret"] = rng.random() < 0.5
        op["form"] = rng.choice(["t2", "nc", "rg", "view"])
    if op.get("tool"):
        op["tseed"] = rng.randrange(5)
        op["tdt"] = rng.choice(["same", "same", "f32", "f64"])
        if rng.random() < 0.4:
            op["tslot"] = 0
    gen_slot(rng, op)
    if op["form"] in ("t2", "nc", "rg", "np2") and "slot" not in op and not op.get("tool") and rng.random() < 0.04:
        op["B"] = 0
    if rng.random() < 0.15:
        op["mode"] = rng.choice(["nograd", "inference"])
    return op


def gen_phases(rng, nthreads, nphases, ops_range, make):
    """make(rng, phase, tid) -> op dict"""
    return [[[make(rng, ph, t) for _ in range(rng.randint(*ops_range))] for t in range(nthreads)]
            for ph in range(nphases)]


REAL = ["all of src/pytorch_kinematics (model, kinematics, inverse kinematics, parsers, transforms)",
        "torch and numpy numerics, autograd engine", "operating-system threads (one runs at a time)"]
STUB = ["thread scheduler (seeded baton passing at every executed library line or bytecode)",
        "locks created by library code (simulated, deadlock-detecting)", "cancellation and allocation failures (injected)"]
