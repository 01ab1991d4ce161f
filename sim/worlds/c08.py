"""C08: arguments are never altered and results are the caller's own."""
import numpy as np

from ..base import DT, call, near, need, pk, same, snap, torch
from ..core import Violation
from ..fleet import (FleetWorld, REAL, STUB, gen_fk_op, gen_jac_op, gen_models, gen_phases)
from ..ikfleet import build_solver, check_solution, gen_arms, gen_goals, gen_solver, goal_transform, make_goals
from ..robots import homog, random_rotation
import pytorch_kinematics.transforms as tf
from pytorch_kinematics.transforms import rotation_conversions as rc, so3

ID = "C08"
RUNS = {"quick": 2800, "thorough": 100000}
RULE = ("Program: 1-2 models, 0-2 solvers, 1-3 callers issuing pose, Jacobian, structure, inverse-kinematics, sampling and "
        "rotation-utility calls; at random moments a caller overwrites, empties or reorders some array, list, mapping or "
        "transform it once passed in or got back (in whole or inside a larger result); after every step all arguments "
        "and all other values ever handed out are re-read, and later answers are compared with the reference or with "
        "the first answer to the same request.")
ASSUME = ["values documented or conventional as live parts are not edited: frames, links and joints of a model, a "
          "solver's attributes, a matrix wrapped as a transform, the tensor ensure_tensor passes through",
          "callers edit only values no running call is using"]


def R_(g, n, dt):
    return torch.tensor(np.stack([random_rotation(g) for _ in range(n)]), dtype=dt)


def Q_(g, n, dt):
    q = g.normal(size=(n, 4))
    return torch.tensor(q / np.linalg.norm(q, axis=1, keepdims=True), dtype=dt)


def V_(*shape):
    return lambda g, n, dt: torch.tensor(g.normal(size=tuple(n if s == "n" else s for s in shape)), dtype=dt)


def U_(g, n, dt):
    v = g.normal(size=(n, 3))
    return torch.tensor(v / np.linalg.norm(v, axis=1, keepdims=True), dtype=dt)


def M_(g, n, dt):
    return torch.tensor(np.stack([homog(random_rotation(g), g.normal(size=3)) for _ in range(n)]), dtype=dt)


def S_(x):
    return lambda g, n, dt: x


def T_(g, n, dt):
    return torch.tensor(g.random(n), dtype=dt)


def H_(g, n, dt):
    return so3.hat(torch.tensor(g.normal(size=(n, 3)), dtype=dt))


def special(build, a, k, first):
    """The values at which code takes its special paths, in the last row."""
    if not torch.is_tensor(a) or a.dim() == 0:
        return a
    r = a[-1]
    if build is Q_:
        v = [[1, 0, 0, 0], [-1, 0, 0, 0], [0, 0, 1, 0], [1.5, 0.2, 0.1, 0.3], [-2, 0.3, 0, 0], [0.3, -0.1, 0.2, 0.1]]
        if a is not first and k % 9 < 3 and first.shape == a.shape:      # the same rotation again, or nearly
            r.copy_([first[-1], -first[-1], first[-1] + 1e-6][k % 3])
        else:
            r.copy_(torch.tensor(v[k % 6], dtype=a.dtype))
    elif build is R_:
        d = [[1, 1, 1], [1, -1, -1], [-1, -1, 1], [-1, 1, -1]][k % 4]
        r.copy_(torch.diag(torch.tensor(d, dtype=a.dtype)))
    elif build is M_:
        r.copy_(torch.eye(4, dtype=a.dtype))
        r[:3, 3] = 1000.0 * (k % 2)
    elif build is T_:
        r.fill_([0.0, 1.0, 0.5, 1.0 + 1e-6, -1.0][k % 5])
    elif build is U_:
        r.zero_()
        r[k % 3] = -1.0
    elif build is not H_ and a.shape[-1:] != (9,):
        r.mul_([0.0, 1e-6, 1e3, 1.0][k % 4] if a.shape[-1] != 6 else 1e3)
        if k % 4 == 3 and a.shape[-1] == 3:
            r.mul_(np.pi / r.norm().item())
    return a


UTIL = {
    "axis_angle_to_quaternion": (rc.axis_angle_to_quaternion, [V_("n", 3)]),
    "axis_angle_to_matrix": (rc.axis_angle_to_matrix, [V_("n", 3)]),
    "euler_angles_to_matrix": (rc.euler_angles_to_matrix, [V_("n", 3), S_("XYZ")]),
    "matrix_to_axis_angle": (rc.matrix_to_axis_angle, [R_]),
    "matrix_to_euler_angles": (rc.matrix_to_euler_angles, [R_, S_("ZYX")]),
    "matrix_to_quaternion": (rc.matrix_to_quaternion, [R_]),
    "matrix_to_rotation_6d": (rc.matrix_to_rotation_6d, [R_]),
    "quaternion_apply": (rc.quaternion_apply, [Q_, V_("n", 3)]),
    "quaternion_invert": (rc.quaternion_invert, [Q_]),
    "quaternion_multiply": (rc.quaternion_multiply, [Q_, Q_]),
    "quaternion_raw_multiply": (rc.quaternion_raw_multiply, [Q_, Q_]),
    "quaternion_to_matrix": (rc.quaternion_to_matrix, [Q_]),
    "quaternion_from_euler": (rc.quaternion_from_euler, [V_("n", 3)]),
    "quaternion_to_axis_angle": (rc.quaternion_to_axis_angle, [Q_]),
    "rotation_6d_to_matrix": (rc.rotation_6d_to_matrix, [V_("n", 6)]),
    "standardize_quaternion": (rc.standardize_quaternion, [Q_]),
    "axis_and_angle_to_matrix_33": (rc.axis_and_angle_to_matrix_33, [U_, T_]),
    "axis_and_angle_to_matrix_44": (rc.axis_and_angle_to_matrix_44, [V_("n", 2, 3), V_("n", 2)]),
    "axis_and_d_to_pris_matrix": (rc.axis_and_d_to_pris_matrix, [V_("n", 2, 3), V_("n", 2)]),
    "wxyz_to_xyzw": (rc.wxyz_to_xyzw, [Q_]),
    "xyzw_to_wxyz": (rc.xyzw_to_wxyz, [Q_]),
    "matrix44_to_se3_9d": (rc.matrix44_to_se3_9d, [M_]),
    "se3_9d_to_matrix44": (rc.se3_9d_to_matrix44, [V_("n", 9)]),
    "pos_rot_to_matrix": (rc.pos_rot_to_matrix, [V_("n", 3), Q_]),
    "matrix_to_pos_rot": (rc.matrix_to_pos_rot, [M_]),
    "so3_exp_map": (so3.so3_exp_map, [V_("n", 3)]),
    "so3_log_map": (so3.so3_log_map, [R_]),
    "so3_relative_angle": (so3.so3_relative_angle, [R_, R_]),
    "so3_rotation_angle": (so3.so3_rotation_angle, [R_]),
    "hat": (so3.hat, [V_("n", 3)]),
    "hat_inv": (so3.hat_inv, [H_]),
    "quaternion_angular_distance": (tf.quaternion_angular_distance, [Q_, Q_]),
    "acos_linear_extrapolation": (tf.acos_linear_extrapolation, [T_]),
    "quaternion_slerp": (tf.quaternion_slerp, [Q_, Q_, T_]),
    "quaternion_slerp_scalar": (tf.quaternion_slerp, [Q_, Q_, S_(0.3)]),
    "quaternion_close": (tf.quaternion_close, [Q_, Q_]),
    "transform_rot": (lambda r, p: pk.Transform3d(rot=r, pos=p, dtype=r.dtype), [R_, V_("n", 3)]),
    "transform_quat": (lambda r, p: pk.Transform3d(rot=r, pos=p, dtype=r.dtype), [Q_, V_("n", 3)]),
    "transform_pos": (lambda p: pk.Transform3d(pos=p, dtype=p.dtype), [V_("n", 3)]),
    "translate": (lambda p: pk.Translate(p, dtype=p.dtype), [V_("n", 3)]),
    "rotate": (lambda r: pk.Rotate(r, dtype=r.dtype), [R_]),
    "scale": (lambda s: pk.Scale(s, dtype=s.dtype), [V_("n", 3)]),
    "points": (lambda m, p: pk.Transform3d(matrix=m).transform_points(p), [M_, V_("n", 4, 3)]),
    "normals": (lambda m, p: pk.Transform3d(matrix=m).transform_normals(p), [M_, V_("n", 4, 3)]),
    "identity_points": (lambda p: pk.Transform3d(dtype=p.dtype).transform_points(p), [V_("n", 4, 3)]),
    "inverse": (lambda m: pk.Transform3d(matrix=m).inverse(), [M_]),
    "clone": (lambda m: pk.Transform3d(matrix=m).clone(), [M_]),
    "to_copy": (lambda m: pk.Transform3d(matrix=m).to("cpu", copy=True), [M_]),
    "to_f64_copy": (lambda m: pk.Transform3d(matrix=m).to("cpu", copy=True, dtype=torch.float64), [M_]),
    "translated": (lambda m: pk.Transform3d(matrix=m).translate(1.0, 2.0, 3.0), [M_]),
    "rotated": (lambda m, r: pk.Transform3d(matrix=m).rotate(r), [M_, R_]),
    "scaled": (lambda m: pk.Transform3d(matrix=m).scale(2.0), [M_]),
    "compose": (lambda a, b: pk.Transform3d(matrix=a).compose(pk.Transform3d(matrix=b)), [M_, M_]),
    "stack_alone": (lambda a: pk.Transform3d(matrix=a.clone()).stack(), [M_]),
    "compose_none": (lambda a: (lambda t: (t, t.compose()))(pk.Transform3d(matrix=a.clone())), [M_]),
    "stack_none": (lambda a: (lambda t: (t, t.stack(*[])))(pk.Transform3d(matrix=a.clone())), [M_]),
    "stack_self": (lambda a: (lambda t: (t, t.stack(t)))(pk.Transform3d(matrix=a.clone())), [M_]),
    "inverse_twice": (lambda a: (lambda t: (t, t.inverse(), t.inverse()))(pk.Transform3d(matrix=a.clone())), [M_]),
    "inverse_twice_translate": (lambda p: (lambda t: (t, t.inverse(), t.inverse()))(pk.Translate(p.clone(), dtype=p.dtype)),
                                [V_("n", 3)]),
    "inverse_twice_rotate": (lambda r: (lambda t: (t, t.inverse(), t.inverse()))(pk.Rotate(r.clone(), dtype=r.dtype)), [R_]),
    "perturbed": (lambda a: (lambda t: (t, t.sample_perturbations(2, 0.0, 0.0)))(pk.Transform3d(matrix=a[:1].clone())), [M_]),
    "perturbed_each": (lambda a: (lambda t: (t, t.sample_perturbations(len(a), 0.0, 0.0)))(pk.Transform3d(matrix=a.clone())),
                       [M_]),
    "clone_of_clone": (lambda a: (lambda t: (t, t.clone(), t.clone().clone()))(pk.Transform3d(matrix=a.clone())), [M_]),
    "compose_two": (lambda a, b, c: (lambda t: (t, t.compose(pk.Transform3d(matrix=b), pk.Transform3d(matrix=c))))(
        pk.Transform3d(matrix=a.clone())), [M_, M_, M_]),
    "compose_identity": (lambda a: (lambda t: (t, t.compose(pk.Transform3d(dtype=a.dtype))))(
        pk.Transform3d(matrix=a.clone())), [M_]),
    "stack": (lambda a, b: pk.Transform3d(matrix=a).stack(pk.Transform3d(matrix=b)), [M_, M_]),
}
RANDOM = {
    "sample_perturbations": (lambda T, a: tf.sample_perturbations(T, 5, 0.3, 0.2, axis_of_rotation=a),
                             [lambda g, n, dt: M_(g, 1, dt)[0], lambda g, n, dt: U_(g, 1, dt)[0]]),
    "sample_perturbations_free": (lambda T: tf.sample_perturbations(T, 5, 0.3, 0.2),
                                  [lambda g, n, dt: M_(g, 1, dt)[0]]),
    "sample_perturbations_still": (lambda T: tf.sample_perturbations(T, 3, 0.0, 0.0), [lambda g, n, dt: M_(g, 1, dt)[0]]),
    "sample_perturbations_one": (lambda T: tf.sample_perturbations(T, 1, 0.3, 0.2), [lambda g, n, dt: M_(g, 1, dt)[0]]),
    "sample_perturbations_each": (lambda T: tf.sample_perturbations(T, len(T), 0.3, 0.2), [lambda g, n, dt: M_(g, 4, dt)]),
    "perturbed_each": (lambda T: pk.Transform3d(matrix=T).sample_perturbations(len(T), 0.3, 0.2),
                       [lambda g, n, dt: M_(g, 3, dt)]),
    "random_quaternions": (lambda: tf.random_quaternions(3), []),
    "random_rotations": (lambda: tf.random_rotations(3), []),
    "random_rotation": (lambda: tf.random_rotation(), []),
}
NAMES = ["joints", "frames", "limits", "vel", "eff", "links", "parents", "indices", "allidx", "jobj", "lobj", "cl", "ens",
         "ens"]


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 3])
    models = gen_models(rng, rng.choice([1, 1, 2]), min_dof=1)
    narm = len(models)
    solvers = []
    if rng.random() < 0.5:
        models += gen_arms(rng, 1)
        for _ in range(rng.choice([1, 2])):
            s = gen_solver(rng, models[narm], narm, max_it=(1, 2, 4), retries=(1, 2, 3))
            s["start"] = rng.choice(["given", "given", "uniform", "around"])
            solvers.append(s)
    serial = [i for i, m in enumerate(models) if m["kind"] == "serial"]
    focus = rng.choice(["all", "all", "model", "util", "ik"])
    if focus == "ik" and not solvers:
        focus = "all"

    fs = rng.sample(sorted(UTIL), rng.choice([2, 4, 12]))
    ns = rng.choice([[1], [2], [1, 2, 4]])
    gl = [gen_goals(rng, rng.choice([1, 2, 3]), ["reach", "near"]) for _ in range(2)]

    def make(r, ph, t):
        k = r.random()
        if k < 0.33:
            return dict(op="edit", which=r.choice(["arg", "result", "result"]), pick=r.random(), new=r.random() < 0.6,
                        how=r.randrange(1 << 16))
        k = r.random()
        if focus == "util" or (focus == "all" and k < 0.35):
            if r.random() < 0.15:
                return dict(op="rand", f=r.choice(sorted(RANDOM)), s=r.randrange(3), dt=r.choice(["f32", "f64"]))
            return dict(op="util", f=r.choice(fs), s=r.randrange(2), n=r.choice(ns),
                        dt=r.choice(["f32", "f64"]), nc=r.random() < 0.3, sp=r.choice([0, 0, r.randrange(1, 9)]))
        if solvers and (focus == "ik" or k < 0.55):
            j = r.random()
            if j < 0.25:
                return dict(op="starts", s=r.randrange(len(solvers)), n=r.choice([1, 3]))
            return dict(op="solve", s=r.randrange(len(solvers)), goals=r.choice(gl), g=r.randrange(2))
        if k < 0.75 or not serial:
            if r.random() < 0.35:
                return dict(op="struct", m=r.randrange(len(models)), what=r.choice(NAMES), sel=r.randrange(4),
                            q=r.randrange(4))
            return gen_fk_op(r, models, big=False)
        return gen_jac_op(r, models, serial, big=False)

    return dict(nthreads=nt, models=models, solvers=solvers, opcodes=rng.random() < 0.05,
                torch_seed=rng.randrange(1 << 30), max_op_steps=1000000,
                phases=gen_phases(rng, nt, rng.choice([1, 2]), (3, 9) if nt > 1 else (6, 22), make))


class Leaf:
    __slots__ = ("label", "obj", "get", "snap", "kind", "owner", "edited")

    def __init__(self, label, obj, kind, owner):
        self.label, self.obj, self.kind, self.owner, self.edited = label, obj, kind, owner, 0
        self.snap = self.read()

    def read(self):
        o = self.obj
        if isinstance(o, (list, dict)):
            it = o.items() if isinstance(o, dict) else enumerate(o)
            return [(k, v if isinstance(v, (int, float, str, bool, type(None))) else id(v)) for k, v in it]
        return snap(o)

    def ok(self):
        r = self.read()
        if isinstance(r, list):
            return len(r) == len(self.snap) and all(
                a[0] == b[0] and (a[1] == b[1] or (a[1] != a[1] and b[1] != b[1])) for a, b in zip(r, self.snap))
        return same(r, self.snap)


class TransformKept:
    """A transform that changed hands: its kind never changes, its value only by edits of the matrix it gave out."""
    edited = 0

    def __init__(self, label, obj, kind, owner):
        self.label, self.obj, self.kind, self.owner = label, obj, "tf-" + kind, owner
        self.given = obj.get_matrix()
        self.first = (obj.dtype, str(obj.device), self.given.dtype, tuple(self.given.shape), len(obj))
        self.snap = snap(self.given)

    def ok(self):
        t = self.obj
        m = t.get_matrix()
        if (t.dtype, str(t.device), m.dtype, tuple(m.shape), len(t)) != self.first:
            return False
        return same(snap(m), self.snap) or same(snap(m), snap(self.given))


class W(FleetWorld):
    reuse_tools = False      # here the owners' edits are operations of their own

    def setup(self, sim):
        super().setup(sim)
        self.leaves = []
        self.answers = {}
        self.solvers, self.starts, self.lims = [], [], []
        self.built_with = []
        for s in self.prog["solvers"]:
            m = self.models[s["m"]]
            over, g = {}, np.random.default_rng(s["seed"])
            if s["start"] == "given":
                t = torch.tensor(g.uniform(-1, 1, size=(s["R"], m.ref.n)), dtype=m.dtype)
                over["retry_configs"] = t
                self.leaf("starting configurations given to solver %d" % len(self.solvers), t, "arg", 0)
            elif s["start"] == "around":
                t = torch.tensor(g.uniform(-1, 1, size=m.ref.n), dtype=m.dtype)
                over["config_sampling_method"] = pk.gaussian_around_config(t, 0.0)
                over["num_retries"] = s["R"]
                self.built_with.append((len(self.solvers), t.clone()))
                self.leaf("configuration given to the sampler of solver %d" % len(self.solvers), t, "arg", 0)
            else:
                lo, hi = [np.clip(np.array(x, float), -2, 2) for x in m.ref.limits()]
                t = torch.tensor(np.stack([lo, hi], 1), dtype=m.dtype)
                over["joint_limits"] = t
                over["config_sampling_method"] = "uniform"
                over["num_retries"] = s["R"]
                self.leaf("joint limits given to solver %d" % len(self.solvers), t, "arg", 0)
                self.lims.append((len(self.solvers), np.stack([lo, hi], 1)))
            spec = dict(s, start="gaussian")
            k = build_solver(spec, m, **over)
            self.solvers.append(k)
            self.starts.append(k.initial_config.detach().to(torch.float64).numpy().copy())

    # -- values ---------------------------------------------------------------------------------------------
    def leaf(self, label, obj, kind, tid):
        self.leaves.append(Leaf(label, obj, kind, tid))

    def values(self, label, v, kind, tid):
        """Split a value into the parts a caller can edit."""
        if isinstance(v, torch.Tensor) or isinstance(v, np.ndarray):
            self.leaf(label, v, kind, tid)
        elif isinstance(v, pk.Transform3d):
            self.leaf(label + " (transform)", v.get_matrix(), kind, tid)
            self.leaves.append(TransformKept(label + " (transform itself)", v, kind, tid))
        elif hasattr(v, "solutions") and hasattr(v, "converged"):
            for f in ("solutions", "err_pos", "err_rot", "converged", "converged_pos", "converged_rot", "converged_any",
                      "converged_pos_any", "converged_rot_any", "remaining"):
                self.leaf("%s.%s" % (label, f), getattr(v, f), kind, tid)
        elif isinstance(v, (list, dict)):
            self.leaf(label, v, kind, tid)
            for k, x in (v.items() if isinstance(v, dict) else enumerate(v)):
                self.values("%s[%s]" % (label, k), x, kind, tid)
        elif isinstance(v, tuple):
            for k, x in enumerate(v):
                self.values("%s[%d]" % (label, k), x, kind, tid)

    def hold(self, label, value):
        tid = self.tid
        super_snap = snap(value)
        from ..base import digest
        digest(self.h, super_snap)
        self.values("result of " + label, value, "result", tid)

    def inp(self, tid, m, op):
        op = {k: v for k, v in op.items() if k != "slot"}
        th, q = super().inp(tid, m, op)
        base = th._base if isinstance(th, torch.Tensor) and th._base is not None else th
        self.values("joint values of op %s" % op["id"], base if not isinstance(base, dict) else base, "arg", tid)
        if isinstance(th, dict):
            pass
        return th, q

    def tool_of(self, m, op, B):
        obj, M = super().tool_of(m, op, B)
        if obj is not None:
            self.values("tool of op %s" % op["id"], obj, "arg", self.tid)
        return obj, M

    def check_held(self):
        for x in self.leaves:
            if not x.ok():
                cls = "argument-altered" if x.kind in ("arg", "tf-arg") else "result-changed"
                raise Violation(cls, "%s changed although its owner did not touch it" % x.label)

    def exec_op(self, tid, op, sim):
        super().exec_op(tid, op, sim)
        self.check_held()

    # FleetWorld's own functions call hold() after the scheduling points: remember who asked
    @property
    def tid(self):
        from .. import core
        t = core.CURRENT.current_tid() if core.CURRENT is not None else 0
        return t if t != "main" else 0

    # -- edits ----------------------------------------------------------------------------------------------
    def op_edit(self, tid, op, sim):
        own = [x for x in self.leaves if x.owner == tid and x.kind == ("arg" if op["which"] == "arg" else "result")]
        if not own:
            self.probe("nothing-to-edit")
            return
        if op["new"]:
            own = own[-6:]
        x = own[int(op["pick"] * len(own))]
        how, o = op["how"], x.obj
        try:
            if isinstance(o, list):
                k = how % 5
                if k == 0:
                    o.clear()
                elif k == 1:
                    o.reverse()
                elif k == 2:
                    o.append(o[0] if o else "x")
                elif k == 3 and o:
                    o[how % len(o)] = "overwritten"
                elif o:
                    o.pop()
            elif isinstance(o, dict):
                if how % 3 == 0:
                    o.clear()
                elif o:
                    key = sorted(o, key=str)[how % len(o)]
                    if how % 3 == 1:
                        del o[key]
                    else:
                        o[key] = None
            elif isinstance(o, np.ndarray):
                o.fill(3.3) if how % 2 else np.negative(o, out=o)
            else:
                with torch.no_grad():
                    k = how % 4
                    if o.dtype == torch.bool:
                        o.logical_not_()
                    elif not o.is_floating_point():
                        o.zero_() if k % 2 else o.add_(1)
                    elif k == 0:
                        o.fill_(7.25)
                    elif k == 1:
                        o.zero_()
                    elif k == 2:
                        o.mul_(-1.5).add_(0.5)
                    else:
                        o.fill_(float("nan"))
        except RuntimeError:
            self.probe("edit-refused-by-torch")
        x.edited += 1
        x.snap = x.read()
        self.note(tid, op["id"], x.label)
        self.probe("edits-of-%s-%s" % (x.kind, type(o).__name__))
        # the elements of an edited container are still their own values: nothing else may have moved

    # -- operations -----------------------------------------------------------------------------------------
    def op_util(self, tid, op, sim):
        f, mk = UTIL[op["f"]]
        g = np.random.default_rng([op["s"], op["n"]])
        dt = DT[op["dt"]]
        args = [b(g, op["n"], dt) for b in mk]
        if op.get("sp"):
            args = [special(b, a, op["sp"] + k, args[0]) for k, (b, a) in enumerate(zip(mk, args))]
        if op.get("nc"):
            args = [torch.stack([torch.zeros_like(a), a], -1)[..., 1] if torch.is_tensor(a) else a for a in args]
        for k, a in enumerate(args):
            self.values("argument %d of %s (op %s)" % (k, op["f"], op["id"]), a, "arg", tid)
        what = "%s (op %s, caller %d)" % (op["f"], op["id"], tid)
        v = need(call(sim, lambda: f(*args)), what)
        self.note(tid, op["id"], "util")
        key = (op["f"], op["s"], op["n"], op["dt"], op.get("sp", 0))
        s = snap(v)
        if key in self.answers and not near(s, self.answers[key], 1e-9 if dt == torch.float64 else 1e-5):
            raise Violation("answer-changed", "%s: another answer than to the same request before" % what)
        if key in self.answers:
            self.probe("repeated-request-compared")
        self.answers.setdefault(key, s)
        self.hold(what, v)
        self.probe("utility-calls")

    def op_rand(self, tid, op, sim):
        f, mk = RANDOM[op["f"]]
        g = np.random.default_rng([op["s"], 3])
        args = [b(g, 1, DT[op["dt"]]) for b in mk]
        for k, a in enumerate(args):
            self.values("argument %d of %s (op %s)" % (k, op["f"], op["id"]), a, "arg", tid)
        what = "%s (op %s, caller %d)" % (op["f"], op["id"], tid)
        v = need(call(sim, lambda: f(*args)), what)
        self.note(tid, op["id"], "rand")
        self.hold(what, v)
        self.probe("sampling-calls")

    def op_struct(self, tid, op, sim):
        m = self.models[op["m"]]
        c, ref = m.obj, m.ref
        g = np.random.default_rng(op["sel"])
        names = [ref.names[i] for i in g.permutation(len(ref.names))[: int(g.integers(1, len(ref.names) + 1))]]
        w = op["what"]
        what = "structure query %s (op %s, caller %d)" % (w, op["id"], tid)
        if w == "cl":
            q = torch.tensor(np.random.default_rng(op["q"]).uniform(-9, 9, size=(2, ref.n)), dtype=m.dtype)
            self.values("argument of op %s" % op["id"], q, "arg", tid)
            v = need(call(sim, lambda: c.clamp(q)), what)
            lo, hi = np.array(ref.limits()[0], float), np.array(ref.limits()[1], float)
            want = np.clip(q.to(torch.float64).numpy(), lo, hi)
            if np.abs(v.to(torch.float64).numpy() - want).max() > 1e-5:
                raise Violation("wrong-value", "%s: not the clamped values" % what)
            self.hold(what, v)
            return
        if w == "ens":
            q = np.random.default_rng(op["q"]).uniform(-9, 9, size=(2, ref.n)).astype(np.float32)
            form = ["np", "np_other", "list", "dict_np", "dict_t", "np1"][op["sel"] * 2 % 6 + op["q"] % 2]
            mine, other = (np.float64, np.float32) if m.dtype == torch.float64 else (np.float32, np.float64)
            if form.startswith("np"):
                a = q.astype(other if form == "np_other" else mine)
                a = a[0].copy() if form == "np1" else a
            elif form == "list":
                a = [float(x) for x in q[0]]
            else:
                a = {j: (torch.tensor(q[:, i], dtype=m.dtype) if form == "dict_t" else q[:, i].astype(mine))
                     for i, j in enumerate(ref.joints)}
            self.values("argument of op %s" % op["id"], a, "arg", tid)
            want = q[0] if form in ("np1", "list") else q
            v = need(call(sim, lambda: c.ensure_tensor(a)), what)
            if v.dtype != m.dtype or np.abs(v.to(torch.float64).numpy() - want).max() > 1e-6:
                raise Violation("wrong-value", "%s: not the given values (%s)" % (what, form))
            self.hold(what, v)
            self.probe("conversions-of-joint-values")
            return
        fn = {"joints": c.get_joint_parameter_names, "frames": lambda: c.get_frame_names(exclude_fixed=False),
              "limits": c.get_joint_limits, "vel": c.get_joint_velocity_limits, "eff": c.get_joint_effort_limits,
              "links": c.get_link_names, "parents": c.get_joint_parent_frame_names,
              "indices": lambda: c.get_frame_indices(*names), "allidx": c.get_all_frame_indices,
              "jobj": c.get_joints, "lobj": c.get_links}[w]
        v = need(call(sim, fn), what)
        self.note(tid, op["id"], "struct")
        if w in ("jobj", "lobj"):
            got = [x.name for x in v]
            self.leaf("result of " + what, v, "result", tid)   # the list is the caller's, its elements are the model's
        else:
            got = v.tolist() if torch.is_tensor(v) else v
            self.hold(what, v)
        key = ("struct", op["m"], w, tuple(names) if w == "indices" else None)
        got = repr(got)
        if self.answers.setdefault(key, got) != got:
            raise Violation("answer-changed", "%s: %s, before %s" % (what, got[:200], self.answers[key][:200]))
        want = {"joints": ref.joints, "frames": ref.names, "jobj": ref.joints}.get(w)
        if want is not None and got != repr(want):
            raise Violation("wrong-structure", "%s: %s, expected %s" % (what, got[:200], want))
        self.probe("structure-queries")

    def op_starts(self, tid, op, sim):
        k, s = self.solvers[op["s"]], self.prog["solvers"][op["s"]]
        m = self.models[s["m"]]
        what = "sample_configs (op %s, caller %d, solver %d)" % (op["id"], tid, op["s"])
        if s["start"] == "given":
            return
        v = need(call(sim, lambda: k.sample_configs(op["n"])), what)
        self.note(tid, op["id"], "starts")
        x = v.detach().to(torch.float64).numpy()
        for i, lim in self.lims:
            if i == op["s"] and not ((x >= lim[:, 0] - 1e-6) & (x <= lim[:, 1] + 1e-6)).all():
                raise Violation("answer-changed", "%s: outside the limits the solver was given" % what)
        for i, t in self.built_with:
            if i == op["s"] and not np.abs(x - t.to(torch.float64).numpy()).max() <= 1e-6:
                raise Violation("answer-changed", "%s: not around the configuration the sampler was given" % what)
        self.hold(what, v)
        self.probe("sampling-calls")

    def op_solve(self, tid, op, sim):
        s = self.prog["solvers"][op["s"]]
        m = self.models[s["m"]]
        k = self.solvers[op["s"]]
        goals, ok = make_goals(op["goals"], op["g"], m.ref, self.starts[op["s"]], m.dtype)
        T = goal_transform(goals, m.dtype)
        self.values("goals of op %s" % op["id"], T, "arg", tid)
        what = "solve (op %s, caller %d, solver %d)" % (op["id"], tid, op["s"])
        sol = need(call(sim, lambda: k.solve(T)), what)
        self.note(tid, op["id"], "solve")
        check_solution(self, m, s, goals, ok, sol, what)
        if not np.array_equal(k.initial_config.detach().to(torch.float64).numpy(), self.starts[op["s"]]):
            raise Violation("answer-changed", "%s: the solver's starting configurations changed" % what)
        key = ("solve", op["s"], tuple(op["goals"]), op["g"])
        sn = snap(sol)
        if key in self.answers and not near(sn, self.answers[key], 1e-9):
            raise Violation("answer-changed", "%s: another answer than to the same request before" % what)
        self.answers.setdefault(key, sn)
        self.hold(what, sol)
        self.probe("solves")

    def finish(self, sim):
        self.check_held()
        self.samples.append({"max_error_over_tolerance": round(self.maxratio, 4)})

