"""C14: transform objects behave as immutable rigid-transform values."""
import numpy as np

from ..base import snap, DT, World, call, need, pk, torch
from ..core import Violation
from ..fleet import REAL, STUB, gen_phases
from ..robots import homog, inv_rigid, quat_matrix, random_rotation, rot_axis

ID = "C14"
RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("Program: a shared pool of transforms, 1-4 callers deriving new ones (construction from every input form, "
        "compose, chained translate / rotate, inverse, stack, index, clone, convert, apply to points, normals and shape "
        "operators) from operands picked at run time, with rejected and cancelled derivations in between and owners overwriting "
        "the matrix of a transform nobody is using; each result is "
        "compared with numpy 4x4 algebra on the operands' current values, and every transform and point set ever "
        "produced is re-read at the end.")
ASSUME = ["rigid transforms only (scalings are constructed but not inverted after composition)",
          "tolerance 64 machine epsilons times the operands' magnitude plus 4 times their deviation from rigidity"]

EPS = {torch.float32: 1.2e-7, torch.float64: 2.3e-16}
OPS = ["new", "new", "compose", "compose", "compose", "chain", "inverse", "stack", "index", "index", "clone", "to", "to",
       "points", "points", "normals", "shape", "b2b", "len", "bad", "edit", "perturb"]


def gen(rng, tier):
    nt = rng.choice([1, 2, 2, 3, 4])
    p_fault = rng.choice([0, 0, 0.2])

    def make(r, ph, t):
        op = dict(op=r.choice(OPS), a=r.randrange(1 << 16), b=r.randrange(1 << 16), c=r.randrange(1 << 16),
                  s=r.randrange(1 << 30))
        if r.random() < p_fault:
            op["fault"] = dict(kind=r.choice(["cancel", "interrupt", "oom"]), at=r.randint(1, 25))
        return op

    return dict(nthreads=nt, opcodes=rng.random() < 0.15, pool=rng.randrange(1 << 30), npool=rng.randint(2, 6),
                phases=gen_phases(rng, nt, rng.choice([1, 2]), (4, 18) if nt > 1 else (8, 40), make))


class W(World):
    def setup(self, sim):
        self.pool = []
        self.maxratio = 0.0
        g = np.random.default_rng(self.prog["pool"])
        for _ in range(self.prog["npool"]):
            fn, want, dt, rigid, _ = self.draw_new(g)
            self.add(fn(), want, dt, "initial transform", rigid)

    # -- values ---------------------------------------------------------------------------------------------
    def add(self, T, want, dt, what, rigid=True, mag=None):
        M = T.get_matrix()
        if T.dtype != M.dtype:
            raise Violation("wrong-dtype", "%s: says %s, matrix is %s" % (what, T.dtype, M.dtype))
        if M.dtype != dt:
            raise Violation("wrong-dtype", "%s: %s, expected %s" % (what, M.dtype, dt))
        if len(T) != len(want):
            raise Violation("wrong-shape", "%s: length %d, expected %d" % (what, len(T), len(want)))
        self.cmp(M, want, dt, what, mag)
        m64 = M.detach().to(torch.float64).numpy().copy()
        e = dict(T=T, M=m64, dt=dt, rigid=rigid, mag=max(1.0, float(np.abs(m64).max(initial=0))),
                 orth=float(np.abs(m64[:, :3, :3] @ np.swapaxes(m64[:, :3, :3], 1, 2) - np.eye(3)).max(initial=0)))
        e["own"], e["busy"] = True, 0        # own: no other transform is known to be a view of it
        if e["mag"] < 1e6:
            self.pool.append(e)
        e["held"] = self.hold(what, T)
        return e

    def cmp(self, got, want, dt, what, mag=None, extra=0.0):
        g = got.detach().to(torch.float64).numpy()
        if g.shape != want.shape:
            raise Violation("wrong-shape", "%s: %s, expected %s" % (what, g.shape, want.shape))
        s = max(1.0, float(np.abs(want).max(initial=0)), mag or 1.0)
        tol = 64 * EPS[dt] * s + extra
        d = float(np.abs(g - want).max(initial=0))
        if not d <= tol:
            raise Violation("wrong-value", "%s: off by %.3g (tolerance %.2g)" % (what, d, tol))
        self.maxratio = max(self.maxratio, d / tol)

    def pick(self, k):
        return self.pool[k % len(self.pool)]

    def draw_new(self, g):
        """(constructor, expected matrices, dtype, rigid, label)"""
        dt = DT[g.choice(["f32", "f64"])]
        N = int(g.choice([1, 1, 2, 3, 5]))
        rnd = (lambda x: np.asarray(x).astype(np.float32).astype(float)) if dt == torch.float32 else np.asarray
        t = lambda x: torch.tensor(x, dtype=dt)  # noqa: E731
        R = rnd(np.stack([random_rotation(g) for _ in range(N)]))
        p = rnd(g.uniform(-2, 2, size=(N, 3)))
        M = np.stack([homog(a, b) for a, b in zip(R, p)])
        k = g.choice(["matrix", "matrix1", "rotpos", "quat", "euler", "pos", "eye", "translate", "translate3", "rotate",
                      "rotq", "axisangle", "poslist", "posonly1", "matpos", "scale", "axisnum", "axisnum", "mixed", "scale1"])
        I = np.eye(4)[None].repeat(N, 0)
        if k == "matrix":
            return (lambda: pk.Transform3d(matrix=t(M))), M, dt, True, k
        if k == "matrix1":
            return (lambda: pk.Transform3d(matrix=t(M[0]))), M[:1], dt, True, k
        if k == "rotpos":
            return (lambda: pk.Transform3d(rot=t(R), pos=t(p), dtype=dt)), M, dt, True, k
        if k == "quat":
            q = rnd(g.normal(size=(N, 4)))
            W_ = np.stack([homog(quat_matrix(a), b) for a, b in zip(q, p)])
            return (lambda: pk.Transform3d(rot=t(q), pos=t(p), dtype=dt)), W_, dt, True, k
        if k == "euler":
            e = rnd(g.uniform(-3, 3, size=(N, 3)))
            if N == 3:  # a (3, 3) argument is a rotation matrix
                e = e[:2]
            W_ = np.stack([homog(rot_axis([1, 0, 0], a[0]) @ rot_axis([0, 1, 0], a[1]) @ rot_axis([0, 0, 1], a[2]),
                                 [0, 0, 0]) for a in e])
            return (lambda: pk.Transform3d(rot=t(e), dtype=dt)), W_, dt, True, k
        if k == "pos":
            I[:, :3, 3] = p
            return (lambda: pk.Transform3d(pos=t(p), dtype=dt)), I, dt, True, k
        if k == "posonly1":
            I = I[:1]
            I[0, :3, 3] = p[0]
            return (lambda: pk.Transform3d(pos=t(p[0]), dtype=dt)), I, dt, True, k
        if k == "poslist":
            I = I[:1]
            I[0, :3, 3] = p[0]
            l = [float(v) for v in p[0]]
            return (lambda: pk.Transform3d(pos=l, dtype=dt)), I, dt, True, k
        if k == "matpos":
            W_ = M.copy()
            p2 = rnd(g.uniform(-2, 2, size=(N, 3)))
            W_[:, :3, 3] = p2
            return (lambda: pk.Transform3d(matrix=t(M), pos=t(p2), dtype=dt)), W_, dt, True, k
        if k == "eye":
            return (lambda: pk.Transform3d(default_batch_size=N, dtype=dt)), I, dt, True, k
        if k == "translate":
            I[:, :3, 3] = p
            return (lambda: pk.Translate(t(p), dtype=dt)), I, dt, True, k
        if k == "translate3":
            I = I[:1]
            I[0, :3, 3] = p[0]
            a, b, c = [float(v) for v in p[0]]
            return (lambda: pk.Translate(a, b, c, dtype=dt)), I, dt, True, k
        if k == "rotate":
            M[:, :3, 3] = 0
            return (lambda: pk.Rotate(t(R), dtype=dt)), M, dt, True, k
        if k == "rotq":
            q = rnd(g.normal(size=(N, 4)))
            W_ = np.stack([homog(quat_matrix(a), [0, 0, 0]) for a in q])
            return (lambda: pk.Rotate(t(q), dtype=dt)), W_, dt, True, k
        if k == "scale":
            f = rnd(g.uniform(0.5, 2.0, size=(N, 3)))
            for i in range(3):
                I[:, i, i] = f[:, i]
            return (lambda: pk.Scale(t(f), dtype=dt)), I, dt, False, k
        if k == "axisnum":
            fn, W_ = self.number_rotation(g, dt)
            return fn, W_, dt, True, k
        if k in ("mixed", "scale1"):
            cols = [rnd(np.round(g.uniform(0.5, 2.0, size=N), 2)) for _ in range(3)]
            forms = [int(g.integers(5)) for _ in range(3)]
            W_ = np.eye(4)[None].repeat(N, 0)
            if k == "scale1":
                x, c = self.coord(forms[0], cols[0], t)
                W_ = W_[:len(c)]
                for i in range(3):
                    W_[:, i, i] = c
                return (lambda: pk.Scale(x, dtype=dt)), W_, dt, False, k
            xs, cs = zip(*[self.coord(f, c, t) for f, c in zip(forms, cols)])
            W_ = W_[:max(len(c) for c in cs)]
            scale = bool(g.random() < 0.4)
            for i in range(3):
                if scale:
                    W_[:, i, i] = cs[i]
                else:
                    W_[:, i, 3] = cs[i]
            return (lambda: (pk.Scale if scale else pk.Translate)(*xs, dtype=dt)), W_, dt, not scale, k
        ax = str(g.choice(["X", "Y", "Z"]))
        ang = rnd(g.uniform(-180, 180, size=N))
        v = {"X": [1, 0, 0], "Y": [0, 1, 0], "Z": [0, 0, 1]}[ax]
        W_ = np.stack([homog(rot_axis(v, np.deg2rad(a)), [0, 0, 0]) for a in ang])
        return (lambda: pk.RotateAxisAngle(t(ang), ax, dtype=dt)), W_, dt, True, k

    @staticmethod
    def coord(form, col, t):
        """One coordinate in one of the accepted forms: whole number, number, scalar tensor, one entry, a batch."""
        if form == 0:
            v = int(round(float(col[0]))) or 1
            return v, np.array([float(v)])
        if form == 1:
            return float(col[0]), col[:1]
        if form == 2:
            return t(col[0]), col[:1]
        if form == 3:
            return t(col[:1]), col[:1]
        return t(col), col

    @staticmethod
    def number_rotation(g, dt):
        """A rotation about an axis by a plain number or scalar, in degrees or radians."""
        ax = str(g.choice(["X", "Y", "Z"]))
        v = [1, 2, -1, 3, 30, 45, 90, -90, 180, 360, 0.5, 1.0, 2.0, 90.0, 0][int(g.integers(15))]
        deg = bool(g.random() < 0.5)
        form = int(g.integers(3))
        x = v if form < 2 else torch.tensor(float(v), dtype=dt)
        a = np.deg2rad(float(v)) if deg else float(v)
        W_ = homog(rot_axis({"X": [1, 0, 0], "Y": [0, 1, 0], "Z": [0, 0, 1]}[ax], a), [0, 0, 0])[None]
        return (lambda: pk.RotateAxisAngle(x, ax, degrees=deg, dtype=dt)), W_

    def run(self, sim, tid, op, fn, what, es=()):
        for e in es:
            e["busy"] += 1
        out = call(sim, fn, fault=op.get("fault"))
        for e in es:
            e["busy"] -= 1
        self.note(tid, op["id"], out.kind())
        if out.fired:
            if out.exc is None:
                raise Violation("fault-swallowed", "%s: an injected failure vanished" % what)
            self.probe("cancelled-derivation")
            return None
        self.probe(op["op"])
        return need(out, what)

    def exec_op(self, tid, op, sim):
        getattr(self, "op_" + op["op"])(tid, op, sim, "%s (op %s, caller %d)" % (op["op"], op["id"], tid))

    # -- operations -----------------------------------------------------------------------------------------
    def op_new(self, tid, op, sim, what):
        fn, want, dt, rigid, label = self.draw_new(np.random.default_rng(op["s"]))
        v = self.run(sim, tid, op, fn, what)
        if v is not None:
            self.add(v, want, dt, "%s %s" % (what, label), rigid)

    @staticmethod
    def bcast(*Ms):
        N = max(len(m) for m in Ms)
        return all(len(m) in (1, N) for m in Ms)

    def op_compose(self, tid, op, sim, what):
        es = [self.pick(op["a"]), self.pick(op["b"])]
        if op["s"] % 4 == 0:
            es.append(self.pick(op["c"]))
        if op["s"] % 31 == 0:
            es = es[:1]
        M = es[0]["M"]
        ok = True
        for e in es[1:]:
            if not self.bcast(M, e["M"]):
                ok = False
                break
            M = M @ e["M"]
        fn = lambda: es[0]["T"].compose(*[e["T"] for e in es[1:]])  # noqa: E731
        if not ok:
            out = call(sim, fn)
            if out.exc is None:
                raise Violation("bad-request-accepted", "%s: batches %s were composed" % (what, [len(e["M"]) for e in es]))
            self.probe("batch-mismatch-refused")
            return
        v = self.run(sim, tid, op, fn, what, es)
        if v is not None:
            mag = float(np.prod([4 * e["mag"] for e in es]))
            lo = max(EPS[e["dt"]] for e in es) / EPS[es[0]["dt"]]
            self.add(v, M, es[0]["dt"], what, all(e["rigid"] for e in es), mag * lo)

    def op_chain(self, tid, op, sim, what):
        e = self.pick(op["a"])
        g = np.random.default_rng(op["s"])
        T, dt = e["T"], e["dt"]
        k = g.integers(6)
        x = np.round(g.uniform(-2, 2, size=3), 3)
        if dt == torch.float32:
            x = x.astype(np.float32).astype(float)
        if k == 0:
            fn = lambda: T.translate(*[float(v) for v in x])  # noqa: E731
            D = homog(np.eye(3), x)
        elif k == 1:
            tx = torch.tensor(x[None], dtype=dt)
            fn = lambda: T.translate(tx)  # noqa: E731
            D = homog(np.eye(3), x)
        elif k == 2:
            R = random_rotation(g)
            if dt == torch.float32:
                R = R.astype(np.float32).astype(float)
            tr = torch.tensor(R, dtype=dt)
            fn = lambda: T.rotate(tr)  # noqa: E731
            D = homog(R, [0, 0, 0])
        elif k == 4:
            f = float(0.5 + abs(x[0]))
            fn = lambda: T.scale(f)  # noqa: E731
            D = np.diag([f, f, f, 1.0])
        elif k == 5:
            qx = g.normal(size=4)
            if dt == torch.float32:
                qx = qx.astype(np.float32).astype(float)
            tq = torch.tensor(qx, dtype=dt)
            fn = lambda: T.rotate(tq)  # noqa: E731
            D = homog(quat_matrix(qx), [0, 0, 0])
        else:
            a = float(x[0] * 90) if g.random() < 0.5 else [1, 2, 90, 45.0, 0.5, -1][int(g.integers(6))]
            ax = int(g.integers(3))
            deg = bool(g.random() < 0.5)
            fn = lambda: T.rotate_axis_angle(a, axis="XYZ"[ax], degrees=deg)  # noqa: E731
            D = homog(rot_axis(np.eye(3)[ax], np.deg2rad(a) if deg else a), [0, 0, 0])
        v = self.run(sim, tid, op, fn, what, [e])
        if v is not None:
            self.add(v, e["M"] @ D, dt, what, e["rigid"] and k != 4, 16 * e["mag"])

    def op_inverse(self, tid, op, sim, what):
        e = self.pick(op["a"])
        if not e["rigid"]:
            if type(e["T"]) is not pk.Scale:
                return
        v = self.run(sim, tid, op, lambda: e["T"].inverse(), what, [e])
        if v is not None:
            W_ = np.linalg.inv(e["M"]) if not e["rigid"] else inv_rigid(e["M"])
            M = v.get_matrix()
            if M.dtype != e["dt"] or v.dtype != e["dt"]:
                raise Violation("wrong-dtype", "%s: %s, expected %s" % (what, M.dtype, e["dt"]))
            self.cmp(M, W_, e["dt"], what, 16 * e["mag"], 8 * e["orth"] * e["mag"] if e["rigid"] else 0)
            self.add(v, M.detach().to(torch.float64).numpy().copy(), e["dt"], what, e["rigid"])

    def op_stack(self, tid, op, sim, what):
        a = self.pick(op["a"])
        rest = [self.pick(op["b"]), self.pick(op["c"])][: 1 + op["s"] % 2]
        rest = [e for e in rest if e["dt"] == a["dt"]]
        es = [a] + rest
        if sum(len(e["M"]) for e in es) > 64:
            return
        v = self.run(sim, tid, op, lambda: a["T"].stack(*[e["T"] for e in rest]), what, es)
        if v is not None:
            self.add(v, np.concatenate([e["M"] for e in es]), a["dt"], what, all(e["rigid"] for e in es))

    def op_index(self, tid, op, sim, what):
        e = self.pick(op["a"])
        N = len(e["M"])
        g = np.random.default_rng(op["s"])
        k = g.integers(5)
        if k == 0:
            i = int(g.integers(-N, N))
            W_ = e["M"][i][None]
        elif k == 1:
            lo = int(g.integers(0, N))
            i = slice(lo, int(g.integers(lo + 1, N + 1)))
            W_ = e["M"][i]
        elif k == 2:
            i = [int(v) for v in g.integers(0, N, size=int(g.integers(1, 5)))]
            W_ = e["M"][i]
        elif k == 3:
            m = g.random(N) < 0.6
            m[int(g.integers(N))] = True
            i = torch.tensor(m)
            W_ = e["M"][m]
        else:
            i = slice(None, None, 2)
            W_ = e["M"][i]
        v = self.run(sim, tid, op, lambda: e["T"][i], what, [e])
        if v is not None:
            e["own"] = False                                  # indexing may give views, as it does for tensors
            self.add(v, W_, e["dt"], what + " [%r]" % (i,), e["rigid"])["own"] = False

    def op_clone(self, tid, op, sim, what):
        e = self.pick(op["a"])
        v = self.run(sim, tid, op, lambda: e["T"].clone(), what, [e])
        if v is not None:
            self.add(v, e["M"], e["dt"], what, e["rigid"])

    def op_to(self, tid, op, sim, what):
        e = self.pick(op["a"])
        dt = [None, torch.float32, torch.float64][op["s"] % 3]
        cp = bool(op["b"] % 2)
        v = self.run(sim, tid, op, (lambda: e["T"].cpu()) if op["b"] % 5 == 4 else
                     (lambda: e["T"].to("cpu", copy=cp, dtype=dt)), what, [e])
        if v is not None:
            d = dt or e["dt"]
            if op["b"] % 5 == 4:
                d, cp = e["dt"], False
            W_ = e["M"] if d == torch.float64 else e["M"].astype(np.float32).astype(float)
            n = self.add(v, W_, d, what + " %s" % dt, e["rigid"])
            if not cp and d == e["dt"]:                       # nothing to convert: it may be the same one
                e["own"] = n["own"] = False
            if not np.array_equal(v.get_matrix().to(torch.float64).numpy(), W_):
                raise Violation("wrong-value", "%s: conversion is not the rounded value" % what)

    def pts(self, g, dt, shape):
        x = g.uniform(-3, 3, size=shape)
        if dt == torch.float32:
            x = x.astype(np.float32).astype(float)
        return x, torch.tensor(x, dtype=dt)

    def op_points(self, tid, op, sim, what):
        e = self.pick(op["a"])
        g = np.random.default_rng(op["s"])
        N = len(e["M"])
        P = int(g.choice([1, 2, 3, 4, 7]))
        dt = e["dt"] if g.random() < 0.7 else DT[g.choice(["f32", "f64"])]
        k = g.integers(3)
        shape = (P, 3) if k == 0 else ((N, P, 3) if k == 1 else ((int(g.integers(1, 5)), P, 3) if N == 1 else (1, P, 3)))
        x, t = self.pts(g, dt, shape)
        eps = 1e-9 if g.random() < 0.3 else None
        keep = t.clone()
        v = self.run(sim, tid, op, lambda: e["T"].transform_points(t, eps=eps), what, [e])
        if v is None:
            return
        xb = x if x.ndim == 3 else x[None]
        W_ = xb @ np.swapaxes(e["M"][:, :3, :3], 1, 2) + e["M"][:, None, :3, 3]
        if x.ndim == 2 and N == 1:
            W_ = W_[0]
        self.check_applied(v, W_, dt, e, t, keep, what + " points %s with %d transforms" % (shape, N), 24)

    def check_applied(self, v, W_, dt, e, t, keep, what, f):
        if v.dtype != dt:
            raise Violation("wrong-dtype", "%s: %s, expected %s" % (what, v.dtype, dt))
        lo = max(EPS[e["dt"]], EPS[dt]) / EPS[dt]
        self.cmp(v, W_, dt, what, f * e["mag"] * lo, 16 * e["orth"] * e["mag"] if f == 25 else 0)
        if not torch.equal(t, keep):
            raise Violation("argument-changed", "%s: the points passed in were changed" % what)
        self.hold(what, v)

    def op_normals(self, tid, op, sim, what):
        e = self.pick(op["a"])
        if not e["rigid"]:
            return
        g = np.random.default_rng(op["s"])
        N = len(e["M"])
        P = int(g.choice([1, 2, 3, 5]))
        dt = e["dt"]
        k = g.integers(2)
        shape = (P, 3) if k == 0 else (N, P, 3)
        x, t = self.pts(g, dt, shape)
        keep = t.clone()
        v = self.run(sim, tid, op, lambda: e["T"].transform_normals(t), what, [e])
        if v is None:
            return
        xb = x if x.ndim == 3 else x[None]
        W_ = xb @ np.swapaxes(e["M"][:, :3, :3], 1, 2)
        if x.ndim == 2 and N == 1:
            W_ = W_[0]
        self.check_applied(v, W_, dt, e, t, keep, what + " normals %s with %d transforms" % (shape, N), 25)

    def op_shape(self, tid, op, sim, what):
        e = self.pick(op["a"])
        if not e["rigid"]:
            return
        g = np.random.default_rng(op["s"])
        N = len(e["M"])
        x, t = self.pts(g, e["dt"], (N if N > 1 else int(g.integers(1, 4)), 3, 3))
        keep = t.clone()
        v = self.run(sim, tid, op, lambda: e["T"].transform_shape_operator(t), what, [e])
        if v is None:
            return
        R = e["M"][:, :3, :3]
        self.check_applied(v, R @ x @ np.swapaxes(R, 1, 2), e["dt"], e, t, keep, what, 25)

    def op_b2b(self, tid, op, sim, what):
        e = self.pick(op["a"])
        if not e["rigid"]:
            return
        g = np.random.default_rng(op["s"])
        N = len(e["M"])
        x, t = self.pts(g, e["dt"], (N, 3))
        keep = t.clone()
        pts = op["b"] % 2
        fn = (lambda: e["T"].transform_points(t, batch_to_batch=True)) if pts else \
            (lambda: e["T"].transform_normals(t, batch_to_batch=True))
        v = self.run(sim, tid, op, fn, what, [e])
        if v is None:
            return
        W_ = np.einsum("nij,nj->ni", e["M"][:, :3, :3], x) + (e["M"][:, :3, 3] if pts else 0)
        self.check_applied(v, W_, e["dt"], e, t, keep, what, 25)

    def op_perturb(self, tid, op, sim, what):
        """Perturbing by nothing gives copies of the base."""
        e = self.pick(op["a"])
        if len(e["M"]) != 1 or not e["rigid"]:
            return
        n = 1 + op["b"] % 3
        v = self.run(sim, tid, op, lambda: e["T"].sample_perturbations(n, 0.0, 0.0), what, [e])
        if v is not None:
            self.add(v, np.repeat(e["M"], n, 0), e["dt"], what, True, 4 * e["mag"])

    def op_edit(self, tid, op, sim, what):
        """Its owner overwrites the matrix of a transform that nobody is using: only that transform changes."""
        c = [e for e in self.pool if e["own"] and not e["busy"] and e["rigid"]]
        self.note(tid, op["id"], len(c))
        if not c:
            return
        e = c[op["a"] % len(c)]
        g = np.random.default_rng(op["s"])
        M = np.stack([homog(random_rotation(g), g.uniform(-2, 2, size=3)) for _ in range(len(e["M"]))])
        if type(e["T"]) is pk.Translate:
            M[:, :3, :3] = np.eye(3)
        elif type(e["T"]) is not pk.Transform3d:
            M[:, :3, 3] = 0
        with torch.no_grad():
            e["T"].get_matrix().copy_(torch.tensor(M, dtype=e["dt"]))
        m64 = e["T"].get_matrix().detach().to(torch.float64).numpy().copy()
        self.cmp(e["T"].get_matrix(), M, e["dt"], what)
        e["M"], e["mag"] = m64, max(1.0, float(np.abs(m64).max(initial=0)))
        e["orth"] = float(np.abs(m64[:, :3, :3] @ np.swapaxes(m64[:, :3, :3], 1, 2) - np.eye(3)).max(initial=0))
        e["held"][2] = snap(e["T"])
        self.check_held()
        self.probe("overwritten-by-owner")

    def op_len(self, tid, op, sim, what):
        e = self.pick(op["a"])
        v = self.run(sim, tid, op, lambda: (len(e["T"]), repr(e["T"]), e["T"].get_matrix()), what, [e])
        if v is not None and (v[0] != len(e["M"]) or not isinstance(v[1], str) or
                              not np.array_equal(v[2].to(torch.float64).numpy(), e["M"])):
            raise Violation("wrong-value", "%s: the transform changed since it was made" % what)

    def op_bad(self, tid, op, sim, what):
        e = self.pick(op["a"])
        k = op["s"] % 4
        fn = [lambda: e["T"].transform_points(torch.zeros(3)), lambda: pk.Transform3d(matrix=torch.eye(3)),
              lambda: e["T"].compose(None), lambda: e["T"].transform_points(torch.zeros(2, 2, 2, 3))][k]
        out = call(sim, fn)
        self.note(tid, op["id"], out.kind())
        if out.exc is None:
            raise Violation("bad-request-accepted", "%s: malformed request %d was accepted" % (what, k))
        self.probe("bad-request-rejected")

    def finish(self, sim):
        for e in self.pool:
            if not np.array_equal(e["T"].get_matrix().detach().to(torch.float64).numpy(), e["M"]):
                raise Violation("result-changed", "a transform changed after it was made")
        super().finish(sim)
        self.samples.append({"max_error_over_tolerance": round(self.maxratio, 4), "transforms": len(self.pool)})
