"""C12: random sampling is reproducible and always within its contract."""
import random

import numpy as np
from torch.overrides import TorchFunctionMode

from .. import base
from ..base import DT, call, need, pk, same, snap, torch
from ..core import Violation
from ..fleet import FleetWorld, REAL, STUB as STUB0, gen_phases
from ..ikfleet import build_solver, gen_arms, gen_goals, gen_solver, goal_transform, make_goals, span
from ..robots import homog, random_rotation
import pytorch_kinematics.transforms as tf
from pytorch_kinematics.ik import gaussian_around_config
from pytorch_kinematics.transforms.perturbation import sample_perturbations

ID = "C12"
RUNS = {"quick": 1800, "thorough": 100000}
STUB = STUB0 + ["in half of the runs: the random stream (one simulated stream per caller, which now and then yields the "
                "extreme values a real one can yield)"]
RULE = ("Program: 1-2 arms, 1-3 solvers, 1-4 callers drawing starting configurations (uniform in given limits, gaussian, "
        "around a configuration, with the caller's own sampler, while building a solver), random rotations and perturbed "
        "transforms, interleaved with solves, queries, conversions of rotations and loads that need no randomness, with "
        "reseeding, with noise in other random generators of the process and with draws cancelled half way; every sample is "
        "checked against its contract, every sequence between two seedings is repeated later from the same seed, and with "
        "simulated per-caller streams every caller's samples are repeated alone from the same stream.")
ASSUME = ["rotation axes handed in have unit length; sigmas are non-negative",
          "a normal stream does not yield an exactly zero vector",
          "statistical spread is only checked against bounds that a correct sampler exceeds with probability below 1e-10"]
EPS = {torch.float32: 1.2e-7, torch.float64: 2.3e-16}


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 3, 4])
    models = gen_arms(rng, rng.choice([1, 1, 2]), min_dof=2)
    solvers = []
    for i in range(rng.choice([1, 2, 3])):
        mi = rng.randrange(len(models))
        s = gen_solver(rng, models[mi], mi, max_it=(1, 2, 3), retries=(1, 2, 4))
        s["start"] = rng.choice(["given", "uniform", "uniform", "gaussian", "callable", "around"])
        solvers.append(s)
    p_fault = rng.choice([0, 0, 0.15])

    def make(r, ph, t):
        k = r.random()
        op = dict(w=r.getrandbits(16), s=r.getrandbits(24), n=r.choice([0, 1, 1, 2, 3, 7, 16, 130]))
        if k < 0.30:
            op.update(op="configs")
        elif k < 0.38:
            op.update(op="build", start=r.choice(["uniform", "uniform", "gaussian", "callable", "around", "given"]),
                      lim=r.choice(["model", "tight", "point", "wide", "other", "mixed"]))
        elif k < 0.46:
            op.update(op="around", std=r.choice([0.0, 0.01, 1.0]))
        elif k < 0.60:
            op.update(op="rot", what=r.choice(["quat", "quat", "rots", "rots", "rot1"]), dt=r.choice(["f32", "f64", None]),
                      grad=r.random() < 0.2)
        elif k < 0.78:
            op.update(op="pert", dt=r.choice(["f32", "f64"]), rs=r.choice([0.0, 1e-3, 0.1, 0.1, 2.0]),
                      ts=r.choice([0.0, 1e-3, 0.1, 3.0]), axis=r.random() < 0.6, perp=r.choice([None, True, True, False]),
                      batch=r.choice([0, 0, 1, 2]))
        elif k < 0.92:
            op.update(op="plain", what=r.choice(["solve", "fk", "jac", "rot", "extract", "clone", "grad", "limits"]))
        elif k < 0.96 and nt == 1:
            op.update(op="seed")
        elif k < 0.98 and nt == 1:
            op.update(op="again")
        else:
            op.update(op="noise")
        if op["op"] in ("configs", "rot", "pert", "around", "build") and r.random() < p_fault:
            op["fault"] = dict(kind=r.choice(["cancel", "interrupt", "oom"]), on=r.choice(["line", "line", "op"]),
                               at=r.randint(1, 25))
        return op

    return dict(nthreads=nt, models=models, solvers=solvers, opcodes=rng.random() < 0.2, torch_seed=rng.getrandbits(30),
                stream=rng.choice([None, None, 0.0, 0.1, 0.5]), max_op_steps=2000000,
                phases=gen_phases(rng, nt, rng.choice([1, 1, 2]), (3, 10) if nt > 1 else (6, 24), make))


class Stream(TorchFunctionMode):
    """A simulated random stream: what torch's generator would have drawn comes from here instead."""
    UNI = (torch.rand, torch.rand_like, torch.Tensor.uniform_)
    NOR = (torch.randn, torch.randn_like, torch.normal, torch.Tensor.normal_)

    def __init__(self, seed, extremes):
        super().__init__()
        self.g = np.random.default_rng(seed)
        self.p = extremes
        self.draws = 0

    def fill(self, t, kind):
        shape, dt = tuple(t.shape), t.dtype
        e = EPS.get(dt, 1.2e-7)
        self.draws += t.numel()
        if kind == "u":
            x = self.g.random(shape)
            m = self.g.random(shape) < self.p
            x = np.where(m, self.g.choice([0.0, 1 - e, 1 - e / 2 if dt == torch.float64 else 1 - e, 0.5, e], size=shape), x)
            x = np.minimum(x, 1 - e / 2) if dt != torch.float64 else x
        else:
            x = self.g.normal(size=shape)
            m = self.g.random(shape) < self.p
            v = np.where(m, self.g.choice([0.0, 5.4, -5.4, 1e-6, -1e-6], size=shape), x)
            if v.ndim:                                     # never a zero vector
                z = np.abs(v).max(-1, keepdims=True, initial=0) < 1e-3
                v = np.where(z, x, v)
            x = v
        with torch.no_grad():
            t.copy_(torch.as_tensor(x.astype(np.float32) if dt == torch.float32 else x))
        return t

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if func in (torch.rand, torch.randn):
            like = torch.zeros if not kwargs.get("generator") else None
            if like is not None:
                kw = {k: v for k, v in kwargs.items() if k in ("dtype", "device", "requires_grad", "size")}
                rg = kw.pop("requires_grad", False)
                t = self.fill(torch.zeros(*args, **kw), "u" if func is torch.rand else "n")
                return t.requires_grad_(True) if rg else t
        elif func in (torch.rand_like, torch.randn_like):
            kw = {k: v for k, v in kwargs.items() if k in ("dtype", "device")}
            return self.fill(torch.zeros_like(args[0], **kw), "u" if func is torch.rand_like else "n")
        elif func is torch.Tensor.uniform_ and not kwargs.get("generator"):
            lo = kwargs.get("from", args[1] if len(args) > 1 else 0.0)
            hi = kwargs.get("to", args[2] if len(args) > 2 else 1.0)
            t = self.fill(torch.zeros_like(args[0]), "u") * (hi - lo) + lo
            return args[0].copy_(t)
        elif func is torch.Tensor.normal_ and not kwargs.get("generator"):
            mu = kwargs.get("mean", args[1] if len(args) > 1 else 0.0)
            sd = kwargs.get("std", args[2] if len(args) > 2 else 1.0)
            return args[0].copy_(self.fill(torch.zeros_like(args[0]), "n") * sd + mu)
        elif func is torch.normal and not kwargs.get("generator") and args and isinstance(args[0], torch.Tensor):
            sd = args[1] if len(args) > 1 else kwargs.get("std", 1.0)
            shape = torch.broadcast_shapes(args[0].shape, getattr(sd, "shape", ()))
            return self.fill(torch.zeros(shape, dtype=args[0].dtype), "n") * sd + args[0]
        return func(*args, **kwargs)


def others():
    return (random.getstate(), np.random.get_state()[1].tobytes(), np.random.get_state()[2:])


class W(FleetWorld):
    def setup(self, sim):
        super().setup(sim)
        p = self.prog
        random.seed(p["torch_seed"])
        np.random.seed(p["torch_seed"] % (1 << 31))
        self.sim_stream = p["stream"] is not None
        self.streams, self.logs = {}, {}
        if self.sim_stream:
            for t in range(sim.n):
                self.streams[t] = Stream([p["torch_seed"], t], p["stream"])
                self.logs[t] = []
        self.broken = set()
        self.spoilt = False
        self.segments = []
        self.solvers = []
        for i, s in enumerate(p["solvers"]):
            self.solvers.append((s, self.models[s["m"]], self.make_solver(s, self.models[s["m"]], [7, i])))
        self.start_state = torch.random.get_rng_state()
        self.oth = others()
        self.base_seed = torch.initial_seed()
        self.noisy = False
        if sim.n == 1:
            self.reseed(p["torch_seed"] & 0xFFFF)

    # -- building blocks ------------------------------------------------------------------------------------
    def limits_of(self, m, how, g):
        lo, hi = span(*m.ref.limits())
        n = m.ref.n
        if how == "tight":
            lo = g.uniform(-2, 2, n)
            hi = lo + 1e-3
        elif how == "point":
            lo = g.uniform(-2, 2, n)
            hi = lo.copy()
        elif how == "wide":
            lo, hi = np.full(n, -1e3), np.full(n, 2e3)
        elif how == "mixed":
            a, b = g.uniform(-3, 3, (2, n))
            lo, hi = np.minimum(a, b), np.maximum(a, b)
        dt = m.dtype
        if how == "other":
            dt = torch.float64 if dt == torch.float32 else torch.float32
        return torch.tensor(np.stack([lo, hi], 1), dtype=dt)

    def make_solver(self, s, m, seed, start=None, lim="model", n=None):
        g = np.random.default_rng(seed)
        start = start or s["start"]
        s = dict(s, start="given" if start != "gaussian" else "gaussian")
        if n is not None:
            s["R"] = max(1, n)
        over = {}
        if start == "uniform":
            over = dict(retry_configs=None, num_retries=s["R"], joint_limits=self.limits_of(m, lim, g))
        elif start == "callable":
            k = [0]

            def own(num):
                k[0] += 1
                return torch.full((num, m.ref.n), 0.125 * k[0], dtype=m.dtype)
            over = dict(retry_configs=None, num_retries=s["R"], config_sampling_method=own)
        elif start == "around":
            c = torch.tensor(g.uniform(-1, 1, m.ref.n), dtype=m.dtype)
            over = dict(retry_configs=None, num_retries=s["R"], config_sampling_method=gaussian_around_config(c, 0.1))
        return build_solver(s, m, **over)

    def check_uniform(self, x, lim, dt, what):
        L = lim.to(torch.float64).numpy()
        X = x.detach().to(torch.float64).numpy()
        slack = 4 * EPS[dt] * (1 + np.abs(L).max(1)) + (4 * EPS[torch.float32] * (1 + np.abs(L).max(1)) if lim.dtype != dt else 0)
        bad = ~((X >= L[:, 0] - slack) & (X <= L[:, 1] + slack))
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Violation("outside-limits", "%s: joint %d of sample %d is %.9g, limits [%.9g, %.9g]" % (
                what, i[1], i[0], X[i], L[i[1], 0], L[i[1], 1]))

    def check_shape(self, x, shape, dt, what):
        if tuple(x.shape) != shape:
            raise Violation("wrong-shape", "%s: %s, expected %s" % (what, tuple(x.shape), shape))
        if x.dtype != dt:
            raise Violation("wrong-dtype", "%s: %s, expected %s" % (what, x.dtype, dt))
        if not torch.isfinite(x).all():
            raise Violation("not-finite", "%s: non-finite sample" % what)

    def spread(self, x, what, scale=None):
        """Real streams only: samples differ from each other, and from the previous call's."""
        if x.shape[0] >= 2 and x.numel() and bool((x == x[:1]).all()):
            raise Violation("not-random", "%s: %d identical samples" % (what, x.shape[0]))

    def draw(self, tid, op, sim, fn, what, check, random_=True):
        """One call that may draw."""
        st0 = torch.random.get_rng_state()
        alone = sim.n == 1
        mode = self.streams.get(tid)
        f0 = fn
        if mode is not None:
            def fn():
                with mode:
                    return f0()
        f = op.get("fault")
        out = call(sim, fn, fault=f)
        self.note(tid, op["id"], out.kind())
        if out.fired:
            self.after_fault(out, what)
            self.broken.add(tid)
            if alone:
                self.reseed(op["s"] & 0xFFFF)
            self.probe("draws-cancelled")
            return None
        v = need(out, what)
        s = self.hold(what, v)[2]
        check(v)
        if mode is not None:
            if not bool((torch.random.get_rng_state() == st0).all()) and not self.noisy and alone:
                self.spoilt = True      # some draw the simulated stream does not cover
            if tid not in self.broken:
                self.logs[tid].append((f0, s, what))
        elif alone:
            self.segments[-1][1].append((f0, s, what))
            if random_ and bool((torch.random.get_rng_state() == st0).all()) and op["n"] > 0:
                raise Violation("not-from-the-stream", "%s: nothing was drawn from the framework's random stream" % what)
        if alone:
            self.check_others(what)
        self.probe("draws")
        return v

    def check_others(self, what):
        if others() != self.oth:
            raise Violation("other-stream-used", "%s: drew from another random generator of the process" % what)

    def reseed(self, s):
        torch.manual_seed(s)
        self.segments.append([s, []])

    # -- operations -----------------------------------------------------------------------------------------
    def op_configs(self, tid, op, sim):
        s, m, k = self.solvers[op["w"] % len(self.solvers)]
        n = op["n"]
        st = s["start"]
        if st == "given":
            st = "gaussian-less"
        what = "sample_configs(%d) of solver %d, %s (op %s, caller %d)" % (n, op["w"] % len(self.solvers), s["start"], op["id"], tid)
        if s["start"] == "given":
            # neither sampler nor limits: refused, and nothing drawn
            st0 = torch.random.get_rng_state()
            out = call(sim, lambda: k.sample_configs(n))
            self.note(tid, op["id"], out.kind())
            if out.ok:
                raise Violation("bad-request-accepted", "%s: sampled uniformly without any limits" % what)
            if sim.n == 1 and not bool((torch.random.get_rng_state() == st0).all()):
                raise Violation("drew-needlessly", "%s: a refused request drew" % what)
            self.probe("refused")
            return
        if s["start"] == "callable" and (sim.n > 1 or op.get("fault")):
            return      # that sampler has state of its own

        def check(x):
            self.check_shape(x, (n, m.ref.n), m.dtype, what)
            if s["start"] == "uniform":
                self.check_uniform(x, k.joint_limits, m.dtype, what)
        if s["start"] == "callable":
            st0 = torch.random.get_rng_state()
            x = need(call(sim, lambda: k.sample_configs(n)), what)
            check(x)
            if not bool((torch.random.get_rng_state() == st0).all()):
                raise Violation("drew-needlessly", "%s: the caller's own sampler was asked, yet the stream moved" % what)
            if n and bool((x != x[:1, :1]).any()):
                raise Violation("wrong-value", "%s: not what the caller's sampler returned" % what)
            self.probe("own-sampler")
            return
        x = self.draw(tid, op, sim, lambda: k.sample_configs(n), what, check)
        if x is not None and not self.sim_stream:
            self.spread(x, what)

    def op_build(self, tid, op, sim):
        s0, m, _ = self.solvers[op["w"] % len(self.solvers)]
        start = op["start"]
        what = "building a solver with %s starts (op %s, caller %d)" % (start, op["id"], tid)
        n = max(1, op["n"] % 17)
        res = []

        def fn():
            k = self.make_solver(s0, m, [op["s"], 3], start, op["lim"], n)
            res[:] = [k]
            return k.initial_config

        def check(x):
            self.check_shape(x, (n, m.ref.n), m.dtype, what)
            if start == "uniform":
                self.check_uniform(x, res[0].joint_limits, m.dtype, what)
            if res[0].num_retries != n:
                raise Violation("wrong-shape", "%s: %d attempts, expected %d" % (what, res[0].num_retries, n))
        st0 = torch.random.get_rng_state()
        x = self.draw(tid, op, sim, fn, what, check, random_=start not in ("callable", "given"))
        if start in ("callable", "given") and sim.n == 1 and x is not None and \
                not bool((torch.random.get_rng_state() == st0).all()):
            raise Violation("drew-needlessly", "%s: the stream moved" % what)
        if x is not None and not self.sim_stream and start in ("gaussian", "around"):
            self.spread(x, what)

    def op_around(self, tid, op, sim):
        m = self.models[op["w"] % len(self.models)]
        g = np.random.default_rng([op["s"], 4])
        c = torch.tensor(g.uniform(-2, 2, m.ref.n), dtype=m.dtype)
        n, std = op["n"], op["std"]
        what = "sampling %d around a configuration, std %g (op %s, caller %d)" % (n, std, op["id"], tid)
        f = gaussian_around_config(c, std)

        def check(x):
            self.check_shape(x, (n, m.ref.n), m.dtype, what)
            d = (x - c).abs()
            if n and float(d.max()) > 9.5 * std + 1e-6:
                raise Violation("wrong-value", "%s: %.3g away from the configuration" % (what, float(d.max())))
            if not self.sim_stream and std > 0 and n >= 100:
                r = float(((x - c).double() / std).square().mean().sqrt())
                if not 0.5 < r < 2:
                    raise Violation("wrong-value", "%s: spread %.3g standard deviations" % (what, r))
        self.draw(tid, op, sim, lambda: f(n), what, check)

    def op_rot(self, tid, op, sim):
        dt = DT[op["dt"]] if op["dt"] else None
        rdt = dt or torch.get_default_dtype()
        n, w = op["n"], op["what"]
        kw = dict(requires_grad=True) if op["grad"] else {}
        what = "%s(%d, %s) (op %s, caller %d)" % (w, n, op["dt"], op["id"], tid)
        if w == "rot1":
            fn = lambda: tf.random_rotation(dtype=dt, **kw)  # noqa: E731
        elif w == "rots":
            fn = lambda: tf.random_rotations(n, dtype=dt, **kw)  # noqa: E731
        else:
            fn = lambda: tf.random_quaternions(n, dtype=dt, **kw)  # noqa: E731

        def check(x):
            self.check_shape(x, {"rot1": (3, 3), "rots": (n, 3, 3), "quat": (n, 4)}[w], rdt, what)
            X = x.detach().to(torch.float64).numpy()
            tol = 30 * EPS[rdt]
            if w == "quat":
                if n and np.abs((X * X).sum(1) - 1).max() > tol:
                    raise Violation("not-a-rotation", "%s: norm off by %.3g" % (what, np.abs((X * X).sum(1) - 1).max()))
                if n and X[:, 0].min() < 0:
                    raise Violation("wrong-value", "%s: negative real part" % what)
            else:
                X = X.reshape(-1, 3, 3)
                self.proper(X, tol, what)
            if op["grad"] and not x.requires_grad:
                raise Violation("wrong-value", "%s: gradient was requested but is not tracked" % what)
        x = self.draw(tid, op, sim, fn, what, check, random_=True if w != "rot1" else op["n"] > 0)
        if x is not None and not self.sim_stream and w != "rot1":
            self.spread(x, what)
            if n >= 100:                                   # every direction is as likely as its opposite
                X = x.detach().to(torch.float64).numpy()
                m = np.abs(X[:, 1:].mean(0) / 0.5 if w == "quat" else X.mean(0) * 3 ** 0.5).max()
                if m * n ** 0.5 > 7:
                    raise Violation("wrong-value", "%s: the rotations lean to one side (mean off by %.3g standard errors)" % (
                        what, m * n ** 0.5))

    def proper(self, X, tol, what):
        if not len(X):
            return
        d = np.abs(X @ np.swapaxes(X, 1, 2) - np.eye(3)).max()
        if not d <= tol:
            raise Violation("not-a-rotation", "%s: off orthogonality by %.3g" % (what, d))
        if np.linalg.det(X).min() < 0:
            raise Violation("not-a-rotation", "%s: a reflection" % what)

    def op_pert(self, tid, op, sim):
        dt = DT[op["dt"]]
        g = np.random.default_rng([op["s"], 6])
        n, rs, ts = op["n"], op["rs"], op["ts"]
        nb = {0: None, 1: 1, 2: n}[op["batch"]]
        M = np.stack([homog(random_rotation(g), g.uniform(-1, 1, 3)) for _ in range(max(1, nb or 1))])
        T = torch.tensor(M[0] if nb is None else M[: max(nb, 0)], dtype=dt)
        ax = None
        if op["axis"]:
            a = g.normal(size=3)
            if g.random() < 0.4:
                a = np.eye(3)[int(g.integers(3))] * (1 if g.random() < 0.7 else -1)
            ax = torch.tensor(a / np.linalg.norm(a), dtype=dt)
        kw = {} if ax is None else dict(axis_of_rotation=ax)
        if op["perp"] is not None:
            kw["translation_perpendicular_to_axis_of_rotation"] = op["perp"]
        what = "sample_perturbations(%d, %g, %g, axis %s, perpendicular %s, base %s) (op %s, caller %d)" % (
            n, rs, ts, ax is not None, op["perp"], tuple(T.shape), op["id"], tid)

        def check(P):
            self.check_shape(P, (n, 4, 4), dt, what)
            if not n:
                return
            X = P.detach().to(torch.float64).numpy()
            B = T.to(torch.float64).numpy()
            B = np.broadcast_to(B, (n, 4, 4))
            tol = 60 * EPS[dt]
            if np.abs(X[:, 3] - [0, 0, 0, 1]).max() > 0:
                raise Violation("not-rigid", "%s: bottom row" % what)
            D = X[:, :3, :3] @ np.swapaxes(B[:, :3, :3], 1, 2)
            self.proper(D, tol * 2, what)
            d = X[:, :3, 3] - B[:, :3, 3]
            dt_tol = tol * (1 + np.abs(B[:, :3, 3]).max() + np.abs(d).max())
            cos = np.clip((np.trace(D, axis1=1, axis2=2) - 1) / 2, -1, 1)
            sin = np.linalg.norm(np.stack([D[:, 2, 1] - D[:, 1, 2], D[:, 0, 2] - D[:, 2, 0], D[:, 1, 0] - D[:, 0, 1]], 1), axis=1) / 2
            ang = np.arctan2(sin, cos)
            if 9.5 * rs < np.pi and ang.max() > 9.5 * rs + 10 * tol:
                raise Violation("wrong-value", "%s: turned by %.3g" % (what, ang.max()))
            if np.abs(d).max() > 9.5 * ts * (1 if ax is None or op["perp"] is False else 3) + dt_tol:
                raise Violation("wrong-value", "%s: moved by %.3g" % (what, np.abs(d).max()))
            if ax is not None:
                a = ax.to(torch.float64).numpy()
                e = np.abs(D @ a - a).max()
                if e > 2 * tol:
                    raise Violation("wrong-axis", "%s: the axis itself is turned by %.3g" % (what, e))
                if op["perp"] is not False:
                    e = np.abs(d @ a).max()
                    if e > 2 * dt_tol:
                        raise Violation("not-perpendicular", "%s: moved along the axis by %.3g" % (what, e))
            if not self.sim_stream and n >= 100:
                if 0 < rs <= 0.1:
                    r = np.sqrt((ang ** 2).mean()) / rs
                    if rs > 1e3 * tol and not 0.5 < r < 2:
                        raise Violation("wrong-value", "%s: angles spread %.3g standard deviations" % (what, r))
                if ts > 1e3 * dt_tol:
                    r = np.sqrt((d ** 2).sum(1).mean()) / ts
                    if not 0.6 < r < 3.5:
                        raise Violation("wrong-value", "%s: offsets spread %.3g standard deviations" % (what, r))
                    if ax is not None and op["perp"] is False and np.sqrt(((d @ a) ** 2).mean()) < 0.4 * ts:
                        raise Violation("wrong-value", "%s: no motion along the axis although it was asked for" % what)
                if ax is None and 0 < rs and rs > 1e3 * tol:   # the directions fill the sphere
                    w = np.stack([D[:, 2, 1] - D[:, 1, 2], D[:, 0, 2] - D[:, 2, 0], D[:, 1, 0] - D[:, 0, 1]], 1)
                    w = w / np.maximum(np.linalg.norm(w, axis=1, keepdims=True), 1e-300)
                    if np.linalg.eigvalsh(w.T @ w / n)[0] < 0.1:
                        raise Violation("wrong-value", "%s: the rotation directions lie in a plane" % what)
        self.draw(tid, op, sim, lambda: sample_perturbations(T, n, rs, ts, **kw), what, check)

    # -- things that need no randomness ---------------------------------------------------------------------
    def op_plain(self, tid, op, sim):
        s, m, k = self.solvers[op["w"] % len(self.solvers)]
        g = np.random.default_rng([op["s"], 8])
        q = torch.tensor(base.gen_q(op["s"] % 5, m.ref, 3), dtype=m.dtype)
        w = op["what"]
        if w == "solve":
            goals, ok = make_goals(gen_goals(random.Random(op["s"]), 2), op["s"] % 9, m.ref, [], m.dtype)
            T = goal_transform(goals, m.dtype)
            fn = lambda: k.solve(T)  # noqa: E731
        elif w == "fk":
            fn = lambda: m.obj.forward_kinematics(q)  # noqa: E731
        elif w == "jac":
            fn = lambda: m.obj.jacobian(q)  # noqa: E731
        elif w == "grad":
            x = q.clone().requires_grad_(True)
            fn = lambda: torch.autograd.grad(m.obj.forward_kinematics(x).get_matrix().sum(), [x])  # noqa: E731
        elif w == "rot":
            R = torch.tensor(np.stack([random_rotation(g) for _ in range(3)]))
            fn = lambda: [tf.matrix_to_quaternion(R), tf.matrix_to_euler_angles(R, "XYZ"), tf.matrix_to_rotation_6d(R),  # noqa: E731
                          tf.quaternion_to_matrix(tf.matrix_to_quaternion(R))]
        elif w == "extract":
            fn = lambda: str(base.load(m.spec, m.ref.tip))  # noqa: E731
        elif w == "clone":
            fn = lambda: pk.Transform3d(matrix=torch.eye(4)).clone().compose(pk.RotateAxisAngle(30, "X"))  # noqa: E731
        else:
            fn = lambda: [m.obj.get_joint_limits(), m.obj.clamp(q), k.initial_config.clone()]  # noqa: E731
        st0 = torch.random.get_rng_state()
        need(call(sim, fn), "%s (op %s, caller %d)" % (w, op["id"], tid))
        self.note(tid, op["id"], w)
        if sim.n == 1:
            if not bool((torch.random.get_rng_state() == st0).all()):
                raise Violation("drew-needlessly", "%s moved the random stream (op %s)" % (w, op["id"]))
            self.check_others(w)
        self.probe("calls-without-randomness")

    def op_seed(self, tid, op, sim):
        self.reseed(op["s"] & 0xFFFF)

    def op_noise(self, tid, op, sim):
        """The rest of the process uses its own generators."""
        random.seed(op["s"])
        np.random.seed(op["s"])
        torch.Generator().manual_seed(op["s"])
        if sim.n == 1:
            self.oth = others()
        self.noisy = True

    def repeat(self, seg, what):
        seed, log = seg
        if not log:
            return
        st = torch.random.get_rng_state()
        random.seed(99)
        np.random.seed(98)
        torch.manual_seed(seed)
        for fn, s, w in log:
            v = snap(fn())
            if not same(v, s):
                raise Violation("not-reproducible", "%s: %s repeated from the same seed differs: %s" % (what, w, base.diff(v, s)))
        torch.random.set_rng_state(st)
        self.oth = others()
        self.probe("sequences-repeated")

    def op_again(self, tid, op, sim):
        if not self.sim_stream:
            self.repeat(self.segments[op["w"] % len(self.segments)], "op %s" % op["id"])

    def finish(self, sim):
        self.check_held()
        if self.sim_stream:
            if not self.spoilt:
                for t in range(sim.n):
                    mode = Stream([self.prog["torch_seed"], t], self.prog["stream"])
                    with mode:
                        for fn, s, w in self.logs[t]:
                            v = snap(fn())
                            if not same(v, s):
                                raise Violation("not-reproducible", "%s repeated alone from the same stream differs: %s" % (
                                    w, base.diff(v, s)))
                    self.probe("streams-repeated")
        elif sim.n == 1:
            for seg in self.segments:
                self.repeat(seg, "at the end")
        elif not any(op["op"] in ("configs", "rot", "pert", "around", "build") for ph in self.prog["phases"] for t in ph for op in t):
            if not bool((torch.random.get_rng_state() == self.start_state).all()):
                raise Violation("drew-needlessly", "no call of the run needed randomness, yet the stream moved")
        self.samples.append({"streams": "simulated" if self.sim_stream else "torch", "callers": sim.n})
