"""C13: compiled queries answer like eager ones throughout a model's life."""
import gc
import random
import sys

import numpy as np

from .. import base
from ..base import DT, FAULT_EXC, torch
from ..core import SimLock, Violation
from ..fleet import FleetWorld, REAL, build_model, gen_models, gen_phases, np_rng
from ..ikfleet import build_solver, gen_arms, gen_goals, gen_solver, goal_transform, make_goals
from ..robots import RefModel, random_rotation, sibling
import pytorch_kinematics.transforms as tf
import torch._dynamo as dynamo

ID = "C13"
RUNS = {"quick": 110, "thorough": 12000}
RUN_TIMEOUT = 400
STUB = ["scheduler of whole operations, of compilations and of compiled-graph executions (seeded)",
        "compiler backend (runs the captured graph as captured, or as differentiated ahead of time; no code generation)",
        "compilation failures, cancellations during compilation and failing graph executions (injected)"]
REAL = REAL + ["torch's graph capture, guards, cache and recompilation limits"]
RULE = ("Program: 1-3 models (some of them equally built), 0-2 solvers, 1-3 callers compiling the pose, Jacobian, user-made "
        "and rotation functions (static or dynamic shapes, with and without graph breaks allowed, with and without "
        "gradients) and calling them with changing batch sizes, layouts and gradient modes, between precision conversions, "
        "replacements of models by newly loaded ones, cache resets, small recompilation limits, eager queries during other "
        "callers' compilations, and failed or cancelled compilations and executions; every answer is compared with that of "
        "a never-compiled twin.")
ASSUME = ["exceeding torch's recompilation limit while insisting on a full graph is refused by torch itself; that error is "
          "accepted", "rows whose eager inverse-kinematics answer is chaotic (see C06) are not compared"]


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 3])
    models = gen_models(rng, rng.choice([1, 2, 2, 3]), n=rng.choice([2, 3, 4, 5]))
    if not any(m["kind"] == "serial" for m in models) or rng.random() < 0.3:
        models += gen_arms(rng, 1, max_dof=5, min_dof=2)
    if rng.random() < 0.25 and len(models) > 1:      # equally built, other numbers or the same ones
        models[0] = dict(models[-1])
        if rng.random() < 0.7:
            models[0]["spec"] = sibling(np_rng(rng), models[0]["spec"])
    if rng.random() < 0.25:                          # mostly about solvers
        models = gen_arms(rng, 2, max_dof=5, min_dof=2)
    serial = [i for i, m in enumerate(models) if m["kind"] == "serial" and
              RefModel(m["spec"], root=m["root"], tip=m["tip"]).n >= 1]
    arms = [i for i in serial if models[i]["root"] is None and RefModel(models[i]["spec"], tip=models[i]["tip"]).n >= 2]
    solvers = []
    if arms:
        nsol = rng.choice([0, 0, 1, 2]) if len(arms) < len(models) else rng.choice([1, 2, 3])
        for i in range(nsol):
            mi = arms[i] if i < len(arms) else rng.choice(arms)
            s = gen_solver(rng, models[mi], mi, max_it=(1, 2, 4), early=rng.random() < 0.3, retries=(1, 2, 3))
            s["start"] = "given"
            s["refine"] = min(s["refine"], 2)
            solvers.append(s)
    own = nt == 1 or rng.random() < 0.5
    p_ik = 0.10 if len(solvers) < 2 else rng.choice([0.10, 0.45])
    p_fault = rng.choice([0, 0, 0.25])
    aot = rng.choice([0, 0, 0.5])
    dyn = rng.choice([[None], [None, True], [None, True, False]])
    modes = rng.choice([["grad"], ["grad"], ["nograd"], ["grad", "nograd"], ["grad", "nograd", "inference"]])
    forms = rng.choice([["t2"], ["t2"], ["t2", "rg"], ["rg"], ["t2", "t2", "t2", "nc", "view", "exp", "rg"]])
    sizes = rng.sample([1, 2, 3, 4, 5, 7, 8, 16, 33], rng.choice([1, 2, 2, 3]))

    # what each caller compiles once and calls again and again
    kits = []
    for t in range(nt):
        mine = [i for i in range(len(models)) if not own or i % nt == t] or [t % len(models)]
        mine_s = [i for i in mine if i in serial]
        kit = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            k = rng.random()
            d = dict(dyn=rng.choice(dyn), full=rng.random() < 0.5, aot=rng.random() < aot)
            if k < 0.45 or (k < 0.75 and not mine_s):
                d.update(op="cfk", m=rng.choice(mine), ag=rng.random() < 0.8)
            elif k < 0.75:
                d.update(op="cjac", m=rng.choice(mine_s), ret=rng.choice([None, False, True]), pre=rng.random() < 0.2)
            elif k < 0.88:
                d.update(op="cuser", m=rng.choice(mine), what=rng.randrange(4))
            else:
                d.update(op="crot", what=rng.randrange(4), f=rng.choice(["f32", "f64"]))
            kit.append(d)
        kits.append((mine, kit))

    def make(r, ph, t):
        mine, kit = kits[t]
        k = r.random()
        op = dict(q=r.randrange(6), B=r.choice(sizes), form=r.choice(forms),
                  mode=r.choice(modes))
        sm = [i for i, s in enumerate(solvers) if s["m"] in mine]
        if k < 0.74 - p_ik or (k < 0.74 and not sm):
            op.update(r.choice(kit))
        elif k < 0.74:
            op.update(op="cik", s=r.choice(sm), n=r.choice([1, 1, 2, 3, 5]), g=r.randrange(50), dyn=None, full=False, aot=False)
        elif k < 0.82:
            op.update(op="eager", m=r.choice(mine), dyn=None, full=False, aot=False)
        elif k < 0.90 and own:
            op.update(op="to", m=r.choice(mine), dt=r.choice(["f32", "f64"]))
        elif k < 0.95 and own:
            op.update(op="reload", m=r.choice(mine), like=r.choice(["same", "same", "other"]), seed=r.getrandbits(30))
        elif k < 0.975:
            op.update(op="reset")
        else:
            op.update(op="renew")
        if op["op"][0] == "c" and r.random() < p_fault:
            op["fault"] = dict(kind=r.choice(["cancel", "interrupt", "oom", "memerr"]), on=r.choice(["compile", "run"]),
                               at=r.randint(1, 2))
        return op

    return dict(nthreads=nt, models=models, solvers=solvers, own=own, limit=rng.choice([1, 2, 8, 8, 8]), opcodes=False,
                torch_seed=rng.getrandbits(30), phases=gen_phases(rng, nt, 1, (8, 16) if nt == 1 else (4, 8), make))


# ------------------------------------------------------------------------------------------------------------------
class Backend:
    """The compiler seam: every capture and every execution of a captured graph passes through here."""
    world = None

    def __init__(self, aot):
        from torch._dynamo.backends.debugging import aot_eager
        self.inner = aot_eager if aot else None

    def __call__(self, gm, example_inputs, **kw):
        w = Backend.world
        w.event("compile")
        run = self.inner(gm, example_inputs) if self.inner is not None else gm.forward

        def graph(*a):
            Backend.world.event("run")
            return run(*a)
        return graph


_real_compile = torch.compile
BACK = {}


def _compile(model=None, **kw):
    """What library code gets for torch.compile: the real front end with the simulated backend."""
    w = Backend.world
    kw["backend"] = BACK[bool(w is not None and w.aot)]
    return _real_compile(model, **kw)


def warm():
    """Imports and first-use costs, before runs are forked."""
    class Null:
        aot = False

        def event(self, kind):
            pass
    Backend.world = Null()
    for aot in (False, True):
        BACK[aot] = Backend(aot)
        x = torch.zeros(3, 2, requires_grad=True)
        f = _real_compile(lambda y: (y.sin() @ y.transpose(0, 1)).sum(), backend=BACK[aot], dynamic=True)
        f(x).backward()
        f = _real_compile(tf.matrix_to_quaternion, backend=BACK[aot])
        f(torch.eye(3).repeat(2, 1, 1))
    dynamo.reset()
    torch.compile = _compile


USER = [
    lambda c, k, th: tf.matrix_to_quaternion(c.forward_kinematics_tensor(th)[k, :, :3, :3]),
    lambda c, k, th: c.forward_kinematics_tensor(th)[k, :, :3, 3].norm(dim=-1),
    lambda c, k, th: c.forward_kinematics_tensor(th.sin() * 0.5)[:, :, :3, :3].sum(0),
    lambda c, k, th: torch.linalg.inv(c.forward_kinematics_tensor(th * 2)[k]) @ c.forward_kinematics_tensor(th)[k],
]
ROT = [
    (lambda R: tf.matrix_to_quaternion(R), "R"),
    (lambda R: tf.quaternion_to_axis_angle(tf.matrix_to_quaternion(R)), "R"),
    (lambda a: tf.quaternion_to_matrix(tf.axis_angle_to_quaternion(a)), "a"),
    (lambda R: tf.quaternion_to_matrix(tf.quaternion_multiply(tf.matrix_to_quaternion(R),
                                                              tf.quaternion_invert(tf.matrix_to_quaternion(R[:1])))), "R"),
]


class W(FleetWorld):
    def setup(self, sim):
        dynamo.reset()
        p = self.prog
        self.sim = sim
        self.aot = False
        self.fault = None
        self.fired = False
        self.counts = {}
        Backend.world = self
        for k in ("recompile_limit", "cache_size_limit"):
            if hasattr(dynamo.config, k):
                setattr(dynamo.config, k, p["limit"])
        dynamo.config.suppress_errors = False
        super().setup(sim)
        self.twins = [build_model(m) for m in p["models"]]       # never compiled
        self.fns = {}
        self.gen_no = [0] * len(self.models)
        self.solvers = {}
        self.lock = SimLock()

    # -- the compiler's events ------------------------------------------------------------------------------
    def event(self, kind):
        sim = self.sim
        tid = sim.current_tid()
        if tid == "main":
            return
        self.counts[kind] = self.counts.get(kind, 0) + 1
        self.probe({"compile": "graphs-compiled", "run": "graphs-run"}[kind])
        f = self.fault
        if f is not None and f["on"] == kind:
            f["left"] -= 1
            if f["left"] == 0:
                self.fault = None
                self.fired = True
                sim.fired.append((f["kind"] + "@" + kind, kind))
                raise FAULT_EXC[f["kind"]]()
        # other callers may get to run while this one compiles or computes
        sim.local[tid] += 1
        sim.gstep += 1
        if sim.n > 1:
            sim._maybe_switch(tid, sys._getframe(1))

    def compiled(self, tid, op, sim, fn, what):
        """One call of a compiled function.  Returns (value or None, refused)."""
        out = base.Outcome()
        self.lock.acquire()
        self.aot = op["aot"]
        self.fired = False
        f = op.get("fault")
        self.fault = dict(f, left=f["at"]) if f else None
        sim.local[tid] = 0
        try:
            out.value = fn()
        except (base.core._Abort, base.core.HarnessError, base.core.Deadlock, Violation):
            raise
        except BaseException as e:  # noqa: BLE001
            out.exc = e
        finally:
            self.fault = None
            self.lock.release()
        out.fired = self.fired
        self.note(tid, op["id"], out.kind())
        if out.fired:
            if out.exc is None:
                self.probe("faults-absorbed")
                return out.value
            self.probe("faults-surfaced")
            return None
        if out.exc is not None:
            if "ecompile" in type(out.exc).__name__ or "ecompile_limit" in str(out.exc) or "recompile limit" in str(out.exc):
                self.probe("recompilation-limit-hit")
                return None
            raise Violation("compile-error", "%s raised %s: %s, eager answers" % (what, type(out.exc).__name__, str(out.exc)[:400]))
        self.probe("compiled-calls")
        return out.value

    def fn_of(self, key, make, op):
        key = key + (op["dyn"], op["full"], op["aot"])
        f = self.fns.get(key)
        if f is None:
            f = self.fns[key] = _real_compile(make(), backend=BACK[op["aot"]], dynamic=op["dyn"], fullgraph=op["full"])
        else:
            self.probe("compiled-function-reused")
        return f

    # -- comparison -----------------------------------------------------------------------------------------
    def modal(self, op, fn):
        if op["mode"] == "nograd":
            with torch.no_grad():
                return fn()
        if op["mode"] == "inference":
            with torch.inference_mode():
                return fn()
        return fn()

    def agree(self, got, want, tol, what):
        if isinstance(want, (tuple, list)):
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                raise Violation("wrong-shape", "%s: got %s, eager gives %d values" % (what, type(got).__name__, len(want)))
            for i, (a, b) in enumerate(zip(got, want)):
                self.agree(a, b, tol, what + " [%d]" % i)
            return
        if not torch.is_tensor(got) or tuple(got.shape) != tuple(want.shape):
            raise Violation("wrong-shape", "%s: got %s, eager gives %s" % (what, getattr(got, "shape", type(got)), tuple(want.shape)))
        if got.dtype != want.dtype:
            raise Violation("wrong-dtype", "%s: got %s, eager gives %s" % (what, got.dtype, want.dtype))
        if got.requires_grad != want.requires_grad:
            raise Violation("wrong-gradient", "%s: %s gradient, eager %s" % (
                what, "has a" if got.requires_grad else "has no", "has one" if want.requires_grad else "has none"))
        x, y = got.detach().to(torch.float64).numpy(), want.detach().to(torch.float64).numpy()
        with np.errstate(all="ignore"):
            d = np.where((x == y) | (np.isnan(x) & np.isnan(y)), 0, np.abs(x - y))
        m = float(np.max(d, initial=0))
        if not m <= tol * (1 + np.max(np.abs(np.nan_to_num(y)), initial=0)):
            raise Violation("differs-from-eager", "%s: compiled and eager answers differ by %.3g (tolerance %.3g)" % (what, m, tol))

    def grads(self, v, inputs, seed):
        vs = list(v) if isinstance(v, (tuple, list)) else [v]
        g = np.random.default_rng([seed, 3])
        s = sum((x * torch.tensor(g.normal(size=tuple(x.shape)), dtype=x.dtype)).sum() for x in vs)
        return torch.autograd.grad(s, inputs)

    def run_pair(self, tid, op, sim, what, key, make_c, make_e, arg, tol):
        """arg: tensor handed to both (each gets its own copy with the same layout)."""
        f = self.fn_of(key, make_c, op)
        rg = op["form"] == "rg" and op["mode"] == "grad"

        def inputs():
            if rg:
                return arg.detach().clone().requires_grad_(True)
            return arg
        a, b = inputs(), inputs()
        before = arg.detach().clone()
        got = self.compiled(tid, op, sim, lambda: self.modal(op, lambda: f(a)), what)
        if not bool((arg.detach() == before).all()):
            raise Violation("argument-altered", "%s changed its argument" % what)
        if got is None:
            return
        want = self.modal(op, lambda: make_e()(b))
        self.agree(got, want, tol, what)
        if rg and arg.numel():
            out = self.compiled(tid, dict(op, fault=None), sim, lambda: self.grads(got, [a], op["q"]), what + " backward")
            if out is not None:
                self.agree(out, self.grads(want, [b], op["q"]), 20 * tol, what + " gradient")
                self.probe("gradients-compared")
        self.hold(what, got)

    def arg(self, m, op):
        q = self.q_of(m, op)
        return base.make_input(q, op["form"] if op["form"] != "rg" else "t2", m.ref.joints, m.dtype, op["q"])[0]

    def name(self, tid, op):
        return "op %s, caller %d, model %s, B=%d %s, %s, dynamic=%s, full graph=%s%s" % (
            op["id"], tid, op.get("m"), op["B"], op["form"], op["mode"], op["dyn"], op["full"], ", aot" if op["aot"] else "")

    def tolm(self, m):
        return (1e-11 if m.dtype == torch.float64 else 2e-5) * (1 + m.ref.reach)

    # -- operations -----------------------------------------------------------------------------------------
    def op_cfk(self, tid, op, sim):
        i = op["m"]
        m, e = self.models[i], self.twins[i]
        what = "compiled forward kinematics (%s)" % self.name(tid, op)
        if op["ag"]:
            mk = lambda o: o.forward_kinematics_tensor  # noqa: E731
        else:
            mk = lambda o: (lambda th: o.forward_kinematics_tensor(th, analytical_grad=False))  # noqa: E731
        self.run_pair(tid, op, sim, what, ("fk", i, self.gen_no[i], op["ag"]), lambda: mk(m.obj), lambda: mk(e.obj),
                      self.arg(m, op), self.tolm(m))

    def op_cjac(self, tid, op, sim):
        i = op["m"]
        m, e = self.models[i], self.twins[i]
        ret, pre = op["ret"], op["pre"]
        what = "compiled Jacobian (%s, pose %s, poses given %s)" % (self.name(tid, op), ret, pre)

        def mk(o):
            if pre:
                return lambda th: o.jacobian_tensor(th, ret_eef_pose=bool(ret), all_transforms=o.forward_kinematics_tensor(th))
            if ret is None:
                return o.jacobian_tensor
            return lambda th: o.jacobian_tensor(th, ret)
        self.run_pair(tid, op, sim, what, ("jac", i, self.gen_no[i], ret, pre), lambda: mk(m.obj), lambda: mk(e.obj),
                      self.arg(m, op), self.tolm(m))

    def op_cuser(self, tid, op, sim):
        i = op["m"]
        m, e = self.models[i], self.twins[i]
        u = USER[op["what"]]
        k = m.obj.frame_to_idx[m.ref.names[-1]]
        what = "compiled user function %d (%s)" % (op["what"], self.name(tid, op))
        self.run_pair(tid, op, sim, what, ("user", i, self.gen_no[i], op["what"]), lambda: (lambda th: u(m.obj, k, th)),
                      lambda: (lambda th: u(e.obj, k, th)), self.arg(m, op), 10 * self.tolm(m))

    def op_crot(self, tid, op, sim):
        u, kind = ROT[op["what"]]
        dt = DT[op["f"]]
        g = np.random.default_rng([op["q"], op["B"], 4])
        x = np.stack([random_rotation(g) for _ in range(op["B"])]) if kind == "R" else g.normal(size=(op["B"], 3))
        x = torch.tensor(x, dtype=dt)
        what = "compiled rotation function %d (%s)" % (op["what"], self.name(tid, op))
        self.run_pair(tid, op, sim, what, ("rot", op["what"]), lambda: u, lambda: u, x, 1e-9 if dt == torch.float64 else 2e-4)

    def op_eager(self, tid, op, sim):
        """Eager queries on a model that has been compiled."""
        i = op["m"]
        m, e = self.models[i], self.twins[i]
        th = self.arg(m, op)
        out = base.Outcome()

        def ask(o):
            r = [o.obj.forward_kinematics_tensor(th)]
            v = o.obj.forward_kinematics(th)
            r += [x.get_matrix() for x in (v.values() if isinstance(v, dict) else [v])]
            if o.kind == "serial" and o.ref.n:
                r.append(o.obj.jacobian(th))
            return r
        try:
            out.value = self.modal(op, lambda: ask(m))
        except Exception as ex:  # noqa: BLE001
            raise Violation("unexpected-error", "eager query on a compiled model (%s) raised %s: %s" % (
                self.name(tid, op), type(ex).__name__, str(ex)[:300]))
        self.agree(out.value, self.modal(op, lambda: ask(e)), self.tolm(m), "eager query on a compiled model (%s)" % self.name(tid, op))
        self.note(tid, op["id"])
        if self.lock.locked():
            self.probe("eager-queries-during-compiled-calls")

    def op_to(self, tid, op, sim):
        i = op["m"]
        for o in (self.models[i], self.twins[i]):
            o.obj = o.obj.to(dtype=DT[op["dt"]])
            o.dtype = DT[op["dt"]]
        for k in [k for k in self.solvers if self.prog["solvers"][k]["m"] == i]:
            del self.solvers[k]
        self.probe("conversions")

    def op_reload(self, tid, op, sim):
        """The model is dropped and another one takes its place (possibly at the same address)."""
        i = op["m"]
        d = dict(self.prog["models"][i])
        if op["like"] == "other":
            d2 = gen_models(random.Random(op["seed"]), 1, n=3)[0]
            if d["kind"] == "chain" or (d2["kind"] == "serial" and
                                        RefModel(d2["spec"], root=d2["root"], tip=d2["tip"]).n >= 1 and
                                        not any(s["m"] == i for s in self.prog["solvers"])):
                d = d2
        for k in [k for k in self.fns if len(k) > 1 and k[0] != "rot" and k[1] == i]:
            del self.fns[k]
        for k in [k for k in self.solvers if self.prog["solvers"][k]["m"] == i]:
            del self.solvers[k]
        self.models[i] = None
        gc.collect()
        self.gen_no[i] += 1
        self.models[i] = build_model(d)
        self.twins[i] = build_model(d)
        if self.prog["models"][i]["kind"] == "serial" and d["kind"] == "chain":
            raise base.core.HarnessError("kind changed")
        self.probe("models-replaced")

    def op_reset(self, tid, op, sim):
        self.lock.acquire()
        dynamo.reset()
        self.lock.release()
        self.probe("cache-resets")

    def op_renew(self, tid, op, sim):
        """Compiled wrappers are thrown away; new ones meet the old cache."""
        if self.lock.locked():
            return
        self.fns.clear()
        self.solvers.clear()
        self.probe("wrappers-renewed")

    FIELDS = ["solutions", "err_pos", "err_rot", "converged", "converged_pos", "converged_rot"]

    @staticmethod
    def field(sol, f):
        x = np.asarray(getattr(sol, f).detach().numpy(), float)
        return np.where(np.isfinite(x), x, np.nan)         # how exactly a hopeless goal overflows does not matter

    def op_cik(self, tid, op, sim):
        s = self.prog["solvers"][op["s"]]
        i = s["m"]
        m, e = self.models[i], self.twins[i]
        key = op["s"]
        what = "compiled inverse kinematics (op %s, caller %d, solver %d, %d goals)" % (op["id"], tid, op["s"], op["n"])
        if key not in self.solvers:
            self.aot = False
            self.solvers[key] = build_solver(s, m, use_compile=True)
        k = self.solvers[key]
        starts = k.initial_config.detach().to(torch.float64).numpy()
        G, ok = make_goals(gen_goals(random.Random(op["g"]), op["n"]), op["g"], m.ref, starts, m.dtype)
        T = goal_transform(G, m.dtype)
        sol = self.compiled(tid, op, sim, lambda: k.solve(T), what)
        if sol is None:
            return
        g = np.random.default_rng(op["g"])
        delta = 1e-9 if m.dtype == torch.float64 else 1e-5
        rows = []
        for j in range(3):
            q = torch.tensor(starts + (0 if j == 0 else delta * g.normal(size=starts.shape)), dtype=m.dtype)
            x = build_solver(s, e, retry_configs=q).solve(T)
            rows.append({f: self.field(x, f) for f in self.FIELDS})
        got = {f: self.field(sol, f) for f in self.FIELDS}
        for f in self.FIELDS:
            if got[f].shape != rows[0][f].shape:
                raise Violation("wrong-shape", "%s: %s has shape %s, eager %s" % (what, f, got[f].shape, rows[0][f].shape))
        if sol.solutions.dtype != m.dtype:
            raise Violation("wrong-dtype", "%s: %s" % (what, sol.solutions.dtype))
        # with stopping rules that look across the batch, one chaotic row spoils all
        sp = np.zeros(got["converged"].shape)
        for r in rows[1:]:
            for f in self.FIELDS:
                x, y = rows[0][f], r[f]
                with np.errstate(all="ignore"):
                    d = np.where((x == y) | (np.isnan(x) & np.isnan(y)), 0, np.abs(x - y) / (1 + 1e-3 * np.abs(x)))
                d = np.where(np.isnan(d), np.inf, d)
                if f.startswith("conv"):
                    d = np.where(d > 0, np.inf, 0)
                sp = np.maximum(sp, d.max(-1) if d.ndim == 3 else d)
        if s["noimp"] is not None or s["any"]:
            sp[:] = sp.max()
        judged = sp <= 1e-3
        self.probe("rows-chaotic", int((~judged).sum()))
        self.probe("solve-rows-compared", int(judged.sum()))
        tol = 100 * sp + (1e-8 if m.dtype == torch.float64 else 1e-4)
        for f in self.FIELDS:
            x, y = rows[0][f], got[f]
            t = tol[..., None] if x.ndim == 3 else tol
            j = judged[..., None] if x.ndim == 3 else judged
            with np.errstate(all="ignore"):
                bad = j & ~((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= t * (1 + 1e-3 * np.abs(x))))
            if bad.any():
                a = tuple(np.argwhere(bad)[0])
                raise Violation("differs-from-eager", "%s: %s%s = %.9g, eager %.9g" % (what, f, list(a), y[a], x[a]))
        self.hold(what, [sol.solutions, sol.err_pos, sol.err_rot, sol.converged])
