"""What every simulated world shares: importing the library through the seams, inputs, comparison, call outcomes."""
import contextlib
import hashlib
import io
import json
import math
import os
import random
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("MKL_CBWR", "COMPATIBLE")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

from . import core  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
core.set_src(os.path.join(REPO, "src", "pytorch_kinematics"))
core.install_lock_seam()
if os.path.join(REPO, "src") not in sys.path:
    sys.path.insert(0, os.path.join(REPO, "src"))

import numpy as np  # noqa: E402
import torch  # noqa: E402

import pytorch_kinematics as pk  # noqa: E402
from torch.utils._python_dispatch import TorchDispatchMode  # noqa: E402

torch.set_num_threads(1)
if not os.path.abspath(pk.__file__).startswith(core.SRC_PREFIX):
    raise core.HarnessError("library imported from %s, not from %s" % (pk.__file__, core.SRC_PREFIX))

from . import robots  # noqa: E402
from .core import SimCancel, StepLimit, Violation  # noqa: E402

DT = {"f32": torch.float32, "f64": torch.float64}


class SimOOM(RuntimeError):
    """Injected allocation failure (same base class as torch's own)."""


class SimLinAlg(torch._C._LinAlgError):
    """Injected numerical-library failure."""


class SimMemory(MemoryError):
    """Injected interpreter allocation failure."""


class SimKbd(KeyboardInterrupt):
    """Injected interrupt."""


FAULT_EXC = {
    "cancel": lambda: SimCancel("simulated cancellation"),
    "interrupt": lambda: SimKbd("simulated interrupt"),
    "oom": lambda: SimOOM("simulated: DefaultCPUAllocator: can't allocate memory"),
    "linalg": lambda: SimLinAlg("simulated: linalg: the algorithm failed to converge"),
    "memerr": lambda: SimMemory("simulated"),
}
INJECTED = (SimCancel, SimKbd, SimOOM, SimLinAlg, SimMemory)


class DispatchFault(TorchDispatchMode):
    """Counts tensor operations of one simulated thread and fails the k-th."""

    def __init__(self, at=None, make=None):
        super().__init__()
        self.n = 0
        self.at = at
        self.make = make
        self.fired = None

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = str(func)
            raise self.make()
        return func(*args, **(kwargs or {}))


def _warm():
    """Pull in everything torch imports lazily, once, before runs are forked."""
    with DispatchFault():
        a = torch.eye(3)
        torch.linalg.solve_ex(a, a)
        torch.linalg.svd(a)
        x = torch.zeros(2, requires_grad=True)
        torch.autograd.grad((x * x).sum(), [x])


_warm()


# ------------------------------------------------------------------------------------------------------------------
class Outcome:
    __slots__ = ("value", "exc", "steps", "ops", "fired")

    def __init__(self, value=None, exc=None, steps=0, ops=0, fired=False):
        self.value, self.exc, self.steps, self.ops, self.fired = value, exc, steps, ops, fired

    @property
    def ok(self):
        return self.exc is None

    def kind(self):
        return "ok" if self.exc is None else type(self.exc).__name__


def call(sim, fn, fault=None, count_ops=False):
    """Run one library call under the simulator.  Only the library's own outcome is returned; simulator control flow
    (aborts) passes through.  fault: {"kind": ..., "at": k, "on": "line"|"op"}"""
    tid = sim.current_tid()
    mode = None
    lf = None
    if fault is not None:
        make = FAULT_EXC[fault["kind"]]
        if fault.get("on", "line") == "op":
            mode = DispatchFault(fault["at"], make)
        else:
            lf = dict(kind=fault["kind"], at=fault["at"], make=make, fired=False)
    elif count_ops:
        mode = DispatchFault()
    sim.local[tid] = 0

    def body():
        if mode is None:
            return sim.call(fn, lf)
        with mode:
            return sim.call(fn, lf)

    out = Outcome()
    try:
        out.value = body()
    except (core._Abort, core.HarnessError, core.Deadlock, Violation):
        raise
    except StepLimit as e:
        raise Violation("no-progress", str(e))
    except (SystemExit, GeneratorExit):
        raise
    except BaseException as e:  # noqa: BLE001 - outcome of the library call, classified by the world
        out.exc = e
        e.__traceback__ = _trim_tb(e.__traceback__)
    out.steps = sim.local[tid]
    if mode is not None:
        out.ops = mode.n
        if mode.fired:
            sim.fired.append((fault["kind"] + "@tensor-op", mode.fired))
    out.fired = bool((mode is not None and mode.fired) or (lf is not None and lf["fired"]))
    return out


def _trim_tb(tb):
    return None if os.environ.get("VERIF_TB") is None else tb


def need(out, what):
    """The call must have succeeded."""
    if out.exc is not None:
        raise Violation("unexpected-error", "%s raised %s: %s" % (what, type(out.exc).__name__, str(out.exc)[:300]))
    return out.value


# ------------------------------------------------------------------------------------------------------------------
def to_np(x):
    if isinstance(x, torch.Tensor):
        return x.detach().to(torch.float64).numpy() if x.is_floating_point() else x.detach().numpy()
    return np.asarray(x, float)


def tol_for(dtype, ref, exact=False):
    """Absolute tolerance for poses of a model (descriptions are stored in single precision by design)."""
    s = ref.reach + 1.0
    if dtype == torch.float64:
        return 2e-12 * s * 50 if exact else 2e-6 * s
    return 6e-6 * s


def close(got, want, tol, what):
    g = to_np(got)
    w = np.asarray(want, float)
    if g.shape != w.shape:
        raise Violation("wrong-shape", "%s: shape %s, expected %s" % (what, g.shape, w.shape))
    if g.size == 0:
        return 0.0
    d = np.abs(g - w)
    bad = ~(d <= tol)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation("wrong-value", "%s: at %s got %.9g, expected %.9g (tolerance %.2g, %d of %d entries off)" % (
            what, i, g[i], w[i], tol, int(bad.sum()), g.size))
    return float(d.max())


def snap(x):
    """Deep immutable snapshot of a result value, for later comparison."""
    if isinstance(x, torch.Tensor):
        return ("T", str(x.dtype), tuple(x.shape), x.detach().clone())
    if isinstance(x, pk.Transform3d):
        return ("X", snap(x.get_matrix()))
    if isinstance(x, np.ndarray):
        return ("N", x.copy())
    if isinstance(x, dict):
        return ("D", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ("L", type(x).__name__, [snap(v) for v in x])
    if hasattr(x, "solutions") and hasattr(x, "converged"):
        return ("S", {k: snap(getattr(x, k)) for k in SOL_FIELDS})
    return ("V", repr(x))


SOL_FIELDS = ["solutions", "err_pos", "err_rot", "converged", "converged_pos", "converged_rot", "converged_any",
              "converged_pos_any", "converged_rot_any", "remaining", "iterations"]


def same(a, b):
    """Bit-for-bit equality of snapshots (NaN equals NaN)."""
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == "T":
        if a[1] != b[1] or a[2] != b[2]:
            return False
        x, y = a[3], b[3]
        if x.is_floating_point():
            return bool(((x == y) | (x.isnan() & y.isnan())).all())
        return bool((x == y).all())
    if k == "N":
        return a[1].shape == b[1].shape and bool(np.array_equal(a[1], b[1], equal_nan=a[1].dtype.kind == "f"))
    if k == "X":
        return same(a[1], b[1])
    if k == "D":
        return [x for x, _ in a[1]] == [x for x, _ in b[1]] and all(same(u[1], v[1]) for u, v in zip(a[1], b[1]))
    if k == "L":
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(same(u, v) for u, v in zip(a[2], b[2]))
    if k == "S":
        return all(same(a[1][f], b[1][f]) for f in SOL_FIELDS)
    return a[1] == b[1]


def near(a, b, tol):
    """Snapshots equal up to rounding (shape, dtype, keys exact)."""
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == "T":
        if a[1] != b[1] or a[2] != b[2]:
            return False
        x, y = a[3], b[3]
        if x.is_floating_point():
            return bool((((x - y).abs() <= tol * (1 + y.abs())) | (x == y) | (x.isnan() & y.isnan())).all())
        return bool((x == y).all())
    if k == "X":
        return near(a[1], b[1], tol)
    if k == "N":
        return a[1].shape == b[1].shape and bool(np.allclose(a[1], b[1], rtol=tol, atol=tol, equal_nan=True))
    if k == "D":
        return [x for x, _ in a[1]] == [x for x, _ in b[1]] and all(near(u[1], v[1], tol) for u, v in zip(a[1], b[1]))
    if k == "L":
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(near(u, v, tol) for u, v in zip(a[2], b[2]))
    if k == "S":
        return all(near(a[1][f], b[1][f], tol) for f in SOL_FIELDS)
    return a[1] == b[1]


def diff(a, b):
    """A few words on how two snapshots differ."""
    if a[0] != b[0]:
        return "%s instead of %s" % (a[0], b[0])
    k = a[0]
    if k == "T":
        if a[1:3] != b[1:3]:
            return "%s %s instead of %s %s" % (a[1], a[2], b[1], b[2])
        d = (a[3].double() - b[3].double()).abs()
        return "largest difference %.3g of %.3g" % (float(d.max()), float(b[3].double().abs().max())) if d.numel() else ""
    if k == "X":
        return diff(a[1], b[1])
    if k in ("D", "L", "S"):
        x, y = [dict(v[1]) if k == "D" else dict(enumerate(v[2])) if k == "L" else v[1] for v in (a, b)]
        if set(x) != set(y):
            return "entries %s instead of %s" % (sorted(map(str, x)), sorted(map(str, y)))
        for n in x:
            if not same(x[n], y[n]):
                return "%s: %s" % (n, diff(x[n], y[n]))
    return "%.80r instead of %.80r" % (a[1], b[1])


def digest(h, s):
    k = s[0]
    if k == "T":
        h.update(repr(s[1:3]).encode())
        h.update(s[3].contiguous().numpy().tobytes())
    elif k == "N":
        h.update(s[1].tobytes())
    elif k == "X":
        digest(h, s[1])
    elif k == "D":
        for n, v in s[1]:
            h.update(str(n).encode())
            digest(h, v)
    elif k == "L":
        for v in s[2]:
            digest(h, v)
    elif k == "S":
        for f in SOL_FIELDS:
            digest(h, s[1][f])
    else:
        h.update(repr(s[1]).encode())


# ------------------------------------------------------------------------------------------------------------------
def by_hand(spec, dtype=None):
    """The robot put together from frames, links and joints by its user, in one of the ways there are."""
    fr = spec["frames"]
    r = random.Random("%s %d" % (spec["robot"], len(fr)))
    made = {}

    def offset(f):
        k = r.randrange(4)
        if not any(f["rpy"]) and k == 0:
            return pk.Transform3d(pos=list(f["xyz"])) if any(f["xyz"]) or r.random() < 0.5 else None
        R = robots.rpy_matrix(f["rpy"])
        if k == 1:
            return pk.Transform3d(matrix=torch.tensor(robots.homog(R, f["xyz"]), dtype=torch.float32))
        if k == 2:
            return pk.Transform3d(rot=[float(x) for x in robots.matrix_quat(R)], pos=tuple(f["xyz"]))
        return pk.Transform3d(rot=torch.tensor(R, dtype=torch.float32), pos=torch.tensor(f["xyz"], dtype=torch.float32))

    def build(i):
        f = fr[i]
        kids = [build(j) for j in spec["joint_order"] if fr[j]["parent"] == i]
        off = offset(f)
        T = pk.Transform3d
        if i == 0:
            joint, link = (pk.Joint() if r.random() < 0.5 else None), pk.Link(f["name"], off)
        else:
            ty = {"continuous": "revolute"}.get(f["type"], f["type"])
            ax = r.choice([list, tuple, lambda v: torch.tensor(v, dtype=torch.float32),
                           lambda v: torch.tensor(v, dtype=torch.float64), np.array])([float(x) for x in f["axis"]])
            on_link = r.random() < 0.3          # the offset may be the link's or the joint's
            joint = pk.Joint(f["joint"], offset=None if on_link else off, joint_type=ty, axis=ax,
                             limits=None if f["limits"] is None else r.choice([list, tuple])(f["limits"]),
                             velocity_limits=None if f["vel"] is None else (-f["vel"], f["vel"]),
                             effort_limits=None if f["eff"] is None else (-f["eff"], f["eff"]))
            link = pk.Link(f["name"], offset=off if on_link else r.choice([None, T()]))
        if r.random() < 0.5:
            made[i] = pk.Frame(f["name"], link, joint, kids)
        else:
            made[i] = pk.Frame(f["name"], link=link, joint=joint)
            for k in kids:
                made[i].add_child(k)
        if made[i].is_end() != (not kids):
            raise Violation("wrong-structure", "frame %s says is_end() = %s" % (f["name"], made[i].is_end()))
        return made[i]

    root = build(0)
    return pk.Chain(root) if dtype is None else pk.Chain(root, dtype=dtype)


def load(spec, end=None, root=None):
    """Load through the library's public constructors."""
    if spec.get("by_hand"):
        c = by_hand(spec)
        return c if end is None else pk.SerialChain(c, end, root or "")
    doc = robots.emit(spec)
    f = spec["fmt"]
    if end is None:
        return {"urdf": pk.build_chain_from_urdf, "sdf": pk.build_chain_from_sdf,
                "mjcf": pk.build_chain_from_mjcf}[f](doc)
    return {"urdf": pk.build_serial_chain_from_urdf, "sdf": pk.build_serial_chain_from_sdf,
            "mjcf": pk.build_serial_chain_from_mjcf}[f](doc, end, root or "")


def gen_q(seed, ref, B, scale=None):
    """(B, n) float64 joint values, a pure function of (seed, model shape)."""
    g = np.random.default_rng([seed, ref.n, B])
    q = np.empty((B, ref.n))
    k = g.random()
    for j, t in enumerate(ref.types):
        if t == "revolute":
            q[:, j] = g.uniform(-3.2, 3.2, size=B)
        else:
            q[:, j] = g.uniform(-0.6, 0.6, size=B)
    if k < 0.1:
        q[:] = 0.0
    elif k < 0.2:
        q *= (g.random(q.shape) < 0.3)
    elif k < 0.25:
        q *= 5.0
    elif k < 0.27:
        q *= [300.0 if t == "revolute" else 1.0 for t in ref.types]
    elif k < 0.35:
        q = np.round(q * 2 / math.pi) * math.pi / 2
    elif k < 0.4:
        q *= 1e-4
    return q


FORMS_CHAIN = ["t2", "t2", "t2", "t1", "nc", "rg", "view", "np2", "np1", "list", "dict_t", "dict_n", "dict_f", "exp",
               "dict_mix", "dict_s", "np32"]
FORMS_SERIAL = ["t2", "t2", "t2", "t1", "nc", "rg", "view", "np2", "np1", "list", "dict_t", "dict_n", "dict_f", "exp"]


def make_input(q, form, names, dtype, seed=0):
    """Returns (object for the library, effective q (B,n), mutator list)."""
    t = torch.tensor(q, dtype=dtype)
    if form == "t2":
        return t, q
    if form == "rg":
        return t.clone().requires_grad_(True), q
    if form == "nc":
        big = torch.zeros(q.shape[1], q.shape[0], dtype=dtype)
        big.copy_(t.T)
        return big.T, q
    if form == "view":
        big = torch.full((q.shape[0] * 2, q.shape[1] + 2), 7.5, dtype=dtype)
        v = big[::2, 1:-1]
        v.copy_(t)
        return v, q
    if form == "exp":
        return t[:1].expand(q.shape[0], -1), np.repeat(q[:1], q.shape[0], 0)
    if form == "t1":
        return t[0].clone(), q[:1]
    if form == "np2":
        return q.copy(), q
    if form == "np1":
        return q[0].copy(), q[:1]
    if form == "list":
        return [float(v) for v in q[0]], q[:1]
    order = list(range(len(names)))
    random.Random(seed).shuffle(order)
    if form == "dict_t":
        return {names[i]: t[:, i].clone() for i in order}, q
    if form == "dict_n":
        return {names[i]: q[:, i].copy() for i in order}, q
    if form == "dict_f":
        return {names[i]: float(q[0, i]) for i in order}, q[:1]
    q = q.astype(np.float32).astype(float)     # values that any of the kinds below hold exactly
    if form == "np32":
        return np.asfortranarray(q.astype(np.float32)), q
    kinds = [lambda x: torch.tensor(x, dtype=torch.float32), lambda x: torch.tensor(x, dtype=torch.float64),
             lambda x: np.array(x, dtype=np.float32), lambda x: np.array(x)]
    r = random.Random(seed + 1)
    if form == "dict_mix":
        return {names[i]: r.choice(kinds)(q[:, i]) for i in order}, q
    if form == "dict_s":
        kinds += [float, np.float32, np.float64]
        return {names[i]: r.choice(kinds)(q[0, i]) for i in order}, q[:1]
    raise KeyError(form)


class World:
    """One simulated run's state.  Subclasses implement setup / exec_op / finish."""

    def __init__(self, prog):
        self.prog = prog
        self.h = hashlib.sha1()
        self.held = []
        self.probes = {}
        self.samples = []
        self.known = []
        self.known_table = []
        self.stderr = io.StringIO()

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note(self, *parts):
        for p in parts:
            self.h.update(repr(p).encode())

    def hold(self, label, value):
        """Remember a result and how it looked when handed out."""
        s = snap(value)
        digest(self.h, s)
        self.held.append([label, value, s])
        return self.held[-1]

    def check_held(self):
        for label, value, s in self.held:
            if not same(snap(value), s):
                raise Violation("result-changed", "a value handed out earlier changed later: %s" % label)

    def setup(self, sim):
        pass

    def finish(self, sim):
        self.check_held()


# ------------------------------------------------------------------------------------------------------------------
def fork_eval(fn, timeout=120):
    """Run fn() in a forked copy of this process (an alternative universe) and return its pickled result.  Nothing it
    does reaches this universe.  Must be called while no other simulated thread runs."""
    import pickle
    import select
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            core.CURRENT = None
            try:
                data = pickle.dumps(("ok", fn()))
            except Violation as v:
                data = pickle.dumps(("violation", (v.cls, v.detail)))
            except BaseException as e:  # noqa: BLE001
                import traceback
                v = core.as_violation(e)
                data = pickle.dumps(("violation", (v.cls, v.detail)) if v is not None else
                                    ("error", "%r\n%s" % (e, traceback.format_exc())))
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    try:
        while True:
            ready, _, _ = select.select([r], [], [], timeout)
            if not ready:
                os.kill(pid, signal.SIGKILL)
                raise core.HarnessError("alternative universe did not answer")
            x = os.read(r, 1 << 20)
            if not x:
                break
            buf += x
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not buf:
        raise core.HarnessError("alternative universe died")
    kind, v = pickle.loads(bytes(buf))
    if kind == "violation":
        raise Violation(*v)
    if kind == "error":
        raise core.HarnessError("alternative universe failed: " + v)
    return v


def measure(fn, opcodes=False):
    """(steps, tensor operations) that fn takes: what a fault's position is drawn from."""
    n = [0]
    want = "opcode" if opcodes else "line"

    def loc(frame, event, arg):
        if event == want:
            n[0] += 1
        return loc

    def glob(frame, event, arg):
        if core.is_src(frame.f_code):
            if opcodes:
                frame.f_trace_opcodes = True
            return loc
        return None
    mode = DispatchFault()
    sys.settrace(glob)
    try:
        with mode:
            fn()
    except Exception:  # noqa: BLE001
        pass
    finally:
        sys.settrace(None)
    return n[0], mode.n
