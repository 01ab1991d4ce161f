"""C11: a model, transform or solver restored from a checkpoint is equivalent to the original, and independent of it."""
import copy
import hashlib
import io
import random
import zlib

import numpy as np

from .. import base, ckpt, zygote
from ..base import DT, call, digest, near, need, pk, same, torch
from ..core import Violation
from ..fleet import FleetWorld, REAL, STUB, build_model, gen_models, gen_phases, np_rng  # noqa: F401
from ..ikfleet import build_solver, gen_solver
from ..robots import RefModel, random_rotation

ID = "C11"
RUNS = {"quick": 1000, "thorough": 60000}
RULE = ("Program: 2-4 robots (whole and serial, single and double precision, converted back and forth before), solvers on "
        "them and transforms derived in various ways, used by 1-3 callers; at drawn moments, also in the middle of another "
        "caller's query or solve, one is saved (pickle protocols 2-5, torch.save, deepcopy; alone or several in one "
        "checkpoint) to a disk that may fill up in mid-write or keep only a prefix after a crash; checkpoints are restored "
        "in the same process (several times, also after the original is gone or was converted or overwritten) and in a "
        "freshly started process with another hash seed, saved again there and carried on; each object is asked the same "
        "questions (structure, poses, Jacobians, gradients, starting configurations, a whole solve) before and after.")
ASSUME = ["a checkpoint's equality is judged bit for bit on stored data and to rounding on computed answers",
          "a sampler the caller supplied is the caller's to make serialisable; gaussian_around_config closures are not saved",
          "objects edited in place are edited through their public attributes",
          "a torn write leaves a prefix (truncation), not a mixture of two checkpoints"]
RUN_TIMEOUT = 240
HOW = ["2", "3", "4", "5", "5", "torch", "torch"]


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 3])
    models = gen_models(rng, rng.choice([1, 1, 2]), min_dof=rng.choice([0, 1, 1, 1]))
    solvers = []
    for i, m in enumerate(models):
        if m["kind"] == "serial" and RefModel(m["spec"], root=m["root"], tip=m["tip"]).n >= 2 and rng.random() < 0.7:
            s = gen_solver(rng, m, i, max_it=(1, 2, 3, 4), retries=(1, 2, 3))
            s.pop("debug", None)      # nothing is drawn in the other process
            if s["start"] == "callable":
                s["start"] = "given"
            s["early0"] = rng.random() < 0.5
            solvers.append(s)
    p_fault = rng.choice([0, 0.15, 0.3])
    p_restart = rng.choice([0.0, 0.05, 0.12])

    def make(r, ph, t):
        op = dict(w=r.getrandbits(16), slot=r.getrandbits(8))
        k = r.random()
        if k < 0.24:
            op.update(op="save", how=r.choice(HOW), extra=r.random() < 0.2, first=r.random() < 0.25)
            if r.random() < p_fault:
                op["fault"] = dict(kind=r.choice(["disk-full", "disk-full", "crash"]), frac=r.random())
        elif k < 0.44:
            op.update(op="restore")
        elif k < 0.44 + p_restart:
            op.update(op="restart", resave=r.choice([None, None] + HOW), deep=r.random() < 0.5)
        elif k < 0.60:
            op.update(op="copy", extra=r.random() < 0.15)
        elif k < 0.66:
            op.update(op="cut", frac=r.random(), tail=r.random() < 0.4)
        elif k < 0.76:
            op.update(op="conv", dt=r.choice(["f32", "f64"]))
        elif k < 0.82:
            op.update(op="edit", how=r.randrange(5))
        elif k < 0.85:
            op.update(op="drop")
        else:
            op.update(op="ask")
        return op

    return dict(nthreads=nt, models=models, solvers=solvers, ntr=rng.choice([0, 1, 2]), trseed=rng.getrandbits(30),
                seed=rng.randrange(1000), opcodes=False, torch_seed=rng.randrange(1 << 30), max_op_steps=4000000,
                phases=gen_phases(rng, nt, rng.choice([1, 2, 3]), (3, 7) if nt > 1 else (5, 14), make))


class Disk(io.RawIOBase):
    """A file on the simulated disk: what was written before the fault is what survives."""

    def __init__(self, room=None):
        super().__init__()
        self.data = bytearray()
        self.room = room
        self.full = False

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.room is not None and len(self.data) + len(b) > self.room:
            self.data += b[: max(0, self.room - len(self.data))]
            self.full = True
            raise OSError(28, "No space left on device")
        self.data += b
        return len(b)


class Thing:
    def __init__(self, key, obj, born, owner, shared=False):
        self.key, self.obj, self.born, self.owner, self.shared = key, obj, born, owner, shared
        self.exp = None          # what it answers
        self.used = None         # the thing whose model it works on (solvers)


def warm():
    zygote.start()


class W(FleetWorld):
    def setup(self, sim):
        super().setup(sim)
        self.things = {}
        self.disk = {}
        self.trans = {}
        self.seed = self.prog["seed"]
        nt = sim.n
        r = random.Random(self.seed)
        for i, m in enumerate(self.models):
            t = self.add("m%d" % i, m.obj, 0, i, shared=nt > 1 and r.random() < 0.5)
            t.model = m
        for i, s in enumerate(self.prog["solvers"]):
            m = self.models[s["m"]]
            k = build_solver(s, m)
            t = self.add("s%d" % i, k, 0, i, shared=nt > 1 and r.random() < 0.5)
            t.used = "m%d" % s["m"]
            # a model that solvers work on is not converted or edited by others
            self.things[t.used].shared = True
            if s["early0"]:
                ckpt.ask_solver(k, 3)
        for i in range(self.prog["ntr"]):
            self.add("t%d" % i, self.transform(np.random.default_rng([self.prog["trseed"], i])), 0, i,
                     shared=nt > 1 and r.random() < 0.5)

    @staticmethod
    def transform(g):
        dt = DT[g.choice(["f32", "f64"])]
        N = int(g.choice([1, 1, 3, 4]))

        def new():
            R = np.stack([random_rotation(g) for _ in range(N)])
            return pk.Transform3d(rot=torch.tensor(R, dtype=dt), pos=torch.tensor(g.uniform(-2, 2, size=(N, 3)), dtype=dt), dtype=dt)
        k = g.choice(["plain", "compose", "inverse", "stack", "index", "translate", "rotate", "axis", "clone", "eye"])
        a = new()
        if k == "compose":
            return a.compose(new())
        if k == "inverse":
            return a.inverse()
        if k == "stack":
            return a.stack(new(), a)
        if k == "index":
            return a.stack(new())[1:]
        if k == "translate":
            return pk.Translate(torch.tensor(g.uniform(-2, 2, size=(N, 3)), dtype=dt), dtype=dt)
        if k == "rotate":
            return pk.Rotate(torch.tensor(np.stack([random_rotation(g) for _ in range(N)]), dtype=dt), dtype=dt)
        if k == "axis":
            return pk.RotateAxisAngle(torch.tensor(g.uniform(-90, 90, size=N), dtype=dt), "Y", dtype=dt)
        if k == "clone":
            return a.translate(0.1, 0.2, 0.3).clone()
        if k == "eye":
            return pk.Transform3d(default_batch_size=N, dtype=dt)
        return a

    def add(self, key, obj, born, owner, shared=False):
        t = self.things[key] = Thing(key, obj, born, owner, shared)
        return t

    def mine(self, tid, sim, shared=True, kinds=None):
        out = []
        for k in sorted(self.things):
            t = self.things[k]
            if t.obj is None or (kinds and ckpt.kind_of(t.obj) not in kinds):
                continue
            if t.shared:
                if shared:
                    out.append(t)
                continue
            o = t.owner if t.born == sim.phase else zlib.crc32(k.encode()) + 5 * sim.phase
            if o % sim.n == tid:
                out.append(t)
        return out

    def readable(self, tid, sim):
        """Checkpoints this caller may read or write in this phase."""
        return [k for k in sorted(self.disk) if (zlib.crc32(k.encode()) + sim.phase) % sim.n == tid]

    def slot_name(self, tid, op, sim):
        for j in range(200):
            n = "c%d" % ((op["slot"] + j) % 6 + 6 * (j // 6))
            if (zlib.crc32(n.encode()) + sim.phase) % sim.n == tid:
                return n
        raise AssertionError

    # -- answers --------------------------------------------------------------------------------------------
    def equal(self, got, want, what):
        """Stored data bit for bit; computed answers to rounding."""
        if same(got, want):
            return
        tol = 1e-5 if "float32" in repr(want)[:100000] else 1e-11
        if near(got, want, tol):
            self.probe("equal-to-rounding")
            return
        raise Violation("differs", "%s: %s" % (what, base.diff(got, want)))

    def know(self, t, what):
        """What t answers now, compared with what it answered before."""
        a = ckpt.ask(t.obj, self.seed)
        if t.exp is None:
            t.exp = a
            digest(self.h, a)
        else:
            self.equal(a, t.exp, what)
        return t.exp

    def op_ask(self, tid, op, sim):
        ts = self.mine(tid, sim)
        if not ts:
            return
        t = ts[op["w"] % len(ts)]
        what = "answers of %s (op %s, caller %d)" % (t.key, op["id"], tid)
        a = need(call(sim, lambda: ckpt.ask(t.obj, self.seed)), what)
        self.note(tid, op["id"], t.key)
        if t.exp is None:
            t.exp = a
        self.equal(a, t.exp, what)
        self.probe("asked-%s" % ckpt.kind_of(t.obj))

    # -- saving ---------------------------------------------------------------------------------------------
    def bundle(self, tid, t, op, sim):
        if not op.get("extra"):
            return t.obj, None
        ts = [x for x in self.mine(tid, sim) if ckpt.kind_of(x.obj) != "bundle"]
        if ckpt.kind_of(t.obj) == "bundle":
            return t.obj, None
        o = ts[(op["w"] >> 8) % len(ts)]
        return {"a": t.obj, "b": o.obj}, o

    @staticmethod
    def related(t, o):
        """Do they share a model?  Then so do their copies."""
        return o is not None and (o is t or o.used == t.key or t.used == o.key or (t.used is not None and t.used == o.used))

    def exp_of(self, t, o, what):
        if o is None:
            return self.know(t, what)
        return ("D", [("a", self.know(t, what)), ("b", self.know(o, what))])

    def op_save(self, tid, op, sim):
        ts = self.mine(tid, sim)
        if not ts:
            return
        t = ts[op["w"] % len(ts)]
        obj, o = self.bundle(tid, t, op, sim)
        what = "saving %s (op %s, caller %d, %s)" % (t.key, op["id"], tid, op["how"])
        if op["first"]:
            self.exp_of(t, o, what)
        f = op.get("fault")
        room = None
        if f:
            probe = Disk()
            ckpt.save(obj, op["how"], probe)
            room = int(f["frac"] * len(probe.data))
        d = Disk(room)
        name = self.slot_name(tid, op, sim)
        out = call(sim, lambda: ckpt.save(obj, op["how"], d))
        self.note(tid, op["id"], out.kind())
        if f:
            sim.fired.append((f["kind"], op["how"]))
            if out.exc is None:
                raise Violation("fault-swallowed", "%s: the disk was full but saving reported success" % what)
            # what is left on the disk: the prefix (crash) or the previous checkpoint (the caller wrote elsewhere first)
            if f["kind"] == "crash":
                self.disk[name] = dict(data=bytes(d.data), how=op["how"], exp=None, src=t.key)
            self.probe("failed-saves")
            self.exp_of(t, o, "after a failed save, " + what)
            return
        need(out, what)
        e = self.exp_of(t, o, what)
        e2 = None
        if sim.n == 1 and op["w"] % 3 == 0 and not self.related(t, o):
            e2 = base.fork_eval(lambda: ckpt.afterlife(obj, self.seed))
        self.disk[name] = dict(data=bytes(d.data), how=op["how"], exp=e, after=e2, src=t.key,
                               rel=self.related(t, o))
        self.probe("saves-%s" % ckpt.kind_of(obj))

    def arrive(self, obj, e, born, tid, key, what, rel=False):
        """A restored object joins."""
        if ckpt.kind_of(obj) == "bundle":
            for n, x in e[1]:
                self.arrive(obj[n], x, born, tid, key + n, what, rel)
            return
        self.equal(ckpt.ask(obj, self.seed), e, what)
        t = self.add(key, obj, born, tid)
        t.exp = e
        if rel:
            t.used = "one of a pair"

    def op_restore(self, tid, op, sim):
        ns = self.readable(tid, sim)
        if not ns:
            return
        n = ns[op["w"] % len(ns)]
        s = self.disk[n]
        what = "restoring %s saved with %s (op %s, caller %d)" % (s["src"], s["how"], op["id"], tid)
        out = call(sim, lambda: ckpt.restore(s["data"], s["how"]))
        self.note(tid, op["id"], out.kind())
        if s["exp"] is None:
            if out.exc is None:
                raise Violation("truncated-accepted", "%s: a checkpoint of which a prefix was left was accepted" % what)
            self.probe("prefix-refused")
            return
        obj = need(out, what)
        if s.get("after") is not None and op["w"] % 2 and sim.n == 1:
            self.equal(base.fork_eval(lambda: ckpt.afterlife(obj, self.seed)), s["after"], "further life after " + what)
            self.probe("further-lives")
        self.arrive(obj, s["exp"], sim.phase, tid, "r%s" % op["id"], what, s["rel"])
        self.probe("restores")

    def op_restart(self, tid, op, sim):
        ns = self.readable(tid, sim)
        if not ns:
            return
        n = ns[op["w"] % len(ns)]
        s = self.disk[n]
        what = "restoring %s saved with %s in a new process (op %s, caller %d)" % (s["src"], s["how"], op["id"], tid)
        r = zygote.request(dict(data=s["data"], how=s["how"], seed=self.seed, resave=op["resave"],
                                deep="yes" if op["deep"] and s.get("after") is not None else None))
        self.note(tid, op["id"], "refused" in r)
        if s["exp"] is None:
            if "refused" not in r:
                raise Violation("truncated-accepted", "%s: a checkpoint of which a prefix was left was accepted" % what)
            self.probe("prefix-refused")
            return
        if "refused" in r:
            raise Violation("unexpected-error", "%s: %s" % (what, r["refused"]))
        if "error" in r:
            raise Violation("unexpected-error", "%s: %s" % (what, r["error"][-600:]))
        a, after = r["answers"]
        self.equal(a, s["exp"], what)
        if after is not None:
            self.equal(after, s["after"], "further life after " + what)
            self.probe("further-lives")
        if op["resave"]:
            self.disk[self.slot_name(tid, op, sim)] = dict(data=r["data"], how=op["resave"], exp=s["exp"],
                                                           after=s.get("after"), src=s["src"], rel=s["rel"])
        self.probe("restarts")

    def op_copy(self, tid, op, sim):
        ts = self.mine(tid, sim)
        if not ts:
            return
        t = ts[op["w"] % len(ts)]
        obj, o = self.bundle(tid, t, op, sim)
        what = "deepcopy of %s (op %s, caller %d)" % (t.key, op["id"], tid)
        got = need(call(sim, lambda: copy.deepcopy(obj)), what)
        self.note(tid, op["id"], t.key)
        self.arrive(got, self.exp_of(t, o, what), sim.phase, tid, "d%s" % op["id"], what,
                    self.related(t, o))
        self.probe("copies")

    def op_cut(self, tid, op, sim):
        ns = [n for n in self.readable(tid, sim) if self.disk[n]["exp"] is not None]
        if not ns:
            return
        s = self.disk[ns[op["w"] % len(ns)]]
        k = int(op["frac"] * len(s["data"]))
        if op["tail"]:
            k = len(s["data"]) - 1 - int(op["frac"] * 40)
        what = "a checkpoint of %s (%s) cut at byte %d of %d (op %s)" % (s["src"], s["how"], k, len(s["data"]), op["id"])
        out = call(sim, lambda: ckpt.restore(s["data"][:k], s["how"]))
        self.note(tid, op["id"], out.kind())
        sim.fired.append(("truncation", s["how"]))
        if out.exc is None:
            raise Violation("truncated-accepted", "%s was accepted" % what)
        self.probe("prefix-refused")

    # -- things done to one of them -------------------------------------------------------------------------
    def changed(self, t, how, what):
        """t was changed on purpose: everything that was its equal must answer the same after the same change."""
        d = hashlib.sha1()
        digest(d, t.exp)
        key = (d.hexdigest(), how)
        t.exp = None
        e = self.know(t, what)
        if key in self.trans:
            self.equal(e, self.trans[key], "%s, compared with its equal after the same change" % what)
            self.probe("changed-alike")
        else:
            self.trans[key] = e

    def op_conv(self, tid, op, sim):
        ts = self.mine(tid, sim, shared=False, kinds=("chain", "serial", "solver"))
        ts = [t for t in ts if t.used is None]
        if not ts:
            return
        t = ts[op["w"] % len(ts)]
        what = "%s after conversion to %s (op %s, caller %d)" % (t.key, op["dt"], op["id"], tid)
        self.know(t, "before " + what)
        sol = ckpt.kind_of(t.obj) == "solver"
        need(call(sim, lambda: (t.obj.chain if sol else t.obj).to(dtype=DT[op["dt"]])), what)
        self.note(tid, op["id"], t.key)
        self.probe("converted")
        if sol:     # the solver's own model changed under it: only others matter now
            t.obj = None
            return
        self.changed(t, "to " + op["dt"], what)

    def op_edit(self, tid, op, sim):
        ts = self.mine(tid, sim, shared=False)
        ts = [t for t in ts if t.used is None]
        if not ts:
            return
        t = ts[op["w"] % len(ts)]
        what = "editing %s (op %s, caller %d)" % (t.key, op["id"], tid)
        o = t.obj
        kind = ckpt.kind_of(o)
        h = op["how"]

        def model(c):
            if h == 0:
                c.low.fill_(-0.01)
                c.high.fill_(0.01)
            elif h == 1:
                for j in c.get_joints():
                    j.axis.fill_(0.5)
                    j.limits = (-1.0, 1.0)
            elif h == 2:
                c.axes.zero_()
            elif h == 3:
                for n in c.get_frame_names(exclude_fixed=False):
                    f = c.find_frame(n)
                    for x in (f.joint.offset, f.link.offset):
                        if x is not None:
                            x.get_matrix().mul_(0.5)
                    f.link.name = "renamed"
            else:
                for f in [c.find_frame(n) for n in c.get_frame_names(exclude_fixed=False)]:
                    f.children.clear()

        def fn():
            if kind == "transform":
                if h < 3:
                    o.get_matrix().fill_(2.0)
                else:
                    o.inverse().get_matrix().zero_()
            elif kind == "solver":
                if h < 2:
                    o.initial_config.zero_()
                    if o.joint_limits is not None:
                        o.joint_limits.fill_(0.125)
                    if o.line_search is not None:
                        o.line_search.max_iterations = 1
                    o.max_iterations, o.pos_tolerance = 0, 9.0
                else:
                    model(o.chain)
            else:
                model(o)
        need(call(sim, fn), what)
        self.note(tid, op["id"], t.key)
        t.obj = None         # only the others matter now
        self.probe("edited-%s" % kind)

    def op_drop(self, tid, op, sim):
        ts = self.mine(tid, sim, shared=False)
        if len(ts) > 1:
            t = ts[op["w"] % len(ts)]
            if not any(x.used == t.key and x.obj is not None for x in self.things.values()):
                t.obj = None
                self.note(tid, op["id"], t.key)
                self.probe("dropped")

    def finish(self, sim):
        left = 0
        for k in sorted(self.things):
            t = self.things[k]
            if t.obj is not None:
                self.know(t, "final answers of %s" % k)
                left += 1
        for n in sorted(self.disk):
            s = self.disk[n]
            if s["exp"] is not None:
                self.equal(ckpt.ask(ckpt.restore(s["data"], s["how"]), self.seed), s["exp"],
                           "restoring %s at the end" % s["src"])
        # models still describe their robots
        for m, t in zip(self.models, [self.things["m%d" % i] for i in range(len(self.models))]):
            if t.obj is not None:
                q = base.gen_q(3, m.ref, 2)
                x = torch.tensor(q, dtype=t.obj.dtype)
                m.dtype = t.obj.dtype
                T = t.obj.forward_kinematics_tensor(x)
                want = m.ref.fk(x.to(torch.float64).numpy())
                for i, nme in enumerate(m.ref.names):
                    self.check_pose(m, T[t.obj.frame_to_idx[nme]], nme, q, "final pose of %s in %s" % (nme, t.key), want[i])
        self.probe("things-at-end", left)
        self.samples.append({"things": left, "checkpoints": len(self.disk)})
