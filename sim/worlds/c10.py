"""C10: loading a description depends on that document alone."""
import copy
import math
import random
import sys
import xml.parsers.expat

import numpy as np

from .. import base, docs
from ..base import call, close, need, pk, snap, same, torch
from ..core import Violation
from ..fleet import FleetWorld, Model, REAL, STUB, gen_phases, np_rng
from ..robots import RefModel, gen_spec, homog, rpy_matrix

ID = "C10"
RUNS = {"quick": 2200, "thorough": 100000}
RULE = ("Program: 2-5 generated URDF, SDF and MJCF documents in the many spellings the formats allow (defaults left out, "
        "visuals, vendor tags, comments, byte strings, orientations as quaternions, axes or angles, reference positions, one-sided limits), some of them variants of each other under the same names, loaded "
        "whole, from one body on or as serial models by 1-3 callers in a process that has parsed nothing before, interleaved with documents "
        "cut off at a drawn byte, garbled, or invalid, with loads cancelled or failing at a drawn line, with warnings that "
        "cannot be written, and with conversions and edits of models loaded earlier; every model is compared with what its "
        "document states (tree, names, order, kinds, limits, poses, visuals).")
ASSUME = ["well-formedness is what the expat parser says; a cut that leaves the whole robot in place must load as that robot",
          "documents use the constructs the loaders support: no joint or link offset beyond the formats' usual ones, no "
          "mimic coupling, no composite, ball or free joints",
          "a load whose own warning cannot be written may fail"]
KINDS = {"urdf": "URDF", "sdf": "SDF", "mjcf": "MJCF"}


def gen(rng, tier):
    nt = rng.choice([1, 1, 2, 2, 3])
    nd = rng.choice([2, 2, 3, 4, 5])
    fmts = rng.choice([["urdf"], ["sdf"], ["urdf", "sdf"], ["urdf", "sdf", "mjcf"], ["mjcf"], ["urdf", "urdf", "sdf", "mjcf"]])
    ds = []
    for _ in range(nd):
        if ds and rng.random() < 0.15:           # the same document but for one number
            d = copy.deepcopy(rng.choice(ds))
            f = rng.choice(d["spec"]["frames"][1:] or [None])
            d["spec"]["exact"] = False
            if f is not None:
                step = rng.choice([2e-4, 1e-3, 1e-2, -1e-2, 0.125])
                key = rng.choice(["xyz", "xyz", "rpy", "limits"])
                if key != "limits":
                    k = rng.randrange(3)
                    f[key] = list(f[key])
                    f[key][k] = round(f[key][k] + step, 6)
                elif f["limits"]:
                    f["limits"] = [f["limits"][0], round(f["limits"][1] + abs(step), 6)]
            ds.append(d)
            continue
        if ds and rng.random() < 0.4:            # same names, other content
            spec = copy.deepcopy(rng.choice(ds)["spec"])
            g = np_rng(rng)
            for f in spec["frames"][1:]:
                if rng.random() < 0.5:
                    f["xyz"] = [round(float(x), 3) for x in g.uniform(-0.7, 0.7, size=3)]
                if rng.random() < 0.3:
                    f["axis"] = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]][rng.randrange(3)]
                if rng.random() < 0.3 and f["limits"]:
                    f["limits"] = [f["limits"][0] - 0.25, f["limits"][1] + 0.5]
                if rng.random() < 0.15 and f["type"] in ("revolute", "prismatic"):
                    f["type"] = "prismatic" if f["type"] == "revolute" else "revolute"
            if rng.random() < 0.3:
                spec["joint_order"] = spec["joint_order"][::-1]
            if rng.random() < 0.5:
                docs.add_visuals(rng, spec)
        else:
            spec = gen_spec(np_rng(rng), fmt=rng.choice(fmts), n=rng.choice([2, 3, 4, 5, 7, 9]) if rng.random() < 0.95 else 1)
            docs.add_visuals(rng, spec)
        odd = rng.random() < 0.3
        refs = spec["fmt"] == "mjcf" and rng.random() < 0.3
        for f in spec["frames"]:
            if odd and spec["fmt"] in ("urdf", "sdf") and f["limits"] is not None and rng.random() < 0.4:
                lo, hi = f["limits"]
                f["limits"] = rng.choice([[lo, lo], [hi, hi], [0.0, 0.0], [lo, math.inf], [-math.inf, hi], [min(0.0, hi), hi], [lo, max(lo, 0.0)]])
            if refs and f["type"] != "fixed" and rng.random() < 0.6:
                f["ref"] = round(rng.uniform(-1.5, 1.5), 3)
                spec["exact"] = False
            if spec["fmt"] == "urdf" and f["type"] == "continuous" and f["vel"] is None and rng.random() < 0.4:
                f["vel"], f["eff"] = round(rng.uniform(0.5, 3), 3), round(rng.uniform(1, 90), 3)
        ds.append(dict(spec=spec, style=rng.randrange(1 << 20)))
    p_bad = rng.choice([0.1, 0.3, 0.5])
    p_fault = rng.choice([0, 0.2, 0.4])
    known = rng.random() < 0.05

    def make(r, ph, t):
        k = r.random()
        d = r.randrange(len(ds))
        if known and k < 0.08:
            return dict(op="known", which=r.choice(sorted(KNOWN)))
        if k < p_bad:
            return dict(op="bad", d=d, how=r.choice(["cut", "cut", "garble", "garble", "invalid", "empty"]), frac=r.random(),
                        s=r.getrandbits(24))
        if k < p_bad + 0.12:
            return dict(op="edit", pick=r.random(), how=r.randrange(6))
        if k < p_bad + 0.17:
            return dict(op="again", pick=r.random(), q=r.randrange(4))
        if r.random() < 0.006:
            return dict(op="many", n=r.choice([6, 14, 30]), s=r.getrandbits(30), fmts=fmts)
        op = dict(op="load", d=d, restyle=r.getrandbits(20) if r.random() < 0.3 else None, pair=r.getrandbits(16),
                  serial=r.choice([None, None, None, "root", "pair", "body"]), q=r.randrange(6), stderr=r.random() < 0.15)
        if r.random() < p_fault:
            op["fault"] = dict(kind=r.choice(["cancel", "interrupt", "oom", "memerr"]), on=r.choice(["line", "line", "line", "op"]),
                               frac=r.random())
        return op

    return dict(nthreads=nt, docs=ds, models=[], opcodes=False, torch_seed=0, max_op_steps=4000000,
                phases=gen_phases(rng, nt, rng.choice([1, 1, 2]), (2, 6) if nt > 1 else (3, 12), make))


class Stderr:
    """What the warnings of the parser go to: per caller a working or a failing stream."""

    def __init__(self, world):
        self.w = world
        self.text = []

    def write(self, s):
        from .. import core
        t = core.CURRENT.current_tid() if core.CURRENT is not None else "main"
        e = self.w.err_mode.get(t)
        if e is not None:
            self.w.err_hits[t] = self.w.err_hits.get(t, 0) + 1
            raise e
        self.text.append(s)
        return len(s)

    def flush(self):
        pass


MJ_KNOWN = ('<mujoco><compiler angle="radian"/><worldbody><body name="b" pos="0 0 1"><joint name="j" axis="0 0 1" pos="0.5 0 0"/>'
            '<geom size="0.1"/></body></worldbody></mujoco>')
SDF_KNOWN = ('<sdf version="1.5"><model name="m"><link name="a"/><link name="b"><pose>0 0 1 0 0 0</pose></link>'
             '<joint name="j" type="revolute"><pose>0.5 0 0 0 0 0</pose><parent>a</parent><child>b</child><axis><xyz>0 0 1</xyz></axis>'
             '</joint></model></sdf>')
SDF_KNOWN2 = ('<sdf version="1.5"><model name="m"><link name="a"/><link name="b"><pose>0 0 1 0 0 1.5707963267948966</pose></link>'
              '<joint name="j" type="revolute"><parent>a</parent><child>b</child><axis><xyz>1 0 0</xyz>'
              '<use_parent_model_frame>1</use_parent_model_frame></axis></joint></model></sdf>')


def _rz(a):
    return rpy_matrix([0, 0, a])


# key -> (loader, document, right pose of frame b at j=1, what the library answers)
KNOWN = {
    "mjcf-joint-pos": (lambda: pk.build_chain_from_mjcf(MJ_KNOWN),
                       homog(np.eye(3), [0.5, 0, 1]) @ homog(_rz(1.0), [0, 0, 0]) @ homog(np.eye(3), [-0.5, 0, 0]),
                       homog(np.eye(3), [0.5, 0, 1]) @ homog(_rz(1.0), [0, 0, 0])),
    "sdf-joint-pose": (lambda: pk.build_chain_from_sdf(SDF_KNOWN),
                       homog(np.eye(3), [0.5, 0, 1]) @ homog(_rz(1.0), [0, 0, 0]) @ homog(np.eye(3), [-0.5, 0, 0]),
                       homog(_rz(1.0), [0, 0, 1])),
    "sdf-use-parent-model-frame": (lambda: pk.build_chain_from_sdf(SDF_KNOWN2),
                                   homog(rpy_matrix([1.0, 0, 0]) @ _rz(np.pi / 2), [0, 0, 1]),
                                   homog(_rz(np.pi / 2) @ rpy_matrix([1.0, 0, 0]), [0, 0, 1])),
}


class W(FleetWorld):
    def setup(self, sim):
        super().setup(sim)
        self.err_mode, self.err_hits = {}, {}
        self.stream = sys.stderr = Stderr(self)
        self.loaded = []      # [owner, Model, pristine answers, edited]
        self.text = [docs.emit(d["spec"], d["style"]) for d in self.prog["docs"]]

    def loader(self, fmt, doc, end=None, root=None, k=0):
        if end is None and root:        # the part of the robot from one body on
            if k % 3 == 0:
                import mujoco
                root = int(mujoco.MjModel.from_xml_string(doc).body(root).id)
            return lambda: pk.build_chain_from_mjcf(doc, root)
        if end is None:
            f = {"urdf": pk.build_chain_from_urdf, "sdf": pk.build_chain_from_sdf, "mjcf": pk.build_chain_from_mjcf}[fmt]
            return lambda: f(doc)
        f = {"urdf": pk.build_serial_chain_from_urdf, "sdf": pk.build_serial_chain_from_sdf,
             "mjcf": pk.build_serial_chain_from_mjcf}[fmt]
        return lambda: f(doc, end, root)

    def op_load(self, tid, op, sim):
        d = self.prog["docs"][op["d"]]
        spec, fmt = d["spec"], d["spec"]["fmt"]
        doc = self.text[op["d"]] if op["restyle"] is None else docs.emit(spec, op["restyle"])
        ref, end, root = RefModel(spec), None, ""
        kind = "chain"
        pairs = ref.path_pairs()
        if op["serial"] == "body":
            bodies = [f["name"] for f in spec["frames"][1:]]
            if fmt == "mjcf" and bodies:
                root = bodies[op["pair"] % len(bodies)]
                ref = RefModel(spec, root=root)
        elif op["serial"] and pairs:
            kind = "serial"
            a, end = pairs[op["pair"] % len(pairs)]
            if op["serial"] == "pair":
                root = a
            ref = RefModel(spec, root=root or ref.root, tip=end)
        what = "loading %s document %d (op %s, caller %d)" % (KINDS[fmt], op["d"], op["id"], tid)
        f = op.get("fault")
        if f:
            n = len(spec["frames"])
            tot = (60 + 260 * n) if f["on"] == "line" else 40 + 30 * n
            f = dict(kind=f["kind"], on=f["on"], at=1 + int(f["frac"] * tot))
        if op["stderr"]:
            self.err_mode[tid] = OSError(28, "No space left on device")
        self.err_hits[tid] = 0
        out = call(sim, self.loader(fmt, doc, end, root, op["pair"]), fault=f)
        self.err_mode.pop(tid, None)
        self.note(tid, op["id"], out.kind())
        if out.fired:
            self.after_fault(out, what)
            return
        if self.err_hits[tid] and out.exc is not None:
            if not isinstance(out.exc, OSError):
                raise Violation("wrong-error", "%s: the warning could not be written, but %s came out" % (what, out.kind()))
            self.probe("warning-could-not-be-written")
            return
        c = need(out, what)
        m = Model(c, ref, torch.float32, kind, spec, dict(root=root))
        m.part = kind == "chain" and bool(root)
        self.check_model(m, what, op["q"])
        self.loaded.append([tid, m, self.answers(m), False])
        self.probe("loads-%s" % fmt)

    def op_many(self, tid, op, sim):
        """Many small documents in a row."""
        r = random.Random(op["s"])
        for i in range(op["n"]):
            spec = gen_spec(np_rng(r), fmt=r.choice(op["fmts"]), n=r.choice([1, 2, 3]))
            docs.add_visuals(r, spec)
            doc = docs.emit(spec, r.getrandbits(20))
            what = "loading document %d of %d in a row (op %s, caller %d)" % (i, op["n"], op["id"], tid)
            c = need(call(sim, self.loader(spec["fmt"], doc)), what)
            self.check_model(Model(c, RefModel(spec), torch.float32, "chain", spec, {}), what, i)
            self.probe("loads-in-a-row")

    def answers(self, m):
        c = m.obj
        q = torch.tensor(base.gen_q(1, m.ref, 2), dtype=torch.float32)
        return snap([c.forward_kinematics_tensor(q), c.get_joint_parameter_names(), c.get_joint_limits(), c.low, c.high,
                     c.get_frame_names(exclude_fixed=False), str(c), str(c.dtype)])

    def check_model(self, m, what, q):
        c, ref, spec = m.obj, m.ref, m.spec
        if c.dtype != torch.float32:
            raise Violation("wrong-dtype", "%s: %s" % (what, c.dtype))
        self.check_names(m, (c.get_joint_parameter_names(), c.get_frame_names(exclude_fixed=False), c.get_joint_limits(),
                             c.n_joints, c.get_joint_velocity_limits(), c.get_joint_effort_limits(), c.get_link_names(),
                             [j.name for j in c.get_joints()]))
        byname = {f["name"]: i for i, f in enumerate(spec["frames"])}
        for i, d in enumerate(ref.nodes):
            f = c.find_frame(d["name"])
            if f is None or f.name != d["name"] or f.link.name != d["name"]:
                raise Violation("wrong-structure", "%s: frame %s not found" % (what, d["name"]))
            if f.joint.joint_type != d["type"]:
                raise Violation("wrong-structure", "%s: joint of %s is %s, expected %s" % (what, d["name"], f.joint.joint_type, d["type"]))
            kids = sorted(x.name for x in f.children)
            want = sorted(n["name"] for n in ref.nodes if n["parent"] == i)
            if kids != want:
                raise Violation("wrong-structure", "%s: children of %s are %s, expected %s" % (what, d["name"], kids, want))
            if d["type"] != "fixed":
                if f.joint.name != d["joint"]:
                    raise Violation("wrong-structure", "%s: joint of %s is called %s" % (what, d["name"], f.joint.name))
                close(f.joint.axis, d["axis"], 1e-6, "%s: axis of %s" % (what, d["joint"]))
            elif spec["fmt"] != "mjcf" and d["joint"] is not None and f.joint.name != d["joint"]:
                raise Violation("wrong-structure", "%s: fixed joint of %s is called %s" % (what, d["name"], f.joint.name))
            if d["name"] in byname:
                self.check_visuals(f.link.visuals, spec["vis"][byname[d["name"]]], spec["fmt"], "%s: visuals of %s" % (what, d["name"]))
        below = {n: {n} for n in ref.names}
        for d in reversed(ref.nodes):
            if d["parent"] >= 0:
                below[ref.nodes[d["parent"]]["name"]] |= below[d["name"]]
        if {j.name: sorted(x.name for x in ls) for j, ls in c.get_joints_and_child_links()} != \
                {d["joint"]: sorted(below[d["name"]]) for d in ref.nodes if d["type"] != "fixed"}:
            raise Violation("wrong-structure", "%s: links below the joints" % what)
        if c.get_joint_parent_frame_names() != [d["name"] for d in ref.nodes if d["type"] != "fixed"]:
            raise Violation("wrong-structure", "%s: frames of the joints are %s" % (what, c.get_joint_parent_frame_names()))
        every = [c.find_frame(n).joint for n in ref.names]
        got = c.get_joints(exclude_fixed=False)
        if len(got) != len(every) or any(a is not b for a, b in zip(got, every)) or \
                c.get_joint_parameter_names(exclude_fixed=False) != [j.name for j in every]:
            raise Violation("wrong-structure", "%s: all joints, fixed ones too: %s, expected %s" % (
                what, [j.name for j in got], [j.name for j in every]))
        qs = base.gen_q(q, ref, 2).astype(np.float32).astype(float)
        T = c.forward_kinematics_tensor(torch.tensor(qs, dtype=torch.float32))
        want = ref.fk(qs)
        if getattr(m, "part", False):   # seen from its own root
            T = torch.linalg.inv(T[c.frame_to_idx[ref.names[0]]].double()).to(T.dtype) @ T
        for i, n in enumerate(ref.names):
            self.check_pose(m, T[c.frame_to_idx[n]], n, qs, "%s: pose of %s" % (what, n), want[i])

    def check_visuals(self, got, want, fmt, what):
        if fmt == "urdf":
            want = want[:1]
            if not want:
                if len(got) > 1 or (len(got) == 1 and got[0].geom_type is not None):
                    raise Violation("wrong-structure", "%s: %r, expected none" % (what, got))
                return
        if len(got) != len(want):
            raise Violation("wrong-structure", "%s: %d, expected %d" % (what, len(got), len(want)))
        for g, w in zip(got, want):
            if fmt == "mjcf":
                if int(g.geom_type[0]) != {"box": 6, "sphere": 2, "capsule": 3}[w["type"]]:
                    raise Violation("wrong-structure", "%s: type %s, expected %s" % (what, g.geom_type, w["type"]))
                close(np.asarray(g.geom_param)[: len(w["size"])], w["size"], 1e-9, what + " size")
            else:
                if g.geom_type != w["type"]:
                    raise Violation("wrong-structure", "%s: type %s, expected %s" % (what, g.geom_type, w["type"]))
                if w["type"] == "mesh":
                    p = w["file"]
                    if fmt == "urdf":
                        p = (w["file"], w["size"] if w["scale"] else None)
                        gp = (g.geom_param[0], None if g.geom_param[1] is None else list(g.geom_param[1]))
                    else:
                        gp = g.geom_param
                    if gp != p:
                        raise Violation("wrong-structure", "%s: %r, expected %r" % (what, g.geom_param, p))
                else:
                    close(np.array(g.geom_param, float).reshape(-1), w["size"], 1e-9, what + " size")
            T = g.offset.get_matrix()[0].to(torch.float64).numpy()
            want_T = homog(rpy_matrix(w["rpy"]), w["xyz"])
            if w["type"] == "cylinder":       # symmetric about z
                T, want_T = T[:, 2:], want_T[:, 2:]
            close(T, want_T, 1e-5, what + " offset")

    # -- documents that are not robots ----------------------------------------------------------------------
    def op_bad(self, tid, op, sim):
        d = self.prog["docs"][op["d"]]
        spec, fmt = d["spec"], d["spec"]["fmt"]
        doc = self.text[op["d"]]
        how = op["how"]
        r = random.Random(op["s"])
        whole = None
        if how == "cut":
            k = int(op["frac"] * len(doc))
            if r.random() < 0.3:
                k = len(doc) - r.randrange(min(40, len(doc)))
            doc = doc[:k]
        elif how == "garble":
            doc = self.garble(doc, r)
        elif how == "empty":
            doc = r.choice(["", " \n", "robot", "<robot", "\x00", "<robot/>", "{}", None])
        elif how == "invalid":
            doc = self.invalid(doc, spec, r)
        ok = self.well_formed(doc)
        if how == "cut" and ok:
            whole = RefModel(spec)
        what = "loading a %s document, %s (op %s, caller %d)" % (KINDS[fmt], {"cut": "cut off", "garble": "garbled"}.get(how, how), op["id"], tid)
        out = call(sim, self.loader(fmt, doc))
        self.note(tid, op["id"], out.kind())
        if out.exc is None and whole is not None:
            self.check_model(Model(out.value, whole, torch.float32, "chain", spec, {}), what, 0)
            self.probe("cut-after-the-end")
            return
        if out.exc is not None and whole is not None:
            raise Violation("unexpected-error", "%s at its very end: %s" % (what, out.exc))
        if out.exc is None and not ok and (fmt != "mjcf" or how != "garble"):
            raise Violation("damaged-document-accepted", "%s: accepted although it is not well formed" % what)
        self.probe("%s-%s" % (how, "rejected" if out.exc is not None else "tolerated"))

    @staticmethod
    def well_formed(doc):
        if doc is None:
            return False
        p = xml.parsers.expat.ParserCreate()
        try:
            p.Parse(doc, True)
            return True
        except LookupError:
            return True     # only the encoding's name is damaged: not judged
        except (xml.parsers.expat.ExpatError, ValueError):
            return False

    def garble(self, doc, r):
        for _ in range(20):
            k = r.randrange(len(doc))
            c = r.choice(["<", ">", '"', "&", "/", "", "x", "\x01", "="])
            if isinstance(doc, bytes):
                c = c.encode()
            x = doc[:k] + c + doc[k + 1:]
            if not self.well_formed(x):
                return x
        return doc[: len(doc) // 2]

    def invalid(self, doc, spec, r):
        b = isinstance(doc, bytes)
        s = doc.decode() if b else doc
        fr = spec["frames"]
        f = r.choice(fr[1:] or fr)
        k = r.randrange(7)
        if k == 0:
            s = s.replace('"%s"' % f["type"], '"floating"', 1)
        elif k == 1:
            s = s.replace(f["name"], "nowhere", 1)
        elif k == 2:
            s = s.replace("xyz", "zyx")
        elif k == 3:
            s = s.replace(" 0.0", "", 1)
        elif k == 4:
            s = s.replace("0.0", "zero", 1)
        elif k == 5:
            s = s.replace("joint", "link", 2)
        else:
            s = s.replace("child", "parent", 2)
        return s.encode() if b else s

    # -- earlier models -------------------------------------------------------------------------------------
    def op_edit(self, tid, op, sim):
        own = [x for x in self.loaded if x[0] == tid]
        if not own:
            return
        x = own[int(op["pick"] * len(own))]
        c = x[1].obj
        x[3] = True
        h = op["how"]
        j = c.get_joints()

        def fn():
            if h == 0:
                c.to(dtype=torch.float64)
            elif h == 1:
                for y in j:
                    y.limits = (-0.001, 0.001)
                    y.name = "renamed"
            elif h == 2:
                for n in c.get_frame_names(exclude_fixed=False):
                    f = c.find_frame(n)
                    if f is not None:
                        f.children.clear()
            elif h == 3:
                for l in c.get_links():
                    if isinstance(l.visuals, list):
                        l.visuals.clear()
                    l.name = "renamed"
            elif h == 4:
                for l in c.get_links():
                    if l.offset is not None:
                        l.offset.get_matrix().fill_(3.0)
                for y in j:
                    y.axis.fill_(0.3)
                    if y.offset is not None:
                        y.offset.get_matrix().fill_(4.0)
            else:
                c.low.zero_()
                c.high.zero_()
                c.axes.zero_()
        need(call(sim, fn), "editing a loaded model")
        self.note(tid, op["id"], "edit")
        self.probe("models-edited")

    def op_again(self, tid, op, sim):
        own = [x for x in self.loaded if x[0] == tid and not x[3]]
        if not own:
            return
        x = own[int(op["pick"] * len(own))]
        if not same(self.answers(x[1]), x[2]):
            raise Violation("model-changed", "a model loaded earlier answers differently although nobody touched it (op %s, caller %d)" % (op["id"], tid))
        self.probe("models-asked-again")

    def op_known(self, tid, op, sim):
        fn, right, recorded = KNOWN[op["which"]]
        c = need(call(sim, fn), op["which"])
        T = c.forward_kinematics(torch.tensor([1.0]))["b"].get_matrix()[0].to(torch.float64).numpy()
        if np.abs(T - right).max() < 1e-5:
            return
        if np.abs(T - recorded).max() < 1e-5 and op["which"] in self.known_table:
            self.known.append(op["which"])
            return
        raise Violation("wrong-value", "%s: pose of b is %s, expected %s" % (op["which"], T.tolist(), right.tolist()))

    def finish(self, sim):
        for tid, m, a, edited in self.loaded:
            if not edited and not same(self.answers(m), a):
                raise Violation("model-changed", "a model loaded earlier answers differently although nobody touched it")
        # every document once more, in this process with this history
        for i, d in enumerate(self.prog["docs"]):
            what = "loading document %d at the end" % i
            c = self.loader(d["spec"]["fmt"], self.text[i])()
            self.check_model(Model(c, RefModel(d["spec"]), torch.float32, "chain", d["spec"], {}), what, 2)
        self.samples.append({"max_error_over_tolerance": round(self.maxratio, 4)})
