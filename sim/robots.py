"""Random robots as plain JSON specs, emitters for URDF / SDF / MJCF, and the independent numpy reference model.

Nothing here imports the library under test.  Everything is float64 numpy.
"""
import copy
import math

import numpy as np


# ------------------------------------------------------------------------------------------------------------------
# small rotation helpers (independent of the library)
# ------------------------------------------------------------------------------------------------------------------
def rot_axis(axis, ang):
    """Rodrigues; axis (3,), ang (...)."""
    a = np.asarray(axis, float)
    a = a / np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    ang = np.asarray(ang, float)[..., None, None]
    return np.eye(3) + np.sin(ang) * K + (1 - np.cos(ang)) * (K @ K)


def rpy_matrix(rpy):
    """URDF / SDF convention: fixed axis roll, pitch, yaw = Rz(y) Ry(p) Rx(r)."""
    r, p, y = rpy
    return rot_axis([0, 0, 1], y) @ rot_axis([0, 1, 0], p) @ rot_axis([1, 0, 0], r)


def matrix_rpy(R):
    """Inverse of rpy_matrix (any valid triple)."""
    sp = -R[2, 0]
    cp = math.hypot(R[0, 0], R[1, 0])
    p = math.atan2(sp, cp)
    if cp > 1e-9:
        return [math.atan2(R[2, 1], R[2, 2]), p, math.atan2(R[1, 0], R[0, 0])]
    return [math.atan2(-R[1, 2], R[1, 1]), p, 0.0]


def matrix_quat(R):
    """wxyz, robust (eigen-decomposition free)."""
    t = np.trace(R)
    q = np.empty(4)
    c = [t, R[0, 0], R[1, 1], R[2, 2]]
    i = int(np.argmax(c))
    if i == 0:
        s = math.sqrt(max(0.0, 1 + t)) * 2
        q[:] = [s / 4, (R[2, 1] - R[1, 2]) / s, (R[0, 2] - R[2, 0]) / s, (R[1, 0] - R[0, 1]) / s]
    elif i == 1:
        s = math.sqrt(max(0.0, 1 + R[0, 0] - R[1, 1] - R[2, 2])) * 2
        q[:] = [(R[2, 1] - R[1, 2]) / s, s / 4, (R[0, 1] + R[1, 0]) / s, (R[0, 2] + R[2, 0]) / s]
    elif i == 2:
        s = math.sqrt(max(0.0, 1 + R[1, 1] - R[0, 0] - R[2, 2])) * 2
        q[:] = [(R[0, 2] - R[2, 0]) / s, (R[0, 1] + R[1, 0]) / s, s / 4, (R[1, 2] + R[2, 1]) / s]
    else:
        s = math.sqrt(max(0.0, 1 + R[2, 2] - R[0, 0] - R[1, 1])) * 2
        q[:] = [(R[1, 0] - R[0, 1]) / s, (R[0, 2] + R[2, 0]) / s, (R[1, 2] + R[2, 1]) / s, s / 4]
    return q / np.linalg.norm(q)


def quat_matrix(q):
    w, x, y, z = np.asarray(q, float) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def rot_angle(R):
    """Geodesic angle of rotations R (...,3,3), accurate near 0 and near pi."""
    v = np.stack([R[..., 2, 1] - R[..., 1, 2], R[..., 0, 2] - R[..., 2, 0], R[..., 1, 0] - R[..., 0, 1]], -1)
    s = np.linalg.norm(v, axis=-1) / 2
    c = (np.trace(R, axis1=-2, axis2=-1) - 1) / 2
    return np.arctan2(s, c)


def homog(R, t):
    T = np.eye(4)
    T[:3, :3] = R
    T[:3, 3] = t
    return T


def inv_rigid(T):
    R = T[..., :3, :3]
    t = T[..., :3, 3]
    out = np.zeros_like(T)
    Rt = np.swapaxes(R, -1, -2)
    out[..., :3, :3] = Rt
    out[..., :3, 3] = -(Rt @ t[..., None])[..., 0]
    out[..., 3, 3] = 1
    return out


def random_rotation(rng):
    q = rng.normal(size=4)
    return quat_matrix(q)


# ------------------------------------------------------------------------------------------------------------------
# specs
# ------------------------------------------------------------------------------------------------------------------
_SYL = ["ba", "ko", "zu", "mi", "ra", "te", "lo", "xi", "qu", "ne", "fo", "du"]


def _name(rng, used, prefix):
    while True:
        s = prefix + "".join(_SYL[int(i)] for i in rng.integers(0, len(_SYL), size=3))
        if rng.random() < 0.3:
            s += "_%d" % rng.integers(0, 20)
        if s not in used:
            used.add(s)
            return s


def _r(x, nd=4):
    return round(float(x), nd)


def gen_spec(rng, fmt="urdf", shape=None, n=None, types=None, exact=None, limits=None):
    """rng: numpy Generator.  Returns a JSON-able spec."""
    if shape is None:
        shape = rng.choice(["serial", "serial", "tree", "bushy", "hand"])
        if n is not None and n >= 12 and rng.random() < 0.5:
            shape = "legs"
    legs = 2 if n is None or n % 3 else 3
    if n is None:
        n = int(rng.integers(2, 9))
    if exact is None:
        exact = bool(rng.random() < 0.25)
    if types is None:
        types = [["revolute"], ["prismatic"], ["revolute", "prismatic"], ["revolute", "fixed"],
                 ["prismatic", "fixed"], ["revolute", "prismatic", "fixed", "continuous"],
                 ["continuous"], ["revolute", "continuous", "fixed"], ["fixed"]][
            int(rng.choice(9, p=[.2, .1, .2, .12, .06, .17, .07, .06, .02]))]
    if limits is None:
        limits = rng.choice(["all", "some", "none"], p=[.5, .3, .2])
    used = set()
    frames = [dict(name=_name(rng, used, "L"), parent=-1, joint=None, type="fixed", axis=[0, 0, 1],
                   xyz=[0, 0, 0], rpy=[0, 0, 0], limits=None, vel=None, eff=None)]
    if fmt == "mjcf":
        frames[0]["name"] = "world"
    for i in range(1, n):
        if shape == "serial":
            par = i - 1
        elif shape == "legs":
            par = max(0, i - legs)
        elif shape == "bushy":
            par = int(rng.integers(0, max(1, i // 3 + 1)))
        elif shape == "hand":
            par = 0 if rng.random() < 0.35 else i - 1
        else:
            par = int(rng.integers(0, i))
        ty = str(rng.choice(types))
        if fmt != "urdf" and ty == "continuous":
            ty = "revolute"
        if exact:
            ax = [0.0, 0.0, 0.0]
            ax[int(rng.integers(3))] = float(rng.choice([1, -1]))
            xyz = [float(v) / 8 for v in rng.integers(-6, 7, size=3)]
            rpy = [0.0, 0.0, 0.0]
        else:
            k = rng.random()
            if k < 0.4:
                ax = [0.0, 0.0, 0.0]
                ax[int(rng.integers(3))] = float(rng.choice([1, -1]))
            else:
                v = rng.normal(size=3)
                v = v / np.linalg.norm(v) * (1.0 if k < 0.8 else rng.uniform(0.3, 3.0))
                ax = [_r(x) for x in v]
            xyz = [_r(x) for x in rng.uniform(-0.5, 0.5, size=3)] if rng.random() < 0.9 else [0.0, 0.0, 0.0]
            k = rng.random()
            if k < 0.25:
                rpy = [0.0, 0.0, 0.0]
            elif k < 0.5:
                rpy = [float(x) * math.pi / 2 for x in rng.integers(-2, 3, size=3)]
                if abs(rpy[1]) > 1.6:
                    rpy[1] = 0.0
            else:
                rpy = [_r(rng.uniform(-3.1, 3.1)), _r(rng.uniform(-1.5, 1.5)), _r(rng.uniform(-3.1, 3.1))]
        lim = None
        if ty in ("revolute", "prismatic") and (limits == "all" or (limits == "some" and rng.random() < 0.5)):
            if ty == "revolute":
                lo, hi = -_r(rng.uniform(0.3, 3.1)), _r(rng.uniform(0.3, 3.1))
                if rng.random() < 0.2:
                    s = _r(rng.uniform(-4, 4))
                    lo, hi = _r(lo + s), _r(hi + s)
            else:
                lo, hi = -_r(rng.uniform(0.0, 0.5)), _r(rng.uniform(0.1, 0.8))
            lim = [lo, hi]
        vel = _r(rng.uniform(0.5, 3)) if lim is not None and fmt == "urdf" else None
        eff = _r(rng.uniform(1, 90)) if lim is not None and fmt == "urdf" else None
        name, joint = _name(rng, used, "L"), _name(rng, used, "j")
        if fmt == "urdf" and rng.random() < 0.08:
            joint = str(rng.choice([name, frames[-1]["name"]]))   # links and joints have separate name spaces
            if joint in [f["joint"] for f in frames]:
                joint = _name(rng, used, "j")
        frames.append(dict(name=name, parent=par, joint=joint, type=ty, axis=ax,
                           xyz=xyz, rpy=rpy, limits=lim, vel=vel, eff=eff))
    jo = list(range(1, n))
    lo_ = list(range(0, n))
    if fmt in ("urdf", "sdf"):
        if rng.random() < 0.7:
            rng.shuffle(jo)
        if rng.random() < 0.7:
            rng.shuffle(lo_)
    spec = dict(fmt=fmt, robot=_name(rng, used, "R"), frames=frames, joint_order=[int(x) for x in jo],
                link_order=[int(x) for x in lo_], exact=bool(exact))
    if fmt == "sdf":
        root_xyz = [float(v) / 8 for v in rng.integers(-4, 5, size=3)] if rng.random() < 0.5 else [0.0, 0.0, 0.0]
        frames[0]["xyz"] = root_xyz
        if not exact and rng.random() < 0.3:
            frames[0]["rpy"] = [_r(rng.uniform(-3, 3)), _r(rng.uniform(-1.4, 1.4)), _r(rng.uniform(-3, 3))]
    if fmt == "mjcf":
        sites = []
        for i in range(n):
            if rng.random() < 0.25:
                sites.append(dict(name=_name(rng, used, "S"), parent=i,
                                  xyz=[float(v) / 8 for v in rng.integers(-4, 5, size=3)],
                                  rpy=[0.0, 0.0, 0.0] if exact else [_r(x) for x in rng.uniform(-1.5, 1.5, size=3)]))
        spec["sites"] = sites
    return spec


def sibling(rng, spec, permute=False):
    """Another robot of the same make: same tree, names and joint kinds, other dimensions, axis signs and limits.

    permute: with some chance the same names are given to other joints or frames."""
    s = copy.deepcopy(spec)
    if permute and rng.random() < 0.5:
        for key in ("joint", "name"):
            if rng.random() < 0.6:
                idx = [i for i, f in enumerate(s["frames"]) if i and f.get(key) is not None
                       and not f.get("site") and not f.get("inline")]
                vals = [s["frames"][i][key] for i in idx]
                for i, k in zip(idx, rng.permutation(len(vals))):
                    s["frames"][i][key] = vals[int(k)]
    if permute and rng.random() < 0.4:       # the same tree with its joints mounted elsewhere: others are fixed now
        idx = [i for i, f in enumerate(s["frames"]) if i and not f.get("site") and not f.get("inline")]
        keys = ("type", "axis", "limits", "vel", "eff")
        vals = [[s["frames"][i][k] for k in keys] for i in idx]
        for i, k in zip(idx, rng.permutation(len(vals))):
            s["frames"][i].update(zip(keys, vals[int(k)]))
    for f in s["frames"][1:]:
        if s["exact"]:
            f["xyz"] = [float(v) / 8 for v in rng.integers(-6, 7, size=3)]
        else:
            f["xyz"] = [_r(x) for x in rng.uniform(-0.5, 0.5, size=3)]
            if rng.random() < 0.5:
                f["rpy"] = [_r(rng.uniform(-3.1, 3.1)), _r(rng.uniform(-1.5, 1.5)), _r(rng.uniform(-3.1, 3.1))]
        if rng.random() < 0.5:
            f["axis"] = [-float(v) for v in f["axis"]]
        if f["limits"] is not None:
            w = f["limits"][1] - f["limits"][0]
            w = w if math.isfinite(w) else 1.0
            f["limits"] = [_r(f["limits"][0] - rng.uniform(0, 0.3) * w), _r(f["limits"][1] + rng.uniform(-0.3, 0.3) * w)]
    return s


# An anthropomorphic seven-axis arm (public DH-like dimensions), the inverse-kinematics work horse.
def arm7(limits=True, continuous=()):
    offs = [([0, 0, 0.1575], [0, 0, 0]), ([0, 0, 0.2025], [math.pi / 2, 0, math.pi]),
            ([0, 0.2045, 0], [math.pi / 2, 0, math.pi]), ([0, 0, 0.2155], [math.pi / 2, 0, 0]),
            ([0, 0.1845, 0], [-math.pi / 2, math.pi, 0]), ([0, 0, 0.2155], [math.pi / 2, 0, 0]),
            ([0, 0.081, 0], [-math.pi / 2, math.pi, 0])]
    lims = [2.96, 2.09, 2.96, 2.09, 2.96, 2.09, 3.05]
    fr = [dict(name="base", parent=-1, joint=None, type="fixed", axis=[0, 0, 1], xyz=[0, 0, 0], rpy=[0, 0, 0],
               limits=None, vel=None, eff=None)]
    for i, (x, r) in enumerate(offs):
        cont = i in continuous
        fr.append(dict(name="arm%d" % (i + 1), parent=i, joint="a%d" % (i + 1),
                       type="continuous" if cont else "revolute", axis=[0.0, 0.0, 1.0], xyz=[float(v) for v in x],
                       rpy=[float(v) for v in r],
                       limits=[-lims[i], lims[i]] if limits and not cont else None,
                       vel=None, eff=None))
    fr.append(dict(name="tool", parent=7, joint="jt", type="fixed", axis=[0, 0, 1], xyz=[0.0, 0.0, 0.045],
                   rpy=[0.0, 0.0, 0.0], limits=None, vel=None, eff=None))
    return dict(fmt="urdf", robot="arm7", frames=fr, joint_order=list(range(1, 9)), link_order=list(range(9)),
                exact=False)


def _f(v):
    return " ".join(repr(float(x)) for x in v)


def emit(spec):
    return {"urdf": emit_urdf, "sdf": emit_sdf, "mjcf": emit_mjcf}[spec["fmt"]](spec)


def emit_urdf(spec):
    fr = spec["frames"]
    out = ['<robot name="%s">' % spec["robot"]]
    for i in spec["link_order"]:
        out.append('  <link name="%s"/>' % fr[i]["name"])
    for i in spec["joint_order"]:
        f = fr[i]
        out.append('  <joint name="%s" type="%s">' % (f["joint"], f["type"]))
        out.append('    <parent link="%s"/><child link="%s"/>' % (fr[f["parent"]]["name"], f["name"]))
        out.append('    <origin xyz="%s" rpy="%s"/>' % (_f(f["xyz"]), _f(f["rpy"])))
        out.append('    <axis xyz="%s"/>' % _f(f["axis"]))
        if f["limits"] is not None:
            out.append('    <limit lower="%r" upper="%r" velocity="%r" effort="%r"/>' % (
                f["limits"][0], f["limits"][1], f["vel"] if f["vel"] is not None else 1.0,
                f["eff"] if f["eff"] is not None else 1.0))
        out.append('  </joint>')
    out.append('</robot>')
    return "\n".join(out) + "\n"


_INERT = ('<inertial><pose>0 0 0 0 0 0</pose><inertia><ixx>1</ixx><ixy>0</ixy><ixz>0</ixz><iyy>1</iyy><iyz>0</iyz>'
          '<izz>1</izz></inertia><mass>1.0</mass></inertial>')


def emit_sdf(spec):
    fr = spec["frames"]
    W = [None] * len(fr)
    for i, f in enumerate(fr):  # parents precede children
        T = homog(rpy_matrix(f["rpy"]), f["xyz"])
        W[i] = T if f["parent"] < 0 else W[f["parent"]] @ T
    out = ['<?xml version="1.0"?>', '<sdf version="1.5">', ' <model name="%s">' % spec["robot"]]
    for i in spec["link_order"]:
        rpy = matrix_rpy(W[i][:3, :3])
        out.append('  <link name="%s">%s<pose>%s</pose></link>' % (fr[i]["name"], _INERT,
                                                                  _f(list(W[i][:3, 3]) + list(rpy))))
    for i in spec["joint_order"]:
        f = fr[i]
        out.append('  <joint name="%s" type="%s">' % (f["joint"], f["type"]))
        out.append('   <parent>%s</parent><child>%s</child>' % (fr[f["parent"]]["name"], f["name"]))
        lim = ''
        if f["limits"] is not None:
            lim = '<limit><lower>%r</lower><upper>%r</upper></limit>' % (f["limits"][0], f["limits"][1])
        out.append('   <axis><xyz>%s</xyz>%s</axis>' % (_f(f["axis"]), lim))
        out.append('  </joint>')
    out.append(' </model>\n</sdf>')
    return "\n".join(out) + "\n"


def emit_mjcf(spec):
    fr = spec["frames"]
    kids = {i: [j for j in spec["joint_order"] if fr[j]["parent"] == i] for i in range(len(fr))}

    def body(i, ind):
        f = fr[i]
        pad = " " * ind
        s = []
        if i > 0:
            q = matrix_quat(rpy_matrix(f["rpy"]))
            s.append('%s<body name="%s" pos="%s" quat="%s">' % (pad, f["name"], _f(f["xyz"]), _f(q)))
            if f["type"] != "fixed":
                lim = ''
                if f["limits"] is not None:
                    lim = ' limited="true" range="%s"' % _f(f["limits"])
                s.append('%s <joint name="%s" type="%s" axis="%s"%s/>' % (
                    pad, f["joint"], "hinge" if f["type"] != "prismatic" else "slide", _f(f["axis"]), lim))
            s.append('%s <geom type="sphere" size="0.01" mass="0.1"/>' % pad)
        for st in spec.get("sites", []):
            if st["parent"] == i:
                s.append('%s <site name="%s" pos="%s" quat="%s"/>' % (
                    pad, st["name"], _f(st["xyz"]), _f(matrix_quat(rpy_matrix(st["rpy"])))))
        for k in kids[i]:
            s.extend(body(k, ind + 1))
        if i > 0:
            s.append('%s</body>' % pad)
        return s

    return ('<mujoco model="%s">\n <compiler angle="radian"/>\n <worldbody>\n%s\n </worldbody>\n</mujoco>\n'
            % (spec["robot"], "\n".join(body(0, 1))))


# ------------------------------------------------------------------------------------------------------------------
# reference model
# ------------------------------------------------------------------------------------------------------------------
class RefModel:
    """Executable reference: exact float64 kinematics of a spec, or of its sub-chain root..tip."""

    def __init__(self, spec, root=None, tip=None):
        fr = spec["frames"]
        self.spec = spec
        nodes = []  # name, parent(node idx), joint, type, axis, T, limits, vel, eff
        kids = {i: [] for i in range(len(fr))}
        for j in spec["joint_order"]:
            kids[fr[j]["parent"]].append(j)
        name_of = [f["name"] for f in fr]
        by_name = {f["name"]: i for i, f in enumerate(fr)}
        sites = spec.get("sites", []) if spec["fmt"] == "mjcf" else []

        def add(i, par, reset=False):
            f = fr[i]
            T = homog(rpy_matrix(f["rpy"]), f["xyz"])
            ty = {"continuous": "revolute"}.get(f["type"], f["type"])
            ax = np.asarray(f["axis"], float)
            if np.linalg.norm(ax) > 0:
                ax = ax / np.linalg.norm(ax)
            d = dict(name=f["name"], parent=par, joint=f["joint"], type=ty, axis=ax, T=T, limits=f["limits"],
                     vel=f["vel"], eff=f["eff"])
            if f.get("ref"):      # the body is where it is described at this joint value
                R = rot_axis(ax, -f["ref"]) if ty == "revolute" else np.eye(3)
                d["T"] = T @ homog(R, [0, 0, 0] if ty == "revolute" else -f["ref"] * ax)
            if reset:
                d.update(type="fixed", T=np.eye(4), joint=None, limits=None, vel=None, eff=None)
            if i == 0:
                d["joint"] = None
            nodes.append(d)
            return len(nodes) - 1

        def add_site(s, par):
            nodes.append(dict(name=s["name"], parent=par, joint=None, type="fixed", axis=np.array([0, 0, 1.]),
                              T=homog(rpy_matrix(s["rpy"]), s["xyz"]), limits=None, vel=None, eff=None))

        def dfs(i, par, reset=False):
            me = add(i, par, reset)
            for k in kids[i]:
                dfs(k, me)
            for s in sites:
                if s["parent"] == i:
                    add_site(s, me)

        if tip is None and root is None:
            dfs(0, -1)
        elif tip is None:
            dfs(by_name[root], -1, reset=True)
        else:
            site = next((s for s in sites if s["name"] == tip), None)
            cur = site["parent"] if site is not None else by_name[tip]
            stop = by_name[root] if root is not None else 0
            path = []
            while True:
                path.append(cur)
                if cur == stop:
                    break
                cur = fr[cur]["parent"]
                if cur < 0:
                    raise ValueError("root is not an ancestor of tip")
            path.reverse()
            par = -1
            for k, i in enumerate(path):
                par = add(i, par, reset=(k == 0))
            if site is not None:
                add_site(site, par)
        self.nodes = nodes
        self.names = [d["name"] for d in nodes]
        self.index = {n: i for i, n in enumerate(self.names)}
        self.dof_nodes = [i for i, d in enumerate(nodes) if d["type"] != "fixed"]
        self.joints = [nodes[i]["joint"] for i in self.dof_nodes]
        self.types = [nodes[i]["type"] for i in self.dof_nodes]
        self.n = len(self.dof_nodes)
        self.tip = tip if tip is not None else None
        self.root = self.names[0]
        anc = []
        for i, d in enumerate(nodes):
            a = {i}
            if d["parent"] >= 0:
                a |= anc[d["parent"]]
            anc.append(a)
        self.anc = anc
        self.reach = sum(float(np.linalg.norm(d["T"][:3, 3])) for d in nodes) + 1.0

    def limits(self, what="limits"):
        lo, hi = [], []
        for i in self.dof_nodes:
            d = self.nodes[i]
            v = d[what]
            if v is None:
                lo.append(-math.inf)
                hi.append(math.inf)
            elif what == "limits":
                lo.append(v[0])
                hi.append(v[1])
            else:
                lo.append(-v)
                hi.append(v)
        return lo, hi

    def fk(self, q):
        """q (B, n) -> (F, B, 4, 4)"""
        q = np.asarray(q, float).reshape(-1, self.n) if self.n else np.zeros((len(q), 0))
        B = q.shape[0]
        out = np.zeros((len(self.nodes), B, 4, 4))
        k = 0
        for i, d in enumerate(self.nodes):
            L = np.broadcast_to(d["T"], (B, 4, 4))
            if d["type"] != "fixed":
                M = np.zeros((B, 4, 4))
                M[:, 3, 3] = 1
                if d["type"] == "revolute":
                    M[:, :3, :3] = rot_axis(d["axis"], q[:, k])
                else:
                    M[:, :3, :3] = np.eye(3)
                    M[:, :3, 3] = q[:, k, None] * d["axis"]
                L = L @ M
                k += 1
            out[i] = L if d["parent"] < 0 else out[d["parent"]] @ L
        return out

    def fk_of(self, q, name):
        return self.fk(q)[self.index[name]]

    def dfk(self, q):
        """(F, B, n, 4, 4): derivative of every pose with respect to every joint."""
        T = self.fk(q)
        B = T.shape[1]
        D = np.zeros((len(self.nodes), B, self.n, 4, 4))
        for k, i in enumerate(self.dof_nodes):
            d = self.nodes[i]
            S = np.zeros((4, 4))
            a = d["axis"]
            if d["type"] == "revolute":
                S[:3, :3] = [[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]]
            else:
                S[:3, 3] = a
            X = T[i] @ S @ inv_rigid(T[i])
            for f in range(len(self.nodes)):
                if i in self.anc[f]:
                    D[f, :, k] = X @ T[f]
        return D

    def grad(self, q, G):
        """G (F,B,4,4): upstream gradient -> (B,n)"""
        return np.einsum("fbnij,fbij->bn", self.dfk(q), G)

    def jac(self, q, tip=None, tool=None):
        """(B, 6, n) in the base frame, and tool pose."""
        tip = tip if tip is not None else self.tip
        T = self.fk(q)
        fi = self.index[tip]
        Te = T[fi]
        if tool is not None:
            Te = Te @ tool
        B = T.shape[1]
        J = np.zeros((B, 6, self.n))
        for k, i in enumerate(self.dof_nodes):
            if i not in self.anc[fi]:
                continue
            d = self.nodes[i]
            z = T[i][:, :3, :3] @ d["axis"]
            if d["type"] == "revolute":
                J[:, :3, k] = np.cross(z, Te[:, :3, 3] - T[i][:, :3, 3])
                J[:, 3:, k] = z
            else:
                J[:, :3, k] = z
        return J, Te

    def tips(self):
        par = {d["parent"] for d in self.nodes}
        return [self.names[i] for i in range(len(self.nodes)) if i not in par]

    def path_pairs(self):
        """(root, tip) pairs with root a proper ancestor of tip."""
        out = []
        for i in range(len(self.nodes)):
            for a in sorted(self.anc[i]):
                if a != i:
                    out.append((self.names[a], self.names[i]))
        return out


def pose_error(T, G):
    """Position distance and rotation angle between poses T (...,4,4) and goals G."""
    pe = np.linalg.norm(T[..., :3, 3] - G[..., :3, 3], axis=-1)
    R = G[..., :3, :3] @ np.swapaxes(T[..., :3, :3], -1, -2)
    return pe, rot_angle(R)
