"""Robot descriptions written the way people write them: defaults left out, visuals, collisions, materials, vendor tags,
comments, any attribute order.  The same spec (robots.gen_spec plus "vis") is the ground truth."""
import math
import random

from .robots import _INERT, _f, homog, matrix_quat, matrix_rpy, rpy_matrix


def add_visuals(rng, spec):
    """rng: random.Random"""
    vis = []
    for _ in spec["frames"]:
        v = []
        for _k in range(rng.choice([0, 0, 1, 1, 2])):
            ty = rng.choice(["box", "sphere", "cylinder", "mesh"] if spec["fmt"] != "mjcf" else ["box", "sphere", "capsule"])
            size = {"box": 3, "sphere": 1, "cylinder": 2, "mesh": 3, "capsule": 2}[ty]
            v.append(dict(type=ty, size=[round(rng.uniform(0.01, 0.4), 3) for _ in range(size)],
                          file="meshes/m%d.stl" % rng.randrange(9), scale=rng.random() < 0.5,
                          xyz=[round(rng.uniform(-1, 1), 3) for _ in range(3)],
                          rpy=[round(rng.uniform(-3, 3), 3), round(rng.uniform(-1.4, 1.4), 3), round(rng.uniform(-3, 3), 3)]
                          if rng.random() < 0.6 else [0.0, 0.0, 0.0]))
        vis.append(v)
    spec["vis"] = vis
    return spec


def _attrs(r, d):
    ks = list(d)
    r.shuffle(ks)
    q = r.choice(['"', '"', "'"])
    return "".join(' %s=%s%s%s' % (k, q, d[k], q) for k in ks)


def _junk(r, warn):
    """Things a parser has to skip."""
    k = r.random()
    if k < 0.80:
        return ""
    if k < 0.90 or not warn:
        return "<!-- %s -->" % r.choice(["checked", "<joint name='old'/>", "100% legacy & co", "TODO"])
    return r.choice(['<vendor:x/>'.replace("vendor:", "vendor_"), '<extra value="1"><deep/></extra>', "<sensor_rate>30</sensor_rate>"])


def _origin(r, xyz, rpy, always=False):
    d = {}
    if always or any(xyz) or r.random() < 0.4:
        d["xyz"] = _f(xyz)
    if always or any(rpy) or r.random() < 0.4:
        d["rpy"] = _f(rpy)
    if not d and r.random() < 0.7:
        return ""
    return "<origin%s/>" % _attrs(r, d)


def urdf(spec, style):
    r = random.Random(style)
    warn = style % 3 == 0
    fr = spec["frames"]
    parts = []

    def geom(v):
        if v["type"] == "mesh":
            a = dict(filename=v["file"])
            if v["scale"]:
                a["scale"] = _f(v["size"])
            return "<mesh%s/>" % _attrs(r, a)
        if v["type"] == "box":
            return '<box size="%s"/>' % _f(v["size"])
        if v["type"] == "sphere":
            return '<sphere radius="%r"/>' % v["size"][0]
        return '<cylinder%s/>' % _attrs(r, dict(radius=repr(v["size"][0]), length=repr(v["size"][1])))

    def link(i):
        f = fr[i]
        s = ""
        for v in spec["vis"][i]:
            s += '<visual>%s<geometry>%s</geometry>%s</visual>' % (
                _origin(r, v["xyz"], v["rpy"]), geom(v),
                '<material name="grey"><color rgba="0.5 0.5 0.5 1"/></material>' if r.random() < 0.3 else "")
        if r.random() < 0.3:
            s += '<collision><origin xyz="9 9 9" rpy="1 1 1"/><geometry><box size="1 1 1"/></geometry></collision>'
        if r.random() < 0.3:
            s += ('<inertial><origin xyz="0 0 0.5"/><mass value="1.5"/><inertia ixx="1" ixy="0" ixz="0" iyy="1" iyz="0" '
                  'izz="1"/></inertial>')
        s += _junk(r, warn)
        a = dict(name=f["name"])
        if warn and r.random() < 0.1:
            a["colour"] = "red"
        return "<link%s>%s</link>" % (_attrs(r, a), s) if s else "<link%s/>" % _attrs(r, a)

    def joint(i):
        f = fr[i]
        s = ['<parent link="%s"/>' % fr[f["parent"]]["name"], '<child link="%s"/>' % f["name"]]
        o = _origin(r, f["xyz"], f["rpy"])
        if o:
            s.append(o)
        ax = [float(x) for x in f["axis"]]
        if f["type"] == "fixed":
            if r.random() < 0.3:
                s.append('<axis xyz="%s"/>' % _f(ax))
        elif not (ax == [0.0, 0.0, 1.0] and r.random() < 0.6):   # the default axis of the library
            k = r.choice([1.0, 1.0, 2.0, 0.5])
            s.append('<axis xyz="%s"/>' % _f([k * x for x in ax]))
        if f["limits"] is not None:
            a = dict(lower=repr(f["limits"][0]), upper=repr(f["limits"][1]),
                     velocity=repr(f["vel"] if f["vel"] is not None else 1.0),
                     effort=repr(f["eff"] if f["eff"] is not None else 1.0))
            for k in ("lower", "upper"):
                if float(a[k]) == 0.0 and r.random() < 0.7:
                    del a[k]
            s.append("<limit%s/>" % _attrs(r, a))
        elif f["type"] == "continuous" and f["vel"] is not None:
            s.append('<limit velocity="%r" effort="%r"/>' % (f["vel"], f["eff"]))
        if r.random() < 0.2:
            s.append('<dynamics damping="0.7" friction="0.1"/>')
        if r.random() < 0.1:
            s.append('<safety_controller k_velocity="10" soft_lower_limit="-9" soft_upper_limit="9"/>')
        if r.random() < 0.1:
            s.append('<calibration rising="0.5"/>')
        r.shuffle(s)
        s.append(_junk(r, warn))
        return "<joint%s>%s</joint>" % (_attrs(r, dict(name=f["joint"], type=f["type"])), "".join(s))

    links = [link(i) for i in spec["link_order"]]
    joints = [joint(i) for i in spec["joint_order"]]
    k = r.random()
    if k < 0.4:
        parts = links + joints
    elif k < 0.6:
        parts = joints + links
    else:
        it = [0] * len(links) + [1] * len(joints)
        r.shuffle(it)
        a, b = iter(links), iter(joints)
        parts = [next(b) if x else next(a) for x in it]
    if r.random() < 0.3:
        parts.insert(r.randrange(len(parts) + 1), '<material name="grey"><color rgba="0.5 0.5 0.5 1"/></material>')
    if r.random() < 0.2:
        parts.insert(r.randrange(len(parts) + 1), '<gazebo reference="x"><mu1>0.2</mu1></gazebo>')
    if r.random() < 0.15 and len(fr) > 1:
        parts.append('<transmission name="t"><type>x/Simple</type><joint name="%s"><hardwareInterface>PositionJointInterface'
                     '</hardwareInterface></joint><actuator name="m"><mechanicalReduction>1</mechanicalReduction></actuator>'
                     '</transmission>' % fr[1]["joint"])
    sep = r.choice(["\n", "\n  ", "", "\r\n\t"])
    doc = '<robot name="%s">%s%s%s</robot>\n' % (spec["robot"], sep, sep.join(parts), sep)
    k = r.random()
    if k < 0.3:
        doc = '<?xml version="1.0"?>\n' + doc
    elif k < 0.5:
        doc = ('<?xml version="1.0" encoding="utf-8"?>\n<!-- caf\u00e9 -->\n' + doc).encode("utf-8")
    elif k < 0.6:
        doc = doc.encode("ascii")
    return doc


def sdf(spec, style):
    r = random.Random(style)
    warn = style % 3 == 0
    fr = spec["frames"]
    Wd = []
    for f in fr:
        T = homog(rpy_matrix(f["rpy"]), f["xyz"])
        Wd.append(T if f["parent"] < 0 else Wd[f["parent"]] @ T)

    def pose(T):
        if abs(T - homog(rpy_matrix([0, 0, 0]), [0, 0, 0])).max() == 0 and r.random() < 0.6:
            return ""
        p = _f(list(T[:3, 3]) + list(matrix_rpy(T[:3, :3])))
        return "<pose>%s%s%s</pose>" % (r.choice(["", "\n  "]), p, r.choice(["", "\n"]))

    def geom(v):
        if v["type"] == "mesh":
            return "<mesh><filename>%s</filename>%s</mesh>" % (v["file"], "<scale>%s</scale>" % _f(v["size"]) if v["scale"] else "")
        if v["type"] == "box":
            return "<box><size>%s</size></box>" % _f(v["size"])
        if v["type"] == "sphere":
            return "<sphere><radius>%r</radius></sphere>" % v["size"][0]
        return "<cylinder><length>%r</length><radius>%r</radius></cylinder>" % (v["size"][1], v["size"][0])

    def link(i):
        s = [pose(Wd[i])]
        if r.random() < 0.75:
            s.append(_INERT)
        for n, v in enumerate(spec["vis"][i]):
            s.append('<visual name="v%d">%s<geometry>%s</geometry></visual>' % (n, pose(homog(rpy_matrix(v["rpy"]), v["xyz"])), geom(v)))
        if r.random() < 0.2:
            s.append('<collision name="c"><pose>9 9 9 1 1 1</pose><geometry><box><size>1 1 1</size></box></geometry></collision>')
        s.append(_junk(r, warn))
        return '<link name="%s">%s</link>' % (fr[i]["name"], "".join(s))

    def joint(i):
        f = fr[i]
        s = ["<parent>%s</parent>" % fr[f["parent"]]["name"], "<child>%s</child>" % f["name"]]
        if f["type"] != "fixed" or r.random() < 0.6:
            lim = ""
            if f["limits"] is not None:
                lim = [("lower", f["limits"][0]), ("upper", f["limits"][1])]
                r.shuffle(lim)
                lim = "<limit>%s</limit>" % "".join("<%s>%r</%s>" % (a, b, a) for a, b in lim)
            dyn = "<dynamics><damping>0.1</damping></dynamics>" if r.random() < 0.2 else ""
            a = ["<xyz>%s</xyz>" % _f(f["axis"]), lim, dyn]
            r.shuffle(a)
            s.append("<axis>%s</axis>" % "".join(a))
        r.shuffle(s)
        s.append(_junk(r, warn))
        return "<joint%s>%s</joint>" % (_attrs(r, dict(name=f["joint"], type=f["type"])), "".join(s))

    links = [link(i) for i in spec["link_order"]]
    joints = [joint(i) for i in spec["joint_order"]]
    parts = links + joints if r.random() < 0.6 else joints + links
    sep = r.choice(["\n", "\n  ", ""])
    doc = '<sdf version="%s"><model name="%s">%s%s%s</model></sdf>\n' % (r.choice(["1.5", "1.6"]), spec["robot"], sep, sep.join(parts), sep)
    if r.random() < 0.4:
        doc = '<?xml version="1.0"?>\n' + doc
    return doc


def mjcf(spec, style):
    r = random.Random(style)
    fr = spec["frames"]
    deg = r.random() < 0.4
    kids = {i: [j for j in spec["joint_order"] if fr[j]["parent"] == i] for i in range(len(fr))}

    def rng_of(f):
        lo, hi = f["limits"]
        if deg and f["type"] != "prismatic":
            lo, hi = math.degrees(lo), math.degrees(hi)
        return _f([lo, hi])

    def turn(rpy):
        """An orientation in one of the spellings of the format."""
        k = r.random()
        if not any(rpy) and k < 0.7:
            return {}
        R = rpy_matrix(rpy)
        q = matrix_quat(R)
        if k < 0.8:
            return dict(quat=_f(q))
        if k < 0.87:
            return dict(xyaxes=_f(list(R[:, 0]) + list(R[:, 1])))
        if k < 0.94:
            return dict(euler=_f([math.degrees(x) for x in rpy] if deg else rpy))
        a = 2 * math.atan2(math.sqrt(sum(x * x for x in q[1:])), q[0])
        if abs(a) < 1e-3:
            return dict(quat=_f(q))
        return dict(axisangle=_f(list(q[1:]) + [math.degrees(a) if deg else a]))

    dflt = r.random() < 0.2      # slides and an axis by class

    def body(i, ind):
        f = fr[i]
        pad = " " * ind
        s = []
        if i > 0:
            a = dict(name=f["name"], pos=_f(f["xyz"]), **turn(f["rpy"]))
            if not any(f["xyz"]) and r.random() < 0.7:
                del a["pos"]
            s.append('%s<body%s>' % (pad, _attrs(r, a)))
            if f["type"] != "fixed":
                a = dict(name=f["joint"], type="hinge" if f["type"] != "prismatic" else "slide", axis=_f(f["axis"]))
                if a["type"] == "hinge" and r.random() < 0.5:
                    del a["type"]                         # the default type of the format
                if [float(x) for x in f["axis"]] == [0.0, 0.0, 1.0] and r.random() < 0.5:
                    del a["axis"]                         # the default axis of the format
                if f.get("ref"):
                    a["ref"] = _f([math.degrees(f["ref"]) if deg and a.get("type", "hinge") == "hinge" else f["ref"]])
                if dflt and a.get("type") == "slide":
                    del a["type"]
                    a["class"] = "slider"
                if f["limits"] is not None:
                    a["range"] = rng_of(f)
                    if r.random() < 0.5:
                        a["limited"] = "true"
                elif r.random() < 0.2:
                    a["limited"] = "false"
                s.append('%s <joint%s/>' % (pad, _attrs(r, a)))
            if not spec["vis"][i] or r.random() < 0.4:
                s.append('%s <inertial pos="0 0 0" mass="1" diaginertia="1 1 1"/>' % pad)
        for v in spec["vis"][i]:
            s.append('%s <geom%s/>' % (pad, _attrs(r, dict(type=v["type"], size=_f(v["size"]), pos=_f(v["xyz"]),
                                                          **turn(v["rpy"])))))
        for st in spec.get("sites", []):
            if st["parent"] == i:
                s.append('%s <site name="%s" pos="%s" quat="%s"/>' % (
                    pad, st["name"], _f(st["xyz"]), _f(matrix_quat(rpy_matrix(st["rpy"])))))
        if r.random() < 0.1:
            s.append(pad + "<!-- spare -->")
        for k in kids[i]:
            s.extend(body(k, ind + 1))
        if i > 0:
            s.append('%s</body>' % pad)
        return s
    comp = '<compiler eulerseq="XYZ"%s/>' % (' angle="%s"' % ("degree" if deg else "radian") if not deg or r.random() < 0.5 else "")
    if dflt:
        comp += '\n <default><default class="slider"><joint type="slide"/></default></default>'
    return ('<mujoco model="%s">\n %s\n <worldbody>\n%s\n </worldbody>\n</mujoco>\n'
            % (spec["robot"], comp, "\n".join(body(0, 1))))


def emit(spec, style):
    return {"urdf": urdf, "sdf": sdf, "mjcf": mjcf}[spec["fmt"]](spec, style)
