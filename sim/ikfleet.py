"""Inverse-kinematics solvers, goals and the oracle that judges a solution, shared by several worlds."""
import numpy as np

from . import base
from .base import DT, Violation, need, pk, torch  # noqa: F401
from .fleet import FleetWorld, np_rng  # noqa: F401
from .robots import RefModel, arm7, gen_spec, sibling, homog, pose_error, random_rotation, rot_axis  # noqa: F401


def onesided(g, spec):
    """Take one end away from some of the joint limits."""
    for f in spec["frames"]:
        if f["limits"] is not None and f["type"] != "fixed" and g.random() < 0.5:
            lo, hi = f["limits"]
            c = g.random()
            if c < 0.3:   # a bound far from zero, or beyond it
                lo, hi = float(np.round(g.uniform(-4, 2), 3)), float(np.round(g.uniform(-2, 4), 3))
            f["limits"] = [lo, float("inf")] if g.random() < 0.5 else [float("-inf"), hi]
    return spec


def span(lo, hi, w=3.0):
    """A finite range inside the limits."""
    lo, hi = np.array(lo, float), np.array(hi, float)
    a, b = np.isfinite(lo), np.isfinite(hi)
    return (np.where(a, lo, np.where(b, hi - w, -w / 2)), np.where(b, hi, np.where(a, lo + w, w / 2)))


def gen_arms(rng, n, dtypes=("f32", "f64"), limits=None, min_dof=3, max_dof=8, fmts=("urdf", "urdf", "sdf", "mjcf")):
    """Serial models for inverse kinematics (same descriptor format as fleet.gen_models)."""
    out = []
    for _ in range(n):
        if out and rng.random() < 0.4:
            d = dict(rng.choice(out))
            d["spec"] = sibling(np_rng(rng), d["spec"])
            if rng.random() < 0.4:
                d["dtype"] = rng.choice(list(dtypes))
            out.append(d)
            continue
        if rng.random() < 0.45:
            cont = tuple(sorted(rng.sample(range(7), rng.choice([0, 0, 1, 2]))))
            spec = arm7(limits=rng.random() < 0.75 if limits is None else limits, continuous=cont)
            root, tip = None, rng.choice(["tool", "arm7", "arm7"])
        else:
            g = np_rng(rng)
            for _k in range(200):
                spec = gen_spec(g, fmt=rng.choice(list(fmts)), shape="serial", n=rng.randint(min_dof + 1, max_dof + 2),
                                types=[["revolute"], ["revolute", "revolute", "prismatic"],
                                       ["revolute", "continuous"], ["revolute", "revolute", "fixed"]][rng.randrange(4)],
                                limits=rng.choice(["all", "all", "some", "none"]) if limits is None else
                                ("all" if limits else "none"))
                ref = RefModel(spec)
                tip = ref.tips()[0] if spec["fmt"] != "mjcf" else spec["frames"][-1]["name"]
                root = None
                if min_dof <= RefModel(spec, tip=tip).n <= max_dof:
                    break
        if spec["fmt"] in ("urdf", "sdf") and limits is not False and rng.random() < 0.3:
            spec = onesided(np_rng(rng), spec)
        out.append(dict(spec=spec, dtype=rng.choice(list(dtypes)), kind="serial", root=root, tip=tip,
                        how=rng.choice(["direct", "extract", "extract64"])))
    return out


def gen_solver(rng, model, mi, max_it=(1, 2, 4, 8, 15, 25), early=True, f64tol=True, retries=(1, 1, 2, 3, 5, 8)):
    ref = RefModel(model["spec"], root=model["root"], tip=model["tip"])
    lo, hi = ref.limits()
    finite = all(np.isfinite(lo)) and all(np.isfinite(hi))
    s = dict(m=mi, kind=rng.choice(["dls", "dls", "svd"]),
             tol=rng.choice([[1e-3, 1e-2], [1e-2, 5e-2], [3e-4, 3e-3], [5e-2, 0.3], [1e-3, 0.3], [5e-2, 1e-2]]),
             R=rng.choice(list(retries)), seed=rng.randrange(1000),
             start=rng.choice(["given", "given", "given", "uniform", "gaussian", "callable"]),
             max_iterations=rng.choice(list(max_it)), lr=rng.choice([1.0, 1.0, 0.5, 0.2]),
             ls=rng.choice([None, None, None, [1.0, 0.5, 5, 0.01], [1.0, 0.5, 3, 1e-4]]),
             reg=rng.choice([1e-9, 1e-9, 1e-6, 1e-3]), lm=rng.choice([0.1, 0.1, 0.0, 0.01]),
             w=rng.choice([[1.0, 1.0], [1.0, 1.0], [2.0, 0.5], [1.0, 0.2]]),
             any=rng.random() < 0.3 if early else False,
             noimp=rng.choice([None, None, "any", "all", 0.5]) if early else None, patience=rng.choice([0, 1, 2, 4]),
             enforce=rng.random() < 0.6, refine=rng.choice([0, 1, 3, 10]), clamp=rng.random() < 0.3, finite=finite)
    if rng.random() < 0.04:
        s["debug"] = True
    if rng.random() < 0.02:
        s["max_iterations"] = 0
    if s["start"] == "uniform" and not finite:
        s["lim"] = "made"
    return s


def start_configs(s, ref, dt):
    """(R, dof) starting configurations handed to the solver."""
    g = np.random.default_rng([s["seed"], ref.n, 11])
    lo, hi = span(*ref.limits(), w=[3.0, 3.0, 3.0, 11.0][int(s["seed"]) % 4])
    q = g.uniform(lo, hi, size=(s["R"], ref.n))
    k = g.random()
    if k < 0.15:
        q[0] = 0.0
    elif k < 0.25:
        q = q + 1.0
    return q.astype(np.float32).astype(float) if dt == torch.float32 else q


class Drawing:
    """Stands in for figures and axes: whatever is drawn is looked at and forgotten."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def draw(*a, **k):
            for x in a:
                if torch.is_tensor(x):
                    x.numpy()
            if name in ("set_xlim", "set_ylim") and not np.isfinite(np.array(a, float)).all():
                raise ValueError("Axis limits cannot be NaN or Inf")
        return draw

    def __getitem__(self, i):
        return self


def no_display():
    """Progress drawn in debug mode goes nowhere."""
    import matplotlib.pyplot as plt
    plt.subplots = lambda *a, **k: (Drawing(), Drawing())
    plt.show = lambda *a, **k: None


class OwnLineSearch(pk.BacktrackingLineSearch):
    """A caller's own line search: it evaluates through the model, like any caller would."""

    def do_line_search(self, chain, q, dq, target_pos, target_wxyz, initial_dx, problem_remaining=None, **_):
        return super().do_line_search(chain, q, dq, target_pos, target_wxyz, initial_dx,
                                      problem_remaining=problem_remaining)


def build_solver(s, m, **over):
    """m: fleet.Model.  Draws from torch's global stream when the configurations are to be sampled."""
    ref, dt = m.ref, m.dtype
    kw = dict(pos_tolerance=s["tol"][0], rot_tolerance=s["tol"][1], max_iterations=s["max_iterations"], lr=s["lr"],
              line_search=None if s["ls"] is None else
              (OwnLineSearch if s["seed"] % 4 == 0 else pk.BacktrackingLineSearch)(*s["ls"]), regularlization=s["reg"],
              lm_damping=s["lm"], position_weight=s["w"][0], orientation_weight=s["w"][1],
              early_stopping_any_converged=s["any"], early_stopping_no_improvement=s["noimp"],
              early_stopping_no_improvement_patience=s["patience"], enforce_joint_limits=s["enforce"],
              num_limit_refinement_iterations=s["refine"], clamp_to_limits=s["clamp"])
    if s["start"] == "given":
        kw["retry_configs"] = torch.tensor(start_configs(s, ref, dt), dtype=dt)
    else:
        kw["num_retries"] = s["R"]
        if s["start"] == "uniform":
            lim = np.stack(span(*ref.limits()), 1)
            kw["joint_limits"] = torch.tensor(lim, dtype=dt)
        elif s["start"] == "gaussian":
            kw["config_sampling_method"] = "gaussian"
        else:
            g = torch.Generator().manual_seed(s["seed"])
            kw["config_sampling_method"] = lambda n: torch.randn(n, ref.n, generator=g, dtype=dt) * 0.7
    if s.get("debug"):
        no_display()
        kw["debug"] = True
    kw.update(over)
    cls = pk.PseudoInverseIK if s["kind"] == "dls" else pk.PseudoInverseIKWithSVD
    return cls(m.obj, **kw)


GOALS = ["reach", "reach", "reach", "reach", "near", "near", "start", "far", "nan", "inf", "flip", "badrot"]


def gen_goals(rng, n, kinds=None):
    return [rng.choice(kinds or GOALS) for _ in range(n)]


def make_goals(kinds, seed, ref, starts, dt):
    """(M,4,4) float64 goal poses in the base frame (already rounded to the precision handed over) and a healthy mask."""
    out, ok = [], []
    lo, hi = span(*ref.limits())
    for i, k in enumerate(kinds):
        g = np.random.default_rng([seed, i, ref.n])
        q0 = starts[int(g.integers(len(starts)))] if len(starts) else g.uniform(lo, hi)
        if k == "reach":
            q = g.uniform(lo, hi)
        elif k == "near":
            q = q0 + g.normal(size=ref.n) * 10 ** g.uniform(-4, -1)
        elif k == "start":
            q = q0
        else:
            q = g.uniform(lo, hi)
        T = ref.fk_of(q[None], ref.tip)[0].copy()
        if k == "far":
            T[:3, 3] += g.normal(size=3) * 20
        elif k == "flip":
            a = g.normal(size=3)
            T = ref.fk_of(q0[None], ref.tip)[0].copy()
            T[:3, :3] = rot_axis(a, np.pi) @ T[:3, :3]
        elif k == "nan":
            if g.random() < 0.5:
                T[:] = np.nan
            else:
                T[int(g.integers(3)), 3] = np.nan
        elif k == "inf":
            T[int(g.integers(3)), 3] = np.inf
        elif k == "badrot":
            T[:3, :3] = np.nan
        out.append(T)
        ok.append(k not in ("nan", "inf", "badrot"))
    M = np.stack(out)
    if dt == torch.float32:
        with np.errstate(all="ignore"):
            M = M.astype(np.float32).astype(float)
    return M, np.array(ok)


def goal_transform(M, dt):
    return pk.Transform3d(matrix=torch.tensor(M, dtype=dt))


def check_solution(w, m, s, goals, ok, sol, what):
    """The honesty oracle: recompute with the reference what the solution claims."""
    ref, dt = m.ref, m.dtype
    Mn, R, n = len(goals), s["R"], ref.n
    for f, shape in (("solutions", (Mn, R, n)), ("err_pos", (Mn, R)), ("err_rot", (Mn, R)), ("converged", (Mn, R)),
                     ("converged_pos", (Mn, R)), ("converged_rot", (Mn, R)), ("converged_any", (Mn,)),
                     ("converged_pos_any", (Mn,)), ("converged_rot_any", (Mn,)), ("remaining", (Mn,))):
        v = getattr(sol, f)
        if tuple(v.shape) != shape:
            raise Violation("wrong-shape", "%s: %s has shape %s, expected %s" % (what, f, tuple(v.shape), shape))
    if sol.solutions.dtype != dt or sol.err_pos.dtype != dt or sol.err_rot.dtype != dt:
        raise Violation("wrong-dtype", "%s: %s / %s / %s, expected %s" % (what, sol.solutions.dtype, sol.err_pos.dtype,
                                                                          sol.err_rot.dtype, dt))
    if not 0 <= sol.iterations <= s["max_iterations"]:
        raise Violation("budget-exceeded", "%s: %d iterations of %d allowed" % (what, sol.iterations, s["max_iterations"]))
    conv = sol.converged.numpy()
    cp, cr = sol.converged_pos.numpy(), sol.converged_rot.numpy()
    if not np.array_equal(conv, cp & cr):
        raise Violation("flags-inconsistent", "%s: converged differs from converged_pos and converged_rot" % what)
    for a, b in (("converged_any", conv), ("converged_pos_any", cp), ("converged_rot_any", cr)):
        if not np.array_equal(getattr(sol, a).numpy(), b.any(1)):
            raise Violation("flags-inconsistent", "%s: %s disagrees with the per-attempt flags" % (what, a))
    q = sol.solutions.detach().to(torch.float64).numpy()
    ep = sol.err_pos.detach().to(torch.float64).numpy()
    er = sol.err_rot.detach().to(torch.float64).numpy()
    T = ref.fk_of(q.reshape(Mn * R, n), ref.tip).reshape(Mn, R, 4, 4)
    with np.errstate(all="ignore"):
        pe, re = pose_error(T, goals[:, None])
    # how well the reference can know the pose of q: joint values far from zero lose trigonometric accuracy
    eps = 1.2e-7 if dt == torch.float32 else 2.3e-16
    qs = np.nan_to_num(np.abs(q), nan=0, posinf=0).max(-1, initial=0)
    base_tol = (2.5e-5 if dt == torch.float32 else 8e-6) * ref.reach
    sp = base_tol + 8 * eps * n * qs * ref.reach + 1e-6 * np.nan_to_num(pe, posinf=0)
    sr = base_tol + 8 * eps * n * qs
    pt, rt = s["tol"]
    finite = np.isfinite(q).all(-1) & ok[:, None]
    bad = finite & ~(np.abs(ep - pe) <= sp)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation("dishonest-error", "%s: goal %d attempt %d claims position error %.6g, really %.6g" % (
            (what,) + i + (ep[i], pe[i])))
    near_pi = re > np.pi - 0.05
    bad = finite & ~near_pi & ~(np.abs(er - re) <= sr)
    bad |= finite & near_pi & ~(er >= np.pi - 0.06)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation("dishonest-error", "%s: goal %d attempt %d claims rotation error %.6g, really %.6g" % (
            (what,) + i + (er[i], re[i])))
    good_p, good_r = pe < pt, re < rt
    amb_p, amb_r = np.abs(pe - pt) <= sp, np.abs(re - rt) <= sr
    for name, flag, good, amb in (("converged_pos", cp, good_p, amb_p), ("converged_rot", cr, good_r, amb_r)):
        bad = finite & (flag != good) & ~amb
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Violation("dishonest-flag", "%s: goal %d attempt %d: %s=%s but the returned configuration is off by "
                            "%.6g / %.6g (tolerances %g / %g)" % ((what,) + i + (name, bool(flag[i]), pe[i], re[i], pt, rt)))
    bad = ~finite & conv
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation("dishonest-flag", "%s: goal %d attempt %d is not finite but reported converged" % ((what,) + i))
    if s["enforce"]:
        lo, hi = np.array(ref.limits()[0]), np.array(ref.limits()[1])
        sl = 4 * 1.2e-7 * (1 + np.where(np.isfinite(lo), np.abs(lo), 0) + np.where(np.isfinite(hi), np.abs(hi), 0)) + 1e-7
        bad = np.isfinite(q).all(-1)[..., None] & ((q < lo - sl) | (q > hi + sl))
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Violation("limits-broken", "%s: goal %d attempt %d joint %d = %.12g outside [%.12g, %.12g]" % (
                (what,) + i + (q[i], lo[i[2]], hi[i[2]])))
    if not np.isfinite(q[ok]).all():
        w.probe("non-finite-configuration-for-healthy-goal")
    w.probe("attempts-checked", int(finite.sum()))
    w.probe("attempts-converged", int(conv.sum()))
    return conv
