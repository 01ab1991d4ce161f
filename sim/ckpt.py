"""Questions put to a model, transform or solver to tell whether two of them are equivalent, and the two ways of saving
one.  Used in the simulated process and in the freshly started one that restores checkpoints (zygote.py)."""
import copy
import io
import pickle

import numpy as np

from .base import pk, snap, torch


def save(obj, how, sink):
    if how == "torch":
        torch.save(obj, sink)
    else:
        pickle.dump(obj, sink, protocol=int(how))


def restore(data, how):
    if how == "torch":
        return torch.load(io.BytesIO(data), weights_only=False)
    return pickle.loads(data)


def kind_of(obj):
    if isinstance(obj, pk.Transform3d):
        return "transform"
    if isinstance(obj, pk.InverseKinematics):
        return "solver"
    if isinstance(obj, dict):
        return "bundle"
    if isinstance(obj, pk.SerialChain):
        return "serial"
    return "chain"


def mat(t):
    return None if t is None else t.get_matrix().detach().clone()


def structure(c):
    """What the model says about itself."""
    out = dict(dtype=str(c.dtype), device=str(c.device), n=c.n_joints, joints=c.get_joint_parameter_names(),
               allnames=c.get_joint_parameter_names(exclude_fixed=False), frames=c.get_frame_names(exclude_fixed=False),
               links=c.get_link_names(), limits=[np.array(x, float) for x in c.get_joint_limits()],
               vel=[np.array(x, float) for x in c.get_joint_velocity_limits()],
               eff=[np.array(x, float) for x in c.get_joint_effort_limits()], low=c.low, high=c.high, text=str(c),
               parents=c.get_joint_parent_frame_names())
    tree = []
    for n in out["frames"]:
        f = c.find_frame(n)
        j = f.joint
        tree.append([f.name, [x.name for x in f.children], j.name, j.joint_type, j.axis, mat(j.offset),
                     None if j.limits is None else [float(x) for x in j.limits],
                     None if j.velocity_limits is None else [float(x) for x in j.velocity_limits],
                     None if j.effort_limits is None else [float(x) for x in j.effort_limits],
                     f.link.name, mat(f.link.offset),
                     [[str(v.geom_type), repr(v.geom_param), mat(v.offset)] for v in f.link.visuals]])
    out["tree"] = tree
    return out


def ask_model(c, seed):
    g = np.random.default_rng([seed, 5])
    n = c.n_joints
    q = torch.tensor(g.uniform(-2, 2, size=(3, n)), dtype=c.dtype)
    names = c.get_frame_names(exclude_fixed=False)
    T = c.forward_kinematics_tensor(q)
    out = dict(says=structure(c), fk=T[[c.frame_to_idx[x] for x in names]], clamp=c.clamp(q * 3))
    if isinstance(c, pk.SerialChain):
        out["end"] = c.forward_kinematics(q)
        if n:
            p = torch.tensor(g.uniform(-0.3, 0.3, size=3), dtype=c.dtype)
            out["jac"] = list(c.jacobian(q, locations=p, ret_eef_pose=True))
            out["jac0"] = c.jacobian(q)
    else:
        pick = [names[i] for i in g.permutation(len(names))[:3]]
        r = c.forward_kinematics({k: q[:, i] for i, k in enumerate(c.get_joint_parameter_names())} if n else q,
                                 frame_indices=c.get_frame_indices(*pick))
        out["some"] = {k: r[k] for k in sorted(r)}
    if n:
        x = q.clone().requires_grad_(True)
        w = torch.tensor(g.normal(size=tuple(T.shape)), dtype=c.dtype)
        X = c.forward_kinematics_tensor(x)[[c.frame_to_idx[m] for m in names]]
        out["grad"] = torch.autograd.grad((X * w).sum(), [x])[0]
    return snap(out)


def ask_transform(t, seed):
    g = np.random.default_rng([seed, 6])
    p = torch.tensor(g.normal(size=(4, 3)), dtype=t.dtype)
    o = pk.Transform3d(rot=torch.tensor([0.5, 0.5, -0.5, 0.5], dtype=t.dtype), pos=[0.25, 1.0, -2.0], dtype=t.dtype)
    return snap(dict(dtype=str(t.dtype), device=str(t.device), n=len(t), matrix=mat(t), inverse=mat(t.inverse()),
                     points=t.transform_points(p), normals=t.transform_normals(p), composed=mat(t.compose(o)),
                     then=mat(o.compose(t)), stacked=mat(t.stack(t)), first=mat(t[0]), type=type(t).__name__,
                     other=mat(t.to("cpu", dtype=torch.float64 if t.dtype == torch.float32 else torch.float32)), clone=mat(t.clone())))


SETTINGS = ["dtype", "device", "dof", "debug", "enforce_joint_limits", "num_limit_refinement_iterations",
            "early_stopping_any_converged", "early_stopping_no_improvement", "early_stopping_no_improvement_patience",
            "max_iterations", "lr", "regularlization", "lm_damping", "pos_tolerance", "rot_tolerance", "num_retries"]


def ask_solver(k, seed):
    g = np.random.default_rng([seed, 7])
    out = {n: str(getattr(k, n, "-")) for n in SETTINGS}
    out["clamp"] = bool(k.clamp_to_limits)
    out["starts"] = k.initial_config
    out["limits"] = k.joint_limits
    out["search"] = None if k.line_search is None else sorted((a, str(b)) for a, b in vars(k.line_search).items())
    out["model"] = ask_model(k.chain, seed)
    q = torch.tensor(g.uniform(-1, 1, size=(2, k.dof)), dtype=k.dtype)
    with torch.no_grad():
        goals = pk.Transform3d(matrix=k.chain.forward_kinematics(q).get_matrix())
    out["solution"] = k.solve(goals)
    if isinstance(k.config_sampling_method, str) and (k.config_sampling_method != "uniform" or k.joint_limits is not None):
        st = torch.random.get_rng_state()
        torch.manual_seed(seed)
        out["samples"] = k.sample_configs(3)
        torch.random.set_rng_state(st)
    return snap(out)


def ask(obj, seed):
    k = kind_of(obj)
    if k == "transform":
        return ask_transform(obj, seed)
    if k == "solver":
        return ask_solver(obj, seed)
    if k == "bundle":
        return ("D", [(n, ask(obj[n], seed)) for n in sorted(obj)])
    return ask_model(obj, seed)


def afterlife(obj, seed):
    """What becomes of it when it is used further: converted and asked again, sub-models taken from it.  Changes it."""
    k = kind_of(obj)
    if k == "bundle":
        return ("D", [(n, afterlife(obj[n], seed)) for n in sorted(obj)])
    out = []
    if k == "transform":
        return ask_transform(obj.to("cpu", dtype=torch.float64).compose(obj.inverse().to("cpu", dtype=torch.float64)), seed)
    c = obj.chain if k == "solver" else obj
    names = c.get_frame_names(exclude_fixed=False)
    out.append(ask_model(pk.SerialChain(c, names[-1]), seed))
    if k == "solver":
        obj.max_iterations = max(1, obj.max_iterations - 1)
        obj.initial_config = obj.initial_config * 0.5
        out.append(ask_solver(obj, seed + 1))
    else:
        for dt in (torch.float64, torch.float32):
            c.to(dtype=dt)
            out.append(ask_model(c, seed))
    return ("L", "list", out)


def both(obj, seed, deep):
    a = ask(obj, seed)
    return [a, afterlife(copy.deepcopy(obj) if deep == "copy" else obj, seed) if deep else None]
