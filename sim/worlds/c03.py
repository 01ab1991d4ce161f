"""C03: gradients through poses are exact whenever the backward pass runs."""
import numpy as np

from ..base import call, close, need, pk, torch
from ..core import Violation
from ..robots import homog, random_rotation
from ..fleet import (FleetWorld, REAL, STUB, gen_bad_op, gen_fk_op, gen_jac_op, gen_models, gen_phases)

ID = "C03"
RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("Program: 1-3 shared random models, 1-4 callers; forward queries leave pending graphs (leaf, non-leaf, view, "
        "expanded, 1-D and by-name inputs; linear and quadratic losses over all or some frames or a tool pose) that any "
        "caller differentiates later, in any order, repeatedly, under preemption, cancellation, or after in-place edits "
        "of inputs and results; first derivatives are compared with the analytic reference derivative, second "
        "derivatives with differences of the reference gradient.")
ASSUME = ["in-place edits go through torch operations (edits hidden from torch with .data are out of scope) and do not "
          "overlap a running backward pass over the same poses",
          "one caller at a time uses forward-mode differentiation (torch keeps its dual levels per process, not per thread)",
          "tolerance scales with the pose tolerance times the sum of absolute weights"]


def gen(rng, tier):
    nt = rng.choice([1, 2, 2, 3, 3, 4])
    models = gen_models(rng, rng.choice([1, 1, 2, 3]), min_dof=1)
    serial = [i for i, m in enumerate(models) if m["kind"] == "serial"]
    p_fault = rng.choice([0, 0, 0.25])
    p_edit = rng.choice([0, 0.1, 0.25])
    keys, made = [], []

    def make(r, ph, t):
        k = r.random()
        if not keys or k < 0.35:
            mi = r.randrange(len(models))
            ser = models[mi]["kind"] == "serial"
            op = dict(op="fwd", m=mi, q=r.randrange(6), B=r.choice([1, 1, 2, 3, 5, 8, 17]), key=len(keys),
                      leaf=r.choice(["leaf", "leaf", "leaf", "nonleaf", "expand", "view", "one", "dict", "dict"]),
                      via=r.choice(["dict", "indices", "tensor", "tensor_ag"] if not ser else
                                   ["end", "end", "all", "tensor", "tensor_ag", "jacpose", "jactool"]),
                      gseed=r.randrange(50), quad=r.random() < 0.5, late=r.random() < 0.25, sparse=r.random() < 0.4,
                      tail=r.choice([None, None, None, None, "points", "compose", "inverse", "normals", "stack"]))
            if made and r.random() < 0.3:
                for f in ("m", "B", "via"):     # as an earlier query, so that both can be differentiated as one
                    op[f] = made[-1][f]
            made.append(op)
            keys.append(op["key"])
            return op
        if k < 0.39:
            return dict(op="func", m=r.randrange(len(models)), q=r.randrange(6), B=r.choice([1, 1, 2, 3]),
                        how=r.choice(["jvp", "fjvp", "jacfwd", "jacobian", "jacobian_vec", "vjp", "vhp", "hvp"]),
                        wseed=r.randrange(20))
        if k < 0.45:
            op = dict(op="sum", keys=[r.choice(keys[-6:]), r.choice(keys[-3:])], wseed=r.randrange(20),
                      how=r.choice(["outputs", "loss", "outputs_nc", "plain"]))
            if r.random() < p_fault:
                op["fault"] = dict(kind=r.choice(["cancel", "interrupt", "oom"]), at=r.randint(1, 30))
            return op
        if k < 0.75:
            op = dict(op="bwd", key=r.choice(keys[-6:]), how=r.choice(["grad", "grad", "grad", "backward", "backward", "double", "double", "batched"]),
                      retain=r.random() < 0.8, wseed=r.randrange(20))
            if r.random() < p_fault:
                op["fault"] = dict(kind=r.choice(["cancel", "interrupt", "oom"]), at=r.randint(1, 30))
            return op
        if k < 0.75 + p_edit:
            return dict(op="edit", key=r.choice(keys[-6:]), what=r.choice(["input", "result"]),
                        how=r.choice(["add", "zero", "copy"]))
        j = r.random()
        if j < 0.1:
            return gen_bad_op(r, models)
        if j < 0.35 and serial:
            return gen_jac_op(r, models, serial, big=False)
        return gen_fk_op(r, models, big=False)

    return dict(nthreads=nt, models=models, opcodes=rng.random() < 0.12,
                phases=gen_phases(rng, nt, rng.choice([1, 2, 3]), (2, 7) if nt > 1 else (6, 16), make))


class Pending:
    pass


class W(FleetWorld):
    def setup(self, sim):
        super().setup(sim)
        self.pend = {}
        self.forward_ad = False

    def op_fwd(self, tid, op, sim):
        m = self.models[op["m"]]
        q = self.q_of(m, op)
        c, n = m.obj, m.ref.n
        leaf, via = op["leaf"], op["via"]
        if leaf == "dict" and via in ("tensor", "tensor_ag", "jacpose", "jactool"):
            leaf = "leaf"
        dt = m.dtype
        p = Pending()
        p.names = None
        t = torch.tensor(q, dtype=dt)
        B = len(q)
        if leaf == "leaf":
            p.leaves = [t.requires_grad_(True)]
            th = p.leaves[0]
            p.pull = lambda g: [g]
        elif leaf == "nonleaf":
            a = ((t - 0.25) / 1.5).detach().requires_grad_(True)
            p.leaves = [a]
            th = a * 1.5 + 0.25
            q = th.detach().to(torch.float64).numpy()
            p.pull = lambda g: [g * 1.5]
        elif leaf == "expand":
            a = t[:1].clone().requires_grad_(True)
            p.leaves = [a]
            th = a.expand(B, n)
            q = np.repeat(q[:1], B, 0)
            p.pull = lambda g: [g.sum(0, keepdims=True)]
        elif leaf == "view":
            a = torch.full((2 * B, n + 2), 0.5, dtype=dt)
            a[::2, 1:-1] = t
            a.requires_grad_(True)
            p.leaves = [a]
            th = a[::2, 1:-1]

            def pull(g):
                o = np.zeros((2 * B, n + 2))
                o[::2, 1:-1] = g
                return [o]
            p.pull = pull
        elif leaf == "one":
            a = t[0].clone().requires_grad_(True)
            p.leaves = [a]
            th = a if via not in ("tensor", "tensor_ag") else a.unsqueeze(0)
            q = q[:1]
            B = 1
            p.pull = lambda g: [g[0]]
        else:
            p.leaves = [t[:, i].clone().requires_grad_(True) for i in range(n)]
            th = {j: p.leaves[i] for i, j in enumerate(m.ref.joints)}
            p.pull = lambda g: [g[:, i] for i in range(n)]
        p.q, p.m, p.B = q, m, B
        g = np.random.default_rng([op["gseed"], 5])
        names = m.ref.names
        tool = None
        if via in ("end", "jacpose", "jactool"):
            names = [m.ref.tip]
        elif via == "indices":
            names = [names[i] for i in g.permutation(len(names))[: int(g.integers(1, len(names) + 1))]]
        if via == "dict":
            fn = lambda: c.forward_kinematics(th)  # noqa: E731
        elif via == "indices":
            fn = lambda: c.forward_kinematics(th, frame_indices=c.get_frame_indices(*names))  # noqa: E731
        elif via == "end":
            fn = lambda: c.forward_kinematics(th)  # noqa: E731
        elif via == "all":
            fn = lambda: c.forward_kinematics(th, end_only=False)  # noqa: E731
        elif via == "tensor":
            fn = lambda: c.forward_kinematics_tensor(th)  # noqa: E731
        elif via == "tensor_ag":
            fn = lambda: c.forward_kinematics_tensor(th, analytical_grad=False)  # noqa: E731
        elif via == "jacpose":
            fn = lambda: c.jacobian(th, ret_eef_pose=True)[1]  # noqa: E731
        else:
            off = np.round(g.uniform(-0.4, 0.4, size=3), 3).astype(np.float32).astype(float)
            tool = np.eye(4)
            tool[:3, 3] = off
            lt = torch.tensor(off, dtype=dt)
            fn = lambda: c.jacobian(th, locations=lt, ret_eef_pose=True)[1]  # noqa: E731
        what = "query (op %s, caller %d, %s input via %s, B=%d)" % (op["id"], tid, leaf, via, B)
        v = need(call(sim, fn), what)
        self.note(tid, op["id"], "fwd")
        # results as (name -> (B,4,4) tensor)
        if via in ("dict", "indices", "all"):
            res = {nm: v[nm].get_matrix() for nm in names}
        elif via == "end":
            res = {names[0]: v.get_matrix()}
        elif via in ("jacpose", "jactool"):
            res = {names[0]: v}
        else:
            res = {nm: v[c.frame_to_idx[nm]] for nm in names}
        p.raw = v if isinstance(v, torch.Tensor) else None
        for nm, x in res.items():
            w = m.ref.fk_of(q, nm)
            if tool is not None:
                w = w @ tool
            close(x, w, m.tol(), what + " frame " + nm)
            if not x.requires_grad:
                raise Violation("no-gradient", "%s: frame %s is not differentiable" % (what, nm))
        p.res, p.tool, p.names = res, tool, names
        F = len(m.ref.names)
        tail = None if op["late"] else op.get("tail")       # a pose edited in place need not be rigid any more
        G = np.zeros((F, B, 4, 4))
        H = np.zeros((F, B, 4, 4))
        for nm in names:
            f = m.ref.index[nm]
            G[f] = g.normal(size=(B, 4, 4)).astype(np.float32)
            if op["sparse"]:
                G[f] *= g.random((B, 4, 4)) < 0.3
            if op["quad"] and not op["late"] and not tail:
                H[f] = g.normal(size=(B, 4, 4)).astype(np.float32)
        p.G, p.H, p.tail = G, H, tail
        if p.tail in ("points", "normals"):       # weights of the transformed points stand for weights of the pose
            p.pts = np.round(g.uniform(-1, 1, size=(B, 3, 3)), 3).astype(np.float32).astype(float)
            p.W3 = np.zeros((F, B, 3, 3))
            G[:] = 0
            for nm in names:
                f = m.ref.index[nm]
                p.W3[f] = g.normal(size=(B, 3, 3)).astype(np.float32)
                G[f, :, :3, :3] = np.einsum("bpi,bpj->bij", p.W3[f], p.pts)
                if p.tail == "points":
                    G[f, :, :3, 3] = p.W3[f].sum(1)
        elif p.tail == "compose":
            p.by = homog(np.round(random_rotation(g), 4), g.uniform(-1, 1, size=3)).astype(np.float32).astype(float)
        p.loss = None
        if not op["late"]:
            p.loss = self.make_loss(p)
        p.freed = p.edited = False
        p.accum_ok, p.accum_tainted, p.running = 0, False, 0
        p.what = what
        self.pend[op["key"]] = p

    def make_loss(self, p):
        dt = p.m.dtype
        loss = torch.zeros((), dtype=dt)
        tail = p.tail
        for nm in p.names:
            f = p.m.ref.index[nm]
            x = p.res[nm]
            if tail is not None:
                T = pk.Transform3d(matrix=x)
                if tail == "points":
                    y, G = T.transform_points(torch.tensor(p.pts, dtype=dt)), p.W3[f]
                elif tail == "normals":
                    y, G = T.transform_normals(torch.tensor(p.pts, dtype=dt)), p.W3[f]
                elif tail == "compose":
                    y, G = T.compose(pk.Transform3d(matrix=torch.tensor(p.by, dtype=dt))).get_matrix(), p.G[f]
                elif tail == "inverse":
                    y, G = T.inverse().get_matrix(), p.G[f]
                else:
                    y, G = T.stack(pk.Transform3d(dtype=dt))[:-1].get_matrix(), p.G[f]
                loss = loss + (y * torch.tensor(G, dtype=dt)).sum()
                continue
            loss = loss + (x * torch.tensor(p.G[f], dtype=dt)).sum()
            if p.H[f].any():
                loss = loss + 0.5 * (x * x * torch.tensor(p.H[f], dtype=dt)).sum()
        return loss

    def weights_of(self, p, T):
        """d loss / d T, for the pose T."""
        if p.tail == "compose":
            return p.G @ p.by.T
        if p.tail == "inverse":
            Ti = np.linalg.inv(T)
            Tt = np.swapaxes(Ti, -1, -2)
            return -(Tt @ p.G @ Tt)
        return p.G + p.H * T

    def ref_grad_q(self, p, q, cot=None):
        ref = p.m.ref
        T = ref.fk(q)
        D = ref.dfk(q)
        if p.tool is not None:
            T = T @ p.tool
            D = D @ p.tool
        return np.einsum("fbnij,fbij->bn", D, self.weights_of(p, T) if cot is None else cot)

    def op_func(self, tid, op, sim):
        """torch's functional derivative operators, over a query made inside them."""
        m = self.models[op["m"]]
        q = self.q_of(m, op)
        ref, dt, how = m.ref, m.dtype, op["how"]
        g = np.random.default_rng([op["wseed"], ref.n])
        name = ref.names[int(g.integers(len(ref.names)))]
        v = g.normal(size=q.shape).astype(np.float32).astype(float)
        w = g.normal(size=(len(q), 4, 4)).astype(np.float32).astype(float)
        t, tv, tw = (torch.tensor(x, dtype=dt) for x in (q, v, w))
        c = m.obj
        if m.kind == "serial":
            f = lambda x: c.forward_kinematics(x, end_only=False)[name].get_matrix()  # noqa: E731
        else:
            f = lambda x: c.forward_kinematics(x)[name].get_matrix()  # noqa: E731
        loss = lambda x: (f(x) * tw).sum()  # noqa: E731
        fn = torch.autograd.functional
        run = {"jvp": lambda: torch.func.jvp(f, (t,), (tv,)), "fjvp": lambda: fn.jvp(f, t, tv),
               "jacfwd": lambda: torch.func.jacfwd(f)(t), "jacobian": lambda: fn.jacobian(f, t),
               "jacobian_vec": lambda: fn.jacobian(f, t, vectorize=True), "vjp": lambda: fn.vjp(f, t, tw),
               "vhp": lambda: fn.vhp(loss, t, tv), "hvp": lambda: fn.hvp(loss, t, tv)}[how]
        what = "derivative %s of the pose of %s (op %s, caller %d, B=%d)" % (how, name, op["id"], tid, len(q))
        fwd_mode = how in ("jvp", "jacfwd")
        if fwd_mode and self.forward_ad:
            self.probe("forward-mode-busy")
            return
        self.forward_ad = self.forward_ad or fwd_mode
        out = call(sim, run)
        if fwd_mode:
            self.forward_ad = False
        self.note(tid, op["id"], out.kind())
        if out.exc is not None:
            if not isinstance(out.exc, (RuntimeError, ValueError, NotImplementedError)):
                raise Violation("unexpected-error", "%s raised %s: %s" % (what, type(out.exc).__name__, out.exc))
            self.probe("functional-derivative-refused")
            return
        k = ref.index[name]
        D = ref.dfk(q)[k]                               # (B, n, 4, 4)
        tol = 4 * m.tol() * (1 + np.abs(v).sum() + np.abs(w).sum())
        if how in ("jvp", "fjvp"):
            close(out.value[0], ref.fk(q)[k], m.tol(), what + " pose")
            close(out.value[1], np.einsum("bnij,bn->bij", D, v), tol, what)
        elif how == "vjp":
            close(out.value[1], np.einsum("bnij,bij->bn", D, w), tol, what)
        elif how in ("vhp", "hvp"):
            gr = lambda h: np.einsum("bnij,bij->bn", ref.dfk(q + h * v)[k], w)  # noqa: E731
            d = lambda h: (gr(h) - gr(-h)) / (2 * h)  # noqa: E731
            close(out.value[1], (4 * d(5e-4) - d(1e-3)) / 3, 30 * tol + 1e-6, what)
        else:
            B, n = q.shape
            J = np.zeros((B, 4, 4, B, n))
            for b in range(B):
                J[b, :, :, b] = np.moveaxis(D[b], 0, -1)
            close(out.value, J, tol, what)
        self.hold(what, out.value)
        self.probe("functional-derivatives-checked")

    def ref_second(self, p, w):
        """Gradient of sum_k w_k * (dloss/dq)_k with respect to q, per row: directional differences."""
        # H is symmetric: Hessian(row) @ w(row) = d/de grad(q + e w)
        def d(h):
            return (self.ref_grad_q(p, p.q + h * w) - self.ref_grad_q(p, p.q - h * w)) / (2 * h)
        a, b = d(1e-3), d(5e-4)
        return (4 * b - a) / 3

    def scale(self, p):
        T = np.abs(p.m.ref.fk(p.q)) + 1
        s = float((np.abs(p.G) + np.abs(p.H) * T).sum(axis=(0, 2, 3)).max()) * (
            (2 + p.m.ref.reach) ** 2 if p.tail in ("inverse", "compose") else 1)
        return 4 * p.m.tol() * (1 + s) * (p.B if len(p.leaves[0]) != p.B and len(p.leaves) == 1 else 1)

    def op_bwd(self, tid, op, sim):
        p = self.pend.get(op["key"])
        if p is None:
            self.probe("nothing-pending")
            return
        how = op["how"]
        what = "gradient (op %s, caller %d, %s) of %s" % (op["id"], tid, how, p.what)
        retain = op["retain"] or how == "double"
        had_freed = p.freed
        if not retain:
            p.freed = True
        fault = op.get("fault")
        if fault is not None:
            p.freed = p.freed or not retain
            if how == "backward":
                p.accum_tainted = True

        def loss_of():
            return p.loss if p.loss is not None else self.make_loss(p)

        if how == "grad":
            fn = lambda: torch.autograd.grad(loss_of(), p.leaves, retain_graph=retain)  # noqa: E731
        elif how == "backward":
            fn = lambda: loss_of().backward(retain_graph=retain)  # noqa: E731
        elif how == "batched":       # several cotangents in one vectorised backward; the last one is this gradient's own
            gb = np.random.default_rng([op["wseed"], 9])
            cot = gb.normal(size=(3,) + p.G.shape).astype(np.float32).astype(float)
            cot[2] = p.G
            idx = [p.m.ref.index[nm] for nm in p.names]
            fn = lambda: torch.autograd.grad(  # noqa: E731
                [p.res[nm] for nm in p.names], p.leaves, [torch.tensor(cot[:, f], dtype=p.m.dtype) for f in idx],
                retain_graph=retain, is_grads_batched=True)
        else:
            w = np.random.default_rng([op["wseed"], p.m.ref.n]).normal(size=p.q.shape)
            w = w.astype(np.float32).astype(float)
            pw = p.pull(w)

            def fn():
                gs = torch.autograd.grad(loss_of(), p.leaves, create_graph=True)
                if not any(x.requires_grad for x in gs):
                    raise RuntimeError("second derivative not provided")
                s = sum((x * torch.tensor(y, dtype=x.dtype)).sum() for x, y in zip(gs, pw))
                h = torch.autograd.grad(s, p.leaves, retain_graph=True, allow_unused=True)
                return gs, [torch.zeros_like(a) if b is None else b for a, b in zip(p.leaves, h)]
        p.running += 1
        try:
            out = call(sim, fn, fault=fault)
        finally:
            p.running -= 1
        self.note(tid, op["id"], out.kind() if out.exc is None or out.fired else "err")
        if out.fired:
            self.after_fault(out, what)
            return
        if out.exc is not None:
            if not isinstance(out.exc, (RuntimeError, ValueError, NotImplementedError)):
                raise Violation("unexpected-error", "%s raised %s: %s" % (what, type(out.exc).__name__, out.exc))
            if how == "backward":
                p.accum_tainted = True
            if p.edited or p.freed or had_freed:
                self.probe("gradient-refused-after-edit-or-release")
                return
            if how == "double":
                self.probe("second-derivative-refused")
                return
            if how == "batched":
                self.probe("batched-gradient-refused")
                return
            need(out, what)
        if how == "backward":
            p.accum_ok += 1
            self.probe("backward-accumulated")
            return
        tol = self.scale(p)
        if how == "batched":
            for b in range(3):
                keep = np.zeros_like(cot[b])
                keep[idx] = cot[b][idx]
                want = p.pull(self.ref_grad_q(p, p.q, keep))
                for k, (x, y) in enumerate(zip(out.value, want)):
                    close(x[b], y, 3 * tol + 12 * p.m.tol() * float(np.abs(keep).sum()),
                          what + " cotangent %d input %d" % (b, k))
            self.hold(what, list(out.value))
            self.probe("batched-gradient-checked")
            return
        want = p.pull(self.ref_grad_q(p, p.q))
        gs = out.value if how == "grad" else out.value[0]
        for k, (a, b) in enumerate(zip(gs, want)):
            d = close(a, b, tol, what + " input %d" % k)
            self.maxratio = max(self.maxratio, d / tol)
        self.hold(what, list(gs) if how == "grad" else [x.detach() for x in gs])
        self.probe("first-derivative-checked")
        if p.edited:
            self.probe("gradient-right-after-edit")
        if how == "double":
            # the pull-back is linear: d/dleaf of <w_pulled, g_leaf>
            H = self.ref_second(p, self.push(p, pw))
            want2 = p.pull(H)
            t2 = tol * 30 * (1 + float(np.abs(w).sum(1).max())) + 1e-6
            for k, (a, b) in enumerate(zip(out.value[1], want2)):
                close(a, b, t2, what + " second derivative, input %d" % k)
            self.probe("second-derivative-checked")

    def op_sum(self, tid, op, sim):
        """One backward pass through several pending results at once, weighted by a tensor of the caller."""
        ps = [self.pend.get(k) for k in op["keys"]]
        ps = [p for p in ps if p is not None and p.raw is not None and not (p.freed or p.edited)]
        if not ps:
            self.probe("nothing-pending")
            return
        first = ps[0]
        ps = [first] + [p for p in ps[1:] if p is not first and p.raw.shape == first.raw.shape
                        and p.raw.dtype == first.raw.dtype]
        dt = first.m.dtype
        W = np.random.default_rng([op["wseed"], 9]).normal(size=tuple(first.raw.shape)).astype(np.float32).astype(float)
        Wt = torch.tensor(W, dtype=dt)
        leaves = [x for p in ps for x in p.leaves]
        what = "gradient of %d results at once (op %s, caller %d, %s): %s" % (
            len(ps), op["id"], tid, op["how"], "; ".join(p.what for p in ps))
        if op["how"] == "plain":
            W[:] = 1
            Wt = torch.ones((), dtype=dt).expand(tuple(W.shape))
        elif op["how"] == "outputs_nc":
            Wt = torch.tensor(np.ascontiguousarray(np.swapaxes(W, -1, -2)), dtype=dt).transpose(-1, -2)
        if op["how"].startswith("outputs"):
            fn = lambda: torch.autograd.grad([p.raw for p in ps], leaves, [Wt] * len(ps), retain_graph=True)  # noqa: E731
        else:
            def fn():
                tot = ps[0].raw
                for p in ps[1:]:
                    tot = tot + p.raw
                return torch.autograd.grad(tot.sum() if op["how"] == "plain" else (tot * Wt).sum(), leaves,
                                           retain_graph=True)
        for p in ps:
            p.running += 1
        try:
            out = call(sim, fn, fault=op.get("fault"))
        finally:
            for p in ps:
                p.running -= 1
        self.note(tid, op["id"], out.kind() if out.exc is None or out.fired else "err")
        if out.fired:
            self.after_fault(out, what)
            return
        if out.exc is not None and any(p.edited or p.freed for p in ps):
            self.probe("gradient-refused-after-edit-or-release")
            return
        gs = list(need(out, what))
        if not np.array_equal(Wt.to(torch.float64).numpy(), W):
            raise Violation("weights-altered", "%s: the weights given by the caller were overwritten" % what)
        self.hold(what, list(gs))
        if any(p.edited for p in ps):
            return
        for p in ps:
            ref = p.m.ref
            G = np.zeros_like(p.G)
            if W.ndim == 4:
                for nm in ref.names:
                    G[ref.index[nm]] = W[p.m.obj.frame_to_idx[nm]]
            else:
                G[ref.index[p.names[0]]] = W
            D = ref.dfk(p.q)
            if p.tool is not None:
                D = D @ p.tool
            want = p.pull(np.einsum("fbnij,fbij->bn", D, G))
            s = float(np.abs(G).sum(axis=(0, 2, 3)).max())
            tol = 4 * p.m.tol() * (1 + s) * (p.B if len(p.leaves[0]) != p.B and len(p.leaves) == 1 else 1)
            for k, b in enumerate(want):
                close(gs.pop(0), b, tol, what + " input %d" % k)
        self.probe("several-results-differentiated" if len(ps) > 1 else "weighted-by-caller")

    def push(self, p, pw):
        """The joint-space direction that the leaf-space weights stand for (adjoint of pull)."""
        op_leaf = p.leaves
        if len(op_leaf) > 1 or (len(op_leaf) == 1 and p.what.find("dict input") >= 0):
            return np.stack([np.asarray(x) for x in pw], 1)
        x = np.asarray(pw[0])
        if "nonleaf input" in p.what:
            return x * 1.5
        if "expand input" in p.what:
            return np.repeat(x, p.B, 0)
        if "view input" in p.what:
            return x[::2, 1:-1]
        if "one input" in p.what:
            return x[None]
        return x

    def op_edit(self, tid, op, sim):
        p = self.pend.get(op["key"])
        if p is None:
            return
        if p.running:
            self.probe("edit-skipped-gradient-running")
            return
        p.edited = True
        ts = p.leaves if op["what"] == "input" else ([p.raw] if p.raw is not None else list(p.res.values()))
        done = 0
        for t in ts:
            try:
                with torch.no_grad():
                    if op["how"] == "add":
                        t.add_(0.37)
                    elif op["how"] == "zero":
                        t.zero_()
                    else:
                        t.copy_(torch.full_like(t, 0.11))
                done += 1
            except RuntimeError:
                self.probe("edit-refused-by-torch")
        self.note(tid, op["id"], done)
        self.probe("in-place-edit-" + op["what"])

    def finish(self, sim):
        for p in self.pend.values():
            if p.accum_tainted or not p.accum_ok:
                continue
            want = p.pull(self.ref_grad_q(p, p.q))
            for k, (a, b) in enumerate(zip(p.leaves, want)):
                close(a.grad, b * p.accum_ok, self.scale(p) * p.accum_ok,
                      "gradient accumulated by %d backward passes of %s, input %d" % (p.accum_ok, p.what, k))
            self.probe("accumulated-gradient-checked")
        super().finish(sim)
