"""C02: Jacobians on a shared serial model are right for every caller."""
from ..fleet import (FleetWorld, REAL, STUB, gen_bad_op, gen_fk_op, gen_jac_op, gen_models, gen_phases, gen_soak_op)

ID = "C02"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("Program: 1-3 random serial models (sub-chains of random trees, both precisions, revolute and prismatic) shared "
        "by 1-4 callers issuing Jacobian queries with no, shared, per-configuration and full-transform tools, mixed "
        "with pose queries, rejected requests and cancelled queries; every Jacobian and tool pose is compared with the "
        "numpy reference and re-read at the end.")
ASSUME = ["callers do not convert a model's precision while other callers are inside a query on it",
          "tolerances: 9e-6 of reach (float32), 2e-6 (float64), 1e-10 on exactly representable robots in float64; tools "
          "handed over in single precision to double models 1e-6"]


def gen(rng, tier):
    nt = rng.choice([1, 2, 2, 3, 3, 4])
    models = gen_models(rng, rng.choice([1, 1, 2, 3]), serial_only=True, min_dof=rng.choice([1, 1, 2, 3]))
    serial = list(range(len(models)))
    p_bad = rng.choice([0, 0.08, 0.2])
    p_fault = rng.choice([0, 0, 0.2])

    def make(r, ph, t):
        k = r.random()
        if k < p_bad:
            return gen_bad_op(r, models)
        if k < p_bad + 0.04:
            return dict(op="names", m=r.randrange(len(models)))
        if r.random() < 0.008:
            return gen_soak_op(r, models, jac=r.random() < 0.8, serial=serial)
        op = gen_fk_op(r, models) if k < p_bad + 0.2 else gen_jac_op(r, models, serial)
        if r.random() < p_fault:
            op["fault"] = dict(kind=r.choice(["cancel", "interrupt", "oom"]), at=r.randint(1, 90))
        return op

    return dict(nthreads=nt, models=models, opcodes=rng.random() < 0.12,
                phases=gen_phases(rng, nt, rng.choice([1, 1, 2]), (1, 6) if nt > 1 else (3, 14), make))


class W(FleetWorld):
    pass
