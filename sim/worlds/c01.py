"""C01: forward kinematics on a shared model is right for every caller."""
from ..fleet import (FleetWorld, REAL, STUB, gen_bad_op, gen_fk_op, gen_jac_op, gen_models, gen_phases, gen_soak_op)

ID = "C01"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("Program: 1-3 random robot models (URDF/SDF/MJCF or assembled by hand; chains and serial sub-chains, both precisions) shared by 1-4 "
        "callers issuing pose queries in all input forms, interleaved with rejected requests, structure queries, "
        "control loops of many queries in a row, Jacobians and cancelled queries; every pose is compared with the numpy reference and re-read at the end.")
ASSUME = ["callers do not convert a model's precision while other callers are inside a query on it",
          "single-precision descriptions: tolerance 6e-6 of reach (float32), 2e-6 (float64), 1e-10 on robots with "
          "exactly representable geometry in float64"]


def gen(rng, tier):
    nt = rng.choice([1, 2, 2, 3, 3, 4])
    models = gen_models(rng, rng.choice([1, 1, 2, 3]))
    serial = [i for i, m in enumerate(models) if m["kind"] == "serial"]
    p_bad = rng.choice([0, 0.1, 0.3])
    p_fault = rng.choice([0, 0, 0.2])

    def make(r, ph, t):
        k = r.random()
        if k < p_bad:
            return gen_bad_op(r, models)
        if k < p_bad + 0.08:
            return dict(op="names", m=r.randrange(len(models)))
        if k < p_bad + 0.14 and serial:
            return gen_jac_op(r, models, serial)
        if r.random() < 0.008:
            return gen_soak_op(r, models)
        op = gen_fk_op(r, models)
        if r.random() < p_fault:
            op["fault"] = dict(kind=r.choice(["cancel", "interrupt", "oom"]), at=r.randint(1, 140))
        return op

    return dict(nthreads=nt, models=models, opcodes=rng.random() < 0.12,
                phases=gen_phases(rng, nt, rng.choice([1, 1, 2]), (1, 6) if nt > 1 else (3, 12), make))


class W(FleetWorld):
    pass
