"""setup_cmd: the harness imports, and the simulator is deterministic on a toy race."""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core  # noqa: E402

core.set_src(os.path.dirname(os.path.abspath(__file__)))
state = {"x": 0}


def racy():
    v = state["x"]
    v = v + 1
    state["x"] = v


def one(seed):
    state["x"] = 0
    sim = core.Sim([[[{"id": 0}], [{"id": 1}]]], 2, lambda tid, op, s: s.call(racy),
                   core.RandomChooser(random.Random(seed), 2))
    sim.run()
    return state["x"], sim.trace_hash.hexdigest(), dict(sim.switches)


lost = 0
for s in range(60):
    a, b = one(s), one(s)
    assert a == b, "simulator is not deterministic"
    lost += a[0] == 1
    sim = core.Sim([[[{"id": 0}], [{"id": 1}]]], 2, lambda tid, op, s: s.call(racy), core.ReplayChooser(a[2]))
    state["x"] = 0
    sim.run()
    assert (state["x"], sim.trace_hash.hexdigest()) == a[:2], "replay differs"
assert lost > 0, "the search never found the lost update"
print("selftest: ok (%d of 60 seeds lost an update; every seed repeated and replayed identically)" % lost)
