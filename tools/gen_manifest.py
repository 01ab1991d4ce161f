"""Writes MANIFEST.json from properties.jsonl and the worlds that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = {
    "C15": "Pure stateless functions of one tensor: no schedule, clock, I/O, history, randomness or fault can change "
           "their answer, so there is nothing for a simulator to control; deciding it needs input search or proof, "
           "which is another technique.",
    "C16": "Pure stateless function of three tensors: nothing nondeterministic or multi-party for a simulator to "
           "control (its only stateful aspect, not editing its arguments, is decided under C08).",
    "C17": "Pure stateless functions of one tensor: nothing nondeterministic or multi-party for a simulator to "
           "control (the random sampling built on them is decided under C12).",
}
NOTE = ("Seeded search: no violation in the explored runs (counts in the evidence file), not a proof. Real library "
        "code, torch and threads; the scheduler, library-created locks and the injected failures are simulated. "
        "Trusts the independent numpy reference models in sim/robots.py and the tolerances stated in DESIGN.md.")


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "sim", "worlds", i.lower() + ".py")):
            checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i,
                               thorough_cmd="./check %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
                               technique="deterministic simulation with fault injection (seeded schedule and fault search)",
                               level="exploration", level_note=NOTE))
        else:
            na.append(dict(property=i, reason=PURE.get(i, "world not built yet")))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the seams used are Python's trace function, torch's dispatch and function modes, "
                   "and the lock constructors as seen by library modules; all live in /verif. One simulated run = one "
                   "forked process = one seed. Replay: ./check <id> --replay <file>.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
