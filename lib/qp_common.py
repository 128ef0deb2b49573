"""C05, C06: TrajOptQPProblem driven through call sequences, judged by specs/QP.tla."""
import json
import random
import vlib
from vlib import Check


def first(e):
    return e["e"] == "new"


def run(prop):
    c = Check(prop)
    vlib.build("qp_driver")
    thorough = vlib.TIER == "thorough"
    c.model(vlib.model_check("QPModelMC", workers=8), "construction of the QP means the model (family of problems)")
    scns, r = vlib.generate("QPMC", "QPMC", workers=8)
    c.model(r, "call histories")
    rnd = random.Random(vlib.SEED)
    rnd.shuffle(scns)
    limit = 8000 if thorough else 500
    f = c.path("scn")
    with open(f, "w") as h:
        for s in scns[:limit]:
            h.write(json.dumps(s) + "\n")
    c.cov["scenarios_generated"] = len(scns)
    c.cov["scenarios_replayed"] = min(limit, len(scns))
    env = {"FOCUS": prop}
    exe = vlib.exe("qp_driver")
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "QPTrace", first, extra_env=env, size=1200)
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, 6000 if thorough else 500], "QPTrace", first, extra_env=env, size=1200)
    for e in ev[:3]:
        c.sample(e)
    if prop == "C06":  # IfoptQPProblem's values, too (its QP is C07's)
        ev = vlib.conform(c, "simple", [exe, "simple-random", vlib.SEED, 4000 if thorough else 300], "SimpleQPTrace", first,
                          extra_env={"STRICT": "0", "FOCUS": "C06"}, size=1200)
        c.sample(ev[3])
    return c.finish()
