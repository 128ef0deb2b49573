"""C01-C04: the SQP solver against scripted collaborators, judged by the monitors of specs/SQPMon.tla."""
import json
import random
import vlib
from vlib import Check


def first(e):
    return e["e"] == "new"


def run(prop, configs):
    c = Check(prop)
    vlib.build("sqp_driver")
    thorough = vlib.TIER == "thorough"
    scns = []
    for cfg in (["SQPMC1", "SQPMC2"] if thorough else configs):
        scn, r = vlib.generate("SQPMCSmall", cfg, workers=8, timeout=700, heap="8g")
        c.model(r, cfg + " (design and monitors, all invariants and action properties)")
        scns += scn
    rnd = random.Random(vlib.SEED)
    rnd.shuffle(scns)
    limit = 20000 if thorough else 2500
    f = c.path("scn")
    with open(f, "w") as h:
        for s in scns[:limit]:
            h.write(json.dumps(s) + "\n")
    c.cov["scenarios_generated"] = len(scns)
    c.cov["scenarios_replayed"] = min(limit, len(scns))
    env = {"FOCUS": prop}
    ev = vlib.conform(c, "replay", [vlib.exe("sqp_driver"), "replay", f, vlib.SEED], "SQPTrace", first, extra_env=env)
    ev2 = vlib.conform(c, "random", [vlib.exe("sqp_driver"), "random", vlib.SEED, 20000 if thorough else 1500], "SQPTrace", first,
                       extra_env=env)
    # the same solver driven by the real QP problems of trajopt_sqp instead of the scripted one
    ev3 = vlib.conform(c, "real", [vlib.exe("sqp_driver"), "real", vlib.SEED, 8000 if thorough else 500], "SQPTrace", first,
                       extra_env=env)
    st = {}
    for e in ev + ev2 + ev3:
        if e["e"] == "ret":
            st[e["status"]] = st.get(e["status"], 0) + 1
    c.cov["runs_by_final_status"] = st
    for e in (ev[:4], ev2[40:44], ev3[40:44]):
        c.sample(e)
    return c.finish()
