import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C12")
    vlib.build("bpmpd_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("bpmpd_driver")
    first = lambda e: e["e"] == "new"
    f = scenarios(c, "SolverModelMC", "SolverModelMC", 30000 if thorough else 4000)
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "SolverModelTrace", first)
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, 10000 if thorough else 1500], "SolverModelTrace", first)
    vlib.conform(c, "threads", [exe, "threads", vlib.SEED, 2000 if thorough else 300], "SolverModelTrace", first)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
