import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C24")
    vlib.build("back_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("back_driver")
    first = lambda e: e["e"] == "new"
    for cfg, quick, deep in (("BackMC", 5000, 60000), ("BackMC3", 2000, 12600)):
        f = scenarios(c, "BackMC", cfg, deep if thorough else quick)
        vlib.conform(c, "replay." + cfg, [exe, "replay", f, vlib.SEED], "BackTrace", first)
    f = scenarios(c, "SolverModelMC", "SolverModelMC", 30000 if thorough else 3000)
    vlib.conform(c, "replay.lists", [exe, "replay", f, vlib.SEED], "BackTrace", first)
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, 20000 if thorough else 2500], "BackTrace", first)
    vlib.conform(c, "threads", [exe, "threads", vlib.SEED, 4000 if thorough else 600], "BackTrace", first)
    vlib.conform(c, "pick", [exe, "pick", 0, 0], "BackTrace", first)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
