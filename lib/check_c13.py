import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C13")
    vlib.build("model_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("model_driver")
    first = lambda e: e["e"] == "new"
    f = scenarios(c, "ConvexMC", "ConvexMC", 30000 if thorough else 3000)
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "ConvexTrace", first)
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, 20000 if thorough else 2000], "ConvexTrace", first)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
