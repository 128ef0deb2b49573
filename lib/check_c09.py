import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C09")
    vlib.build("bounds_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("bounds_driver")
    first = lambda e: e["e"] == "new"
    f = scenarios(c, "BoundsMC", "BoundsMC", 30000 if thorough else 4000)
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "BoundsTrace", first)
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, 20000 if thorough else 2500], "BoundsTrace", first)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
