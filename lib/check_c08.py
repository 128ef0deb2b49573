import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C08")
    vlib.build("layout_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("layout_driver")
    first = lambda e: e["e"] == "new"
    f = scenarios(c, "LayoutMC", "LayoutMC", 60000 if thorough else 5000)
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "LayoutTrace", first)
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, 6000 if thorough else 2500], "LayoutTrace", first)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
