import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C11")
    vlib.build("legacy_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("legacy_driver")
    first = lambda e: e["e"] == "new"
    f = scenarios(c, "LegacyMC", "LegacyMC", 40000 if thorough else 4000)
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "LegacyTrace", first)
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, 20000 if thorough else 2000], "LegacyTrace", first)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
