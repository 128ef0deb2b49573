import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C21")
    vlib.build("traj_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("traj_driver")
    first = lambda e: e["e"] in ("new", "array", "names")
    f = scenarios(c, "LegacyJointMC", "LegacyJointMC" if thorough else "LegacyJointMCq", 30000 if thorough else 2500)
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "LegacyJointTrace", first, size=900)
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, 20000 if thorough else 2500], "LegacyJointTrace", first, size=900)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
