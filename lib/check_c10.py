import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C10")
    vlib.build("joint_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("joint_driver")
    first = lambda e: e["e"] == "new"
    f = scenarios(c, "JointMC", "JointMC", 60000 if thorough else 5000)
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "JointTrace", first, size=700)
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, 6000 if thorough else 1200], "JointTrace", first, size=700)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
