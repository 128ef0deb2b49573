import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C14")
    vlib.build("expr_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("expr_driver")
    first = lambda e: e["e"] == "new"
    f = scenarios(c, "ExprMC", "ExprMC", 30000 if thorough else 4000)
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "ExprTrace", first)
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, 20000 if thorough else 2500], "ExprTrace", first)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
