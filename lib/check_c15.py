import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C15")
    vlib.build("expr_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("expr_driver")
    first = lambda e: True
    f = scenarios(c, "MatFormMC", "MatFormMC", 30000 if thorough else 4000)
    if thorough:
        c.model(vlib.model_check("MatFormMC", "MatFormMC2", timeout=800), "MatFormMC2")
    vlib.conform(c, "replay", [exe, "mreplay", f, vlib.SEED], "MatFormTrace", first)
    ev = vlib.conform(c, "random", [exe, "mrandom", vlib.SEED, 20000 if thorough else 2500], "MatFormTrace", first)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
