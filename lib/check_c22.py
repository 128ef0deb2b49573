import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C22")
    vlib.build("timed_driver")
    thorough = vlib.TIER == "thorough"
    exe, nd = vlib.exe("timed_driver"), vlib.exe("timed_nd_driver")
    first = lambda e: True
    f = scenarios(c, "TimedTermsMC", "TimedTermsMC" if thorough else "TimedTermsMCq", 40000 if thorough else 2000)
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "TimedTermsTrace", first, size=1500)
    n = 40000 if thorough else 4000
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, n], "TimedTermsTrace", first, size=1500)
    vlib.conform(c, "random, without assertions", [nd, "random", int(vlib.SEED) + 1, n // 2], "TimedTermsTrace", first, size=1500)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
