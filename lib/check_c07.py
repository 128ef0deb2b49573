"""C07: IfoptQPProblem driven through call sequences, judged by specs/SimpleQP.tla."""
import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C07")
    vlib.build("qp_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("qp_driver")
    first = lambda e: e["e"] == "new"
    lax, strict = {"STRICT": "0"}, {"STRICT": "1"}
    f = scenarios(c, "SimpleQPMC", "SimpleQPMC", 7000 if thorough else 500)
    vlib.conform(c, "replay", [exe, "simple-replay", f, vlib.SEED], "SimpleQPTrace", first, extra_env=lax, size=1200)
    ev = vlib.conform(c, "random", [exe, "simple-random", vlib.SEED, 8000 if thorough else 700], "SimpleQPTrace", first,
                      extra_env=lax, size=1200)
    for e in ev[:5]:
        c.sample(e)
    vlib.known(c, "absolute", "absolute", [exe, "simple-one"], "SimpleQPTrace", first, strict, lax)
    return c.finish()
