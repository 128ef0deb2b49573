import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C16")
    vlib.build("pipe_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("pipe_driver")
    first = lambda e: e["e"] == "new"
    c.model(vlib.model_check("PipeMC", "PipeMC", timeout=300), "PipeMC")
    f = scenarios(c, "PipeMC", "PipeGen", 60000 if thorough else 6000)
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "PipeTrace", first)
    vlib.conform(c, "faults", [exe, "faults", vlib.SEED, 3600 if thorough else 720], "PipeTrace", first)
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, 40000 if thorough else 3000], "PipeTrace", first)
    vlib.conform(c, "real", [exe, "real", vlib.SEED, 200 if thorough else 20], "PipeTrace", first)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
