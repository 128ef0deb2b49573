import json
import random
import vlib
from vlib import Check


def run():
    c = Check("C17")
    vlib.build("cache_driver")
    thorough = vlib.TIER == "thorough"
    c.model(vlib.model_check("CacheMC"), "CacheMC")
    scn, r = vlib.generate("CacheMC", "CacheGen", workers=4)
    c.model(r, "CacheGen (one scenario per transition)")
    rnd = random.Random(vlib.SEED)
    total = len(scn)
    limit = 40000 if thorough else 5000
    if len(scn) > limit:
        scn = rnd.sample(scn, limit)
    c.cov["scenarios_generated"] = total
    c.cov["scenarios_replayed"] = len(scn)
    f = c.path("scn")
    with open(f, "w") as h:
        for s in scn:
            h.write(json.dumps(s) + "\n")
    first = lambda e: e["e"] == "new"
    ev = vlib.conform(c, "replay", [vlib.exe("cache_driver"), "replay", f], "CacheTrace", first)
    ev2 = vlib.conform(c, "random", [vlib.exe("cache_driver"), "random", vlib.SEED, 2000 if thorough else 250, 120], "CacheTrace", first)
    for e in (ev[:8], ev2[200:206]):
        c.sample(e)
    return c.finish()
