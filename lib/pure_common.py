"""Checks that consist of a model, generated scenarios and random runs of one driver."""
import json
import random
import vlib
from vlib import Check


def scenarios(c, spec, cfg, limit, workers=8, heap="8g", env=None):
    scn, r = vlib.generate(spec, cfg, workers=workers, heap=heap, timeout=800, env=env)
    c.model(r, cfg)
    total = len(scn)
    random.Random(vlib.SEED).shuffle(scn)
    scn = scn[:limit]
    f = c.path("scn." + cfg)
    with open(f, "w") as h:
        for s in scn:
            h.write(json.dumps(s) + "\n")
    c.cov["scenarios_generated"] = c.cov.get("scenarios_generated", 0) + total
    c.cov["scenarios_replayed"] = c.cov.get("scenarios_replayed", 0) + len(scn)
    return f
