"""C18 and C20: the same driver, model and trace specification; C18 asks the evaluators, C20 the constraints."""
import vlib
from vlib import Check
from pure_common import scenarios


def run(cid, kind, replays, randoms):
    c = Check(cid)
    vlib.build("coll_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("coll_driver")
    first = lambda e: e["e"] == "new"
    if cid == "C18":
        r = vlib.model_check("CollisionPureMC", "CollisionPureMC", workers=8, timeout=800)
        c.model(r, "CollisionPureMC")
    f = scenarios(c, "CollisionMC", "CollisionMC", replays[1] if thorough else replays[0])
    env = {"VD_KIND": kind}
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "CollisionTrace", first, size=700, env=env)
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, randoms[1] if thorough else randoms[0]], "CollisionTrace", first, size=700, env=env)
    for e in ev[:4]:
        c.sample({k: e[k] for k in e if k != "w"})
    return c.finish()
