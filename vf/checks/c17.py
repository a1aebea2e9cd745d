"""C17: foraged term statistics equal the statistics of the collection."""
from .. import build, common, forage, tlc
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    m = tlc.run("MCForage", "MCForageN.cfg" if T else "MCForage.cfg", workers=8, timeout=850, heap="12g")
    c.add("states", m.distinct)
    if not m.ok:
        raise tlc.TlcError("the specification of foraging is wrong:\n" + m.msg)
    exe = build.build(["cdrv"])["cdrv"]
    n = 60 if T else 8
    forage.histories(c, exe, [
        (n, dict(merge=False, steps=16)),
        (n, dict(merge=None, steps=16)),
        (n, dict(merge=True, steps=16)),
        (n, dict(merge=True, steps=10, perturb=True)),
    ], "history")
    forage.done(c, common.par_map(lambda k: forage.many(c, exe, 66000 + 1000 * k, k), range(8 if T else 2), 2), "many items")
    c.cov["exhaustive"] = False
    c.cov["rule"] = ("MCForage.tla exhaustive (every division of the items over foragers and transactions); then random collections "
                     "foraged by the real code, every statistic reported decided by TLC against ForageTrace.tla")
