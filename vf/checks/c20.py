"""C20: concurrent readers get the same answers as a lone reader."""
from .. import common, tlc, readers
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    for cfg in ["MCCacheN.cfg", "MCCacheS.cfg"] if T else ["MCCache.cfg", "MCCacheT.cfg"]:
        m = tlc.run("MCCache", cfg, workers=8, timeout=850, heap="12g")
        c.add("states", m.distinct)
        if not m.ok:
            raise tlc.TlcError("the model of the caches is wrong:\n" + m.msg)
    n = 6 if T else 1
    readers.run(c, [("mem", 5 * n, 4, 8), ("disk", 5 * n, 4, 8), ("archive", 20 * n, 5, 12), ("lone", 5 * n, 5, 8),
                    ("static", 10 * n, 5, 6)] +
                [(k, 3 * n, "burst", 10) for k in ("mem", "disk", "archive", "lone", "static")], 2000 if T else 200)
    c.cov["exhaustive"] = False
    c.cov["rule"] = ("Cache.tla exhaustive within its constants (safety, and that every read ends); then real threads on cold "
                     "caches, both let loose and steered along behaviours of Cache.tla, their answers decided by TLC "
                     "against what Store.tla and Static.tla say a lone reader gets")
