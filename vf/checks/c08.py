"""C08: compaction never changes what a view contains."""
import os
from .. import common, build, histgen as h, store, tlc
from ..storecheck import forms, conc, run as check, DISK_CHUNK, DISK_ON
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    n = 160 if T else 24
    known(c)
    plan = forms(n, reopen=0.12, look=0.3, erase=0.12, hold=0.05)
    # chunked archives of long text, and archives merged with one another in the background
    plan += [("archive-long", max(3, n // 3), DISK_CHUNK, dict(steps=25, writers=2, readers=1, merge="off", reopen=0.12,
                                                         hazel=0.8, long=0.2, nf=10)),
             ("archive-merge", 2 * n, DISK_ON, dict(steps=50, writers=1, readers=2, merge="on", reopen=0.2, hazel=0.9,
                                                  abort=0.0, look=0.3)),
             ("archive-long-on", max(3, n // 3), DISK_ON, dict(steps=30, writers=1, readers=1, merge="on", reopen=0.2, hazel=0.9,
                                                        long=0.3, abort=0.0, nf=10))]
    plan += conc(max(2, n // 2), per=4)
    check(c, plan, "compaction", thorough_cfg="ShardsN.cfg")


def known(c):
    """Known finding: whether an erased annotation still hides one around it depends on when shards were merged."""
    exe = build.build(["cdrv"])["cdrv"]
    got = {}
    for merged in (False, True):
        r = common.rng("c08known")
        s = store.Session(exe, r, {"mk": {"merge": False, "tokenizer": "ascii"}, "disk": False})
        try:
            s.begin("w0")
            s.append("w0", store.rand_piece(r, n=6))
            t = s.curs["w0"]
            s.annotate("w0", [("f", (t, 2), (t, 3), 1)])
            s.ready("w0")
            s.commit("w0")
            for what in ("outer", "gap", "erase"):
                s.begin("w0")
                if what == "outer":
                    s.annotate("w0", [("f", (t, 1), (t, 4), 2)])
                elif what == "gap" and merged:
                    s.annotate("w0", [("g", (t, 0), (t, 0), 2)])
                elif what == "erase":
                    if merged:  # three shards are merged now
                        s.merge(True)
                        s.ready("w0")
                        s.commit("w0", locate=False)
                        s.settle()
                        s.begin("w0")
                    s.erase("w0", (t, 2), (t, 3))
                s.ready("w0")
                s.commit("w0", locate=False)
                s.settle()
            s.start("w0")
            got[merged] = s.call({"c": "obs", "w": "w0", "fs": ["f"]}).get("lists")
        finally:
            s.close()
    for k in c.known():
        if got[False] != got[True]:
            print("KNOWN-FINDING: property=C08 %s" % k["what"])
    c.cov["known_case"] = {"without_merging": got[False], "with_merging": got[True]}
