"""C23: annotated ranking statistics equal the statistics of the collection."""
from .. import annotated, build, common, tlc
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    for cfg in ("MCAnnotatedWhole.cfg", "MCAnnotatedRanges.cfg"):
        m = tlc.run("MCAnnotated", cfg, workers=4, timeout=300, heap="4g")
        c.add("states", m.distinct)
        if not m.ok:
            raise tlc.TlcError("the specification of annotated statistics is wrong:\n" + m.msg)
    exe = build.build(["cdrv"])["cdrv"]
    annotated.histories(c, exe, 420 if T else 84, 14 if T else 10, "history")
    c.cov["exhaustive"] = False
    c.cov["rule"] = ("MCAnnotated.tla exhaustive (growing collections annotated at any time, as a whole or range by range); then random "
                     "collections annotated by the real code, every statistic reported decided by TLC against AnnotatedTrace.tla")
