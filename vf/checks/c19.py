"""C19: merging archives is restartable and gives the union exactly."""
from .. import common, tlc, archives
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    m = tlc.run("HazelMerge", "HazelMerge.cfg", workers=8, timeout=850, heap="12g")
    c.add("states", m.distinct)
    if not m.ok:
        raise tlc.TlcError("the merge model is wrong:\n" + m.msg)
    archives.run(c, 200 if T else 24, 60 if T else 12)
    c.cov["exhaustive"] = False
    c.cov["rule"] = ("HazelMerge.tla exhaustive (every set of up to 5 features, 3 crashes); then merges of real archives, the "
                     "process dying at sampled file operations, restarted, and everything decided by TLC against StoreTrace.tla")
