"""C16: appending files to a meadow is complete, exact and never repeated."""
from .. import build, common, meadow, tlc
LEVEL = "model_checking"


def known(c, exe):
    """What is listed as known: names a path cannot be told by."""
    d = c.scratch + "/known"
    r = common.rng(c.pid, "known")
    for k in c.known():
        f = meadow.Files(r, d + ".files")
        m = meadow.Meadow(exe, r, d, f, merge=False)
        for name in k["names"]:
            open(f.where(name.encode()), "w").write('{"a":1}\n')
        m.d.call({"c": "meadow", "op": "jsonl", "w": "w0", "file": k["names"][0], "threads": 1})
        o = m.d.call({"c": "meadow", "op": "appended", "w": "w0", "file": k["names"][-1]})
        if bool(o.get("appended")) == k["said"]:
            print("KNOWN-FINDING: property=C16 " + k["what"])
        m.d.close()
        common.rm(d)
        common.rm(d + ".files")


def run(c):
    T = common.THOROUGH
    m = tlc.run("MCIngest", "MCIngestN.cfg" if T else "MCIngest.cfg", workers=8, timeout=850, heap="12g")
    c.add("states", m.distinct)
    if not m.ok:
        raise tlc.TlcError("the specification of ingesting is wrong:\n" + m.msg)
    exe = build.build(["cdrv"])["cdrv"]
    known(c, exe)
    n = 60 if T else 8
    meadow.histories(c, exe, [
        (n, dict(merge=False, steps=14, hazel=0.5)),
        (n, dict(merge=None, steps=14)),
        (n, dict(merge=True, steps=14, conc=0.2)),
        (n, dict(merge=False, steps=10, conc=0.3, perturb=True)),
    ], "history")
    meadow.done(c, common.par_map(lambda k: meadow.long_tsv(c, exe, 70001 + 1000 * k, k), range(8 if T else 2), 2), "long file")
    meadow.crashes(c, exe, 40 if T else 6, 60 if T else 16, "crash")
    c.cov["exhaustive"] = False
    c.cov["rule"] = ("MCIngest.tla exhaustive (every interleaving of the workers over every short file); then random files appended by "
                     "the real code, every answer and everything stored decided by TLC against IngestTrace.tla")
