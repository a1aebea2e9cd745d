"""C21: ranked retrieval orders exactly the matching containers by score."""
from .. import build, common, ranking, tlc
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    for m, cfg in (("MCRanking", "MCRankingN.cfg" if T else "MCRanking.cfg"), ("MCTiers", "MCTiersN.cfg" if T else "MCTiers.cfg")):
        x = tlc.run(m, cfg, workers=8, timeout=850)
        c.add("states", x.distinct)
        if not x.ok:
            raise tlc.TlcError("the specification of ranking is wrong:\n" + x.msg)
    exe = build.build(["cdrv"])["cdrv"]
    n = 10 if T else 1
    evs = [e for l in common.par_map(lambda i: ranking.texts(c, exe, i, n), range(150 * n)) for e in l]
    evs += [e for l in common.par_map(lambda i: ranking.spread(c, exe, i), range(60 * n)) for e in l]
    ranking.validate(c, evs)
    c.cov["exhaustive"] = False
    c.cov["rule"] = ("MCRanking.tla and MCTiers.tla exhaustive over every set of containers and list of solutions on a few positions; then "
                     "random collections of every storage form ranked by the real code at random depths and thread counts, each ranking "
                     "decided by TLC against RankingTrace.tla")
