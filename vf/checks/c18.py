"""C18: parameters persist and configuration text round-trips."""
from .. import build, common, params, tlc
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    for m, cfg in (("MCRecipe", "MCRecipe.cfg"), ("MCRecipe", "MCRecipeR.cfg"), ("MCRecipe", "MCRecipeO.cfg"),
                   ("MCParams", "MCParamsN.cfg" if T else "MCParams.cfg")):
        x = tlc.run(m, cfg, workers=8, timeout=850)
        c.add("states", x.distinct)
        if not x.ok:
            raise tlc.TlcError("the specification of parameters is wrong:\n" + x.msg)
    exe, pre = build.build(["cdrv"])["cdrv"], build.build_preload()
    n = 10 if T else 1
    evs = [e for l in common.par_map(lambda i: params.texts(c, exe, i, 80), range(40 * n)) for e in l]
    sess = [s for l in common.par_map(lambda i: params.sessions(c, exe, i, 40), range(64 * n)) for s in l]
    sess += [s for l in common.par_map(lambda i: params.crashes(c, exe, pre, i, 6), range(16 * n)) for s in l]
    params.validate(c, evs, sess)
    for l, log, _ in sess[:2]:
        c.sample({"events": len(l), "sets": [e["key"] for e in l if e["k"] == "set"][:5]})
    c.cov["exhaustive"] = False
    c.cov["rule"] = ("MCRecipe.tla and MCParams.tla exhaustive over short texts over telling characters and short histories; then random "
                     "configuration texts, options and parameter histories (clones, later openings, archives, threads, crashes at any file "
                     "operation) of the real code, each answer decided by TLC against ParamsTrace.tla")
