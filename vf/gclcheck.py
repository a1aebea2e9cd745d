"""Runs operator trees on the real cursors and validates every answer with TLC (spec/GCLTrace.tla)."""
import json
from . import build, common, tlc


def conform(c, cases, leaf=("array", "posting"), procs=8, timeout=400):
    """cases: list of (lists {name: [[p,q,v]]}, [(ast, calls)]).  Returns the number of answers validated."""
    exe = build.build(["cdrv"])["cdrv"]
    shards = [cases[i::procs] for i in range(procs)]

    def go(iw):
        i, sh = iw
        cmds = [{"c": "direct", "lists": l, "leaf": leaf[n % len(leaf)],
                 "qs": [{"ast": a, "calls": cs} for a, cs in qs]} for n, (l, qs) in enumerate(sh)]
        if not cmds:
            return []
        out = common.drive(c, exe, cmds, timeout, "operator tree")
        if out is None:
            return []
        return [{"lists": l, "qs": [{"ast": a, "calls": cs, "rs": rs} for (a, cs), rs in zip(qs, o["rs"])]}
                for (l, qs), o in zip(sh, out)]
    evs = [e for g in common.par_map(go, list(enumerate(shards)), procs) for e in g]
    validate(c, evs)
    return evs


def validate(c, evs, what="a cursor answered differently from its list"):
    if not evs:
        return
    ok, bad, states = tlc.check_trace("GCLTrace", evs, shards=8, timeout=800)
    c.add("states", states)
    c.add("traces_validated_against_impl", len(evs))
    n = sum(len(q["calls"]) for e in evs for q in e["qs"])
    c.add("transitions", n)
    for rej, g, out in bad:
        ev = g[rej - 1]
        mm = [l for l in out.split("\n") if "MISMATCH" in l]
        c.violation("%s: %s" % (what, mm[0] if mm else ""), {"event": ev, "lists": ev["lists"]})
