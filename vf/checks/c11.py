"""C11: text comes back byte for byte."""
from .. import common, build, tokens, static, storecheck as sc
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    n = 40 if T else 8
    plan = []
    for kind in tokens.KINDS:
        for name, k, mk, o in sc.forms(n, writers=2, steps=40, erase=0.05, look=0.6, nf=4):
            plan.append(("%s-%s" % (kind, name), k, sc.textual(kind, mk), o))
        for name, k, mk, o in sc.forms(max(1, n // 4), writers=2, steps=14, erase=0.05, look=0.5, nf=3, long=0.3):
            plan.append(("%s-long-%s" % (kind, name), k, sc.textual(kind, mk), o))
    sc.run(c, plan, "text", check=lambda g, timeout: tokens.check_trace("TextTrace", g, timeout=timeout))
    for kind in tokens.KINDS:
        static.run(c, "static " + kind, 4 * n, 0, 0, text=kind)
    static.run(c, "static", 2 * n, 0, 0)
    known(c)


def known(c):
    """Known finding: with the xml tokenizer, a piece left inside a tag or entity and ended by a blank is cut on its
    own, but skipped over together with what follows."""
    for k in c.known():
        got = xml_case(k["pieces"])
        c.cov.setdefault("known_cases", []).append({"pieces": k["pieces"], "text_of_second_piece": got})
        if got != k["pieces"][1] + "\n":
            print("KNOWN-FINDING: property=C11 %s" % k["what"])


def xml_case(pieces):
    """what the second piece translates to"""
    d = common.Driver(build.build(["cdrv"])["cdrv"])
    try:
        d.call({"c": "mk", "w": "w", "merge": False, "tokenizer": "ascii", "tokenizer_recipe": "xml"})
        d.call({"c": "txn", "w": "w"})
        spans, at = [], 0
        for x in pieces:
            n = d.call({"c": "append", "w": "w", "t": x}).get("n", 0)
            spans.append([at, at + n - 1])
            at += n
        d.call({"c": "ready", "w": "w"})
        d.call({"c": "commit", "w": "w"})
        d.call({"c": "start", "w": "w"})
        return d.call({"c": "obs", "w": "w", "fs": [], "trs": spans}).get("trs", ["", ""])[1]
    finally:
        d.close()
