"""C03: query text, printing, phrases and the optimizer preserve meaning."""
import json
from .. import tlc, common, build, gclgen as g
LEVEL = "model_checking"
ALIAS = {"#": ["#", "fixed_width"], "+": ["+", "one_of"], "^": ["^", "all_of"], "...": ["...", "<>", "followed_by"],
         "<<": ["<<", "contained_in"], ">>": [">>", "containing"], "!<": ["!<", "not_contained_in"],
         "!>": ["!>", "not_containing"], "@": ["@", "link"], "m": ["materialize"]}


def ws(r, least=1):
    return "".join(r.choice(" \t  ") for _ in range(r.choice([least, least, least, least + 1, least + 3])))


def spell(r, t, top=True):
    if t["op"] == "t":
        return t["f"]
    o = r.choice(ALIAS[t["op"]])
    if t["op"] == "#":
        return "(%s%s%s%d%s)" % (ws(r, 0), o, ws(r), t["n"], ws(r, 0))
    s = "(" + ws(r, 0) + o
    for x in t["x"]:
        y = spell(r, x, False)
        s += (ws(r, 0) if y[0] == "(" and r.random() < 0.5 and not s.endswith(o) else ws(r)) + y
    return s + ws(r, 0) + ")"


def tree(r, leaf, depth, wide=None):
    if depth == 0 or r.random() < 0.12:
        return leaf()
    o = r.choice(["+", "^", "...", "<<", ">>", "!<", "!>", "m", "#in", "#has", "opt", "opt", "multi", "one"])
    sub = lambda: tree(r, leaf, depth - 1, wide)
    if o == "m":
        return {"op": "m", "x": [sub()]}
    if o == "#in":
        return {"op": r.choice(["<<", "!<"]), "x": [sub(), {"op": "#", "n": r.randint(1, 9)}]}
    if o == "#has":
        return {"op": ">>", "x": [{"op": "#", "n": r.randint(1, 6)}, sub()]}
    if o == "opt":  # the shape the optimizer looks for
        k = r.randint(2, 5)
        ats = [leaf() for _ in range(k)]
        if k > 2 and r.random() < 0.3:
            ats = [{"op": "^", "x": ats[:2]}] + ats[2:]
        if k > 2 and r.random() < 0.15:
            ats[r.randrange(len(ats))] = leaf() if r.random() < 0.5 else sub()
        if r.random() < 0.4:  # windows among the operands, with a term to keep them to
            ats = [leaf()] + [{"op": "#", "n": r.choice([1, 2, 2, 3, 4, 6, 9])} for _ in range(r.randint(1, 3))] + ats[1:r.randint(1, 3)]
            r.shuffle(ats)
        if r.random() < 0.15:
            ats.append(ats[0])
        x = leaf() if r.random() < 0.85 else {"op": "#", "n": r.randint(3, 12)}
        if wide and r.random() < 0.6:
            x = wide()
        return {"op": "<<", "x": [{"op": "^", "x": ats}, x] + ([leaf()] if r.random() < 0.1 else [])}
    if o == "one":
        return {"op": r.choice(["+", "^", "..."]), "x": [sub()]}
    if o == "multi":
        return {"op": r.choice(["+", "^", "...", "<<", ">>", "!<", "!>"]), "x": [sub() for _ in range(r.randint(3, 5))]}
    return {"op": o, "x": [sub(), sub()]}


WORDS = ["ape", "bat", "cat", "dog", "eel", "fox", "gnu"]


def mutate(r, s):
    s = list(s)
    for _ in range(r.randint(1, 3)):
        k = r.random()
        i = r.randrange(len(s) + 1)
        ch = r.choice("() \t\"'+^<>!@#.a1)(\n")
        if k < 0.4 and s:
            del s[min(i, len(s) - 1)]
        elif k < 0.8:
            s.insert(i, ch)
        elif s:
            s[min(i, len(s) - 1)] = ch
    if r.random() < 0.15:
        s += list(r.choice([" b", ")", " (+ a b)", "x", "  ", "\n", "(", "\\"]))
    t = "".join(s)
    # left to the implementation: escaped escapes and widths beyond nine digits
    import re
    if "\\\\" in t or re.search(r"\d{9}", t):
        return "(+ a b) c"
    return t


def codes(s):
    return list(s.encode())


def parse_events(c, r, exe, n):
    cmds, ss = [], []
    def leaf():
        k = r.random()
        if k < 0.5:
            return {"op": "t", "f": r.choice(["a", "b", "hello", "x:y", "a\"b", ":path:0:", "123", "...", "#", "é"])}
        q = r.choice("\"\"'`")
        body = r.choice(["one", "one two", "", "a (b) c", "tab\there", "a \\%s b" % q, "x" + ("'" if q == '"' else '"') + "y",
                         "two  three four", "&)("])
        return {"op": "t", "f": q + body + q}
    for _ in range(n):
        t = tree(r, leaf, r.randint(0, 4))
        s = ws(r, 0) + spell(r, t) + ws(r, 0)
        if r.random() < 0.55:
            s = mutate(r, s)
        ss.append(s)
        cmds.append({"c": "parse", "s": codes(s)})
    ch = 8
    outs = common.par_map(lambda i: common.drive(c, exe, cmds[i::ch], 120, "parsing"), range(ch))
    evs = []
    for i in range(ch):
        for s, o in zip(ss[i::ch], outs[i] or []):
            evs.append({"k": "parse", "s": codes(s), "ok": o["ok"], "str": o.get("str", []), "bin": o.get("bin", [])})
    return evs


def hop_events(c, r, exe, n):
    jobs = list(range(n))

    def go(i):
        rr = common.rng("c03", i, r.seed0)
        tok = rr.choice(["ascii", "utf8"])
        vocab = WORDS[:rr.randint(3, 7)]
        text = " ".join(rr.choice(vocab) for _ in range(rr.choice([8, 20, 45])))
        size = len(text.split())
        anns, feats = [], {}
        for f in ["x:", "y:", "z:"]:
            feats[f] = g.rand_gc(rr, size, rr.choice([0, 1, 4, 8]), base=0)
            anns += [[f, p, q, 0] for p, q in feats[f]]
        feats["doc:"] = [(0, size - 1)]
        k = rr.randint(2, size - 2)
        feats["part:"] = [(0, k - 1), (k, size - 1)]
        anns += [[f, p, q, 0] for f in ("doc:", "part:") for p, q in feats[f]]
        cmds = [{"c": "mk", "w": "w", "tokenizer": tok}, {"c": "txn", "w": "w"}, {"c": "append", "w": "w", "t": text},
                {"c": "anns", "w": "w", "l": anns}, {"c": "ready", "w": "w"}, {"c": "commit", "w": "w"},
                {"c": "start", "w": "w"}, {"c": "obs", "w": "w", "fs": vocab + list(feats)}]
        pre = len(cmds)
        phrases = []

        def leaf():
            k = rr.random()
            if k < 0.35:
                f = rr.choice(vocab)
            elif k < 0.6:
                f = rr.choice(list(feats))
            elif k < 0.65:
                f = "zebra"
            else:
                ws_ = [rr.choice(vocab) for _ in range(rr.choice([1, 2, 2, 3, 4]))]
                if rr.random() < 0.5:  # take a run that occurs
                    tw, k0 = text.split(), rr.randrange(size)
                    ws_ = tw[k0:k0 + rr.randint(1, 4)]
                body = rr.choice(["", " ", ",", "  "]) + rr.choice([" ", ", ", "  ", "-"]).join(
                    w.upper() if rr.random() < 0.2 else w for w in ws_) + rr.choice(["", "!", " "])
                f = '"%s"' % body
                phrases.append(f)
            return {"op": "t", "f": f}
        qs = []
        wide = lambda: {"op": "t", "f": rr.choice(["doc:", "doc:", "part:", "x:", "y:"])}
        for _ in range(rr.randint(6, 12)):
            t = tree(rr, leaf, rr.randint(0, 3), wide)
            s = spell(rr, t)
            bad = rr.random() < 0.12
            if bad:
                s = s + rr.choice([" cat", ")", " (+ cat dog)", "("])
            qs.append((len(cmds), codes(s)))
            ks = g.keys_for([feats["x:"]] + [[(0, size)]])
            for opt in (False, True):
                cmds.append({"c": "hop", "w": "w", "gcl": codes(s), "opt": opt, "walk": True,
                             "calls": g.rand_calls(rr, ks, 15)})
        # multi-operand text against its nested form is decided by the denotation
        np = len(cmds)
        ph = sorted(set(phrases))
        for p in ph:
            cmds.append({"c": "tok", "tok": tok, "l": [codes(p[1:-1])]})
        out = common.drive(c, exe, cmds, 120, "queries")
        if out is None:
            return []
        tbl = [[codes(f), l] for f, l in zip(vocab + list(feats), out[pre - 1]["lists"])]
        sp = [[codes(p), out[np + j]["all"][0][1]] for j, p in enumerate(ph)]
        evs = []
        for n0, s in qs:
            a = []
            for d in (0, 1):
                o, cm = out[n0 + d], cmds[n0 + d]
                if o["ok"]:
                    a.append({"calls": cm["calls"], "rs": o["r"], "walk": o["walk"], "how": "optimizer %s" % cm["opt"]})
                    a.append({"calls": [], "rs": [], "walk": o["back"], "how": "backward, optimizer %s" % cm["opt"]})
            oks = {out[n0]["ok"], out[n0 + 1]["ok"]}
            if len(oks) != 1:
                c.violation("the optimizer decides whether a query is accepted", {"q": bytes(s).decode()})
            evs.append({"k": "hop", "s": s, "ok": out[n0]["ok"], "tbl": tbl, "sp": sp, "asks": a})
        return evs
    return [e for l in common.par_map(go, jobs) for e in l]


def run(c):
    T = common.THOROUGH
    r = common.rng("c03")
    r.seed0 = common.SEED
    m = tlc.run("MCOptimizer", "MCOptimizer.cfg", workers=8, timeout=600)
    c.add("states", m.states)
    if not m.ok:
        raise tlc.TlcError("the rewrite model itself fails:\n" + m.msg)
    exe = build.build(["cdrv"])["cdrv"]
    evs = parse_events(c, r, exe, 2500 if not T else 40000) + hop_events(c, r, exe, 120 if not T else 2500)
    r.shuffle(evs)
    ok, bad, states = tlc.check_trace("QueryTrace", evs, shards=8, timeout=850)
    c.add("states", states)
    c.add("traces_validated_against_impl", len(evs))
    c.add("transitions", states)
    c.add("well_formed_texts", sum(1 for e in evs if e["k"] == "parse" and e["ok"]))
    c.add("refused_texts", sum(1 for e in evs if e["k"] == "parse" and not e["ok"]))
    c.add("evaluated_queries", sum(1 for e in evs if e["k"] == "hop"))
    c.add("queries_with_solutions", sum(1 for e in evs if e["k"] == "hop" and e["asks"] and e["asks"][0]["walk"]))
    for e in evs[:2]:
        c.sample({"kind": e["k"], "text": bytes(e["s"]).decode("utf-8", "replace"), "accepted": e["ok"]})
    for rej, gr, out in bad:
        ev = gr[rej - 1]
        mm = [l for l in out.split("\n") if "MISMATCH" in l]
        c.violation("query text %r: %s" % (bytes(ev["s"]).decode("utf-8", "replace"), mm[0] if mm else ""), ev)
    c.cov["rule"] = "random query texts (half mutated), random queries over random small collections, optimizer off and on"
