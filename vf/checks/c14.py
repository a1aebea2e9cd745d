"""C14: a tokenizer's tokens, skips and splits describe the same text."""
from .. import common, tlc, tokens, build
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    for cfg in ("MCTokensA", "MCTokensU"):
        m = tlc.run("MCTokens", cfg + ("5" if T else "") + ".cfg", workers=8, timeout=800, heap="8g")
        if not m.ok:
            raise tlc.TlcError("the tokenizer specification contradicts itself:\n" + m.msg)
        c.add("states", m.distinct)
    exe = build.build(["cdrv"])["cdrv"]
    r = common.rng(c.pid)
    jobs = []

    def add(kind, texts):
        n = max(1, len(texts) // (8 if len(texts) > 4000 else 3))
        for k in range(0, len(texts), n):
            jobs.append((kind, texts[k:k + n]))
    # every text up to a length
    depth = 4 if T else 3
    add("ascii", list(tokens.words(tokens.A_ALPHA, depth)))
    add("xml", list(tokens.words(tokens.A_ALPHA, depth)) + list(tokens.words([97, 60, 62, 38, 59, 10], 6 if T else 5)))
    add("utf8", list(tokens.words(tokens.U_ALPHA, depth)))
    c.add("exhaustive_texts", sum(len(t) for _, t in jobs))
    # every character once, inside words
    cps = [x for x in range(1, 0x110000) if tokens.settled(x)]
    sweep = cps if T else sorted(set(r.sample(cps, 12000)) | set(x for x in range(1, 0x600)) | set(tokens.FOLDS) |
                                 set(x for x in cps if tokens.fold(x) != x))
    texts = []
    for k in range(0, len(sweep), 40):
        b = []
        for n, cp in enumerate(sweep[k:k + 40]):
            b += ([97] if n % 3 == 0 else []) + tokens.enc(cp) + ([98, 32] if n % 2 else [32] if n % 5 else [])
        texts.append(b)
    add("utf8", texts)
    c.add("characters", len(sweep))
    n = 40000 if T else 4000
    add("utf8", [tokens.rand_utf8(r, r.choice([1, 3, 6, 12, 30])) for _ in range(n)])
    add("xml", [tokens.rand_xml(r, r.choice([1, 2, 4, 8, 16])) for _ in range(n)])
    add("ascii", [tokens.rand_xml(r, r.choice([2, 5])) for _ in range(n // 2)])
    # from each token boundary on
    tails = []
    for kind, l in [j for j in jobs]:
        if kind == "utf8" and len(l[-1]) > 60:
            continue
        for s in r.sample(l, min(len(l), 200 if T else 40)):
            k = r.randint(0, len(s))
            tails.append((kind, [s[k:], s[:k]]))
    for kind in tokens.KINDS:
        add(kind, [x for k, l in tails if k == kind for x in l])
    def one(j):
        try:
            return tokens.observe(exe, j[0], j[1])
        except common.DriverDied as e:
            return str(e)
    evs = common.par_map(one, jobs)
    for j, e in zip(jobs, evs):
        if isinstance(e, str):
            c.violation("tokenizing (%s): the implementation %s" % (j[0], e), {"kind": j[0], "texts": j[1]})
    evs = [e for e in evs if not isinstance(e, str)]
    groups = [[] for _ in range(8)]
    for e in sorted(evs, key=lambda e: -len(e)):
        min(groups, key=lambda g: sum(len(x["s"]) for x in g[::50])).extend(e)
    c.add("traces_validated_against_impl", sum(len(g) for g in groups))
    for g in groups:
        if g:
            c.sample(g[-1], limit=3)
    ok, bad, states = tokens.check_trace("TokensTrace", groups)
    c.add("states", states)
    for rej, g, out in bad:
        m = [l for l in out.split("\n") if "MISMATCH" in l]
        e = g[rej - 1]
        c.violation("%s tokenizer on %s: %s, got tokens %s split %s skips %s" % (
            e["kind"], bytes(e["s"]), m[-1][:400] if m else "", e["toks"], [bytes(x) for x in e["split"]], e["skips"]), e)
    c.cov["exhaustive"] = False
    c.cov["rule"] = ("MCTokens exhaustive on texts up to its length; the real tokenizers on every text up to %d bytes over "
                     "alphabets with every class of byte, on characters of every class inside words, and on random "
                     "(also malformed) text; every token, skip and split decided by TLC" % depth)
