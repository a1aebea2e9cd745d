"""Generators of lists, queries and question histories for the cursor properties."""
import json
INF = 1000000000
BIN = ["^", "+", "...", "<<", ">>", "!<", "!>"]
OPS = BIN + ["M"]


def all_gc(n, p=1, q=1):
    out = [[]]
    for a in range(p, n + 1):
        for b in range(max(a, q), n + 1):
            for t in all_gc(n, a + 1, b + 1):
                out.append([(a, b)] + t)
    return out


def valued(l, salt=0):
    return [[p, q, (p * 7 + q * 3 + salt) % 50 + 1] for p, q in l]


def rand_gc(r, n, k, base=1, maxw=None):
    """At most k intervals over base..base+n-1, none inside another."""
    out, p, q = [], base - 1, base - 1
    shape = r.choice(["dense", "sparse", "points", "wide", "nestish"])
    for _ in range(k):
        gap = {"dense": 1, "points": r.randint(1, 2), "sparse": r.randint(1, max(1, n // max(1, k) * 2)),
               "wide": r.randint(1, 2), "nestish": r.randint(1, 3)}[shape]
        p2 = p + gap
        w = {"dense": r.randint(0, 2), "points": 0, "sparse": r.randint(0, 3),
             "wide": r.randint(0, max(1, n // 2)), "nestish": r.randint(0, 6)}[shape]
        if maxw is not None:
            w = min(w, maxw)
        q2 = max(p2 + w, q + 1)
        if q2 > base + n - 1:
            break
        out.append((p2, q2))
        p, q = p2, q2
    return out


def keys_for(lists, n=None):
    ks = {0, 1, INF, -INF, -INF + 1, INF - 1}
    for l in lists:
        for x in l:
            ks |= {x[0] - 1, x[0], x[0] + 1, x[1] - 1, x[1], x[1] + 1}
    return sorted(ks)


def all_calls(r, keys, ops="truoLR"):
    cs = [[o, k] for o in ops for k in keys]
    r.shuffle(cs)
    return cs


def rand_calls(r, keys, m, ops="truoLR"):
    """Histories that mix walking forward, walking backward, jumps and repeats."""
    out, i = [], r.randrange(len(keys))
    while len(out) < m:
        style = r.choice(["fwd", "back", "jump", "rep", "small"])
        o = r.choice(ops)
        for _ in range(r.randint(1, 6)):
            if style == "fwd":
                i = min(len(keys) - 1, i + r.choice([1, 1, 1, 2, 5]))
            elif style == "back":
                i = max(0, i - r.choice([1, 1, 1, 2, 5]))
            elif style == "jump":
                i = r.randrange(len(keys))
            elif style == "small":
                i = max(0, min(len(keys) - 1, i + r.choice([-1, 0, 1])))
            if r.random() < 0.3:
                o = r.choice(ops)
            out.append([o, keys[i]])
    return out[:m]


def rand_ast(r, names, depth, ops=None, links=()):
    ops = ops or OPS
    if depth == 0 or r.random() < 0.15:
        return {"op": "t", "f": r.choice(names)}
    o = r.choice(ops + ["m", "#"] + (["@"] if links else []))
    if o == "@":
        return {"op": "@", "x": [{"op": "t", "f": r.choice(links)}]}
    if o == "m":
        return {"op": "m", "x": [rand_ast(r, names, depth - 1, ops, links)]}
    if o == "#":
        s = r.choice(["<<", "!<"])
        return {"op": s, "x": [rand_ast(r, names, depth - 1, ops, links), {"op": "#", "n": r.randint(1, 6)}]}
    k = 2 if r.random() < 0.8 else r.randint(3, 4)
    return {"op": o, "x": [rand_ast(r, names, depth - 1, ops, links) for _ in range(k)]}


def text(ast, right=False):
    """The query text of an AST whose features are spelled as given."""
    if ast["op"] == "t":
        return ast["f"]
    if ast["op"] == "#":
        return "(# %d)" % ast["n"]
    return "(%s %s)" % (ast["op"], " ".join(text(x) for x in ast["x"]))
