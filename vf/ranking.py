"""Rankings made by the real code over generated collections, against spec/RankingTrace.tla."""
import os, tempfile
from . import common, gclgen as g, tlc
from .checks.c03 import ws

WORDS = ["ape", "bat", "cat", "dog", "eel", "fox", "gnu"]
EXACT = {1: 27720, 2: 360360, 3: 360360, 5: 720720}  # lcm of K..K+11


def codes(s):
    return list(s.encode())


def apart(r, n, most, base=0, cover=0.2):
    """Containers over base..base+n-1, none longer than most, none overlapping."""
    out, p = [], base + r.choice([0, 0, 1, 3])
    while p < base + n:
        q = min(base + n - 1, p + r.randint(0, most - 1))
        out.append((p, q))
        p = q + 1 + (0 if r.random() < 0.6 else r.randint(1, 4))
    if r.random() < cover:
        out = [x for x in out if r.random() < 0.5] or out
    return out


def tree(r, leaf, depth):
    if depth == 0 or r.random() < 0.2:
        return leaf()
    o = r.choice(["+", "^", "^", "...", "<<", ">>", "!<", "!>", "#in"])
    if o == "#in":
        return "(<< %s (# %d))" % (tree(r, leaf, depth - 1), r.randint(1, 8))
    n = r.choice([2, 2, 3]) if o in "+^..." else 2
    return "(" + o + "".join(" " + tree(r, leaf, depth - 1) for _ in range(n)) + ")"


class Collection:
    """A collection with its features' lists known."""

    def __init__(self, c, r, kind):
        self.c, self.r, self.kind = c, r, kind
        self.cmds, self.events = [], []
        self.dir = None
        self.av = kind != "static" and r.random() < 0.5  # values kept as integers
        self.tok = r.choice(["ascii", "utf8"])

    def put(self, cmd):
        self.cmds.append(cmd)

    def make(self, words, lists, values=()):
        """words: the text; lists: {feature: [(p, q)]}; values: [(feature, p, q, v)]"""
        r, k = self.r, self.kind
        anns = [(f, p, q, 0) for f, l in lists.items() for p, q in l] + list(values)
        if k == "static":
            self.dir = tempfile.mkdtemp(prefix="vf-rank-")
            anns.sort(key=lambda a: a[1])
            ops, left = [], list(words)
            while left:
                n = r.randint(1, 40)
                ops.append(["text", " ".join(left[:n]) + "\n"])
                left = left[n:]
            ops += [["ann"] + list(a) for a in anns]
            self.put({"c": "sbuild", "dir": self.dir + "/b", "tok_file": 5, "ann_file": 5, "tokenizer": self.tok,
                      "tokenizer_recipe": "", "ops": ops})
            self.put({"c": "open", "w": "w", "dir": self.dir + "/b"})
        else:
            if k == "disk":
                self.dir = tempfile.mkdtemp(prefix="vf-rank-")
                self.put({"c": "mk", "w": "w", "dir": self.dir + "/b", "recipe": "tokenizer:name:%s" % self.tok, "merge": False})
            else:
                self.put({"c": "mk", "w": "w", "tokenizer": self.tok, "merge": r.random() < 0.5})
            left = list(words)
            while left:
                n = r.randint(1, 60)
                self.txn([{"c": "append", "w": "w", "t": " ".join(left[:n])}])
                left = left[n:]
            r.shuffle(anns)
            while anns:
                n = r.randint(1, 60)
                self.txn([{"c": "anns", "w": "w", "addr": self.av, "l": [list(a) for a in anns[:n]]}])
                anns = anns[n:]
            if k == "disk" and r.random() < 0.7:
                self.put({"c": "drop", "w": "w"})
                self.put({"c": "open", "w": "w", "dir": self.dir + "/b"})
        self.put({"c": "start", "w": "w"})
        self.ws = ["w"]
        if r.random() < 0.4:
            self.put({"c": "clone", "w": "w", "as": "v"})
            self.ws.append("v")
        tbl = {f: [(p, q, 0) for p, q in l] for f, l in lists.items()}
        for n, w in enumerate(words):
            tbl.setdefault(w, []).append((n, n, 0))
        self.tbl = [[codes(f), [list(x) for x in l]] for f, l in tbl.items()]

    def txn(self, cmds):
        self.put({"c": "txn", "w": "w"})
        for x in cmds:
            self.put(x)
        self.put({"c": "ready", "w": "w"})
        self.put({"c": "commit", "w": "w"})

    def ask(self, cmd, e):
        self.events.append((len(self.cmds), e))
        self.put(dict(cmd, c="rank", w=self.r.choice(self.ws)))

    def common(self):
        return {"tbl": self.tbl, "sp": []}

    def ssr(self, q, cont, K, U, slack, depth, how="ssr", threads=0, span=None):
        cmd = {"how": how, "gcl": codes(q), "cont": codes(cont), "K": K, "u": U, "depth": depth}
        if slack:
            cmd["round"] = True
        e = dict(self.common(), k="ssr", q=codes(q), cont=codes(cont), K=K, U=U, slack=slack, depth=depth,
                 **{"from": -10 ** 9, "to": 10 ** 9})
        if how == "par":
            cmd["threads"] = threads
        if span:
            cmd["from"], cmd["to"] = span
            e["from"], e["to"] = span
        if K == 42 and self.r.random() < 0.5:
            del cmd["K"]
        elif self.r.random() < 0.3:
            cmd["kname"] = "K"
        self.ask(cmd, e)

    def tiers(self, ts, cont, depth):
        self.ask({"how": "tier", "tiers": [codes(t) for t in ts], "cont": codes(cont), "depth": depth},
                 dict(self.common(), k="tier", tiers=[codes(t) for t in ts], cont=codes(cont), K=42, U=10 ** 8, slack=60,
                      depth=depth, words=[]))

    def words(self, q, ws_, cont, depth, delta):
        cmd = {"how": "words", "gcl": codes(q), "cont": codes(cont), "depth": depth}
        if delta is not None:
            cmd["delta"] = delta
        self.ask(cmd, dict(self.common(), k="tier", cont=codes(cont), K=42, U=10 ** 8, slack=60, depth=depth,
                           words=[codes(w) for w in sorted(set(ws_))]))

    def run(self, exe, what):
        try:
            out = common.drive(self.c, exe, self.cmds, 300, what)
        finally:
            if self.dir:
                common.rm(self.dir)
        if out is None:
            return []
        evs = []
        for n, cmd in enumerate(self.cmds):
            if not out[n].get("ok", True):
                raise tlc.TlcError("%s: %r" % (cmd["c"], out[n]))
        for n, e in self.events:
            o = out[n]
            e["r"] = o["r"]
            if "tiers" in o:
                e["tiers"] = o["tiers"]
            e["_cmds"] = self.cmds
            evs.append(e)
        return evs


def some_depth(r, n):
    return r.choice([0, 1, 1, 2, 2, 3, max(1, n - 1), n, n + 1, 1000] + ([r.randint(1, n)] * 4 if n > 20 else []))


def texts(c, exe, i, big=1):
    """Text collections of every storage form: rankings, shares of one, tiers."""
    r = common.rng("c21", "t", i)
    col = Collection(c, r, ["mem", "disk", "static"][i % 3])
    vocab = WORDS[:r.randint(2, 7)]
    many = i % 8 == 5  # many containers, simple queries
    size = r.choice([12, 30, 60, 60 * min(big, 2)]) if not many else r.choice([150, 300])
    words = [r.choice(vocab) for _ in range(size)]
    small = many or r.random() < 0.6
    docs = apart(r, size, 12 if small else 40) if not many else apart(r, size, 4, cover=0)
    lists = {"doc:": docs, "all:": [(0, size - 1)]}
    for f in ("x:", "y:"):
        lists[f] = g.rand_gc(r, size, r.choice([0, 2, 5, 9]), base=0)
    vals, terms = [], {}
    for w in vocab[:3] + ["yak"]:
        l = []
        for p, q in docs:
            if r.random() < 0.5:
                l.append((p, p if r.random() < 0.7 else q, r.randint(1, 5)))
        vals += [("tf:" + w,) + x for x in l]
        terms[w] = l
    col.make(words, lists, vals)
    leaf = lambda: r.choice(vocab + vocab + ["x:", "y:", "zebra"])
    conts = lambda: r.choice(["doc:"] * 6 + ["(>> doc: x:)", "(!> doc: %s)" % leaf(), "all:", "nothing:", "(<< doc: all:)", "(doc:"])
    for _ in range(r.randint(4, 8)):
        q, cont = tree(r, leaf, r.choice([0, 1, 1, 2])), conts()
        if many:
            q, cont = r.choice([leaf(), "(+ %s %s)" % (leaf(), leaf()), "(<< %s doc:)" % leaf()]), "doc:"
        if r.random() < 0.06:
            q += r.choice([")", " ape"])
        K, slack = (r.choice([1, 2, 3, 5]), 0) if small and "all:" != cont else (r.choice([1, 7, 42]), 60)
        U = 10 ** 7 if slack else EXACT[K]
        ds = [some_depth(r, len(docs)) for _ in range(2)]
        for d in ds:
            col.ssr(q, cont, K, U, slack, d)
        if r.random() < 0.5:
            a, b = r.randint(-2, size), r.randint(0, size + 3)
            col.ssr(q, cont, K, U, slack, ds[0], span=[a, b])
        if r.random() < 0.4:
            col.ssr(q, cont, K, U, slack, ds[1], how="par", threads=r.choice([0, 1, 2, 5]))
    for _ in range(r.randint(2, 4) if not many else 0):
        col.tiers([tree(r, leaf, r.choice([0, 1, 1])) for _ in range(r.choice([1, 2, 3, 4]))], conts(), some_depth(r, len(docs)))
    for _ in range(r.randint(1, 3) if not many else 0):
        qs = [r.choice(vocab + ["zebra"]) for _ in range(r.randint(0, 4))]
        col.words(r.choice([" ", ", "]).join(w.upper() if col.tok == "utf8" and r.random() < 0.2 else w for w in qs), qs, "doc:",
                  some_depth(r, len(docs)), r.choice([None, 0.0, 0.3, 2.0]))
    for _ in range(2):
        ts = r.sample(sorted(terms), r.randint(1, 3))
        wt = [r.choice([1, 1, 2, 3]) for _ in ts]
        d = some_depth(r, len(docs))
        col.ask({"how": "product", "terms": [[codes(t), w] for t, w in zip(ts, wt)], "depth": d, "tag": "tf",
                 "convert": col.av},
                {"k": "product", "depth": d, "terms": [{"w": w, "l": [list(x) for x in terms[t]]} for t, w in zip(ts, wt)]})
    rs = []
    for _ in range(r.randint(0, 3)):
        ps = r.sample(range(8), r.randint(0, 4))
        rs.append([{"p": 10 * p, "q": 10 * p + 3, "cp": 0, "cq": 0, "s": 0} for p in ps])
    col.ask({"how": "fuse", "rankings": [[[x["p"], x["q"]] for x in l] for l in rs], "u": 61 * 31 * 63 * 64},
            {"k": "fuse", "rs": rs, "U": 61 * 31 * 63 * 64})
    return col.run(exe, "ranking")


def spread(c, exe, i):
    """Collections wide enough that ranking is divided among threads."""
    r = common.rng("c21", "s", i)
    kind = r.choice(["mem", "mem", "disk"])
    col = Collection(c, r, kind)
    million = 10 ** 6
    span = r.randint(2 * million, 7 * million)
    base = r.randint(0, 1000)
    cuts = set()
    for t in range(2, 8):
        n = min(t, span // million)
        cuts |= {base + (span // n) * k + ((span % n) * k) // n for k in range(n)}
    at = sorted({base, base + span - 12} | set(x + r.randint(-14, 6) for x in r.sample(sorted(cuts), min(len(cuts), 8)) if x > base + 30) |
                {r.randint(base + 30, base + span - 30) for _ in range(r.randint(2, 8))})
    at = [x for k, x in enumerate(at) if k == 0 or x - at[k - 1] > 24]
    docs, lists = [], {"x:": [], "y:": [], "z:": []}
    long_ = r.random() < 0.25
    for b in at:
        here = apart(r, 12, 12, base=b, cover=0)
        if b == at[0]:
            here[0] = (base, here[0][1])
        if b == at[-1]:  # the last container ends the span
            here[-1] = (here[-1][0], base + span - 1)
            here = [x for x in here if x[0] <= x[1]]
        docs += here
        for f in ("x:", "y:", "z:"):
            lists[f] += [(p, q) for p, q in g.rand_gc(r, 12, r.choice([0, 1, 2, 3]), base=b)]
    if long_ and len(at) > 2:  # one container across a gap
        k = r.randrange(len(at) - 1)
        a, b = at[k] + 12, at[k + 1] - 1
        if a < b:
            docs.append((a, b))
            docs.sort()
            if a + 40 < b:
                lists["x:"] += [(a + 3, b - 2)]
                lists["y:"] += [(a + 1, a + 1)]
                lists["z:"] += [(b - 1, b - 1)]
                for f in lists:
                    lists[f].sort()
    lists["doc:"] = docs
    col.make([], lists)
    leaf = lambda: r.choice(["x:", "y:", "z:", "x:"])
    for _ in range(r.randint(3, 5)):
        q = tree(r, leaf, r.choice([0, 1, 1]))
        K, slack, U = (r.choice([1, 2, 3]), 0, 0) if not long_ else (7, 60, 10 ** 7)
        U = U or EXACT[K]
        d = some_depth(r, len(docs))
        for t in r.sample([0, 1, 2, 3, 4, 5, 6, 7], 3):
            col.ssr(q, "doc:", K, U, slack, d, how="par", threads=t)
        col.ssr(q, "doc:", K, U, slack, some_depth(r, len(docs)))
    return col.run(exe, "divided ranking")


def validate(c, evs):
    cmds = {}
    for n, e in enumerate(evs):
        e["_n"] = n
        cmds[n] = e.pop("_cmds")
    ok, bad, states = tlc.check_trace("RankingTrace", evs, shards=8, timeout=850)
    c.add("states", states)
    c.add("transitions", states)
    c.add("traces_validated_against_impl", len(evs))
    for k in ("ssr", "tier", "product", "fuse"):
        c.add("rankings_" + k, sum(1 for e in evs if e["k"] == k))
    c.add("rankings_with_results", sum(1 for e in evs if e["r"]))
    for e in evs[:2]:
        c.sample({"kind": e["k"], "results": len(e["r"])})
    for rej, gr, out in bad:
        ev = gr[rej - 1]
        k = out.find("MISMATCH")
        c.violation("a ranking: %s" % " ".join((out[k:k + 600] if k >= 0 else out[-500:]).split()), {"event": ev, "cmds": cmds[ev["_n"]]})
