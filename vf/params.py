"""Configuration texts and parameters of the real code, against spec/ParamsTrace.tla."""
import hashlib, json, os, random
from . import build, common, crash, tlc

KEYS = ["a", "b", "k1", "with-dash", "with.dot", "under_score", "0", "name", "recipe", "parameters", "Key", "id", "statistics", "x" * 60]
ODD_KEYS = ["", "two words", "a:b", "k\"", "é", "a,b", "[a]", "x:\"1\", y", "a\nb", "a\0"]
GCLS = ["doc:", "(... \"hello world\" \"x\")", "\"hello world\"", "(+ doc: (... <DOC> </DOC>))", "(>> doc: \"it's\")", "(<< :text: (# 3))", "'q'"]
BITS = ["\"", "\\", "'", "[", "]", ",", ":", "\n", "\t", " ", "a", "b", "n", "1", "é", "\\n", "\\\"", "[]", "[a:", "\"]", "\n\n", "\r", "#", "@"]


def codes(s):
    return list(s if isinstance(s, bytes) else s.encode())


def ident(r):
    return "".join(r.choice("abcxyzAZ019-_.") for _ in range(r.choice([1, 1, 2, 5])))


def quoted(r, v):
    """A value in one of its spellings."""
    q = r.choice("\"\"'")
    out = v.replace("\\", "\\\\").replace(q, "\\" + q)
    if r.random() < 0.7:
        out = out.replace("\n", "\\n")
    return q + out + q


def spelt(r, m):
    """A recipe in one of its spellings; values that are maps are nested."""
    sp = lambda: r.choice(["", "", " ", "\n  ", "\t"])
    l = [k + sp() + ":" + sp() + (spelt(r, v) if isinstance(v, list) else quoted(r, v)) for k, v in m]
    return "[" + sp() + ("," + sp()).join(l) + (r.choice(["", ","]) if l else "") + sp() + "]"


def text(r, most=12):
    return "".join(r.choice(BITS) for _ in range(r.randint(0, most)))


def tree(r, depth):
    """names and values, values being texts or trees"""
    return [(r.choice([r.choice(KEYS), ident(r)]), tree(r, depth - 1) if depth and r.random() < 0.4 else text(r)) for _ in range(r.choice([0, 1, 1, 2, 3]))]


def value(r):
    x = r.random()
    if x < 0.15:
        return r.choice(["", "yes", "no", "porter", "1", "value"])
    if x < 0.3:
        return r.choice(GCLS)
    if x < 0.55:
        return text(r)
    if x < 0.75:
        return r.choice(["", "", " ", "\n"]) + spelt(r, tree(r, r.choice([0, 1, 2, 3]))) + r.choice(["", "", "\n"])
    if x < 0.85:
        s = spelt(r, tree(r, 2))
        return s[:r.randint(0, len(s))]
    if x < 0.9:
        return json.dumps({"a": [1, "two \"quoted\"", {"b\\": None}]})
    if x < 0.95:
        return bytes(r.randint(1, 255) for _ in range(r.randint(1, 20)))
    return text(r, 120) if r.random() < 0.8 else text(r) + "\0" + text(r)


def damaged(r, s):
    b = bytearray(codes(s))
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.randint(0, len(b))
        x = r.random()
        if x < 0.35 and k < len(b):
            del b[k]
        elif x < 0.7:
            b[k:k] = codes(r.choice(BITS))
        elif k < len(b):
            b[k:k + 1] = codes(r.choice(BITS))
    return bytes(b)


OPTIONS = ["tokenizer:noxml", "tokenizer:name:utf8", "idx:fvalue_compressor:zlib", "idx:posting_compressor", "txt:compressor:bad", "txt@wrapped",
           "nothing:x", "nothing", "nothing@x", "tokenizer", "tokenizer:", ":", "::", "@", "a:b:c:d", "idx:nothing:x", "tokenizer:x:y", "idx:name:x:y",
           "warren:x", "warren:name:x", "parameters:x:y", "parameters:name:y", "parameters:z", "", "featurizer:name:", "idx@a@b", "txt:a@b", "none:a:b",
           "tokenizer:\"x\"", "idx:posting_compressor:[a:'b']", "featurizer:name:it's", "txt:compressor_recipe:[", "tokenizer::x"]
DESC = ("[ featurizer:[ name:\"hashing\", recipe:\"\", ], idx:[ name:\"bigwig\", recipe:[ fvalue_compressor:\"null\", posting_compressor:'null', ], ],"
        " parameters:[%s], tokenizer:[ name:\"ascii\", recipe:\"xml\", ], txt:[ name:\"bigwig\", recipe:[ compressor:\"null\", compressor_recipe:\"\", ], ],"
        " warren:\"bigwig\", ]")


def texts(c, exe, i, n):
    """Texts written, read and changed by the real code."""
    r = common.rng("C18", "texts", i)
    cmds, evs = [], []
    for _ in range(n):
        x = r.random()
        if x < 0.45:
            m = {}
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                v = value(r)
                m[r.choice([r.choice(KEYS), ident(r)])] = codes(v if isinstance(v, bytes) else v.replace("\0", ""))
            cmds.append({"c": "freeze", "m": [[codes(k), v] for k, v in m.items()]})
            evs.append(dict(k="freeze", m=cmds[-1]["m"]))
        elif x < 0.75:
            s = damaged(r, spelt(r, tree(r, r.choice([0, 1, 2]))))
            cmds.append({"c": "cook", "s": codes(s)})
            evs.append(dict(k="cook", s=codes(s)))
        else:
            m = DESC % "" if r.random() < 0.6 else DESC % spelt(r, tree(r, 1))[1:-1]
            m = codes(m) if r.random() < 0.9 else codes(damaged(r, m))
            o = codes(r.choice(OPTIONS) if r.random() < 0.8 else damaged(r, r.choice(OPTIONS)))
            k = r.choice(["opt", "ext"])
            cmds.append({"c": k, "m": m, "o": o})
            evs.append(dict(k=k, m=m, o=o))
    out = common.drive(c, exe, cmds, what="configuration text")
    if out is None:
        return []
    for e, o, cmd in zip(evs, [o for o in out if "i" in o], cmds):
        e["ok"] = bool(o["ok"])
        for f in ("s", "back", "v"):
            if f in o and f not in ("s",) or f == "s" and e["k"] in ("freeze", "opt"):
                e[f] = o[f]
        e["_cmds"] = [cmd]
    return evs


class Burrow:
    """One burrow of the real code and what is opened of it."""

    def __init__(self, exe, r, d, kind, env=None, preload=None, make=True, like=None):
        self.exe, self.r, self.dir, self.kind = exe, r, d, kind
        self.d = common.Driver(exe, env=env, preload=preload)
        self.evs = [dict(k="new", _i=-1)]
        self.g = {}        # warren -> opening
        self.fixed = set()
        self.n = 0
        self.comp = []
        self.archives = []
        self.merge = False
        self.keys = r.sample(KEYS, 3)
        if like:
            self.keys, self.comp, self.opts, self.merge = like.keys, like.comp, like.opts, like.merge
        if make:
            self.make()

    def ev(self, k, **kw):
        self.evs.append(dict(k=k, _i=len(self.d.log) - 1, **kw))

    def call(self, **cmd):
        return self.d.call(cmd)

    def name(self, p="w"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def make(self):
        r = self.r
        self.tok = r.choice([("ascii", "xml"), ("ascii", "noxml"), ("ascii", ""), ("utf8", "")])
        self.opts = {"tokenizer": self.tok[0], "tokenizer_recipe": self.tok[1], "pc": r.choice(["null", "post", "zlib"]),
                     "fc": r.choice(["null", "zlib"]), "tc": r.choice(["null", "zlib"]), "featurizer": "hashing", "featurizer_recipe": ""}
        o = self.opts
        rec = "tokenizer:name:%s%s idx:posting_compressor:%s idx:fvalue_compressor:%s txt:compressor:%s" % (
            o["tokenizer"], " tokenizer:" + o["tokenizer_recipe"] if o["tokenizer_recipe"] else "", o["pc"], o["fc"], o["tc"])
        if r.random() < 0.3:
            rec += " featurizer@json"  # a featurizer around the other
            self.opts["featurizer"], self.opts["featurizer_recipe"] = "json", "[ name:\"hashing\", recipe:\"\", ]"
        self.json = r.random() < 0.3 and self.kind != "mem"
        if self.json:
            rec += " txt:json:yes"
        w = self.name()
        if self.kind == "static":
            ops = [["text", "static words here\n"], ["text", "and more words there"], ["ann", "doc:", 0, 2, 5], ["ann", "doc:", 3, 4, 6]]
            ok = self.call(c="sbuild", dir=self.dir, recipe=rec, ops=ops)
            ok = self.call(c="open", w=w, dir=self.dir)
            self.comp = []
        elif self.kind == "disk":
            ok = self.call(c="mk", w=w, dir=self.dir, recipe=rec)
        else:
            if o["featurizer"] == "json":
                self.opts["featurizer"], self.opts["featurizer_recipe"] = "hashing", ""
            ok = self.call(c="mk", w=w, **self.opts)
        if self.kind != "static":
            self.comp = [[[codes("warren")], codes("bigwig")], [[codes("tokenizer"), codes("name")], codes(o["tokenizer"])],
                         [[codes("tokenizer"), codes("recipe")], codes(o["tokenizer_recipe"])],
                         [[codes("featurizer"), codes("name")], codes(o["featurizer"])],
                         [[codes("idx"), codes("recipe"), codes("posting_compressor")], codes(o["pc"])],
                         [[codes("idx"), codes("recipe"), codes("fvalue_compressor")], codes(o["fc"])],
                         [[codes("txt"), codes("recipe"), codes("compressor")], codes(o["tc"])]]
            if o["tokenizer"] == "ascii" and not o["tokenizer_recipe"]:
                self.comp[2][1] = codes("noxml")
        self.ev("make", b="b", ok=bool(ok.get("ok")), m=[])
        self.opened(w, ok)
        if self.kind != "static":
            # merging is switched by a parameter of its own
            self.call(c="merge", w=w, on=False)
            self.ev("set", g=self.g[w], key=codes("merge"), v=codes("no"), ok=True)

    def opened(self, w, o, b="b", fixed=False):
        g = self.name("g")
        self.ev("open", g=g, b=b, ok=bool(o.get("ok")), fixed=fixed)
        if o.get("ok"):
            self.g[w] = g
            if fixed:
                self.fixed.add(w)
        return bool(o.get("ok"))

    def some(self, live=False):
        ws = [w for w in self.g if not (live and w in self.fixed)]
        return self.r.choice(ws)

    def key(self):
        r = self.r
        x = r.random()
        if x < 0.7:
            return r.choice(self.keys)
        if x < 0.8:
            return "container"
        if x < 0.85 and self.kind != "mem":
            return r.choice(ODD_KEYS)
        k = r.choice([r.choice(KEYS), ident(r)])
        self.keys.append(k)
        return k

    def set(self, w=None):
        r = self.r
        w = w or self.some()
        k = self.key()
        v = codes(r.choice(GCLS) if k == "container" else value(r))
        if 0 in v and self.kind == "mem":
            v = [x for x in v if x]
        if 0 in v:  # not with a text that is a recipe up to its end
            v = codes("a") + v
        if k == "container" and r.random() < 0.5 and w not in self.fixed:
            o = self.call(c="setcont", w=w, v=v)
            self.ev("set", g=self.g[w], key=codes(k), v=v, ok=bool(o["ok"]))
            if o["ok"]:
                self.ev("used", g=self.g[w], key=codes(k), v=self.call(c="cont", w=w)["v"])
        elif w not in self.fixed and r.random() < 0.08:
            s = r.choice(["porter", "null"])
            o = self.call(c="setstem", w=w, v=s)
            self.ev("set", g=self.g[w], key=codes("stemmer"), v=codes(s.replace("null", "")), ok=bool(o["ok"]))
            k = "stemmer"
        else:
            o = self.call(c="setp", w=w, k=codes(k), v=v)
            self.ev("set", g=self.g[w], key=codes(k), v=v, ok=bool(o["ok"]))
        if r.random() < 0.4:
            self.get(w, k)

    def get(self, w=None, k=None):
        r = self.r
        w = w or self.some()
        k = r.choice(self.keys + ["container", "stemmer"]) if k is None else k
        o = self.call(c="getp", w=w, k=codes(k))
        self.ev("get", g=self.g[w], key=codes(k), ok=bool(o["ok"]), v=o["v"])

    def all(self, w=None):
        w = w or self.some()
        for k in sorted(set(self.keys + ["container", "stemmer", "unset"])):
            self.get(w, k)

    def clone(self):
        w, k = self.some(), self.name()
        o = self.call(c="clone", w=w, **{"as": k})
        if o.get("ok"):
            self.g[k] = self.g[w]
            if w in self.fixed:
                self.fixed.add(k)
            self.get(k)

    def recipe(self, w=None):
        w = w or self.some()
        if self.kind == "static":
            return
        s = self.call(c="recipe", w=w)["s"]
        comp = self.comp
        if w in self.fixed:
            comp = [x for x in comp if x[0][0] in (codes("tokenizer"), codes("featurizer"))]
        self.ev("recipe", g=self.g[w], s=s, comp=comp)

    def fresh(self, w):
        """right after an opening: what it uses is what was set"""
        self.ev("used", g=self.g[w], key=codes("container"), v=self.call(c="cont", w=w)["v"])
        self.ev("used", g=self.g[w], key=codes("stemmer"), v=codes(self.call(c="stemmer", w=w)["v"]))

    def open(self, b="b", dir=None, fixed=False):
        w = self.name()
        o = self.call(c="open", w=w, dir=dir or self.dir)
        if self.opened(w, o, b, fixed):
            self.fresh(w)
            if self.r.random() < 0.5:
                self.recipe(w)
            return w
        return None

    def drop_all(self):
        for w in self.g:
            self.call(c="drop", w=w)
        self.g, self.fixed = {}, set()

    def reopen(self):
        if self.kind == "mem":
            return
        self.drop_all()
        for w in range(self.r.choice([1, 1, 2])):
            self.open()
        for a, p in self.archives:
            if self.r.random() < 0.5:
                self.open(a, p, True)

    def content(self):
        """a mark of the content, as one of the openings shows it"""
        w = self.some(live=True)
        self.call(c="start", w=w)
        o = self.call(c="obs", w=w, fs=["doc:", "static", "word", "more"], tr=[[0, 40]], range=False)
        self.call(c="end", w=w)
        o = {k: v for k, v in o.items() if k not in ("i", "t", "ms", "b", "e", "th", "k")}
        self.ev("content", b="b", v=hashlib.md5(json.dumps(o, sort_keys=True).encode()).hexdigest())

    def write(self, still=False):
        """a transaction, parameters being set in its midst"""
        r, w = self.r, self.some(live=True)
        live = set(g for x, g in self.g.items() if x not in self.fixed)
        if self.kind == "static" or len(live) > 1:  # a burrow's content is written through one opening
            return
        if not self.call(c="txn", w=w).get("ok"):
            return
        between = lambda: self.set(w) if not still and r.random() < 0.3 else None
        if self.json:
            self.call(c="json", w=w, t=json.dumps({"more": ["word", self.n, {"static": "a \"quote\""}]}))
        else:
            self.call(c="append", w=w, t="more word %d\n" % self.n)
        between()
        self.call(c="append", w=w, t="another word", id="p%d" % self.n)
        self.call(c="ann", w=w, f="doc:", p={"r": "p%d" % self.n}, q={"r": "p%d" % self.n, "o": 1}, v=3)
        between()
        if not self.call(c="ready", w=w).get("ok") or not still and r.random() < 0.2:
            self.call(c="abort", w=w)
        else:
            between()
            self.call(c="commit", w=w)
        self.ev("wrote", b="b")
        between()
        self.content()

    def archive(self):
        """The burrow's shards made into archives, in a copy or in place; the archive keeps the parameters."""
        if self.kind != "disk":
            return
        r, w = self.r, self.some(live=True)
        a = self.name("a")
        d = self.dir
        inplace = r.random() < 0.4 and len(set(self.g.values())) == 1
        if not inplace:
            d = self.dir + "." + a
            self.call(c="cp", **{"from": self.dir, "to": d})
        else:
            self.ev("wrote", b="b")
        if not inplace and r.random() < 0.6:
            # one shard now, the others when something else has been set
            o = self.call(c="tohazel", w=w, dir=d, params=True, only=[0], **dict(self.opts))
            for n in o["made"]:
                b, p = self.name("a"), os.path.join(d, n.replace("fiver", "hazel"))
                self.ev("archive", g=self.g[w], b="b", a=b, ok=bool(o["ok"]))
                self.archives.append((b, p))
                self.open(b, p, True)
            for _ in range(2):
                self.set(w)
        o = self.call(c="tohazel", w=w, dir=d, params=True, **dict(self.opts))
        names = sorted(n for n in os.listdir(d) if n.startswith("hazel."))
        if not o.get("ok"):
            self.ev("archive", g=self.g[w], b="b", a=a, ok=False)
            return
        for n in names:
            if inplace and r.random() < 0.5:
                continue
            a = self.name("a")
            p = os.path.join(d, n)
            # an archive made earlier keeps what was set when it was made
            if p in [x[1] for x in self.archives]:
                continue
            if n not in [m.replace("fiver", "hazel") for m in o["made"]]:
                continue
            self.ev("archive", g=self.g[w], b="b", a=a, ok=True)
            if not inplace:
                self.archives.append((a, p))
            self.open(a, p, True)
        if inplace:
            self.drop_all()
            self.open()
        elif r.random() < 0.7:
            # neighbours merged: the parameters are those of the last
            num = lambda n: [int(x) for x in n.split(".")[1:]]
            runs = [[x, y] for x, y in zip(names, names[1:]) if num(x)[1] + 1 == num(y)[0]]
            had = {x: y for y, x in self.archives}
            for x, y in runs[:1]:
                a = self.name("a")
                o = self.call(c="hmerge", dir=d, names=[x, y])
                self.ev("archive", g="", b=had[os.path.join(d, y)], a=a, ok=bool(o["ok"]))
                if o["ok"]:
                    self.open(a, os.path.join(d, "hazel.%020d.%020d" % (num(x)[0], num(y)[1])), True)

    def background(self):
        """Archives made by the burrow itself, while it is used, keep what was set."""
        r = self.r
        if self.kind != "disk" or len(set(g for x, g in self.g.items() if x not in self.fixed)) != 1:
            return
        w = self.some(live=True)
        if not [n for n in os.listdir(self.dir) if n.startswith("hazel.")]:
            self.call(c="tohazel", w=w, dir=self.dir, params=True, **dict(self.opts))
            self.drop_all()
            self.ev("wrote", b="b")
            w = self.open()
        self.set(w)
        self.call(c="merge", w=w, on=True)
        self.ev("set", g=self.g[w], key=codes("merge"), v=codes("yes"), ok=True)
        self.write(still=True)
        self.call(c="settle", w=w)
        names = [n for n in os.listdir(self.dir) if n.startswith("hazel.")]
        if len(names) == 1 and not [n for n in os.listdir(self.dir) if n.startswith("fiver.")]:
            a = self.name("a")
            d = self.dir + "." + a
            self.call(c="cp", **{"from": self.dir, "to": d})
            self.ev("archive", g=self.g[w], b="b", a=a, ok=True)
            x = self.open(a, os.path.join(d, names[0]), True)
            self.archives.append((a, os.path.join(d, names[0])))
            if x:
                self.all(x)
        self.call(c="merge", w=w, on=False)
        self.ev("set", g=self.g[w], key=codes("merge"), v=codes("no"), ok=True)
        self.drop_all()
        self.open()
        self.content()

    def step(self):
        x = self.r.random()
        if x < 0.4:
            self.set()
        elif x < 0.6:
            self.get()
        elif x < 0.68:
            self.clone()
        elif x < 0.73 and self.kind != "mem" and len(self.g) < 6:
            self.open()
        elif x < 0.82:
            self.reopen()
        elif x < 0.9:
            self.write()
        elif x < 0.92:
            self.archive()
        elif x < 0.93:
            self.background()
        elif x < 0.96:
            self.recipe()
        else:
            self.content()

    def together(self):
        """several threads set parameters through clones at the same time"""
        r = self.r
        w = self.some(live=True)
        ths, new = [], []
        for t in range(r.choice([2, 3, 4])):
            k = self.name()
            if not self.call(c="clone", w=w, **{"as": k}).get("ok"):
                return
            self.g[k] = self.g[w]
            l = []
            for j in range(4):
                v = codes(value(r))
                v = [x for x in v if x]
                l.append(({"c": "setp", "w": k, "k": codes("t%d" % t), "v": v}, v))
                l.append(({"c": "getp", "w": k, "k": codes("t%d" % t)}, None))
            ths.append(l)
            self.keys.append("t%d" % t)
        self.call(c="par", th=[[x for x, v in l] for l in ths])
        got = {(o["th"], o["k"]): o for o in self.d.extra}
        for t, l in enumerate(ths):
            for j, (cmd, v) in enumerate(l):
                o = got[(t, j)]
                if v is not None:
                    self.ev("set", g=self.g[cmd["w"]], key=cmd["k"], v=v, ok=bool(o["ok"]))
                else:
                    self.ev("get", g=self.g[cmd["w"]], key=cmd["k"], ok=bool(o["ok"]), v=o["v"])
        self.all(w)

    def run(self, n):
        for _ in range(n):
            self.step()
        if self.r.random() < 0.4:
            self.background()
        if self.r.random() < 0.5:
            self.together()
        self.reopen()
        self.all()
        self.content()
        self.recipe()
        self.d.close()


def sessions(c, exe, i, steps):
    r = common.rng("C18", "session", i)
    d = "%s/p-%d" % (c.scratch, i)
    b = None
    try:
        b = Burrow(exe, r, d, ["disk", "static", "mem"][i % 7 % 3])
        b.run(steps)
        return [(b.evs, b.d.log, None)]
    except common.DriverDied as e:
        b.d.p.kill()
        return [(b.evs, b.d.log, str(e))]


def crashes(c, exe, pre, i, points):
    """Setting interrupted at any file operation: it has happened or has not, and nothing else has changed."""
    r = common.rng("C18", "crash", i)
    d = "%s/c-%d" % (c.scratch, i)
    kind = ["disk", "static"][i % 2]
    out = []
    s = Burrow(exe, r, d, kind, env=crash.env_for(c, d, d + ".snap", 1, i + 1, 2500), preload=pre)
    try:
        for _ in range(8):
            s.step()
        s.d.close()
    except common.DriverDied as e:
        s.d.p.kill()
        return [(s.evs, s.d.log, str(e))]
    out.append((s.evs, s.d.log, None))
    first = [e for e in s.evs if e["k"] == "open"][0]["_i"]
    sn = [x for x in crash.snapshots(d + ".snap") if x[1] // 2 > first]
    hot = [x for x in sn if x[1] % 2 == 0 and s.d.log[min(x[1] // 2, len(s.d.log) - 1)]["c"] in ("setp", "setcont", "setstem")]
    for path, mark, op, fn in r.sample(hot, min(points, len(hot))) + r.sample(sn, min(points // 3, len(sn))):
        j, during = mark // 2, mark % 2 == 0
        common.rm(d)
        crash.copy_dir(path, d)
        b = Burrow(exe, common.rng("C18", i, mark, fn), d, kind, make=False, like=s)
        try:
            b.d.log.append({"crash": [op, fn], "mark": mark, "history": s.d.log[:j + 1]})
            for e in s.evs:
                if e["k"] in ("make", "open", "set", "archive"):
                    if e["_i"] < j or e["_i"] == j and not during:
                        b.evs.append(dict(e))
                    elif e["_i"] == j and e["k"] == "set" and e["ok"]:
                        b.evs.append({"k": "pending", "b": [x["b"] for x in s.evs if x["k"] == "open" and x["g"] == e["g"]][0], "key": e["key"],
                                      "v": e["v"], "_i": -1})
            b.n = 1000
            if b.open():
                for e in b.evs:
                    if e["k"] == "pending":
                        b.get(None, bytes(e["key"]).decode())
                b.all()
                b.set()
                b.reopen()
                b.all()
            b.d.close()
        except common.DriverDied as e:
            b.d.p.kill()
            out.append((b.evs, b.d.log, str(e)))
            continue
        out.append((b.evs, b.d.log, None))
    common.rm(d)
    return out


def validate(c, evs, sess):
    for _, log, died in sess:
        if died:
            c.violation("setting parameters: the implementation %s" % died, {"log": log})
    allev, where = [], {}
    for e in evs:
        e["_n"] = ("t", e.pop("_cmds"))
    for k, (l, log, _) in enumerate(sess):
        for e in l:
            allev.append(dict(e, _n=k))
    # a text stands alone; sessions start with "new"
    ok1, bad1, st1 = tlc.check_trace("ParamsTrace", evs, shards=8, timeout=850) if evs else (True, [], 0)
    groups = [[] for _ in range(8)]
    for e in allev:
        groups[e["_n"] % 8].append(e)
    ok2, bad2, st2 = tlc.check_trace("ParamsTrace", groups, shards=None, timeout=850) if allev else (True, [], 0)
    c.add("states", st1 + st2)
    c.add("transitions", st1 + st2)
    c.add("traces_validated_against_impl", len(evs) + len(sess))
    for k in ("freeze", "cook", "opt", "ext", "set", "get", "used", "recipe", "content", "open", "archive", "pending"):
        c.add("events_" + k, sum(1 for e in evs + allev if e["k"] == k))
    for rej, gr, out in bad1 + bad2:
        e = gr[rej - 1]
        k = out.find("MISMATCH")
        rep = {"event": e}
        rep["cmds" if isinstance(e["_n"], tuple) or isinstance(e["_n"], list) else "log"] = e["_n"][1] if not isinstance(e["_n"], int) else sess[e["_n"]][1][:e["_i"] + 1]
        c.violation("parameters: %s" % " ".join((out[k:k + 600] if k >= 0 else out[-500:]).split()), rep)
