"""Ranking statistics annotated over a collection and reported by the real code, against spec/Annotated.tla."""
import json, math
from . import build, common, forage, store, tokens
from .forage import INF, VOCAB, STEMMERS

KINDS = ["idf", "idf", "df", "df", "field", "tf"]
FORMS = ["mem", "disk", "disk", "json", "json-txt", "static", "static"]


class History:
    def __init__(self, exe, r, d, form, kind):
        self.r, self.dir, self.form, self.kind = r, d, form, kind
        self.d = common.Driver(exe)
        self.tok = "utf8" if form.startswith("json") else r.choice(["ascii", "utf8"])
        self.stem = r.choice(["porter", "null"])
        self.text, self.texts, self.words = {}, [], {}
        self.flags = {"unst": r.random() < 0.5, "idf": True, "rsj": True}
        if kind == "idf" and r.random() < 0.5:
            self.flags[r.choice(["idf", "rsj"])] = False
        self.evs = [{"k": "new", "_i": -1}]
        self.fields, self.weights = [], []
        self.held = []
        if form.startswith("json"):
            self.item = r.choice([":", ":", "(>> : :title:)", ":text:"])
            self.parts = [":title:", ":text:", ":tags:"]
        else:
            self.item = r.choice(["doc", "doc", "(>> doc title)", "body", "(... \"run\" \"dog\")", "(+ doc extra)"])
            self.parts = ["title", "body", "extra", "\"dog\""]
        self.id = r.choice(["", "title", ":id:"])
        self.make()

    def call(self, cmd, **kw):
        return self.d.call(cmd, **kw)

    def same(self, cmd):
        self.evs.append({"k": "same", "ok": bool(self.call(cmd)["ok"]), "_i": len(self.d.log) - 1})

    def say(self, k):
        r = self.r
        return " ".join(r.choice(VOCAB[:r.choice([2, 4, 12, 30])]) for _ in range(k)) + r.choice(["", ".", "!\n", " "])

    def document(self):
        r = self.r
        n = r.choice([1, 1, 2, 5, 12, 40])
        return {"title": self.say(r.choice([1, 1, 3])) if r.random() < 0.7 else None, "text": self.say(n),
                "tags": self.say(1) if r.random() < 0.3 else None}

    def make(self):
        r = self.r
        tokr = {"ascii": "noxml", "utf8": ""}[self.tok]
        w = {"c": "mk", "w": "w0", "merge": r.random() < 0.5}
        if self.form == "mem":
            self.call(dict(w, tokenizer=self.tok, tokenizer_recipe=tokr))
        elif self.form != "static":
            rec = "tokenizer:name:%s" % self.tok + (" tokenizer:" + tokr if tokr else "")
            if self.form.startswith("json"):
                rec += " featurizer@json" + (" txt:json:yes" if self.form == "json-txt" else "")
            self.call(dict(w, dir=self.dir, recipe=rec))
        else:
            self.static()
            self.call({"c": "open", "w": "w0", "dir": self.dir})
        self.same({"c": "setstem", "w": "w0", "v": self.stem})
        p = lambda k, v: self.same({"c": "setp", "w": "w0", "k": list(k.encode()), "v": list(v.encode())})
        if self.kind in ("idf", "tf"):
            self.same({"c": "setcont", "w": "w0", "v": list(self.item.encode())})
            self.cont = self.item
        else:
            x = r.random()
            if x < 0.4:
                self.same({"c": "setcont", "w": "w0", "v": list(self.item.encode())})
                self.cont = self.item
            else:
                self.cont = r.choice([self.item, ":" if self.form.startswith("json") else "doc"])
                if r.random() < 0.5:
                    self.same({"c": "setcont", "w": "w0", "v": list(self.cont.encode())})
                else:
                    p("container", self.cont)
                p("content", self.item)
        if self.id:
            p("id", self.id)
        if self.kind == "field":
            self.fields = r.sample(self.parts, r.randint(1, len(self.parts)))
            p("fields", "\t".join(self.fields))
            self.weigh()

    def weigh(self):
        r = self.r
        n = len(self.fields)
        x = r.random()
        ws = [r.choice([0, 1, 1, 2, 3, 10]) for _ in range(n)]
        if x < 0.3:
            ws = []
        elif x < 0.4:
            ws = ws + [1]
        said = [str(w) + r.choice(["", ".0", "e0"]) for w in ws]
        if ws and x > 0.85:
            k = r.randrange(len(ws))
            ws[k] = -1
            said[k] = r.choice(["-1", "x", "-0.5", "1e99"])
        self.weights = ws
        self.same({"c": "setp", "w": "w0", "k": list(b"weights"), "v": list("\t".join(said).encode())})

    # content
    def document_pieces(self, b):
        """[(text, None) ...] with annotations [(feature, first piece, last piece)]."""
        ps, an = [], []
        for k in ("title", "text", "tags"):
            if b[k] is not None:
                ps.append(b[k])
                an.append(({"text": "body", "tags": "extra"}.get(k, k), len(ps) - 1, len(ps) - 1))
        an.append(("doc", 0, len(ps) - 1))
        return ps, an

    def grow(self, n=None):
        r = self.r
        n = n or r.choice([1, 2, 3, 8])
        self.call({"c": "start", "w": "w0"})
        self.same({"c": "txn", "w": "w0"})
        ids = 0
        lost = r.random() < 0.25
        for _ in range(n):
            b = self.document()
            if self.form.startswith("json"):
                self.same({"c": "json", "w": "w0", "t": list(json.dumps({k: [v] if k == "tags" else v for k, v in b.items() if v is not None},
                                                                     ensure_ascii=False).encode())})
                continue
            ps, an = self.document_pieces(b)
            if r.random() < 0.2:    # something between the documents
                self.same({"c": "append", "w": "w0", "t": list(self.say(2).encode())})
            at = []
            for t in ps:
                ids += 1
                at.append("%d.%d" % (len(self.d.log), ids))
                self.same({"c": "append", "w": "w0", "t": list(t.encode()), "id": at[-1]})
            for f, a, z in an:
                self.same({"c": "ann", "w": "w0", "f": f, "p": {"r": at[a], "from": "p"}, "q": {"r": at[z], "from": "q"}, "v": 0})
        if lost:    # addresses nobody has
            if r.random() < 0.7:
                self.same({"c": "ready", "w": "w0"})
            self.call({"c": "abort", "w": "w0"})
        else:
            self.same({"c": "ready", "w": "w0"})
            self.call({"c": "commit", "w": "w0"})
        self.call({"c": "end", "w": "w0"})

    def static(self):
        r = self.r
        ops, at = [], 0
        for _ in range(r.choice([1, 2, 5, 20, 60])):
            ps, an = self.document_pieces(self.document())
            spans = []
            for t in ps:
                n = self.count(t)
                ops.append(["text", list(t.encode())])
                spans.append((at, at + n - 1))
                at += n
            for f, a, z in an:
                if spans[a][0] <= spans[z][1]:
                    ops.append(["ann", f, spans[a][0], spans[z][1], 0])
        cmd = {"c": "sbuild", "dir": self.dir, "ops": ops, "tokenizer": self.tok, "featurizer": "hashing",
               "tokenizer_recipe": {"ascii": "noxml", "utf8": ""}[self.tok], "tok_file": r.choice([3, 100]), "ann_file": r.choice([2, 100])}
        self.same(cmd)

    def count(self, t):
        o = self.call({"c": "tok", "tok": self.tok, "tokr": {"ascii": "noxml", "utf8": ""}[self.tok], "l": [list(t.encode())]})
        return len(o["all"][0][1])

    def known(self, l):
        new = [x for x in l if x not in self.text]
        if new:
            for x, t in zip(new, self.call({"c": "obs", "w": "w0", "tr": new}, timeout=600)["tr"]):
                t = tuple(t)
                if t not in self.words:
                    self.words[t] = len(self.texts) + 1
                    self.texts.append(t)
                self.text[x] = self.words[t]
        return [[x[0], x[1], self.text[x]] for x in l]

    def walk(self, gcl, w="w0"):
        if gcl == "":
            return []
        return [tuple(x[:2]) for x in self.call({"c": "hop", "w": w, "gcl": gcl, "walk": True})["walk"]]

    def annotate(self):
        r = self.r
        self.call({"c": "start", "w": "w0"})
        l = self.walk(self.item)
        fs = [self.known(self.walk(f)) for f in self.fields]
        cmd = {"c": "tfann", "w": "w0", "kind": self.kind}
        cmd.update(self.flags)
        if self.kind == "idf" and not l:
            self.call({"c": "end", "w": "w0"})
            return
        if self.kind == "tf":
            l = [x for x in l if x not in self.held]
            if not self.held and r.random() < 0.4:
                pass
            elif l:
                a = r.choice([0, 0, r.randrange(len(l))])
                b = r.randrange(a, len(l))
                allof = self.walk(self.item)
                # items that were counted may not lie between
                while b > a and allof.index(l[b]) - allof.index(l[a]) != b - a:
                    b -= 1
                nx = allof.index(l[b]) + 1
                cmd.update({"from": l[a][0], "to": l[b][1] if nx == len(allof) else r.randint(l[b][1], allof[nx][1] - 1)})
                l = l[a:b + 1]
            else:
                self.call({"c": "end", "w": "w0"})
                return
        o = self.call(cmd)
        e = {"k": "ann", "ok": bool(o["ok"]), "good": not (self.kind == "idf" and self.form == "mem"),
             "items": self.known(l), "fields": fs, "_i": len(self.d.log) - 1}
        self.call({"c": "end", "w": "w0"})
        if e["ok"]:
            self.held = self.held + l
        self.evs.append(e)
        if self.form == "static":
            self.reopen()

    def reopen(self):
        if self.form == "mem":
            return
        self.call({"c": "drop", "w": "w0"})
        self.call({"c": "open", "w": "w0", "dir": self.dir})

    def vocabulary(self):
        if not self.texts:
            return []
        o = self.call({"c": "tok", "tok": self.tok, "tokr": "noxml" if self.tok == "ascii" else "", "l": [list(t) for t in self.texts]})
        return sorted(set(tuple(w) for x in o["all"] for w in x[1]))

    def stems(self, ws):
        if self.stem == "null":
            return {w: w for w in ws}
        return {w: tuple(s) for w, s in zip(ws, self.call({"c": "stem", "stemmer": self.stem, "l": [list(w) for w in ws]})["l"])}

    def stats(self, many=6, w="w0"):
        r = self.r
        ws = self.vocabulary()
        terms = sorted(set(self.stems(ws).values()) | (set(ws) if r.random() < 0.5 else set()))
        terms = r.sample(terms, min(many, len(terms))) + [r.choice([b"run", b"porter:zebra", b"", b"zebra", b"porter:run", b"Dog", b"items"])]
        self.call({"c": "start", "w": w})
        l = self.walk(self.item, w)
        ks = [-INF, INF] + [x[k] + d for x in l for k in (0, 1) for d in (-1, 0, 1)] + [0, 5]
        ask = [[list(x), [[r.choice("truo"), r.choice(ks)] for _ in range(12)]] for x in terms]
        o = self.call({"c": "stats", "w": w, "terms": ask}, timeout=600)
        i = len(self.d.log) - 1
        lists = [[x[:2] for x in self.call({"c": "hop", "w": w, "gcl": g, "walk": True})["walk"]] if g else [] for g in (self.cont, self.id)]
        self.call({"c": "end", "w": w})
        S = 1000000 if len(l) < 900 else 10000
        tot = sum(x[1] - x[0] + 1 for x in l) * max(1, len(self.fields))
        while tot * S >= 2 ** 31:
            S //= 10
        ev = {"k": "stats", "ok": bool(o["ok"]), "s": S, "terms": [], "weights": self.weights, "_i": i}
        if o["ok"]:
            ex = lambda v: -1 if v is None else min(2 * 10 ** 9, int(round(math.exp(v) * S))) if v < 100 else 2 * 10 ** 9
            ev.update(avgl=-1 if o["avgl"] is None else int(round(o["avgl"] * S)), conts=o["conts"], wconts=lists[0], ids=o["ids"], wids=lists[1], have=o["have"])
            for x, y in zip(ask, o["terms"]):
                ev["terms"].append({"t": x[0], "calls": x[1], "r": y["r"], "walk": y["walk"], "back": y["back"],
                                    "idf": ex(y["idf"]), "rsj": ex(y["rsj"])})
        self.evs.append(ev)

    def run(self, steps):
        r = self.r
        static = self.form == "static"
        if r.random() < 0.1:
            self.stats()
        if not static:
            self.grow()
        for _ in range(steps):
            x = r.random()
            if x < 0.3 and not static:
                self.grow()
            elif x < 0.55:
                self.annotate()
            elif x < 0.65:
                self.reopen()
            elif x < 0.75 and self.kind == "field":
                self.weigh()
            elif not static and x < 0.85:
                self.call({"c": "clone", "w": "w0", "as": "v"})
                self.stats(w="v")
                self.call({"c": "drop", "w": "v"})
            else:
                self.stats()
        self.annotate()
        self.stats()
        if not static and r.random() < 0.5:     # enough for the lists to be long
            self.grow(n=r.choice([20, 40]))
            self.annotate()
            self.stats()
        self.reopen()
        self.stats()
        st = self.stems(self.vocabulary())
        self.evs[0].update(texts=[list(t) for t in self.texts], stems=[[list(w), list(s)] for w, s in st.items()], kind=self.kind, tok=self.tok,
                           stem=self.stem, parts=len(self.fields), **self.flags)


def histories(c, exe, count, steps, what):
    def one(n):
        r = common.rng(c.pid, n)
        d = "%s/a-%d" % (c.scratch, n)
        h = History(exe, r, d, FORMS[n % len(FORMS)], r.choice(KINDS) if n >= 42 else KINDS[n // len(FORMS) % len(KINDS)])
        try:
            h.run(steps)
            h.d.close()
            return h.evs, h.d.log, None
        except common.DriverDied as e:
            return h.evs, h.d.log, "%s (%s, %s)" % (e, h.form, h.kind)
        finally:
            h.d.p.kill()
            common.rm(d)

    forage.done(c, common.par_map(one, range(count)), what, "AnnotatedTrace")
