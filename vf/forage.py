"""Term statistics foraged and reported by the real code, against spec/Forage.tla."""
import math
from . import build, common, meadow, store, tokens

INF = 10 ** 9
VOCAB = ["run", "runs", "running", "Runner", "dog", "Dogs", "DOG", "dog's", "cat", "cats", "the", "The", "of", "organization",
         "organizing", "relational", "x1", "2024", "3.5", "hopping", "hop", "a", "I", "state-of-the-art", "naïve", "日本", "Über",
         "e-mail", "items", "length", "tf", "df", "total", "under_score", "C++", "&amp;", "<b>", "\\n", "\"", "sky", "skies", "dying"]
GCLS = [":text:", ":text:", ":title:", ":", "(+ :text: :title:)", "(>> : \"dog\")", "(<< :text: (>> : \"run\"))", "\"the\"", "(... \"the\" \"dog\")",
        ":0:", ":1:", "(+ :0: :1:)", ":tags:[0]:", "(!> :text: \"cat\")", "(^ \"dog\" \"cat\")"]
TAGS = ["", "a", "b:c", "tf", "Tag two", "q\"uote", "é", "total", "a:"]
STEMMERS = [None, None, "porter", "null", ""]
TOKENIZERS = [None, None, "ascii", "utf8"]


class Tag:
    def __init__(self, r, tag, gcl=None):
        self.tag, self.gcl = tag, gcl or r.choice(GCLS)
        s, t = r.choice(STEMMERS), r.choice(TOKENIZERS)
        self.ps = {}
        if s is not None:
            self.ps["stemmer"] = s
        if t is not None:
            self.ps["tokenizer"] = t
        self.stem, self.tok = {None: "porter", "": "null"}.get(s, s), t or "ascii"
        self.cont, self.id = ":", ":0:"
        if r.random() < 0.3:
            self.cont = self.ps["container"] = r.choice([":", ":text:", "(+ :text: :title:)", "::"])
        if r.random() < 0.3:
            self.id = self.ps["id"] = r.choice([":id:", ":n:", ":0:"])
        self.done = set()
        self.label = False


class Foraging(meadow.Meadow):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.text, self.texts, self.tags = {}, [], {}
        self.evs = [{"k": "new", "_i": -1}]
        self.n = 0
        self.words = {}

    def tag(self, gcl=None):
        r = self.r
        t = r.choice(TAGS)
        if t not in self.tags:
            self.tags[t] = Tag(r, t, gcl)
        return self.tags[t]

    # content
    def grow(self, n=None):
        r = self.r
        n = n or r.choice([1, 2, 3, 8])
        self.n += 1
        say = lambda k: " ".join(r.choice(VOCAB[:r.choice([4, 12, len(VOCAB)])]) for _ in range(k)) + r.choice(["", ".", "!\n", " "])
        import json
        if r.random() < 0.25:
            name, op = b"f%d.tsv" % self.n, "tsv"
            b = "".join("d%d\t%s\t%s\n" % (k, say(r.choice([0, 1, 3])).strip(), say(r.choice([1, 5, 20])).strip()) for k in range(n)).encode()
        else:
            name, op = b"f%d.jsonl" % self.n, "jsonl"
            l = []
            for k in range(n):
                o = {"id": "d%d.%d" % (self.n, k), "n": k, "text": say(r.choice([0, 1, 2, 5, 12, 40]))}
                if r.random() < 0.5:
                    o["title"] = say(r.choice([0, 1, 4]))
                if r.random() < 0.2:
                    o["tags"] = [say(1), r.choice(VOCAB)]
                l.append(json.dumps(o, ensure_ascii=r.random() < 0.5).encode())
                if r.random() < 0.1:
                    l.append(self.files.document(False))
            b = b"".join(x + b"\n" for x in l)
        with open(self.files.where(name), "wb") as f:
            f.write(b)
        self.same({"c": "meadow", "op": op, "w": "w0", "file": list(name), "threads": r.choice([0, 1, 2, 3])})

    def items(self, gcl):
        """What there is to forage, with its text."""
        self.d.call({"c": "start", "w": "w0"})
        l = [tuple(x[:2]) for x in self.d.call({"c": "hop", "w": "w0", "gcl": gcl, "walk": True})["walk"]]
        new = [x for x in l if x not in self.text]
        if new:
            for x, t in zip(new, self.d.call({"c": "obs", "w": "w0", "tr": new}, timeout=600)["tr"]):
                t = tuple(t)
                if t not in self.words:
                    self.words[t] = len(self.texts) + 1
                    self.texts.append(t)
                self.text[x] = self.words[t]
        self.d.call({"c": "end", "w": "w0"})
        return l

    def part(self, t):
        """Items to come that no foraging has counted yet, in a row: (all, first, last) or None."""
        l = self.items(t.gcl)
        free = [k for k, x in enumerate(l) if x not in t.done]
        if not free:
            return l, None, None
        a = self.r.choice(free) if self.r.random() < 0.7 else free[0]
        b = a
        most = self.r.choice([0, 1, 2, 5, len(l), len(l)])
        while b + 1 < len(l) and l[b + 1] not in t.done and b - a < most:
            b += 1
        return l, a, b

    def did(self, t, items, label, ok, must=True, i=None):
        self.evs.append({"k": "forage", "tag": list(t.tag.encode()), "items": [[x[0], x[1], self.text[x]] for x in items],
                         "label": label, "must": must, "ok": ok, "_i": len(self.d.log) - 1 if i is None else i})
        if ok:
            t.done |= set(items)
            t.label |= label

    def forage(self, t=None):
        r = self.r
        t = t or self.tag()
        w = "w0"
        l, a, b = self.part(t)
        cmd = {"c": "meadow", "op": "forage", "w": w, "name": r.choice(["tf-idf", "tf-idf", ""]), "tag": t.tag, "ps": t.ps,
               "threads": r.choice([0, 1, 1, 2, 5])}
        if a is None:  # nothing to count
            o = self.d.call(dict(cmd, gcl=t.gcl, **{"from": l[-1][1] + 1} if l else {}))
            return self.did(t, [], False, bool(o["ok"]))
        items = l[a:b + 1]
        if r.random() < 0.25:
            o = self.d.call(dict(cmd, l=items, ps=dict(t.ps, gcl=t.gcl)))
        else:
            cmd["gcl"] = t.gcl
            if a > 0 or r.random() < 0.3:
                cmd["from"] = r.randint(l[a - 1][0] + 1, l[a][0]) if a > 0 else r.randint(0, l[a][0])
            if b + 1 < len(l) or r.random() < 0.3:
                cmd["to"] = r.randint(l[b][1], l[b + 1][1] - 1) if b + 1 < len(l) else l[b][1] + r.randint(0, 5)
            o = self.d.call(cmd)
        self.did(t, items, True, bool(o["ok"]))

    def refused(self):
        r = self.r
        t = self.tag()
        cmd = {"c": "meadow", "op": "forage", "w": "w0", "name": "tf-idf", "tag": t.tag, "gcl": t.gcl, "ps": dict(t.ps)}
        l, a, b = self.part(t)
        x = r.random()
        if x < 0.25:
            cmd["gcl"] = r.choice(["(<<", "(+ :text:", ")"])
        elif x < 0.5:
            cmd["name"] = "zipf"
        elif x < 0.75:
            cmd["ps"]["stemmer"] = "snowball"
        else:
            cmd["ps"]["tokenizer"] = "words"
        if x >= 0.25 and not l:
            return
        o = self.d.call(cmd)
        self.did(t, [], False, bool(o["ok"]), must=False)

    def direct(self):
        """Foragers used by hand, on clones, at the same time; several transactions each."""
        r = self.r
        self.grow()
        todo = {}
        fs = []
        for k in range(r.choice([1, 1, 2, 3])):
            t = self.tag()
            fs.append({"f": "f%d" % k, "w": "c%d" % k, "t": t, "in": False, "mine": [], "label": False, "left": r.randint(1, 3)})
            todo[t.tag] = [x for x in self.items(t.gcl) if x not in t.done]
        call = lambda f, op, **kw: self.d.call(dict({"c": "forager", "op": op, "f": f["f"], "w": f["w"]}, **kw))
        for f in fs:
            self.d.call({"c": "clone", "w": "w0", "as": f["w"]})
            self.d.call({"c": "start", "w": f["w"]})
            self.same_(call(f, "make", name=r.choice(["", "tf-idf"]), tag=f["t"].tag, ps=dict(f["t"].ps, gcl=f["t"].gcl)))
        while fs:
            f = r.choice(fs)
            t = f["t"]
            free = todo[t.tag]
            if not f["in"]:
                if f["left"] == 0:
                    fs.remove(f)
                    call(f, "drop")
                    self.d.call({"c": "end", "w": f["w"]})
                    self.d.call({"c": "drop", "w": f["w"]})
                    continue
                f.update({"in": True, "mine": [], "label": False, "left": f["left"] - 1})
                self.same_(call(f, "txn"))
                if not t.label and r.random() < 0.7 or r.random() < 0.15:
                    f["label"] = True
                    self.same_(call(f, "label"))
            elif free and r.random() < 0.6:
                k = r.randrange(len(free))
                x = r.random()
                if x < 0.5:
                    y = [free[k]]
                    self.same_(call(f, "one", p=y[0][0], q=y[0][1]))
                elif x < 0.8:
                    y = free[k:k + r.randint(0, 4)]
                    self.same_(call(f, "list", l=free, start=k, n=len(y)))
                else:
                    l = self.items(t.gcl)
                    a = l.index(free[k])
                    b = a
                    while b + 1 < len(l) and l[b + 1] in free and r.random() < 0.7:
                        b += 1
                    y = l[a:b + 1]
                    self.same_(call(f, "hop", gcl=t.gcl, **{"from": y[0][0], "to": y[-1][1]}))
                f["mine"] += y
                todo[t.tag] = [z for z in free if z not in y]
            elif r.random() < 0.25:
                if r.random() < 0.5:
                    self.same_(call(f, "ready"))
                call(f, "abort")
                f["in"] = False
                todo[t.tag] += f["mine"]
                todo[t.tag].sort()
            else:
                self.same_(call(f, "ready"))
                o = call(f, "commit")
                f["in"] = False
                self.did(t, f["mine"], f["label"], bool(o["ok"]))
        if r.random() < 0.5:
            self.stats()

    def same_(self, o):
        self.evs.append({"k": "same", "ok": bool(o["ok"]), "_i": len(self.d.log) - 1})

    def vocabulary(self, t):
        """Terms in what was counted, by the code's own cutting; the specification cuts again."""
        ws = {}
        for x in t.done:
            ws[self.text[x]] = None
        o = self.d.call({"c": "tok", "tok": t.tok, "tokr": "noxml" if t.tok == "ascii" else "", "l": [list(self.texts[k - 1]) for k in ws]})
        return sorted(set(tuple(w) for x in o["all"] for w in x[1]))

    def stems(self, name, ws):
        if name == "null":
            return {w: w for w in ws}
        return {w: tuple(s) for w, s in zip(ws, self.d.call({"c": "stem", "stemmer": name, "l": [list(w) for w in ws]})["l"])}

    def stats(self, t=None, many=6, w="w0"):
        r = self.r
        t = t or (r.choice(list(self.tags.values())) if self.tags else self.tag())
        ws = self.vocabulary(t)
        st = self.stems(t.stem, ws)
        terms = sorted(set(st.values()))
        terms = r.sample(terms, min(many, len(terms))) + [r.choice([b"run", b"porter:zebra", b"", b"zebra", b"porter:run", b"Dog"])]
        l = sorted(t.done)
        ks = [-INF, INF] + [x[k] + d for x in l for k in (0, 1) for d in (-1, 0, 1)] if l else [0, 5]
        big = len(l) > 1000
        if big:
            ks = r.sample(ks, 200)
        ask = [[list(x), [[r.choice("truo"), r.choice(ks)] for _ in range(12)]] for x in terms]
        cmd = {"c": "stats", "w": w, "terms": ask}
        if t.tag or r.random() < 0.7:
            cmd.update(name=r.choice(["tf-idf", "tf-idf", ""]) if not t.tag else "tf-idf", tag=t.tag)
        self.d.call({"c": "start", "w": w})
        o = self.d.call(cmd, timeout=600)
        i = len(self.d.log) - 1
        lists = [[x[:2] for x in self.d.call({"c": "hop", "w": w, "gcl": g, "walk": True}, timeout=600)["walk"]] for g in (t.cont, t.id)]
        self.d.call({"c": "end", "w": w})
        S = 1000000 if len(l) < 900 else 10000
        ex = lambda v: min(2 * 10 ** 9, int(round(math.exp(v) * S))) if v < 100 else 2 * 10 ** 9
        ev = {"k": "stats", "tag": list(t.tag.encode()), "ok": bool(o["ok"]), "s": S, "terms": [], "_i": i}
        if o["ok"]:
            n = max(1, len(l))
            s = S
            while sum(x[1] - x[0] + 1 for x in l) * s >= 2 ** 31:
                s //= 10
            ev["s"] = S = s
            big = len(o["conts"]) > 3000
            if big and o["conts"] == lists[0] and o["ids"] == lists[1]:
                o["conts"] = o["ids"] = []
                lists = [[], []]
            ev.update(avgl=int(round(o["avgl"] * s)), conts=o["conts"], wconts=lists[0], ids=o["ids"], wids=lists[1])
            for x, y in zip(ask, o["terms"]):
                ev["terms"].append({"t": x[0], "calls": x[1], "r": y["r"], "walk": y["walk"], "back": y["back"],
                                    "idf": ex(y["idf"]), "rsj": ex(y["rsj"])})
        self.evs.append(ev)

    def erase(self):
        """What nothing has counted goes."""
        r = self.r
        held = [x for t in self.tags.values() for x in t.done]
        self.d.call({"c": "start", "w": "w0"})
        docs = [x[:2] for x in self.d.call({"c": "hop", "w": "w0", "gcl": "(+ : @)", "walk": True})["walk"]]
        lab = [x[:2] for x in self.d.call({"c": "hop", "w": "w0", "gcl": "@", "walk": True})["walk"]]
        self.d.call({"c": "end", "w": "w0"})
        ok = [x for x in docs if x not in lab and not any(x[0] <= y[1] and y[0] <= x[1] for y in held)]
        if not ok:
            return
        x = r.choice(ok)
        for c in ({"c": "start"}, {"c": "txn"}, {"c": "erase", "p": x[0], "q": x[1]}, {"c": "ready"}, {"c": "commit"}, {"c": "end"}):
            self.d.call(dict(c, w="w0"))

    def step(self, merge):
        r = self.r
        x = r.random()
        if x < 0.3:
            self.forage()
        elif x < 0.4:
            self.direct()
        elif x < 0.55:
            self.grow()
        elif x < 0.6:
            self.refused()
        elif x < 0.8:
            if r.random() < 0.3:
                self.d.call({"c": "clone", "w": "w0", "as": "v"})
                self.stats(w="v")
                self.d.call({"c": "drop", "w": "v"})
            else:
                self.stats()
        elif x < 0.84:
            self.erase()
        elif x < 0.9:
            self.reopen()
        elif x < 0.94:
            self.told()
        elif merge:
            self.same({"c": "merge", "w": "w0", "on": r.random() < 0.7})
        else:
            self.same({"c": "settle"})

    def told(self):
        r = self.r
        s = lambda: [r.choice([0, 1, 8, 9, 10, 12, 13, 31, 32, 34, 47, 92, 97, 110, 117, 123, 125, 127]) if r.random() < 0.8 else
                     r.randrange(128) for _ in range(r.choice([0, 1, 2, 5]))]
        u = lambda: s() + list(r.choice(["", "é", "日本", "😀", "\u2028"]).encode()) + s()
        ps = {tuple(u()): u() for _ in range(r.randint(0, 4))}
        said = [u(), u(), [[list(k), v] for k, v in sorted(ps.items())]]
        o = self.d.call({"c": "f2j", "name": said[0], "tag": said[1], "ps": said[2]})
        self.evs.append({"k": "told", "ok": bool(o["ok"]), "valid": o["valid"], "said": said, "back": [o["name"], o["tag"], o["ps"]],
                         "_i": len(self.d.log) - 1})

    def finish(self):
        """What the history's texts and tags are."""
        ws = set()
        for t in self.tags.values():
            if t.stem == "porter":
                ws |= set(self.vocabulary(t))
        ws = sorted(ws)
        self.evs[0].update(texts=[list(t) for t in self.texts],
                           stems=[[list(w), list(s)] for w, s in self.stems("porter", ws).items()],
                           tags=[{"tag": list(t.tag.encode()), "tok": t.tok, "stem": t.stem} for t in self.tags.values()])


def histories(c, exe, plan, what):
    jobs = [(k, n, kw) for k, (count, kw) in enumerate(plan) for n in range(count)]

    def one(j):
        k, n, kw = j
        r = common.rng(c.pid, k, n)
        d = "%s/m-%d-%d" % (c.scratch, k, n)
        m = Foraging(exe, r, d, meadow.Files(r, d + ".files"), merge=kw["merge"])
        try:
            if kw.get("perturb"):
                m.d.call({"c": "perturb", "n": 30, "seed": n + 1})
            m.grow()
            for _ in range(kw["steps"]):
                m.step(kw["merge"])
            m.reopen()
            for t in list(m.tags.values()):
                m.stats(t)
            m.finish()
            m.d.close()
            return m.evs, m.d.log, None
        except common.DriverDied as e:
            return m.evs, m.d.log, str(e)
        finally:
            m.d.p.kill()
            common.rm(d)
            common.rm(d + ".files")

    done(c, common.par_map(one, jobs), what)


def many(c, exe, n, seed):
    """Items enough for them to be shared between threads."""
    r = common.rng(c.pid, "many", seed)
    n += r.randrange(1000)      # not divisible by the number of threads, as a rule
    d = "%s/many-%d" % (c.scratch, seed)
    f = meadow.Files(r, d + ".files")
    m = Foraging(exe, r, d, f, merge=[False, True, None][seed % 3])
    try:
        m.d.call({"c": "perturb", "n": 10, "seed": seed + 1})
        kinds = [" ".join(r.choice(VOCAB[:12]) for _ in range(r.randint(1, 3))) for _ in range(6)] + ["zebra one", "zebra"]
        rare = set(r.sample(range(n), 3)) | {0, n - 1}
        with open(f.where(b"many.tsv"), "wb") as o:
            for j in range(n):
                o.write(("k\t" + (kinds[-1 - j % 2] if j in rare else kinds[j * 7 % 5 if j < n // 2 else j % 6]) + "\n").encode())
        m.same({"c": "meadow", "op": "tsv", "w": "w0", "file": "many.tsv", "threads": 4})
        t = m.tags[""] = Tag(r, "", ":1:")
        t.ps.pop("container", None)
        t.ps.pop("id", None)
        t.cont, t.id = ":", ":0:"
        cut = r.choice([0, 100, 3000])
        l = m.items(":1:")
        for part in ([l[:cut], l[cut:]] if r.random() < 0.5 else [l[cut:], l[:cut]]):
            if part:
                o = m.d.call({"c": "meadow", "op": "forage", "w": "w0", "gcl": ":1:", "name": "tf-idf", "tag": "", "ps": t.ps,
                              "threads": r.choice([2, 3, 5, 8, 0]), "from": part[0][0], "to": part[-1][1]}, timeout=600)
                m.did(t, part, True, bool(o["ok"]))
        m.stats(t, many=10)
        m.reopen()
        m.stats(t, many=2)
        m.finish()
        m.d.close()
        return m.evs, m.d.log, None
    except common.DriverDied as e:
        return m.evs, m.d.log, str(e)
    finally:
        m.d.p.kill()
        common.rm(d)
        common.rm(d + ".files")


def done(c, res, what, module="ForageTrace"):
    for evs, log, died in res:
        if died:
            c.violation("%s: the implementation %s at %s" % (what, died, str(log[-1])[:400]), {"events": evs, "cmds": log})
    store.validate(c, [(e, l) for e, l, died in res if not died], what,
                   check=lambda g, timeout: check(g, timeout, module))


def check(groups, timeout=900, module="ForageTrace"):
    cps = set(range(128))
    for g in groups:
        for e in g:
            for t in e.get("texts", []):
                cps.update(tokens.codepoints(t))
    return tokens.check_trace(module, groups, timeout=timeout, cps=cps)
