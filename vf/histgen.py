"""Generates histories of a burrow (for Session), within the bounds the specification gives a meaning to."""
import os
from . import common, store, tokens

CODECS = [("null", "null", "null"), ("post", "zlib", "zlib"), ("zlib", "zlib", "zlib"), ("post", "null", "zlib"),
          ("post", "zlib", "null")]


def mem_cfg(r, merge, tok=None, tokr=""):
    pc, fc, tc = r.choice(CODECS)
    mk = {"merge": merge, "pc": pc, "fc": fc, "tc": tc, "tokenizer": tok or r.choice(["ascii", "utf8"]),
          "tokenizer_recipe": tokr}
    return {"mk": mk, "disk": False}


def disk_cfg(r, d, merge, tok=None, chunk=65536, tokr=""):
    pc, fc, tc = r.choice(CODECS)
    tok = tok or r.choice(["ascii", "utf8"])
    recipe = ("idx:fvalue_compressor:%s idx:posting_compressor:%s txt:compressor:%s tokenizer:name:%s" %
              (fc, pc, tc, tok)) + (" tokenizer:" + tokr if tokr else "")
    return {"mk": {"dir": d, "recipe": recipe, "merge": merge}, "dir": d, "disk": True,
            "codec": {"pc": pc, "fc": fc, "tc": tc, "tokenizer": tok, "tokenizer_recipe": tokr}, "chunk": chunk, "recipe": recipe}


class Gen:
    """opts: steps, writers, readers, erase, abort, merge ('on','off','toggle'), reopen, hazel, long, big, hold"""

    def __init__(self, s, r, opts):
        self.s, self.r, self.o = s, r, dict(opts)
        if not s.cfg["disk"]:
            self.o["reopen"] = 0
        self.merge = opts.get("merge", "off")
        self.exclusive = None
        self.writers = ["w0"]
        self.readers = []
        self.held = {}
        self.nclone = 0
        # where the text is arbitrary, no annotated feature may be one of its words
        self.fs = ["=x", "=y", "=z", ":p:"] if s.text else ["x", "y", "z", ":p:"]
        self.more = ["=a", "=b"] if s.text else store.WORDS

    def refs(self, t, w):
        """A random interval the transaction may annotate: own tokens, committed ones, or from one to the other."""
        r, s = self.r, self.s
        known = sorted(s.known(), key=lambda k: k.base)
        c = []
        if t.n > 0:
            c += ["own"] * 5
        if known:
            c += ["other"] * 2
            c += ["across"]
        if known and t.n > 0:
            c += ["mixed"]
        if not c:
            return None
        k = r.choice(c)
        if k == "own":
            a = r.randint(0, t.n - 1)
            b = min(t.n - 1, a + r.choice([0, 0, 1, 1, 2, 3, 6, 40]))
            return (t, a), (t, b)
        if k == "other":
            u = r.choice(known)
            a = r.randint(0, u.n - 1)
            b = min(u.n - 1, a + r.choice([0, 0, 1, 1, 2, 3, 6]))
            return (u, a), (u, b)
        if k == "across":
            i = r.randint(0, len(known) - 1)
            j = min(len(known) - 1, i + r.choice([0, 1, 1, 2]))
            u, v = known[i], known[j]
            a, b = r.randint(0, u.n - 1), r.randint(0, v.n - 1)
            return (u, a), (v, b if i != j else max(a, b))
        u = known[-1] if r.random() < 0.7 else r.choice(known)
        return (u, r.randint(0, u.n - 1)), (t, r.randint(0, t.n - 1))

    def unlocated(self, t):
        return [u for u in self.s.txns.values() if u is not t and u.base is None and u.st in ("open", "ready")]

    def do_annotate(self, w):
        s, r = self.s, self.r
        t = s.curs[w]
        l = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            pq = self.refs(t, w)
            if pq is None:
                return
            f = r.choice(self.fs) if r.random() < 0.85 else r.choice(self.more)
            a = (f, pq[0], pq[1], r.randint(0, 9))
            if not s.ambiguous(extra_anns=[(x[0], x[1], x[2]) for x in l + [a]]):
                l.append(a)
                if r.random() < 0.15:  # again, with another value
                    l.append((f, pq[0], pq[1], r.randint(10, 19)))
        if r.random() < 0.1 and t.n > 1:  # reversed: ignored
            l.append((r.choice(self.fs), (t, t.n - 1), (t, 0), 3))
        if l:
            s.annotate(w, l)

    def do_big(self, w):
        s, r = self.s, self.r
        t = s.curs[w]
        if t.n < 4:
            return
        f = "big%d" % r.randint(0, 1)
        n = r.choice([60, 130, 260, 520])
        l = []
        for i in range(n):
            a = r.randint(0, t.n - 1)
            b = min(t.n - 1, a + r.choice([0, 0, 1, 2, 3]))
            l.append((f, (t, a), (t, b), r.randint(0, 3)))
        if not s.ambiguous(extra_anns=[x[:3] for x in l]):
            s.annotate(w, l)

    def do_erase(self, w):
        s, r = self.s, self.r
        t = s.curs[w]
        pq = self.refs(t, w)
        if pq is None:
            return
        p, q = pq
        if r.random() < 0.25:  # all of it
            p, q = (p[0], 0), (q[0], q[0].n - 1)
        if p[0] is not q[0]:
            if self.unlocated(t):
                return
            self_mixed = q[0] is t
            if self_mixed and self.exclusive not in (None, w):
                return
        if q[0] is not t and q[0].base is None:
            return
        if p[0] is t and q[1] - p[1] + 1 >= t.n and t.n > 0 and r.random() < 0.5:
            return
        # a marker must stay findable
        n = t.n
        own = [(a[1] if a[0] is t else -1, b[1]) for a, b in t.ers if b[0] is t]
        if q[0] is t:
            own.append((p[1] if p[0] is t else -1, q[1]))
        if n and all(any(a <= i <= b for a, b in own) for i in range(n)):
            return
        if s.ambiguous(extra_ers=[(p, q)]):
            return
        s.erase(w, p, q)
        if p[0] is not q[0] and q[0] is t:
            self.exclusive = w

    def piece(self):
        r = self.r
        if self.s.text:
            return tokens.piece(r, self.s.text, n=r.choice([400, 900]) if r.random() < self.o.get("long", 0) else None)
        if self.o.get("long") and r.random() < self.o["long"]:
            return store.rand_piece(r, n=r.choice([300, 511, 512, 513, 700, 1100]))
        return store.rand_piece(r)

    def mid(self, w):
        """One thing a writer does inside a transaction."""
        r, o = self.r, self.o
        x = r.random()
        t = self.s.curs[w]
        if x < 0.45:
            self.s.append(w, self.piece())
        elif x < 0.45 + o.get("erase", 0.1):
            self.do_erase(w)
        elif x < 0.45 + o.get("erase", 0.1) + o.get("big", 0.0):
            self.do_big(w)
        else:
            self.do_annotate(w)

    def release(self, w):
        if self.exclusive == w:
            self.exclusive = None

    def step(self):
        s, r, o = self.s, self.r, self.o
        acts = []
        for w in self.writers:
            t = s.curs.get(w)
            if t is None:
                if self.exclusive is None:
                    acts += [("begin", w)] * 4
            elif t.st == "open":
                acts += [("mid", w)] * 6 + [("ready", w)] * 3
                if r.random() < o.get("abort", 0.1):
                    acts += [("abort", w)] * 3
            else:
                acts += [("commit", w)] * 4
                if r.random() < o.get("abort", 0.1):
                    acts += [("abort", w)] * 3
        rd = [w for w in self.writers if s.curs.get(w) is not None and s.curs[w].st == "ready"]
        if len(rd) > 1 and o.get("commitall", True):
            acts += [("commitall", rd)] * 4
        if len(self.writers) < o.get("writers", 1):
            acts += [("writer", None)] * 2
        if len(self.readers) < o.get("readers", 2):
            acts += [("reader", None)] * 2
        for w in self.readers:
            if s.views.get(w):
                acts += [("obs", w)] * 3
                acts += [("end", w)] * (1 if r.random() < o.get("hold", 0.3) else 2)
                if len(self.readers) < o.get("readers", 2) + 1:
                    acts += [("rclone", w)]
            else:
                acts += [("start", w)] * 4
        if self.merge == "toggle":
            acts += [("merge", True), ("merge", False)]
        if self.merge != "off":
            acts += [("settle", None)]
        if o.get("reopen") and r.random() < o["reopen"]:
            acts += [("reopen", None)] * 4
        k, a = r.choice(acts)
        if k == "begin":
            s.begin(a)
        elif k == "mid":
            self.mid(a)
        elif k == "ready":
            s.ready(a)
        elif k == "commit":
            s.commit(a)
            self.release(a)
            if r.random() < o.get("look", 0.5):
                self.look()
        elif k == "abort":
            s.abort(a)
            self.release(a)
            if r.random() < 0.5:
                self.look()
        elif k == "commitall":
            n = r.randint(2, len(a))
            ws = r.sample(a, n)
            s.commitall(ws)
            for w in ws:
                self.release(w)
            self.look()
        elif k == "writer":
            self.nclone += 1
            w = "c%d" % self.nclone
            s.clone("w0", w)
            self.writers.append(w)
        elif k == "reader":
            self.nclone += 1
            w = "r%d" % self.nclone
            s.clone("w0", w)
            self.readers.append(w)
        elif k == "rclone":
            self.nclone += 1
            w = "r%d" % self.nclone
            s.clone(a, w)
            self.readers.append(w)
            if r.random() < 0.7:
                s.observe(w, nf=o.get("nf"))
        elif k == "start":
            s.start(a)
            if r.random() < 0.6:
                s.observe(a, nf=o.get("nf"))
        elif k == "end":
            s.end(a)
        elif k == "obs":
            s.observe(a, nf=o.get("nf"))
        elif k == "merge":
            s.merge(a)
        elif k == "settle":
            s.settle()
        elif k == "reopen":
            self.reopen()

    def reopen(self):
        s, r, o = self.s, self.r, self.o
        hz = bool(o.get("hazel")) and r.random() < o["hazel"]
        only = None
        if hz and r.random() < 0.4:
            only = sorted(r.sample(range(6), r.randint(0, 4)))
        m = {"on": True, "off": False, "toggle": r.random() < 0.5}[self.merge]
        s.reopen(hazel=hz, merge=m, only=only)
        self.writers, self.readers, self.exclusive = ["w0"], [], None
        if m:
            s.settle()
        self.look()

    def look(self):
        """A fresh view, everything in it."""
        s, r = self.s, self.r
        self.nclone += 1
        w = "v"
        s.clone("w0", w)
        s.ws.remove(w)
        s.start(w)
        s.observe(w, nf=self.o.get("nf"))
        s.end(w)

    def run(self):
        n = self.o.get("steps", 40)
        cut = sorted(self.r.randint(0, n) for _ in range(self.o.get("conc", 0)))
        for k in range(n):
            if k in cut:
                for w in list(self.writers):  # finish what is open: addresses must be known
                    t = self.s.curs.get(w)
                    if t is not None:
                        if t.st == "open":
                            self.s.ready(w)
                        self.s.commit(w)
                        self.release(w)
                concurrent(self, self.o.get("cw", 3), self.o.get("cr", 2), self.o.get("cper", 3))
                self.look()
            self.step()
        for w in list(self.writers):
            t = self.s.curs.get(w)
            if t is not None and t.st == "open" and self.r.random() < 0.7:
                self.s.ready(w)
            if t is not None and t.st == "ready":
                self.s.commit(w)
                self.release(w)
        self.look()
        for w in self.readers:
            if self.s.views.get(w):
                self.s.observe(w, nf=self.o.get("nf"))
        if self.o.get("reopen"):
            self.o = dict(self.o)
            self.reopen()
            if self.r.random() < 0.5:
                self.reopen()


def concurrent(g, nw, nr, per, held=True, groups=True):
    """Writers and readers at work at the same time, on clones of their own."""
    s, r = g.s, g.r
    writers, readers = [], []
    views = []
    if held:
        for i in range(2):
            g.nclone += 1
            w = "h%d" % g.nclone
            s.clone("w0", w)
            s.start(w)
            views.append(w)
    for i in range(nw):
        k = 2 if groups and r.random() < 0.4 and s.cfg["disk"] else 1
        ws = []
        for _ in range(k):
            g.nclone += 1
            w = "c%d" % g.nclone
            s.clone("w0", w)
            ws.append(w)
        prog = []
        for _ in range(per):
            plans = []
            for _ in ws:
                pieces = [store.rand_piece(r, n=r.choice([1, 2, 3, 5]))]
                for _ in range(r.choice([0, 0, 1, 2])):
                    pieces.append(store.rand_piece(r))
                n = sum(len(p[2]) for p in pieces)
                anns = []
                for _ in range(r.choice([0, 1, 2, 4])):
                    a = r.randint(0, n - 1)
                    anns.append((r.choice(["x", "y"]), a, min(n - 1, a + r.choice([0, 1, 2])), r.randint(0, 9)))
                ers = []
                if n > 1 and r.random() < 0.3:
                    a = r.randint(1, n - 1)
                    b = r.randint(a, n - 1)
                    # unambiguous: nothing that is kept may contain something erased
                    if not any(p < a and q >= a or q > b and p <= b for _, p, q, _ in anns):
                        ers.append((a, b))
                plans.append((pieces, anns, ers))
            prog.append((ws if len(ws) > 1 else ws, plans, r.choice(["commit"] * 5 + ["abort", "drop"])))
        writers.append(prog)
    for i in range(nr):
        g.nclone += 1
        w = "q%d" % g.nclone
        s.clone("w0", w)
        prog = []
        for k in range(per + 2):
            prog.append({"c": "start", "w": w})
            prog.append({"c": "obs", "w": w, "trs": [[0, 10 ** 6]] + s.ranges(2)})
            if r.random() < 0.5:
                prog.append({"c": "clone", "w": w, "as": w + "k"})
                prog.append({"c": "obs", "w": w + "k", "trs": [[0, 10 ** 6]]})
            prog.append({"c": "obs", "w": w, "trs": [[0, 10 ** 6]]})
            prog.append({"c": "end", "w": w})
            if r.random() < 0.3:
                prog.append({"c": "sleep", "us": r.choice([50, 300, 2000])})
        readers.append(prog)
    for w in views:
        readers.append([{"c": "obs", "w": w, "trs": [[0, 10 ** 6]], "fixed": True} for _ in range(per + 1)])
    bad = s.par(writers, readers)
    for w in views:
        s.observe(w)
        s.end(w)
    return bad


def histories(c, exe, plan, what, env=None, timeout=900, check=None):
    """plan: [(name, count, cfg maker(r, dir), opts)]; runs and validates them."""
    jobs = []
    for k, (name, count, mk, opts) in enumerate(plan):
        for n in range(count):
            jobs.append((name, 1000 * k + n, mk, opts))

    def one(j):
        name, n, mk, opts = j
        r = common.rng(c.pid, name, n)
        d = os.path.join(c.scratch, "%s-%d" % (name, n))
        cfg = mk(r, d)
        s = None
        try:
            s = store.Session(exe, r, cfg, env=env)
            s.text = cfg.get("text")
            if opts.get("perturb"):
                s.call({"c": "perturb", "n": opts["perturb"], "seed": n + 1})
            g = Gen(s, r, opts)
            g.run()
            s.close()
            return ("ok", name, s.evs, s.d.log)
        except common.DriverDied as e:
            return ("died", "%s-%d: the implementation %s" % (name, n, e), s.evs if s else [], s.d.log if s else [])
        finally:
            if s is not None:
                try:
                    s.d.p.kill()
                except OSError:
                    pass
            common.rm(d)
    res = common.par_map(one, jobs)
    for x in res:
        if x[0] == "died":
            c.violation("%s: %s at command %d: %s" % (what, x[1], len(x[3]) - 1, str(x[3][-1:])[:400]),
                        {"events": x[2][-5:], "cmds": x[3]})
    sess = [(x[2], x[3]) for x in res if x[0] == "ok"]
    for x in res:
        if x[0] == "ok":
            c.add("histories_" + x[1])
    if sess:
        c.sample({"form": res[0][1], "events": [{k: v for k, v in e.items()} for e in sess[0][0][:6]]}, limit=1)
    store.validate(c, sess, what, timeout=timeout, check=check)
    return res
