"""Histories of a static burrow against spec/Static.tla, undisturbed and with crashes."""
import os, json, re
from . import common, store, tlc, crash, build, tokens

TOKS = ["ascii", "utf8"]
CODECS = [("post", "zlib", "zlib"), ("null", "null", "null"), ("zlib", "zlib", "null"), ("post", "null", "zlib")]


class Static:
    def __init__(self, exe, r, d, cfg=None, env=None, preload=None, make=True, big=False, text=None):
        self.r, self.dir, self.big, self.text = r, d, big, text
        pc, fc, tc = r.choice(CODECS)
        self.cfg = cfg or {"pc": pc, "fc": fc, "tc": tc, "tokenizer": r.choice(TOKS), "small": r.random() < 0.7,
                           "tokenizer_recipe": ""}
        if text and not cfg:
            self.cfg["tokenizer"], self.cfg["tokenizer_recipe"] = tokens.KINDS[text]
        self.names = ("=x", "=y", "=z") if text else ("x", "y", "z")
        self.d = common.Driver(exe, env=env, preload=preload)
        self.evs = [{"k": "new", "w": "", "_i": -1}]
        self.features = set()
        self.total = 0      # committed tokens
        self.nt, self.nw, self.ntok = 0, 0, 0
        self.cur = None     # (writer, txn, own tokens, state)
        self.writer = None
        self.readers = []
        self.nbig = 0
        self.fresh = 0.6    # how often a writer is opened anew
        self.disturbed = False  # opening a burrow removes the temporary files of a transaction in progress
        if make:
            self.build()

    def call(self, cmd):
        return self.d.call(cmd)

    def ev(self, k, w, o, **kw):
        self.evs.append(dict({"k": k, "w": w, "ok": bool(o.get("ok", False)), "_i": len(self.d.log) - 1}, **kw))

    def piece(self):
        r = self.r
        if self.text:
            return tokens.piece(r, self.text, n=r.choice([600, 1100]) if r.random() < 0.06 else None)
        if self.big and self.nbig < 5 and r.random() < 0.5:
            self.nbig += 1
            ws = ["".join(r.choice("abcdefgh") for _ in range(7)) * r.choice([30000, 60000, 75000]) + str(self.nt) for _ in range(r.choice([1, 2]))]
            return "", [w + " " for w in ws], ws
        x = r.random()
        if x < 0.08:
            return store.rand_piece(r, n=r.choice([500, 1023, 1024, 1025, 2050]))
        if x < 0.3:
            self.ntok += 1
            w = "u%d" % self.ntok
            return store.rand_piece(r, words=store.WORDS + [w, w])
        return store.rand_piece(r)

    def raw(self, pc):
        return {"b": pc[3], "kind": self.text} if self.text else {}

    def build(self):
        r = self.r
        ops, evs, n = [], [], 0
        last = {}
        for _ in range(r.choice([1, 1, 2, 4, 8])):
            pc = self.piece()
            lead, units, words = pc[:3]
            ops.append(["text", pc[3] if self.text else lead + "".join(units)])
            evs.append(dict({"k": "app", "w": "w0", "ok": True, "lead": lead, "units": units, "words": words}, **self.raw(pc)))
            n += len(words)
            self.features.update(x for x in words if x != "~")
            l = []
            for f in self.names[:2]:
                while r.random() < 0.5 and n > 0:  # the builder takes lists as they are: in order, none nested
                    p, q = last.get(f, (-1, -1))
                    p2 = r.randint(p + 1, p + 3)
                    q2 = max(p2, q + 1) + r.choice([0, 0, 1, 2])
                    if q2 >= n:
                        break
                    last[f] = (p2, q2)
                    v = r.randint(0, 9)
                    ops.append(["ann", f, p2, q2, v])
                    l.append([f, [0, p2], [0, q2], v])
            if l:
                evs.append({"k": "anns", "w": "w0", "ok": True, "l": l})
                self.features.update(self.names[:2])
        if n == 0:
            pc = ("", ["a ", "b"], ["~", "~"] if self.text else ["a", "b"], [97, 32, 98])
            ops.append(["text", "a b"])
            evs.append(dict({"k": "app", "w": "w0", "ok": True, "lead": "", "units": pc[1], "words": pc[2]}, **self.raw(pc)))
            n = 2
        c = self.cfg
        cmd = {"c": "sbuild", "dir": self.dir, "ops": ops, "pc": c["pc"], "fc": c["fc"], "tc": c["tc"],
               "tokenizer": c["tokenizer"], "featurizer": "hashing", "tokenizer_recipe": c.get("tokenizer_recipe", "")}
        if c["small"]:
            cmd.update({"tok_file": r.choice([1, 3, 10]), "ann_file": r.choice([1, 2, 5])})
        else:
            cmd["recipe"] = ("idx:fvalue_compressor:%s idx:posting_compressor:%s txt:compressor:%s tokenizer:name:%s" %
                             (c["fc"], c["pc"], c["tc"], c["tokenizer"]))
            if c.get("tokenizer_recipe"):
                cmd["recipe"] += " tokenizer:" + c["tokenizer_recipe"]
        o = self.call(cmd)
        if c["small"] and r.random() < 0.6:  # several sorted runs in a transaction
            self.call({"c": "subst", "file": os.path.join(self.dir, "dna"), "from": "fvalue_compressor:",
                       "to": 'add_file_size:"%d",fvalue_compressor:' % r.choice([20, 60])})
        self.nt = 1
        app = o.get("app", [])
        k = 0
        self.evs.append({"k": "txn", "w": "w0", "t": "T0", "ok": True, "_i": 0})
        for e in evs:
            if e["k"] == "app":
                e["n"] = (app[k][1] - app[k][0] + 1) if k < len(app) else -1
                k += 1
            e["_i"] = 0
            self.evs.append(e)
        for k in ("ready", "commit"):
            self.ev(k, "w0", o, disturbed=False)
            self.evs[-1]["_i"] = 0
        self.total = n

    def name(self):
        self.nw += 1
        return "s%d" % self.nw

    def open(self, w):
        o = self.call({"c": "open", "w": w, "dir": self.dir})
        self.call({"c": "start", "w": w})
        self.ev("open", w, o)
        if self.cur:
            self.disturbed = True

    def reader(self):
        w = self.name()
        self.open(w)
        self.readers.append(w)
        return w

    def obs(self, w, nt=6):
        r = self.r
        fs = sorted(self.features) + ["nosuch"]
        if len(fs) > 14:
            fs = r.sample(fs, 14)
        trs = []
        top = self.total - 1
        for _ in range(nt if not self.big else 2):
            a = r.choice([0, top, r.randint(0, max(0, top)), r.randint(0, max(0, top)), top + 1, -1, 1023, 1024])
            b = r.choice([a, a, a + 1, a + 3, top, top + 1, 10 ** 6, a - 1, 1023, 1024, 2048])
            trs.append([a, b])
        o = self.call({"c": "obs", "w": w, "fs": fs, "trs": trs, "range": True})
        e = {"k": "obs", "w": w, "fs": fs, "lists": o.get("lists"), "counts": o.get("counts"),
             "trs": [a + [b] for a, b in zip(trs, o.get("trs", []))], "range": o.get("range"), "tokens": o.get("tokens")}
        if "fwdback" in o or not o.get("ok"):
            e.update({"lists": [[[-9, -9, -9]]] * len(fs), "counts": [0] * len(fs), "range": o.get("range") or [],
                      "tokens": o.get("tokens", -1)})
        self.evs.append(e)

    def drop(self, w):
        self.call({"c": "drop", "w": w})

    def txn(self, w):
        self.nt += 1
        t = "T%d" % self.nt
        self.ev("txn", w, self.call({"c": "txn", "w": w}), t=t)
        self.cur = [w, t, 0, "open"]
        self.disturbed = False

    def intrude(self):
        """Another warren tries while a transaction is in progress."""
        w = self.name()
        self.open(w)
        self.nt += 1
        self.ev("txn", w, self.call({"c": "txn", "w": w}), t="T%d" % self.nt)
        self.drop(w)

    def append(self):
        w = self.cur[0]
        pc = self.piece()
        lead, units, words = pc[:3]
        o = self.call({"c": "append", "w": w, "t": pc[3] if self.text else lead + "".join(units)})
        self.ev("app", w, o, n=o.get("n", -1), lead=lead, units=units, words=words, **self.raw(pc))
        self.features.update(x for x in words if x != "~")
        self.cur[2] += len(words)

    def annotate(self):
        r, (w, t, n, st) = self.r, self.cur
        top = self.total + n
        cmd, evl = [], []
        for _ in range(r.choice([1, 1, 2, 4, 12])):
            if top == 0:
                return
            a = r.randint(0, top - 1)
            if r.random() < 0.3 and n:
                a = r.randint(self.total, top - 1)
            b = min(top - 1, a + r.choice([0, 0, 1, 2, 5]))
            if r.random() < 0.05:
                a, b = b + 1, a
            f = r.choice(list(self.names) + ["=a" if self.text else r.choice(store.WORDS)])
            v = r.randint(0, 9)
            cmd.append([f, a, b, v])
            at = lambda k: [1, k] if k < self.total else [0, k - self.total]
            evl.append([f, at(a), at(b), v])
            self.features.add(f)
        self.ev("anns", w, self.call({"c": "anns", "w": w, "l": cmd}), l=evl)

    def ready(self):
        o = self.call({"c": "ready", "w": self.cur[0]})
        self.ev("ready", self.cur[0], o, disturbed=self.disturbed, err=str(o.get("err", "")))
        self.cur[3] = "ready" if o.get("ok") else "failed"

    def commit(self):
        w, t, n, st = self.cur
        for x in self.readers:
            self.drop(x)
        self.readers = []
        self.ev("commit", w, self.call({"c": "commit", "w": w}))
        self.total += n
        self.cur = None

    def abort(self):
        self.ev("abort", self.cur[0], self.call({"c": "abort", "w": self.cur[0]}))
        self.cur = None

    def look(self):
        """Everybody who may look does: warrens opened before, now, and clones of them."""
        r = self.r
        if not self.readers or r.random() < 0.6:
            self.reader()
        for w in self.readers:
            self.obs(w)
            if r.random() < 0.3:
                k = self.name()
                o = self.call({"c": "clone", "w": w, "as": k})
                self.ev("open", k, o)
                self.obs(k)
                self.drop(k)
        while len(self.readers) > 3:
            self.drop(self.readers.pop(0))

    def transaction(self, end=None):
        r = self.r
        if self.writer is None or r.random() < self.fresh:
            if self.writer:
                self.drop(self.writer)
            self.writer = self.name()
            self.open(self.writer)
        self.txn(self.writer)
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            (self.append if r.random() < 0.55 else self.annotate)()
            if r.random() < 0.3:
                self.look()
            if r.random() < 0.1:
                self.intrude()
        end = end or r.choice(["commit", "commit", "commit", "abort", "early"])
        if end != "early":
            self.ready()
            if r.random() < 0.4:
                self.look()
        if end == "commit" and self.cur[3] == "ready":
            self.commit()
        else:
            self.abort()
        self.look()

    def run(self, n):
        self.look()
        for _ in range(n):
            self.transaction()
            if self.r.random() < 0.2:  # everything is closed
                self.call({"c": "drop"})
                self.readers, self.writer = [], None
        self.look()

    def close(self):
        self.d.close()


def arecipe(cfg):
    return '[compressor:"%s",compressor_recipe:"",]' % cfg["tc"]


def recover(exe, r, cfg, s, mark, decision, env=None, preload=None, evs=None, cont=True):
    """A session on what a crash of s left behind, recovered with the given decision."""
    i, during = mark // 2, mark % 2 == 0
    x = Static(exe, r, s.dir, cfg=cfg, env=env, preload=preload, make=False)
    x.evs = evs if evs is not None else store.events_until(s, i, during)
    x.features = set(s.features)
    x.nt, x.nw, x.ntok = 1000, 1000, 10000
    o = x.call({"c": "recover", "dir": s.dir, "commit": decision, "arecipe": arecipe(cfg)})
    x.ev("recover", "", o, commit=decision)
    return x


def state_at(s, mark):
    """(transaction state, decisions that may be made)"""
    i, during = mark // 2, mark % 2 == 0
    st, n, total = "none", 0, 0
    for e in store.events_until(s, i, during):
        if e["k"] == "txn" and e["ok"]:
            st, n = "open", 0
        elif e["k"] == "app":
            n += len(e["units"])
        elif e["k"] == "ready" and e["ok"]:
            st = "ready"
        elif e["k"] == "commit":
            st, total = "none", total + n
        elif e["k"] == "abort":
            st = "none"
    cmd = s.d.log[i]["c"] if i < len(s.d.log) else ""
    if during and cmd == "commit":
        return st, [True], total, n
    if during and cmd in ("abort", "txn"):
        return st, [False], total, n
    if st == "ready":
        return st, [True, False], total, n
    return st, [False] if st == "open" else [False, True], total, n


def validate(c, sess, what, timeout=900, text=None):
    groups = [[] for _ in range(min(8, max(1, len(sess))))]
    index, sizes = [[] for _ in groups], [0] * len(groups)
    for n, (evs, log) in sorted(enumerate(sess), key=lambda x: -len(x[1][0])):
        g = sizes.index(min(sizes))
        index[g].append((len(groups[g]), n))
        groups[g] += evs
        sizes[g] += sum(len(json.dumps(e)) for e in evs)
    ok, bad, states = (
        tokens.check_trace("StaticTextTrace", groups, timeout=timeout) if text else
        tlc.check_trace("StaticTrace", groups, shards=None, timeout=timeout))
    c.add("states", states)
    c.add("traces_validated_against_impl", len(sess))
    c.add("transitions", sum(len(e) for e, _ in sess))
    for rej, g, out in bad:
        gi = [i for i, x in enumerate(groups) if x is g][0]
        start, n = max(x for x in index[gi] if x[0] < rej)
        evs, log = sess[n]
        k = rej - start - 1
        m = [l for l in out.split("\n") if "MISMATCH" in l]
        c.violation("%s: event %d of the history: %s\n  %s" % (
            what, k, json.dumps(evs[k])[:600], (m[-1][:600] if m else "")), {"events": evs[:k + 1], "cmds": log})


def run(c, what, plain, crashed, points, nested=2, big=0, ends=None, text=None):
    exe = build.build(["cdrv"])["cdrv"]
    pre = build.build_preload()
    jobs = [("plain", n) for n in range(plain)] + [("big", n) for n in range(big)] + [("crash", n) for n in range(crashed)]

    def one(j):
        kind, n = j
        r = common.rng(c.pid, what, kind, n)
        d = os.path.join(c.scratch, "st-%s%s-%d" % (text or "", kind, n))
        snap = d + ".snap"
        out, died, s = [], [], None
        try:
            env = crash.env_for(c, d, snap, 1, n + 1, 1500) if kind == "crash" else None
            s = Static(exe, r, d, env=env, preload=pre if env else None, big=kind == "big",
                       text=text)
            if ends:
                s.fresh = r.choice([0.15, 0.5])
                s.look()
                for e in ends(r):
                    s.transaction(e)
                s.look()
            else:
                s.run(r.randint(2, 4))
            s.close()
            out.append((s.evs, s.d.log))
        except common.DriverDied as e:
            return [], [("%s-%d: the implementation %s" % (kind, n, e), s.evs[-4:] if s else [], s.d.log if s else [])], 0
        finally:
            if s is not None:
                try:
                    s.d.p.kill()
                except OSError:
                    pass
        sn = []
        if kind == "crash":
            sn = [x for x in crash.snapshots(snap) if x[1] >= 1 and
                  s.d.log[min(x[1] // 2, len(s.d.log) - 1)]["c"] != "subst"]
            hot = [x for x in sn if x[1] % 2 == 0 and x[1] // 2 < len(s.d.log) and
                   s.d.log[x[1] // 2]["c"] in ("commit", "abort", "ready", "txn")]
            pick = r.sample(hot, min(len(hot), (3 * points + 3) // 4))
            rest = [x for x in sn if x not in pick]
            pick += r.sample(rest, min(len(rest), max(0, points - len(pick))))
            for path, mark, op, fn in pick:
                st, decs, total, own = state_at(s, mark)
                for dec in decs:
                    tag = {"crash before": [op, fn], "during": s.d.log[min(mark // 2, len(s.d.log) - 1)],
                           "mark": mark, "commit": dec}
                    try:
                        out += branch(c, exe, pre, r, s, path, mark, dec, nested, tag, total + (own if dec and st == "ready" else 0))
                    except common.DriverDied as e:
                        died.append(("crash before %s of %s, recovered (commit=%s): the implementation %s" % (op, fn, dec, e),
                                     [], s.d.log[:mark // 2 + 1]))
        common.rm(d)
        common.rm(snap)
        common.rm(snap + ".shm")
        return out, died, len(sn)

    res = common.par_map(one, jobs)
    sess = []
    for out, died, ns in res:
        sess += out
        c.add("crash_states_seen", ns)
        for what1, evs, log in died:
            c.violation("%s: %s" % (what, what1), {"cmds": log, "events": evs})
    c.add("crash_states_recovered", len(sess) - len(res))
    if sess:
        c.sample({"static": sess[-1][1][:1], "events": sess[-1][0][-3:]}, limit=2)
    validate(c, sess, what, text=text)


def branch(c, exe, pre, r, s, path, mark, dec, nested, tag, total):
    out = []
    common.rm(s.dir)
    crash.copy_dir(path, s.dir)
    snap = path + ".%d.snap" % dec
    deep = nested and r.random() < 0.5
    env = crash.env_for(c, s.dir, snap, 1, 1, 200) if deep else None
    x = recover(exe, common.rng(c.pid, s.dir, mark, dec), s.cfg, s, mark, dec, env=env, preload=pre if deep else None)
    base = [dict(e) for e in x.evs]
    x.d.log.insert(0, tag)
    x.d.log[1:1] = s.d.log[:mark // 2 + 1]
    sn = [y for y in crash.snapshots(snap) if y[1] == 0] if deep else []
    x.total = total
    after(x)
    out.append((x.evs, x.d.log))
    for p2, m2, op, fn in (r.sample(sn, min(nested, len(sn))) if sn else []):
        common.rm(s.dir)
        crash.copy_dir(p2, s.dir)
        y = recover(exe, common.rng(c.pid, s.dir, mark, dec, 2), s.cfg, s, mark, dec, evs=base[:-1])
        y.d.log.insert(0, dict(tag, again=[op, fn]))
        y.total = total
        after(y)
        out.append((y.evs, y.d.log))
        c.add("recovery_crashes")
    return out


def after(x):
    try:
        x.look()
        if x.r.random() < 0.7:
            x.transaction("commit" if x.r.random() < 0.7 else None)
        x.close()
    finally:
        try:
            x.d.p.kill()
        except OSError:
            pass
