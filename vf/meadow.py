"""Files appended to a meadow by the real code, and what it shows of them, against spec/Ingest.tla."""
import gzip, json, os
from . import build, common, crash, documents, histgen, store, tokens

NAMES = ["x.jsonl", "x", "x.jsonl 2", "b.tsv", "sub/x.jsonl", "sub/x", "a b/c-d.tsv", "X.jsonl", 'q"uote', "back\\slash", "per%cent", "é.txt",
         "日本.jsonl", "x y", "x  y", " x", "x ", "tab\tname", "(paren)", "[1]", "'s", "$HOME", "new\nline", "a", "1.jsonl", "data.2024.tsv",
         "long-" + "n" * 120, "x.jsonl2", "the quick brown fox", " lead/x", " lead/x ", "and:not", "x~", "emoji😀"]
WORDS = ["alpha", "Beta", "gamma delta", "x", "42", "3.5", "日本語", "é", "😀", "a-b", "it's", "\"q\"", "a\\b", "UPPER lower"]
NOTHING = ["", "", " ", "--", "...", "\x01", "\u2028"]


def completed(b):
    """The text of a transaction ends in a newline."""
    return b if b.endswith(b"\n") else b + b"\n"


def path_of(name):
    return name if b"/" in name else b"./" + name


class Files:
    """Files written for the code to read."""

    def __init__(self, r, d):
        self.r, self.d = r, d
        os.makedirs(d + "/sub", exist_ok=True)
        os.makedirs(d + "/a b", exist_ok=True)
        os.makedirs(d + "/ lead", exist_ok=True)
        self.gen = documents.Gen(r, False)
        self.n = 0

    def name(self):
        r = self.r
        n = r.choice(NAMES) if r.random() < 0.7 else "f%d" % r.randrange(4)
        if r.random() < 0.3:
            n = self.d + "/" + n
        return n.encode()

    def where(self, name):
        return os.path.join(self.d.encode(), name)

    def document(self, uniq):
        r = self.r
        self.n += 1
        while True:
            b, d = self.gen.text(r.choice([0, 1, 2, 2]))
            if b"\n" not in b:
                break
        if uniq:
            b = b'{"n":%d,"d":%s}' % (self.n, b.strip())
        return b

    def jsonl(self, bad=None, n=None, simple=False):
        """(bytes, whether the lines are different)"""
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 30]) if n is None else n
        uniq = r.random() < 0.7
        lines = [b'{"n":%d}' % (1000000 + self.n * 1000 + k) for k in range(n)] if simple else [self.document(uniq) for _ in range(n)]
        if not uniq and lines and r.random() < 0.5:
            lines += [r.choice(lines) for _ in range(r.randint(1, 4))]
        self.n += 1
        end = r.choice([b"\n", b"\n", b"\r\n"])
        bad = r.random() < 0.25 if bad is None else bad
        if bad:
            while True:
                x = self.gen.broken() if r.random() < 0.7 else r.choice([b"", b" ", b"\r"])
                if b"\n" not in x:
                    break
            # often the very first or the very last line
            lines.insert(r.choice([0, len(lines), r.randint(0, len(lines))]), x)
        b = b"".join(l + end for l in lines)
        if b and r.random() < 0.4:
            b = b[:-len(end)]
        return b

    def tsv(self):
        r = self.r
        sep = r.choice([b"\t", b"\t", b",", b"", b"::", b" ", b"x", b"aa", b"\xe3\x80\x81"])
        def field():
            x = r.random()
            s = r.choice(NOTHING) if x < 0.2 else r.choice(WORDS) if x < 0.8 else " ".join(r.choice(WORDS) for _ in range(r.randint(1, 4)))
            b = s.encode()
            if x > 0.97:
                b += bytes([r.choice([0, 0x80, 0xC3, 0xE2, 0x0B, 0x0C])])
            return b
        lines = []
        for _ in range(r.choice([0, 1, 2, 3, 6, 12])):
            lines.append((sep or b" ").join(field() for _ in range(r.choice([0, 1, 1, 2, 3, 3, 4, 7]))))
        b = b""
        for l in lines:
            b += l + r.choice([b"\n"] * 6 + [b"\r\n", b"\r", b"\n\n", b"\r\r\n", b"\n\r"])
        if b and r.random() < 0.4:
            b = b[:-1]
        return b, sep, r.random() < 0.4

    def put(self, name, b):
        """Writes it, sometimes compressed.  The name to append it by."""
        r = self.r
        if b is not None and r.random() < 0.12:
            name += b".gz"
        p = self.where(name)
        if os.path.isdir(p):
            os.rmdir(p)
        if b is None:  # one that cannot be read, or not to its end
            x = r.random()
            if os.path.exists(p):
                os.unlink(p)
            if x < 0.3:
                os.mkdir(p)
            elif x < 0.7:
                name += b".gz"
                z = gzip.compress(b"".join(b'{"n":%d}\n' % r.randrange(10 ** 6) for _ in range(r.choice([1, 40, 30000]))))
                with open(self.where(name), "wb") as f:
                    f.write(z[:len(z) - r.choice([1, 8, 10, len(z) // 2])])
            return name
        with open(p, "wb") as f:
            f.write(gzip.compress(b) if name.endswith(b".gz") else b)
        return name


class Meadow:
    def __init__(self, exe, r, d, files, env=None, preload=None, merge=None, make=True):
        self.r, self.dir, self.files, self.merge = r, d, files, merge
        self.d = common.Driver(exe, env=env, preload=preload, cwd=files.d)
        self.evs = [{"k": "new", "_i": -1}]
        self.ids, self.held, self.names, self.kinds = {}, {}, set(), {}
        self.ws = ["w0"]
        self.long = {}
        if make:
            self.d.call(self.opening("create"))

    def opening(self, op):
        c = {"c": "meadow", "op": op, "w": "w0", "dir": self.dir}
        if self.merge is not None:
            c["merge"] = self.merge
        return c

    def id_of(self, line):
        d = documents.parse(line)
        return -1 if d is None else self.ids.setdefault(self.canon(d[0]), len(self.ids))

    def canon(self, d):
        if isinstance(d, documents.Num):
            return ("n", documents.of_double(float(d)))
        if isinstance(d, documents.Obj):
            return ("o",) + tuple((documents.clean(k), self.canon(v)) for k, v in documents.sorted_members(d))
        if isinstance(d, list):
            return ("a",) + tuple(self.canon(x) for x in d)
        if isinstance(d, str):
            return ("s", documents.clean(d.encode("utf-8")))
        return ("c", repr(d))

    # commands and what they mean
    def jsonl(self, w, name, b, threads):
        cmd = {"c": "meadow", "op": "jsonl", "w": w, "file": list(name), "threads": threads}
        ev = {"k": "jsonl", "name": list(name), "readable": b is not None, "T": threads or 1000, "long": False}
        if b is not None and len(b) > 6000:
            ls = b.split(b"\n")
            ev.update(long=True, ids=[self.id_of(l) for l in (ls[:-1] if ls[-1] == b"" else ls)])
        else:
            b = b or b""
            ev.update(file=list(b), table=[[list(l), self.id_of(l)] for l in sorted(set(b.split(b"\n")))])
        return cmd, ev

    def tsv(self, w, name, b, sep, header, threads):
        cmd = {"c": "meadow", "op": "tsv", "w": w, "file": list(name), "threads": threads, "sep": sep.decode(), "header": header}
        ev = {"k": "tsv", "name": list(name), "readable": b is not None, "T": threads or 1000, "long": False, "sep": list(sep),
              "header": header, "file": list(b or b"")}
        return cmd, ev

    def did(self, ev, o, i=None):
        ev["ok"] = bool(o.get("ok"))
        ev["_i"] = len(self.d.log) - 1 if i is None else i
        self.evs.append(ev)
        name = bytes(ev["name"])
        self.names.add(name)
        if ev["ok"]:
            p = path_of(name)
            self.held[p] = self.held.get(p, 0) + 1
            self.kinds.setdefault(p, set()).add(ev["k"])

    def some(self, w, mark=b""):
        """An append to come: (command, event).  A path is of one kind of file, for what is found to be told apart."""
        while True:
            cmd, ev = self.one(w, mark)
            if self.kinds.get(path_of(bytes(ev["name"])), {ev["k"]}) == {ev["k"]}:
                return cmd, ev

    def one(self, w, mark):
        r, f = self.r, self.files
        x = r.random()
        name = f.name()
        if mark:
            name = b"sub/" + mark + name.split(b"/")[-1]
        T = r.choice([0, 1, 1, 2, 3, 4, 6])
        if x < 0.1:
            name = f.put(name, None)
            return self.jsonl(w, name, None, T) if r.random() < 0.5 else self.tsv(w, name, None, b"\t", False, T)
        if x < 0.6:
            b = f.jsonl()
            return self.jsonl(w, f.put(name, b), b, T)
        b, sep, header = f.tsv()
        return self.tsv(w, f.put(name, b), b, sep, header, T)

    def append(self, w="w0"):
        cmd, ev = self.some(w)
        self.did(ev, self.d.call(cmd))

    def together(self, n):
        """Different files at the same time, through clones."""
        r = self.r
        l = [self.some("p%d" % k, b"%d" % k) for k in range(n)]
        for cmd, ev in l:
            self.d.call({"c": "clone", "w": "w0", "as": cmd["w"]})
        self.d.call({"c": "par", "th": [[cmd] for cmd, ev in l]})
        i = len(self.d.log) - 1
        res = {}
        for x in self.d.extra:
            if "th" in x:
                res[x["th"]] = x
        for k, (cmd, ev) in enumerate(l):
            self.did(ev, res[k], i)
        for cmd, ev in l:
            self.d.call({"c": "drop", "w": cmd["w"]})

    def same(self, cmd, must=True):
        o = self.d.call(cmd)
        self.evs.append({"k": "same", "ok": bool(o.get("ok")) or not must, "_i": len(self.d.log) - 1})

    def reopen(self, hazel=False):
        self.d.call({"c": "settle"})
        if hazel:
            self.d.call({"c": "drop"})
            self.d.call({"c": "open", "w": "w0", "dir": self.dir})
            self.d.call({"c": "merge", "w": "w0", "on": False})
            self.d.call({"c": "settle"})
            self.same({"c": "tohazel", "w": "w0", "dir": self.dir, "featurizer": "json", "featurizer_recipe": "[name:\"hashing\",recipe:\"\",]",
                       "tokenizer": "utf8", "pc": "post", "fc": "zlib", "tc": "zlib", "chunk": self.r.choice([4, 64, 65536])}, must=False)
        self.d.call({"c": "drop"})
        self.same(self.opening("open"))

    def ask(self):
        r = self.r
        names = [n for n in self.names]
        names = sorted(names)
        l = r.sample(names, min(len(names), 6)) + [r.choice(NAMES).encode() for _ in range(2)]
        l += [n[2:] if n.startswith(b"./") else b"./" + n for n in l[:1] if b"/" not in n or n.startswith(b"./")]
        out = []
        for n in l:
            if n.endswith(b"\n"):
                continue
            o = self.d.call({"c": "meadow", "op": "appended", "w": "w0", "file": list(n)})
            out.append([list(n), bool(o.get("appended")) if o.get("ok") else None])
        if any(x[1] is None for x in out):
            out = [x for x in out if x[1] is not None] + [[list(b"/asking failed"), True]]
        self.evs.append({"k": "asked", "l": out, "_i": len(self.d.log) - 1})

    def look(self, maxcol=8):
        call = lambda c: self.d.call(dict(c, c="obs", w="w0"))
        self.d.call({"c": "start", "w": "w0"})
        paths = sorted(set(path_of(n) for n in self.names))
        cols = [b":%d:" % k for k in range(maxcol)]
        fs = [b":", b"::", b"/"] + cols + paths
        o = call({"fs": [list(f) for f in fs], "count": False})
        ls = [[x[:2] for x in l] for l in o["lists"]]
        if "fwdback" in o:
            ls[0] = [[-9, -9]]
        of = dict(zip(paths, ls[3 + maxcol:]))
        rows, docs = [], []
        for p in paths:
            for x in of[p]:
                if "tsv" in self.kinds.get(p, ()):
                    rows.append(x)
                if "jsonl" in self.kinds.get(p, ()):
                    docs.append(x)
        inrow = lambda x: any(y[0] <= x[0] and x[1] <= y[1] for y in rows)
        doc = set(map(tuple, docs))
        ls[1] = [x for x in ls[1] if inrow(x)]  # documents can have parts of that name
        tr = sorted(set(tuple(x) for x in ls[0] + ls[1] + sum(ls[3:3 + maxcol], []) if inrow(x)))
        trj = sorted(set(tuple(x) for x in ls[0] if tuple(x) in doc))
        lab = [tuple(x) for x in ls[2]]
        o = call({"tr": tr + lab})
        text = dict(zip(tr + lab, o["tr"]))
        o = call({"trj": trj, "jt": True})
        ids = {x: self.id_of(bytes(b)) for x, b in zip(trj, o["trj"])}
        self.d.call({"c": "end", "w": "w0"})
        ev = {"k": "seen", "_i": len(self.d.log) - 1, "paths": [[list(p), of[p]] for p in paths],
              "tops": [[x[0], x[1], ids.get(tuple(x), -2), text.get(tuple(x), [])] for x in ls[0]],
              "heads": [[x[0], x[1], -3, text.get(tuple(x), [])] for x in ls[1]],
              "labels": [text[x] for x in lab],
              "cols": [[k, [[x[0], x[1], text[tuple(x)]] for x in l if tuple(x) in text]] for k, l in enumerate(ls[3:3 + maxcol])]}
        self.evs.append(ev)

    def labels(self):
        self.d.call({"c": "start", "w": "w0"})
        l = self.d.call({"c": "obs", "w": "w0", "fs": ["/"], "count": False})["lists"][0]
        t = self.d.call({"c": "obs", "w": "w0", "tr": [x[:2] for x in l]})["tr"]
        self.d.call({"c": "end", "w": "w0"})
        return [completed(bytes(x)) for x in t]

    def step(self, merge, hazel, conc):
        r = self.r
        x = r.random()
        if x < 0.5:
            self.append()
        elif x < 0.5 + conc:
            self.together(r.randint(2, 3))
        elif x < 0.72:
            self.ask()
        elif x < 0.82:
            self.look()
        elif x < 0.9:
            if r.random() < hazel and not merge:
                self.reopen(hazel=True)
            else:
                self.reopen()
        elif merge:
            self.same({"c": "merge", "w": "w0", "on": r.random() < 0.7})
        else:
            self.same({"c": "settle"})


def histories(c, exe, plan, what):
    jobs = [(k, n, kw) for k, (count, kw) in enumerate(plan) for n in range(count)]

    def one(j):
        k, n, kw = j
        r = common.rng(c.pid, k, n)
        d = "%s/m-%d-%d" % (c.scratch, k, n)
        m = Meadow(exe, r, d, Files(r, d + ".files"), merge=kw["merge"])
        try:
            if kw.get("perturb"):
                m.d.call({"c": "perturb", "n": 30, "seed": n + 1})
            for _ in range(kw["steps"]):
                m.step(kw["merge"], kw.get("hazel", 0), kw.get("conc", 0.08))
            m.ask()
            m.look()
            m.reopen()
            m.ask()
            m.look()
            m.d.close()
            return m.evs, m.d.log, None
        except common.DriverDied as e:
            return m.evs, m.d.log, str(e)
        finally:
            m.d.p.kill()
            common.rm(d)
            common.rm(d + ".files")

    done(c, common.par_map(one, jobs), what)


def done(c, res, what):
    for evs, log, died in res:
        if died:
            c.violation("%s: the implementation %s at %s" % (what, died, str(log[-1])[:400]), {"events": evs, "cmds": log})
    store.validate(c, [(e, l) for e, l, died in res if not died], what, check=check)


def check(groups, timeout=900):
    cps = set(range(128))
    for g in groups:
        for e in g:
            if e["k"] in ("tsv", "jsonl"):
                cps.update(tokens.codepoints(e["name"]))
                if e["k"] == "tsv":
                    cps.update(tokens.codepoints(e["file"]))
            elif e["k"] == "seen":
                for x in e["tops"] + e["heads"]:
                    cps.update(tokens.codepoints(x[3]))
            elif e["k"] == "asked":
                for x in e["l"]:
                    cps.update(tokens.codepoints(x[0]))
            elif e["k"] == "crash":
                for x in e["pend"]:
                    cps.update(tokens.codepoints(x["name"]))
                    if x["k"] == "tsv":
                        cps.update(tokens.codepoints(x["file"]))
    return tokens.check_trace("IngestTrace", groups, timeout=timeout, cps=cps)


# --- long files
def long_tsv(c, exe, n, seed):
    """Rows enough for the file to be shared between threads."""
    r = common.rng(c.pid, "long", seed)
    d = "%s/long-%d" % (c.scratch, seed)
    f = Files(r, d + ".files")
    m = Meadow(exe, r, d, f, merge=seed % 2 == 0)
    try:
        m.d.call({"c": "perturb", "n": 10, "seed": seed + 1})
        for k in range(2):
            T = r.choice([2, 3, 4, 7, 8])
            name = b"long%d.tsv" % k
            gaps = set(r.sample(range(n), n // 50)) | (set(range(n // 2, n // 2 + n // 6)) if r.random() < 0.5 else set())
            rows = [b"" if j in gaps else b"r%d\tv%d" % (j, j % 7) for j in range(n)]
            b = b"\n".join(rows)
            with open(f.where(name), "wb") as o:
                o.write(b)
            cmd, ev = m.tsv("w0", name, None, b"\t", False, T)
            ids = [j for j in range(n) if j not in gaps]
            ev.update(readable=True, long=True, ids=ids, file=[])
            m.did(ev, m.d.call(cmd, timeout=300))
            m.d.call({"c": "start", "w": "w0"})
            o = m.d.call({"c": "obs", "w": "w0", "fs": [":", "./" + name.decode()], "count": False}, timeout=300)
            tops, labels = o["lists"]
            shares = []
            for x in labels:
                l = [y[:2] for y in tops if x[0] <= y[0] and y[1] <= x[1]]
                # a share's text, in one piece
                t = m.d.call({"c": "obs", "w": "w0", "trs": [x[:2]]}, timeout=300)["trs"][0].encode("latin-1")
                got = [y for y in t.split(b"\n") if y]
                runs = []
                if len(got) != len(l) or any(y[1] - y[0] != 1 for y in l) or any(a[1] + 1 != b_[0] for a, b_ in zip(l, l[1:])):
                    got = [b"?"] * max(1, len(l))
                for y in got:
                    v = int(y[1:y.index(b"\t")]) if y[:1] == b"r" and b"\t" in y and y[1:y.index(b"\t")].isdigit() else -1
                    if v < 0 or v >= n or rows[v] != y:
                        v = -1
                    if runs and v == runs[-1][1] + 1 and v > 0:
                        runs[-1][1] = v
                    else:
                        runs.append([v, v])
                shares.append(runs)
            m.d.call({"c": "end", "w": "w0"})
            m.evs.append({"k": "long", "name": list(name), "shares": shares, "_i": len(m.d.log) - 1})
            m.ask()
        m.d.close()
        return m.evs, m.d.log, None
    except common.DriverDied as e:
        return m.evs, m.d.log, str(e)
    finally:
        m.d.p.kill()
        common.rm(d)
        common.rm(d + ".files")


# --- crashes
def crashes(c, exe, count, points, what):
    pre = build.build_preload()

    def one(n):
        r = common.rng(c.pid, "crash", n)
        d = "%s/c-%d" % (c.scratch, n)
        snap = d + ".snap"
        f = Files(r, d + ".files")
        out, ns = [], 0
        m = Meadow(exe, r, d, f, env=crash.env_for(c, d, snap, 1, n + 1, 2500), preload=pre, merge=[None, False, True][n % 3])
        try:
            for _ in range(5):
                x = r.random()
                if x < 0.75:
                    m.append()
                elif x < 0.9:
                    m.together(2)
                else:
                    m.reopen()
            m.d.close()
        except common.DriverDied as e:
            m.d.p.kill()
            return [(m.evs, m.d.log, str(e))], 0
        out.append((m.evs, m.d.log, None))
        sn = [x for x in crash.snapshots(snap) if x[1] > 1]
        hot = [x for x in sn if x[1] % 2 == 0 and m.d.log[min(x[1] // 2, len(m.d.log) - 1)]["c"] in ("meadow", "par")]
        for path, mark, op, fn in r.sample(hot, min(points, len(hot))) + r.sample(sn, min(points // 4, len(sn))):
            common.rm(d)
            crash.copy_dir(path, d)
            i, during = mark // 2, mark % 2 == 0
            b = Meadow(exe, common.rng(c.pid, n, mark, fn), d, f, merge=m.merge, make=False)
            try:
                b.d.log.append({"crash": [op, fn], "mark": mark, "history": m.d.log[:i + 1]})
                b.ids = m.ids
                pend = []
                for e in m.evs:
                    if e["k"] in ("jsonl", "tsv") and e["_i"] == i and during:
                        pend.append(dict(e))
                    elif e["k"] in ("jsonl", "tsv") and e["_i"] <= i:
                        b.did(dict(e), e, e["_i"])
                o = b.d.call(b.opening("open"))
                if not o.get("ok"):
                    b.evs.append({"k": "same", "ok": False, "_i": -1})
                    out.append((b.evs, b.d.log, None))
                    continue
                labels = b.labels()
                for e in pend:
                    p = path_of(bytes(e["name"]))
                    e["took"] = labels.count(completed(p)) > b.held.get(p, 0)
                    b.names.add(bytes(e["name"]))
                    if e["took"]:
                        b.held[p] = b.held.get(p, 0) + 1
                        b.kinds.setdefault(p, set()).add(e["k"])
                b.evs.append({"k": "crash", "pend": pend, "_i": -1})
                b.look()
                b.ask()
                b.append()
                if b.r.random() < 0.5:
                    b.reopen()
                b.look()
                b.d.close()
                out.append((b.evs, b.d.log, None))
            except common.DriverDied as e:
                out.append((b.evs, b.d.log, "after a crash before %s of %s: %s" % (op, fn, e)))
            finally:
                b.d.p.kill()
        common.rm(d)
        common.rm(snap)
        common.rm(snap + ".shm")
        common.rm(d + ".files")
        return out, len(sn)

    res = common.par_map(one, list(range(count)))
    c.add("crash_states_seen", sum(n for _, n in res))
    c.add("crash_states_examined", sum(len(o) - 1 for o, _ in res))
    done(c, sum((o for o, _ in res), []), what)
