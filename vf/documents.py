"""JSON documents: generated, stored by the real code, and read back, against spec/Documents.tla and Store.tla."""
import json, math
from . import common, store, histgen, build, tokens

OPEN_NUMBER, CLOSE_NUMBER = b"\xef\xb7\x98", b"\xef\xb7\x99"
MARKS = [b"\xef\xb7" + bytes([x]) for x in range(0x90, 0x9a)]


class Names:
    """Numbers named by integers, for TLC: small integers by themselves."""

    def __init__(self):
        self.n = {}

    def of(self, canon):
        if canon == "nan":
            return -1
        if canon.isdigit() and len(canon) < 7:
            return int(canon)
        return self.n.setdefault(canon, 10 ** 6 + 1 + len(self.n))


def of_double(x):
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return repr(x)
    return str(int(x)) if x == int(x) and abs(x) < 2 ** 63 else repr(x)


def exactly(text):
    """A number as it is written: integers exactly, the others as doubles."""
    if text.lstrip("-").isdigit() and -2 ** 63 <= int(text) < 2 ** 64:
        return str(int(text))
    return of_double(float(text))


class Num(str):
    pass


class Obj(list):
    pass


def parse(text):
    """A document as written (bytes), or None.  Objects are lists of pairs."""
    def no(x):
        raise ValueError(x)
    try:
        d = json.loads(text.decode("utf-8"), object_pairs_hook=Obj, parse_int=Num, parse_float=Num, parse_constant=no)
        def look(d):
            if isinstance(d, Num):
                if math.isinf(float(d)):
                    raise ValueError(d)
            elif isinstance(d, str):
                d.encode("utf-8")
            elif isinstance(d, Obj):
                for k, v in d:
                    k.encode("utf-8")
                    look(v)
            elif isinstance(d, list):
                for v in d:
                    look(v)
        look(d)
        return [d]
    except (ValueError, UnicodeError, RecursionError):
        return None


def tree(d, names):
    """For TLC"""
    if d is None:
        return {"k": "null"}
    if isinstance(d, bool):
        return {"k": "bool", "b": d}
    if isinstance(d, Num):
        return {"k": "num", "v": names.of(of_double(float(d))), "x": names.of(exactly(d))}
    if isinstance(d, str):
        return {"k": "str", "s": list(d.encode("utf-8"))}
    if isinstance(d, Obj):
        return {"k": "obj", "m": [[list(k.encode("utf-8")), tree(v, names)] for k, v in d]}
    return {"k": "arr", "e": [tree(x, names) for x in d]}


def sorted_members(d):
    last = {}
    for k, v in d:
        last[k.encode("utf-8")] = v
    return sorted(last.items())


def clean(b):
    return "".join("\ufffd" if 0xFDD0 <= ord(x) <= 0xFDEF else x for x in b.decode("utf-8")).encode("utf-8")


def numbers(d):
    """The numbers, in the order they are stored."""
    if isinstance(d, Num):
        yield d
    elif isinstance(d, Obj):
        for k, v in sorted_members(d):
            yield from numbers(v)
    elif isinstance(d, list):
        for v in d:
            yield from numbers(v)


def names_of(d, path=b":"):
    """Features to ask for."""
    yield path
    if isinstance(d, Obj):
        for k, v in sorted_members(d):
            k = clean(k)
            yield k + b":"
            yield from names_of(v, path + k + b":")
            yield from words_of(k)
    elif isinstance(d, list):
        for i, v in enumerate(d):
            yield from names_of(v, path + b"[%d]:" % i)
    elif isinstance(d, str):
        yield from words_of(clean(d.encode("utf-8")))
    elif d is None or isinstance(d, bool):
        yield {None: b"null", True: b"true", False: b"false"}[d]


def words_of(b):
    """Some words as the tokenizer folds them."""
    w = b""
    for cp in list(tokens.codepoints(list(b))) + [32]:
        k = tokens.char_class(cp)
        if k == "yes":
            w += bytes(tokens.enc(tokens.fold(cp)))
        else:
            if w:
                yield w
            w = b""
            if k == "one":
                yield bytes(tokens.enc(cp))


# --- generating
KEYS = ["a", "b", "id", "name", "key two", "a:", ":", "", "[0]", "é", "A", "x\"y", "tab\tkey", ":a", "a:b", "\\", "日本", "nul\0l",
        "\n", " ", "true", "null", "[1]:", "ﷺ"]
PIECES = ["word", "two words", "Über", "ﷺ", "ﷲ", "ﶒ", "日本語", "\"", "\\", "\\\"", "/", "\b\f\n\r\t", "\n", " \n ", "\n\n", "\0", "\x01",
          "\x1f", "\x7f", "😀", "e\u0301", "{\"a\":1}", "[", "]", ",", ":", " ", "  ", "'", "x:y", "\ufffd", "\ufeff", "\u2028", "z\n",
          "\nz", "0.5", "null", "\\n", "\\u0041", "&amp;", "<b>"]
NUMS = ["0", "1", "-1", "0.5", "-0.55", "3.14159265358979", "1e10", "1e-10", "123456789", "1e300", "2.5e-300", "-0", "9007199254740993",
        "9223372036854775807", "18446744073709551615", "-9223372036854775808", "1E5", "0.1", "1e22", "123456.789", "0.000001",
        "0.0000005", "18446744073709551616", "5e-324", "1.7976931348623157e308", "100000", "65535.25"]


class Gen:
    def __init__(self, r, marks):
        self.r, self.marks = r, marks

    def string(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 6, 12])
        s = "".join(r.choice(PIECES) if r.random() < 0.75 else r.choice(["w", "x", " ", "\n"]) for _ in range(n))
        if self.marks and r.random() < 0.3:
            k = r.randint(0, len(s))
            s = s[:k] + chr(r.randint(0xFDCE, 0xFDF1)) + s[k:]
        if r.random() < 0.02:
            s += " ".join(r.choice(["lorem", "ipsum", "dolor"]) for _ in range(r.choice([100, 700])))
        return s

    def number(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return Num(r.choice(NUMS))
        if x < 0.7:
            return Num(r.randint(-10 ** r.randint(1, 19), 10 ** r.randint(1, 19)))
        return Num(repr(r.choice([r.random(), r.uniform(-1e6, 1e6), r.gauss(0, 1) * 10.0 ** r.randint(-20, 20)])))

    def key(self):
        r = self.r
        return r.choice(KEYS[:6]) if r.random() < 0.6 else r.choice(KEYS) if r.random() < 0.8 else self.r.choice(PIECES)

    def doc(self, deep):
        r = self.r
        x = r.random()
        if deep == 0 or x < 0.25:
            return r.choice([lambda: None, lambda: True, lambda: False, self.number, self.number, self.string, self.string,
                             self.string])()
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5])
        if x < 0.5:
            return [self.doc(deep - 1) for _ in range(n)]
        o = Obj((self.key(), self.doc(deep - 1)) for _ in range(n))
        if n == 1 and self.marks and r.random() < 0.1:
            o[0] = (chr(r.randint(0xFDD0, 0xFDEF)) + "k", o[0][1])
        return o

    def write(self, d):
        """As text, in one of the ways it can be written."""
        r = self.r
        sp = lambda: r.choice(["", "", "", " ", "\n", "\t ", "\r\n"]) if self.spaces else ""
        if d is None:
            return "null"
        if isinstance(d, bool):
            return "true" if d else "false"
        if isinstance(d, Num):
            return str(d)
        if isinstance(d, str):
            return self.quote(d)
        if isinstance(d, Obj):
            return "{" + sp() + ",".join(sp() + self.quote(k) + sp() + ":" + sp() + self.write(v) + sp() for k, v in d) + "}"
        return "[" + sp() + ",".join(sp() + self.write(x) + sp() for x in d) + "]"

    def quote(self, s):
        r, out = self.r, '"'
        short = {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}
        for x in s:
            if x in short and (x in '"\\' or r.random() < 0.7):
                out += short[x]
            elif ord(x) < 32 or r.random() < self.escapes:
                u = x.encode("utf-16-be")
                for i in range(0, len(u), 2):
                    out += "\\u%02x%02x" % (u[i], u[i + 1])
            elif x == "/" and r.random() < 0.3:
                out += "\\/"
            else:
                out += x
        return out + '"'

    def text(self, deep=None):
        """(text as bytes, parsed)"""
        r = self.r
        self.spaces, self.escapes = r.random() < 0.5, r.choice([0, 0, 0.1, 0.5])
        t = self.write(self.doc(r.choice([0, 1, 2, 2, 3, 3, 4]) if deep is None else deep))
        if self.spaces:
            t = r.choice(["", " ", "\n"]) + t + r.choice(["", " ", "\n", "\r\n"])
        b = t.encode("utf-8")
        d = parse(b)
        assert d is not None, t
        return b, d[0]

    def broken(self):
        """Text that is no document."""
        r = self.r
        while True:
            x = r.random()
            if x < 0.2:
                b = r.choice([b"", b" ", b"nul", b"{", b"[1,]", b"{\"a\":}", b"1 2", b"{\"a\" 1}", b"\"\t\"", b"01", b"1.", b"+1",
                              b".5", b"NaN", b"Infinity", b"1e999", b"[1e400]", b"{a:1}", b"'a'", b"\"\\x\"", b"\"\\ud800\"",
                              b"\"\xff\"", b"[\"\xef\xb7\x90\"", b"{}x", b"[\"\xef\xb7\x90\"]\0x", b"\xef\xb7\x90", b"{\"a\":-1e9999}"])
            else:
                b, _ = self.text()
                k = r.randint(0, max(0, len(b) - 1))
                b = r.choice([b[:k], b[:k] + b[k + 1:], b[:k] + r.choice([b"\"", b"}", b",", b"\xff", b"\0", b"\x01"]) + b[k:]])
            if parse(b) is None:
                return b


class Session(store.Session):
    def __init__(self, exe, r, cfg, names, jt=True, make=True):
        self.names, self.jt = names, jt
        self.docs, self.keys = {}, set()
        super().__init__(exe, r, cfg, make=make)
        self.gen = Gen(r, True)

    def add(self, w, broken=False):
        t = self.curs[w]
        if broken:
            b = self.gen.broken()
            o = self.call({"c": "json", "w": w, "t": list(b)})
            self.ev("badjson", w, o, t=list(b))
            return
        self.put(w, *self.gen.text())

    def put(self, w, b, d):
        t = self.curs[w]
        self.npiece += 1
        pid = "%s.%d" % (t.id, self.npiece)
        o = self.call({"c": "json", "w": w, "t": list(b), "id": pid})
        guess = [{"b": list(b"0.0"), "x": self.names.of(exactly(x))} for x in numbers(d)]
        e = self.ev("json", w, o, n=o.get("n", -1), doc=tree(d, self.names), nums=guess, known=False)
        if o.get("ok"):
            self.docs.setdefault(t.id, []).append((t.n, o["n"], d, e))
            t.pieces.append((pid, t.n, o["n"]))
            t.n += o["n"]

    def ready(self, w):
        t = self.curs[w]
        if t.n == 0:
            self.put(w, *self.gen.text(1))
        f = b"@" + t.id.encode()
        t.marker = 0
        o = self.call({"c": "anns", "w": w, "l": [[list(f), {"r": t.pieces[0][0], "o": 0}, {"r": t.pieces[0][0], "o": 0}, 7]]})
        self.ev("anns", w, o, l=[[list(f), [0, 0], [0, 0], 7]])
        o = self.call({"c": "ready", "w": w})
        t.readyev = self.ev("ready", w, o, b=-1)
        t.st = "ready"

    def locate(self, t):
        super().locate(t)
        if t.base is None:
            return
        l = self.docs.get(t.id, [])
        o = self.call({"c": "start", "w": self.ws[0]})
        o = self.call({"c": "obs", "w": self.ws[0], "raw": [[t.base + a, t.base + a + n - 1] for a, n, d, e in l]})
        self.call({"c": "end", "w": self.ws[0]})
        for (a, n, d, e), raw in zip(l, o["raw"]):
            self.written(e, d, bytes(raw))

    def written(self, e, d, raw):
        """How the numbers of a committed document were written."""
        nums = []
        for x in raw.split(OPEN_NUMBER)[1:]:
            x = x.split(CLOSE_NUMBER)[0]
            try:
                nums.append({"b": list(x), "x": self.names.of(exactly(x.decode("latin-1").strip()))})
            except ValueError:
                nums.append({"b": list(x), "x": -2})
        e["nums"], e["known"] = nums, True
        for f in names_of(d):
            self.keys.add(f)

    def look(self, w, nf=14, nt=10):
        r = self.r
        fs = sorted(self.keys)
        fs = sorted(set([b":"] + (r.sample(fs, nf) if len(fs) > nf else fs) +
                        [b"@" + t.encode() for t in r.sample(sorted(self.txns), min(2, len(self.txns)))] +
                        [r.choice(MARKS), b"nosuch"]))
        o = self.call({"c": "obs", "w": w, "fs": [list(f) for f in fs], "exact": True})
        if "lists" not in o:
            raise RuntimeError(str(o)[:500])
        trs = []
        for f, l in zip(fs, o["lists"]):
            if f.endswith(b":"):
                trs += [tuple(x[:2]) for x in l]
        trs = sorted(set(trs))
        trs = r.sample(trs, nt) if len(trs) > nt else trs
        x = self.call({"c": "obs", "w": w, "trj": trs, "jt": self.jt})
        ev = {"k": "docs", "w": w, "fs": [list(f) for f in fs], "counts": o["counts"], "trs": [],
              "lists": [[[a, b, self.names.of(of_double(float(v)))] for a, b, v in l] for l in o["lists"]]}
        if "fwdback" in o:
            ev["lists"] = [[[-9, -9, -9]]] * len(fs)
        for (p, q), b in zip(trs, x["trj"]):
            d = parse(bytes(b))
            ev["trs"].append([p, q, {"k": "bad", "b": b} if d is None else tree(d[0], self.names)])
        self.evs.append(ev)


JSON = {"featurizer": "json", "featurizer_recipe": "[name:\"hashing\",recipe:\"\",]"}
FORMS = ["mem-on", "mem-off", "disk-off", "disk-on", "disk-json", "archive", "archive-json"]


def config(form, r, d):
    if form.startswith("mem"):
        cfg = histgen.mem_cfg(r, form == "mem-on", "utf8")
        cfg["mk"].update(JSON)
    else:
        cfg = histgen.disk_cfg(r, d, form == "disk-on", "utf8", chunk=r.choice([4, 16, 64, 65536]) if "archive" in form else 65536)
        cfg["mk"]["recipe"] = cfg["recipe"] = cfg["recipe"] + " featurizer@json" + (" txt:json:yes" if form.endswith("-json") else "")
        cfg["codec"].update(JSON)
    return cfg


def session(c, exe, form, n, steps):
    r = common.rng(c.pid, form, n)
    d = c.scratch + "/doc-%s-%d" % (form, n)
    s = Session(exe, r, config(form, r, d), Names(), jt=not form.endswith("-json"))
    try:
        s.clone("w0", "w1")
        s.clone("w0", "v")
        for _ in range(steps):
            w = r.choice(["w0", "w1"]) if "w1" in s.ws else "w0"
            x = r.random()
            if w not in s.curs:
                s.begin(w)
            elif x < 0.55:
                if s.curs[w].st == "open":
                    s.add(w, r.random() < 0.15)
            elif x < 0.62:
                s.abort(w)
            elif x < 0.8:
                if s.curs[w].st == "open":
                    s.ready(w)
                s.commit(w)
            elif x < 0.85 and s.cfg["disk"]:
                s.reopen(hazel="archive" in form and r.random() < 0.7, merge=None)
                s.clone("w0", "w1")
                s.clone("w0", "v")
            else:
                s.start("v")
                s.look("v")
                s.end("v")
        if form in ("mem-on", "disk-on"):
            s.settle()
        s.start("v")
        s.look("v", 30, 25)
        s.end("v")
        s.d.call({"c": "drop"})
        s.close()
        return s.evs, s.d.log
    finally:
        s.d.p.kill()
        common.rm(d)


def check(groups, timeout=900):
    cps = set()
    for g in groups:
        for e in g:
            if e["k"] == "json":
                def strings(d):
                    if d["k"] == "str":
                        yield d["s"]
                    for x in d.get("e", []):
                        yield from strings(x)
                    for k, x in d.get("m", []):
                        yield k
                        yield from strings(x)
                for b in strings(e["doc"]):
                    cps.update(tokens.codepoints(b))
                for x in e["nums"]:
                    cps.update(x["b"])
    cps.update(range(128))
    cps.add(0xFFFD)
    return tokens.check_trace("DocumentsTrace", groups, timeout=timeout, cps=cps)


def run(c, n, steps=50):
    exe = build.build(["cdrv"])["cdrv"]
    jobs = [(f, k) for f in FORMS for k in range(n)]

    def one(j):
        try:
            return session(c, exe, j[0], j[1], steps), None
        except common.DriverDied as e:
            return None, ("documents in %s-%d: the implementation %s" % (j[0], j[1], e), e)
    sess = []
    for s, died in common.par_map(one, jobs):
        if died:
            c.violation(died[0], {"cmds": getattr(died[1], "log", [])})
        else:
            sess.append(s)
    c.add("documents", sum(1 for e, _ in sess for x in e if x["k"] == "json"))
    c.add("not_documents", sum(1 for e, _ in sess for x in e if x["k"] == "badjson"))
    if sess:
        c.sample({"events": [x for x in sess[0][0] if x["k"] == "json"][:2]}, limit=2)
    store.validate(c, sess, "documents", check=check)
