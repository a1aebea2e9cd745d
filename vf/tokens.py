"""Texts for the tokenizers; character classes and foldings from Python's copy of the Unicode database."""
import itertools, json, os, tempfile, unicodedata
from . import common, tlc, build

LETTERS = set("Lu Ll Lt Mn Mc Me Nd Nl No Lm Lo".split())
KINDS = {"ascii": ("ascii", "noxml"), "xml": ("ascii", "xml"), "utf8": ("utf8", "")}


def char_class(cp):
    if cp > 0x10FFFF:
        return "no"
    if 0xFDD0 <= cp <= 0xFDEF or cp & 0xFFFE == 0xFFFE:
        return "one"
    c = unicodedata.category(chr(cp))
    if c in LETTERS:
        n = unicodedata.name(chr(cp), "")
        tangut = 0x17000 <= cp <= 0x187F7 or 0x18D00 <= cp <= 0x18D08
        return "one" if n.startswith("CJK UNIFIED IDEOGRAPH") or tangut else "yes"
    return "one" if c == "So" else "no"


FOLDS = {0x1FD3: 0x390, 0x1FE3: 0x3B0, 0xFB05: 0xFB06}


def fold(cp):
    """Simple case folding."""
    if cp in FOLDS:
        return FOLDS[cp]
    x = chr(cp).casefold()
    if len(x) != 1:
        x = chr(cp).lower()
    return ord(x) if len(x) == 1 else cp


def settled(cp):
    """Assigned in every version of the database that matters here."""
    return 0 <= cp <= 0x10FFFF and not 0xD800 <= cp <= 0xDFFF and \
        (unicodedata.category(chr(cp)) != "Cn" or 0xFDD0 <= cp <= 0xFDEF or cp & 0xFFFE == 0xFFFE)


def enc(cp):
    """UTF-8, surrogates and values beyond Unicode too."""
    if cp < 0x80:
        return [cp]
    if cp < 0x800:
        return [0xC0 | cp >> 6, 0x80 | cp & 63]
    if cp < 0x10000:
        return [0xE0 | cp >> 12, 0x80 | cp >> 6 & 63, 0x80 | cp & 63]
    return [0xF0 | cp >> 18, 0x80 | cp >> 12 & 63, 0x80 | cp >> 6 & 63, 0x80 | cp & 63]


def dec(b, p):
    c = b[p]
    n = 1 if c < 0x80 else 2 if c >> 5 == 6 else 3 if c >> 4 == 14 else 4 if c >> 3 == 30 else 0
    if n == 1:
        return c, 1
    if n == 0 or p + n > len(b) or any(x >> 6 != 2 for x in b[p + 1:p + n]):
        return 32, 1
    v = c & (0xFF >> (n + 1))
    for x in b[p + 1:p + n]:
        v = v << 6 | x & 63
    return v, n


def codepoints(b):
    p = 0
    while p < len(b):
        c, n = dec(b, p)
        yield c
        p += n


def table(cps):
    t = {"-1": ["no", []]}
    for cp in cps:
        k = char_class(cp)
        if k != "no":
            f = fold(cp)
            t[str(cp)] = [k, enc(f) if f != cp and k == "yes" else []]
    return t


def check_trace(module, groups, timeout=900, cps=None):
    """check_trace with the character table the trace needs"""
    if cps is None:
        cps = set()
        for g in groups:
            for e in g:
                if e.get("kind") == "utf8":
                    cps.update(codepoints(e["s"] if "s" in e else e["b"]))
    fd, path = tempfile.mkstemp(prefix="classes-", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(table(cps), f)
    try:
        return tlc.check_trace(module, groups, shards=None, timeout=timeout, env={"CLASSES": path})
    finally:
        os.unlink(path)


# texts
A_ALPHA = [97, 66, 49, 32, 10, 60, 47, 62, 38, 59, 45, 0, 195]
U_ALPHA = [97, 65, 32, 10, 0, 0xC3, 0xA9, 0x89, 0xE2, 0x98, 0x83, 0xF0, 0x9F]


def words(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield list(t)


BOUNDARY = [0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD,
            0xFFFE, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0x4DFF, 0x4E00, 0x9FFF, 0xAC00, 0xD7A3, 0x3400, 0x20000, 0x17000, 0xA9,
            0xAE, 0x2603, 0x1F600, 0x130, 0x131, 0x1E9E, 0xDF, 0x3C3, 0x3C2, 0x1F88, 0xFB05, 0x10400, 0x118A0, 0x1E900, 0xAB70,
            0x13A0, 0x2160, 0x24B6, 0x1C80, 0xA64A, 0x3B0, 0x1FE3]


def rand_char(r):
    x = r.random()
    if x < 0.35:
        return [r.choice(b"abcxyzABCXYZ0189")]
    if x < 0.55:
        return [r.choice(b" \n\t.,-_<>/&;\x00\"'")]
    if x < 0.7:
        return enc(r.choice(BOUNDARY))
    if x < 0.9:
        while True:
            cp = r.choice([r.randrange(0x80, 0x800), r.randrange(0x800, 0x10000), r.randrange(0x1E00, 0x2200),
                           r.randrange(0x10000, 0x1F700), r.randrange(0x370, 0x530)])
            if settled(cp):
                return enc(cp)
    return [r.randrange(256) for _ in range(r.choice([1, 1, 2, 3]))]


def rand_utf8(r, n):
    b = []
    for _ in range(n):
        b += rand_char(r)
    if r.random() < 0.3 and b:
        b = b[:r.randint(1, len(b))]  # possibly cut inside a character
    return [c for c in b] if all(settled(c) or c > 0x10FFFF or 0xD800 <= c <= 0xDFFF for c in codepoints(b)) else rand_utf8(r, n)


XMLISH = ["<a>", "</a>", "<B1 x=\"y z\">", "<_t-.q/>", "< b>", "<b\nc>", "<c", "<1>", "</>", "<!--", "-->", "&amp;", "&x y;", "&#39;",
          "&", "&;", "&\n;", "<d e", ">", "a<b", "<a><b>", "word", "WORD", "Word", "wORD", "x9", "9X", " ", "\n", "\t", ", ", "&a<b>;",
          "<a&b;>", "<a>&lt;<b>", "</ a>", "<A.B>", "\x00", "\xff", "<a\x00b>"]


def rand_xml(r, n):
    return [ord(c) for _ in range(n) for c in r.choice(XMLISH)]


def observe(exe, kind, texts):
    """events of one kind of tokenizer over texts"""
    name, recipe = KINDS[kind]
    d = common.Driver(exe)
    evs = []
    for k in range(0, len(texts), 500):
        part = texts[k:k + 500]
        o = d.call({"c": "tok", "tok": name, "tokr": recipe, "l": part})
        for s, (toks, split, skips) in zip(part, o["all"]):
            evs.append({"kind": kind, "s": s, "toks": toks, "split": split, "skips": skips})
    d.close()
    return evs


# cutting, as spec/Tokens.tla does (every cut is decided again by TLC)
def _alnum(c):
    return 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122


def cut(kind, b):
    """offsets of the tokens of b"""
    out, p, n = [], 0, len(b)
    if kind == "utf8":
        inside = False
        while p < n:
            cp, k = dec(b, p)
            cl = char_class(cp)
            if cl == "one" or cl == "yes" and not inside:
                out.append(p)
            inside = cl == "yes"
            p += k
        return out
    while p < n:
        c = b[p]
        if _alnum(c):
            out.append(p)
            while p < n and _alnum(b[p]):
                p += 1
            continue
        if kind == "xml" and c == 60:
            q = p + 2 if p + 1 < n and b[p + 1] == 47 else p + 1
            if q < n and (_alnum(b[q]) and not 48 <= b[q] <= 57 or b[q] == 95):
                while q < n and (_alnum(b[q]) or b[q] in (45, 95, 46)):
                    q += 1
                while q < n and b[q] not in (10, 62):
                    q += 1
                if q < n and b[q] == 62:
                    out.append(p)
                    p = q
        elif kind == "xml" and c == 38:
            q = p + 1
            while q < n and b[q] not in (32, 10, 59):
                q += 1
            if q < n and b[q] == 59:
                p = q
        p += 1
    return out


def piece(r, kind, n=None):
    """(lead, units, words, bytes) of a text of that kind; with tags and entities none is left open by a blank"""
    n = n or r.choice([0, 1, 2, 4, 8, 20])
    while True:
        if kind == "utf8":
            b = rand_utf8(r, n) if n < 200 else sum((rand_utf8(r, 20) + [32] for _ in range(n // 20)), [])
        else:
            b = rand_xml(r, n)
        if r.random() < 0.4:
            b = b + r.choice([[32], [10], [9], [32, 10]])
        if kind == "xml" and b and b[-1] in (32, 9):
            last = bytes(b).rsplit(b"\n", 1)[-1]
            if b"<" in last or b"&" in last:
                continue
        break
    full = b if not b or b[-1] in (32, 9, 10) else b + [10]
    at = cut(kind, full)
    t = "".join(map(chr, b))
    ends = at[1:] + [len(b)]
    return t[:at[0]] if at else t, [t[a:e] for a, e in zip(at, ends)], ["~"] * len(at), b
