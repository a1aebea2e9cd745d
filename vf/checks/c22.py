"""C22: an infix query means what it says, and definitions change only by defining."""
import itertools
from .. import common, tlc, build
LEVEL = "model_checking"
VOCAB = ['"a"', "x", "y", "=", "(", ")", "^", ">", "not containing", "contained in", "2", "of", ",", "[3]", "words"]
SPELL = {">>": [">>", ">", "containing"], "<<": ["<<", "<", "contained in"], "!>": ["/>", "not containing"],
         "!<": ["/<", "not contained in"], "^": ["^", "and"], "+": ["+", "or"], "...": ["<>", "..", "...", "...."]}
NAMES = ["x", "y", "xy", "doc", "docno", "do", "A1", "title2", "Of", "and", "in", "words", "ones", "notx", "of"]


def codes(s):
    return list(s.encode("utf-8"))


def gap(r, a, b):
    """Space between two spellings where they would run together, sometimes where not."""
    al = lambda ch: ch.isascii() and ch.isalnum()
    must = (al(a) and al(b)) or (a in "<>/." and b in "<>/.")
    return "".join(r.choice(" \t") for _ in range(r.choice([1, 1, 2]))) if must or r.random() < 0.6 else ""


def join(r, ps):
    out = ""
    for p in ps:
        out += (gap(r, out[-1], p[0]) if out else r.choice(["", "", " "])) + p
    return out + r.choice(["", "", " ", "\t"])


def term(r):
    return '"%s"' % r.choice(["a", "b", "hello", "", "two words", "(x)", "x = y", "é", "a^b", "1 of", ">", "a,b", "\\n a", "don't", "tab\tin", "b", "c", "d", "e", "f"])


def operand(r, depth, names):
    k = r.random()
    if depth == 0 or k < 0.35:
        return [term(r)] if not names or r.random() < 0.55 else [r.choice(names)]
    if k < 0.42:
        n = str(r.choice([1, 2, 5, 10, 99, 1234567, "007"]))
        return ["[", n, "]"] if r.random() < 0.5 else [n, "words"]
    if k < 0.65:
        m = r.randint(1, 5)
        n = r.choice([str(r.randint(0, m)), str(r.randint(0, m)), str(m + r.choice([0, 0, 0, 1])), "all", "one"])
        out = [n, r.choice(["of", "^"]), "("]
        xs = [query(r, depth - 1, names) for _ in range(m)]
        if r.random() < 0.3:
            xs[-1] = list(xs[0])
        for j, x in enumerate(xs):
            out += ([","] if j else []) + x
        return out + [")"]
    return ["("] + query(r, depth - 1, names) + [")"]


def query(r, depth, names):
    out = operand(r, depth, names)
    for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if depth else r.choice([0, 0, 0, 1])):
        out += r.choice(r.choice(list(SPELL.values()))).split(" ") + operand(r, depth - 1 if depth else 0, names)
    return out


def mangle(r, ps):
    ps = list(ps)
    for _ in range(r.randint(1, 2)):
        k = r.random()
        i = r.randrange(len(ps) + 1)
        new = r.choice(VOCAB + ["]", "[", "not", "contained", "all", "one", "..", "/", "0", "\"", "&", "zed", "\n", "é", "5", "[0]", "0 words", "/>>", "....."])
        if k < 0.4 and ps:
            del ps[min(i, len(ps) - 1)]
        elif k < 0.8:
            ps.insert(i, new)
        elif ps:
            ps[min(i, len(ps) - 1)] = new
    return ps


def session(r):
    says, names = [], {1: [], 2: []}
    for _ in range(r.randint(5, 25)):
        m = 1 if r.random() < 0.7 else 2
        known = names[m]
        if r.random() < 0.03:
            says.append((m, r.choice(["", " ", "\t "])))
            continue
        ps = query(r, r.choice([0, 1, 2, 2, 3]), known if r.random() < 0.9 else NAMES)
        name = None
        if r.random() < 0.35:
            name = r.choice(NAMES)
            ps = [name, "="] + ps
        if r.random() < 0.25:
            ps = mangle(r, ps)
        s = join(r, ps)
        if len(s) > 600:
            continue
        says.append((m, s))
        if name and name not in known:
            known.append(name)
    # what is defined by now
    for m in (1, 2):
        says += [(m, n) for n in NAMES if n not in ("one", "all")]
    return says


def run(c):
    T = common.THOROUGH
    m = tlc.run("MCInfix", "MCInfix%s.cfg" % ("5" if T else "4"), workers=8, timeout=850, heap="8g")
    if not m.ok:
        raise tlc.TlcError("the infix grammar contradicts itself:\n" + m.msg)
    c.add("states", m.distinct)
    exe = build.build(["cdrv"])["cdrv"]
    r = common.rng(c.pid)
    jobs = []
    short = [" ".join(t) for k in (1, 2, 3) for t in itertools.product(VOCAB, repeat=k)]
    four = list(itertools.product(VOCAB, repeat=4))
    short += [" ".join(t) for t in (four if T else r.sample(four, 4000))]
    r.shuffle(short)
    for k in range(0, len(short), 150):
        says = []
        for s in short[k:k + 150]:
            says += [(1, 'x = "b"'), (1, s)]
        jobs.append(says)
    for _ in range(20000 if T else 700):
        jobs.append(session(r))
    c.add("exhaustive_texts", len(short))
    batches = [jobs[k::64] for k in range(64)]

    def go(b):
        cmds = []
        for j, says in enumerate(b):
            cmds += [{"c": "infix", "m": "%d.%d" % (j, m), "s": codes(s)} for m, s in says]
        out = common.drive(c, exe, cmds, 120, "infix queries")
        if out is None:
            return []
        evs, k = [], 0
        for says in b:
            evs.append({"says": [{"m": m, "s": codes(s), "ok": o["ok"], "str": o.get("str", []), "hop": o.get("hop", False)}
                                 for (m, s), o in zip(says, out[k:k + len(says)])]})
            k += len(says)
        return evs
    evs = [e for l in common.par_map(go, batches) for e in l]
    # the texts that have no parenthesised form
    for k in c.known():
        ok, bad, st = tlc.check_trace("InfixTrace", go([[(1, t)] for t in k["texts"]]), shards=1, timeout=300)
        if not ok:
            print("KNOWN-FINDING: property=C22 %s" % k["what"])
    ok, bad, st = tlc.check_trace("InfixTrace", evs, shards=8, timeout=850)
    c.add("states", st)
    c.add("transitions", sum(len(e["says"]) for e in evs))
    c.add("traces_validated_against_impl", len(evs))
    c.add("accepted", sum(1 for e in evs for a in e["says"] if a["ok"]))
    c.add("refused", sum(1 for e in evs for a in e["says"] if not a["ok"]))
    c.cov["rule"] = "every text of at most three tokens (four in part) of a vocabulary of 15, and random sessions of two interpreters with definitions, a quarter of the texts damaged"
    for e in evs[-2:]:
        c.sample({"said": [bytes(a["s"]).decode("utf-8", "replace") for a in e["says"]][:6]})
    for rej, g, out in bad:
        mm = [l for l in out.split("\n") if "MISMATCH" in l]
        says = g[rej - 1]["says"]
        what = mm[0][:1500] if mm else ""
        c.violation("an infix session: %s" % what, {"says": [[a["m"], bytes(a["s"]).decode("utf-8", "replace"), a["ok"], bytes(a["str"]).decode("utf-8", "replace")] for a in says]})
