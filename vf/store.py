"""Histories of a burrow against spec/Store.tla: a session drives the real code and records one event per call."""
import os, json
from . import common, tlc

SEPS = [" ", "\n", ", ", "\t", "  ", " - ", ".\n", "...", "! ", " \n\n ", ";\t"]
WORDS = ["a", "b", "c", "d", "e", "f1", "g", "h", "zz9", "0"]


def rand_piece(r, words=WORDS, n=None, lead=None):
    """(lead, [token+following bytes], [token])"""
    if n is None:
        n = r.choice([0, 1, 1, 2, 3, 3, 4, 6, 9])
    lead = lead if lead is not None else (r.choice(SEPS) if r.random() < 0.25 else "")
    if n == 0 and lead == "" and r.random() < 0.7:
        lead = r.choice(SEPS)
    ws = [r.choice(words) for _ in range(n)]
    units = [w + (r.choice(SEPS) if r.random() < 0.5 else " ") for w in ws]
    if units and r.random() < 0.5:
        units[-1] = ws[-1]  # completed by the code
    return lead, units, ws


class Txn:
    def __init__(self, tid, w):
        self.id, self.w, self.n, self.pieces, self.st, self.base = tid, w, 0, [], "open", None
        self.anns, self.ers, self.seq, self.marker, self.readyev = [], [], None, None, None


class Session:
    """cfg: disk, dir, mk (the mk command), tohazel (compressor names)"""

    def __init__(self, exe, r, cfg, env=None, preload=None, make=True):
        self.r, self.cfg = r, cfg
        self.d = common.Driver(exe, env=env, preload=preload)
        self.evs = [{"k": "new", "w": "", "_i": -1}]
        self.txns, self.curs, self.views = {}, {}, {}
        self.ntxn = 0
        self.nseq = 0
        self.npiece = 0
        self.features = set()
        self.ws = ["w0"]
        self.text = None    # the kind of text, where it is not plain words
        self.solid = False  # whether every transaction has a token, so that it can be found
        if make:
            self.call(dict({"c": "mk", "w": "w0"}, **cfg["mk"]))

    def call(self, cmd, ok=True):
        o = self.d.call(cmd)
        return o

    def ev(self, k, w, o, **kw):
        e = {"k": k, "w": w, "ok": bool(o.get("ok", False)), "_i": len(self.d.log) - 1}
        e.update(kw)
        self.evs.append(e)
        return e

    # writer
    def begin(self, w):
        self.ntxn += 1
        t = Txn("T%d" % self.ntxn, w)
        self.ev("txn", w, self.call({"c": "txn", "w": w}), t=t.id)
        self.txns[t.id] = t
        self.curs[w] = t
        return t

    def append(self, w, piece):
        lead, units, words = piece[:3]
        t = self.curs[w]
        self.npiece += 1
        pid = "%s.%d" % (t.id, self.npiece)
        o = self.call({"c": "append", "w": w, "t": piece[3] if len(piece) > 3 else lead + "".join(units), "id": pid})
        e = self.ev("app", w, o, n=o.get("n", -1), lead=lead, units=units, words=words)
        if len(piece) > 3:
            e.update({"b": piece[3], "kind": self.text})
        if words:
            t.pieces.append((pid, t.n, len(words)))
        for i, x in enumerate(words):
            t.anns.append((x, (t, t.n + i), (t, t.n + i)))
        t.n += len(words)
        self.features.update(x for x in words if x != "~")

    def where(self, ref):
        """(transaction, offset) as a driver address; own offsets go through a piece of the transaction"""
        t, off = ref
        if t.base is not None:
            return t.base + off
        for pid, o, n in t.pieces:
            if o <= off < o + n:
                return {"r": pid, "o": off - o}
        pid, o, n = t.pieces[-1]
        return {"r": pid, "o": off - o}

    def at(self, ref):
        t, off = ref
        return [1, t.base + off] if t.base is not None else [0, off]

    def annotate(self, w, l):
        """l: [(feature, (txn, off), (txn, off), value)]"""
        t = self.curs[w]
        o = self.call({"c": "anns", "w": w, "l": [[f, self.where(p), self.where(q), v] for f, p, q, v in l]})
        self.ev("anns", w, o, l=[[f, self.at(p), self.at(q), v] for f, p, q, v in l])
        for f, p, q, v in l:
            t.anns.append((f, p, q))
            self.features.add(f)

    def erase(self, w, p, q):
        t = self.curs[w]
        o = self.call({"c": "erase", "w": w, "p": self.where(p), "q": self.where(q)})
        self.ev("erase", w, o, p=self.at(p), q=self.at(q))
        t.ers.append((p, q))

    def ready(self, w):
        t = self.curs[w]
        if t.n == 0 and self.solid:
            self.append(w, rand_piece(self.r, n=self.r.choice([1, 2, 3])))
        if t.n > 0:  # a marker on a token no own erasure covers, to find the addresses later
            free = [i for i in range(t.n) if not any(q[0] is t and i <= q[1] and (p[0] is not t or p[1] <= i)
                                                        for p, q in t.ers)]
            if free:
                t.marker = self.r.choice(free)
                self.annotate(w, [("@" + t.id, (t, t.marker), (t, t.marker), 7)])
        o = self.call({"c": "ready", "w": w})
        t.readyev = self.ev("ready", w, o, b=-1)
        t.st = "ready"
        t.seq = self.nseq
        self.nseq += 1
        return t

    def locate(self, t):
        if t.n == 0 or t.marker is None:
            return
        o = self.call({"c": "locate", "w": self.ws[0], "f": "@" + t.id, "id": t.id})
        if o.get("p", 10 ** 9) < 10 ** 9:
            t.base = o["p"] - t.marker
            t.readyev["b"] = t.base

    def commit(self, w, locate=True):
        t = self.curs.pop(w)
        self.ev("commit", w, self.call({"c": "commit", "w": w}))
        t.st = "committed"
        if locate:
            self.locate(t)
        return t

    def commitall(self, ws):
        ts = [self.curs.pop(w) for w in ws]
        self.ev("commitall", ws[0], self.call({"c": "commitall", "ws": ws}), ws=ws)
        for t in ts:
            t.st = "committed"
        for t in ts:
            self.locate(t)

    def abort(self, w):
        t = self.curs.pop(w)
        self.ev("abort", w, self.call({"c": "abort", "w": w}))
        t.st = "aborted"

    # reader
    def start(self, w):
        self.ev("start", w, self.call({"c": "start", "w": w}))
        self.views[w] = True

    def end(self, w):
        self.ev("end", w, self.call({"c": "end", "w": w}))
        self.views.pop(w, None)

    def clone(self, w, as_):
        self.ev("clone", w, self.call({"c": "clone", "w": w, "as": as_}), **{"as": as_})
        if self.views.get(w):
            self.views[as_] = True
        self.ws.append(as_)

    def known(self):
        return [t for t in self.txns.values() if t.base is not None]

    def ranges(self, k):
        r, out = self.r, []
        ts = sorted(self.known(), key=lambda t: t.base)
        top = max([t.base + t.n for t in ts] or [0])
        for _ in range(k):
            x = r.random()
            if ts and x < 0.35:
                t = r.choice(ts)
                a = r.randint(0, t.n - 1)
                b = r.randint(a, t.n - 1) if r.random() < 0.7 else t.n - 1
                if r.random() < 0.3:
                    a = 0
                out.append([t.base + a, t.base + b])
            elif ts and x < 0.7:
                t, u = r.choice(ts), r.choice(ts)
                if u.base < t.base:
                    t, u = u, t
                out.append([t.base + r.randint(0, t.n - 1), u.base + r.randint(0, u.n - 1)])
            elif x < 0.9:
                p = r.randint(0, top + 2)
                out.append([p, p + r.choice([0, 1, 2, 5, 1000])])
            else:
                out.append(r.choice([[0, top], [0, 10 ** 6], [top, top + 5], [top - 1, top + 9], [3, 1], [-5, 2]]))
        return out

    def observe(self, w, nf=None, nt=6):
        r = self.r
        fs = sorted(self.features) + ["nosuch"]
        fs = [f for f in fs if not f.startswith("w0")] or fs
        if nf is not None and len(fs) > nf:
            fs = r.sample(fs, nf)
        trs = self.ranges(nt)
        o = self.call({"c": "obs", "w": w, "fs": fs, "trs": trs, "range": True})
        ev = {"k": "obs", "w": w, "fs": fs, "lists": o.get("lists"), "counts": o.get("counts"),
              "trs": [a + [b] for a, b in zip(trs, o.get("trs", []))], "range": o.get("range"),
              "tokens": o.get("tokens")}
        if "fwdback" in o or not o.get("ok", True):
            ev.update({"lists": [[[-9, -9, -9]]] * len(fs), "counts": [0] * len(fs), "range": o.get("range") or [],
                       "tokens": o.get("tokens", -1)})
        self.evs.append(ev)
        return ev

    # background
    def compact(self, w, o=None):
        self.ev("compact", w, o or {"ok": True})

    def merge(self, on):
        self.compact("w0", self.call({"c": "merge", "w": self.ws[0], "on": on}))

    def settle(self):
        self.compact("w0", self.call({"c": "settle"}))

    def reopen(self, hazel=False, merge=None, only=None):
        """Everything is dropped and the burrow opened again; uncommitted transactions are gone."""
        d = self.cfg["dir"]
        self.call({"c": "settle"})
        if hazel:
            cmd = dict({"c": "tohazel", "w": "w0", "dir": d}, **self.cfg["codec"])
            if only is not None:
                cmd["only"] = only
            cmd["chunk"] = self.cfg.get("chunk", 65536)
            self.compact("w0", self.call({"c": "merge", "w": self.ws[0], "on": False}))
        self.call({"c": "drop"})
        if hazel:
            self.call({"c": "open", "w": "w0", "dir": d})
            self.call({"c": "merge", "w": "w0", "on": False})
            self.compact("w0", self.call(cmd))
            self.call({"c": "drop"})
        o = self.call({"c": "open", "w": "w0", "dir": d})
        for t in self.curs.values():
            t.st = "aborted"
        self.curs, self.views, self.ws = {}, {}, ["w0"]
        self.ev("reopen", "w0", o)
        if merge is not None:
            self.call({"c": "merge", "w": "w0", "on": merge})

    # avoiding what the specification calls ambiguous
    def ambiguous(self, extra_anns=(), extra_ers=(), cur=None):
        """Whether some erased annotation would lie strictly inside one of its feature that is not erased
        (over everything that is, or may become, committed)."""
        anns, ers = {}, []
        key = lambda ref: (ref[0].id, ref[1])

        def pos(ref):
            t, off = ref
            return (t.base + off) if t.base is not None else (1 << 20) * (1 + int(t.id[1:])) + off
        for t in self.txns.values():
            if t.st == "aborted":
                continue
            for f, p, q in t.anns:
                anns.setdefault(f, set()).add((pos(p), pos(q)))
            ers += [(pos(p), pos(q)) for p, q in t.ers]
        for f, p, q in extra_anns:
            anns.setdefault(f, set()).add((pos(p), pos(q)))
        ers += [(pos(p), pos(q)) for p, q in extra_ers]
        if not ers:
            return False
        fs = set(f for f, _, _ in extra_anns) if extra_anns and not extra_ers else anns
        for f in fs:
            l = anns.get(f, ())
            gone = [x for x in l if any(a <= x[0] and x[1] <= b for a, b in ers)]
            if not gone:
                continue
            gset = set(gone)
            for x in gone:
                for y in l:
                    if y not in gset and y != x and y[0] <= x[0] and x[1] <= y[1]:
                        return True
        return False

    def par(self, writers, readers, timeout=180):
        """Several threads at once.  writers: per thread a list of transactions (warren or list of warrens for a
        group commit, plans, end) with plan = (pieces, [(f, a, b, v)], [(a, b)]) on own offsets; readers: per
        thread a list of raw commands, observations being tagged with their view."""
        th, new = [], []
        self.evs.append({"k": "round", "w": ""})
        for prog in writers:
            cmds, info = [], []
            for ws, plans, end in prog:
                ts = []
                for w, (pieces, anns, ers) in zip(ws, plans):
                    self.ntxn += 1
                    t = Txn("T%d" % self.ntxn, w)
                    t.plan, t.end = (pieces, anns, ers), end
                    self.txns[t.id] = t
                    cmds.append({"c": "txn", "w": w})
                    for pc in pieces:
                        lead, units, words = pc
                        self.npiece += 1
                        pid = "%s.%d" % (t.id, self.npiece)
                        cmds.append({"c": "append", "w": w, "t": lead + "".join(units), "id": pid})
                        if words:
                            t.pieces.append((pid, t.n, len(words)))
                        t.n += len(words)
                        self.features.update(words)
                    l = [(f, (t, a), (t, b), v) for f, a, b, v in anns]
                    free = [i for i in range(t.n) if not any(a <= i <= b for a, b in ers)]
                    t.marker = free[0]
                    l.append(("@" + t.id, (t, t.marker), (t, t.marker), 7))
                    t.full = l
                    cmds.append({"c": "anns", "w": w, "l": [[f, self.where(p), self.where(q), v] for f, p, q, v in l]})
                    for a, b in ers:
                        cmds.append({"c": "erase", "w": w, "p": self.where((t, a)), "q": self.where((t, b))})
                    ts.append(t)
                    new.append(t)
                if end != "drop":
                    for t in ts:
                        cmds.append({"c": "ready", "w": t.w})
                if end == "commit":
                    if len(ts) == 1:
                        cmds.append({"c": "commit", "w": ts[0].w})
                    else:
                        cmds.append({"c": "commitall", "ws": [t.w for t in ts]})
                    for t in ts:
                        t.at = (len(th), len(cmds) - 1)
                else:
                    for t in ts:
                        cmds.append({"c": "abort", "w": t.w})
            th.append(cmds)
        nw = len(th)
        feats = sorted(self.features | set("@" + t.id for t in self.txns.values()))
        for t in new:
            for f, _, _, _ in t.full:
                self.features.add(f)
        feats = sorted(set(feats) | self.features)
        for prog in readers:
            cmds = []
            for cmd in prog:
                cmd = dict(cmd)
                if cmd["c"] == "obs":
                    cmd["fs"] = feats
                    cmd["range"] = True
                cmds.append(cmd)
            th.append(cmds)
        o = self.d.call({"c": "par", "th": th}, timeout=timeout)
        out = {(x["th"], x["k"]): x for x in self.d.extra if "th" in x}
        bad = [(k, x) for k, x in out.items() if not x.get("ok")]
        for t in new:
            if t.end == "commit":
                self.locate2(t)
        done = sorted([t for t in new if t.end == "commit"], key=lambda t: (t.base is None, t.base))
        held = []
        for t in done:  # as if one after the other, in the order of their addresses
            w = "p" + t.id
            self.evs.append({"k": "txn", "w": w, "ok": True, "t": t.id})
            for lead, units, words in t.plan[0]:
                self.evs.append({"k": "app", "w": w, "ok": True, "n": len(units), "lead": lead, "units": units,
                                 "words": words})
            self.evs.append({"k": "anns", "w": w, "ok": True,
                             "l": [[f, [0, p[1]], [0, q[1]], v] for f, p, q, v in t.full]})
            for a, b in t.plan[2]:
                self.evs.append({"k": "erase", "w": w, "ok": True, "p": [0, a], "q": [0, b]})
            # a committed transaction that nobody can find was lost
            self.evs.append({"k": "ready", "w": w, "ok": t.base is not None and not bad, "b": t.base if t.base is not None else -1})
            self.evs.append({"k": "commit", "w": w, "ok": True})
            x = out[t.at]
            self.evs.append({"k": "tick", "w": w, "t": t.id, "cb": x["b"], "ce": x["e"]})
            t.st = "committed"
            for pc in t.plan[0]:
                pass
            off = 0
            for lead, units, words in t.plan[0]:
                for x2 in words:
                    t.anns.append((x2, (t, off), (t, off)))
                    off += 1
            t.anns += [(f, p, q) for f, p, q, _ in t.full]
            t.ers += [((t, a), (t, b)) for a, b in t.plan[2]]
        for t in new:
            if t.end != "commit":
                t.st = "aborted"
        for n, prog in enumerate(readers):
            starts = {}
            for k, cmd in enumerate(prog):
                x = out.get((nw + n, k), {"ok": False, "b": 0, "e": 0})
                if cmd["c"] == "start":
                    starts[cmd["w"]] = (x["b"], x["e"], "%s.%d.%d.%d" % (cmd["w"], n, k, self.ntxn))
                elif cmd["c"] == "clone":
                    if cmd["w"] in starts:
                        starts[cmd["as"]] = starts[cmd["w"]]
                elif cmd["c"] == "obs":
                    e = {"w": cmd["w"], "fs": feats, "lists": x.get("lists", []), "counts": x.get("counts", []),
                         "trs": [a + [b] for a, b in zip(cmd["trs"], x.get("trs", []))], "range": x.get("range"),
                         "tokens": x.get("tokens")}
                    if "fwdback" in x or not x.get("ok"):
                        e.update({"lists": [[[-9, -9, -9]]] * len(feats), "counts": [0] * len(feats),
                                  "range": x.get("range") or [], "tokens": x.get("tokens", -1)})
                    if cmd.get("fixed"):  # a view from before the threads began
                        e["k"] = "obs"
                    else:
                        sb, se, v = starts[cmd["w"]]
                        e.update({"k": "cobs", "sb": sb, "se": se, "v": v})
                    self.evs.append(e)
        return bad

    def locate2(self, t):
        o = self.call({"c": "locate", "w": self.ws[0], "f": "@" + t.id, "id": t.id})
        if o.get("p", 10 ** 9) < 10 ** 9:
            t.base = o["p"] - t.marker

    def close(self):
        self.d.close()
        return self.evs


def events_until(s, i, during):
    """The calls of session s before its command i (and that one, unless it was in progress), without observations."""
    return [dict(e) for e in s.evs if e.get("_i", -2) >= -1 and e["k"] not in ("obs", "cobs") and
            (e["_i"] < i or (e["_i"] == i and not during))]


def resume(exe, r, cfg, s, mark, env=None, preload=None):
    """A session on what a crash of session s left behind.  mark: 2 * command, plus one once it had returned."""
    i, during = mark // 2, mark % 2 == 0
    b = Session(exe, r, cfg, env=env, preload=preload, make=False)
    b.evs = events_until(s, i, during)
    cur, done = {}, []
    for e in b.evs:
        if e["k"] == "txn":
            cur[e["w"]] = e["t"]
        elif e["k"] == "commit":
            done.append(cur.pop(e["w"]))
        elif e["k"] == "commitall":
            done += [cur.pop(w) for w in e["ws"]]
        elif e["k"] == "abort":
            cur.pop(e["w"])
        elif e["k"] == "reopen":
            cur = {}
    cmd = s.d.log[i] if during and i < len(s.d.log) else {"c": ""}
    ws = [cmd["w"]] if cmd["c"] == "commit" else cmd["ws"] if cmd["c"] == "commitall" else []
    flight = [cur[w] for w in ws if w in cur]
    o = b.call({"c": "open", "w": "w0", "dir": cfg["dir"]})
    b.flight, sv = flight, []
    for t in flight:
        if s.txns[t].n > 0 and b.call({"c": "locate", "w": "w0", "f": "@" + t}).get("p", 10 ** 9) < 10 ** 9:
            sv.append(t)
    b.sv = sv
    b.ev("crash", "w0", o, ws=ws, sv=sv)
    for t in done + sv:
        b.txns[t] = s.txns[t]
    b.features = set(s.features)
    b.ntxn, b.npiece, b.nseq = s.ntxn, s.npiece, s.nseq
    for x in done + sv:  # pieces named by the first process do not exist in this one
        b.txns[x].pieces = []
    return b


def validate(c, sessions, what, shards=8, timeout=900, check=None):
    """sessions: [(events, log)]; TLC accepts or rejects every history."""
    groups = [[] for _ in range(min(shards, max(1, len(sessions))))]
    sizes = [0] * len(groups)
    index = [[] for _ in groups]
    for n, (evs, log) in sorted(enumerate(sessions), key=lambda x: -len(x[1][0])):
        g = sizes.index(min(sizes))
        index[g].append((len(groups[g]), n))
        groups[g] += evs
        sizes[g] += sum(len(json.dumps(e)) for e in evs)
    check = check or (lambda g, timeout: tlc.check_trace("StoreTrace", g, shards=None, timeout=timeout))
    ok, bad, states = check(groups, timeout=timeout)
    c.add("states", states)
    c.add("traces_validated_against_impl", len(sessions))
    c.add("transitions", sum(len(e) for e, _ in sessions))
    for rej, g, out in bad:
        gi = [i for i, x in enumerate(groups) if x is g][0]
        start, n = max(x for x in index[gi] if x[0] < rej)
        evs, log = sessions[n]
        k = rej - start - 1
        m = [l for l in out.split("\n") if "MISMATCH" in l]
        c.violation("%s: event %d of the history: %s\n  %s" % (
            what, k, json.dumps(evs[k])[:700], (m[-1][:700] if m else "")), {"events": evs[:k + 1], "cmds": log})
    return ok
