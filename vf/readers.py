"""Concurrent readers: the real code steered along schedules that TLC generates from CacheWalk.tla, and threads let
loose on cold caches; every answer is decided by the specification of what a lone reader gets (Store, Static)."""
import json, os, re
from . import common, store, static, histgen, build, tlc, archives


def schedules(c, n):
    """Behaviours of Cache.tla."""
    out = []
    for cfg in ("CacheWalk.cfg", "CacheWalk2.cfg"):
        m = tlc.run("CacheWalk", cfg, timeout=300, extra=[
            "-simulate", "num=%d" % n, "-depth", "400", "-seed", str(common.SEED)])
        if not m.ok:
            raise tlc.TlcError("the model of the caches is wrong:\n" + m.msg)
        c.add("states", m.distinct)
        for l in m.out.split("\n"):
            if l.startswith('"SCHED '):
                out.append(json.loads(json.loads(l)[6:]))
    if not out:
        raise tlc.TlcError("no schedules:\n" + m.out[-2000:])
    return out


def answer(x, w, fs, trs, rng):
    e = {"k": "obs", "w": w, "fs": fs, "lists": x.get("lists", []), "counts": x.get("counts", []),
         "trs": [a + [b] for a, b in zip(trs, x.get("trs", []))], "range": x.get("range"), "tokens": x.get("tokens")}
    if "fwdback" in x or not x.get("ok"):
        e.update({"lists": [[[-9, -9, -9]]] * len(fs), "counts": [0] * len(fs), "range": x.get("range") or [],
                  "tokens": x.get("tokens", -1)})
    return e


class Readers:
    """Rounds of reading on a session s (of a burrow, or static)."""

    def __init__(self, s, r, c, kind):
        self.s, self.r, self.c, self.kind = s, r, c, kind
        self.static = kind == "static"
        self.n = 0
        self.seen = set()
        self.scarce = []
        self.view = 0       # changes whenever something else is to be seen

    def name(self):
        self.n += 1
        return "n%d" % self.n

    def features(self, k):
        fs = sorted(f for f in self.s.features if not f.startswith("@")) + ["nosuch"]
        at = sorted(f for f in self.s.features if f.startswith("@"))
        r = self.r
        out = r.sample(fs, min(len(fs), k))
        if at and r.random() < 0.5:
            out.append(r.choice(at))
        return out

    def ranges(self, k):
        s, r = self.s, self.r
        if not self.static:
            return s.ranges(k)
        top = s.total - 1
        return [[r.randint(0, max(0, top)), r.choice([top, top + 1, 10 ** 6, r.randint(0, max(0, top))])] for _ in range(k)]

    def obs(self, w, k=None, text=None):
        r = self.r
        cmd = {"c": "obs", "w": w, "fs": self.features(k or r.choice([1, 2, 4, 8])), "trs": [], "range": True}
        if text or text is None and r.random() < 0.4:
            cmd["trs"] = self.ranges(2)
            if text:
                cmd["fs"] = cmd["fs"][:1] if r.random() < 0.2 else []
        return cmd

    def got(self, cmd, x, view):
        """One answer; the same answer in the same view to the same question is looked at once."""
        self.c.add("reads")
        e = answer(x, cmd["w"], cmd["fs"], cmd["trs"], True)
        key = json.dumps([view, [e[k] for k in ("fs", "lists", "counts", "trs", "range", "tokens")]])
        if key not in self.seen:
            self.seen.add(key)
            self.s.evs.append(e)

    def warren(self, shared=None):
        """A warren for a thread: a clone of its own, started; or one that several share."""
        s = self.s
        if shared:
            return shared
        w = self.name()
        if self.static:
            if self.base is None or self.r.random() < 0.3:
                s.open(w)
            else:
                o = s.call({"c": "clone", "w": self.base, "as": w})
                s.ev("open", w, o)
            return w
        if self.kind == "lone":
            o = s.call({"c": "clone", "w": self.base, "as": w})
            s.ev("archive", w, o, ts=self.ts)
            return w
        s.clone("w0", w)
        s.ws.remove(w)
        s.start(w)
        return w

    def done(self, ws):
        for w in set(ws):
            if not self.static and self.kind != "lone":
                self.s.end(w)
            self.s.call({"c": "drop", "w": w})

    def cold(self):
        """Nothing is cached, or at least nothing joined."""
        s, r = self.s, self.r
        if self.static:
            s.call({"c": "settle"})
            s.call({"c": "drop"})
            s.readers, s.writer = [], None
            self.base = self.name()
            s.open(self.base)
        elif self.kind == "lone":
            s.call({"c": "settle"})
            s.call({"c": "drop"})
            self.base = self.name()
            o = s.call({"c": "open", "w": self.base, "dir": os.path.join(s.cfg["dir"], self.file)})
            s.ev("archive", self.base, o, ts=self.ts)
            s.call({"c": "start", "w": self.base})
        elif s.cfg["disk"]:
            some = sorted(r.sample(range(8), r.randint(0, 6)))
            s.reopen(hazel=self.kind == "archive" and r.random() < 0.5, merge=False, only=some)
        else:
            self.write("w0")
            s.commit("w0")
        self.view += 1

    def rare(self):
        """Words of one transaction each, that a later one may use again."""
        s = self.s
        for k in range(3):
            s.begin("w0")
            ws = ["q%d" % (4 * k + n % 4) for n in range(10)] + ["a"]
            s.append("w0", ("", [w + " " for w in ws], ws))
            s.ready("w0")
            s.commit("w0")
        self.scarce = ["q%d" % n for n in range(12)]

    def write(self, w, words=()):
        s, r = self.s, self.r
        s.begin(w)
        if words:
            ws = list(words) * 2
            s.append(w, ("", [x + " " for x in ws], ws))
        s.append(w, store.rand_piece(r, n=r.choice([1, 2, 4, 700 if r.random() < 0.15 else 5])))
        t = s.curs[w]
        l = []
        for _ in range(r.choice([0, 1, 3])):
            a = r.randint(0, t.n - 1)
            l.append((r.choice(["x", "y"]), (t, a), (t, min(t.n - 1, a + r.choice([0, 1, 2]))), r.randint(0, 9)))
        l = [x for x in l if not s.ambiguous([x[:3]])]
        if l:
            s.annotate(w, l)
        s.ready(w)

    # threads let loose
    def loose(self, nt):
        s, r = self.s, self.r
        self.cold()
        dyn = not self.static and self.kind != "lone"
        own = r.random() < 0.6
        sh = None if own else self.warren()
        ws, th, evs = [], [], []
        asks = [self.obs("?") for _ in range(r.choice([2, 4, 6]))]
        if r.random() < 0.3:  # the whole text
            asks = [{"c": "obs", "w": "?", "fs": [], "trs": [[0, 10 ** 6]] + self.ranges(k), "range": True} for k in range(2)]
        for i in range(nt):
            w = self.warren(sh)
            ws.append(w)
            prog = []
            mine = list(asks)
            if r.random() < 0.4:
                r.shuffle(mine)
            for k, a in enumerate(mine):
                if dyn and own and r.random() < 0.15:
                    prog += [{"c": "end", "w": w}, {"c": "start", "w": w}]
                if r.random() < 0.12 and (own or not self.static):
                    k = self.name()
                    prog.append({"c": "clone", "w": w, "as": k})
                    prog.append(dict(a, w=k))
                    if dyn:
                        prog.append({"c": "end", "w": k})
                    prog.append({"c": "drop", "w": k})
                prog.append(dict(a, w=w))
            th.append(prog)
        if r.random() < 0.6:
            s.call({"c": "perturb", "n": r.choice([20, 100, 300]), "seed": r.randint(1, 10 ** 6)})
        s.d.call({"c": "par", "th": th}, timeout=180)
        out = {(x["th"], x["k"]): x for x in s.d.extra if "th" in x}
        s.call({"c": "perturb", "n": 0})
        for i, prog in enumerate(th):
            for k, cmd in enumerate(prog):
                x = out.get((i, k), {"ok": False})
                if cmd["c"] == "obs":
                    self.got(cmd, x, self.view)
                elif cmd["c"] == "clone" and not dyn:
                    if self.static:
                        s.ev("open", cmd["as"], x)
                    else:
                        s.ev("archive", cmd["as"], x, ts=self.ts)
                elif cmd["c"] != "drop":
                    s.ev(cmd["c"], cmd["w"], x, **({"as": cmd["as"]} if cmd["c"] == "clone" else {}))
        self.done(ws)
        self.c.add("rounds_loose")

    def many(self):
        """Many lists, each in several pieces."""
        s, r = self.s, self.r
        self.words = ["m%d" % n for n in range(r.choice([40, 80, 150]))]
        if self.static:
            for _ in range(2):
                s.writer = s.writer or s.name()
                if len(s.evs) and s.writer not in [e.get("w") for e in s.evs if e["k"] == "open"]:
                    s.open(s.writer)
                s.txn(s.writer)
                ws = self.words * 2
                o = s.call({"c": "append", "w": s.writer, "t": " ".join(ws) + " "})
                s.ev("app", s.writer, o, n=o.get("n", -1), lead="", units=[w + " " for w in ws], words=ws)
                s.features.update(ws)
                s.cur[2] += len(ws)
                s.ready()
                s.commit()
            return
        for _ in range(r.choice([2, 3])):
            s.begin("w0")
            ws = list(self.words)
            r.shuffle(ws)
            ws += self.words[:20]
            s.append("w0", ("", [w + " " for w in ws], ws))
            s.ready("w0")
            s.commit("w0")

    def burst(self, nt):
        s, r = self.s, self.r
        self.cold()
        sh = self.warren() if r.random() < 0.4 else None
        ws = [self.warren(sh) for _ in range(nt)]
        back = r.random() < 0.3
        th = [[{"c": "obs", "w": w, "fs": self.words[::-1] if back and i % 2 else self.words, "trs": [], "range": True,
                "burst": True}] for i, w in enumerate(ws)]
        s.call({"c": "perturb", "n": r.choice([0, 0, 20, 300]), "seed": r.randint(1, 10 ** 6)})
        if r.random() < 0.4:  # all reading of files waits until everybody has asked
            o = s.d.call({"c": "sched", "n": nt, "starts": False, "us": 1000,
                      "steps": [["ask", i, p[0]] for i, p in enumerate(th)]}, timeout=180)
            self.c.add("reads_held", o.get("held", 0))
        else:
            s.d.call({"c": "par", "th": th}, timeout=180)
        out = {x["th"]: x for x in s.d.extra if "th" in x}
        s.call({"c": "perturb", "n": 0})
        for i, prog in enumerate(th):
            self.got(prog[0], out.get(i, {"ok": False}), self.view)
        self.done(ws)
        self.c.add("rounds_burst")

    # threads steered along a behaviour of the specification
    def steered(self, sched):
        s, r = self.s, self.r
        self.cold()
        dyn = not self.static and self.kind != "lone"
        own = r.random() < 0.7
        sh = None if own else self.warren()
        ws = [self.warren(sh) for _ in range(3)]
        views = [self.view] * 3
        group = {"a": self.features(r.choice([1, 1, 3])), "b": self.features(r.choice([1, 2]))}
        commit = dyn and any(x[0] == "commit" for x in sched) and r.random() < 0.7
        merge = dyn and r.random() < 0.6
        if commit:
            wc = self.name()
            s.clone("w0", wc)
            again = []
            if self.scarce and r.random() < 0.7:
                again = r.sample(self.scarce, min(len(self.scarce), r.choice([1, 2])))
                group["b"] = [again[0]]
                if r.random() < 0.5:
                    group["a"] = [again[-1]]
                self.scarce = [x for x in self.scarce if x not in again]
            self.write(wc, again)
        steps, what = [], []

        def add(st, tell):
            steps.append(st)
            what.append(tell)
        view, merging = self.view, False
        for x in sched:
            if x[0] == "ask":
                t = int(x[1])
                if dyn and own and views[t] != view and r.random() < 0.7:
                    add(["do", t, {"c": "end", "w": ws[t]}], ("end", t))
                    add(["do", t, {"c": "start", "w": ws[t]}], ("start", t))
                    views[t] = view
                cmd = self.obs(ws[t], text=True) if x[2] == "text" else {
                    "c": "obs", "w": ws[t], "fs": group[x[2]], "trs": [], "range": True}
                add(["ask", t, cmd], ("obs", t, cmd, views[t]))
            elif x[0] in ("lib", "own"):
                add([x[0], int(x[1])], ("go",))
            elif x[0] == "merge":
                if merge and not merging:
                    add(["do", 3, {"c": "merge", "w": "w0", "on": True}], ("merge", 3))
                    merging = True
                else:
                    add(["lib", 1000], ("go",))
            elif x[0] == "commit" and commit:
                add(["do", 3, {"c": "commit", "w": wc}], ("commit", 3))
                view += 1
        o = s.d.call({"c": "sched", "n": 4, "us": self.r.choice([300, 1000]), "steps": steps}, timeout=180)
        self.c.add("points_passed", o.get("went", 0))
        out = {x["step"]: x for x in s.d.extra if "step" in x}
        for k, tell in enumerate(what):
            x = out.get(k, {"ok": False})
            if tell[0] == "obs":
                self.got(tell[2], x, tell[3])
            elif tell[0] in ("end", "start"):
                s.ev(tell[0], ws[tell[1]], x)
            elif tell[0] == "merge":
                s.compact("w0", x)
            elif tell[0] == "commit":
                t = s.curs.pop(wc)
                s.ev("commit", wc, x)
                t.st = "committed"
                s.locate(t)
        if merging:
            s.settle()
            s.merge(False)
        self.view = view
        self.done(ws)
        if commit:
            s.ws.remove(wc)
            s.call({"c": "drop", "w": wc})
        self.c.add("rounds_steered")
        return steps


def rounds(x, scheds, loose, steered, r):
    if loose == "burst":
        for _ in range(steered):
            x.burst(r.choice([4, 8, 8, 20]))
        return
    plan = ["l"] * loose + ["s"] * steered
    r.shuffle(plan)
    for p in plan:
        if p == "l":
            x.loose(r.choice([2, 4, 8]))
        else:
            x.steered(r.choice(scheds))


def run(c, plan, nsched):
    """plan: [(kind, sessions, loose rounds, steered rounds)]"""
    exe = build.build(["cdrv"])["cdrv"]
    scheds = schedules(c, nsched)
    jobs = [(k, 1000 * (lo == "burst") + n, lo, st) for k, count, lo, st in plan for n in range(count)]

    def one(j):
        kind, n, lo, st = j
        r = common.rng(c.pid, kind, n)
        d = os.path.join(c.scratch, "%s-%d" % (kind, n))
        s = None
        try:
            if kind == "static":
                s = static.Static(exe, r, d, big=r.random() < 0.15)
                for _ in range(r.randint(0, 3)):
                    s.transaction(r.choice(["commit", "commit", "abort"]))
                x = Readers(s, r, c, kind)
                x.base = None
                if lo == "burst":
                    x.many()
            else:
                cfg = histgen.mem_cfg(r, False) if kind == "mem" else histgen.disk_cfg(
                    r, d, False, chunk=r.choice([4, 16, 64, 200, 65536]))
                s = store.Session(exe, r, cfg)
                s.solid = kind == "lone"
                g = histgen.Gen(s, r, dict(steps=r.choice([10, 25, 40]), writers=2, readers=0, erase=r.choice([0, 0.05, 0.12]),
                                           abort=0.05, merge="off", look=0, long=r.choice([0, 0, 0.1])))
                g.run()
                for w in list(s.curs):
                    s.abort(w)
                x = Readers(s, r, c, kind)
                if lo == "burst":
                    x.many()
                else:
                    x.rare()
                if kind == "lone":
                    s.merge(True)
                    s.settle()
                    s.reopen(hazel=True, merge=False)
                    l = archives.shards(d)
                    if len(l) != 1 or archives.shards(d, "fiver"):
                        return "ok", kind, [], []
                    x.file, x.ts = l[0][2], sorted(t.id for t in s.txns.values() if t.st == "committed")
            rounds(x, scheds, lo, st, r)
            s.close()
            return "ok", kind, s.evs, s.d.log
        except common.DriverDied as e:
            return "died", "%s-%d: %s" % (kind, n, "a call never ended" if " 7:" in str(e) else "the implementation %s" % e), \
                s.evs if s else [], s.d.log if s else []
        finally:
            if s is not None:
                try:
                    s.d.p.kill()
                except OSError:
                    pass
            common.rm(d)
    res = common.par_map(one, jobs, workers=6)
    for x in res:
        if x[0] == "died":
            c.violation("readers: %s, at command %d: %s" % (x[1], len(x[3]) - 1, str(x[3][-1:])[:400]),
                        {"events": x[2][-5:], "cmds": x[3]})
    dyn = [(x[2], x[3]) for x in res if x[0] == "ok" and x[2] and x[1] != "static"]
    sta = [(x[2], x[3]) for x in res if x[0] == "ok" and x[2] and x[1] == "static"]
    for x in res:
        if x[0] == "ok" and x[2]:
            c.add("sessions_" + x[1])
    if dyn:
        c.sample({"steered": [y for y in dyn[0][1] if y["c"] == "sched"][:1]}, limit=1)
        store.validate(c, dyn, "readers")
    if sta:
        static.validate(c, sta, "readers of a static burrow")
