"""Archives: opened on their own, merged, and merges interrupted at any file operation, against Store.tla."""
import copy, os, re, hashlib
from . import common, store, crash, histgen, build, tlc
NAME = re.compile(r"^(fiver|hazel)\.(\d+)\.(\d+)$")


def shards(d, kind="hazel"):
    out = []
    for n in os.listdir(d):
        m = NAME.match(n)
        if m and m.group(1) == kind:
            out.append((int(m.group(2)), int(m.group(3)), n))
    return sorted(out)




def digest(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def watch(s):
    """Finds each transaction's sequence number: merging being off, its commit leaves one new shard file."""
    s.seq = {}
    d = s.cfg["dir"]

    def of(names, ts):
        new = sorted(set(x for x in shards(d, "fiver")) - names)
        if len(new) == len(ts):
            for (a, b, _), t in zip(new, ts):
                s.seq[t] = a
        else:
            s.seq[ts[0]] = None
    commit, commitall = s.commit, s.commitall

    def commit1(w, locate=True):
        before, t = set(shards(d, "fiver")), s.curs[w].id
        x = commit(w, locate)
        of(before, [t])
        return x

    def commitall1(ws):
        before = set(shards(d, "fiver"))
        ts = sorted((s.curs[w] for w in ws), key=lambda t: t.seq)
        commitall(ws)
        of(before, [t.id for t in ts])
    s.commit, s.commitall = commit1, commitall1


def holds(s, a, b):
    return sorted(t for t, n in s.seq.items() if n is not None and a <= n <= b)


def look_at(x, s, d, a, b, name, modify=False):
    """The archive opened on its own."""
    x.nview = getattr(x, "nview", 0) + 1
    w = "a%d" % x.nview
    o = x.call({"c": "open", "w": w, "dir": os.path.join(d, name)})
    x.ev("archive", w, o, ts=holds(s, a, b), name=name)
    if not o.get("ok"):
        return
    x.call({"c": "start", "w": w})
    x.observe(w, nf=8)
    k = w
    if x.r.random() < 0.3:
        k = w + "c"
        o = x.call({"c": "clone", "w": w, "as": k})
        x.ev("archive", k, o, ts=holds(s, a, b))
        x.observe(k, nf=4)
    if modify:
        was = digest(os.path.join(d, name))
        for cmd in ({"c": "txn", "w": k}, {"c": "append", "w": k, "t": "more text"},
                    {"c": "ann", "w": k, "f": "x", "p": 1, "q": 2, "v": 3}, {"c": "erase", "w": k, "p": 0, "q": 10},
                    {"c": "setp", "w": k, "k": "key", "v": "value"}):
            if cmd["c"] in ("txn", "setp"):
                x.ev("refuse", k, x.call(cmd), what=cmd["c"])
            else:
                x.call(cmd)
        x.observe(k, nf=4)
        x.ev("compact", k, {"ok": digest(os.path.join(d, name)) == was}, what="bytes of the archive")
    for v in {w, k}:
        x.call({"c": "drop", "w": v})


def look_burrow(x, d, merge=None):
    """The burrow opened as a whole."""
    x.settle()
    x.call({"c": "drop"})
    o = x.call({"c": "open", "w": "w0", "dir": d})
    x.curs, x.views, x.ws = {}, {}, ["w0"]
    x.ev("reopen", "w0", o)
    if merge is not None:
        x.call({"c": "merge", "w": "w0", "on": merge})
        if merge:
            x.settle()
    g = histgen.Gen(x, x.r, {"nf": 10})
    g.look()
    return g


def runs(names, r):
    """A run of adjacent archives."""
    best = []
    for i in range(len(names)):
        for j in range(i + 1, len(names)):
            if names[j][0] != names[j - 1][1] + 1:
                break
            best.append(names[i:j + 1])
    return r.choice(best) if best else None


def child(s, exe, r, env=None, preload=None):
    """A new process on the burrow of s, all of whose transactions are over."""
    x = store.Session(exe, r, s.cfg, env=env, preload=preload, make=False)
    x.evs = [dict(e) for e in s.evs if e["k"] not in ("obs", "cobs")]
    for e in x.evs:
        e["_i"] = -1
    x.txns = {}
    for k, t in s.txns.items():
        x.txns[k] = copy.copy(t)
        x.txns[k].anns = [(f,) + tuple((x.txns.get(y[0].id, y[0]), y[1]) for y in (p, q)) for f, p, q in t.anns]
        x.txns[k].ers = [tuple((x.txns.get(y[0].id, y[0]), y[1]) for y in e) for e in t.ers]
        x.txns[k].pieces = []
    x.features, x.ntxn, x.npiece, x.nseq = set(s.features), s.ntxn, s.npiece, s.nseq
    x.solid = s.solid
    return x


def run(c, count, points, steps=24, nested=2, chunks=(4, 16, 64, 200, 65536), **opts):
    exe = build.build(["cdrv"])["cdrv"]
    pre = build.build_preload()

    def one(n):
        r = common.rng(c.pid, "archives", n)
        d = os.path.join(c.scratch, "ar-%d" % n)
        keep = d + ".keep"
        cfg = histgen.disk_cfg(r, d, False, chunk=r.choice(chunks))
        s = store.Session(exe, r, cfg)
        out, died, seen = [], [], 0
        try:
            o = dict(steps=steps, writers=2, readers=0, erase=0.12, abort=0.06, look=0.1, merge="off", nf=8, long=0.04,
                     big=0.05)
            o.update(opts)
            g = histgen.Gen(s, r, o)
            s.solid = True
            watch(s)
            g.run()
            s.reopen(hazel=True)
            if None in s.seq.values():
                raise RuntimeError("sequence numbers not known: %s" % s.seq)
            names = shards(d)
            for a, b, name in (names if len(names) < 4 else r.sample(names, 3)):
                look_at(s, s, d, a, b, name, modify=True)
            s.call({"c": "drop"})
            s.close()
            out.append((s.evs, s.d.log))
            # merges of merges, interrupted
            for level in range(r.choice([1, 2, 3])):
                names = shards(d)
                pick = runs(names, r)
                if pick is None:
                    break
                crash.copy_dir(d, keep)
                snap = d + ".snap%d" % level
                x = child(s, exe, r, env=crash.env_for(c, d, snap, 1, n + 1, 3000), preload=pre)
                o1 = merge(x, d, pick)
                dst = "hazel.%020d.%020d" % (pick[0][0], pick[-1][1])
                look_at(x, s, d, pick[0][0], pick[-1][1], dst, modify=r.random() < 0.3)
                if r.random() < 0.3:
                    merge(x, d, pick)  # there already
                look_burrow(x, d)
                left = sorted(os.listdir(d))
                x.call({"c": "drop"})
                x.close()
                x.ev("compact", "w0", {"ok": not any(y.startswith(("mrg.", "pst.", "dct.")) for y in left) and
                                       not any(p[2] in left for p in pick)}, what="leftovers", left=left)
                out.append((x.evs, [{"before": s.d.log}] + x.d.log))
                sn = [y for y in crash.snapshots(snap) if y[1] == 0]
                seen += len(sn)
                done = d + ".done"
                crash.copy_dir(d, done)
                for path, mark, op, fn in r.sample(sn, min(points, len(sn))):
                    tag = {"merging": [p[2] for p in pick], "died before": [op, fn], "before": s.d.log}
                    try:
                        out += branch(c, exe, pre, r, s, d, path, pick, tag, nested)
                    except common.DriverDied as e:
                        died.append(("a merge of %s dying before %s of %s, then: the implementation %s" % (
                            [p[2] for p in pick], op, fn, e), tag))
                common.rm(d)
                crash.copy_dir(done, d)
                common.rm(done)
                common.rm(keep)
                common.rm(snap)
        except common.DriverDied as e:
            died.append(("archives-%d: the implementation %s" % (n, e), s.d.log))
        finally:
            for y in (s,):
                try:
                    y.d.p.kill()
                except OSError:
                    pass
            common.rm(d)
            common.rm(keep)
        return out, died, seen

    res = common.par_map(one, range(count))
    sess = []
    for out, died, seen in res:
        sess += out
        c.add("crash_states_seen", seen)
        for what, log in died:
            c.violation(what, {"cmds": log})
    c.add("crash_states_examined", len(sess) - 2 * len(res))
    if sess:
        c.sample({"archives": sess[-1][1][1:3], "events": sess[-1][0][-3:]}, limit=2)
    store.validate(c, sess, "archives")


def merge(x, d, pick):
    o = x.call({"c": "hmerge", "dir": d, "names": [p[2] for p in pick]})
    x.ev("compact", "w0", o, what="hmerge", names=[p[2] for p in pick])
    return o


def every(x, s, d, k=3):
    """Whatever has the name of an archive is one."""
    l = shards(d)
    for a, b, name in (l if len(l) <= k else x.r.sample(l, k)):
        look_at(x, s, d, a, b, name)


def branch(c, exe, pre, r, s, d, path, pick, tag, nested):
    common.rm(d)
    crash.copy_dir(path, d)
    out = []
    how = r.choice(["merge", "merge", "open", "open+merge", "background"])
    deep = nested and how == "merge" and r.random() < 0.6
    snap = path + ".snap"
    x = child(s, exe, common.rng(path, how), env=crash.env_for(c, d, snap, 1, 1, 400) if deep else None,
              preload=pre if deep else None)
    sn = []
    try:
        dst = (pick[0][0], pick[-1][1], "hazel.%020d.%020d" % (pick[0][0], pick[-1][1]))
        if dst in shards(d):  # before anything may repair it
            look_at(x, s, d, *dst)
        elif r.random() < 0.4:
            every(x, s, d, 2)
        if how == "merge":
            merge(x, d, pick)
            sn = [y for y in crash.snapshots(snap) if y[1] % 2 == 0] if deep else []
            sn = [y for y in sn if x.d.log[y[1] // 2]["c"] == "hmerge"]
            look_at(x, s, d, *dst)
        else:
            g = look_burrow(x, d, merge={"open": False, "open+merge": False, "background": True}[how])
            if how == "open+merge":
                x.call({"c": "drop"})
                if all(p in shards(d) for p in pick):
                    merge(x, d, pick)
                    look_at(x, s, d, *dst)
            elif how == "background":
                x.settle()
                x.call({"c": "drop"})
                every(x, s, d)
        g = look_burrow(x, d, merge=r.choice([False, False, True]))
        if r.random() < 0.4:  # it goes on
            g.o.update(dict(steps=8, writers=1, readers=0, abort=0.0, erase=0.1, merge="off"))
            g.run()
            g = look_burrow(x, d)
        x.call({"c": "drop"})
        x.close()
    finally:
        try:
            x.d.p.kill()
        except OSError:
            pass
    out.append((x.evs, [dict(tag, how=how)] + x.d.log))
    for p2, m2, op, fn in (r.sample(sn, min(nested, len(sn))) if sn else []):
        common.rm(d)
        crash.copy_dir(p2, d)
        y = child(s, exe, common.rng(p2))
        try:
            if r.random() < 0.5:
                merge(y, d, pick)
            else:
                look_burrow(y, d, merge=r.choice([True, False]))
                y.call({"c": "drop"})
            every(y, s, d)
            look_burrow(y, d)
            y.close()
        finally:
            try:
                y.d.p.kill()
            except OSError:
                pass
        out.append((y.evs, [dict(tag, how="again", died2=[op, fn])] + y.d.log))
        c.add("recovery_crashes")
    common.rm(snap)
    return out
