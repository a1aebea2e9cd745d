"""Crashes: a history runs over a file layer that keeps what a dying process would leave behind before (and half-way
through) every file operation; each such state is then opened again, used, and validated against Store.tla."""
import os, shutil
from . import common, store, histgen, build


def env_for(c, d, snap, every=1, seed=1, most=100000):
    os.makedirs(snap, exist_ok=True)
    return {"VF_ROOT": c.scratch, "VF_DIR": d, "VF_SNAP": snap, "VF_SHM": snap + ".shm", "VF_EVERY": str(every),
            "VF_SEED": str(seed), "VF_SNAPMAX": str(most)}


def snapshots(snap):
    out = []
    p = os.path.join(snap, "index")
    if os.path.exists(p):
        for l in open(p):
            k, m, op, path = l.split(" ", 3)
            out.append((os.path.join(snap, "%06d" % int(k)), int(m), op, os.path.basename(path.strip())))
    return out


def copy_dir(a, b):
    """A copy that keeps hard links."""
    os.makedirs(b, exist_ok=True)
    seen = {}
    for n in sorted(os.listdir(a)):
        p, q = os.path.join(a, n), os.path.join(b, n)
        st = os.lstat(p)
        if st.st_ino in seen and st.st_nlink > 1:
            os.link(seen[st.st_ino], q)
        else:
            shutil.copy2(p, q)
            seen[st.st_ino] = q


def run(c, plan, what, points, nested=2, timeout=900):
    """plan: [(name, count, cfg maker, opts)]; points: how many crash points per history are examined."""
    exe = build.build(["cdrv"])["cdrv"]
    pre = build.build_preload()
    jobs = [(k, name, n, mk, opts) for k, (name, count, mk, opts) in enumerate(plan) for n in range(count)]

    def one(j):
        k, name, n, mk, opts = j
        r = common.rng(c.pid, k, name, n)
        d = os.path.join(c.scratch, "%s-%d-%d" % (name, k, n))
        snap = d + ".snap"
        cfg = mk(r, d)
        out, died = [], []
        s = None
        try:
            s = store.Session(exe, r, cfg, env=env_for(c, d, snap, opts.get("every", 1), n + 1, 3000), preload=pre)
            s.solid = True
            g = histgen.Gen(s, r, opts)
            g.run()
            s.close()
        except common.DriverDied as e:
            return [], [("%s-%d: the implementation %s" % (name, n, e), s.evs[-5:], s.d.log)], 0
        finally:
            if s is not None:
                try:
                    s.d.p.kill()
                except OSError:
                    pass
        out.append((s.evs, s.d.log))
        sn = snapshots(snap)
        # those during commits are the most telling
        hot = [x for x in sn if x[1] % 2 == 0 and x[1] // 2 < len(s.d.log) and
               s.d.log[x[1] // 2]["c"] in ("commit", "commitall", "settle", "tohazel", "open", "ready")]
        pick = r.sample(hot, min(len(hot), (2 * points + 2) // 3))
        rest = [x for x in sn if x not in pick]
        pick += r.sample(rest, min(len(rest), max(0, points - len(pick))))
        for path, mark, op, fn in pick:
            try:
                if mark // 2 == 0 and mark % 2 == 0:
                    continue  # the burrow was still being made
                b2 = None
                out += branch(c, exe, pre, r, s, cfg, path, mark, nested, opts, ("%s-%d" % (name, n), op, fn))
            except common.DriverDied as e:
                died.append(("%s-%d: after a crash before %s of %s during command %d %s: the implementation %s" % (
                    name, n, op, fn, mark // 2, str(s.d.log[min(mark // 2, len(s.d.log) - 1)])[:200], e), [], s.d.log))
        common.rm(d)
        common.rm(snap)
        common.rm(snap + ".shm")
        return out, died, len(sn)

    res = common.par_map(one, jobs)
    sess = []
    for out, died, ns in res:
        sess += out
        c.add("crash_states_seen", ns)
        for what1, evs, log in died:
            c.violation("%s: %s" % (what, what1), {"cmds": log, "events": evs})
    c.add("crash_states_examined", len(sess) - len(res))
    if len(sess) > 1:
        c.sample({"crash": sess[1][1][0], "events": sess[1][0][-3:]}, limit=1)
    store.validate(c, sess, what, timeout=timeout)


def branch(c, exe, pre, r, s, cfg, path, mark, nested, opts, tag):
    # at the place where it was: what recovers it may name files by their full path
    out = []
    d = cfg["dir"]
    common.rm(d)
    copy_dir(path, d)
    cfg2 = cfg
    env, snap = None, path + ".snap"
    deep = nested and r.random() < 0.5
    if deep:
        env = env_for(c, d, snap, 1, 1, 400)
    b = store.resume(exe, common.rng(*tag, mark), cfg2, s, mark, env=env, preload=pre if deep else None)
    first = list(b.evs)
    sn = [x for x in snapshots(snap) if x[1] == 0] if deep else []
    b.d.log.insert(0, {"crash": tag, "mark": mark, "history": s.d.log[:mark // 2 + 1]})
    try:
        g = histgen.Gen(b, b.r, dict(opts, steps=6, conc=0, reopen=0.15, readers=1))
        g.look()
        if b.r.random() < 0.5:
            g.reopen()
        g.run()
        b.close()
    finally:
        try:
            b.d.p.kill()
        except OSError:
            pass
    out.append((b.evs, b.d.log))
    # the recovery itself dies, and the burrow is opened once more
    for p2, m2, op, fn in (r.sample(sn, min(nested, len(sn))) if sn else []):
        common.rm(d)
        copy_dir(p2, d)
        x = store.Session(exe, common.rng(*tag, mark, p2), cfg2, make=False)
        x.d.log.append({"crash": tag, "mark": mark, "recovery died before": [op, fn]})
        x.evs = [dict(e) for e in first[:-1]]
        o = x.call({"c": "open", "w": "w0", "dir": d})
        x.ev("crash", "w0", o, ws=first[-1]["ws"], sv=b.sv)
        x.txns, x.features = {t: s.txns[t] for t in s.txns}, set(s.features)
        g = histgen.Gen(x, x.r, dict(opts))
        g.look()
        x.close()
        out.append((x.evs, x.d.log))
        c.add("recovery_crashes")
    return out
