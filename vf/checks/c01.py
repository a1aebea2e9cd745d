"""C01: cursor answers depend only on the list and the key."""
import os
from .. import tlc, common, build, gclgen as g, gclcheck
LEVEL = "model_checking"


def stored_cases(c, r, exe, n):
    """Feature lists stored in every form, with question histories on one cursor each."""
    T = common.THOROUGH
    forms = ["mem", "memmany", "disk", "reopen", "hazel", "static", "staticmem"]
    jobs = []
    for i in range(n):
        form = forms[i % len(forms)]
        feats = {}
        nf = r.randint(3, 6)
        for f in range(nf):
            big = r.random() < 0.25
            size = r.choice([2, 3, 7, 20, 60]) if not big else r.choice([127, 128, 129, 300, 1000, 4096 if T else 600])
            l = g.rand_gc(r, size * r.randint(2, 12) + 4, r.choice([1, 2, size, size]), base=r.choice([1, 3, 50]))
            if not l:
                l = [(1, 1)]
            v0 = r.choice([0, 1])
            feats["f%d" % f] = [[p, q, 0 if v0 == 0 else r.randint(0, 40)] for p, q in l]
        calls = {}
        for f, l in feats.items():
            ks = g.keys_for([l])
            calls[f] = [g.rand_calls(r, ks, r.choice([10, 40, 120])) for _ in range(2)]
        calls["none"] = [g.rand_calls(r, g.keys_for(list(feats.values())[:1]), 12)]
        jobs.append((i, form, feats, calls, r.random()))

    def go(job):
        i, form, feats, calls, x = job
        rr = common.rng("c01", i)
        d = os.path.join(c.scratch, "b%d" % i)
        anns = [[f] + a for f, l in feats.items() for a in l]
        rr.shuffle(anns)
        cmds = []
        if form.startswith("static"):
            anns.sort(key=lambda a: a[1])  # the builder takes each feature's annotations in order
            top = max(a[2] for a in anns) + 2
            words = " ".join(["w"] * top)
            cmds.append({"c": "sbuild", "dir": d, "tok_file": 1000 if form == "static" else 1 << 20,
                         "ann_file": rr.choice([50, 1 << 20]), "featurizer": "hashing", "tokenizer": "ascii",
                         "pc": rr.choice(["post", "null"]), "fc": rr.choice(["zlib", "null"]), "tc": "zlib",
                         "ops": [["text", words]] + [["ann", f, p, q, v] for f, p, q, v in anns]})
            cmds.append({"c": "open", "w": "w", "dir": d})
        else:
            cmds.append({"c": "mk", "w": "w", "dir": "" if form.startswith("mem") else d,
                         "merge": form == "memmany" and x < 0.5,
                         "recipe": "" if x < 0.5 else
                         "idx:fvalue_compressor:zlib idx:posting_compressor:post txt:compressor:zlib",
                         "pc": "null" if x < 0.5 else "post", "fc": "null" if x < 0.5 else "zlib"})
            k = 1 if form in ("mem",) else rr.randint(1, 6)
            for t in range(k):
                cmds += [{"c": "txn", "w": "w"}, {"c": "anns", "w": "w", "l": anns[t::k]},
                         {"c": "ready", "w": "w"}, {"c": "commit", "w": "w"}]
            if form == "hazel":
                cmds += [{"c": "tohazel", "w": "w", "dir": d, "pc": "null" if x < 0.5 else "post",
                          "fc": "null" if x < 0.5 else "zlib", "tc": "null" if x < 0.5 else "zlib"}]
            if form in ("reopen", "hazel"):
                cmds += [{"c": "drop"}, {"c": "open", "w": "w", "dir": d}]
        cmds.append({"c": "start", "w": "w"})
        ask = []
        for f, css in calls.items():
            for cs in css:
                ask.append((len(cmds), f, cs))
                cmds.append({"c": "fhop", "w": "w", "f": f, "calls": cs})
        out = common.drive(c, exe, cmds, 120, "stored list (%s)" % form)
        if out is None:
            return None
        for cm, o in zip(cmds, out):
            if o.get("ok") is False:
                c.violation("%s failed on a %s burrow: %s" % (cm["c"], form, o.get("err")), {"cmds": cmds})
                return None
        lists = dict(feats)
        lists["none"] = []
        common.rm(d)
        return {"lists": lists, "form": form,
                "qs": [{"ast": {"op": "t", "f": f}, "calls": cs, "rs": out[n]["r"]} for n, f, cs in ask]}
    evs = [e for e in common.par_map(go, jobs) if e]
    return evs


def run(c):
    T = common.THOROUGH
    r = common.rng("c01")
    m = tlc.run("MCArray", "MCArray11.cfg" if T else "MCArray9.cfg", workers=8, timeout=600)
    c.add("states", m.states)
    if not m.ok:
        raise tlc.TlcError("the array cursor model itself fails:\n" + m.msg)
    exe = build.build(["cdrv"])["cdrv"]
    evs = stored_cases(c, r, exe, 42 if not T else 700)
    for e in evs[:2]:
        c.sample({"form": e["form"], "first": {"calls": e["qs"][0]["calls"][:10], "answers": e["qs"][0]["rs"][:10]}})
    gclcheck.validate(c, evs, "a cursor over a stored list answered differently from its list")
    # every small list, every remembered position: all pairs of questions in sequence
    cases = []
    for l in g.all_gc(4):
        lists = {"a": g.valued(l)}
        ks = [-g.INF, -g.INF + 1] + list(range(0, 7)) + [g.INF - 1, g.INF]
        qs = [({"op": "t", "f": "a"}, g.all_calls(r, ks) + g.all_calls(r, ks)) for _ in range(3 if not T else 20)]
        cases.append((lists, qs))
    # long histories over query cursors, lists up to a few hundred intervals
    for n in range(500 if not T else 8000):
        names = ["a", "b", "c", "d"]
        size = r.choice([8, 16, 40, 120])
        lists = {x: g.valued(g.rand_gc(r, size, r.choice([0, 1, 3, 8, 20])), ord(x)) for x in names}
        ks = g.keys_for(lists.values())
        qs = [(g.rand_ast(r, names, r.randint(0, 3), links=names), g.rand_calls(r, ks, r.choice([20, 60])))
              for _ in range(2)]
        # term-frequency cursor: frequencies stored at the starts of some items
        items = lists["a"]
        if items:
            lists["tf"] = [[p, p, r.randint(1, 9)] for p, q, v in items if r.random() < 0.6]
            qs.append(({"op": "T", "x": [{"op": "t", "f": "tf"}, {"op": "t", "f": "a"}]},
                       [k for k in g.rand_calls(r, ks, 30)]))
        cases.append((lists, qs))
    # large arrays: galloping over long distances
    for n in range(12 if not T else 150):
        l = g.rand_gc(r, 6000, r.choice([255, 256, 257, 700, 1500]))
        lists = {"a": g.valued(l), "b": g.valued(g.rand_gc(r, 6000, 300), 3)}
        ks = g.keys_for([lists["a"]])
        cases.append((lists, [({"op": "t", "f": "a"}, g.rand_calls(r, ks, 300)),
                              ({"op": r.choice(["M", "<<", ">>", "!<", "!>"]),
                                "x": [{"op": "t", "f": "a"}, {"op": "t", "f": "b"}]}, g.rand_calls(r, ks, 100))]))
    # and over very long ones, from anywhere to anywhere
    for n in range(4 if not T else 40):
        l, p, q = [], 0, 0
        for _ in range(r.choice([9000, 20000, 33000, 70000])):
            p += r.choice([1, 1, 2, 5])
            q = max(q + 1, p + r.choice([0, 0, 1, 4]))
            l.append((p, q))
        lists = {"a": g.valued(l)}
        at = [0, len(l) - 1] + [r.randrange(len(l)) for _ in range(12)] + [len(l) - 2 ** k for k in range(1, 17) if 2 ** k < len(l)]
        ks = [l[k][j] + d for k in at for j in (0, 1) for d in (-1, 0, 1)]
        cases.append((lists, [({"op": "t", "f": "a"}, g.rand_calls(r, ks, 300)), ({"op": "t", "f": "a"}, g.rand_calls(r, ks, 300))]))
    gclcheck.conform(c, cases)
    c.cov["rule"] = ("model: all arrays over 1..%d, all remembered positions and keys; implementation: stored lists in "
                     "7 storage forms, all lists over 1..4 with shuffled questions, random query trees, long arrays"
                     % (11 if T else 9))
