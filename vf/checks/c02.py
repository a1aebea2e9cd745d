"""C02: a structural query returns exactly its minimal solutions."""
from .. import tlc, common, gclgen as g, gclcheck
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    r = common.rng("c02")
    m = tlc.run("MCGCL", "MCGCL5.cfg" if T else "MCGCL4.cfg", workers=8, timeout=800)
    c.add("states", m.states)
    if not m.ok:
        raise tlc.TlcError("the operator model itself fails:\n" + m.msg)
    cases = []
    # every pair of lists over 1..3 under every operator, every question, in a shuffled order
    l3 = g.all_gc(3)
    for a in l3:
        for b in l3:
            cases.append(pair(r, a, b, 5))
    l4 = g.all_gc(4)
    allp = [(a, b) for a in l4 for b in l4]
    for a, b in (allp if T else r.sample(allp, 250)):
        cases.append(pair(r, a, b, 6))
    if T:
        l5 = g.all_gc(5)
        for _ in range(6000):
            cases.append(pair(r, r.choice(l5), r.choice(l5), 7))
    # nested trees over larger lists
    for n in range(600 if not T else 12000):
        names = ["a", "b", "c", "d"]
        size = r.choice([6, 10, 20, 40])
        lists = {}
        for x in names:
            l = g.rand_gc(r, size, r.choice([0, 1, 2, 4, 8, 12]))
            lists[x] = g.valued(l, ord(x))
        k = r.randint(1, 3)
        qs = []
        for _ in range(k):
            t = g.rand_ast(r, names, r.randint(1, 3), links=names)
            ks = g.keys_for(lists.values())
            qs.append((t, g.rand_calls(r, ks, r.randint(5, 30))))
        # the k-way merge of lists
        v = {"op": "V", "x": [{"op": "t", "f": r.choice(names)} for _ in range(r.randint(0, 5))]}
        qs.append((v, g.rand_calls(r, g.keys_for(lists.values()), 20)))
        cases.append((lists, qs))
    r.shuffle(cases)
    evs = gclcheck.conform(c, cases)
    for e in evs[:3]:
        c.sample(e["qs"][0])
    c.cov["exhaustive"] = False
    c.cov["rule"] = ("model: every pair of GC-lists over 1..%d, every operator and question; implementation: every "
                     "pair over 1..3, sampled pairs over 1..4/5, random nested trees" % (5 if T else 4))


def pair(r, a, b, n):
    lists = {"a": g.valued(a, 1), "b": g.valued(b, 2)}
    keys = [-g.INF, -g.INF + 1] + list(range(0, n)) + [g.INF - 1, g.INF]
    A, B = {"op": "t", "f": "a"}, {"op": "t", "f": "b"}
    qs = [({"op": o, "x": [A, B]}, g.all_calls(r, keys)) for o in g.OPS]
    return lists, qs
