"""Checks over histories of a burrow: Shards.tla model-checked, then histories of the real code against Store.tla."""
from . import common, tlc, histgen as h, build, tokens

MEM_ON = lambda r, d: h.mem_cfg(r, True)
MEM_OFF = lambda r, d: h.mem_cfg(r, False)
DISK_OFF = lambda r, d: h.disk_cfg(r, d, False)
DISK_ON = lambda r, d: h.disk_cfg(r, d, True)
DISK_CHUNK = lambda r, d: h.disk_cfg(r, d, False, chunk=r.choice([4, 8, 16, 64, 200]))


def model(c, thorough_cfg=None):
    """The shard model refines the specification."""
    cfg = "Shards.cfg"
    if common.THOROUGH and thorough_cfg:
        cfg = thorough_cfg
    elif not common.THOROUGH:
        cfg = "ShardsQ.cfg"
    m = tlc.run("Shards", cfg, workers=8, timeout=850, heap="12g")
    c.add("states", m.distinct)
    c.cov["model"] = "Shards.tla/" + cfg
    if not m.ok:
        raise tlc.TlcError("the shard model does not refine Store:\n" + m.msg)


def textual(kind, mk):
    """The same form holding text of that kind."""
    tok, tokr = tokens.KINDS[kind]

    def f(r, d):
        chunk = r.choice([4, 8, 16, 64, 200]) if mk is DISK_CHUNK else 65536
        cfg = h.mem_cfg(r, mk is MEM_ON, tok, tokr) if mk in (MEM_ON, MEM_OFF) else \
            h.disk_cfg(r, d, mk is DISK_ON, tok, chunk, tokr)
        cfg["text"] = kind
        return cfg
    return f


def forms(n, **base):
    """The same kind of history over every storage form."""
    def o(**kw):
        d = dict(steps=45, writers=3, readers=2, erase=0.12, abort=0.12)
        d.update(base)
        d.update(kw)
        return d
    return [
        ("mem-on", n, MEM_ON, o(merge="on")),
        ("mem-off", n, MEM_OFF, o(merge="off")),
        ("disk-off", n, DISK_OFF, o(merge="off", reopen=0.05)),
        ("disk-toggle", n, DISK_OFF, o(merge="toggle", reopen=0.05)),
        ("archive-off", n, DISK_CHUNK, o(merge="off", reopen=0.1, hazel=0.7)),
        ("archive-on", n, DISK_ON, o(merge="on", reopen=0.1, hazel=0.6)),
    ]


def conc(n, per=3, cw=3, cr=2, rounds=2, **base):
    def o(**kw):
        d = dict(steps=12, writers=2, readers=2, erase=0.12, abort=0.15, conc=rounds, cw=cw, cr=cr, cper=per)
        d.update(base)
        d.update(kw)
        return d
    return [
        ("conc-mem", n, MEM_ON, o(merge="on", perturb=20)),
        ("conc-mem-off", (n + 1) // 2, MEM_OFF, o(merge="off", perturb=50)),
        ("conc-disk", n, DISK_OFF, o(merge="toggle", perturb=20, reopen=0.05)),
        ("conc-archive", n, DISK_ON, o(merge="on", perturb=10, reopen=0.08, hazel=0.5)),
    ]


def run(c, plan, what, flavor="std", thorough_cfg=None, check=None):
    model(c, thorough_cfg)
    exe = build.build(["cdrv"], flavor)["cdrv"]
    h.histories(c, exe, plan, what, check=check)
    c.cov["exhaustive"] = False
    c.cov["rule"] = ("Shards.tla exhaustive within its constants; then seeded random histories of the real burrow in "
                     "the storage forms named under histories_*, every answer decided by TLC against StoreTrace.tla")
    c.assumptions.append("generated erasures are unambiguous (no erased annotation inside a kept one of its feature)")
