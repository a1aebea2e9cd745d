"""C06: a crash loses no committed transaction and exposes no partial one."""
from .. import common, crash, tlc
from ..storecheck import DISK_OFF, DISK_ON, DISK_CHUNK
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    n = 40 if T else 6
    base = dict(steps=22, writers=3, readers=0, erase=0.1, abort=0.15, look=0.1)
    plan = [
        ("off", n, DISK_OFF, dict(base, merge="off")),
        ("toggle", n, DISK_OFF, dict(base, merge="toggle", reopen=0.03)),
        ("on", n, DISK_ON, dict(base, merge="on")),
        ("archive", n, DISK_ON, dict(base, merge="on", reopen=0.15, hazel=0.8, abort=0.05, writers=2)),
        ("group", n, DISK_OFF, dict(base, merge="off", writers=4, commitall=True)),
    ]
    cfg = "BurrowDiskN.cfg" if T else "BurrowDisk.cfg"
    m = tlc.run("BurrowDisk", cfg, workers=8, timeout=850, heap="12g")
    c.add("states", m.distinct)
    c.cov["model"] = "BurrowDisk.tla/" + cfg
    if not m.ok:
        raise tlc.TlcError("the directory model loses or exposes a transaction:\n" + m.msg)
    crash.run(c, plan, "crash", points=120 if T else 24)
