"""C10: an aborted transaction leaves no trace."""
from .. import common, static
from ..storecheck import forms, conc, run as check
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    n = 200 if T else 40
    plan = forms(n, writers=4, abort=0.7, erase=0.1, look=0.8, reopen=0.06, hold=0.1) + conc(n // 2, per=4, cw=3)
    check(c, plan, "abort")
    static.run(c, "static", 200 if T else 40, 0, 0,
               ends=lambda r: [r.choice(["abort", "early", "early", "commit"]) for _ in range(r.randint(1, 3))] + ["early", "commit"])
