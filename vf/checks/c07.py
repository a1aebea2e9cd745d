"""C07: transactions occupy disjoint addresses and keep their alignment."""
from .. import common, static
from ..storecheck import forms, conc, run as check
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    n = 200 if T else 30
    plan = forms(n, writers=4, abort=0.25, reopen=0.06, erase=0.04, look=0.4)
    plan += forms(max(2, n // 4), writers=3, abort=0.25, long=0.25, erase=0.03, steps=25, nf=8)
    plan += conc(n, cw=4, cr=1, per=4)
    check(c, plan, "addresses")
    static.run(c, "static", 80 if T else 10, 0, 0)
