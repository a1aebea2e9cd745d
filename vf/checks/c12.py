"""C12: a feature's list is the innermost annotations with the latest values."""
from .. import common, static
from ..storecheck import forms, conc, run as check
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    n = 200 if T else 60
    plan = forms(n, erase=0.05, look=0.8)
    plan += forms(max(2, n // 5), big=0.3, erase=0.02, long=0.05, steps=30, nf=10)
    check(c, plan, "list")
    static.run(c, "static", 80 if T else 12, 0, 0)
