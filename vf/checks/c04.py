"""C04: a started read view never changes."""
from .. import common
from ..storecheck import forms, conc, run as check
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    n = 200 if T else 40
    plan = forms(n, readers=4, hold=0.05, erase=0.15, look=0.2) + conc(n, rounds=2, cr=2, per=4)
    check(c, plan, "view")
