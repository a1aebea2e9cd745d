"""C09: an erased range hides exactly the annotations inside it."""
from .. import common
from ..storecheck import forms, conc, run as check
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    n = 250 if T else 60
    plan = forms(n, erase=0.3, writers=3, abort=0.1, look=0.8, hold=0.1) + conc(n // 2, per=3)
    check(c, plan, "erasure")
