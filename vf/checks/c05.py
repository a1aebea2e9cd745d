"""C05: transactions become visible all at once, and only by commit."""
from .. import common
from ..storecheck import forms, conc, run as check
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    n = 200 if T else 40
    plan = forms(n, writers=4, readers=3, erase=0.08, abort=0.2, look=0.8) + conc(n, cw=4, cr=3, per=4)
    check(c, plan, "visibility")
