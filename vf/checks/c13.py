"""C13: updating a static burrow is atomic and recoverable."""
from .. import common, static
LEVEL = "model_checking"


def run(c):
    T = common.THOROUGH
    static.run(c, "static", 300 if T else 40, 80 if T else 12, 150 if T else 20, big=8 if T else 2)
