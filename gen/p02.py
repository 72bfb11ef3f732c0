"""P02: integer instructions."""
from . import idioms, windows
from .core import *


def scripts(ck):
    out = idioms.scripts(ck, "P02", idioms.OPS_INT, ck.scale(24, 200), ck.scale(8, 24))
    out += idioms.scripts(ck, "P02w", idioms.OPS_WIDE, ck.scale(6, 60), ck.scale(12, 30))
    out += idioms.near(ck, "P02", idioms.OPS_INT, ck.scale(10, 100), 5)
    return out + windows.scripts(ck, "P02", ck.scale(50, 600), 12, ["i32", "i64"], cut=0.3)
