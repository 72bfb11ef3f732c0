"""P04: vector instructions."""
from . import idioms, windows
from .core import *


def scripts(ck):
    out = idioms.scripts(ck, "P04", idioms.OPS_SIMD, ck.scale(5, 40), ck.scale(6, 16))
    out += idioms.scripts(ck, "P04r", idioms.OPS_RELAXED, ck.scale(5, 30), ck.scale(6, 16))
    return out + windows.scripts(ck, "P04", ck.scale(30, 400), 12, ["v128", "v128", "v128", "i32", "i64"], cut=0.3)
