"""P03: scalar float instructions."""
from . import idioms, windows
from .core import *


def scripts(ck):
    return (idioms.scripts(ck, "P03", idioms.OPS_FLOAT, ck.scale(20, 160), ck.scale(8, 24)) +
            idioms.near(ck, "P03", idioms.OPS_FLOAT, ck.scale(8, 80), 5) +
            windows.scripts(ck, "P03", ck.scale(40, 400), 12, ["f32", "f64"], cut=0.3))
