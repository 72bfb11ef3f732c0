"""P22: archives restore the identical module."""
from . import idioms, p01, prog
from .core import *

TECHNIQUE = ("TLC trace validation: scripts of every other property are run with each module archived and loaded again before use, and decided by the same semantics of the original binary; "
             "loading archives cut at any length or with changed headers must fail, and an untouched one must give an equal module")
ALL = [f"P{i:02d}" for i in range(1, 20)]


def bad(ck, c):
    r = Rng(f"P22b-{ck.seed}-{c}")
    m = prog.Mod(r, prog.Opt(simd=r.random() < 0.5, refs=r.random() < 0.5, nfun=r.choice([1, 3]), passive=True, mem=r.choice([0, 1, 2]), table=r.random() < 0.7, host=r.choice([0, 1])))
    w = m.wat() if c else "(module)"
    ops = [op("arch", mod=1), op("desc", mod=1)]
    for i in range(16):
        ops.append(op("arch", mod=1, set=[[i, r.randrange(256)]]))
        ops.append(op("arch", mod=1, set=[[i, 0]]))
    for k in list(range(1, 24)) + list(range(-1, -12, -1)) + [r.randrange(24, 6000) for _ in range(30)] + [-r.randrange(12, 3000) for _ in range(30)]:
        ops.append(op("arch", mod=1, cut=k))
    for i in range(30):
        ops.append(op("arch", mod=1, set=[[r.randrange(16, 1 << 20), r.randrange(256)] for _ in range(r.choice([1, 1, 3]))], cut=r.choice([0, 0, -3])))
    # headers that look like other files
    ops += [op("arch", mod=1, set=[[0, 0], [1, 0x61], [2, 0x73], [3, 0x6d]]), op("arch", mod=1, set=[[4, ord("1")], [5, ord("0")]]), op("arch", mod=1, set=[[15, 1]]), op("arch", mod=1, set=[[6, 1]]),
            op("arch", mod=1, set=[[4, ord("4")], [5, ord("0")]])]
    return script(f"P22b-{c}", [w], ops, ["", "rw=0;arch=1"])


# every kind of instruction once under archiving
def each(ck):
    out = []
    for n, ops in (("i", idioms.OPS_INT), ("f", idioms.OPS_FLOAT), ("s", idioms.OPS_SIMD), ("r", idioms.OPS_RELAXED), ("w", idioms.OPS_WIDE)):
        c = __import__("copy").copy(ck)
        c.coverage = {}
        out += idioms.scripts(c, "P22" + n, ops, ck.scale(2, 10), 2, cfgs=["arch=1", "arch=1;rw=0"])
    return out


def scripts(ck):
    def cfg(r, o):
        return [(o + r.choice([";arch=1", ";arch=1", ";arch=1;alloc=0", ";arch=1;form=stream", ";arch=1;rw=0"])).lstrip(";")]
    out = [bad(ck, c) for c in range(ck.scale(12, 150))] + each(ck)
    out += borrow(ck, ck.scale(9, 120), ALL, cfg)
    return out
