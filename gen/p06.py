"""P06: memory backends are indistinguishable."""
from . import model, p01, small
from .core import *
from .hist import *

BACK = ["mem=vec", "mem=paged:1", "mem=paged:2", "mem=paged:8", "mem=paged:64", "mem=paged:4096", "mem=paged:65536", "mem=paged:1048576",
        "mem=custom", "mem=lazy:vec", "mem=lazy:paged:16", "mem=lazy:paged:1024", "mem=lazy:custom", ""]
SHAPES = [[("i32", 1, 3, 16)], [("i64", 1, 4, 16)], [("i32", 100, 400, 0)], [("i32", 1, 2, 16), ("i32", 70, 300, 0)],
          [("i32", 2, 3, 16)], [("i64", 130, 500, 0), ("i32", 1, None, 16)], [("i32", 0, 2, 16)], [("i32", 1, 3, 16), ("i64", 1, 2, 16)]]


def big(ck, pid, n, cfgs):
    """Overlapping moves of several thousand bytes, by distances around the sizes in which backends do their work."""
    out = []
    for c in range(n):
        r = Rng(f"{pid}big-{ck.seed}-{c}")
        mems = r.choice([[("i32", 1, 2, 16)], [("i64", 1, 2, 16)], [("i32", 12000, 14000, 0)], [("i32", 1, 2, 16), ("i32", 1, 2, 16)]])
        ops = [inst()]
        S = 12000
        for i in range(60):
            ops.append(call("a.st64_0", val(mems[0][0], r.randrange(S - 8)), i64(r.bits("i64"))))
        for _ in range(ck.scale(10, 14)):
            k = r.choice([1023, 1024, 1025, 1500, 2047, 2048, 2049, 2500, 3072, 3333, 4095, 4096, 4097, 5000])
            d = r.choice([1, 2, 7, 255, 256, 511, 512, 1000, 1023, 1024, 1025, 1100, 2047, 2048, 2049, 3000, k - 1, k, k // 2, 4095, 4096])
            x = r.randrange(S - k - d) if S > k + d else 0
            a, b = (x, x + d) if r.random() < 0.5 else (x + d, x)
            q = r.random()
            if q < 0.7:
                ops.append(call("a.copy_0", *(val(mems[0][0], v) for v in (a, b, k))))
            elif q < 0.8:
                ops.append(call("a.fill_0", val(mems[0][0], a), i32(r.choice([0, 7, 0x1FF])), val(mems[0][0], k)))
            elif q < 0.9 and len(mems) > 1:
                ops.append(call("a.copy_0_1", i32(a), i32(b), i32(k)))
                ops.append(call("a.copy_1_0", i32(b), i32(a), i32(k)))
            else:
                ops.append(op("m.copy", o="a.m0", off=a, s=b, n=k))
            for _ in range(6):
                ops.append(call("a.ldv_0", val(mems[0][0], r.choice([max(0, a - 8), a, a + k - 16, a + k - 8, a + r.randrange(k - 16), a + r.randrange(k - 16), b, a + 1024 - 8, a + 2048 - 8, a + k - 1024 - 8]))))
            for _ in range(3):
                ops.append(call("a.st64_0", val(mems[0][0], r.randrange(S - 8)), i64(r.bits("i64"))))
        out.append(script(f"{pid}big-{c}", [memmod(mems)], ops, cfgs))
    return out


def scripts(ck):
    out = []
    for c in range(ck.scale(32, 300)):
        r = Rng(f"P06-{ck.seed}-{c}")
        mems = SHAPES[c % len(SHAPES)]
        h = Hist(r, mems, raw=c % 4 == 0, edge=r.choice([(2, 8, 16, 64), (4096, 1024, 64), (16, 1024, 65536), (64, 8)]))
        cf = BACK if c % 4 else ["mem=vec", "mem=paged:8", "mem=paged:64", "mem=custom", "mem=lazy:paged:16"]
        # the very first operations meet untouched memory
        out.append(script(f"P06-{c}", [memmod(mems)], [inst()] + h.ops(ck.scale(110, 160)), cf))
    out += p01.programs(ck, "P06p", ck.scale(10, 120), cfgs=BACK, mem=2, mem64=lambda r: r.random() < 0.5, oob=0.08,
                        simd=lambda r: r.random() < 0.5, grow=0.1)
    B = ["", "mem=vec", "mem=paged:1", "mem=paged:2", "mem=custom", "mem=lazy:paged:2"]
    out += model.cells(ck, "P06", B, ck.scale(2200, 10**6)) + model.cells(ck, "P06", B[1:4], ck.scale(900, 10**6), it="i64")
    out += big(ck, "P06", ck.scale(14, 140), ["mem=vec", "mem=paged:16", "mem=paged:1024", "mem=paged:4096", "mem=custom", "mem=lazy:paged:512"])
    out += small.memories(ck, "P06", ["mem=vec", "mem=paged:1", "mem=paged:2", "mem=paged:4", "mem=paged:8", "mem=custom", "mem=lazy:paged:2", "rw=0"], ck.scale(0.35, 1.0))
    return out
