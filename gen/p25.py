"""P25: host memory and table access agrees with the guest's view."""
import itertools

from . import p01
from .core import *
from .hist import *
from .p07 import HDEF, HOSTFN, TABS

TECHNIQUE = ("TLC trace validation: random histories interleave every host operation on memory and table handles (raw, slice, string, cursor, fill, copy, grow) with guest loads, stores and bulk operations, at the top "
             "level and from host functions in the middle of guest code, on every backend; all bytes, counts, positions, strings and errors are decided by the specification, which decodes and encodes the strings itself")

CF = ["", "mem=vec", "mem=paged:16", "mem=paged:64", "mem=paged:4096", "mem=paged:1", "mem=custom", "mem=lazy:paged:64", "mem=lazy:vec", "rw=0"]
SHAPES = [[("i32", 1, 2, 16)], [("i32", 150, 400, 0)], [("i64", 70, 200, 0), ("i32", 33, 90, 0)], [("i64", 1, 1, 16), ("i32", 0, 100, 0)], [("i32", 0, 1, 16)], [("i32", 64, None, 0), ("i32", 1, 1, 16)]]
U8 = [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF]
U16 = [0x0000, 0x0041, 0x00E9, 0x07FF, 0x0800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF]


class Full(Hist):
    """Hist with offsets and lengths a range check could get wrong"""

    def hostop(self):
        o = super().hostop()
        r = self.r
        if "off" in o and r.random() < 0.05:
            o["off"] = r.choice([2**32, 2**32 - 4, 2**63 - 1, 2**64 - 1, 2**64 - 3, 2**31])
        if o["op"] == "m.copy" and r.random() < 0.05:
            o["s"] = r.choice([2**32, 2**63 - 1, 2**64 - 1, 2**64 - 3])
        if o["op"] in ("m.fill", "m.copy") and r.random() < 0.04:
            o["n"] = r.choice([2**64 - 1, 2**63, 2**32, 2**64 - 16])
        if o["op"] in ("m.rcs", "m.rstr", "m.rjs", "m.rex", "m.read") and r.random() < 0.03:
            o["n"] = r.choice([400, 1000, 70000])
        return o


def memories(ck, c):
    r = Rng(f"P25m-{ck.seed}-{c}")
    mems = SHAPES[c % len(SHAPES)]
    h = Full(r, mems, raw=True, strings=c % 2 == 0, edge=r.choice([(64, 16), (4096, 64), (65536, 1024)]), maxgrow=1)
    nest = '(import "h" "h" (func $h (param i32) (result i32)))'
    j = r.randrange(len(mems))
    it = mems[j][0]
    # guest code that looks at the memory before and after the host changes it
    extra = (f'(func (export "mid") (param {it} i32) (result i64 i32 i64 {it}) (i64.load8_u $m{j} (local.get 0)) (i32.store8 $m{j} (local.get 0) (local.get 1)) (call $h (local.get 1)) '
             f'(i64.load8_s $m{j} (local.get 0)) (memory.size $m{j}))')
    wat = memmod(mems, extra).replace("(module", "(module " + nest, 1)
    beh = [{"ops": [h.hostop() for _ in range(r.randint(1, 5))], "ret": [i32(k)]} for k in range(6)] + [{"ret": [i32(9)]}]
    ops = [hnew("h.h", ["i32"], ["i32"], beh), inst(defs=HDEF)]
    for _ in range(ck.scale(7, 10)):
        ops += h.ops(r.randint(4, 9), host=0.6)
        ops.append(call("a.mid", val(it, h.at(j)), i32(r.randrange(256))))
    return script(f"P25m-{c}", [wat], ops, [CF[(c + k) % len(CF)] for k in (0, 3, 7)])


def tables(ck, c):
    r = Rng(f"P25t-{ck.seed}-{c}")
    tabs = TABS[c % len(TABS)]
    h = THist(r, tabs, host=0.6)
    beh = [{"ops": [h.hostop() for _ in range(r.randint(1, 4))], "ret": [i32(70 + k)]} for k in range(8)] + [{"ret": [i32(79)]}]
    j = r.randrange(len(tabs))
    it, et = tabs[j][:2]
    extra = f'(func (export "mid") (param {it} i32) (result i32 {et} {it}) (call $h (local.get 1)) (table.get $t{j} (local.get 0)) (table.size $t{j}))'
    ops = [hnew("h.h", ["i32"], ["i32"], beh), inst(defs=HDEF)] + h.setup()
    for _ in range(ck.scale(9, 14)):
        ops += h.ops(r.randint(4, 9)) + [call("a.mid", val(it, h.at(j)), i32(3))]
    return script(f"P25t-{c}", [tabmod(tabs, extra)], ops, ["", "rw=0"] if c % 4 == 0 else [""])


def strings(ck, c):
    """byte and code unit sequences from the classes the decoders distinguish, at the ends of a small memory and across chunks"""
    r = Rng(f"P25s-{ck.seed}-{c}")
    n = 96
    ops = [inst()]
    ends = [0, 1, 13, 16, 29, 31, 32, 60, 61, 62, 63, 64]
    if c % 2 == 0:
        seqs = list(itertools.product(U8, repeat=2)) if ck.thorough else []
        seqs += [[r.choice(U8) for _ in range(r.choice([1, 2, 3, 3, 4, 4, 5, 9]))] for _ in range(60)]
        # near valid: a valid character with one byte changed, removed or added
        for _ in range(60):
            b = list(r.choice(["\u00e9", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0010FFFF", "\U000FFFFF", "\u20aca"]).encode())
            k = r.randrange(5)
            i = r.randrange(len(b))
            if k == 0:
                b[i] = r.choice(U8)
            elif k == 1:
                b.pop(i)
            elif k == 2:
                b.insert(i, r.choice(U8))
            seqs.append(b)
        r.shuffle(seqs)
        for b in seqs[:ck.scale(90, 800)]:
            b = list(b)
            a = r.choice(ends + [n - len(b)] * 3)
            ops.append(op("m.put", o="a.m0", off=a, b=b + ([0] if r.random() < 0.4 and a + len(b) < n else [])))
            k = r.choice(["m.rcs", "m.rcu", "m.rstr"])
            ops.append(op(k, o="a.m0", off=a, n=r.choice([len(b), len(b), len(b) + 1, max(0, len(b) - 1), n - a, n - a + 1])))
    else:
        for _ in range(ck.scale(90, 400)):
            u = [r.choice(U16) for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3, 4, 6]))]
            if r.random() < 0.4:
                u += [r.choice([0xD800, 0xDBFF, 0xD83D]), r.choice([0xDC00, 0xDFFF, 0xDE00])]
            b = [x >> s & 255 for x in u for s in (0, 8)]
            a = r.choice(ends + [n - len(b)] * 3)
            if b:
                ops.append(op("m.put", o="a.m0", off=a, b=b))
            ops.append(op("m.rjs", o="a.m0", off=a, n=r.choice([len(b), len(b), len(b) + 1, max(0, len(b) - 1), len(b) + 2, 2 * len(b)])))
    for _ in range(25):
        s = "".join(r.choice("az\x01\u00e9\u07ff\u0800\uffff\U00010000\U0010FFFF") for _ in range(r.choice([0, 1, 3, 7])))
        b = [x for x in s.encode() if x] if r.random() < 0.9 else [0x41, 0, 0x42]
        a = r.choice(ends + [n - len(b) - 1, n - len(b), n])
        ops += [op("m.wcs", o="a.m0", off=a, b=b, c=r.random() < 0.5), op("m.rex", o="a.m0", off=max(0, a - 2), n=min(len(b) + 4, n - max(0, a - 2)))]
        ops += [call("a.ld8_0", i32(min(n - 1, a + len(b)))), op("m.rcu", o="a.m0", off=a, n=n - a if r.random() < 0.7 else n)]
    return script(f"P25s-{c}", [memmod([("i32", n, n, 0)])], ops, [CF[(c + k) % len(CF)] for k in (0, 2, 6)])


def cursors(ck, c):
    r = Rng(f"P25c-{ck.seed}-{c}")
    n = r.choice([40, 96, 200])
    h = Hist(r, [("i32", n, n, 0)], edge=(16, 64))
    ops = [inst(), op("m.put", o="a.m0", off=0, b=[r.randrange(256) for _ in range(n)])]
    big = [2**31, 2**32, 2**62, 2**63 - 1]
    for _ in range(ck.scale(40, 80)):
        l = []
        for _ in range(r.randint(2, 9)):
            x = h.curop(0)
            if x["k"] == "seek" and r.random() < 0.3:
                x["d"] = r.choice(big + ([-b for b in big] + [-2**63] if x["w"] != "s" else [2**64 - 1, 2**63]))
            if x["k"] == "set" and r.random() < 0.2:
                x["d"] = r.choice(big + [2**64 - 1])
            if x["k"] in ("read", "rall") and r.random() < 0.5:
                x["n"] = r.choice([1, 2, n, n - 1, n + 1])
            l.append(x)
        ops.append(op("m.cur", o="a.m0", l=l, **({"off": r.choice([0, 1, n // 2, n - 1, n, n + 1, 2**64 - 1, 2**63])} if r.random() < 0.7 else {})))
        if r.random() < 0.3:
            ops.append(call("a.ld32_0", i32(r.randrange(n - 3))))
    return script(f"P25c-{c}", [memmod([("i32", n, n, 0)])], ops, [CF[(c + k) % len(CF)] for k in (0, 3, 6)])


def scripts(ck):
    out = [memories(ck, c) for c in range(ck.scale(72, 700))]
    out += [tables(ck, c) for c in range(ck.scale(50, 500))]
    out += [strings(ck, c) for c in range(ck.scale(20, 120))]
    out += [cursors(ck, c) for c in range(ck.scale(24, 200))]
    return out
