"""P07: growing a memory or table is all-or-nothing and respects its limits."""
from . import model, p01
from .core import *
from .hist import *

SHAPES = [[("i32", 1, 3, 16)], [("i64", 1, 4, 16)], [("i32", 10, 400, 0)], [("i32", 0, 2, 16), ("i32", 70, 300, 0)],
          [("i32", 2, None, 16)], [("i64", 130, 500, 0), ("i32", 1, None, 16)], [("i32", 0, 0, 16)], [("i32", 1, 1, 16), ("i64", 0, None, 16)],
          [("i64", 1, 2**48 - 1, 16)], [("i32", 0, None, 0)], [("i64", 0, None, 0)], [("i32", 1, 65536, 16)], [("i32", 3, 3, 16)], [("i64", 2, 2**32, 0)]]
CF = ["", "mem=vec", "mem=paged:64", "mem=paged:65536", "mem=custom", "mem=lazy:paged:4096"]


def capped(mems, r):
    top = max(m[1] << m[3] for m in mems)
    c = [max(64, top + d) for d in (0, 1, 31, 65535, 65536, 131072, 200)]
    out = []
    for x in r.sample(c, 2):
        for b in ("capped", "lazy:capped"):
            out += [f"mem={b}:{x};oom=0", f"mem={b}:{x};oom=1", f"mem={b}:{x}"][:2 if b == "capped" else 3]
    return out


class Grow(Hist):
    """Histories in which every third operation grows something or looks at sizes and edges."""

    def ops(self, n, host=0.45):
        r = self.r
        o = []
        for _ in range(n):
            j = r.randrange(len(self.mems))
            k = r.random()
            if k < 0.15 and self.size[j] < 4 << 16:
                o.append(self.guest_grow(j))
                if r.random() < 0.7:
                    o += [call(f"a.size_{j}"), call(f"a.ld8_{j}", self.ix(j, max(0, self.size[j] - 1))), call(f"a.ld8_{j}", self.ix(j, self.size[j]))]
            elif k < 0.28 and self.size[j] < 4 << 16:
                m = self.mems[j]
                d = r.choice([0, 1, 1, 2, -1, -(2**63), 2**62, 2**63 - 1, 70000, 2**48, 2**47] if m[3] == 16 else [0, 1, 31, 32, 64, -1, 2**40, 2**63 - 1])
                d = self.sane(j, d)
                if d >= 0:
                    self.grown(j, d)
                o += [op("m.grow", o=f"a.m{j}", d=d), op("m.pages", o=f"a.m{j}"), op("m.len", o=f"a.m{j}"), call(f"a.size_{j}")]
            else:
                o.append(self.hostop() if r.random() < host else self.guest())
        return o


TABS = [[("i32", "funcref", 3, 9)], [("i32", "funcref", 0, None), ("i32", "externref", 2, 5)], [("i64", "externref", 1, 12), ("i64", "funcref", 4, 4)],
        [("i32", "funcref", 2, 4), ("i64", "funcref", 0, 2**32 + 7)], [("i32", "externref", 0, 2**32 - 1), ("i32", "externref", 5, 30)],
        [("i64", "funcref", 2, None), ("i32", "funcref", 1, 8), ("i32", "externref", 0, 1)]]
HOSTFN = [hnew("h.h", ["i32"], ["i32"], [{"ret": [i32(77)]}, {"ret": [i32(78)]}])]
HDEF = [["h", "h", "h.h"]]


def scripts(ck):
    out = []
    for c in range(ck.scale(70, 700)):
        r = Rng(f"P07m-{ck.seed}-{c}")
        mems = SHAPES[c % len(SHAPES)]
        h = Grow(r, mems, raw=False, edge=(65536, 64, 4096), maxgrow=2)
        cf = CF if c % 3 else capped(mems, r)
        out.append(script(f"P07m-{c}", [memmod(mems)], [inst()] + h.ops(ck.scale(40, 60)), cf))
    for c in range(ck.scale(60, 600)):
        r = Rng(f"P07t-{ck.seed}-{c}")
        tabs = TABS[c % len(TABS)]
        h = THist(r, tabs, host=0.4, grow=0.3)
        out.append(script(f"P07t-{c}", [tabmod(tabs)], HOSTFN + [inst(defs=HDEF)] + h.setup() + h.ops(ck.scale(60, 100)), ["", "oom=1"]))
    # memories and tables created by the host, with and without a maximum
    for c in range(ck.scale(16, 100)):
        r = Rng(f"P07h-{ck.seed}-{c}")
        it, mn, mx, ps = r.choice([("i32", 0, 2, 16), ("i32", 1, None, 16), ("i64", 1, 3, 16), ("i32", 1, 1, 16)])
        tt = r.choice([("i32", "funcref", 1, 4), ("i64", "externref", 0, 6), ("i32", "externref", 2, None)])
        v = NULLF if tt[1] == "funcref" else val("externref", 5)
        o = [op("mnew", **{"as": "M", "ty": {"it": it, "min": mn, "max": mx, "ps": ps}}), op("tnew", **{"as": "T", "ty": {"et": tt[1], "it": tt[0], "min": tt[2], "max": tt[3]}, "v": v})]
        for _ in range(30):
            k = r.randrange(8)
            o.append([op("m.grow", o="M", d=r.choice([0, 1, 1, 2, -1, 2**60] + ([65536] if it == "i32" or mx else []))), op("m.len", o="M"), op("m.pages", o="M"), op("m.ty", o="M"),
                      op("t.grow", o="T", i=r.choice([0, 1, 2, -1, 2**31 - 1]), v=r.choice([v, NULLF if tt[1] == "funcref" else NULLE])), op("t.size", o="T"),
                      op("m.put", o="M", off=r.choice([0, 65530, 65536, 131070]), b=[1, 2, 3, 4]), op("t.get", o="T", i=r.randrange(6))][k])
        out.append(script(f"P07h-{c}", [], o, ["", "mem=paged:4096", "mem=capped:131072;oom=1", "mem=capped:131072"]))
    out += p01.programs(ck, "P07p", ck.scale(10, 120), cfgs=["", "rw=0", "mem=lazy:paged:4096", "mem=vec"], mem=lambda r: r.choice([1, 2]), mem64=lambda r: r.random() < 0.5,
                        grow=0.25, oob=0.08, table=True)
    for it in ("i32", "i64"):
        for oom in (False, True):
            out += model.cells(ck, "P07", ["mem=" + m + (";oom=1" if oom else "") for m in ("capped:2", "lazy:capped:2")], ck.scale(450, 10**6), oom=oom, it=it, cap=2)
    out += model.slots(ck, "P07", ["", "oom=1"], ck.scale(500, 20000), refs="{0, 1}")
    return out
