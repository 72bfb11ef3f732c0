"""Histories of guest and host operations on memories, tables and globals."""
from .core import *

PAGE = 65536


def memdecl(name, m, exp=None):
    it, mn, mx, ps = m
    return (f'(memory ${name} (export "{exp or name}") {it if it == "i64" else ""} {mn} {"" if mx is None else mx}'
            f'{f" (pagesize {1 << ps})" if ps != 16 else ""})')


GUEST = [("ld8", "i32.load8_u", "i32", 1), ("ld8s", "i64.load8_s", "i64", 1), ("ld16", "i32.load16_s", "i32", 2), ("ld32", "i32.load", "i32", 4),
         ("ld64", "i64.load", "i64", 8), ("ldf", "f32.load", "f32", 4), ("ldd", "f64.load", "f64", 8), ("ldv", "v128.load", "v128", 16)]
GUESTS = [("st8", "i32.store8", "i32", 1), ("st16", "i64.store16", "i64", 2), ("st32", "i32.store", "i32", 4), ("st64", "i64.store", "i64", 8),
          ("std", "f64.store", "f64", 8), ("stv", "v128.store", "v128", 16)]


def memmod(mems, extra=""):
    """A module exporting memories m0.. and functions over each."""
    L = ["(module"] + [memdecl(f"m{j}", m) for j, m in enumerate(mems)]
    L.append('(data $d0 "' + "".join(f"\\{(i * 37 + 11) & 255:02x}" for i in range(60)) + '")')
    for j, m in enumerate(mems):
        it = m[0]
        for n, i, t, w in GUEST:
            L.append(f'(func (export "{n}_{j}") (param {it}) (result {t}) local.get 0 {i} $m{j})')
        for n, i, t, w in GUESTS:
            L.append(f'(func (export "{n}_{j}") (param {it} {t}) local.get 0 local.get 1 {i} $m{j})')
        L.append(f'(func (export "fill_{j}") (param {it} i32 {it}) local.get 0 local.get 1 local.get 2 memory.fill $m{j})')
        L.append(f'(func (export "copy_{j}") (param {it} {it} {it}) local.get 0 local.get 1 local.get 2 memory.copy $m{j} $m{j})')
        L.append(f'(func (export "init_{j}") (param {it} i32 i32) local.get 0 local.get 1 local.get 2 memory.init $m{j} $d0)')
        L.append(f'(func (export "grow_{j}") (param {it}) (result {it}) local.get 0 memory.grow $m{j})')
        L.append(f'(func (export "size_{j}") (result {it}) memory.size $m{j})')
        L.append(f'(func (export "inc_{j}") (param {it}) local.get 0 local.get 0 i32.load $m{j} i32.const 1 i32.add i32.store $m{j})')
    for j, m in enumerate(mems):
        for k, q in enumerate(mems):
            if j != k:
                lt = "i64" if m[0] == q[0] == "i64" else "i32"
                L.append(f'(func (export "copy_{j}_{k}") (param {m[0]} {q[0]} {lt}) local.get 0 local.get 1 local.get 2 memory.copy $m{j} $m{k})')
    return "\n".join(L) + extra + ")"


class Hist:
    """Random operations on the memories of instance `a`; tracks sizes only to aim addresses."""

    def __init__(self, r, mems, raw=True, grow=True, maxgrow=3, edge=(4096, 64, 16, 65536), host=True, strings=False, chunk=0):
        self.r, self.mems, self.raw, self.grow, self.host, self.strings = r, mems, raw, grow, host, strings
        self.size = [m[1] << m[3] for m in mems]
        self.edge = edge
        self.maxgrow = maxgrow

    def at(self, j, w=1):
        """an address near something interesting"""
        r, s = self.r, self.size[j]
        k = r.random()
        if k < 0.25:
            return r.choice([0, 0, 1, 5, 13, 15, 16, 17, 31, 32, 33])
        if k < 0.60:
            e = r.choice(self.edge)
            q = e * r.choice([1, 1, 2, 3])
            a = q + r.choice([-40, -17, -9, -8, -5, -4, -3, -2, -1, 0, 1, 2])
            return max(0, min(a, max(0, s - w))) if r.random() < 0.97 else a
        if k < 0.72:
            return max(0, s - w - r.choice([0, 0, 1, 2, 7, 30]))
        if k < 0.78:
            return max(0, s - w + r.choice([1, 2, 3, 50]))
        if k < 0.79:
            return r.choice([2**31, 2**32 - 1, 2**32 - w])
        return r.randrange(max(1, s))

    def n(self):
        if self.r.random() < 0.12:      # longer than the pieces bulk operations are done in
            return self.r.choice([255, 256, 257, 300, 511, 513, 700, 1030])
        return self.r.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 130, 257])

    def near(self, d, n):
        """another address whose range may overlap the one at d"""
        r = self.r
        k = [-70, -33, -16, -9, -3, -1, 0, 1, 2, 5, 8, 17, 40, 64, 100]
        if n > 200:
            k = [-n + 1, -n, -257, -256, -255, -100, -1, 1, 60, 250, 256, 257, 300, 512, n - 1, n, n // 2, -(n // 2), 600]
        return max(0, d + r.choice(k))

    def ix(self, j, x):
        return val(self.mems[j][0], x)

    def guest(self):
        r = self.r
        j = r.randrange(len(self.mems))
        k = r.random()
        if k < 0.28:
            n, i, t, w = r.choice(GUEST)
            return call(f"a.{n}_{j}", self.ix(j, self.at(j, w)))
        if k < 0.55:
            n, i, t, w = r.choice(GUESTS)
            return call(f"a.{n}_{j}", self.ix(j, self.at(j, w)), r.v(t))
        if k < 0.66:
            n = self.n()
            return call(f"a.fill_{j}", self.ix(j, self.at(j, n)), i32(r.choice([0, 0, 1, 0xFF, 0x80, 0x141])), self.ix(j, n))
        if k < 0.84:
            n = self.n()
            d = self.at(j, n)
            s = self.at(j, n) if r.random() < 0.4 else self.near(d, n)
            if len(self.mems) > 1 and r.random() < 0.35:
                q = r.choice([x for x in range(len(self.mems)) if x != j])
                lt = "i64" if self.mems[j][0] == self.mems[q][0] == "i64" else "i32"
                return call(f"a.copy_{j}_{q}", self.ix(j, d), self.ix(q, self.at(q, n)), val(lt, n))
            return call(f"a.copy_{j}", self.ix(j, d), self.ix(j, s), self.ix(j, n))
        if k < 0.90:
            n = r.choice([0, 1, 5, 33, 59, 60])
            return call(f"a.init_{j}", self.ix(j, self.at(j, n)), i32(r.choice([0, 0, 1, 2, 27])), i32(n))
        if k < 0.94:
            return call(f"a.inc_{j}", self.ix(j, self.at(j, 4)))
        if k < 0.97 and self.grow:
            return self.guest_grow(j)
        return call(f"a.size_{j}")

    def guest_grow(self, j):
        r = self.r
        m = self.mems[j]
        d = r.choice([0, 1, 1, 2, 3, self.maxgrow, 100000, 2**31, 2**32 - 1] if m[3] == 16 else [0, 1, 5, 31, 32, 33, 64, 100, 1000000, 2**32 - 1])
        d = self.sane(j, d)
        self.grown(j, d)
        return call(f"a.grow_{j}", self.ix(j, d if m[0] == "i32" else r.choice([d, d, d, 2**63, 2**64 - 1]) if d > 1000 else d))

    def sane(self, j, d):
        """not a growth that would succeed and take gigabytes"""
        m = self.mems[j]
        mx = m[2] if m[2] is not None else 2**32 >> m[3] if m[0] == "i32" else 2**64 >> m[3]
        return 1 if d > 0 and (self.size[j] >> m[3]) + d <= mx and d << m[3] > 2**22 else d

    def grown(self, j, d):
        m = self.mems[j]
        mx = m[2] if m[2] is not None else 1 << 30
        if (self.size[j] >> m[3]) + d <= mx and d < 1000000:
            self.size[j] += d << m[3]

    def hostop(self):
        r = self.r
        j = r.randrange(len(self.mems))
        o = f"a.m{j}"
        n = self.n()
        a = self.at(j, n)
        data = [r.choice([0, 1, 0xFF, 0x80, r.randrange(256)]) for _ in range(n)]
        ks = ["m.rex", "m.rvec", "m.put", "m.fill", "m.copy", "m.len", "m.pages"]
        if self.raw:
            ks += ["m.read", "m.write", "m.cur"]
        if self.strings:
            ks += ["m.wcs", "m.rcs", "m.rcu", "m.rstr", "m.rjs", "m.wcs", "m.str"] * 2
        if self.grow:
            ks.append("m.grow")
        k = r.choice(ks)
        if k in ("m.rex", "m.rvec", "m.read"):
            return op(k, o=o, off=a, n=n)
        if k in ("m.put", "m.write"):
            return op(k, o=o, off=a, b=data)
        if k == "m.fill":
            return op(k, o=o, off=a, n=n, v=r.choice([0, 0, 7, 255]))
        if k == "m.copy":
            return op(k, o=o, off=a, s=self.at(j, n) if r.random() < 0.4 else self.near(a, n), n=n)
        if k == "m.grow":
            m = self.mems[j]
            d = r.choice([0, 1, 1, 2, -1, -(2**63), 2**62, 70000]) if m[3] == 16 else r.choice([0, 1, 31, 32, 64, -1, 2**40])
            d = self.sane(j, d)
            if 0 <= d:
                self.grown(j, d)
            return op(k, o=o, d=d)
        if k == "m.cur":
            return op(k, o=o, **({} if r.random() < 0.3 else {"off": a}), l=[self.curop(j) for _ in range(r.randint(1, 6))])
        if k == "m.wcs":
            return op(k, o=o, off=a, b=[r.randrange(1, 128) for _ in range(r.choice([0, 1, 5, 17]))], c=r.random() < 0.5)
        if k == "m.str":      # something worth decoding
            return op("m.put", o=o, off=a, b=self.text())
        if k in ("m.rcs", "m.rcu", "m.rstr", "m.rjs"):
            return op(k, o=o, off=a, n=r.choice([0, 1, 2, 3, 4, 6, 8, 12, 16, 18, 20, 33, 64]))
        return op(k, o=o)

    def text(self):
        r = self.r
        if r.random() < 0.5:
            s = "".join(r.choice(["a", "z", "é", "ß", "€", "한", "😀", "\U0010FFFF", "\u0800", "\uFFFD", "\uD7FF"]) for _ in range(r.randint(1, 8)))
            b = list(s.encode("utf-8"))
            if r.random() < 0.4 and b:
                b[r.randrange(len(b))] = r.choice([0, 0x80, 0xC0, 0xE0, 0xED, 0xF0, 0xF4, 0xFF, 0xBF])
        else:
            s = "".join(r.choice(["a", "é", "€", "😀", "\U0010FFFF", "\U00010000"]) for _ in range(r.randint(1, 6)))
            b = list(s.encode("utf-16-le"))
            if r.random() < 0.4 and b:
                b[1] = r.choice([0xD8, 0xDC, 0xDB, 0xDF])
        if r.random() < 0.4:
            b.append(0)
        return b

    def curop(self, j):
        r = self.r
        s = self.size[j]
        k = r.choice(["read", "rall", "write", "wall", "seek", "set", "pos"])
        b = [r.randrange(256) for _ in range(r.choice([0, 1, 3, 17, 70]))]
        if k in ("read", "rall"):
            return {"k": k, "n": self.n()}
        if k in ("write", "wall"):
            return {"k": k, "b": b}
        if k == "seek":
            w = r.choice("sce")
            d = self.at(j) if w == "s" else r.choice([0, 1, 5, -1, -5, 40, -40, -100, -s, -s - 1, 1000])
            return {"k": k, "w": w, "d": d}
        if k == "set":
            return {"k": k, "d": r.choice([0, self.at(j), s, s + 5, s - 3 if s > 3 else 0])}
        return {"k": "pos"}

    def bigcopy(self):
        """distinct bytes over a long range, moved onto an overlapping one"""
        r = self.r
        js = [j for j in range(len(self.mems)) if self.size[j] >= 4000]
        if not js or not self.host:
            return []
        j = r.choice(js)
        n = r.choice([300, 513, 777, 1100])
        a = min(self.at(j, n), self.size[j] - n) if r.random() < 0.6 else r.choice(self.edge) * r.randint(1, 3)
        a = max(0, min(a, self.size[j] - n))
        d = max(0, min(a + r.choice([1, -1, 8, -9, 100, -100, 255, 256, 257, -256, -257, 260, 290, 300, 500, -300]), self.size[j] - 1))
        c = op("m.copy", o=f"a.m{j}", off=d, s=a, n=n) if r.random() < 0.4 else call(f"a.copy_{j}", self.ix(j, d), self.ix(j, a), self.ix(j, n))
        return [op("m.put", o=f"a.m{j}", off=a, b=[r.randrange(256) for _ in range(n)]), c] + ([op("m.rvec", o=f"a.m{j}", off=min(a, d), n=n)] if r.random() < 0.5 else [])

    def ops(self, n, host=0.45):
        out = []
        while len(out) < n:
            out += self.bigcopy() if self.r.random() < 0.025 else [self.hostop() if self.host and self.r.random() < host else self.guest()]
        return out


# ---------------------------------------------------------------- tables

def tabmod(tabs, extra="", imports="", hostfn=True, names=None):
    """A module with tables t0.. (it, et, min, max, init) and functions over each; f0..f4 of several types, h an import."""
    L = ["(module", "(type $v (func))", "(type $i (func (result i32)))", "(type $ii (func (param i32) (result i32)))",
         "(type $l (func (param i64) (result i64 i32)))"]
    if hostfn:
        L.append('(import "h" "h" (func $h (param i32) (result i32)))')
    L.append(imports)
    names = names or [f"t{j}" for j in range(len(tabs))]
    for j, t in enumerate(tabs):
        it, et, mn, mx = t[:4]
        if len(t) > 4 and t[4] == "import":
            continue
        ini = "" if len(t) < 5 or not t[4] else t[4]
        L.append(f'(table $t{j} (export "{names[j]}") {it if it == "i64" else ""} {mn} {"" if mx is None else mx} {et} {ini})')
    L += ['(global $xg (import "h" "x") externref)'] if False else []
    L += ['(func $f0 (export "f0") (result i32) i32.const 100)', '(func $f1 (export "f1") (result i32) i32.const 101)',
          '(func $f2 (export "f2") (param i32) (result i32) local.get 0 i32.const 7 i32.add)',
          '(func $f3 (export "f3") (param i64) (result i64 i32) local.get 0 i64.const 1 i64.add i32.const 3)',
          '(func $f4 (export "f4") global.get $cnt i32.const 1 i32.add global.set $cnt)',
          '(global $cnt (export "cnt") (mut i32) (i32.const 0))',
          '(elem $e0 func $f0 $f1 $f2 $f3 $f4)', '(elem $e1 funcref (ref.func $f2) (ref.null func) (ref.func $f0))',
          '(elem $e2 externref (ref.null extern) (ref.null extern))', '(elem declare func $f0 $f1 $f2 $f3 $f4 ' + ("$h" if hostfn else "") + ')']
    fs = ["f0", "f1", "f2", "f3", "f4"] + (["h"] if hostfn else [])
    for f in fs:
        L.append(f'(func (export "ref_{f}") (result funcref) ref.func ${f})')
    L.append('(func (export "null") (result funcref) ref.null func)')
    L.append('(func (export "isnf") (param funcref) (result i32) local.get 0 ref.is_null)')
    L.append('(func (export "isnx") (param externref) (result i32) local.get 0 ref.is_null)')
    L.append('(func (export "idf") (param funcref) (result funcref) (local funcref) local.get 0 local.set 1 local.get 1)')
    L.append('(func (export "idx") (param externref i32 externref) (result externref) local.get 0 local.get 2 local.get 1 select (result externref))')
    for j, t in enumerate(tabs):
        it, et = t[0], t[1]
        L.append(f'(func (export "get_{j}") (param {it}) (result {et}) local.get 0 table.get $t{j})')
        L.append(f'(func (export "set_{j}") (param {it} {et}) local.get 0 local.get 1 table.set $t{j})')
        L.append(f'(func (export "size_{j}") (result {it}) table.size $t{j})')
        L.append(f'(func (export "grow_{j}") (param {et} {it}) (result {it}) local.get 0 local.get 1 table.grow $t{j})')
        L.append(f'(func (export "fill_{j}") (param {it} {et} {it}) local.get 0 local.get 1 local.get 2 table.fill $t{j})')
        for k, q in enumerate(tabs):
            if q[1] == et:
                lt = "i64" if it == q[0] == "i64" else "i32"
                L.append(f'(func (export "copy_{j}_{k}") (param {it} {q[0]} {lt}) local.get 0 local.get 1 local.get 2 table.copy $t{j} $t{k})')
        for e, ety in ((0, "funcref"), (1, "funcref"), (2, "externref")):
            if ety == et:
                L.append(f'(func (export "init_{j}_{e}") (param {it} i32 i32) local.get 0 local.get 1 local.get 2 table.init $t{j} $e{e})')
        if et == "funcref":
            L.append(f'(func (export "call_{j}_v") (param {it}) local.get 0 call_indirect $t{j} (type $v))')
            L.append(f'(func (export "call_{j}_i") (param {it}) (result i32) local.get 0 call_indirect $t{j} (type $i))')
            L.append(f'(func (export "call_{j}_ii") (param i32 {it}) (result i32) local.get 0 local.get 1 call_indirect $t{j} (type $ii))')
            L.append(f'(func (export "call_{j}_l") (param i64 {it}) (result i64 i32) local.get 0 local.get 1 call_indirect $t{j} (type $l))')
            L.append(f'(func (export "tail_{j}_ii") (param i32 {it}) (result i32) local.get 0 local.get 1 return_call_indirect $t{j} (type $ii))')
            L.append(f'(func (export "via_{j}") (param {it} i32) (result i32) local.get 1 i32.const 5 local.get 0 table.get $t{j} ref.is_null select)')
    for e in range(3):
        L.append(f'(func (export "drop_{e}") elem.drop $e{e})')
    return "\n".join(L) + extra + ")"


class THist:
    """Random operations on the tables of instance `a` (made from tabmod)."""

    def __init__(self, r, tabs, host=0.35, grow=0.12, inst="a", maxsize=60, names=None, hostfn=True):
        self.r, self.tabs, self.a, self.hostp, self.growp = r, tabs, inst, host, grow
        self.size = [t[2] for t in tabs]
        self.maxsize = maxsize
        self.names = names or [f"t{j}" for j in range(len(tabs))]
        self.fs = ["f0", "f1", "f2", "f3", "f4"] + (["h"] if hostfn else [])

    def setup(self):
        return [call(f"{self.a}.ref_{f}", **{"as": f"{self.a}r_{f}"}) for f in self.fs]

    def ref(self, et):
        r = self.r
        if et == "funcref":
            return NULLF if r.random() < 0.2 else var(f"{self.a}r_{r.choice(self.fs)}")
        return NULLE if r.random() < 0.2 else val("externref", r.choice([0, 1, 2, 7, 100, 2**31 - 1]))

    def at(self, j, n=1):
        r, s = self.r, self.size[j]
        k = r.random()
        if k < 0.75:
            return r.randrange(max(1, s - n + 1)) if s >= n else 0
        if k < 0.97:
            return max(0, s - n + r.choice([0, 0, 1, 1, 2]))
        return r.choice([2**31, 2**32 - 1, 2**31 - 1])

    def n(self):
        return self.r.choice([0, 1, 1, 2, 3, 4, 5, 7])

    def ix(self, j, x):
        return val(self.tabs[j][0], x)

    def delta(self, j):
        r = self.r
        mx = self.tabs[j][3]
        d = r.choice([0, 1, 2, 3, 5])
        if r.random() < 0.35:
            d = r.choice([2**31 - 1, 2**31, 2**32 - 1, 2**32 - self.size[j], (mx or 40) - self.size[j], (mx or 40) - self.size[j] + 1])
        return max(0, d)

    def grown(self, j, d):
        mx = self.tabs[j][3]
        if self.size[j] + d <= (mx if mx is not None else 4096) and d < 4096:
            self.size[j] += d

    def guest(self):
        r, a = self.r, self.a
        j = r.randrange(len(self.tabs))
        it, et = self.tabs[j][:2]
        k = r.random()
        n = self.n()
        if k < 0.16:
            return call(f"{a}.get_{j}", self.ix(j, self.at(j)))
        if k < 0.32:
            return call(f"{a}.set_{j}", self.ix(j, self.at(j)), self.ref(et))
        if k < 0.40:
            return call(f"{a}.fill_{j}", self.ix(j, self.at(j, n)), self.ref(et), self.ix(j, n))
        if k < 0.54:
            q = r.choice([x for x in range(len(self.tabs)) if self.tabs[x][1] == et])
            lt = "i64" if it == self.tabs[q][0] == "i64" else "i32"
            return call(f"{a}.copy_{j}_{q}", self.ix(j, self.at(j, n)), self.ix(q, self.at(q, n)), val(lt, n))
        if k < 0.64:
            e = r.choice([0, 1] if et == "funcref" else [2])
            return call(f"{a}.init_{j}_{e}", self.ix(j, self.at(j, n)), i32(r.choice([0, 0, 1, 2, 3])), i32(n))
        if k < 0.65:
            return call(f"{a}.drop_{r.randrange(3)}")
        if k < 0.65 + self.growp and (self.tabs[j][3] is not None or self.size[j] < self.maxsize):
            d = self.delta(j)
            if not (self.tabs[j][3] is None and 4000 < d < 10_000_001):
                self.grown(j, d)
                return call(f"{a}.grow_{j}", self.ref(et), self.ix(j, d))
        if k < 0.80:
            return call(f"{a}.size_{j}")
        if et == "funcref":
            x = self.ix(j, self.at(j))
            return r.choice([lambda: call(f"{a}.call_{j}_v", x), lambda: call(f"{a}.call_{j}_i", x), lambda: call(f"{a}.call_{j}_ii", r.v("i32"), x),
                             lambda: call(f"{a}.call_{j}_l", r.v("i64"), x), lambda: call(f"{a}.tail_{j}_ii", r.v("i32"), x),
                             lambda: call(f"{a}.via_{j}", x, r.v("i32")), lambda: call(f"{a}.isnf", self.ref(et)), lambda: call(f"{a}.idf", self.ref(et))])()
        return r.choice([lambda: call(f"{a}.isnx", self.ref(et)), lambda: call(f"{a}.idx", self.ref(et), i32(r.randrange(2)), self.ref(et))])()

    def hostop(self):
        r = self.r
        j = r.randrange(len(self.tabs))
        o = f"{self.a}.{self.names[j]}"
        et = self.tabs[j][1]
        n = self.n()
        k = r.random()
        if k < 0.1:
            return op("t.size", o=o)
        if k < 0.15:
            return op("t.ty", o=o)
        if k < 0.35:
            return op("t.get", o=o, i=self.at(j))
        if k < 0.45:
            return op("t.load", o=o, i=self.at(j, n), n=n)
        if k < 0.70:
            wrong = r.random() < 0.08
            v = (r.v(r.choice(["i32", "i64", "f32", "v128"])) if r.random() < 0.5 else self.ref("externref" if et == "funcref" else "funcref")) if wrong else self.ref(et)
            return op("t.set", o=o, i=self.at(j), v=v)
        if k < 0.85:
            return op("t.copy", o=o, s=self.at(j, n), i=self.at(j, n), n=n)
        d = r.choice([0, 1, 2, 5, -1, -2**31, 2**31 - 1]) if self.tabs[j][3] is not None or self.size[j] < self.maxsize else r.choice([0, -1, 2**31 - 1])
        if d >= 0:
            self.grown(j, d)
        return op("t.grow", o=o, i=d, v=self.ref(et))

    def ops(self, n):
        return [self.hostop() if self.r.random() < self.hostp else self.guest() for _ in range(n)]
