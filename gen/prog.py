"""Random valid, terminating modules: structured control, multi-value blocks, calls, memory, tables, globals."""
from . import idioms
from .core import *

INT2 = [o for o in idioms.OPS_INT if len(o[1]) == 2]
ALLOPS = {}
for o in idioms.OPS_INT + idioms.OPS_FLOAT:
    ALLOPS.setdefault(o[2], []).append(o)
SIMDOPS = {}
for o in idioms.OPS_SIMD:
    SIMDOPS.setdefault(o[2], []).append(o)
LOADS = {"i32": [("i32.load", 4), ("i32.load8_s", 1), ("i32.load8_u", 1), ("i32.load16_s", 2), ("i32.load16_u", 2)],
         "i64": [("i64.load", 8), ("i64.load8_s", 1), ("i64.load8_u", 1), ("i64.load16_s", 2), ("i64.load16_u", 2),
                 ("i64.load32_s", 4), ("i64.load32_u", 4)],
         "f32": [("f32.load", 4)], "f64": [("f64.load", 8)],
         "v128": [("v128.load", 16), ("v128.load8_splat", 1), ("v128.load16_splat", 2), ("v128.load32_splat", 4),
                  ("v128.load64_splat", 8), ("v128.load32_zero", 4), ("v128.load64_zero", 8), ("v128.load8x8_s", 8),
                  ("v128.load8x8_u", 8), ("v128.load16x4_s", 8), ("v128.load16x4_u", 8), ("v128.load32x2_s", 8),
                  ("v128.load32x2_u", 8)]}
STORES = {"i32": [("i32.store", 4), ("i32.store8", 1), ("i32.store16", 2)],
          "i64": [("i64.store", 8), ("i64.store8", 1), ("i64.store16", 2), ("i64.store32", 4)],
          "f32": [("f32.store", 4)], "f64": [("f64.store", 8)], "v128": [("v128.store", 16)]}
REFS = ("funcref", "externref")


class Opt:
    """What a program may contain."""

    def __init__(self, **k):
        self.types = ["i32", "i32", "i64", "f32", "f64"]
        self.simd = self.refs = False
        self.mem = 1              # memories
        self.mem64 = False
        self.table = True
        self.tail = 0.0
        self.host = 0             # host imports
        self.nfun = 4
        self.size = 26
        self.depth = 3
        self.trap = 0.02
        self.fuel = 24
        self.dead = 0.35
        self.bulk = True
        self.far = 0.05
        self.imports = ""         # extra module fields (imports first)
        self.fields = ""
        self.oob = 0.03
        self.grow = 0.02
        self.loopk = 3
        self.maxargs = 4
        self.passive = True
        self.__dict__.update(k)
        if self.simd:
            self.types = self.types + ["v128"]
        if self.refs:
            self.types = self.types + list(REFS)


class Mod:
    def __init__(self, r, o):
        self.r, self.o = r, o
        self.sigs = []          # functions: (params, results)
        self.hosts = []
        for _ in range(o.host):
            self.hosts.append((self.tys(0, 3), self.tys(0, 3)))
        self.n = o.nfun
        for _ in range(self.n):
            self.sigs.append((self.tys(0, o.maxargs), self.tys(0, 3)))
        self.globals = [(r.choice(o.types), r.random() < 0.85) for _ in range(r.randint(2, 5))]
        self.its = ["i64" if o.mem64 and r.random() < 0.6 else "i32" for _ in range(o.mem)]
        self.ttypes = [] if not o.table else ["funcref"] + (["externref", "funcref"] if o.refs else [])

    def tys(self, a, b):
        return [self.r.choice(self.o.types) for _ in range(self.r.randint(a, b))]

    def wat(self):
        r, o = self.r, self.o
        L = ["(module"]
        if o.imports:
            L.append(o.imports)
        for j, (p, q) in enumerate(self.hosts):
            L.append(f'(import "h" "h{j}" (func $h{j} {wtypes("param", p)} {wtypes("result", q)}))')
        for j, it in enumerate(self.its):
            L.append(f'(memory $m{j} (export "m{j}") {it if it == "i64" else ""} 1 {r.choice(["2", "3", "1"])})')
        for j, t in enumerate(self.ttypes):
            L.append(f'(table $t{j} (export "t{j}") {r.randint(4, 7)} {r.choice(["10", "8", "9"])} {t})')
        L.append("(global $fuel (mut i32) (i32.const 0))")
        for j, (t, mu) in enumerate(self.globals):
            init = "ref.null func" if t == "funcref" else "ref.null extern" if t == "externref" else const(t, r.bits(t))
            L.append(f'(global $g{j} (export "g{j}") {f"(mut {t})" if mu else t} ({init}))')
        fns = [f"$f{j}" for j in range(self.n)] + [f"$h{j}" for j in range(len(self.hosts))]
        if o.table:
            L.append(f'(elem (table $t0) (i32.const {r.randint(0, 1)}) func {" ".join(r.choice(fns) for _ in range(3))})')
        L.append(f'(elem $e0 func {" ".join(fns)})')
        if o.mem:
            it = self.its[0]
            L.append(f'(data (memory $m0) ({it}.const {r.randint(0, 64)}) "{"".join(r.choice(["a", "b", chr(92) + "ff", chr(92) + "00", chr(92) + "80"]) for _ in range(40))}")')
            if o.passive:
                L.append('(data $d0 "\\01\\02\\03\\04\\05\\06\\07\\08\\09\\0a\\0b\\0c\\0d\\0e\\0f\\10\\11")')
        if o.fields:
            L.append(o.fields)
        for j in range(self.n):
            L.append(Fn(self, j).wat())
        for j in range(self.n):
            p, q = self.sigs[j]
            ps = " ".join(f"local.get {k}" for k in range(len(p)))
            c = "return_call" if r.random() < o.tail else "call"
            L.append(f'(func (export "e{j}") {wtypes("param", p)} {wtypes("result", q)} i32.const {o.fuel} global.set $fuel {ps} {c} $f{j})')
        L.append(")")
        return "\n".join(L)

    def calls(self, inst="a", k=3, **kw):
        return [call(f"{inst}.e{j}", *[self.arg(t) for t in self.sigs[j][0]], **kw)
                for j in range(self.n) for _ in range(k)]

    def arg(self, t):
        if t in REFS:
            return val(t, -1 if t == "funcref" or self.r.random() < 0.3 else self.r.randrange(5))
        return self.r.v(t)

    def host_ops(self, behs=3):
        """hnew operations and definitions for the host imports"""
        r = self.r
        ops, defs = [], []
        for j, (p, q) in enumerate(self.hosts):
            beh = []
            for _ in range(behs):
                ret = []
                for t in q:
                    same = [k for k, x in enumerate(p) if x == t]
                    ret.append({"arg": r.choice(same)} if same and r.random() < 0.5 else self.arg(t))
                beh.append({"ret": ret})
            ops.append(hnew(f"h{j}", p, q, beh, typed=r.random() < 0.5))
            defs.append(["h", f"h{j}", f"h{j}"])
        return ops, defs


class Fn:
    def __init__(self, mod, j):
        self.m, self.r, self.o, self.j = mod, mod.r, mod.o, j
        self.params, self.results = mod.sigs[j]
        r, o = self.r, self.o
        self.locals = list(self.params)
        self.pad = o.far and r.random() < o.far
        if self.pad:
            self.locals += ["i32"] * 140 + ["i64"] * 130
        self.locals += [r.choice(o.types) for _ in range(r.randint(1, 5))] + list(dict.fromkeys(o.types))
        self.counters = []
        self.labels = []       # (types, targetable, counter)
        self.left = o.size
        self.out = []

    def newcounter(self):
        self.locals.append("i32")
        self.counters.append(len(self.locals) - 1)
        return len(self.locals) - 1

    def local(self, t):
        c = [k for k, x in enumerate(self.locals) if x == t and k not in self.counters]
        if self.pad and len(c) > 6:
            c = c[:2] + c[-3:]
        return self.r.choice(c)

    def e(self, s):
        self.out.append(s)

    def wat(self):
        r = self.r
        self.e(f"global.get $fuel i32.eqz if {self.dflt(self.results)} return end")
        self.e("global.get $fuel i32.const 1 i32.sub global.set $fuel")
        self.labels = [(self.results, True, None)]
        while self.left > 0:
            self.stmt(self.o.depth)
        ok = True
        k = r.random()
        if k < 0.12:
            self.terminator(self.o.depth)
            ok = False
        elif k < 0.12 + self.o.tail:
            ok = not self.tail(2)
        if ok:
            self.exprs(self.results, 2)
            if r.random() < 0.2:
                self.e("return")
        ls = " ".join(self.locals[len(self.params):])
        return (f'(func $f{self.j} {wtypes("param", self.params)} {wtypes("result", self.results)} '
                f'{f"(local {ls})" if ls else ""}\n ' + "\n ".join(self.out) + ")")

    def dflt(self, ts):
        return " ".join({"funcref": "ref.null func", "externref": "ref.null extern"}.get(t) or const(t, 0x2A if t[0] == "i" else 0) for t in ts)

    # ------------------------------------------------------------ expressions
    def exprs(self, ts, d):
        for t in ts:
            self.expr(t, d)

    def expr(self, t, d):
        r = self.r
        self.left -= 0.4
        if self.left < -20:
            d = 0
        k = r.random()
        if t in REFS:
            return self.ref(t, d)
        if d <= 0 or k < 0.30:
            x = r.random()
            gs = [j for j, (gt, _) in enumerate(self.m.globals) if gt == t]
            if x < 0.55:
                return self.e(f"local.get {self.local(t)}")
            if x < 0.7 and gs:
                return self.e(f"global.get $g{r.choice(gs)}")
            return self.e(const(t, r.choice([0, 1, 2, r.bits(t), r.bits(t)])))
        if k < 0.58:
            ops = list(ALLOPS.get(t, []))
            if self.o.simd and (t == "v128" or r.random() < 0.1):
                ops = SIMDOPS[t]
            ops = [o for o in ops if all(a in self.o.types for a in o[1])]
            n, a, _ = r.choice(ops)
            if ("div" in n or "rem" in n) and t[0] == "i" and r.random() < 0.85:
                self.expr(t, d - 1)
                return self.e(f"{const(t, r.choice([1, 2, 3, 7, (1 << 8 * W[t]) - 3]))} {n}")
            if ".trunc_f" in n and r.random() < 0.9:
                n = n.replace("trunc_f", "trunc_sat_f")
            self.exprs(a, d - 1)
            return self.e(n)
        if k < 0.64 and self.o.mem:
            n, w = r.choice(LOADS[t])
            m = r.randrange(self.o.mem)
            self.addr(m, d - 1)
            return self.e(f"{n} $m{m} offset={self.off()}")
        if k < 0.70:
            self.expr(t, d - 1)
            return self.e(f"local.tee {self.local(t)}")
        if k < 0.76:
            self.exprs([t, t], d - 1)
            self.cond(d - 1)
            return self.e("select" if r.random() < 0.7 else f"select (result {t})")
        if k < 0.86:
            return self.block(d, self.m.tys(0, 2) if r.random() < 0.4 else [], [t])
        if k < 0.90:
            return self.callany(d, want=t)
        if k < 0.93:     # more values than needed: drop the others
            extra = self.m.tys(1, 2)
            self.expr(t, d - 1)
            self.exprs(extra, d - 1)
            return self.e("drop " * len(extra))
        if k < 0.96 and t == "i32":
            x = r.randrange(3)
            if x == 0 and self.o.mem:
                m = r.randrange(self.o.mem)
                if self.m.its[m] == "i32":
                    return self.e(f"memory.size $m{m}")
            if x == 1 and self.m.ttypes:
                return self.e(f"table.size $t{r.randrange(len(self.m.ttypes))}")
            if self.o.refs:
                self.ref(r.choice(REFS), d - 1)
                return self.e("ref.is_null")
        # a conditional branch carrying the value
        c = [j for j, (ts, ok, _) in enumerate(reversed(self.labels)) if ok and ts == [t]]
        if c and r.random() < 0.8:
            self.expr(t, d - 1)
            self.cond(d - 1)
            return self.e(f"br_if {r.choice(c)}")
        if r.random() < 0.25:
            return self.terminator(d - 1)       # leaves a polymorphic stack: any type fits
        self.e(f"local.get {self.local(t)}")

    def ref(self, t, d):
        r = self.r
        k = r.random()
        ts = [j for j, x in enumerate(self.m.ttypes) if x == t]
        if k < 0.3:
            return self.e(f"local.get {self.local(t)}")
        if k < 0.5 and t == "funcref":
            return self.e(f"ref.func $f{r.randrange(self.m.n)}")
        if k < 0.75 and ts and d > 0:
            self.small(d - 1, 6)
            return self.e(f"table.get $t{r.choice(ts)}")
        gs = [j for j, (gt, _) in enumerate(self.m.globals) if gt == t]
        if gs and k < 0.9:
            return self.e(f"global.get $g{r.choice(gs)}")
        self.e("ref.null " + ("func" if t == "funcref" else "extern"))

    def cond(self, d):
        """an i32 used as a condition, often in a shape worth fusing"""
        r = self.r
        k = r.random()
        t = r.choice(["i32", "i64"])
        if k < 0.25:
            self.e(f"local.get {self.local(t)}")
            if t == "i64" or r.random() < 0.4:
                self.e(f"{t}.eqz")
        elif k < 0.75:
            c = r.choice("eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u".split())
            x = r.random()
            if x < 0.6:
                self.e(f"local.get {self.local(t)}")
            else:
                self.expr(t, d - 1)
            if r.random() < 0.6:
                self.e(const(t, r.choice([0, 0, 1, 5, r.bits(t)])))
            else:
                self.e(f"local.get {self.local(t)}")
            self.e(f"{t}.{c}")
        else:
            self.expr("i32", d - 1)
        if r.random() < 0.15:
            self.e("i32.eqz")

    def small(self, d, n):
        """an i32 below n, rarely beyond"""
        r = self.r
        if r.random() < 0.5:
            return self.e(f"i32.const {r.randrange(n + (1 if r.random() < self.o.oob else 0))}")
        self.expr("i32", d)
        self.e(f"i32.const {n} i32.rem_u")

    def off(self):
        return self.r.choice([0, 0, 1, 4, 8, 100, 4000])

    def addr(self, m, d):
        r = self.r
        it = self.m.its[m]
        if r.random() < self.o.oob:
            return self.e(f"{it}.const {r.choice([65536, 65535, 131070, 0xFFFFFFF0])}")
        if r.random() < 0.3:
            return self.e(f"{it}.const {r.choice([0, 1, 5, 8, 30, 62, 64, 255, 1000, 4090])}")
        if it == "i32" and r.random() < 0.25:      # an address straight from a local
            l = self.local("i32")
            self.e(f"local.get {l} i32.const 1023 i32.and local.set {l} local.get {l}")
            return
        self.expr(it, d)
        self.e(f"{it}.const 1023 {it}.and")

    # ------------------------------------------------------------ control
    def block(self, d, ps, rs):
        """a block, loop or if consuming ps (pushed here) and leaving rs"""
        r = self.r
        self.exprs(ps, d - 1)
        bt = f"{wtypes('param', ps)} {wtypes('result', rs)}"
        k = r.choice(["block", "if", "loop", "block"])
        if k == "if":
            self.cond(d - 1)
        c = None
        if k == "loop":
            c = self.newcounter()
            # the counter is reset before, outside the operands
            self.e(f"i32.const 0 local.set {c}")
        self.e(f"{k} {bt}")
        self.labels.append((ps if k == "loop" else rs, k != "loop", c))
        self.body(d, ps, rs, c)
        if k == "if" and (rs != ps or r.random() < 0.6):
            self.e("else")
            self.body(d, ps, rs, None)
        self.labels.pop()
        self.e("end")

    def body(self, d, ps, rs, c):
        r = self.r
        for t in reversed(ps):
            self.e(f"local.set {self.local(t)}" if r.random() < 0.7 else "drop")
        for _ in range(r.randint(0, 2)):
            self.stmt(d - 1)
        if c is not None:
            self.exprs(self.labels[-1][0], d - 1)
            self.back(c, 0)
            for _ in self.labels[-1][0]:
                self.e("drop")
        if r.random() < 0.08:
            return self.terminator(d - 1)
        self.exprs(rs, d - 1)
        # through an explicit branch
        if self.labels[-1][1] and r.random() < 0.12:
            self.e("br 0")
            self.junk(d)

    def back(self, c, n):
        """a bounded jump back to loop label n; the loop's parameters are on the stack"""
        r = self.r
        K = r.randint(1, self.o.loopk)
        ts = self.labels[-1 - n][0]
        s = r.randrange(6)
        if s == 0:
            self.e(f"local.get {c} i32.const 1 i32.add local.tee {c} i32.const {K} i32.lt_u br_if {n}")
        elif s == 1:
            self.e(f"local.get {c} i32.const 1 i32.add local.set {c} local.get {c} i32.const {K} i32.le_s br_if {n}")
        elif s == 2:
            self.e(f"i32.const 1 local.get {c} i32.add local.tee {c} i32.const {K} i32.ge_u i32.eqz br_if {n}")
        elif s == 3:
            self.e(f"local.get {c} i32.const 1 i32.add local.tee {c} i32.const {K} i32.ne local.get {c} i32.const 9 i32.lt_s i32.and br_if {n}")
        elif s == 4:
            self.e(f"local.get {c} i32.const 1 i32.add local.set {c} local.get {c} i32.const {K} i32.lt_s if {wtypes('param', ts)} {wtypes('result', ts)} br {n + 1} end")
        else:      # a table branch: 0 goes back, anything else leaves a wrapping block
            w = wtypes("param", ts) + " " + wtypes("result", ts)
            self.e(f"block {w} local.get {c} i32.const 1 i32.add local.tee {c} i32.const {K} i32.gt_u br_table {n + 1} 0 end")

    def terminator(self, d):
        """leaves the current point; anything may follow"""
        r = self.r
        c = [j for j, (ts, ok, _) in enumerate(reversed(self.labels)) if ok]
        k = r.random()
        if k < self.o.trap:
            self.e("unreachable")
        elif k < 0.3:
            self.exprs(self.results, d)
            self.e("return")
        elif k < 0.42:
            j = r.choice(c)
            ts = self.labels[-1 - j][0]
            same = [x for x in c if self.labels[-1 - x][0] == ts]
            self.exprs(ts, d)
            self.expr("i32", d)
            if r.random() < 0.7:
                self.e("i32.const 3 i32.and")
            self.e("br_table " + " ".join(str(r.choice(same)) for _ in range(r.randint(1, 5))))
        elif k < 0.42 + self.o.tail and self.tail(d):
            pass
        else:
            j = r.choice(c)
            # extra operands below the ones carried
            if r.random() < 0.4:
                self.exprs(self.m.tys(1, 2), d)
            self.exprs(self.labels[-1 - j][0], d)
            self.e(f"br {j}")
        self.junk(d)

    def tail(self, d):
        r = self.r
        c = [j for j in range(self.j + 1, self.m.n) if self.m.sigs[j][1] == self.results]
        h = [j for j, s in enumerate(self.m.hosts) if s[1] == self.results]
        if r.random() < 0.5 and self.j + 1 <= self.m.n:      # self recursion is bounded by the fuel
            c.append(self.j)
        if not c and not h:
            return False
        if h and (not c or r.random() < 0.3):
            j = r.choice(h)
            self.exprs(self.m.hosts[j][0], d)
            self.e(f"return_call $h{j}")
            return True
        j = r.choice(c)
        self.exprs(self.m.sigs[j][0], d)
        if self.m.ttypes and r.random() < 0.3:
            p, q = self.m.sigs[j]
            self.small(d, 4)
            self.e(f"return_call_indirect $t0 {wtypes('param', p)} {wtypes('result', q)}")
        else:
            self.e(f"return_call $f{j}")
        return True

    def junk(self, d):
        """dead code"""
        r = self.r
        if r.random() > self.o.dead:
            return
        for _ in range(r.randint(1, 3)):
            k = r.randrange(9)
            if k == 0:
                self.e("drop")
            elif k == 1:
                n, a, t = r.choice(INT2)
                self.e(f"{n} drop")
            elif k == 2:
                t = r.choice(self.o.types)
                self.e(f"local.set {self.local(t)}")
            elif k == 3:
                t = r.choice([x for x in self.o.types if x not in REFS])
                self.e(f"local.get {self.local(t)} {const(t, 1)} i32.const 1 select drop")
            elif k == 4:
                self.e("select drop")
            elif k == 5 and d > 0:
                self.stmt(d - 1)
            elif k == 6:
                self.e("block br 0 end")
            elif k == 7:
                self.e("i64.add i32.wrap_i64 if nop else unreachable end")
            else:
                t = r.choice([x for x in self.o.types if x not in REFS])
                self.e(f"loop (result {t}) {const(t, 1)} end drop")

    def callany(self, d, want=None):
        r = self.r
        c = [(f"$f{j}", self.m.sigs[j], j) for j in range(self.j + 1, self.m.n)] + [(f"$h{j}", s, -1) for j, s in enumerate(self.m.hosts)]
        if want:
            c = [x for x in c if want in x[1][1]]
        if not c:
            if want:
                self.e(f"local.get {self.local(want)}")
            return
        n, (p, q), j = r.choice(c)
        self.exprs(p, d - 1)
        if j >= 0 and self.m.ttypes and r.random() < 0.2:
            self.small(d - 1, 4)
            self.e(f"call_indirect $t0 {wtypes('param', p)} {wtypes('result', q)}")
        else:
            self.e(f"call {n}")
        # keep only the wanted result
        for k in range(len(q) - 1, -1, -1):
            if want and q[k] == want and q.index(want) == k:
                x = self.local(want)
                self.e(f"local.set {x}")
                for t in reversed(q[:k]):
                    self.e("drop")
                self.e(f"local.get {x}")
                return
            if r.random() < 0.6:
                self.e(f"local.set {self.local(q[k])}")
            else:
                self.e("drop")

    def stmt(self, d):
        r = self.r
        self.left -= 1
        k = r.random()
        if d <= 0:
            k *= 0.45
        if k < 0.22:
            t = r.choice(self.o.types)
            self.expr(t, d)
            self.e(f"local.set {self.local(t)}")
        elif k < 0.30:
            gs = [j for j, (t, mu) in enumerate(self.m.globals) if mu]
            if gs:
                j = r.choice(gs)
                self.expr(self.m.globals[j][0], d)
                self.e(f"global.set $g{j}")
        elif k < 0.40 and self.o.mem:
            t = r.choice([x for x in self.o.types if x not in REFS])
            m = r.randrange(self.o.mem)
            self.addr(m, d)
            self.expr(t, d)
            self.e(f"{r.choice(STORES[t])[0]} $m{m} offset={self.off()}")
        elif k < 0.45:
            t = r.choice(self.o.types)
            self.expr(t, d)
            self.e("drop")
        elif k < 0.57:
            rs = self.m.tys(0, 2) if r.random() < 0.4 else []
            self.block(d, self.m.tys(0, 2) if r.random() < 0.3 else [], rs)
            for t in reversed(rs):
                self.e(f"local.set {self.local(t)}")
        elif k < 0.67:
            self.cond(d)
            self.e("if")
            self.labels.append(([], True, None))
            for _ in range(r.randint(1, 2)):
                self.stmt(d - 1)
            if r.random() < 0.5:
                self.e("else")
                for _ in range(r.randint(0, 2)):
                    self.stmt(d - 1)
            if r.random() < 0.1:
                self.terminator(d - 1)
            self.labels.pop()
            self.e("end")
        elif k < 0.76:
            c = [j for j, (ts, ok, _) in enumerate(reversed(self.labels)) if ok and ts == []]
            if c:
                self.cond(d)
                self.e(f"br_if {r.choice(c)}")
        elif k < 0.84:
            self.callany(d)
        elif k < 0.93 and self.o.bulk:
            self.bulk(d)
        elif k < 0.95:
            self.e("nop")
        else:     # a switch
            n = r.randint(1, 4)
            self.e("block " * (n + 1))
            self.labels += [([], True, None)] * (n + 1)
            self.expr("i32", d - 1)
            if r.random() < 0.7:
                self.e(f"i32.const {r.choice([3, 7])} i32.and")
            self.e("br_table " + " ".join(str(r.randrange(n + 1)) for _ in range(r.randint(0, 5))) + f" {n}")
            for _ in range(n + 1):
                self.labels.pop()
                self.e("end")
                if r.random() < 0.7:
                    self.stmt(d - 1)

    def bulk(self, d):
        r = self.r
        k = r.randrange(10)
        m = r.randrange(self.o.mem) if self.o.mem else 0
        if k < 5 and not self.o.mem:
            return
        it = self.m.its[m] if self.o.mem else "i32"
        if k == 0:
            self.addr(m, d)
            self.expr("i32", d)
            self.e(f"{it}.const {r.choice([0, 1, 5, 33, 70])} memory.fill $m{m}")
        elif k in (1, 2):
            m2 = r.randrange(self.o.mem)
            lt = "i64" if it == self.m.its[m2] == "i64" else "i32"
            self.addr(m, d)
            self.addr(m2, d)
            self.e(f"{lt}.const {r.choice([0, 1, 5, 33, 70])} memory.copy $m{m} $m{m2}")
        elif k == 3 and self.o.passive:
            self.addr(m, d)
            self.e(f"i32.const {r.randrange(10)} i32.const {r.choice([0, 1, 7])} memory.init $m{m} $d0")
            if r.random() < 0.06:
                self.e("data.drop $d0")
        elif k == 4 and r.random() < self.o.grow * 10:
            self.e(f"{it}.const {r.choice([0, 1, 1, 9])} memory.grow $m{m} drop")
        elif self.m.ttypes:
            x = r.randrange(len(self.m.ttypes))
            t = self.m.ttypes[x]
            if k == 5:
                self.small(d, 5)
                if t == "funcref" and r.random() < 0.7:
                    self.e(f"ref.func $f{r.randrange(self.m.n)}")
                else:
                    self.e("ref.null " + ("func" if t == "funcref" else "extern"))
                self.e(f"table.set $t{x}")
            elif k == 6:
                y = r.choice([j for j, z in enumerate(self.m.ttypes) if z == t])
                self.small(d, 4)
                self.small(d, 4)
                self.e(f"i32.const {r.randrange(3)} table.copy $t{x} $t{y}")
            elif k == 7 and t == "funcref":
                self.small(d, 4)
                self.e(f"i32.const {r.randrange(2)} i32.const {r.randrange(3)} table.init $t{x} $e0")
            elif k == 8 and r.random() < self.o.grow * 10:
                self.e("ref.null " + ("func" if t == "funcref" else "extern") + f" i32.const {r.randrange(3)} table.grow $t{x} drop")
            elif k == 9 and t == "funcref" and r.random() < 0.5:
                self.small(d, 3)
                self.e(f"ref.func $f{r.randrange(self.m.n)} i32.const {r.randrange(3)} table.fill $t{x}")
