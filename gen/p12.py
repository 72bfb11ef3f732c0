"""P12: instantiation runs in order; failures leave exactly the prescribed effects."""
from . import model
from .core import *

TECHNIQUE = ("TLC trace validation: the specification's Instantiate (allocation, element segments, data segments, start function, each stopping at the first trap) "
             "decides generated chains of instantiations sharing tables and memories, with every object observed afterwards")

PROV = """(module
 (import "h" "log" (func $log (param i32 i32)))
 (table $t (export "t") 6 12 funcref) (table $x (export "x") 3 externref) (table $t64 (export "t64") i64 4 funcref)
 (memory $m (export "m") 1 3) (memory $n (export "n") i64 1 2) (memory $z (export "z") 0 1)
 (global (export "g0") i32 (i32.const {g0})) (global (export "gi") i32 (i32.const {gi})) (global (export "g64") i64 (i64.const {g64}))
 (global (export "cnt") (mut i32) (i32.const 0)) (global (export "fr") funcref (ref.func $pf)) (global (export "fn") funcref (ref.null func)) (global (export "xr") externref (ref.null extern))
 (func $pf (export "pf") (param i32) (result i32) (call $log (i32.const 900) (local.get 0)) local.get 0)
 (func (export "ti") (param i32 i32) (result i32) local.get 0 local.get 1 call_indirect $t (param i32) (result i32))
 (func (export "ti64") (param i32 i64) (result i32) local.get 0 local.get 1 call_indirect $t64 (param i32) (result i32))
 (func (export "ld") (param i32) (result i32) local.get 0 i32.load $m)
 (elem (table $t) (i32.const 1) func $pf $pf) (elem (table $t64) (i64.const 2) func $pf)
 (func (export "isnull") (param i32) (result i32) local.get 0 table.get $t ref.is_null))"""

IMPS = {"t": "(table $t 1 funcref)", "x": "(table $x 1 externref)", "t64": "(table $t64 i64 1 funcref)", "m": "(memory $m 1)", "n": "(memory $n i64 1)", "z": "(memory $z 0)"}


def hexb(bs):
    return "".join(f"\\{b:02x}" for b in bs)


class Gen:
    def __init__(self, r, k):
        self.r, self.k = r, k
        r = self.r
        self.L = ["(module", '(import "h" "log" (func $log (param i32 i32)))', '(import "h" "cb" (func $cb (param i32) (result i32)))',
                  '(import "p" "pf" (func $pf (param i32) (result i32)))', '(import "p" "g0" (global $g0 i32))', '(import "p" "gi" (global $gi i32))', '(import "p" "g64" (global $g64 i64))',
                  '(import "p" "cnt" (global $cnt (mut i32)))', '(import "p" "fr" (global $fr funcref))', '(import "p" "fn" (global $fn funcref))', '(import "p" "xr" (global $xr externref))']
        self.tabs = {}       # name -> (it, et, size)
        self.mems = {}
        for n, (it, et, sz) in {"t": ("i32", "funcref", 6), "x": ("i32", "externref", 3), "t64": ("i64", "funcref", 4)}.items():
            if r.random() < 0.75:
                self.L.append(f'(import "p" "{n}" {IMPS[n]})')
                self.tabs[n] = (it, et, sz)
        for n, (it, sz) in {"m": ("i32", 65536), "n": ("i64", 65536), "z": ("i32", 0)}.items():
            if r.random() < 0.75:
                self.L.append(f'(import "p" "{n}" {IMPS[n]})')
                self.mems[n] = (it, sz)
        self.expmem = r.random() < 0.5
        for j in range(r.choice([0, 1, 1, 2])):
            it, et, sz = r.choice(["i32", "i32", "i64"]), r.choice(["funcref", "funcref", "externref"]), r.randrange(1, 5)
            self.L.append(f'(table $o{j} {"i64" if it == "i64" else ""} {sz} {et})')
            self.tabs[f"o{j}"] = (it, et, sz)
        for j in range(r.choice([0, 1, 1, 2])):
            it, sz = r.choice(["i32", "i32", "i64"]), r.choice([0, 1, 1, 2])
            ex = f'(export "own{j}")' if r.random() < 0.4 else ""
            self.L.append(f'(memory $q{j} {ex} {"i64" if it == "i64" else ""} {sz})')
            self.mems[f"q{j}"] = (it, 65536 * sz)
        self.L.append(f"(global $own (mut i32) (i32.const {1000 * (k + 1)}))")
        self.nf = r.randint(2, 4)
        self.usemem = [m for m in self.mems if r.random() < 0.8]
        self.uset = [t for t in self.tabs if r.random() < 0.8]
        self.elems = [self.elem() for _ in range(r.randint(1, 4))]
        self.datas = [self.data() for _ in range(r.randint(1, 4))]
        order = [("e", e) for e in self.elems] + [("d", d) for d in self.datas]
        # sections are ordered anyway; the text order within each kind is the segment order
        for i, (_, e) in enumerate(order):
            self.L.append(e["w"])
        self.funcs()
        self.L.append(")")

    def wat(self):
        return "\n".join(self.L)

    def off(self, it, size, n):
        """An offset expression and whether it is meant to fit."""
        r = self.r
        x = r.random()
        lim = max(0, size - n)
        if x < 0.8:
            v = r.choice([0, lim, r.randint(0, lim), min(lim, r.randrange(8))])
        elif x < 0.84:
            v = lim + 1
        elif x < 0.86:
            v = (1 << (64 if it == "i64" else 32)) - max(1, r.choice([1, 2, n, n - 1]))
        elif x < 0.92:
            return "(global.get $g64)" if it == "i64" else f"(global.get ${r.choice(['g0', 'gi'])})"
        else:
            g = "$g64" if it == "i64" else r.choice(["$g0", "$gi"])
            a, b = r.randrange(4), r.randrange(3)
            return r.choice([f"({it}.add (global.get {g}) ({it}.const {a}))", f"({it}.sub ({it}.const {a + 2}) (global.get {g}))", f"({it}.mul (global.get {g}) ({it}.const {b}))",
                             f"({it}.add ({it}.mul ({it}.const {a}) ({it}.const {b})) (global.get {g}))"])
        return f"({it}.const {v})"

    def elem(self):
        r = self.r
        k = len([l for l in self.L if l.startswith("(elem")])
        n = r.choice([0, 1, 1, 2, 3])
        mode = r.choice(["active"] * 5 + ["passive"] * 2 + ["declare"])
        et = r.choice(["funcref", "funcref", "funcref", "externref"])
        if mode == "active":
            ts = [t for t in self.tabs]
            if not ts:
                mode = "passive"
            else:
                t = r.choice(ts + [x for x in ts if x in ("t", "t64")] * 3)
                it, et, sz = self.tabs[t]
                where = f"(table ${t}) (offset {self.off(it, sz, n)})"
        fl = [r.choice([f"$f{r.randrange(self.nf)}", f"$f{r.randrange(self.nf)}", "$pf"]) for _ in range(n)]
        if et == "funcref" and r.random() < 0.55:
            items = "func " + " ".join(fl)
        elif et == "funcref":
            items = "funcref " + " ".join(r.choice([f"(ref.func {f})", f"(ref.func {f})", "(ref.null func)", "(global.get $fr)", "(global.get $fn)"]) for f in fl)
        else:
            items = "externref " + " ".join(r.choice(["(ref.null extern)", "(global.get $xr)"]) for _ in fl)
        w = {"active": lambda: f"(elem {where} {items})", "passive": lambda: f"(elem {items})", "declare": lambda: f"(elem declare {items})"}[mode]()
        return {"w": w, "mode": mode, "et": et, "n": n}

    def data(self):
        r = self.r
        n = r.choice([0, 1, 2, 4, 5, 9])
        bs = [r.randrange(1, 256) for _ in range(n)]
        mode = r.choice(["active"] * 3 + ["passive"])
        if mode == "active" and self.mems:
            m = r.choice(list(self.mems) + [x for x in self.mems if x in ("m", "n")] * 2)
            it, sz = self.mems[m]
            return {"w": f'(data (memory ${m}) (offset {self.off(it, sz, n)}) "{hexb(bs)}")', "mode": "active", "n": n}
        return {"w": f'(data "{hexb(bs)}")', "mode": "passive", "n": n}

    def c(self, it, v):
        return f"({it}.const {v})"

    def funcs(self):
        r = self.r
        L = self.L
        self.ops = {}          # exported operation -> arg types
        for j in range(self.nf):
            b = f"(call $log (i32.const {100 * self.k + j}) (global.get $own)) (global.set $own (i32.add (global.get $own) (local.get 0))) "
            for q in range(r.randrange(3)):
                b += self.stmt()
            L.append(f'(func $f{j} (export "f{j}") (param i32) (result i32) {b} (i32.add (local.get 0) (global.get $own)))')
            self.ops[f"f{j}"] = ["i32"]
        for j, e in enumerate(self.elems):
            ts = [t for t in self.uset if self.tabs[t][1] == e["et"]]
            if ts:
                t = r.choice(ts)
                it = self.tabs[t][0]
                L.append(f'(func (export "te{j}") (param {it} i32 i32) local.get 0 local.get 1 local.get 2 table.init ${t} {j})')
                self.ops[f"te{j}"] = [it, "i32", "i32"]
            L.append(f'(func (export "ed{j}") elem.drop {j})')
            self.ops[f"ed{j}"] = []
        for j, d in enumerate(self.datas):
            if self.usemem:
                m = r.choice(self.usemem)
                it = self.mems[m][0]
                L.append(f'(func (export "mi{j}") (param {it} i32 i32) local.get 0 local.get 1 local.get 2 memory.init ${m} {j})')
                self.ops[f"mi{j}"] = [it, "i32", "i32"]
            L.append(f'(func (export "dd{j}") data.drop {j})')
            self.ops[f"dd{j}"] = []
        for m in self.usemem:
            it = self.mems[m][0]
            L.append(f'(func (export "ld{m}") (param {it}) (result i64) local.get 0 i64.load ${m})')
            self.ops[f"ld{m}"] = [it]
        for t in self.uset:
            it, et, _ = self.tabs[t]
            L.append(f'(func (export "nz{t}") (param {it}) (result i32) local.get 0 table.get ${t} ref.is_null)')
            self.ops[f"nz{t}"] = [it]
            if et == "funcref":
                L.append(f'(func (export "ci{t}") (param i32 {it}) (result i32) local.get 0 local.get 1 call_indirect ${t} (param i32) (result i32))')
                self.ops[f"ci{t}"] = ["i32", it]
        if r.random() < 0.65:
            b = f"(call $log (i32.const {100 * self.k + 50}) (global.get $cnt)) (global.set $cnt (i32.add (global.get $cnt) (i32.const 1))) "
            for q in range(r.randint(1, 4)):
                b += self.stmt(True)
            if r.random() < 0.25:
                b += r.choice(["unreachable ", "(drop (i32.div_u (i32.const 1) (i32.const 0))) ", "(drop (call $cb (i32.const -7))) "])
            for q in range(r.randrange(2)):
                b += self.stmt(True)
            L.append(f'(func $st (local i32) {b})')
            L.append("(start $st)")

    def stmt(self, start=False):
        """A statement using segments, tables and memories of the instance."""
        r = self.r
        o = []
        for m in self.usemem:
            it, sz = self.mems[m]
            o.append(lambda m=m, it=it, sz=sz: f"(i32.store ${m} ({it}.const {r.choice([0, 4, max(sz - 4, 0), max(sz - 4, 0)])}) (i32.add (i32.load ${m} ({it}.const {r.choice([0, 4])})) (i32.const {r.randrange(1, 99)}))) ")
            for j, d in enumerate(self.datas):
                o.append(lambda m=m, it=it, j=j, d=d: f"(memory.init ${m} {j} ({it}.const {r.randrange(20)}) (i32.const {r.randrange(2)}) (i32.const {r.choice([0, 0, 1, 2, d['n']])})) ")
        for j in range(len(self.datas)):
            o.append(lambda j=j: f"(data.drop {j}) ")
        for t in self.uset:
            it, et, sz = self.tabs[t]
            for j, e in enumerate(self.elems):
                if e["et"] == et:
                    o.append(lambda t=t, it=it, j=j, e=e: f"(table.init ${t} {j} ({it}.const {r.randrange(3)}) (i32.const {r.randrange(2)}) (i32.const {r.choice([0, 0, 1, e['n']])})) ")
            if et == "funcref":
                o.append(lambda t=t, it=it: f"(table.set ${t} ({it}.const {r.randrange(6)}) (ref.func $pf)) ")
                if start:
                    o.append(lambda t=t, it=it: f"(drop (call_indirect ${t} (param i32) (result i32) (i32.const {r.randrange(9)}) ({it}.const {r.randrange(6)}))) ")
                    o.append(lambda t=t, it=it: f"(drop (call_indirect ${t} (param i32) (result i32) (i32.const {r.randrange(9)}) ({it}.const {r.randrange(6)}))) ")
        o.append(lambda: f"(call $log (i32.const {r.randrange(50)}) (global.get $own)) ")
        if start:
            o.append(lambda: f"(drop (call $cb (i32.const {r.randrange(9)}))) ")
            o.append(lambda: f"(drop (call $cb (i32.const {r.randrange(9)}))) ")
            o.append(lambda: f"(drop (call $f{r.randrange(self.nf)} (i32.const {r.randrange(9)}))) ")
        s = r.choice(o)()
        if "ref.func $pf" in s and not any("(elem declare func $pf)" == l for l in self.L):
            self.L.append("(elem declare func $pf)")
        return s


def argv(r, t, small):
    return (i32 if t == "i32" else i64)(r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 12]) if r.random() < 0.95 else r.choice([65532, 65536, -1, 65529]))


def chain(r, c, n, cfgs):
    ms = []
    k = 0
    while len(ms) < 3:
        ms.append(Gen(r, k))
        k += 1
    prov = PROV.format(g0=r.randrange(3), gi=r.choice([1, 2, 2, 1, -1]), g64=r.choice([0, 1, 2, 1, 0, -1, 3]))
    nest = [[call("P.ti", {"arg": 0}, i32(r.randrange(6)))], [call("P.ld", i32(r.randrange(8)))], [op("m.put", o="P.m", off=r.randrange(20), b=[r.randrange(256) for _ in range(3)])],
            [op("t.set", o="P.t", i=r.randrange(6), v=NULLF)], [inst(2 + r.randrange(3), "N", defs=IMPDEFS, links=[["p", "P"]], ns=True)], []]
    beh = [{"ops": r.choice(nest), "ret": [{"arg": 0}]} for _ in range(4)] + [{"ops": r.choice(nest), "err": r.choice(["boom", "ouch"])} if r.random() < 0.3 else {"ret": [i32(5)]}]
    ops = [hnew("log", ["i32", "i32"], []), hnew("cb", ["i32"], ["i32"], beh), inst(1, "P", defs=[["h", "log", "log"]])]
    live = []
    for j in range(n):
        x = r.random()
        if x < 0.22 or j == 0:
            q = r.randrange(3)
            nm = f"i{j}"
            ns = r.random() < 0.25
            ops.append(inst(2 + q, nm, defs=IMPDEFS, links=[["p", "P"]], **({"ns": True} if ns else {})))
            live.append((nm, ms[q]))
            if ns:
                for _ in range(r.choice([0, 1, 1, 2])):
                    ops.append(op("start", i=nm))
        elif x < 0.42:
            ops.append(call("P.ti", i32(r.randrange(20)), i32(r.choice([0, 1, 2, 3, 4, 5, 1, 2]))))
        elif x < 0.48:
            ops.append(call("P.ti64", i32(r.randrange(20)), i64(r.randrange(4))))
        elif x < 0.52:
            ops.append(op("start", i=r.choice(live)[0]))
        elif x < 0.56:
            ops.append(r.choice([op("m.rex", o="P.m", off=r.choice([0, 65520]), n=16), op("m.rex", o="P.n", off=r.choice([0, 65520]), n=16), op("t.load", o="P.t", i=0, n=6),
                                 op("m.grow", o="P.z", d=1), op("obs")]))
        else:
            nm, g = r.choice(live)
            f = r.choice(list(g.ops))
            if f[:2] in ("te", "mi") and r.random() < 0.7:
                n_ = (g.elems if f[0] == "t" else g.datas)[int(f[2:])]["n"]
                ops.append(call(f"{nm}.{f}", argv(r, g.ops[f][0], 1), i32(0), i32(r.choice([n_, n_, 0, n_ + 1]))))
            else:
                ops.append(call(f"{nm}.{f}", *[argv(r, t, 1) for t in g.ops[f]]))
    return script(f"P12-{c}", [prov] + [m.wat() for m in ms], ops, cfgs)


IMPDEFS = [["h", "log", "log"], ["h", "cb", "cb"]]


def only(r, c):
    """Modules whose own memory or table is used by segments alone: nothing else refers to it."""
    L, ops = [], []
    for j in range(12):
        it = r.choice(["", "i64 "])
        t = it.strip() or "i32"
        sz = r.choice([0, 1, 1, 2])
        n = r.choice([0, 1, 3])
        off = r.choice([0, 65536 * sz - n, 65536 * sz - n + 1, 65536 * sz, 65536 * sz + 1, -1, 5])
        ex = r.choice(["", "", '(export "m")'])
        body = r.choice(["", "", '(func (export "f") (result i32) i32.const 3)', f'(func (export "f") (result {t}) memory.size)', f'(func (export "f") ({t}.const 0) i32.const 1 i32.store8)',
                         f'(func (export "f") (result i32) ({t}.const 0) i32.load8_u)', f'(func (export "f") (result {t}) ({t}.const 1) memory.grow)'])
        st = ' (func $s nop) (start $s)' if r.random() < 0.2 else ""
        second = f'(data ({t}.const {r.choice([0, 1])}) "zz")' if r.random() < 0.3 else ""
        L.append(f'(module (memory {ex} {it}{sz}) (data ({t}.const {off}) "{"abc"[:n]}") {second} {body}{st})')
        ops.append(inst(j + 1, f"i{j}"))
        if "(func (export" in body:
            ops += [call(f"i{j}.f")] * r.choice([1, 2])
        if ex:
            ops += [op("m.rex", o=f"i{j}.m", off=0, n=4), op("m.put", o=f"i{j}.m", off=0, b=[1, 2])]
    for j in range(12, 18):
        sz = r.choice([0, 1, 2])
        n = r.choice([0, 1, 2])
        off = r.choice([0, sz - n, sz - n + 1, sz, sz + 1, -1])
        ex = r.choice(["", '(export "t")'])
        it = r.choice(["", "i64 "])
        t = it.strip() or "i32"
        L.append(f'(module (table {ex} {it}{sz} funcref) (elem ({t}.const {off}) {" $f" * n}) (func $f (export "f") (result i32) i32.const 3))')
        ops += [inst(j + 1, f"i{j}"), call(f"i{j}.f")]
        if ex:
            ops += [op("t.load", o=f"i{j}.t", i=0, n=sz)]
    return script(f"P12o-{c}", L, ops, ["", "alloc=0", "arch=1", "mem=vec", "mem=lazy:vec", "mem=paged:64"])


def tinit(r, c):
    """Tables with an initial value other than null."""
    P = """(module (func $a (export "a") (result i32) i32.const 11) (func $b (result i32) i32.const 22) (global (export "gf") funcref (ref.func $b)) (global (export "gn") funcref (ref.null func)))"""
    L, ops = [P], [inst(1, "P"), op("gnew", **{"as": "ge"}, ty="externref", mu=False, v={"t": "externref", "b": [7]} if False else NULLE)]
    for j in range(8):
        T = []
        for k in range(r.choice([1, 2, 3])):
            it = r.choice(["", "", "i64 "])
            n = r.choice([0, 1, 3, 5])
            mx = r.choice(["", f" {n}", f" {n + 2}"])
            et, v = r.choice([("funcref", "(ref.func $f)"), ("funcref", "(ref.func $p)"), ("funcref", "(global.get $gf)"), ("funcref", "(global.get $gn)"), ("funcref", "(ref.null func)"), ("funcref", ""), ("externref", "(ref.null extern)"), ("externref", "")])
            T.append((f't{k}', it.strip() or "i32", et, n, f'(table $t{k} (export "t{k}") {it}{n}{mx} {et} {v})'))
        B = []
        for nm, it, et, n, _ in T:
            B.append(f'(func (export "{nm}s") (result {it}) table.size ${nm}) (func (export "{nm}n") (param {it}) (result i32) (ref.is_null (table.get ${nm} (local.get 0))))')
            B.append(f'(func (export "{nm}g") (param {it}) (result {it}) (table.grow ${nm} (ref.null {et[:-3]}) (local.get 0)))')
            if et == "funcref":
                B.append(f'(func (export "{nm}c") (param {it}) (result i32) (call_indirect ${nm} (result i32) (local.get 0)))')
        fs = [x for x in T if x[2] == "funcref" and x[3] > 1]
        if fs and r.random() < 0.6:
            x = r.choice(fs)
            B.append(f'(elem (table ${x[0]}) ({x[1]}.const {r.choice([0, 1, x[3] - 1, x[3]])}) func {r.choice(["$g", "$g $f", "$p"])})')
        L.append(f"""(module (import "P" "a" (func $p (result i32))) (import "P" "gf" (global $gf funcref)) (import "P" "gn" (global $gn funcref))
          {" ".join(x[4] for x in T)} (func $f (result i32) i32.const {100 + j}) (func $g (result i32) i32.const {200 + j}) (elem declare func $f $g $p) {" ".join(B)})""")
        me = f"i{j}"
        ops.append(inst(j + 2, me, links=[["P", "P"]], **({"ns": True} if r.random() < 0.3 else {})))
        for nm, it, et, n, _ in T:
            ix = lambda: (i32 if it == "i32" else i64)(r.choice([0, max(0, n - 1), n, n + 1]))
            for _ in range(5):
                ops.append(r.choice([lambda: call(f"{me}.{nm}s"), lambda: call(f"{me}.{nm}n", ix()), lambda: call(f"{me}.{nm}g", (i32 if it == "i32" else i64)(r.choice([0, 1, 3]))), lambda: op("t.get", o=f"{me}.{nm}", i=r.choice([0, n])),
                                     (lambda: call(f"{me}.{nm}c", ix())) if et == "funcref" else (lambda: call(f"{me}.{nm}s"))])())
    r2 = ops[2:]
    return script(f"P12t-{c}", L, [ops[0]] + r2, ["", "rw=0", "arch=1"])


def fresh(r, c):
    """Many instances of one module: each has its own state."""
    w = """(module (memory (export "m") 1) (table (export "t") 3 funcref) (global $g (export "g") (mut i32) (i32.const 5)) (data $d "abcd") (elem $e func $f $f) (data (i32.const 8) "xyz") (elem (i32.const 0) $f)
      (global $s (mut i32) (i32.const 0)) (func $st (global.set $s (i32.add (global.get $s) (i32.const 1))) (i32.store (i32.const 100) (i32.add (i32.load (i32.const 8)) (global.get $s)))) (start $st)
      (func $f (export "f") (param i32) (result i32) (global.set $g (i32.add (global.get $g) (local.get 0))) global.get $g)
      (func (export "st") (param i32 i32) local.get 0 local.get 1 i32.store)
      (func (export "ld") (param i32) (result i32) local.get 0 i32.load)
      (func (export "mi") (param i32 i32 i32) local.get 0 local.get 1 local.get 2 memory.init $d)
      (func (export "te") (param i32 i32 i32) local.get 0 local.get 1 local.get 2 table.init $e)
      (func (export "dd") data.drop $d) (func (export "ed") elem.drop $e)
      (func (export "grow") (param i32) (result i32) local.get 0 memory.grow)
      (func (export "ci") (param i32 i32) (result i32) local.get 0 local.get 1 call_indirect (param i32) (result i32))
      (func (export "ss") (result i32) global.get $s))"""
    ops = []
    nm = []
    for j in range(60):
        if j < 2 or r.random() < 0.12:
            nm.append(f"i{j}")
            ops.append(inst(1, nm[-1], **({"ns": True} if r.random() < 0.3 else {})))
        a = r.choice(nm)
        ops.append(r.choice([lambda: call(f"{a}.f", i32(r.randrange(9))), lambda: call(f"{a}.st", i32(r.choice([0, 8, 65532])), r.v("i32")), lambda: call(f"{a}.ld", i32(r.choice([0, 8, 100, 65532]))),
                             lambda: call(f"{a}.mi", i32(r.randrange(12)), i32(0), i32(r.choice([0, 4]))), lambda: call(f"{a}.te", i32(1), i32(0), i32(r.choice([0, 2]))),
                             lambda: call(f"{a}.{r.choice(['dd', 'ed'])}"), lambda: call(f"{a}.grow", i32(r.choice([0, 1]))), lambda: call(f"{a}.ci", i32(r.randrange(9)), i32(r.randrange(3))),
                             lambda: call(f"{a}.ss"), lambda: op("start", i=a), lambda: op("t.set", o=f"{a}.t", i=r.randrange(3), v=NULLF), lambda: op("g.set", o=f"{a}.g", v=r.v("i32"))])())
    return script(f"P12f-{c}", [w], ops, ["", "arch=1"])


def huge(j):
    """Initial sizes that may not be available: refused or not, nothing panics."""
    it, n, ps = [("i64", 1 << 44, 16), ("i64", 1 << 48, 16), ("i64", 1 << 36, 16), ("i64", (1 << 64) - 1, 0)][j // 2]
    ex = '(export "m")' if j % 2 and it == "i64" else ""       # the final observation reads exported memories whole
    w = f"""(module (memory {ex} {it} {n:#x} {"(pagesize 1)" if ps == 0 else ""}) {'(data (i64.const 5) "ab")' if j % 3 == 0 and it == "i64" else ""}
      (func (export "st") (param {it} i32) local.get 0 local.get 1 i32.store) (func (export "ld") (param {it}) (result i32) local.get 0 i32.load)
      (func (export "sz") (result {it}) memory.size) (func (export "gr") (param {it}) (result {it}) local.get 0 memory.grow)
      (func (export "fill") (param {it} i32 {it}) local.get 0 local.get 1 local.get 2 memory.fill)
      (func (export "cp") (param {it} {it} {it}) local.get 0 local.get 1 local.get 2 memory.copy))"""
    a = (lambda x: i64(x)) if it == "i64" else (lambda x: i32(x))
    ops = [inst(), call("a.sz"), call("a.ld", a(5)), call("a.st", a(5), i32(7)), call("a.ld", a(5)), call("a.gr", a(1)), call("a.gr", a(-1)), call("a.st", a(-5), i32(7)), call("a.cp", a(8), a(4), a(100)),
           call("a.fill", a(0), i32(3), a(77)), call("a.fill", a(1 << 31), i32(3), a(77))]
    if ex:
        ops += [op("m.put", o="a.m", off=3, b=[1, 2]), op("m.fill", o="a.m", off=9, n=5, v=3), op("m.rex", o="a.m", off=3, n=5), op("m.grow", o="a.m", d=1)]
    # the table sizes in between are refused or allocated alike
    return script(f"P12huge-{j}", [w], ops, ["", "alloc=0", "mem=custom", "mem=lazy:vec", "mem=paged:4096", "mem=lazy:custom"])


def hugetab(j):
    n = [10_000_001, 1 << 32, (1 << 64) - 1, (1 << 32) - 1][j]
    it = "i64" if n >= 1 << 32 else ""
    w = f'(module (table (export "t") {it} {n} funcref) (func (export "z") (result {it or "i32"}) table.size 0))'
    return script(f"P12htab-{j}", [w], [inst(), call("a.z"), op("t.size", o="a.t")])


def scripts(ck):
    out = [chain(Rng(f"P12-{ck.seed}-{c}"), c, ck.scale(45, 70), r_cfgs(c)) for c in range(ck.scale(150, 1500))]
    out += [only(Rng(f"P12o-{ck.seed}-{c}"), c) for c in range(ck.scale(30, 300))]
    out += [fresh(Rng(f"P12f-{ck.seed}-{c}"), c) for c in range(ck.scale(8, 80))]
    out += [huge(j) for j in range(8)] + [hugetab(j) for j in range(4)]
    out += [tinit(Rng(f"P12t-{ck.seed}-{c}"), c) for c in range(ck.scale(16, 160))]
    out += model.life(ck, "P12", ["", "mem=paged:1"], ck.scale(1800, 60000), kinds=ck.scale(5, 7))
    return out


def r_cfgs(c):
    return [["", "alloc=0"], ["", "arch=1"], ["", "rw=0"], ["", "mem=paged:64"], ["", "mem=lazy:vec"]][c % 5]
