"""P29: the script runner passes exactly the directives whose assertions hold."""
from .core import *

CLI = True
TECHNIQUE = ("TLC trace validation with the script runner in the loop: every directive's operation is first done through the library and checked against the WebAssembly semantics; from the recorded outcomes the "
             "specification (naming of modules, registration, matching of results and trap reasons, verdict on module bytes) decides which directives hold, and so the runner's failures, their places, the counts and the exit status")
NOTE = ("Scripts of one to three files; expectations are the library's results, kept or perturbed (bits, types, counts, alternatives, NaN patterns, trap reasons). NaNs of another pattern may match or not. "
        "Reference patterns without a value, `module instance`, components and threads are out of scope.")

NUM = ["i32", "i64", "f32", "f64", "v128"]
TRAPS = ["unreachable", "(drop (i32.div_u (i32.const 1) (i32.const 0)))", "(drop (i32.div_s (i32.const 0x80000000) (i32.const -1)))", "(drop (i64.trunc_f32_u (f32.const nan)))",
         "(drop (i32.trunc_f64_s (f64.const 1e30)))", "(drop (i32.load (i32.const 70000)))", "(drop (table.get 0 (i32.const 4)))", "(call_indirect (type $v) (i32.const 9))",
         "(call_indirect (type $v) (i32.const 3))", "(call_indirect (type $v) (i32.const 1))", "(memory.fill (i32.const 1) (i32.const 2) (i32.const -1))", "(table.fill 0 (i32.const 3) (ref.null func) (i32.const 2))"]
REASONS = ["unreachable", "out of bounds memory access", "out of bounds table access", "integer divide by zero", "invalid conversion to integer", "integer overflow",
           "call stack exhausted", "undefined element", "uninitialized element", "indirect call type mismatch"]
NAMES = ["a", "b", "M", "N", "$M", "lib.so", "", "\u00e9\u65e5", "M ", "a b"]
IDS = ["M", "N", "a", "b", "M1"]
BADTEXT = ["(func (result i32) i32.foo)", "(memory", "nonsense", "(func) )", "(func (param i32) local.get $x)", "(global i32 (i32.const 0x1_))", "(type (func (param i33)))", "(export \\\"a (func 0))", "(func $a) (func $a)", "(func (call $nope))"]


class Template:
    """A module whose exports are known: functions with their types, globals."""

    def __init__(self, r, trap=None):
        self.f = {"inc": ([], ["i32"]), "boom": (["i32"], []), "sum": (["i32", "i64", "f32", "f64"], ["i32", "i64", "f32", "f64"]), "nan": ([], ["f32", "f64"]),
                  "refs": (["externref"], ["externref", "funcref", "externref"]), "none": (["i32"], []), "load": (["i32"], ["i32"])}
        self.g = {}
        k = r.randrange(1 << 16)
        fs = [f'(type $v (func)) (memory (export "mem") 1 2) (table (export "tab") 4 funcref) (elem (i32.const 0) func $nop $inc) (global $g (export "g") (mut i32) (i32.const {k}))',
              '(func $nop) (func $inc (export "inc") (result i32) (global.set $g (i32.add (global.get $g) (i32.const 1))) (i32.store (i32.const 8) (global.get $g)) (global.get $g))']
        self.g["g"] = "i32"
        for j in range(r.randrange(0, 4)):
            t = r.choice(NUM)
            fs.append(f'(global (export "G{j}") {t} ({const(t, r.bits(t))}))')
            self.g[f"G{j}"] = t
        for t in r.sample(NUM, 3):
            fs.append(f'(func (export "id {t}") (param {t}) (result {t}) local.get 0)')
            self.f[f"id {t}"] = ([t], [t])
        perm = [r.choice(NUM) for _ in range(r.randrange(2, 6))]
        fs.append(f'(func (export "rev") {wtypes("param", perm)} {wtypes("result", perm[::-1])} {" ".join(f"local.get {i}" for i in reversed(range(len(perm))))})')
        self.f["rev"] = (perm, perm[::-1])
        n = len(TRAPS)
        fs.append('(func (export "boom") (param i32) ' + " ".join("(block" for _ in range(n + 1)) + f" (br_table {' '.join(str(i) for i in range(n + 1))} (local.get 0))) "
                  + " ".join(t + " return)" for t in TRAPS) + ")")
        fs.append('(func (export "sum") (param i32 i64 f32 f64) (result i32 i64 f32 f64) local.get 0 i32.const 1 i32.add local.get 1 i64.const -1 i64.mul local.get 2 f32.const 2 f32.div local.get 3 f64.neg)')
        fs.append('(func (export "nan") (result f32 f64) (f32.div (f32.const 0) (f32.const 0)) (f64.sub (f64.const inf) (f64.const inf)))')
        fs.append('(func (export "refs") (param externref) (result externref funcref externref) local.get 0 ref.null func ref.null extern)')
        fs.append('(func (export "none") (param i32) (i32.store (i32.const 16) (local.get 0)))')
        fs.append('(func (export "load") (param i32) (result i32) (i32.load (local.get 0)))')
        if r.random() < 0.25:
            fs.append('(func $rec (export "rec") (param i32) (result i32) (i32.add (i32.const 1) (call $rec (local.get 0))))')
            self.f["rec"] = (["i32"], ["i32"])
        if trap == "start":
            fs.append(f"(func $st {r.choice(TRAPS)}) (start $st)")
        elif trap == "data":
            fs.append('(data (i32.const 65530) "12345678")')
        elif trap == "elem":
            fs.append("(elem (i32.const 3) func $nop $nop)")
        elif r.random() < 0.3:
            fs.append("(func $st (drop (call $inc))) (start $st)")
        self.wat = "(module " + "\n".join(fs) + ")"


class User:
    """A module that uses one registered under a name."""

    def __init__(self, r, name, how="good", trap=None):
        e = "".join(c if c.isascii() and c not in '"\\' else "".join(f"\\{b:02x}" for b in c.encode()) for c in name)
        im = lambda n, d: f'(import "{e}" "{n}" {d})'
        fs = [im("inc", "(func $inc (result i32))"), im("g", "(global $g (mut i32))"), im("mem", "(memory 1 2)"), im("tab", "(table $t 4 funcref)"), '(import "spectest" "print_i32" (func $p (param i32)))'
              if r.random() < 0.3 else "", '(import "spectest" "global_i32" (global i32))' if r.random() < 0.3 else ""]
        self.spec = [f for f in fs[4:] if f]
        if how == "name":
            fs[r.randrange(4)] = im(r.choice(["ink", "", "G9", "me"]), r.choice(["(func $inc2 (result i32))", "(global i32)"]))
        elif how == "type":
            j = r.randrange(4)
            fs[j] = im(["inc", "g", "mem", "tab"][j], ["(func (result i64))", "(global i32)", "(memory 2)", "(table 4 externref)"][j])
        if how != "good":
            self.wat = "(module " + "\n".join(fs) + ")"
            return
        self.f = {"via": ([], ["i32", "i32"]), "peek": (["i32"], ["i32"]), "set": (["i32"], []), "ind": (["i32"], [])}
        self.g = {"gg": "i32"}
        fs.append('(func (export "via") (result i32 i32) (call $inc) (global.get $g)) (func (export "peek") (param i32) (result i32) (i32.load (local.get 0)))')
        fs.append('(func (export "set") (param i32) (global.set $g (local.get 0))) (func (export "ind") (param i32) (call_indirect (local.get 0))) (export "gg" (global $g))')
        fs.append("(data (i32.const 8) \"\\01\\02\\03\")")
        if trap:
            fs.append(f"(func $st (drop (call $inc)) {'unreachable' if trap == 'start' else ''}) (start $st)" + ("" if trap == "start" else '(data (i32.const 65535) "ab")'))
        # what re-exports is itself fit for import
        if r.random() < 0.5:
            fs.append('(export "inc" (func $inc)) (export "mem" (memory 0)) (export "g" (global $g)) (export "tab" (table $t))')
            self.f["inc"] = ([], ["i32"])
            self.again = True
        self.wat = "(module " + "\n".join(fs) + ")"


class Script:
    def __init__(self, r, nf):
        self.r, self.ops, self.d, self.mods, self.nf, self.s, self.n = r, [], [], [], nf, 0, 0

    def file(self):
        self.s += 1
        self.names = self.r.sample(NAMES, self.r.choice([1, 2, 3, len(NAMES)]))
        self.ids, self.regs, self.last = {}, {}, None
        self.ops.append(op("use", s=self.s))
        self.ops.append(hnew(f"p{self.s}", ["i32"], []))
        self.ops.append(op("gnew", **{"as": f"s{self.s}"}, ty="i32", mu=False, v=i32(666)))

    def add(self, k, o=None, **x):
        if o is not None:
            self.ops.append(o)
            x["i"] = len(self.ops) - 1
        self.d.append(dict(x, k=k, s=self.s, style=self.r.getrandbits(20)))

    def load(self, wat):
        self.mods.append(wat)
        return len(self.mods)

    def inst(self, m, label):
        return inst(m, label, defs=[["spectest", "print_i32", f"p{self.s}"], ["spectest", "global_i32", f"s{self.s}"]], links=[[n, t.label] for n, t in self.regs.items()])

    def module(self, t=None, ok=True, m=None):
        r = self.r
        if t is None:
            t = self.make(None if ok else r.choice(["start", "data", "elem"]))
        m = m or self.load(t.wat)
        self.n += 1
        x = type("Inst", (), {})()
        x.f, x.g, x.label, x.m, x.t = getattr(t, "f", {}), getattr(t, "g", {}), f"i{self.n}", m, t
        id = r.choice(IDS) if r.random() < 0.6 else None
        self.add("module", self.inst(m, x.label), **({"id": id} if id else {}))
        if ok:
            self.last = x
            if id:
                self.ids[id] = x

    def make(self, trap=None, how="good"):
        ns = [n for n, x in self.regs.items() if isinstance(x.t, Template) or getattr(x.t, "again", False)]
        if ns and self.r.random() < 0.5 and trap != "elem":
            return User(self.r, self.r.choice(ns), how, trap)
        return Template(self.r, trap)

    def pick(self):
        """an instance, and how to name it"""
        if not self.ids or self.r.random() < 0.4:
            return self.last, {}
        id = self.r.choice(list(self.ids))
        return self.ids[id], {"id": id}

    def action(self, x):
        r = self.r
        f = r.choice(list(x.f))
        p = x.f[f][0]
        if r.random() < 0.06:       # an action that cannot be taken
            if r.random() < 0.5:
                return f, call(f"{x.label}.{r.choice(['nothing', f + ' ', 'g', ''])}", *[r.v(t) if t in NUM else NULLE for t in p])
            p = r.choice([p + ["i32"], p[1:], [r.choice(NUM) for _ in p]])
        elif f.startswith("id ") and r.random() < 0.3:
            return f, call(f"{x.label}.{f}", val(p[0], r.choice([0, 1 << (8 * W[p[0]] - 1), r.choice([0x7fc00000, 0x7ff8 << 48, 0x7fc00000 << 64 | 5, (1 << 31) * 0x100000001])])))
        a = [val(t, r.choice([-1, 0, 7])) if t == "externref" else i32(r.randrange(len(TRAPS) + 1)) if (f, t) == ("boom", "i32") else i32(r.choice([0, 3, 8, 16, 65533])) if t == "i32" and f in ("load", "peek", "ind") else NULLF if t == "funcref" else r.v(t) for t in p]
        return f, call(f"{x.label}.{f}", *a)

    def exp(self, n):
        r = self.r
        one = lambda bad: {"p": "flip", "n": r.choice([0, 7, 8, 15, 16, 22, 23, 30, 31, 32, 51, 63, 64, 127, r.randrange(128)])} if bad and r.random() < 0.55 else {"p": r.choice(["neg", "nan"]), "n": r.randrange(16)} if bad and r.random() < 0.7 else {"p": "type"} if bad else \
            r.choice([{}, {}, {"p": "canon"}, {"p": "arith"}])
        bad = r.random() < 0.45
        w = r.randrange(n) if n else 0
        out = []
        for j in range(n):
            alts = [one(bad and j == w)]
            if r.random() < 0.15:
                alts += [one(bad and j == w or r.random() < 0.5) for _ in range(r.randrange(1, 3))]
                r.shuffle(alts)
            out.append(alts)
        return out

    def reason(self):
        r = self.r
        m = r.choice(REASONS)
        z = r.random()
        return m if z < 0.6 else m[:r.choice([3, 8, len(m) - 1])] if z < 0.75 else m + r.choice([" 1", ": more", "x"]) if z < 0.9 else r.choice(["", "out of bounds", "integer", "unreach able", m.upper(), " " + m])

    # the reason of the k-th trap of a template
    WHY = [0, 3, 5, 4, 5, 1, 2, 7, 8, 9, 1, 2]

    def step(self):
        r = self.r
        z = r.random()
        if z < 0.12 or self.last is None:
            self.module(ok=r.random() < 0.88)
        elif z < 0.2:
            x, id = self.pick()
            n = r.choice(self.names)
            self.regs[n] = x
            self.add("register", n=n, **id)
        elif z < 0.28:
            x, id = self.pick()
            g = r.choice(list(x.g) + ["nothing"] * (r.random() < 0.1))
            self.add("return", op("gget", i=x.label, n=g), exp=self.exp(1), **id, **({"count": r.choice([-1, 1])} if r.random() < 0.15 else {}))
        elif z < 0.34:
            x, id = self.pick()
            f, o = self.action(x)
            self.add("invoke", o, **id)
        elif z < 0.62:
            x, id = self.pick()
            f, o = self.action(x)
            k = {"count": r.choice([-1, 1])} if r.random() < 0.12 else {}
            self.add("return", o, exp=self.exp(len(x.f[f][1])), **id, **k)
        elif z < 0.78:
            x, id = self.pick()
            if "boom" in x.f and r.random() < 0.8:
                j = r.randrange(len(TRAPS))
                f, o = "boom", call(f"{x.label}.boom", i32(j))
                msg = REASONS[self.WHY[j]]
                z = r.random()
                msg = msg if z < 0.5 else msg[:r.choice([5, 9, 20])] if z < 0.65 else msg + r.choice([" 1", "!"]) if z < 0.8 else self.reason()
            else:
                f, o = self.action(x)
                if r.random() < 0.2:
                    o = call(f"{x.label}.{f}", *(o["args"][1:] if r.random() < 0.5 else o["args"] + [i32(1)]))
                msg = self.reason()
            if "rec" in x.f and r.random() < 0.4:
                f, o = "rec", call(f"{x.label}.rec", i32(r.randrange(5)))
                msg = r.choice(["call stack exhausted", "call stack", "stack", self.reason()])
                self.add("exhaustion", o, msg=msg, **id)
                return
            self.add("trap" if r.random() < 0.85 else "exhaustion", o, msg=msg, **id)
        elif z < 0.84:
            trap = r.choice(["start", "data", "elem", None])
            t = self.make(trap)
            self.n += 1
            msg = r.choice([self.reason(), "out of bounds", "out of bounds memory access", "out of bounds table access", "unreachable"])
            self.add("trap", self.inst(self.load(t.wat), f"i{self.n}"), msg=msg)
        elif z < 0.9:
            if self.regs and r.random() < 0.9:
                t = User(r, r.choice(list(self.regs)), r.choice(["name", "type", "type", "good"]))
            else:
                t = User(r, "nobody", r.choice(["good", "name"])) if r.random() < 0.5 else self.make(r.choice([None, "start"]))
            self.n += 1
            self.add("unlinkable", self.inst(self.load(t.wat), f"i{self.n}"), msg=r.choice(["unknown import", "incompatible import type", "other"]))
        elif z < 0.97:
            if r.random() < 0.2:
                self.add("notext", text=r.choice(BADTEXT), msg=r.choice(["unexpected token", "unknown operator"]))
                return
            m = self.load(r.choice(['(module (memory 1) (func (export "f") (param i32) (result i64) (i64.load (local.get 0))))', '(module (global i32 (i32.const 3)) (func))', "(module)",
                                    '(module (type (func (result f32 f64))) (func (type 0) f32.const 1 f64.const 2) (table 2 funcref) (elem (i32.const 0) func 0) (start 1) (func))']))
            k = r.choice(["malformed", "invalid", "def"])
            x = {} if r.random() < 0.25 else {"muts": [r.getrandbits(32) for _ in range(r.choice([1, 1, 2]))], "cut": r.choice([0, 0, 0, 1, 3])}
            self.add(k, mod=m, msg=r.choice(["unexpected end", "type mismatch" if k == "malformed" else "unknown type", "unknown function", "magic header not detected"]), **x)
        else:
            # an instance that is gone by its name, and names that were never given
            self.add("register", n=r.choice(NAMES), id="never")


def grids(ck):
    """Every special value with every change, every result position, every trap with every reason."""
    out = []

    def done(name, S):
        S.ops.append(op("wast", d=S.d))
        out.append(script(f"P29/{name}", S.mods, S.ops, ns=S.nf))

    def begin(name, wat):
        S = Script(Rng(f"p29g-{ck.seed}-{name}"), 1)
        S.file()
        t = type("T", (), {})()
        t.wat = wat
        S.module(t)
        return S

    hows = [{}, {"p": "canon"}, {"p": "arith"}, {"p": "type"}] + [{"p": p, "n": n} for p in ("neg", "nan") for n in range(2)]
    for t in NUM:
        S = begin(t, f'(module (func (export "id") (param {t}) (result {t}) local.get 0) (func (export "two") (param {t}) (result {t} {t}) local.get 0 local.get 0))')
        n = 8 * W[t]
        e = {"f32": 23, "f64": 52}.get(t)
        inf = ((1 << (n - 1)) - (1 << e)) if e else 1 << (n - 2)
        vs = [0, 1 << (n - 1), 1, inf, inf | 1 << ((e or 5) - 1), inf | 1, (1 << n) - 1]
        if t == "v128":
            vs += [0x7fc00000 << 32, 0x7ff8 << 48, 0x80000000, 1 << 63]
        fl = [{"p": "flip", "n": k} for k in {0, 7, 8, n // 2 - 1, n // 2, n - 1, (e or 8) - 1, (e or 9)}]
        more = [{"p": p, "n": n} for p in ("neg", "nan") for n in range(2, 8)] if t == "v128" else []
        r = S.r
        for v in vs:
            for h in hows + fl + more:
                S.add("return", call(f"{S.last.label}.id", val(t, v)), exp=[[h]])
            for h in r.sample(hows + fl + more, 3):
                S.add("return", call(f"{S.last.label}.two", val(t, v)), exp=r.choice([[[{}], [h]], [[h], [{}]], [[h, {}], [{}]], [[h, r.choice(fl)], [{}]], [[{}, h], [r.choice(fl)]]]))
        done(f"val-{t}", S)
    S = begin("pos", "(module " + " ".join(f'(func (export "r{n}") (result {" ".join(["i32"] * n)}) {" ".join(f"i32.const {j}" for j in range(n))})' for n in range(0, 10)) + ")")
    for n in range(0, 10):
        for c in (-1, 1, 0):
            S.add("return", call(f"{S.last.label}.r{n}"), exp=[], count=c)
        for j in range(n):
            S.add("return", call(f"{S.last.label}.r{n}"), exp=[[{}]] * j + [[{"p": "flip", "n": S.r.randrange(32)}]])
    done("pos", S)
    S = begin("why", Template(Rng(f"p29w-{ck.seed}")).wat)
    for j in range(len(TRAPS) + 1):
        for k, msg in enumerate(REASONS):
            S.add(S.r.choice(["trap", "trap", "exhaustion"]), call(f"{S.last.label}.boom", i32(j)), msg=msg if (j + k) % 3 else msg[:-1] if (j + k) % 2 else msg + "s")
    done("why", S)
    return out


def scripts(ck):
    out = grids(ck)
    for k in range(ck.scale(220, 2200)):
        r = Rng(f"p29-{ck.seed}-{k}")
        S = Script(r, r.choice([1, 1, 1, 2, 3]))
        for _ in range(S.nf):
            S.file()
            for _ in range(r.choice([1, 4, 12, 25])):
                S.step()
        S.ops.append(op("wast", d=S.d, dir=r.random() < 0.3))
        out.append(script(f"P29/{k}", S.mods, S.ops, ns=S.nf))
    ck.coverage["script_directives"] = sum(len(s["ops"][-1]["d"]) for s in out)
    return out
