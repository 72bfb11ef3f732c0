"""P21: valid modules are accepted, invalid ones refused, and no bytes make the parser fail otherwise."""
from . import idioms, p01, prog
from .core import *

TECHNIQUE = ("TLC: the specification decodes and type-checks the bytes itself (Binary.tla: the binary format and WebAssembly's typing rules with stack-polymorphic dead code); for random typed and "
             "ill-typed modules, changed, truncated and random bytes, the parser must accept exactly the modules, under every option and input form; what it accepts is run, and changed modules that stay valid are checked against the semantics")

N = ["i32", "i64", "f32", "f64"]
R = ["funcref", "externref"]
OPS = [(n, list(a), [x] if isinstance(x, str) else list(x)) for n, a, x in idioms.OPS_INT + idioms.OPS_FLOAT]
OPSV = [(n, list(a), [x] if isinstance(x, str) else list(x)) for n, a, x in idioms.OPS_SIMD + idioms.OPS_RELAXED]
WIDE = [(n, list(a), list(x)) for n, a, x in idioms.OPS_WIDE]
LOADS = [("i32.load", 4, "i32"), ("i64.load", 8, "i64"), ("f32.load", 4, "f32"), ("f64.load", 8, "f64"), ("i32.load8_s", 1, "i32"), ("i32.load16_u", 2, "i32"), ("i64.load8_u", 1, "i64"),
         ("i64.load32_s", 4, "i64"), ("v128.load", 16, "v128"), ("v128.load8x8_s", 8, "v128"), ("v128.load32_splat", 4, "v128"), ("v128.load64_zero", 8, "v128")]
STORES = [("i32.store", 4, "i32"), ("i64.store", 8, "i64"), ("f32.store", 4, "f32"), ("f64.store", 8, "f64"), ("i32.store8", 1, "i32"), ("i64.store16", 2, "i64"), ("i64.store32", 4, "i64"), ("v128.store", 16, "v128")]
CST = {"i32": "i32.const 7", "i64": "i64.const -9", "f32": "f32.const 1.5", "f64": "f64.const -2", "v128": "v128.const i32x4 1 2 3 4", "funcref": "ref.null func", "externref": "ref.null extern"}


def sig(p, q):
    return f"{wtypes('param', p)} {wtypes('result', q)}"


class Module:
    """A random module; `wrong` mistakes are made in it."""

    def __init__(self, r, wrong, size):
        self.r, self.wrong, self.size = r, wrong, size
        self.simd = r.random() < 0.3
        self.T = N + N + R + (["v128"] * 2 if self.simd else [])
        some = lambda k: [r.choice(self.T) for _ in range(r.choice([0, 0, 1, 1, 2, k]))]
        self.types = [([], []), ([], ["i32"]), (["i32"], ["i32"])] + [(some(4), some(3)) for _ in range(r.choice([1, 2, 3]))]
        self.mems = [r.choice(["i32", "i32", "i64"]) for _ in range(r.choice([0, 1, 1, 2]))]
        self.tabs = [(r.choice(R), r.choice(["i32", "i32", "i64"])) for _ in range(r.choice([0, 1, 2, 3]))]
        if r.random() < 0.6:
            self.tabs.insert(0, ("funcref", "i32"))
        self.nimp = r.choice([0, 0, 1, 2])
        self.globs = [(r.choice(self.T), r.random() < 0.6) for _ in range(r.choice([0, 1, 2, 4]))]
        self.gimp = r.choice([0, 0, 1]) if self.globs else 0
        self.funs = [r.randrange(len(self.types)) for _ in range(self.nimp + r.choice([1, 2, 3]))]
        self.elems = [r.choice(R) for _ in range(r.choice([0, 1, 2]))]
        self.ndata = r.choice([0, 1, 2]) if self.mems else 0
        self.refs = set()
        self.at = r.randrange(1, max(2, size * max(1, len(self.funs) - self.nimp))) if wrong else -1

    def oops(self):
        """Is this the place for a mistake?"""
        self.at -= 1
        return self.at == 0

    # ---- one body
    def body(self, k):
        r = self.r
        p, q = self.types[self.funs[k]]
        self.loc = list(p) + [r.choice(self.T) for _ in range(r.choice([0, 1, 3, 6]))]
        self.ops, self.out = [], []
        self.ctl = [dict(k="func", st=[], en=q, h=0, un=False)]
        n = r.choice([2, self.size, self.size])
        while n > 0:
            n -= 1
            if self.oops():
                self.mistake()
            else:
                self.step()
        while self.ctl:
            self.close()
        return f"{wtypes('local', self.loc[len(p):])}\n    " + "\n    ".join(self.out[:-1] if self.out[-1] == "end" else self.out)

    def have(self, ins):
        """Would the operands fit?"""
        h, un = self.ctl[-1]["h"], self.ctl[-1]["un"]
        st = self.ops[h:]
        for j, t in enumerate(reversed(ins)):
            if j >= len(st):
                return un
            if st[-1 - j] not in (t, "bot"):
                return False
        return True

    def pop(self, n):
        h = self.ctl[-1]["h"]
        for _ in range(n):
            if len(self.ops) > h:
                self.ops.pop()

    def emit(self, s, ins=(), outs=()):
        self.out.append(s)
        self.pop(len(ins))
        self.ops += outs

    def dead(self):
        del self.ops[self.ctl[-1]["h"]:]
        self.ctl[-1]["un"] = True

    def label(self, d):
        c = self.ctl[-1 - d]
        return c["st"] if c["k"] == "loop" else c["en"]

    def need(self, ins):
        """Make the operands fit, by dropping or pushing."""
        j = len(ins)
        while j > 0 and not self.have(ins[:j]):
            j -= 1
        if j == 0 and ins and self.r.random() < 0.3 and len(self.ops) > self.ctl[-1]["h"]:
            self.emit("drop", [0])
        for t in ins[j:]:
            self.push(t)

    def push(self, t):
        r = self.r
        c = [f"local.get {i}" for i, x in enumerate(self.loc) if x == t] + [f"global.get {i}" for i, g in enumerate(self.globs) if g[0] == t] + [CST[t]] * 2
        s = r.choice(c)
        if t == "funcref" and r.random() < 0.4:
            i = r.randrange(len(self.funs))
            self.refs.add(i)
            s = f"ref.func {i}"
        self.emit(s, [], [t])

    def close(self):
        """End the innermost block, correctly or (sometimes) not."""
        c = self.ctl[-1]
        bad = self.oops()
        if c["k"] == "if" and (c["st"] != c["en"] or self.r.random() < 0.4) and not (bad and self.r.random() < 0.5):
            self.fill(c["en"], False)
            self.out.append("else")
            self.ops = self.ops[:c["h"]] + list(c["st"])
            c["k"], c["un"] = "else", False
            for _ in range(self.r.choice([0, 1, 2])):
                self.step(False)
            return self.close()
        self.fill(c["en"], bad)
        self.ctl.pop()
        self.ops = self.ops[:c["h"]] + list(c["en"])
        self.out.append("end")

    def fill(self, en, bad):
        c, r = self.ctl[-1], self.r
        if bad:
            return self.emit(r.choice(["drop", CST[r.choice(self.T)], "nop"]))
        if r.random() < 0.1 and not c["un"]:
            self.out.append("unreachable")
            self.dead()
        if len(self.ops) - c["h"] > len(en) or not self.have(en):
            if r.random() < 0.3:
                d = r.randrange(len(self.ctl))
                self.need(self.label(d))
                self.out.append(f"br {d}")
                self.dead()
            else:
                while len(self.ops) > c["h"]:
                    self.emit("drop", [0])
        if c["un"] and self.have(en) and len(self.ops) - c["h"] <= len(en) and r.random() < 0.7:
            return
        st = self.ops[c["h"]:]
        k = len(st) if self.have(en[:len(st)]) and len(st) <= len(en) and all(a in (b, "bot") for a, b in zip(st, en)) else 0
        if k == 0:
            for _ in st:
                self.emit("drop", [0])
        for t in en[k:]:
            self.push(t)

    def addr(self, m):
        return self.mems[m]

    def memarg(self, w):
        r = self.r
        al = 1 << r.randrange(w.bit_length())
        o = r.choice([0, 0, 1, 8, 65535, (1 << 32) - 1])
        return f"offset={o} align={al}"

    def pick(self):
        """An instruction: text, operands, results, what follows."""
        r = self.r
        x = r.random()
        nf = len(self.funs)
        if x < 0.22:
            return r.choice(OPSV if self.simd and r.random() < 0.5 else OPS if r.random() < 0.97 else WIDE)
        if x < 0.36 and self.loc:
            i = r.randrange(len(self.loc))
            t = self.loc[i]
            return r.choice([(f"local.get {i}", [], [t]), (f"local.set {i}", [t], []), (f"local.tee {i}", [t], [t])])
        if x < 0.42 and self.globs:
            i = r.randrange(len(self.globs))
            t, mu = self.globs[i]
            return (f"global.set {i}", [t], []) if mu and r.random() < 0.5 else (f"global.get {i}", [], [t])
        if x < 0.54 and self.mems:
            m = r.randrange(len(self.mems))
            a = self.mems[m]
            y = r.random()
            mm = r.randrange(len(self.mems))
            b = self.mems[mm]
            if y < 0.3:
                n, w, t = r.choice([l for l in LOADS if self.simd or l[2] != "v128"])
                return f"{n} {m} {self.memarg(w)}", [a], [t]
            if y < 0.6:
                n, w, t = r.choice([l for l in STORES if self.simd or l[2] != "v128"])
                return f"{n} {m} {self.memarg(w)}", [a, t], []
            if y < 0.65 and self.simd:
                w = r.choice([8, 16, 32, 64])
                l = r.randrange(128 // w)
                return r.choice([(f"v128.load{w}_lane {m} {self.memarg(w // 8)} {l}", [a, "v128"], ["v128"]), (f"v128.store{w}_lane {m} {self.memarg(w // 8)} {l}", [a, "v128"], [])])
            c = [(f"memory.size {m}", [], [a]), (f"memory.grow {m}", [a], [a]), (f"memory.fill {m}", [a, "i32", a], []), (f"memory.copy {m} {mm}", [a, b, "i32" if "i32" in (a, b) else "i64"], [])]
            if self.ndata:
                d = r.randrange(self.ndata)
                c += [(f"memory.init {m} {d}", [a, "i32", "i32"], []), (f"data.drop {d}", [], [])]
            return r.choice(c)
        if x < 0.64 and self.tabs:
            i, j = r.randrange(len(self.tabs)), r.randrange(len(self.tabs))
            (t, a), (t2, b) = self.tabs[i], self.tabs[j]
            c = [(f"table.get {i}", [a], [t]), (f"table.set {i}", [a, t], []), (f"table.size {i}", [], [a]), (f"table.grow {i}", [t, a], [a]), (f"table.fill {i}", [a, t, a], [])]
            if t == t2:
                c.append((f"table.copy {i} {j}", [a, b, "i32" if "i32" in (a, b) else "i64"], []))
            for e, u in enumerate(self.elems):
                c.append((f"elem.drop {e}", [], []))
                if u == t:
                    c.append((f"table.init {i} {e}", [a, "i32", "i32"], []))
            return r.choice(c)
        if x < 0.70:
            i = r.randrange(nf)
            p, q = self.types[self.funs[i]]
            if q == self.ctl[0]["en"] and r.random() < 0.4:
                return f"return_call {i}", p, [], "dead"
            return f"call {i}", p, q
        if x < 0.75:
            fts = [i for i, t in enumerate(self.tabs) if t[0] == "funcref"]
            if fts:
                i, ty = r.choice(fts), r.randrange(len(self.types))
                p, q = self.types[ty]
                a = self.tabs[i][1]
                if q == self.ctl[0]["en"] and r.random() < 0.4:
                    return f"return_call_indirect {i} (type {ty})", p + [a], [], "dead"
                return f"call_indirect {i} (type {ty})", p + [a], q
        if x < 0.79:
            t = r.choice(self.T)
            if t in R or r.random() < 0.3:
                return f"select (result {t})", [t, t, "i32"], [t]
            return "select", [t, t, "i32"], [t]
        if x < 0.82:
            t = r.choice(R)
            return r.choice([("ref.is_null", [t], ["i32"]), (f"ref.null {t[:-3]}", [], [t])])
        if x < 0.88:
            d = r.randrange(len(self.ctl))
            l = self.label(d)
            y = r.random()
            if y < 0.4:
                return f"br_if {d}", l + ["i32"], l
            if y < 0.6:
                return f"br {d}", l, [], "dead"
            if y < 0.7:
                return "return", self.ctl[0]["en"], [], "dead"
            ds = [d] + [e for e in range(len(self.ctl)) if self.label(e) == l or self.ctl[-1]["un"] and len(self.label(e)) == len(l)]
            return f"br_table {' '.join(str(r.choice(ds)) for _ in range(r.choice([0, 1, 3])))} {d}", l + ["i32"], [], "dead"
        if x < 0.97:
            p, q = r.choice(self.types)
            if r.random() < 0.5:
                p, q = [], r.choice([[], [r.choice(self.T)]])
            k = r.choice(["block", "loop", "if"])
            return f"{k} {sig(p, q)}", p + (["i32"] if k == "if" else []), [], (k, p, q)
        return r.choice([("nop", [], []), ("drop", [r.choice(self.T)], []), ("unreachable", [], [], "dead")])

    def do(self, x):
        s, ins, outs = x[:3]
        after = x[3] if len(x) > 3 else None
        self.emit(s, ins, outs)
        if after == "dead":
            self.dead()
        elif after:
            k, p, q = after
            self.ctl.append(dict(k=k, st=p, en=q, h=len(self.ops), un=False))
            self.ops += p

    def step(self, blocks=True):
        r = self.r
        if len(self.ctl) > 1 and r.random() < 0.1 and blocks:
            return self.close()
        best = None
        for _ in range(14):
            x = self.pick()
            if len(x) > 3 and isinstance(x[3], tuple) and (not blocks or len(self.ctl) > 5):
                continue
            # in dead code take what rests on operands that are not there
            if self.have(x[1]):
                if best is None or self.ctl[-1]["un"] and len(x[1]) > len(best[1]):
                    best = x
                if not self.ctl[-1]["un"] or r.random() < 0.3:
                    break
        if best is None or r.random() < 0.15 and not self.ctl[-1]["un"]:
            x = self.pick()
            if len(x) > 3 and isinstance(x[3], tuple) and (not blocks or len(self.ctl) > 5):
                x = ("nop", [], [])
            self.need(x[1])
            best = x
        self.do(best)

    def mistake(self):
        """Something that is usually wrong here."""
        r = self.r
        y = r.random()
        x = self.pick()
        if y < 0.45:           # an instruction whose operands are what they are
            if self.have(x[1]) and r.random() < 0.8:
                x = self.pick()
            return self.do(x)
        big = r.choice([0, 1, 2, 3, 5, 9, 127, 128, 70000])
        if y < 0.75:           # an index that may not exist
            s = r.choice([("local.get %d", [], ["i32"]), ("local.set %d", ["i32"], []), ("global.get %d", [], ["i32"]), ("global.set %d", ["i32"], []), ("call %d", [], []), ("br %d", [], [], "dead"),
                          ("br_if %d", ["i32"], []), ("br_table %d 0", ["i32"], [], "dead"), ("table.get %d", ["i32"], ["funcref"]), ("table.size %d", [], ["i32"]), ("memory.size %d", [], ["i32"]),
                          ("memory.grow %d", ["i32"], ["i32"]), ("call_indirect %d (type 0)", ["i32"], []), ("call_indirect 0 (type %d)", ["i32"], []), ("ref.func %d", [], ["funcref"]), ("data.drop %d", [], []),
                          ("elem.drop %d", [], []), ("i32.load %d", ["i32"], ["i32"]), ("i32.store %d", ["i32", "i32"], []), ("memory.init 0 %d", ["i32"] * 3, []), ("table.init 0 %d", ["i32"] * 3, []),
                          ("table.copy 0 %d", ["i32"] * 3, []), ("table.copy %d 0", ["i32"] * 3, []), ("memory.copy 0 %d", ["i32"] * 3, []), ("memory.fill %d", ["i32"] * 3, []), ("table.fill %d", ["i32", "funcref", "i32"], []),
                          ("return_call %d", [], [], "dead"), ("block (type %d)", [], [], ("block", [], []))])
            self.need(s[1])
            return self.do((s[0] % big,) + tuple(s[1:]))
        if y < 0.85:           # memory arguments
            self.need(["i32"])
            return self.do((r.choice(["i32.load align=8", "i64.load8_u align=2", "i32.load offset=4294967296", "i64.load align=16", "v128.load align=32", "i32.load16_u align=4", "v128.load8_splat align=2", "i32.load offset=4294967295"]), ["i32"], ["i32"]))
        if y < 0.92:           # selects and such
            t = r.choice(self.T + R)
            self.need([t, t, "i32"])
            return self.do((r.choice(["select", f"select (result {r.choice(self.T)})", f"select (result {t} {t})", "select (result)"]), [t, t, "i32"], [t]))
        return self.out.append(r.choice(["end", "else", "drop", "return", "i8x16.shuffle 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 32", "i32x4.extract_lane 4", "i8x16.extract_lane_u 16", "i64x2.replace_lane 2", "ref.is_null", "br_table 0 0 1 0 2", "i64.mul_wide_s"]))

    # ---- the whole
    def cst(self, t):
        r = self.r
        if self.oops():
            return r.choice(["i32.const 1", "i64.const 1", "f32.const 1", "ref.null func", "ref.null extern", "global.get 0", "i32.const 1 i32.const 2", "i32.const 1 i32.const 2 i32.add", "nop i32.const 0",
                             "i32.const 2 i32.const 1 i32.div_u", "ref.func 0", "ref.func 99", "", "i32.const 1 drop", "block (result i32) i32.const 1 end", "i64.const 1 i64.const 4 i64.mul"])
        c = [CST[t]] + [f"global.get {i}" for i in range(self.gimp) if self.globs[i] == (t, False)]
        if t in ("i32", "i64"):
            c += [f"{t}.const 3 {t}.const 4 {t}.{o}" for o in ("add", "sub", "mul")]
        if t == "funcref":
            c += [f"ref.func {r.randrange(len(self.funs))}"]
        return r.choice(c)

    def cst1(self, t):
        r = self.r
        return r.choice([f"ref.null {t[:-3]}"] * 3 + ["i32.const 1", f"ref.func {r.randrange(len(self.funs))}"]) if self.oops() else r.choice([f"ref.null {t[:-3]}"] + ([f"ref.func {r.randrange(len(self.funs))}"] if t == "funcref" else []))

    def wat(self):
        r = self.r
        L = []
        lim = lambda lo, hi, it: r.choice([f"{lo}", f"{lo} {lo + hi}"]) if not self.oops() else r.choice(["3 2", "65537", "1 65537", "4294967295", "5 4"])
        for p, q in self.types:
            L.append(f"(type (func {sig(p, q)}))")
        for i in range(self.nimp):
            L.append(f'(import "h" "f{i}" (func (type {self.funs[i] if not self.oops() else 40})))')
        for i in range(self.gimp):
            t, mu = self.globs[i]
            L.append(f'(import "h" "g{i}" (global {f"(mut {t})" if mu else t}))')
        for m in self.mems:
            a = " i64" if m == "i64" else ""
            ps = r.choice(["", "", "", " (pagesize 1)", " (pagesize 65536)"]) if not self.oops() else r.choice([" (pagesize 2)", " (pagesize 0)", " (pagesize 32768)"])
            L.append(f"(memory{a} {lim(r.choice([0, 1]), 3, m)}{ps})")
        for t, a in self.tabs:
            init = f" ({self.cst1(t)})" if r.random() < 0.15 or self.oops() else ""
            L.append(f"(table{' i64' if a == 'i64' else ''} {lim(r.choice([0, 3]), 5, a)} {t}{init})")
        for i in range(self.gimp, len(self.globs)):
            t, mu = self.globs[i]
            L.append(f"(global {f'(mut {t})' if mu else t} {self.cst(t)})")
        for k in range(self.nimp, len(self.funs)):
            L.append(f'(func (export "e{k if not self.oops() else 0}") (type {self.funs[k]}) {self.body(k)})')
        for kind, n in (("memory", len(self.mems)), ("table", len(self.tabs)), ("global", len(self.globs)), ("func", len(self.funs))):
            for i in range(n):
                if self.oops():
                    i = r.choice([n, n + 1, 200, 0])
                if r.random() < 0.3:
                    L.append(f'(export "{kind[0]}{i}" ({kind} {i}))')
        st = [k for k, t in enumerate(self.funs) if self.types[t] == ([], [])]
        if self.oops():
            st = [r.randrange(len(self.funs) + 2)]
        if st and r.random() < 0.3:
            L.append(f"(start {r.choice(st)})")
        for e in self.elems:
            ts = [i for i, t in enumerate(self.tabs) if t[0] == e]
            if self.oops():
                ts = [0, 5]
            items = " ".join(f"(item {self.cst(e)})" for _ in range(r.choice([0, 1, 3])))
            if ts and r.random() < 0.4:
                i = r.choice(ts)
                L.append(f"(elem (table {i}) (offset {self.cst(self.tabs[i][1] if i < len(self.tabs) else 'i32')}) {e} {items})")
            elif e == "funcref" and r.random() < 0.4:
                L.append(f"(elem {r.choice(['', 'declare '])}func {' '.join(str(r.randrange(len(self.funs))) for _ in range(r.choice([0, 2])))})")
            else:
                L.append(f"(elem {e} {items})")
        if self.refs and not self.oops():
            L.append(f"(elem declare func {' '.join(map(str, sorted(self.refs)))})")
        for _ in range(self.ndata):
            if r.random() < 0.5:
                m = r.randrange(len(self.mems)) if not self.oops() else 7
                L.append(f'(data (memory {m}) (offset {self.cst(self.mems[m] if m < len(self.mems) else "i32")}) "abc")')
            else:
                L.append('(data "wxyz")')
        return "(module\n" + "\n".join(L) + ")"


CF = [["", "form=stream1"], ["", "rw=0"], ["", "th=4;form=stream13"], ["", "alloc=0"], ["", "form=file"], ["", "val=0"], ["rw=0;val=0", ""], ["val=0;th=3", ""], ["alloc=0;val=0;form=stream7", ""]]


def raw(id, mods, ops):
    return script(id, mods, ops, [""], raw=True)


# random modules, with and without mistakes
def typed(ck, c):
    mods, ops = [], []
    for k in range(20):
        r = Rng(f"P21t-{ck.seed}-{c}-{k}")
        wrong = r.random() < 0.55
        m = Module(r, wrong, r.choice([4, 10, 20, 30]))
        mods.append({"wat": m.wat(), "opt": True})
        ops.append(op("parse", mod=k + 1, go=True, cfgs=r.choice(CF)))
    return raw(f"P21t-{c}", mods, ops)


def corpus(r):
    if r.random() < 0.5:
        return Module(r, False, r.choice([4, 8, 14])).wat()
    return prog.Mod(r, prog.Opt(nfun=2, simd=r.random() < 0.3, refs=r.random() < 0.5, mem64=r.random() < 0.3, table=r.random() < 0.6, tail=0.2, size=r.choice([3, 6]), dead=0.2, bulk=r.random() < 0.5, passive=r.random() < 0.4)).wat()


# small changes to valid modules
def changed(ck, c):
    r = Rng(f"P21m-{ck.seed}-{c}")
    ops = [op("parse", mod=1 + k % 3, go=True, cfgs=r.choice(CF), muts=[r.randrange(1 << 40) for _ in range(r.choice([1, 1, 1, 2]))]) for k in range(36)]
    return raw(f"P21m-{c}", [{"wat": corpus(r), "opt": True} for _ in range(3)], ops)


# every beginning of a module; in other encodings too
def cut(ck, c):
    r = Rng(f"P21c-{ck.seed}-{c}")
    w = Module(r, False, 3).wat()
    lay = f"{r.randrange(1 << 30)}{r.choice(['c', 'l', 'cl'])}" if r.random() < 0.5 else None
    ops = []
    for k in range(c % 3, 260, 3):
        o = op("parse", mod=1, go=True, cfgs=r.choice(CF), cut=k)
        if lay:
            o["lay"] = lay
        ops.append(o)
    return raw(f"P21c-{c}", [{"wat": w, "opt": True}], ops)


# bytes that mean little
def noise(ck, c):
    r = Rng(f"P21n-{ck.seed}-{c}")
    mods = []
    for _ in range(40):
        x = r.random()
        b = [] if x < 0.1 else [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]
        if x < 0.4:
            b += [r.randrange(256) for _ in range(r.randrange(40))]
        else:
            for _ in range(r.choice([1, 2, 3, 5])):
                body = [r.choice([0, 0, 1, 1, 2, 3, 0x0b, 0x60, 0x7f, 0x7e, 0x70, 0x6f, 0x40, 0x41, 0xfc, 0xfd, 0x80, r.randrange(256)]) for _ in range(r.randrange(14))]
                n = len(body) + r.choice([0, 0, 0, 0, 0, 1, -1, 200])
                b += [r.randrange(15), max(0, n) % 128] + body
        mods.append({"hex": bytes(b).hex()})
    return raw(f"P21n-{c}", mods, [op("parse", mod=k + 1, go=True, cfgs=r.choice(CF)) for k in range(40)])


# a changed module that is still one means what it says
def run(ck, c):
    r = Rng(f"P21r-{ck.seed}-{c}")
    m = prog.Mod(r, prog.Opt(nfun=3, simd=r.random() < 0.3, refs=r.random() < 0.4, table=r.random() < 0.6, tail=0.2, size=r.choice([5, 9]), dead=0.2, bulk=r.random() < 0.5, passive=r.random() < 0.4))
    ops = [inst()] + [rcall(f"a.e{j}", *[m.arg(t) for t in m.sigs[j][0]], sched=[{"k": "f", "b": 1500}], drop=1) for j in range(m.n) for _ in range(2)] + [op("obs")]
    muts = [[r.randrange(1 << 40) for _ in range(r.choice([1, 2, 3, 4]))] for _ in range(40)]
    return script(f"P21r-{c}", [m.wat()], ops, ["", "rw=0"], muts=muts)

# a code section large enough for the parallel parser, put together byte by byte
def leb(n, pad=0):
    o = []
    while True:
        x = n & 127
        n >>= 7
        if n == 0 and pad <= 0:
            return o + [x]
        o.append(x | 128)
        pad -= 1
        if n == 0 and pad <= 0:
            return o + [0]


def section(id, body, d=0):
    return [id] + leb(len(body) + d) + body


def vec(xs, d=0):
    return leb(len(xs) + d) + [b for x in xs for b in x]


BULK = [0xFD, 0x0C] + list(range(16)) + [0x1A]


def wide(ck, c):
    r = Rng(f"P21w-{ck.seed}-{c}")
    mods, ops = [], []
    for k in range(12):
        n = r.choice([8, 8, 9, 11, 13])
        where = r.randrange(n)
        sizes = [1] * n
        for _ in range(880):
            sizes[where if r.random() < 0.7 else r.randrange(n)] += 1
        bodies = []
        for i in range(n):
            tail = r.choice([[0x41, 1], [0x20, 0], [0x41, 1, 0x10, r.randrange(n)], [0x20, 0, 0x10, r.randrange(n)]])
            bodies.append(r.choice([[0], [0], [1, 2, 0x7E]]) + BULK * sizes[i] + tail + [0x0B])
        ty, fn, dc, cnt, sec = [[0x60, 1, 0x7F, 1, 0x7F]], [[0]] * n, [0] * n, 0, 0
        trail, before, after, names, pad = [], [], [], [], 0
        what = r.choice(["", "trail", "trail", "cnt", "fn", "size", "sec", "body", "body", "end", "none", "dup", "order", "after", "padded", "start"]) if k else ""
        j = r.choice([0, n - 1, r.randrange(n)])
        if what == "trail":
            trail = r.choice([[0], [0x0B], [0, 0], [2, 0, 0x0B], [0] * 5, [4, 0, 0x41, 1, 0x0B]])
        elif what == "cnt":
            cnt = r.choice([-1, 1, 2, 1 << 20])
        elif what == "fn":
            fn = fn[:-1] if r.random() < 0.5 else fn + [[0]]
        elif what == "size":
            dc[j] = r.choice([-1, 1, 2, 5000])
        elif what == "sec":
            sec = r.choice([-1, 1, 7])
        elif what == "body":
            b = bodies[j]
            at = r.choice([0, len(b) - 1, len(b) - 2, len(b) - 3, len(b) - 4, len(b) - 3 - 19 * r.randrange(2)])
            bodies[j] = b[:at] + [r.choice([0x7C, 0x1A, 0x41, 0x6A, 0x0B, 0x20, 0xFF, 1, 0])] + b[at + r.choice([0, 1]):]
        elif what == "end":
            bodies[j] = r.choice([bodies[j][:-1], bodies[j] + [0x0B], bodies[j] + [1]])
        elif what == "after":
            after = r.choice([section(0, [1, 0x61]), section(0, []), section(11, [0]), section(11, [1, 1, 1, 5]), section(6, [0]), section(1, vec(ty)), [0]])
        elif what == "before":
            before = section(12, [1])
        elif what == "padded":
            pad = r.choice([1, 2, 3])
        elif what == "start":
            before = section(8, leb(r.choice([n - 1, n, 0])))
        code = leb(n + cnt, pad) + [x for i, b in enumerate(bodies) for x in leb(len(b) + dc[i], pad) + b] + trail
        exps = vec([[1, 0x61 + i, 0, i] for i in range(n)])
        co = section(10, code, sec)
        b = [0, 0x61, 0x73, 0x6D, 1, 0, 0, 0] + section(1, vec(ty)) + section(3, vec(fn))
        b += co + section(7, exps) if what == "order" else section(7, exps) + before + (co if what != "none" else []) + after + (co if what == "dup" else [])
        mods.append({"hex": bytes(b).hex()})
        ops.append(op("parse", mod=k + 1, go=True, cfgs=r.choice([["form=stream777;th=4", "form=stream100000;th=4", "form=file;th=4", "th=4", "th=1;form=stream999"], ["", "form=stream64", "th=2;form=stream4096"], ["rw=0;th=3;form=file", "form=stream8192", "th=2"]])))
    return raw(f"P21w-{c}", mods, ops)


def scripts(ck):
    return ([typed(ck, c) for c in range(ck.scale(100, 1500))] + [changed(ck, c) for c in range(ck.scale(80, 1200))] + [cut(ck, c) for c in range(ck.scale(8, 80))]
            + [noise(ck, c) for c in range(ck.scale(16, 300))] + [wide(ck, c) for c in range(ck.scale(6, 60))] + [run(ck, c) for c in range(ck.scale(240, 4000))])
