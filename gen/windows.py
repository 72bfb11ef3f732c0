"""Windows: short typed instruction sequences over few locals, constants, globals and memory cells, with a
branch target (of every kind) between any two of their instructions and a branch consuming what they leave.
They cover what a peephole rewriter looks at: every neighbourhood of instructions, cut everywhere."""
from .core import *

T = ["i32", "i64", "f32", "f64", "v128"]
LOC = {"i32": ["a", "b"], "i64": ["c", "d"], "f32": ["e", "f"], "f64": ["g", "h"], "v128": ["u", "w"]}
ALL = [(n, t) for t in T for n in LOC[t]]
CMP = {"i32": "eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u", "f32": "eq ne lt gt le ge"}
BIN = {"i32": "add sub mul and or xor shl shr_s shr_u rotl rotr add sub add", "f32": "add sub mul min max copysign mul add"}
UN = {"i32": "clz popcnt extend8_s extend16_s", "i64": "clz popcnt extend8_s extend16_s extend32_s", "f32": "abs neg", "f64": "abs neg"}
LOADS = {"i32": "i32.load i32.load8_s i32.load8_u i32.load16_s i32.load16_u",
         "i64": "i64.load i64.load8_s i64.load8_u i64.load16_s i64.load16_u i64.load32_s i64.load32_u", "f32": "f32.load",
         "f64": "f64.load", "v128": "v128.load v128.load8x8_s v128.load16x4_u v128.load32x2_s v128.load8_splat v128.load16_splat v128.load32_splat v128.load64_splat v128.load32_zero v128.load64_zero"}
STORES = {"i32": "i32.store i32.store8 i32.store16", "i64": "i64.store i64.store8 i64.store16 i64.store32", "f32": "f32.store",
          "f64": "f64.store", "v128": "v128.store"}
V2 = ("v128.and v128.or v128.xor v128.andnot i8x16.add i16x8.sub i32x4.add i32x4.sub i32x4.mul i64x2.add i64x2.sub i64x2.mul i8x16.eq i16x8.eq "
      "i32x4.gt_s i32x4.min_u i8x16.max_s i16x8.mul i8x16.swizzle i64x2.eq f32x4.add f64x2.mul i32x4.dot_i16x8_s")
CONVS = [("i32", "i64", "i64.extend_i32_s"), ("i32", "i64", "i64.extend_i32_u"), ("i64", "i32", "i32.wrap_i64"), ("i64", "i32", "i64.eqz"),
         ("i32", "i32", "i32.eqz"), ("i32", "v128", "i32x4.splat"), ("i64", "v128", "i64x2.splat"), ("v128", "i32", "i32x4.extract_lane 1"),
         ("v128", "i64", "i64x2.extract_lane 0"), ("v128", "i32", "v128.any_true"), ("v128", "v128", "v128.not"), ("i32", "f32", "f32.convert_i32_s"),
         ("i32", "f64", "f64.convert_i32_u")]


def tab(d, t):
    return d.get(t, d.get({"i64": "i32", "f64": "f32"}.get(t, ""), "")).split()


class Walk:
    """One window: instructions with the stack before each of them."""

    def __init__(self, r, types, n, mems):
        self.r, self.types, self.mems = r, types, mems
        self.code, self.st, self.at = [], [], []     # entries of st: (type, may be an address)
        for _ in range(n):
            self.step()

    def emit(self, text, pops, push=None, addr=False):
        self.at.append([t for t, _ in self.st])
        if pops:
            del self.st[-pops:]
        if push:
            self.st.append((push, addr))
        self.code.append(text)

    def small(self, t):
        r = self.r
        if t in ("i32", "i64"):
            return const(t, r.choice([0, 1, 2, 8, 16, 24, 32, 48, 56, 255, 2**31, 2**32 - 1, r.bits(t)]) if t == "i32" else
                         r.choice([0, 1, 5, 16, 24, 48, 56, 2**31, 2**32, 2**32 + 5, 2**64 - 1, 2**63, r.bits(t)]))
        if t == "f32":
            return const(t, f32b(r.choice([0.0, 1.0, -2.5, 3.0, 0.1])))
        if t == "f64":
            return const(t, f64b(r.choice([0.0, 1.0, -2.5, 3.0, 0.1])))
        return const(t, r.bits(t))

    def mem(self, t):
        """A memory addressed with a t."""
        o = [i for i, x in enumerate(self.mems) if x == t]
        return self.r.choice(o) if o else None

    def marg(self, m):
        o = self.r.choice([0, 0, 0, 1, 4, 8, 100])
        return (f" $m{m}" if m else "") + (f" offset={o}" if o else "")

    def motif(self, t):
        """Longer idioms with small deviations from the one that a rewriter recognizes."""
        r = self.r
        L = lambda u, n=None: self.emit(f"local.get ${n if n and r.random() < 0.8 else r.choice(LOC[u])}", 0, u)
        at = r.choice(self.mems)
        m = self.mem(at)
        x, z = r.choice(LOC[t]), r.choice(LOC[at])
        k = r.randrange(12)
        if k >= 8:                            # x = y op z, the operands also stored on the way
            def operand():
                c = r.randrange(6)
                if c == 4:            # computed and stored in one go
                    L(t)
                    if r.random() < 0.5:
                        L(t)
                    else:
                        self.emit(self.small(t), 0, t)
                    self.emit(r.choice(V2.split()) if t == "v128" else f"{t}.{r.choice(tab(BIN, t) + ['sub', 'add'])}", 2, t)
                    self.emit(f"local.tee ${x if r.random() < 0.7 else r.choice(LOC[t])}", 1, t)
                elif c == 5:
                    L(at, z)
                    self.emit(r.choice(LOADS[t].split()) + self.marg(m), 1, t)
                    self.emit(f"local.tee ${x if r.random() < 0.7 else r.choice(LOC[t])}", 1, t)
                elif r.random() < 0.25:
                    L(t, x)
                elif c == 0:
                    self.emit(self.small(t), 0, t)
                elif c == 1:
                    L(t)
                else:
                    self.emit(self.small(t) if r.random() < 0.4 else f"global.get $g{t}", 0, t)
                    self.emit(f"local.tee ${x if r.random() < 0.6 else r.choice(LOC[t])}", 1, t)
            operand()
            operand()
            self.emit(r.choice(V2.split()) if t == "v128" else f"{t}.{r.choice(tab(BIN, t) + ['sub', 'add'])}", 2, t)
            self.emit(f"local.{r.choice(['set', 'set', 'tee'])} ${x if r.random() < 0.5 else r.choice(LOC[t])}", 1)
            if self.code[-1].startswith("local.tee"):
                self.st.append((t, False))
        elif k == 0 and t != "v128":          # [z] += step
            o = r.choice(["", " offset=4"])
            M = (f" $m{m}" if m else "") + o
            L(at, z)
            L(at, z)
            self.emit(f"{t}.load{M}", 1, t)
            if r.random() < 0.7:
                self.emit(const(t, {"i32": 1, "i64": 1, "f32": f32b(1.0), "f64": f64b(1.0)}[t] if r.random() < 0.7 else r.choice([2, 0])), 0, t)
            else:
                L(t)
            self.emit(f"{t}.{r.choice(['add', 'add', 'add', 'sub'])}", 2, t)
            if r.random() < 0.3:
                M = self.marg(self.mem(at))
            self.emit(f"{t}.store{M}", 2)
        elif k == 1 and t != "v128":          # x += y * z
            L(t)
            L(t)
            self.emit(f"{t}.mul", 2, t)
            L(t, x)
            self.emit(f"{t}.{r.choice(['add', 'add', 'sub'])}", 2, t)
            self.emit(f"local.{r.choice(['set', 'set', 'tee'])} ${x if r.random() < 0.8 else r.choice(LOC[t])}", 1)
            if self.code[-1].startswith("local.tee"):
                self.st.append((t, False))
        elif k == 2 and t in ("f32", "f64"):  # [z] = a * b + c
            L(at, z)
            for _ in range(3):
                L(t)
            self.emit(f"{t}.mul", 2, t)
            self.emit(f"{t}.add", 2, t)
            self.emit(f"{t}.store{self.marg(m)}", 2)
        elif k == 3 and t in ("i32", "i64"):  # sign extension by shifting
            w = 32 if t == "i32" else 64
            n = w - r.choice([8, 16, 32 if w == 64 else 8])
            n2 = n if r.random() < 0.7 else r.choice([n ^ 1, w - n, n + w, 8, 24])
            L(t)
            self.emit(f"{t}.const {n}", 0, t)
            self.emit(f"{t}.shl", 2, t)
            self.emit(f"{t}.const {n2}", 0, t)
            self.emit(f"{t}.{r.choice(['shr_s', 'shr_s', 'shr_u', 'shl'])}", 2, t)
        elif k == 4 and t in ("i32", "i64"):  # three operands
            for _ in range(3):
                L(t)
            self.emit(f"{t}.{r.choice(['add', 'add', 'xor'])}", 2, t)
            self.emit(f"{t}.{r.choice(['add', 'add', 'sub'])}", 2, t)
        elif k == 5:                          # x = [z]
            L(at, z)
            self.emit(r.choice(LOADS[t].split()) + self.marg(m), 1, t)
            self.emit(f"local.{r.choice(['set', 'tee'])} ${x}", 1)
            if self.code[-1].startswith("local.tee"):
                self.st.append((t, False))
        elif k == 6:                          # bulk operations on constant amounts
            M = f" $m{m}" if m else ""
            L(at, z)
            if r.random() < 0.5:
                self.emit(f"i32.const {r.choice([0, 1, 7, 255, 256, 511, 2**32 - 1])}", 0, "i32")
                self.emit(f"{at}.const {r.choice([0, 1, 2, 16, 65536])}", 0, at)
                self.emit(f"memory.fill{M}", 3)
            else:
                L(at)
                self.emit(f"{at}.const {r.choice([0, 1, 3, 16, 65535])}", 0, at)
                self.emit(f"memory.copy{M}{M}", 3)
        elif t in ("i32", "i64"):             # mask or decrement, keeping the value
            L(t)
            self.emit(f"{t}.const {r.choice([1, 7, 255, 2**31, 2**32 - 1] + ([2**32, 2**63] if t == 'i64' else []))}", 0, t)
            self.emit(f"{t}.{r.choice(['and', 'sub', 'add'])}", 2, t)
            self.emit(f"local.tee ${x}", 1, t)

    def step(self):
        r, st = self.r, self.st
        c = []
        t = r.choice(self.types)
        push = 6 if not st else 3 if len(st) < 2 else 2 if len(st) < 4 else 0
        c.append((push * 2, "get"))
        c.append((push, "const"))
        c.append((push * 0.4, "gget"))
        c.append((push * 0.7, "motif"))
        if st:
            a, ad = st[-1]
            c += [(1.5, "set"), (1.5, "tee"), (0.5, "drop"), (0.4, "gset")]
            c.append((1, "un"))
            if ad and a in self.mems:
                c.append((3, "load"))
            if len(st) > 1:
                if st[-2][0] == a:
                    c += [(5, "bin")]
                    if a != "v128":
                        c.append((1.2, "cmp"))
                if st[-2][1] and st[-2][0] in self.mems:
                    c.append((4, "store"))
                if len(st) > 2 and a == "i32" and st[-2][0] == st[-3][0]:
                    c.append((2, "select"))
        k = r.choices([x for _, x in c], [w for w, _ in c])[0]
        if k == "get":
            n = r.choice(LOC[t])
            self.emit(f"local.get ${n}", 0, t, t in ("i32", "i64"))
        elif k == "motif":
            self.motif(t)
        elif k == "const":
            if t in ("i32", "i64") and r.random() < 0.3:
                self.emit(f"{t}.const {r.randrange(64)}", 0, t, True)
            else:
                self.emit(self.small(t), 0, t)
        elif k == "gget":
            self.emit(f"global.get $g{t}", 0, t)
        elif k in ("set", "tee"):
            self.emit(f"local.{k} ${r.choice(LOC[a])}", 1, a if k == "tee" else None)
        elif k == "gset":
            self.emit(f"global.set $g{a}", 1)
        elif k == "drop":
            self.emit("drop", 1)
        elif k == "select":
            self.emit("select", 3, st[-2][0])
        elif k == "cmp":
            self.emit(f"{a}.{r.choice(tab(CMP, a))}", 2, "i32")
        elif k == "bin":
            self.emit(r.choice(V2.split()) if a == "v128" else f"{a}.{r.choice(tab(BIN, a))}", 2, a)
        elif k == "load":
            self.emit(r.choice(LOADS[t].split()) + self.marg(self.mem(a)), 1, t)
        elif k == "store":
            self.emit(r.choice(STORES[a].split()) + self.marg(self.mem(st[-2][0])), 2)
        else:
            o = [(y, x) for i, y, x in CONVS if i == a and y in self.types + ["i32"]] + [(a, f"{a}.{x}") for x in UN.get(a, "").split()]
            y, x = r.choice(o)
            self.emit(x, 1, y)


def window(r, name, types, mems, cut):
    w = Walk(r, types, r.choice([2, 3, 3, 4, 4, 5, 6, 8]), mems)
    code, end = list(w.code), [t for t, _ in w.st]
    W = lambda ts: " ".join(w.small(t) for t in ts)
    R = lambda ts: f"(result {' '.join(ts)})" if ts else ""
    P = lambda ts: f"(param {' '.join(ts)})" if ts else ""
    if cut:
        p = r.randrange(0, len(code) + 1)
        ts = w.at[p] if p < len(code) else end
        A, B = " ".join(code[:p]), " ".join(code[p:])
        k = r.randrange(6)
        if k == 0:
            body = f"(block {R(ts)} {W(ts)} local.get $k br_if 0 {'drop ' * len(ts)} {A}) {B}"
        elif k == 1:
            body = f"local.get $k (if {R(ts)} (then {W(ts)}) (else {A})) {B}"
        elif k == 2:
            body = f"local.get $k (if {R(ts)} (then {A}) (else {W(ts)})) {B}"
        elif k == 3:
            body = f"(block {R(ts)} (block {R(ts)} {W(ts)} local.get $k br_table 0 1 0) {'drop ' * len(ts)} {A}) {B}"
        elif k == 4:      # a label reached by a branch table and by falling through
            body = (f"(block {R(ts)} local.get $k (if (then {W(ts)} i32.const {r.randrange(3)} br_table 1 1)) {A}) {B}")
        else:
            body = f"{A} (loop {P(ts)} {R(end)} {B} local.get $k (if (then (local.set $k (i32.const 0)) {W(ts)} br 1)))"
    else:
        body = " ".join(code)
    if end and end[-1] == "i32" and r.random() < 0.7:
        rest = end[:-1]
        z = r.choice(["", "", "i32.eqz "])
        k = r.randrange(4)
        if k == 0:
            body = f"(block {R(rest)} {body} {z}br_if 0 {'drop ' * len(rest)} {W(rest)} (local.set $k (i32.const 77)))"
        elif k == 1:
            body = f"{body} {z}(if (then (local.set $k (i32.const 5))))"
        elif k == 2:
            body = f"{body} {z}(if (then (local.set $k (i32.const 5))) (else (local.set $k (i32.const 6))))"
        else:
            body = f"(block {R(rest)} (block {R(rest)} {body} br_table 0 1 0) (local.set $k (i32.const 99)))"
        end = rest
    far = r.random() < 0.2
    res = end + [t for _, t in ALL] + ["i32"]
    if len(res) > 20:
        return None
    params = " ".join(f"(param $p{n} {t})" if far else f"(param ${n} {t})" for n, t in ALL)
    if far:        # the locals lie beyond what an 8 bit index reaches
        pad = r.choice([240, 250, 256, 262])
        loc = f"(local {' '.join(['i32'] * pad)}) (local {' '.join(['i64'] * pad)}) " + (f"(local {' '.join(['v128'] * pad)}) " if "v128" in types and r.random() < 0.4 else "") + " ".join(f"(local ${n} {t})" for n, t in ALL)
        pre = " ".join(f"(local.set ${n} (local.get $p{n}))" for n, t in ALL)
    else:
        loc = pre = ""
    return f'(func (export "{name}") {params} (param $k i32) (result {" ".join(res)}) {loc} {pre} {body} ' + " ".join(f"local.get ${n}" for n, _ in ALL) + " local.get $k)"


def arg(r, t):
    if t == "i32":
        return i32(r.choice([r.randrange(100), r.randrange(100), r.randrange(10), r.bits("i32")]))
    if t == "f32":
        return f32(r.choice([0.0, -0.0, 1.0, -1.5, 2.25, 3.0, 1e10, 0.1, -7.0]))
    if t == "f64":
        return f64(r.choice([0.0, -0.0, 1.0, -1.5, 2.25, 3.0, 1e10, 0.1, -7.0]))
    if t == "i64":
        return i64(r.choice([r.randrange(10), r.bits("i64"), 2**32 + r.randrange(8), 2**32 * r.randrange(4)]))
    return r.v(t)


def scripts(ck, pid, mods, per, types, cut=0.7, mems=("i32",), cfgs=RW):
    out = []
    for j in range(mods):
        r = Rng(f"{pid}win-{ck.seed}-{j}")
        ts = types(r) if callable(types) else types
        F, ms = [], (mems(r) if callable(mems) else mems)
        while len(F) < per:
            f = window(r, f"f{len(F)}", ts, ms, r.random() < cut)
            if f:
                F.append(f)
        g = " ".join(f"(global $g{t} (export \"g{t}\") (mut {t}) ({W0[t]}))" for t in T)
        m = " ".join(f'(memory $m{i} (export "m{i}") {"i64 " if x == "i64" else ""}1)' for i, x in enumerate(ms))
        d = f'(data ({ms[0]}.const 0) "' + "".join(f"\\{r.randrange(256):02x}" for _ in range(256)) + '")'
        ops = [inst()]
        for k in range(per):
            args = [arg(r, t) for _, t in ALL]
            ops += [call(f"a.f{k}", *args, i32(0)), call(f"a.f{k}", *[arg(r, t) if r.random() < 0.4 else x for (_, t), x in zip(ALL, args)], i32(1))]
        out.append(script(f"{pid}win-{j}", [f"(module {m} {g} {d}\n" + "\n".join(F) + ")"], ops, cfgs))
    return out


W0 = {"i32": "i32.const 3", "i64": "i64.const 0x500000007", "f32": "f32.const 1.5", "f64": "f64.const -2.5", "v128": "v128.const i32x4 1 2 3 4"}


def skeleton(r, name):
    """Jumps to jumps: nested blocks of nothing but branches, with a trace of the way taken."""
    n = [0]

    def seq(d, labels, budget):
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.randrange(10)
            n[0] += 1
            c = r.choice(["(local.get $a)", "(i32.eqz (local.get $a))", "(i32.and (local.get $b) (i32.const %d))" % (1 << r.randrange(6)), "(i32.lt_s (local.get $a) (local.get $b))",
                          "(i64.eqz (local.get $c))", "(i64.gt_u (local.get $c) (i64.const 5))", "(i32.const 0)", "(i32.const 1)", "(i32.gt_u (local.get $b) (i32.const 3))"])
            fw = [i for i, x in enumerate(reversed(labels)) if x == "b"]
            if k < 3 and d < 5:
                out.append(f"(block {seq(d + 1, labels + ['b'], budget)})")
            elif k == 3 and d < 5:
                out.append(f"(loop (local.set $n (i32.add (local.get $n) (i32.const 1))) (br_if {len(labels)} (i32.gt_u (local.get $n) (i32.const 9))) {seq(d + 1, labels + ['l'], budget)})")
            elif k == 4 and d < 5:
                e = f"(else {seq(d + 1, labels + ['b'], budget)})" if r.random() < 0.6 else ""
                out.append(f"(if {c} (then {seq(d + 1, labels + ['b'], budget)}) {e})")
            elif k == 5:
                out.append(f"(br {r.randrange(len(labels))})")
                break
            elif k == 6:
                out.append(f"(br_table {' '.join(str(r.randrange(len(labels))) for _ in range(r.choice([1, 2, 3, 5])))} (local.get ${r.choice('ab')}))")
                break
            elif k == 7:
                out.append(f"(br_if {r.randrange(len(labels))} {c})")
            elif k == 8:
                out.append(f"(local.set $t (i32.add (i32.mul (local.get $t) (i32.const 7)) (i32.const {n[0]})))")
            else:
                out.append(f"(br_if {r.choice(fw) if fw else 0} {c})")
        return " ".join(out)
    body = seq(0, ["b"], 3)
    return f'(func (export "{name}") (param $a i32) (param $b i32) (param $c i64) (result i32 i32) (local $n i32) (local $t i32) (block {body}) local.get $t local.get $n)'


def skeletons(ck, pid, mods, per):
    out = []
    for j in range(mods):
        r = Rng(f"{pid}skel-{ck.seed}-{j}")
        F = [skeleton(r, f"f{k}") for k in range(per)]
        ops = [inst()] + [call(f"a.f{k}", i32(r.choice([0, 1, 2, 3])), i32(r.randrange(64)), i64(r.choice([0, 5, 6, 2**32]))) for k in range(per) for _ in range(4)]
        out.append(script(f"{pid}skel-{j}", ["(module " + "\n".join(F) + ")"], ops, RW))
    return out
