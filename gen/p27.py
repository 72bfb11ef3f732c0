"""P27: the command line runs and compiles modules as the library does."""
import struct
from decimal import Decimal
from fractions import Fraction

from . import prog
from .core import *
from .p11 import all_exts
from .p26 import Shape, q

CLI = True
TECHNIQUE = ("TLC trace validation with the command line in the loop: the library's own run is checked against the WebAssembly semantics, and the specification's text rules (decimal to value with exact rounding, "
             "value to text) and command rules (start, _start, --invoke, failures, archives, overwriting) then decide the exit status, standard output and files of the command")
NOTE = ("Commands run in a scratch directory with the flags of each engine configuration, all input forms (text, binary, archive, compiled by the command, standard input) and option orders. "
        "Messages on standard error, logging and the dump/wast/completion commands are out of scope.")

NUM = ["i32", "i64", "f32", "f64", "v128"]


def round_to(x, e, m):
    """bits of the float nearest to the fraction x >= 0, ties to even"""
    if x == 0:
        return 0
    bias = (1 << (e - 1)) - 1
    k = x.numerator.bit_length() - x.denominator.bit_length()
    if Fraction(2) ** k > x:
        k -= 1
    k = max(k, 1 - bias)
    n = x / Fraction(2) ** (k - m)
    i = n.numerator // n.denominator
    f = n - i
    if f > Fraction(1, 2) or f == Fraction(1, 2) and i & 1:
        i += 1
    if i >= 1 << (m + 1):
        i >>= 1
        k += 1
    if k > bias:
        return ((1 << e) - 1) << m
    return i if i < 1 << m else (k + bias) << m | i - (1 << m)


def fbits(t, s):
    """the bits a text denotes as type t, or None"""
    e, m = (8, 23) if t == "f32" else (11, 52)
    top = 1 << (e + m)
    u = s.lower()
    sg = 0
    if u[:1] in ("+", "-"):
        sg = top if u[0] == "-" else 0
        u = u[1:]
    if u in ("inf", "infinity"):
        return sg | ((1 << e) - 1) << m
    if u == "nan":
        return sg | ((1 << e) - 1) << m | 1 << (m - 1)
    import re
    g = re.fullmatch(r"([0-9]*)(\.([0-9]*))?(e([+-]?[0-9]+))?", u)
    if not g or not (g[1] or g[3]):
        return None
    d, x = int((g[1] or "") + (g[3] or "")), int(g[5] or 0) - len(g[3] or "")
    x = max(-2000, min(2000, x))
    return sg | round_to(Fraction(d) * Fraction(10) ** x, e, m)


def ibits(w, s):
    import re
    if not re.fullmatch(r"[+-]?[0-9]+", s):
        return None
    x = int(s)
    return x & ((1 << w) - 1) if -(1 << (w - 1)) <= x < 1 << (w - 1) else None


def bits_of(t, s):
    return fbits(t, s) if t[0] == "f" and t != "funcref" else ibits({"i32": 32, "i64": 64, "v128": 128}[t], s) if t in NUM else None


def itext(r, w):
    """a text that may or may not denote an integer of w bits"""
    k = r.random()
    if k < 0.6:
        x = r.choice([0, 1, -1, 7, (1 << (w - 1)) - 1, -(1 << (w - 1)), r.getrandbits(w) - (1 << (w - 1)), r.randrange(-1000, 1000)])
    elif k < 0.8:
        x = r.choice([1 << (w - 1), -(1 << (w - 1)) - 1, (1 << w) - 1, 1 << w, (1 << w) + 5, -(1 << w), 10 ** 45, (1 << (2 * w)) + 1])
    else:
        return r.choice(["", "+", "-", "0x10", "1_000", " 1", "1 ", "1.0", "1e3", "--1", "+-1", "ten", "1i32", "\u0661", "-0", "+0", "null", "0b1", "inf"])
    s = str(x)
    if r.random() < 0.2:
        s = ("-" if x < 0 else r.choice(["+", ""])) + "0" * r.choice([0, 1, 30]) + str(abs(x))
    return s


def ftext(r, t):
    k = r.random()
    if k < 0.15:
        return r.choice(["inf", "-inf", "+inf", "nan", "NaN", "-nan", "Infinity", "-INFINITY", "0", "-0", "+0.0", "-0e10", "1.", ".5", "-.5e1", "1e5", "1E-3", "00001.2500"])
    if k < 0.25:
        return r.choice(["", "+", "-", ".", "e5", "1e", "1e+", "0x1p3", "1_0", " 1", "1 ", "1.2.3", "--1", "nan(1)", "NaN1", "infin", "1f32", "1,5", "\u0661", ".e1", "i", "1e1.0"])
    b = r.bits(t)
    e, m = (8, 23) if t == "f32" else (11, 52)
    if b >> m & ((1 << e) - 1) == (1 << e) - 1:
        b = r.randrange(1 << m)
    if k < 0.5:        # the exact value, or just beside the middle of two
        x = struct.unpack("<f", struct.pack("<I", b))[0] if t == "f32" else struct.unpack("<d", struct.pack("<Q", b))[0]
        if k < 0.35:
            return repr(x)
        f = Decimal(x)
        if k < 0.4:
            return str(f)
        b2 = (b & ~(1 << (e + m))) + 1
        if b2 >> m == (1 << e) - 1:
            return "1e39" if t == "f32" else "1e309"
        y = struct.unpack("<f", struct.pack("<I", b2))[0] if t == "f32" else struct.unpack("<d", struct.pack("<Q", b2))[0]
        import decimal
        with decimal.localcontext() as c:
            c.prec = 1200
            mid = (Decimal(abs(x)) + Decimal(y)) / 2
            if mid.adjusted() < -60:        # keep the texts short
                return repr(x)
            mid += r.choice([0, 0, 1, -1]) * Decimal(1).scaleb(mid.adjusted() - 160)
            return ("-" if x < 0 else "") + (format(mid, "f") if r.random() < 0.3 else str(mid))
    if k < 0.7:
        return f"{r.choice(['', '-', '+'])}{r.getrandbits(r.choice([4, 20, 60, 100]))}.{r.getrandbits(r.choice([4, 20, 60]))}"
    if k < 0.9:
        return f"{r.choice(['', '-'])}{r.getrandbits(30)}e{r.choice([0, 1, -1, 10, -10, 30, -55, 38, -38, -45, 300, -320, -400, 400, 99999])}"
    return r.choice(["340282346638528859811704183484516925440", "3.4028235677973366e38", "3.4028235677973367e38", "1.401298464324817e-45", "7.006492321624085e-46", "7.006492321624086e-46",
                     "1.7976931348623157e308", "1.7976931348623159e308", "1.797693134862315807e308", "4.9e-324", "2.47e-324", "2.4703282292062327208e-324", "2.4703282292062328e-324",
                     "2.2250738585072011e-308", "16777217", "16777219", "9007199254740993", "0.1", "1.1754942e-38"])


def text(r, t):
    if t in ("f32", "f64"):
        return ftext(r, t)
    if t in NUM:
        return itext(r, {"i32": 32, "i64": 64, "v128": 128}[t])
    return r.choice(["null", "0", "1", "ref.null"])


def good(r, t):
    while True:
        s = text(r, t)
        if t not in NUM:
            return s
        b = bits_of(t, s)
        if b is not None:
            return s


FORMS = ["wat", "wasm", "twasm", "compiled", "wat-", "wasm-", "twasm-"]


class Runs:
    """Command runs on one module, each in a store of its own."""

    def __init__(self, r, start, forms=None, mod=1, inst_ok=True):
        self.r, self.ops, self.n, self.start, self.forms = r, [], 0, start, forms or FORMS
        self.mod = mod

    def run(self, inv=None, sig=None, args=(), flags=None, form=None, bad=False, main=False):
        r = self.r
        self.n += 1
        a = f"r{self.n}"
        self.ops += [op("use", s=self.n), inst(self.mod, a, ns=True, noimp=True)]
        if not bad:
            if self.start:
                self.ops.append(op("start", i=a))
            if inv is None and main and not self.start:
                self.ops.append(call(f"{a}._start"))
            if inv is not None and sig is not None and len(args) == len(sig):
                bs = [bits_of(t, s) for t, s in zip(sig, args)]
                if None not in bs:
                    self.ops.append(call(f"{a}.{inv}", *[val(t, b) for t, b in zip(sig, bs)]))
        self.ops.append(op("cli", mod=self.mod, inv=inv, args=list(args), form=form or r.choice(self.forms), style=r.randrange(32),
                           flags=flags or [], bad=bad))

    def script(self, id, wats, cfgs):
        return script(id, wats, self.ops, cfgs, ns=max(1, self.n))


CFGS = ["", "mem=vec", "mem=paged:65536", "mem=paged:512", "mem=paged:1;fp=w", "oom=1", "vs=fixed:400;vm=1", "vs=dyn:4:300;vm=1", "call=fixed:40", "call=dyn:2:30",
        "fp=w;mem=vec;oom=1;call=dyn:1:1000;vs=dyn:1:4000", "fp=p;vs=fixed:5000"]
BADFLAGS = [["--memory-backend", "disk"], ["--memory-backend", "paged", "--memory-page-chunk-size", "0"], ["--memory-backend", "paged", "--memory-page-chunk-size", "100"], ["--value-stack-dynamic", "5:3"], ["--value-stack-dynamic", "5"],
            ["--value-stack-dynamic", "a:9"], ["--call-stack-dynamic", "9:x"], ["--call-stack-size", "x"], ["--value-stack-size", "-3"], ["--fuel-policy", "free"],
            ["--value-stack-size", "9", "--value-stack-dynamic", "1:9"], ["--call-stack-size", "9", "--call-stack-dynamic", "1:9"], ["--memory-page-chunk-size", "x"],
            ["--no-such-option"], ["--call-stack-dynamic", "9:8"]]


def values(ck):
    """Texts of every type through identity functions and past arithmetic, alone and together."""
    out = []
    for k in range(ck.scale(60, 500)):
        r = Rng(f"p27v-{ck.seed}-{k}")
        fs, sigs = [], {}
        for t in NUM:
            fs.append(f'(func (export "id_{t}") (param {t}) (result {t}) local.get 0)')
            sigs[f"id_{t}"] = [t]
        fs.append('(func (export "two") (param f32 f64) (result f64 f32) local.get 1 local.get 0)')
        fs.append('(func (export "sum") (param i32 i64 f32 f64) (result i32 i64 f32 f64) local.get 0 i32.const 1 i32.add local.get 1 i64.const -1 i64.mul local.get 2 f32.const 2 f32.div local.get 3 f64.neg)')
        fs.append('(func (export "nothing") (param i32))')
        fs.append('(func (export "refs") (param i32) (result funcref externref i32) ref.null func ref.null extern local.get 0)')
        fs.append('(func (export "fref") (result funcref) ref.func 0) (elem declare func 0)')
        fs.append('(func (export "takes") (param externref) (result i32) i32.const 3)')
        fs.append('(func (export "takesf") (param i32 funcref) (result i32) i32.const 3)')
        sigs.update(two=["f32", "f64"], sum=["i32", "i64", "f32", "f64"], nothing=["i32"], refs=["i32"], fref=[], takes=["externref"], takesf=["i32", "funcref"])
        perm = [r.choice(NUM) for _ in range(r.randrange(2, 7))]
        fs.append(f'(func (export "rev") {wtypes("param", perm)} {wtypes("result", perm[::-1])} {" ".join(f"local.get {i}" for i in reversed(range(len(perm))))})')
        sigs["rev"] = perm
        R = Runs(r, False)
        for _ in range(14):
            f = r.choice(list(sigs))
            if r.random() < 0.5:
                f = "id_" + r.choice(NUM)
            a = [good(r, t) for t in sigs[f]]
            z = r.random()
            if z < 0.35 and a:
                j = r.randrange(len(a))
                a[j] = text(r, sigs[f][j])
            elif z < 0.42:
                a = a + ["1"]
            elif z < 0.48 and a:
                a.pop()
            R.run(f, sigs[f], a)
        out.append(R.script(f"P27/val/{k}", ["(module " + "\n".join(fs) + ")"], [r.choice(CFGS)]))
    return out


def mains(ck):
    """Entry points: start functions, `_start`, both, neither; exports that are no functions; failing instantiation."""
    out = []
    n = 0
    for k in range(ck.scale(80, 500)):
        r = Rng(f"p27m-{ck.seed}-{k}")
        start, under = r.random() < 0.5, r.choice(["no", "no", "yes", "mem", "trap", "params"])
        fs = ['(memory (export "mem") 1)', '(global $g (export "g") (mut i32) (i32.const 5))', '(table (export "tab") 2 funcref)']
        traps = start and r.random() < 0.4
        if start:
            body = r.choice(["unreachable", "i32.const 1 i32.const 0 i32.div_u drop", "i32.const 65536 i32.load drop", "(call $st)"]) if traps else "global.get $g i32.const 10 i32.add global.set $g"
            fs.append(f"(func $st {body}) (start $st)")
        if under == "yes":
            fs.append('(func (export "_start") global.get $g i32.const 1 i32.add global.set $g)')
        elif under == "trap":
            fs.append('(func (export "_start") (table.set 0 (i32.const 2) (ref.null func)))')
        elif under == "mem":
            fs.append('(export "_start" (memory 0))')
        elif under == "params":
            fs.append('(func (export "_start") (param i32))')
        name = r.choice(["get", "a b", "\u00e9\u65e5", "-x", "--help", "run", "", "mem2", "=", "x=y"])
        fs.append(f'(func (export {q(name)}) (param i32) (result i32 i32) (global.get $g) (local.get 0))')
        fs.append('(func (export "boom") (param i32) (result i32) (i32.div_s (i32.const 1) (local.get 0)))')
        fs.append('(func $rec (export "rec") (param i32) (result i32) (if (result i32) (local.get 0) (then (i32.add (i32.const 1) (call $rec (i32.sub (local.get 0) (i32.const 1))))) (else (i32.const 0))))')
        fs.append('(func (export "grow") (param i32) (result i32 i32) (memory.grow (local.get 0)) (memory.size))')
        z = r.random()
        if z < 0.1:
            fs.append('(data (i32.const 65530) "12345678")')
        elif z < 0.2:
            fs.append('(elem (i32.const 1) func $rec $rec)')
        elif z < 0.3:
            fs.insert(0, '(import "m" "n" (func))')
        R = Runs(r, start)
        for _ in range(5):
            z = r.randrange(9)
            if z == 0:
                R.run(main=under in ("yes", "trap"))
            elif z == 1:
                R.run(name, ["i32"], [good(r, "i32")])
            elif z == 2:
                R.run("boom", ["i32"], [r.choice(["0", "1", "-1", "2", "x"])])
            elif z == 3:
                R.run(r.choice(["mem", "g", "tab", "none", "Rec", "rec ", "st"]), None, r.choice([[], ["1"]]))
            elif z == 4:
                R.run("rec", ["i32"], [r.choice(["0", "5", "25", "50", "300", "-1"])])
            elif z == 5:
                R.run("grow", ["i32"], [r.choice(["0", "1", "3", "-1", "65536"])])
            elif z == 6:
                R.run(r.choice([name, "boom", None]), None, [], flags=r.choice(BADFLAGS), bad=True)
            elif z == 7:
                R.run("boom", None, ["1"], form=r.choice(["junk", "missing", "junk-"]), bad=True)
            else:
                R.run("_start", [] if under in ("yes", "trap") else ["i32"] if under == "params" else None, ["4"] if under == "params" else [])
        cfgs = [r.choice(CFGS[:2] + CFGS[2:5]), r.choice(CFGS)]
        out.append(R.script(f"P27/main/{n}", ["(module " + "\n".join(fs) + ")"], cfgs))
        n += 1
    return out


def programs(ck):
    out = []
    for k in range(ck.scale(40, 400)):
        r = Rng(f"p27p-{ck.seed}-{k}")
        o = prog.Opt(simd=r.random() < 0.3, trap=r.choice([0.0, 0.05]), table=r.random() < 0.5, mem=r.choice([0, 1, 1, 2]), mem64=r.random() < 0.2, size=r.choice([10, 26]), nfun=3)
        m = prog.Mod(r, o)
        wat = m.wat()
        R = Runs(r, False)
        for _ in range(6):
            j = r.randrange(len(m.sigs))
            p = list(m.sigs[j][0])
            R.run(f"e{j}", p, [good(r, t) for t in p])
        s = R.script(f"P27/prog/{k}", [wat], [r.choice(CFGS), r.choice(CFGS[:6])])
        out.append(s)
    return out


def compiles(ck):
    """Every kind of input and output, present or not, forced or not."""
    out = []
    srcs = ["wat", "wasm", "wat-", "wasm-", "twasm", "twasm-", "junk", "missing", "junk-", "compiled"]
    dsts = ["default", "file", "-", "nodir", "dir"]
    for k in range(ck.scale(2, 12)):
        r = Rng(f"p27c-{ck.seed}-{k}")
        wats = ['(module)', '(module (func (export "f") (result i32) i32.const 7))', prog.Mod(r, prog.Opt(size=20, nfun=3)).wat()]
        ops = []
        for src in srcs:
            for dst in dsts:
                for exists in (False, True):
                    for force in (False, True):
                        if dst == "-" and exists:
                            continue
                        ops.append(op("comp", mod=r.randrange(1, 4), src=src, dst=dst, exists=exists, force=force, style=r.randrange(16), old=r.choice(["old", "", "TWASxxxx", "x" * 5000])))
        r.shuffle(ops)
        for i in range(0, len(ops), 40):
            out.append(script(f"P27/comp/{k}.{i // 40}", wats, ops[i:i + 40]))
    return out


def limits(ck):
    """Every flag that sets a limit, with runs on both sides of it: losing the flag, its first or its second number shows."""
    out = []
    flags = ["call=fixed:40", "call=dyn:2:30", "call=dyn:30:3000", "call=fixed:2000", "call=fixed:1", "vs=fixed:400;vm=1", "vs=dyn:4:300;vm=1", "vs=fixed:40;vm=1", "vs=dyn:40:9000;vm=1",
             "vs=fixed:60;call=dyn:2:30;vm=1", "oom=1", "oom=1;mem=vec", "oom=1;mem=paged:128", "call=dyn:2:30;oom=1;mem=vec", "vs=fixed:90;vm=1;mem=paged:4096;fp=w"]
    for k, cfg in enumerate(flags * ck.scale(1, 6)):
        r = Rng(f"p27l-{ck.seed}-{k}")
        wide = r.choice(NUM)
        wat = f"""(module (memory (export "mem") 1 3)
            (func $rec (export "rec") (param i32) (result i32) (if (result i32) (local.get 0) (then (i32.add (i32.const 1) (call $rec (i32.sub (local.get 0) (i32.const 1))))) (else (i32.const 0))))
            (func $fat (export "fat") (param i32) (result i32) (local {' '.join([wide] * r.choice([1, 7, 30]))})
              (if (result i32) (local.get 0) (then (i32.add (i32.const 1) (call $fat (i32.sub (local.get 0) (i32.const 1))))) (else (i32.const 0))))
            (func (export "grow") (param i32) (result i32 i32) (memory.grow (local.get 0)) (memory.size))
            (func (export "_start") (drop (call $rec (i32.const 33)))))"""
        R = Runs(r, False)
        if "oom" in cfg:
            for g in ("0", "1", "2", "3", "-1", "65535"):
                R.run("grow", ["i32"], [g])
        if "call" in cfg or "vs" in cfg:
            for d in (0, 1, 5, 20, 28, 35, 45, 100, 300, 900, r.choice([1990, 2010, 2990, 3010])):
                R.run("rec", ["i32"], [str(d)])
            for d in r.sample([0, 1, 2, 5, 10, 20, 38, 42, 60, 200, 500], 4):
                R.run("fat", ["i32"], [str(d)])
        R.run(main=True)
        out.append(R.script(f"P27/lim/{k}", [wat], [cfg]))
    return out


def listings(ck):
    """The listing of modules with every kind of import and export."""
    exts = all_exts()
    out = []
    for k in range(ck.scale(30, 300)):
        r = Rng(f"p27i-{ck.seed}-{k}")
        wats, ops = [], []
        for j in range(3):
            x = Shape(r, exts, k % 5 == 0)
            w = x.wat(r.random() < 0.3) if (k, j) != (0, 0) else "(module)"
            wats.append(w)
            for form in r.sample(FORMS, 2):
                ops.append(op("insp", mod=j + 1, form=form))
            if r.random() < 0.1:
                ops.append(op("insp", mod=j + 1, form=r.choice(["junk", "missing", "junk-"]), bad=True))
        s = script(f"P27/list/{k}", wats, ops)
        # what ends or hides a line on a terminal is left out of names
        for c, d in (("\\u{0}", "nul"), ("\\u{9}", "tab")):
            s["mods"] = [dict(m, wat=m["wat"].replace(c, d)) for m in s["mods"]]
        out.append(s)
    return out


def scripts(ck):
    out = listings(ck) + values(ck) + mains(ck) + limits(ck) + programs(ck) + compiles(ck)
    ck.coverage["command_runs"] = sum(sum(o["op"] in ("cli", "comp", "insp") for o in s["ops"]) * len(s["cfgs"]) for s in out)
    return out
