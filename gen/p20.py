"""P20: parser options and input form never change what a module means."""
from . import idioms, p01, prog
from .core import *

TECHNIQUE = ("TLC trace validation: the specification has no parser options, input form, threads or custom sections, so every module parsed under any of them "
             "(relaid out with custom sections, overlong sizes and padding that reaches the parallel parser) must run as the one semantics says; mutated modules must be accepted or rejected alike under all of them")

FORMS = ["", "form=file", "form=stream", "form=stream1", "form=stream13", "form=stream1000", "form=stream100000"]
VARS = FORMS + ["rw=0", "alloc=0", "rw=0;alloc=0"] + [f"{f};th={t}{o}".lstrip(";") for f, t, o in
        [("", 1, ""), ("", 2, ""), ("", 3, ";rw=0"), ("", 64, ""), ("form=stream", 1, ""), ("form=stream7", 3, ""), ("form=file", 5, ";alloc=0"), ("form=stream1000", 12, ";rw=0"), ("form=file", 2, "")]]


def variants(r, n, pad):
    out = ["", "rw=0", "alloc=0"]
    for _ in range(n):
        v = r.choice(VARS)
        lay = f"lay={r.randrange(1 << 30)}" + r.choice(["c", "l", "cl", ""]) + (f"p{r.choice(pad)}" if pad else "")
        out.append(f"{v};{lay}".lstrip(";"))
    return out


# every instruction that uses a memory, alone in its module
def lone(ck):
    A = {"i": ("i32", "i32.const 5"), "j": ("i64", "i64.const 0x123456789"), "f": ("f32", "f32.const 1.5"), "d": ("f64", "f64.const -2.5"),
         "v": ("v128", "v128.const i32x4 1 2 3 4")}
    L = []
    for t, sfx in (("i32", ["", "8_s", "8_u", "16_s", "16_u"]), ("i64", ["", "8_s", "8_u", "16_s", "16_u", "32_s", "32_u"]), ("f32", [""]), ("f64", [""])):
        for s in sfx:
            L.append(([], [t], f"{t}.load{s}%M"))
            L.append((["l"], [t], f"drop local.get 1 {t}.load{s}%M offset=1"))
            L.append((["l"], [t], f"drop (local.set 2 ({t}.load{s}%M offset=2 (local.get 1))) (local.get 2)", [t]))
            L.append((["l"], [t], f"drop ({t}.load{s}%M offset=2 (local.get 1)) (local.tee 2) drop (local.get 2)", [t]))
    for t, sfx in (("i32", ["", "8", "16"]), ("i64", ["", "8", "16", "32"]), ("f32", [""]), ("f64", [""]), ("v128", [""])):
        for s in sfx:
            c = {"i32": "i32.const 77", "i64": "i64.const 0x1234567890", "f32": "f32.const 3.5", "f64": "f64.const 4.25", "v128": "v128.const i32x4 9 8 7 6"}[t]
            L.append(([], [], f"{c} {t}.store{s}%M"))
            L.append((["l"], [], f"drop (local.set 2 ({c})) ({t}.store{s}%M offset=3 (local.get 1) (local.get 2))", [t]))
    for t, ad in (("i32", "i32.add"), ("i64", "i64.add")):
        L.append((["l"], [], f"drop ({t}.store%M (local.get 1) ({ad} ({t}.load%M (local.get 1)) ({t}.const 3)))"))
        L.append((["l"], [], f"drop ({t}.store%M offset=4 (local.get 1) ({ad} ({t}.load%M offset=4 (local.get 1)) (local.get 2)))", [t]))
    for t in ("f32", "f64"):
        L.append((["l"], [], f"drop ({t}.store%M (local.get 1) ({t}.add ({t}.mul (local.get 2) (local.get 2)) (local.get 2)))", [t]))
    L += [([], ["v128"], "v128.load%M"), (["l"], ["v128"], "drop (v128.load%M offset=8 (local.get 1))"), (["l"], ["v128"], "drop (local.tee 2 (v128.load%M (local.get 1)))", ["v128"]),
          (["l"], ["v128"], "drop (local.set 2 (v128.load%M (local.get 1))) (local.get 2)", ["v128"])]
    for s in ("8x8_s", "8x8_u", "16x4_s", "16x4_u", "32x2_s", "32x2_u", "8_splat", "16_splat", "32_splat", "64_splat", "32_zero", "64_zero"):
        L.append(([], ["v128"], f"v128.load{s}%M"))
    for w in (8, 16, 32, 64):
        L.append(([], ["v128"], f"v128.const i32x4 1 2 3 4 v128.load{w}_lane%M 1"))
        L.append(([], [], f"v128.const i32x4 1 2 3 4 v128.store{w}_lane%M 1"))
    L += [([], ["i32"], "drop memory.size%M"), ([], ["i32"], "memory.grow%M"), ([], [], "i32.const 7 i32.const 20 memory.fill%M"), ([], [], "drop i32.const 8 i32.const 0x1ab i32.const 30 memory.fill%M"),
          (["l"], [], "local.get 1 i32.const 20 memory.fill%M"), ([], [], "i32.const 2 i32.const 20 memory.copy%M%M"), ([], [], "i32.const 0 i32.const 4 memory.init%M $p")]
    k = ["plain", "second", "beforeimp"]
    out = []
    for j, x in enumerate(L):
        r = Rng(f"P20l-{ck.seed}-{j}")
        res, body, loc = x[1], x[2], (x[3] if len(x) > 3 else [])
        shape = k[(j + ck.seed) % 3] if not ck.thorough else r.choice(k)
        pre, mname = "(memory 1 5)", ""
        if shape == "second":
            pre, mname = "(memory 0) (memory $m 1 5)", " $m"
        elif shape == "beforeimp":
            pre, mname = '(import "h" "m" (memory 1)) (memory $m 1 5)', " $m"
        # memory.copy between the imported and the own memory
        code = body.replace("%M", mname) if r.random() < 0.8 or "copy" not in body else body.replace("%M%M", f"{mname} 0" if mname else "")
        code = code.replace("offset=", "offset=") if mname else code
        w = f'(module {pre} (data $p "abcdefgh") (func (export "f") (param i32 i32) {wtypes("result", res)} {wtypes("local", loc)} local.get 0 {code}))'
        two = f'(module {pre} (data $p "abcdefgh") (func (export "f") (param i32 i32) {wtypes("result", res)} {wtypes("local", loc)} local.get 0 {code}) (func (export "z") (result i32) (memory.size{mname})) (func (export "b") (param i32) (result i32) (i32.load8_u{mname} (local.get 0))))'
        ops = [op("mnew", **{"as": "m"}, ty={"it": "i32", "min": 1, "ps": None})] if shape == "beforeimp" else []
        d = [["h", "m", "m"]] if shape == "beforeimp" else None
        ops += [inst(defs=d), inst(2, "b", defs=d)]
        for v in (0, 100, 0xffff, 0x10000, 0xfffffff0):
            ops += [call("a.f", i32(v), i32(v)), call("b.f", i32(v), i32(v))]
        ops += [call("b.z"), call("b.b", i32(100)), call("b.b", i32(103))]
        out.append(script(f"P20l-{j}", [w, two], ops, ["", "alloc=0", "rw=0", "rw=0;alloc=0"]))
    return out


# memories of every use and non-use: exported, imported elsewhere, with segments, by size alone
def unused(ck, c):
    r = Rng(f"P20u-{ck.seed}-{c}")
    n = r.choice([1, 2, 3])
    imp = r.random() < 0.5
    L = ["(module"]
    if imp:
        L.append('(import "h" "m" (memory 1 6))')
    first = 1 if imp else 0
    for j in range(n):
        ex = f'(export "m{j}")' if r.random() < 0.5 else ""
        L.append(f'(memory $m{j} {ex} {r.choice(["0", "1", "1 3", "2 2", "0 0"])})')
    if imp and r.random() < 0.5:
        L.append('(export "im" (memory 0))')
    idle = r.random() < 0.45       # no local memory is used by anything but its exports
    for j in range(n):
        x = 1 if idle else r.random()
        if x < 0.2:
            L.append(f'(data (memory $m{j}) (i32.const {r.choice([0, 9])}) "{r.choice(["", "xyz"])}")')
        elif x < 0.3:
            L.append(f'(data (memory $m{j}) (i32.const 65535) "qq")')
        elif x < 0.5:
            L.append(f'(func (export "z{j}") (result i32) (memory.size $m{j}))')
        elif x < 0.6:
            L.append(f'(func (export "z{j}") (result i32) (memory.grow $m{j} (i32.const 1)))')
        elif x < 0.7:
            L.append(f'(func (export "z{j}") (result i32) (i32.load8_u $m{j} (i32.const 10)))')
    if imp:
        L.append('(func (export "i") (param i32) (result i32) (i32.store8 0 (local.get 0) (i32.const 7)) (i32.load8_u 0 (local.get 0)))')
    L.append('(func (export "k") (result i32) (i32.const 3)))')
    w = "\n".join(L)
    user = '(module (import "a" "m0" (memory $m 0)) (func (export "p") (param i32 i32) (i32.store8 (local.get 0) (local.get 1))) (func (export "q") (param i32) (result i32) (i32.load8_u (local.get 0))) (func (export "g") (result i32) (memory.grow (i32.const 1))))'
    ops = []
    d = None
    if imp:
        ops.append(op("mnew", **{"as": "m"}, ty={"it": "i32", "min": 1, "max": 4, "ps": None}))
        d = [["h", "m", "m"]]
    ops.append(inst(defs=d))
    mo = [call("a.k"), call("a.i", i32(5))]
    for j in range(n):
        mo += [call(f"a.z{j}"), call(f"a.z{j}"), op("m.write", o=f"a.m{j}", off=10, b=[1, 2, 3]), op("m.len", o=f"a.m{j}"), op("m.rex", o=f"a.m{j}", off=8, n=6), op("m.grow", o=f"a.m{j}", d=1),
               op("m.pages", o=f"a.m{j}"), op("m.fill", o=f"a.m{j}", off=65530, n=6, v=9), op("m.copy", o=f"a.m{j}", off=0, s=65528, n=8)]
    mo.append(inst(2, "u", links=[["a", "a"]]))
    r.shuffle(mo)
    ops += mo + [call("u.p", i32(11), i32(200)), call("u.q", i32(11)), call("u.g"), call("u.q", i32(70000)), op("obs")]
    return script(f"P20u-{c}", [w, user], ops, ["", "alloc=0", "alloc=0;rw=0", "mem=paged:4096", "alloc=0;mem=paged:4096", "mem=lazy:vec", "alloc=0;mem=custom"])


# accept and reject alike: random changes to modules large enough for the parallel parser, and to small ones
def parse(ck, c):
    r = Rng(f"P20m-{ck.seed}-{c}")
    m = prog.Mod(r, prog.Opt(nfun=r.choice([2, 9, 14]), simd=r.random() < 0.5, refs=r.random() < 0.5, table=True, tail=0.2, mem=True, size=r.choice([6, 15]), passive=True))
    big = c % 3 != 0
    ops = []
    V = VARS + ["th=2;rw=0;alloc=0", "form=stream1;th=4", "form=stream3;th=12"]
    for _ in range(ck.scale(12, 25)):
        o = op("parse", mod=1, rel=True, cfgs=[""] + r.sample(V, 7), muts=[r.randrange(1 << 40) for _ in range(r.choice([0, 1, 1, 1, 1, 2]))])
        if big:
            o["lay"] = f"{r.randrange(1 << 30)}{r.choice(['', 'c', 'l', 'cl'])}p{r.choice([1200, 2200, 4000])}"
        ops.append(o)
    return script(f"P20m-{c}", [m.wat()], ops, [""])


def scripts(ck):
    out = lone(ck) + [unused(ck, c) for c in range(ck.scale(60, 700))] + [parse(ck, c) for c in range(ck.scale(30, 500))]
    n = ck.scale(36, 700)
    for j, (o, pad) in enumerate([(dict(host=1, nfun=10, tail=0.1), [1700, 2500]), (dict(simd=True, refs=True, nfun=4), [0]), (dict(nfun=16, table=True, bulk=True, passive=True), [1100, 3000])]):
        for i in range(n // 3):
            r = Rng(f"P20p{j}-{ck.seed}-{i}")
            out += p01.programs(ck, f"P20p{j}-{i}", 1, cfgs=variants(r, 5, pad if r.random() < 0.8 else [0]), **o)
    return out
