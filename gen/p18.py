"""P18: configured stack limits are enforced by traps and never crash the host."""
import json
from . import p01, p14
from .core import *

TECHNIQUE = ("TLC trace validation with the three value stacks and the call stack as part of the specification's state: recursion with every mix of locals, pending operands, widths, indirect and "
             "tail calls, other modules and host functions, under fixed and growing limits; the specification says where an overflow must happen and where it may")
NT = ["i32", "i64", "f32", "f64", "v128"]
AT = NT + ["funcref", "externref"]


def zero(r, t):
    return {"funcref": "ref.null func", "externref": "ref.null extern"}.get(t) or const(t, r.bits(t))


def wide(r, ts):
    return wtypes("local", ts)


class Fun:
    """A recursive function f(depth, ...): counts its calls, keeps operands across the recursion."""

    def __init__(self, r, j, callee, how, big=0):
        self.p = ["i32"] + [r.choice(AT) for _ in range(r.choice([0, 0, 1, 3, 6]))]
        self.q = [r.choice(NT) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        self.l = [r.choice(AT) for _ in range(r.choice([0, 1, 4, 12]))] + [r.choice(AT)] * big
        self.k = [r.choice(NT) for _ in range(r.choice([0, 0, 1, 3, 9]))]
        self.j = j


def recursion(ck, c, cfgs, n):
    r = Rng(f"P18-{ck.seed}-{c}")
    big = r.choice([0, 0, 0, 0, 30, 200])
    nf = r.randint(1, 3)
    fs = [Fun(r, j, None, None, big if r.random() < 0.6 else 0) for j in range(nf)]
    res = fs[0].q
    for f in fs:
        f.q = res
        if r.random() < 0.5:
            f.p = fs[0].p
    ps = " ".join
    L = []
    tails = r.random() < 0.4
    deep = 90 if tails else 100000
    pushw = r.choice([0, 0, 5, 25])
    for f in fs:
        g = r.choice(fs)
        p, q = " ".join(f.p), " ".join(f.q)
        x = []
        np = len(f.p)
        x.append("(global.set $n (i32.add (global.get $n) (i32.const 1)))")
        for i, t in enumerate(f.l[:6]):
            if t in NT:
                x.append(f"(local.set {np + i} {{}})".format(f"({const(t, r.bits(t))})") if False else f"{const(t, r.bits(t))} local.set {np + i}")
        base = f"(if (i32.eqz (local.get 0)) (then {' '.join(const(t, r.bits(t)) for t in f.q)} return))"
        if tails or r.random() < 0.8:
            x.append(base)
        # operands that wait
        ks = []
        for t in f.k:
            src = [i for i, y in enumerate(f.p) if y == t]
            ks.append(f"local.get {r.choice(src)}" if src else const(t, r.bits(t)))
        x += ks
        if pushw and r.random() < 0.5:
            t = r.choice(NT)
            x += [const(t, r.bits(t)) for _ in range(pushw)] + ["drop"] * pushw
        x.append("local.get 0 i32.const 1 i32.sub")
        for t in g.p[1:]:
            src = [i for i, y in enumerate(f.p) if y == t and i]
            x.append(f"local.get {r.choice(src)}" if src and r.random() < 0.8 else zero(r, t))
        how = r.choice(["call", "call", "ind", "host", "other", "tail", "tind"])
        if how == "call":
            x.append(f"call $f{g.j}")
        elif how == "ind":
            x.append(f"i32.const {g.j} call_indirect (type $t{g.j})")
        elif how == "host" and g is fs[0]:
            x.append("call $h")
        elif how == "tail" and tails:
            x.append(f"return_call $f{g.j}")
        elif how == "tind" and tails:
            x.append(f"i32.const {g.j} return_call_indirect (type $t{g.j})")
        else:
            x.append(f"call $g{g.j}")
        if how in ("tail", "tind") and "return" in x[-1]:
            body = " ".join(x)
        else:
            body = " ".join(x)
            if f.k:     # drop what waits below the results
                tmp = len(f.p) + len(f.l)
                body += " " + " ".join(f"local.set {tmp + i}" for i in reversed(range(len(f.q)))) + " drop" * len(f.k) + " " + " ".join(f"local.get {tmp + i}" for i in range(len(f.q)))
                f.l = f.l + f.q
        L.append(f'(type $t{f.j} (func (param {p}) (result {q})))' if f.q else f'(type $t{f.j} (func (param {p})))')
        f.body = body
    sig = lambda f: f"(param {' '.join(f.p)})" + (f" (result {' '.join(f.q)})" if f.q else "")
    imp = f'(import "h" "h" (func $h {sig(fs[0])}))'
    own, glob = "", '(global $n (export "n") (mut i32) (i32.const 0))'
    for f in fs:        # $g: an intermediate function
        own += f'(func $f{f.j} (export "f{f.j}") {sig(f)} {wide(r, f.l)} {f.body})\n'
        own += f'(func $g{f.j} (export "g{f.j}") {sig(f)} (local i64 v128) {" ".join(f"local.get {i}" for i in range(len(f.p)))} {r.choice(["call", "call", "return_call"] if tails else ["call"])} $f{f.j})\n'
    w = f'(module {" ".join(L)} {imp} {glob} (table {nf} funcref) (elem (i32.const 0) {" ".join(f"$f{f.j}" for f in fs)})\n{own}' \
        f' (func (export "k") (param i32) (result i32 i64 v128) (local f64) local.get 0 i64.const 5 v128.const i32x4 1 2 3 4)\n' \
        f' (func (export "spin") (param i32) (result i32) (loop (br_if 0 (local.tee 0 (i32.sub (local.get 0) (i32.const 1))))) (local.get 0)))'.replace("(elem (i32.const 0) $", "(elem (i32.const 0) func $")
    w = w[:-1] + ' (func (export "wide") @W@))'
    args = {f.j: [NULLF if t == "funcref" else val("externref", 3) if t == "externref" else r.v(t) for t in f.p[1:]] for f in fs}
    f0 = fs[0]
    go = {"noin": True, "ops": [call("a." + r.choice(["f0", "g0"]), *[{"arg": i} for i in range(len(f0.p))], **{"as": "n"})], "ret": [r.v(t) for t in f0.q]}
    if r.random() < 0.6:
        go["prop"] = True
    wd = [r.choice(NT) for _ in range(r.choice([1, 4, 12, 30]))]
    wr = wd[:r.choice([0, 1, len(wd)])]
    if r.random() < 0.5:            # the arguments alone may be too many
        go["ops"].insert(r.randrange(2), call("a.wide", *[r.v(t) for t in wd]))
    w = w.replace("@W@", f'{wtypes("param", wd)} {wtypes("result", wr)} {wtypes("local", [r.choice(AT) for _ in range(r.choice([0, 2, 12, 40, 100]))])} ' + " ".join(f"local.get {i}" for i in range(len(wr))))
    dep = r.choice([0, 1, 5, 60])
    stop = {"noin": True, "ret": [r.v(t) for t in f0.q]}
    ops = [hnew("h", f0.p, f0.q, [go] * dep + [stop]), inst(1, "a", defs=[["h", "h", "h"]]), inst(1, "b", defs=[["h", "h", "h"]])]
    i = r.randrange(nf)
    d0 = r.choice([3, 10, 25, 60, deep])
    first = call(f"a.f{i}", i32(d0), *args[i])
    for j in range(n):
        k = r.randrange(8)
        f = r.randrange(nf)
        d = r.choice([0, 1, 3, 10, 20, 30, 45, 60, 100, deep])
        q = call(f"{r.choice('aab')}.{r.choice('fg')}{f}", i32(d), *args[f])
        if k == 0:
            q = call("a.k", i32(d))
        elif k == 1:
            q = rcall(q["f"], *q["args"], sched=[{"k": "f", "b": b} for b in (1, 200)], **({"drop": 1} if r.random() < 0.3 else {}))
        elif k == 2:
            q = call("a.spin", i32(r.choice([5, 300])))
        ops += [q, op("gget", i="a", n="n")]
    return script(f"P18-{c}", [w], ops, cfgs)


# the depth reached does not depend on what ran before
def again(ck, c, cfgs):
    r = Rng(f"P18a-{ck.seed}-{c}")
    k = [r.choice(AT) for _ in range(r.choice([0, 1, 3, 10, 40]))]
    p = [r.choice(NT) for _ in range(r.choice([1, 2, 4]))]
    w = (f'(module (global $n (export "n") (mut i32) (i32.const 0)) (func $r (export "r") (param {" ".join(p)}) (result i64) {wtypes("local", k)} (global.set $n (i32.add (global.get $n) (i32.const 1)))'
         f' (i64.add (i64.const 3) (call $r {" ".join(f"(local.get {i})" for i in range(len(p)))})))'
         ' (func (export "t") (global.set $n (i32.const 0)))'
         ' (func $s (export "s") (param i32) (result i64) (local v128 i64) (if (result i64) (i32.eqz (local.get 0)) (then (unreachable)) (else (i64.add (i64.const 1) (call $s (i32.sub (local.get 0) (i32.const 1)))))))'
         ' (func $u (export "u") (param i32 i64) (result v128 i64 i32) (local f64 v128) (if (i32.eqz (local.get 0)) (then (return (local.get 3) (i64.const 5) (i32.const 1)))) (call $u (i32.sub (local.get 0) (i32.const 1)) (i64.const 8)))'
         ' (func (export "loop") (loop (br 0))) (func (export "many") (result i32 i64 v128 i32 i64 v128) i32.const 1 i64.const 1 v128.const i64x2 1 2 i32.const 1 i64.const 1 v128.const i64x2 1 2))')
    meas = [call("a.t"), call("a.r", *[r.v(t) for t in p]), op("gget", i="a", n="n")]
    ops = [inst(1, "a")]
    for _ in range(4):
        ops += meas
        for _ in range(r.randint(1, 3)):
            ops.append(r.choice([call("a.s", i32(r.choice([3, 10]))), call("a.u", i32(r.choice([2, 9, 500])), i64(4)), rcall("a.loop", sched=[], rest={"k": "f", "b": 1}, drop=1), call("a.many"), call("a.r", i32(1)),
                                 rcall("a.u", i32(9), i64(1), rest={"k": "f", "b": 1}), rcall("a.s", i32(9), rest={"k": "f", "b": 1}), inst(1, f"b{len(ops)}")]))
    return script(f"P18a-{c}", [w], ops + meas, cfgs)


# tail calls use no stack; wide functions; many arguments
def fixed(ck, c, cfgs):
    r = Rng(f"P18f-{ck.seed}-{c}")
    t = r.choice(NT)
    n = r.choice([5, 15, 30, 60])
    z = r.choice(["i32", "i64", "v128"])
    w = (f'(module (table 2 funcref) (elem (i32.const 0) func $t $u) (type $t (func (param i32 {t}) (result {t})))'
         f' (func $t (export "t") (param i32 {t}) (result {t}) {wtypes("local", [r.choice(AT) for _ in range(r.choice([0, 3, 8]))])} (if (i32.eqz (local.get 0)) (then (return (local.get 1)))) (i32.sub (local.get 0) (i32.const 1)) (local.get 1) {r.choice(["return_call $u", "(i32.const 1) return_call_indirect (type $t)"])})'
         f' (func $u (export "u") (param i32 {t}) (result {t}) {wtypes("local", [r.choice(AT) for _ in range(r.choice([0, 3, 8]))])} {"".join(const(z, r.bits(z)) + " " for _ in range(r.choice([0, 3, 9])))} (if (i32.eqz (local.get 0)) (then (return (local.get 1)))) (i32.sub (local.get 0) (i32.const 1)) (local.get 1) {r.choice(["return_call $t", "(i32.const 0) return_call_indirect (type $t)"])})'
         f' (func (export "w") (param {t}) (result {t}) {"local.get 0 " * n} {"drop " * (n - 1)})'
         f' (func (export "args") (param {" ".join([z] * n)}) (result {" ".join([z] * n)}) {" ".join(f"local.get {n - 1 - i}" for i in range(n))})'
         f' (func (export "loop") (param i32) (result i32) (local {t}) (loop {("local.get 1 " * min(n, 12)) + "drop " * min(n, 12)} (br_if 0 (local.tee 0 (i32.sub (local.get 0) (i32.const 1))))) (local.get 0))'
         f' (func (export "blk") (param {t} i32) (result {t}) (block (result {t}) {"local.get 0 " * n} (br_table 0 0 (local.get 1)))))')
    ops = [inst(1, "a")]
    for _ in range(5):
        k = r.randrange(6)
        a = r.v(t)
        if k == 0:
            q = call(r.choice(["a.t", "a.u"]), i32(r.choice([0, 3, 100, 400])), a)
        elif k == 1:
            q = call("a.w", a)
        elif k == 2:
            q = call("a.args", *[r.v(z) for _ in range(n)])
        elif k == 3:
            q = call("a.loop", i32(r.choice([1, 50])))
        elif k == 4:
            q = call("a.blk", a, i32(r.choice([0, 1])))
        else:
            q = rcall("a.t", i32(100), a, rest={"k": "f", "b": 1})
        ops.append(q)
    return script(f"P18f-{c}", [w], ops, cfgs)


def limits(r):
    def one(hi):
        b = r.choice([8, 20, 40, 64, 100, 300, hi])
        return f"fixed:{b}" if r.random() < 0.5 else f"dyn:{r.choice([0, 1, 2, b // 2, b])}:{b}"
    k = r.randrange(5)
    if k == 0:
        v = f"vs={one(400)}"
    elif k == 1:
        v = f"{r.choice(['v32', 'v64', 'v128'])}={one(400)}"
    else:
        v = ";".join(f"{x}={one(500)}" for x in ("v32", "v64", "v128"))
    d = r.choice([10, 30, 60, 90])
    return f"vm=1;{v};call={r.choice([f'fixed:{d}', f'dyn:0:{d}', f'dyn:{d // 2}:{d}'])}"


def post(ck, lines, byid):
    out = []
    for l in lines:
        c = json.loads(l)
        if c["id"].startswith("P18a-"):
            ev = c["ev"]
            got, last = [], None
            for e in ev:
                if e["op"] in ("g.get", "gget") and "v" in e:
                    got.append(sum(x << 8 * i for i, x in enumerate(e["v"]["v"])))
            for x in got[1:]:
                ev += [{"op": "wless", "a": x, "b": got[0]}, {"op": "wless", "a": got[0], "b": x}]
            ck.coverage["depth_comparisons"] = ck.coverage.get("depth_comparisons", 0) + len(got)
        out.append(json.dumps(c, separators=(",", ":")) + "\n")
    return out


def scripts(ck):
    out = []
    for c in range(ck.scale(60, 1200)):
        r = Rng(f"P18l-{ck.seed}-{c}")
        l = limits(r)
        out.append(recursion(ck, c, [l, "rw=0;" + limits(r)], ck.scale(5, 7)))
    for c in range(ck.scale(30, 300)):
        r = Rng(f"P18m-{ck.seed}-{c}")
        out.append(again(ck, c, [limits(r), "rw=0;" + limits(r)] + (["vm=1"] if c % 6 == 0 else [])))
        out.append(fixed(ck, c, [limits(r), "rw=0;" + limits(r)]))
    for c in range(ck.scale(24, 500)):
        r = Rng(f"P18q-{ck.seed}-{c}")
        out += [dict(s, id=f"P18p-{c}") for s in p01.programs(ck, f"P18p{c}", 1, 4, [limits(r), "rw=0;" + limits(r)], simd=True, refs=r.random() < 0.5, host=1, tail=0.1, maxargs=r.choice([3, 9]))]
    return out
