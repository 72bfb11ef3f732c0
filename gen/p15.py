"""P15: resumable execution equals an ordinary call under any schedule."""
from . import prog, twins
from .core import *

TECHNIQUE = ("TLC trace validation: generated programs run through the resumable interface under many schedules of fuel and time budgets, abandoned at arbitrary suspensions, "
             "resumed after their end; the specification executes the same call without suspensions, and looks for a reachable state when one is abandoned")


def sched(r, n=None):
    """a schedule of budgets"""
    k = r.randrange(9)
    if k == 0:
        return dict(sched=[], rest={"k": "f", "b": 1})
    if k == 1:
        return dict(sched=[{"k": "f", "b": 0}] * r.randint(1, 3), rest={"k": "f", "b": r.choice([1, 127, 128, 129, 200])})
    if k == 2:
        return dict(sched=[{"k": "t", "b": 0}], rest={"k": "t", "b": 1})
    if k == 3:
        return dict(sched=[{"k": r.choice("ft"), "b": r.choice([0, 1, 1, 100, 128, 129, 256, 300])} for _ in range(r.randint(2, 12))], rest={"k": "f", "b": r.choice([1, 1000])})
    if k == 4:
        return dict(sched=[{"k": "f", "b": 1}] * r.randint(1, 6), rest={"k": "t", "b": 10**9})
    if k == 5:
        return dict(sched=[{"k": "f", "b": r.randint(1, 600)} for _ in range(5)])
    if k == 6:
        return dict(sched=[{"k": "f", "b": 2**32 - 1}])
    if k == 7:
        return dict(sched=[{"k": "t", "b": 1}] * 3, rest={"k": "f", "b": 1})
    return dict(sched=[{"k": "f", "b": 1}], rest={"k": "f", "b": 0xFFFFFF})


def resumed(r, c):
    """A call turned into a resumable one."""
    o = dict(c, op="rcall", **sched(r))
    if r.random() < 0.18:
        o["drop"] = r.choice([0, 1, 1, 2, 3, 5])
        if o["drop"] and r.random() < 0.5:
            o["sched"], o["rest"] = [], {"k": "f", "b": r.choice([1, 1, 140])}
    elif r.random() < 0.3:
        o["after"] = r.randint(1, 3)
    if r.random() < 0.4:
        o["typed"] = True
    return o


def programs(ck, pid, count, cfgs, k=2, **opts):
    out = []
    for j in range(count):
        r = Rng(f"{pid}-{ck.seed}-{j}")
        o = {x: (v(r) if callable(v) else v) for x, v in opts.items()}
        m = prog.Mod(r, prog.Opt(**o))
        w = m.wat()
        hops, defs = m.host_ops(4)
        for h in hops:          # host functions that charge fuel, look at the rest and call back
            for b in h["beh"]:
                b.setdefault("noin", False)
                if r.random() < 0.3:
                    b["ops"] = [r.choice([op("rem"), op("charge", n=r.choice([0, 1, 50, 127, 128, 5000])), call(f"a.e{r.randrange(m.n)}", i32(0)), op("obs")]) for _ in range(r.randint(1, 2))]
        ops = hops + [inst(defs=defs)]
        for c in m.calls(k=k):
            if r.random() < 0.25:
                ops.append(c)
            ops.append(resumed(r, c) if r.random() < 0.85 else c)
            if r.random() < 0.15:
                ops.append(op("obs"))
        out.append(script(f"{pid}-{j}", [w], ops, cfgs[j % len(cfgs)]))
    return out


# a short computation across two modules and the host, after a prefix of each length: every position
# is a suspension point of some variant
AMOD = """(module (import "b" "g" (func $bg (param i32 i64) (result i64))) (import "b" "tail" (func $bt (param i64) (result i64))) (import "h" "h" (func $h (param i32 i64) (result i64)))
 (import "b" "t" (table $t 4 funcref))
 (global $n (export "n") (mut i32) (i32.const 0)) (global $z (mut i32) (i32.const 0)) (memory (export "m") 1)
 (func $self (param i32 i64) (result i64) (if (result i64) (local.get 0) (then {SELF} (i32.sub (local.get 0) (i32.const 1)) (i64.add (local.get 1) (i64.const 3)) {CS}) (else (local.get 1))))
 (func $leaf (param i64 v128) (result i64) (local i64 f32 v128) (local.set 4 (local.get 1)) (local.set 2 (i64x2.extract_lane 1 (local.get 4))) (i64.xor (local.get 2) (local.get 0)))
 (func $multi (param i32) (result i32 i64 f32) (i32.store (i32.const 8) (local.get 0)) (i32.load (i32.const 8)) (i64.extend_i32_s (local.get 0)) (f32.convert_i32_u (local.get 0)))
 (func $body (param $x i32) (param $y i64) (result i64) (local $w i64)
  i64.const 1000 v128.const i64x2 7 9 local.get $x local.get $y
  global.get $n i32.const 1 i32.add global.set $n
  {STEPS}
  local.set $w drop i64x2.extract_lane 0 i64.add local.get $w i64.add)
 {FUNS})"""
BMOD = """(module (global $n (export "n") (mut i32) (i32.const 100)) (memory (export "m") 1) (table (export "t") 4 funcref) (elem (i32.const 0) func $g2 $tl)
 (func $in (param i64) (result i64) (local f64) global.get $n i32.const 3 i32.add global.set $n local.get 0 i64.const 5 i64.mul)
 (func $g2 (param i32 i64) (result i64) (i64.store (i32.const 16) (local.get 1)) (call $in (i64.load (i32.const 16))))
 (func $g (export "g") (param i32 i64) (result i64) (local v128 i32) local.get 1 call $in local.get 0 i64.extend_i32_u i64.add)
 (func $tl (param i64) (result i64) (i64.sub (local.get 0) (i64.extend_i32_s (global.get $n))))
 (func (export "tail") (param i64) (result i64) (return_call $tl (local.get 0))))"""
STEPS = ["local.get $x local.get $y call $bg local.set $y", "local.get $y call $bt local.set $y", "local.get $x local.get $y call $h local.set $y",
         "i32.const 5 local.get $y call $self local.set $y", "local.get $y v128.const i64x2 1 2 call $leaf local.set $y", "local.get $x call $multi drop local.set $y local.set $x",
         "local.get $x local.get $y i32.const 0 call_indirect (param i32 i64) (result i64) local.set $y", "local.get $y i32.const 1 call_indirect (param i64) (result i64) local.set $y",
         "(loop $l (local.set $x (i32.add (local.get $x) (i32.const 1))) (br_if $l (i32.rem_u (local.get $x) (i32.const 5))))",
         "(block $d (block $b (block $c (br_table $b $c $d (i32.and (local.get $x) (i32.const 3)))) (local.set $y (i64.const 4)) (br $d)) (local.set $y (i64.add (local.get $y) (i64.const 9))))",
         "(local.set $y (block $q (result i64) (drop (br_if $q (i64.const 77) (i32.and (local.get $x) (i32.const 1)))) (i64.const 1) (i64.const 2) (br $q)))",
         "(if (i64.lt_s (local.get $y) (i64.const 50)) (then (i64.store (i32.const 24) (local.get $y))) (else (local.set $y (i64.load32_s (i32.const 24)))))",
         "(memory.fill (i32.const 100) (local.get $x) (i32.const 20))", "(drop (memory.grow (i32.const 0)))"]


def positions(ck, c, cfgs):
    r = Rng(f"P15p-{ck.seed}-{c}")
    steps = "\n  ".join(r.choice(STEPS) for _ in range(r.randint(4, 8)))
    if r.random() < 0.3:
        steps += "\n  (if (i32.eqz (local.get $x)) (then unreachable))"
    tail = r.random() < 0.5
    base = r.choice([0, 30, 60, 90])
    k = 40
    fs = []
    for j in range(k):
        pre = " ".join(f"i32.const {q} global.set $z" for q in range((base + j) // 2)) + (" global.get $z drop" if (base + j) % 2 else "")
        fs.append(f'(func (export "f{j}") (param i32 i64) (result i64) {pre} local.get 0 local.get 1 {r.choice(["call", "call", "return_call"])} $body)')
    a = AMOD.format(SELF="", CS="return_call $self" if tail else "call $self", STEPS=steps, FUNS="\n ".join(fs))
    ops = [hnew("h", ["i32", "i64"], ["i64"], [{"ret": [{"arg": 1}]}, {"ret": [r.v("i64")], "ops": [op("rem")]}]), inst(2, "b"),
           inst(1, "a", defs=[["h", "h", "h"]], links=[["b", "b"]])]
    for j in range(k):
        x, y = i32(r.choice([0, 1, 2, 3, 7, 1000])), r.v("i64")
        o = rcall(f"a.f{j}", x, y, sched=[{"k": r.choice("fft"), "b": 1}], rest={"k": "f", "b": r.choice([1, 1, 129])})
        if r.random() < 0.15:
            o["drop"] = 1
        ops.append(o)
        if r.random() < 0.1:
            ops.append(call(f"a.f{j}", x, y))
    return script(f"P15p-{c}", [a, BMOD], ops, cfgs)


# recursion that is suspended at depth, and overflows
DEEP = """(module (import "h" "h" (func $h (param i32) (result i32))) (global (export "n") (mut i32) (i32.const 0))
 (func $d (export "d") (param i32 i64) (result i64) (local v128 f32) global.get 0 i32.const 1 i32.add global.set 0
   (if (result i64) (i32.eqz (local.get 0)) (then (local.get 1)) (else (i64.add (i64.extend_i32_u (call $h (local.get 0))) (call $d (i32.sub (local.get 0) (i32.const 1)) (i64.add (local.get 1) (i64.const 1)))))))
 (func $inf (export "inf") (param i32) (result i32) global.get 0 i32.const 1 i32.add global.set 0 (i32.add (call $inf (local.get 0)) (i32.const 1)))
 (func $t (export "t") (param i32 i64) (result i64) global.get 0 i32.const 1 i32.add global.set 0 (if (i32.eqz (local.get 0)) (then (return (local.get 1)))) (return_call $t (i32.sub (local.get 0) (i32.const 1)) (i64.mul (local.get 1) (i64.const 3))))
 (func (export "div") (param i32 i32) (result i32) (local i32) (loop (local.set 2 (i32.add (local.get 2) (i32.div_s (local.get 0) (local.get 1)))) (local.set 1 (i32.sub (local.get 1) (i32.const 1))) (br 0)) (unreachable))
 (func (export "spin") (global.set 0 (i32.const 0)) (loop (global.set 0 (i32.add (global.get 0) (i32.const 1))) (br 0)))
 (func (export "many") (param i32) (result i32 i64 f32 f64 v128 i32) (loop (br_if 0 (local.tee 0 (i32.sub (local.get 0) (i32.const 1))))) i32.const 1 i64.const 2 f32.const 3 f64.const 4 v128.const i32x4 1 2 3 4 local.get 0))"""


def deep(ck, c, cfgs):
    r = Rng(f"P15d-{ck.seed}-{c}")
    hb = [{"ret": [{"arg": 0}]}, {"ret": [i32(1)]}]
    if r.random() < 0.4:
        hb.append(r.choice([{"err": "no"}, {"trap": "div_zero"}, {"ret": []}]))
    ops = [hnew("h", ["i32"], ["i32"], hb, typed=r.random() < 0.5 and all("ret" in b and b["ret"] for b in hb)), inst(1, "a", defs=[["h", "h", "h"]])]
    for _ in range(7):
        k = r.randrange(7)
        if k == 0:
            q = call("a.d", i32(r.choice([0, 3, 20, 60])), r.v("i64"))
        elif k == 1:
            q = call("a.inf", i32(4))
        elif k == 2:
            q = call("a.t", i32(r.choice([3, 50, 200])), r.v("i64"))
        elif k == 3:
            q = call("a.div", r.v("i32"), i32(r.choice([0, 1, 40, 200])))
        elif k == 4:
            q = rcall("a.spin", sched=[], rest={"k": r.choice("ft"), "b": r.choice([1, 100, 128, 700])}, drop=r.choice([1, 2, 3]))
            if q["rest"]["k"] == "t":
                q["rest"]["b"] = 1
        elif k == 5:
            q = call("a.many", i32(r.choice([1, 40, 100])))
        else:
            q = call("h", i32(5))
        ops += [q if q["op"] == "rcall" else resumed(r, q), op("g.get", o="a.n")]
    return script(f"P15d-{c}", [DEEP], ops, cfgs)


CFGS = [["", "rw=0"], ["fp=w"], ["rw=0;fp=w", "vs=dyn:4:100000"], ["call=dyn:0:1024"]]


def scripts(ck):
    out = programs(ck, "P15", ck.scale(36, 700), CFGS, loopk=lambda r: r.choice([3, 6]), fuel=lambda r: r.choice([8, 16]))
    out += programs(ck, "P15h", ck.scale(24, 500), CFGS, host=2, maxargs=3, simd=lambda r: r.random() < 0.4, refs=lambda r: r.random() < 0.4, tail=0.15, fuel=12)
    out += [positions(ck, c, CFGS[c % 3]) for c in range(ck.scale(12, 200))]
    out += twins.scripts(ck, "P15", ck.scale(16, 300), ck.scale(10, 16), cfgs=["", "rw=0;fp=w"], resume=0.6, host=True)
    out += [deep(ck, c, [f"call=fixed:{[40, 90, 64][c % 3]}", f"rw=0;fp=w;call=dyn:1:{[40, 90, 64][c % 3]}"]) for c in range(ck.scale(24, 300))]
    return out
