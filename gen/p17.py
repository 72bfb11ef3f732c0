"""P17: traps and failed calls leave the store consistent and usable."""
from . import model, prog, p01, p15
from .core import *

TECHNIQUE = ("TLC trace validation of long histories in one store: calls, resumptions and instantiations that fail in every way the system knows, after and before arbitrary effects and in "
             "nested frames, host functions and tail calls, with the whole state compared after each; in the specification a failure leaves exactly the effects already made")

# the failing operations; each must not return
TRAPS = ["unreachable", "(drop (i32.div_s (i32.const 1) (i32.const 0)))", "(drop (i64.rem_u (i64.const 1) (i64.const 0)))", "(drop (i32.div_s (i32.const -2147483648) (i32.const -1)))",
         "(drop (i32.trunc_f32_s (f32.const nan)))", "(drop (i64.trunc_f64_u (f64.const -1)))", "(drop (i32.trunc_f64_u (f64.const 4294967296)))",
         "(drop (i64.load offset=65529 (i32.const 0)))", "(i64.store offset=4294967295 (i32.const 0) (i64.const -1))", "(i32.store16 (i32.const 65535) (i32.const -1))",
         "(v128.store (i32.const 65521) (v128.const i64x2 -1 -1))", "(v128.store64_lane 1 (i32.const 65529) (v128.const i64x2 -1 -1))", "(drop (v128.load32_splat (i32.const 65533)))",
         "(memory.fill (i32.const 65500) (i32.const 7) (i32.const 37))", "(memory.copy (i32.const 10) (i32.const 65530) (i32.const 7))", "(memory.copy (i32.const 65530) (i32.const 10) (i32.const 7))",
         "(memory.copy $q $m (i32.const 65500) (i32.const 0) (i32.const 200))", "(memory.init $d (i32.const 65533) (i32.const 0) (i32.const 4))", "(memory.init $d (i32.const 3) (i32.const 2) (i32.const 8))",
         "(drop (table.get $t (i32.const 4)))", "(table.set $t (i32.const -1) (ref.null func))", "(table.fill $t (i32.const 2) (ref.null func) (i32.const 3))", "(table.copy $t $t (i32.const 3) (i32.const 0) (i32.const 2))",
         "(table.init $t $s (i32.const 3) (i32.const 0) (i32.const 2))", "(table.init $t $s (i32.const 0) (i32.const 1) (i32.const 2))",
         "(drop (call_indirect $t (param i32) (result i32) (i32.const 1) (i32.const 9)))", "(drop (call_indirect $t (param i32) (result i32) (i32.const 1) (i32.const 3)))", "(call_indirect $t (i32.const 0))",
         "(drop (call $inf (i32.const 0)))", "(drop (call $infv (v128.const i32x4 1 2 3 4) (i64.const 3)))", "(drop (call $herr (i32.const 1)))", "(drop (call $bt (i32.const 3)))",
         "(return (return_call $bt (i32.const 3)))", "(return (return_call $herr (i32.const 1)))", "(return (return_call_indirect $t (param i32) (result i32) (i32.const 1) (i32.const 3)))"]
EFF = ["(i32.store (i32.const {o}) (i32.const {v}))", "(i64.store $q (i32.const {o}) (i64.const {v}))", "(global.set $a (i32.const {v}))", "(global.set $b (i64.add (global.get $b) (i64.const {v})))",
       "(global.set $c (v128.const i32x4 {v} 2 3 4))", "(memory.fill (i32.const {o}) (i32.const {v}) (i32.const 9))", "(memory.copy $q $m (i32.const {o}) (i32.const 4) (i32.const 9))",
       "(memory.init $d (i32.const {o}) (i32.const 1) (i32.const 3))", "(table.set $t (i32.const 2) (ref.func $ok))", "(table.fill $t (i32.const 0) (ref.null func) (i32.const 1))",
       "(table.init $t $s (i32.const 1) (i32.const 0) (i32.const 1))", "(if (i32.eq (local.get 0) (i32.const 0)) (then (data.drop $d) (elem.drop $s)))", "(drop (memory.grow $q (i32.const 1)))", "(drop (table.grow $t (ref.func $ok) (i32.const 1)))", "(drop (call $ok (i32.const {v})))",
       "(drop (call $bok (i32.const {v})))", "(drop (call $hok (i32.const {v})))", "(drop (memory.grow (i32.const 9000)))", "(drop (table.grow $t (ref.null func) (i32.const 5000)))"]
JUNK = ["i32.const {v}", "i64.const {v}", "f64.const 2.5", "f32.const 1.5", "v128.const i32x4 9 {v} 8 7", "ref.null func", "ref.null extern", "(memory.size)"]
PRE = """(module (import "b" "bt" (func $bt (param i32) (result i32))) (import "b" "bok" (func $bok (param i32) (result i32))) (import "h" "herr" (func $herr (param i32) (result i32))) (import "h" "hok" (func $hok (param i32) (result i32)))
 (memory $m (export "m") 1 2) (memory $q (export "q") 1 3) (table $t (export "t") 4 100 funcref) (global $a (export "a") (mut i32) (i32.const 1)) (global $b (export "b") (mut i64) (i64.const 2)) (global $c (export "c") (mut v128) (v128.const i64x2 3 4))
 (data $d "abcdef") (elem $s func $ok $f) (elem (table $t) (i32.const 0) func $ok $f)
 (func $ok (export "ok") (param i32) (result i32) (global.set $a (i32.add (global.get $a) (local.get 0))) (i32.add (local.get 0) (i32.const 3)))
 (func $f (export "f") (param i32 i64) (result i64 i32) (local v128) (local.get 1) (local.get 0))
 (func $inf (param i32) (result i32) (local i64 v128) (i32.add (call $inf (i32.add (local.get 0) (i32.const 1))) (i32.const 1)))
 (func $infv (param v128 i64) (result i64) (i64.add (call $infv (local.get 0) (local.get 1)) (i64.const 1)))
 (func (export "look") (param i32) (result i32 i64 v128 i32 i64) (i32.load (local.get 0)) (i64.load $q (local.get 0)) (global.get $c) (table.size $t) (global.get $b))
 (func (export "many") (param i32 i64 f32 f64 v128) (result v128 f64 f32 i64 i32) (local.get 4) (local.get 3) (local.get 2) (local.get 1) (local.get 0))
 (func (export "sum") (param i32) (result i64) (local i64) (loop (local.set 1 (i64.add (local.get 1) (i64.extend_i32_u (i32.load8_u (local.get 0))))) (br_if 0 (i32.ge_s (local.tee 0 (i32.sub (local.get 0) (i32.const 1))) (i32.const 0)))) (local.get 1))
"""
OTHER = """(module (import "h" "herr" (func $herr (param i32) (result i32))) (memory (export "m") 1) (global $g (export "g") (mut i32) (i32.const 5))
 (func (export "bok") (param i32) (result i32) (global.set $g (i32.add (global.get $g) (local.get 0))) (i32.store (i32.const 8) (local.get 0)) (i32.load (i32.const 8)))
 (func (export "bt") (param i32) (result i32) (local v128 i64) (global.set $g (i32.const {v})) {junk} {trap} {after}))"""
# instantiations that fail half way
BADINST = ['(module (import "a" "m" (memory 1)) (data (i32.const 40) "good") (data (i32.const 65534) "bad"))', '(module (import "a" "t" (table 4 funcref)) (func $z) (elem (i32.const 2) func $z) (elem (i32.const 9999) func $z))',
           '(module (import "a" "m" (memory 1)) (import "a" "b" (global $b (mut i64))) (data (i32.const 48) "start") (func $s (global.set $b (i64.const 77)) (i32.store (i32.const 52) (i32.const -1)) unreachable) (start $s))',
           '(module (import "a" "t" (table 4 funcref)) (import "a" "m" (memory 1)) (func $z (export "z") (param i32) (result i32) (i32.store (i32.const 4) (local.get 0)) (i32.const 5)) (elem (i32.const 1) func $z) (data (i32.const 70000) "x"))',
           '(module (import "a" "ok" (func $ok (param i32) (result i32))) (import "a" "f" (func (param i32) (result i32))))', '(module (import "a" "m" (memory 5)))', '(module (import "nope" "x" (func)))',
           '(module (import "a" "a" (global $a (mut i32))) (import "h" "herr" (func $herr (param i32) (result i32))) (func $s (global.set $a (i32.const 1234)) (drop (call $herr (i32.const 1)))) (start $s))',
           '(module (import "a" "a" (global $a (mut i32))) (func $s (param i32) (result i32) (i32.add (call $s (local.get 0)) (i32.const 1))) (func $st (global.set $a (i32.const 99)) (drop (call $s (i32.const 1)))) (start $st))']
GOODINST = '(module (import "a" "m" (memory 1)) (import "a" "t" (table $t 4 funcref)) (func $z (param i32) (result i32) (i32.load (local.get 0))) (elem (i32.const 1) func $z) (data (i32.const 60) "fine") (func (export "go") (param i32) (result i32) (call_indirect (param i32) (result i32) (local.get 0) (i32.const 1))))'


def eff(r):
    return r.choice(EFF).format(o=r.choice([0, 4, 8, 16, 40, 100, 65500]), v=r.choice([0, 1, -1, 7, 1000, 2**31 - 1]))


def fails(r, j):
    """A function that has effects and fails in the middle of something."""
    pre = " ".join(eff(r) for _ in range(r.randrange(4)))
    junk = " ".join(r.choice(JUNK).format(v=r.randrange(100)) for _ in range(r.randrange(5)))
    t = r.choice(TRAPS)
    shape = r.randrange(6)
    if shape == 0:
        body = f"{t}"
    elif shape == 1:
        body = f"(block (block (loop {t} (br 1))))"
    elif shape == 2:
        body = f"(if (local.get 0) (then (if (i32.const 1) (then {t}))))"
    elif shape == 3:
        body = f"(drop (i32.add (i32.const 4) (block (result i32) {' '.join(eff(r) for _ in range(2))} {t} (i32.const 6))))"
    elif shape == 4:
        body = f"(local.set 1 (i64.const 4)) (loop {eff(r)} (local.set 1 (i64.sub (local.get 1) (i64.const 1))) (br_if 0 (i64.ne (local.get 1) (i64.const 0))) {t})"
    else:
        body = f"(br_table 1 0 (i32.const 1))"
        return f'(func $x{j} (export "x{j}") (param i32) (result i32) (local i64) (block (result i32) (block {pre} (br_table 0 0 (local.get 0))) {t} (i32.const 4)))'
    end = f"{eff(r)} (i32.const 0)"
    f = f'(func $x{j} (export "x{j}") (param i32) (result i32) (local i64) {pre} {junk} {body} {end}'
    return f.replace(end, end + " (return)") + ")"


def one(ck, c, cfgs, n):
    r = Rng(f"P17-{ck.seed}-{c}")
    k = 7
    fs = [fails(r, j) for j in range(k)]
    for j in range(k, k + 3):       # reached through more frames
        x = r.randrange(k)
        how = r.choice([f"(call $x{x} (local.get 0))", f"(return_call $x{x} (local.get 0))", f"(i32.add (call $y{j} (local.get 0)) (i32.const 1))"])
        fs.append(f'(func $y{j} (param i32) (result i32) (local f64 i32) (i32.add (i32.const 3) (call $x{x} (i32.const 1))))')
        fs.append(f'(func (export "x{j}") (param i32) (result i32) (local v128) {eff(r)} {how})')
    a = PRE + "\n ".join(fs) + ")"
    junk = " ".join(r.choice(JUNK).format(v=5) for _ in range(3))
    b = OTHER.format(v=r.randrange(99), junk=junk, trap=r.choice([t for t in TRAPS[:11] if "$" not in t]), after="(i32.const 0) (return)")
    he = [{"err": "E"}, {"trap": "unreachable"}, {"ret": []}, {"ret": [i64(4)]}, {"trap": "oom"}]
    if r.random() < 0.6:
        he.insert(r.randrange(4), {"ops": [r.choice([call("b.bt", i32(1)), call("a.many", i32(1))])], "prop": True, "ret": []})
    if r.random() < 0.6:
        he.insert(r.randrange(4), {"ops": [call("b.bok", i32(5)), call("b.bt", i32(2)), call("a.ok", i32(3))], "err": "after"})
    r.shuffle(he)
    ops = [hnew("herr", ["i32"], ["i32"], [dict(b_, noin=True) for b_ in he]), hnew("hok", ["i32"], ["i32"], [{"noin": True, "ret": [{"arg": 0}]}, {"noin": True, "ret": [i32(9)], "ops": [call("b.bok", i32(3))]}]),
           inst(2, "b", defs=[["h", "herr", "herr"]]), inst(1, "a", defs=[["h", "herr", "herr"], ["h", "hok", "hok"]], links=[["b", "b"]])]
    good = lambda: r.choice([call("a.ok", r.v("i32")), call("a.look", i32(r.choice([0, 4, 8, 40, 60]))), call("a.many", r.v("i32"), r.v("i64"), r.v("f32"), r.v("f64"), r.v("v128"), typed=True),
                             call("a.sum", i32(r.choice([3, 40]))), call("b.bok", r.v("i32")), call("a.f", r.v("i32"), r.v("i64")), rcall("a.sum", i32(20), sched=[{"k": "f", "b": 1}] * 3, rest={"k": "f", "b": 1})])
    for _ in range(n):
        x = r.random()
        if x < 0.45:
            q = call(f"a.x{r.randrange(k + 3)}", i32(r.choice([0, 1, 1])))
            if r.random() < 0.35:
                q = p15.resumed(r, q)
            elif r.random() < 0.3:
                q["typed"] = True
            ops.append(q)
        elif x < 0.55:
            j = r.randrange(len(BADINST))
            ops.append(inst(3 + j, f"n{r.randrange(99)}", links=[["a", "a"]], defs=[["h", "herr", "herr"]]))
        elif x < 0.59:
            nm = f"g{r.randrange(99)}"
            ops += [inst(3 + len(BADINST), nm, links=[["a", "a"]]), call(nm + ".go", i32(r.choice([0, 60, 65536])))]
        elif x < 0.66:
            ops.append(r.choice([call("a.ok"), call("a.ok", i64(1)), call("a.many", i32(1), i64(2)), call("herr", i32(1)), call("a.f", i64(1), i32(1)), op("start", i="a")]))
        elif x < 0.70:
            ops.append(rcall("a.sum", i32(60), sched=[], rest={"k": "f", "b": 1}, drop=r.choice([1, 2])))
        elif x < 0.74:
            ops.append(r.choice([op("m.put", o="a.m", off=65530, b=[1] * 9), op("t.set", o="a.t", i=500, v=NULLF), op("t.grow", o="a.t", i=500, v=NULLF), op("m.grow", o="a.m", d=50), op("m.fill", o="a.q", off=65530, n=999999, v=4)]))
        else:
            ops.append(good())
        if r.random() < 0.5:
            ops.append(good())
        if r.random() < 0.3:
            ops.append(op("obs"))
    return script(f"P17-{c}", [a, b] + BADINST + [GOODINST], ops, cfgs)


def scripts(ck):
    CF = [["call=fixed:60", "rw=0;call=fixed:60"], ["call=dyn:1:40;mem=paged:4096", "rw=0;fp=w;call=fixed:40"], ["call=fixed:50;vs=dyn:3:100000"], ["call=fixed:30;mem=capped:196608", "call=fixed:30;oom=1;mem=capped:196608"]]
    out = [one(ck, c, CF[c % 4], ck.scale(9, 12)) for c in range(ck.scale(70, 1200))]
    out += p01.programs(ck, "P17p", ck.scale(30, 600), 4, ["", "rw=0;mem=paged:256"], trap=0.4, oob=0.5, refs=True, mem=2, table=True, host=2, fuel=12)
    out += model.nest(ck, "P17", ["rw=0", "mem=paged:64"], ck.scale(900, 30000), length=200) + model.life(ck, "P17", ["", "rw=0"], ck.scale(500, 20000), kinds=4, length=120)
    return out
