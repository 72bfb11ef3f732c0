"""Twins: several instances of one module (and of a second one with the same interface) calling each other
through imports, a shared table and host functions. Every instance has its own globals, memories, tables and
segments, so running anything with another instance's state shows."""
from .core import *

NF = 4
SIG = "(param $d i32) (param $x i64) (result i64)"


def own(r, mems):
    """An action on the running instance's own or shared state, mixed into $x."""
    ix = "(i32.wrap_i64 (i64.and (local.get $x) (i64.const 63)))"
    m = r.choice(mems)
    up = lambda e: f"(local.set $x (i64.add (i64.mul (local.get $x) (i64.const {r.choice([3, 5, 7])})) {e}))"
    return r.choice([
        lambda: up("(global.get $g)"), lambda: "(global.set $g (i64.add (global.get $g) (local.get $x)))",
        lambda: f"(i64.store {m} {ix} (i64.xor (i64.load {m} {ix}) (local.get $x)))", lambda: up(f"(i64.load {m} {ix})"),
        lambda: up(f"(i64.extend_i32_u (memory.size {m}))"), lambda: up(f"(i64.extend_i32_s (memory.grow {m} (i32.const {r.choice([0, 1])})))"),
        lambda: up("(i64.extend_i32_u (table.size $o))"), lambda: up("(i64.extend_i32_u (ref.is_null (table.get $o (i32.const 0))))"),
        lambda: up("(i64.extend_i32_s (table.grow $o (ref.null func) (i32.const 1)))"),
        lambda: f"(if (global.get $live) (then (memory.init {m} $d {ix} (i32.const {r.randrange(4)}) (i32.const {r.randrange(4)}))))",
        lambda: "(data.drop $d) (global.set $live (i32.const 0))",
        lambda: f"(table.set $o (i32.const 0) (table.get $s (i32.const {r.randrange(6)})))",
        lambda: f"(global.set $h (i32.add (global.get $h) (i32.const 1))) {up('(i64.extend_i32_u (global.get $h))')}",
        lambda: f"(memory.fill {m} {ix} (i32.const {r.randrange(256)}) (i32.const 3))",
    ])()


def target(r, tail):
    """A call of somebody, with arguments ($d - 1, $x + c)."""
    c = "return_call" if tail else "call"
    a = f"(i32.sub (local.get $d) (i32.const 1)) (i64.add (local.get $x) (i64.const {r.choice([1, 2, 5, 11])}))"
    k = r.random()
    if k < 0.2:
        return f"({c} $f{r.randrange(NF)} {a})"
    if k < 0.6:
        return f"({c} $p{r.randrange(NF)} {a})"
    if k < 0.9:
        return f"({c}_indirect $s (type $t) {a} (i32.const {r.randrange(6)}))"
    return f"({c} $k {a})"


def body(r, j, mems, tails):
    L = ["(global.set $g (i64.add (global.get $g) (i64.const 1)))"]
    L += [own(r, mems) for _ in range(r.randrange(2))]
    L.append(f"(if (i32.le_s (local.get $d) (i32.const 0)) (then (return (i64.add (global.get $g) (i64.const {j})))))")
    for _ in range(r.choice([1, 1, 2])):
        if r.random() < 0.5:
            L.append(f"(local.set $y (i64.mul (local.get $x) (i64.const {r.choice([3, 9])})))")
        call_ = target(r, False)
        L.append(r.choice([f"(local.set $x (i64.add (local.get $y) {call_}))", f"(local.set $x {call_})",
                           f"(local.set $x (i64.add (global.get $g) {call_}))", f"(local.set $x (i64.sub {call_} (global.get $g)))",
                           f"(global.set $g (i64.sub (global.get $g) {call_}))"]))
        L += [own(r, mems) for _ in range(r.choice([0, 1, 2]))]
    L.append(target(r, True) if r.random() < tails else r.choice(["(local.get $x)", "(i64.add (local.get $x) (global.get $g))", "(i64.add (global.get $g) (i64.load (i32.const 8)))"]))
    return " ".join(L)


def text(r, tails):
    shm = r.random() < 0.6
    mems = ["$m", "$w"] if shm else ["$m"]
    L = ["(module (type $t (func (param i32 i64) (result i64)))"]
    for j in range(NF):
        L.append(f'(import "p" "f{j}" (func $p{j} (type $t)))')
    L.append('(import "h" "k" (func $k (type $t))) (import "s" "s" (table $s 6 funcref))')
    if shm:
        L.append('(import "s" "w" (memory $w 1 4))')
    L.append(f'(memory $m (export "m") 1 {r.choice([2, 4])}) (table $o (export "o") {r.choice([1, 2])} 8 funcref) (data $d "\\{r.randrange(10, 99)}bcd") (data (memory $m) (i32.const {r.choice([3, 8])}) "{r.choice(["xyz", "twin"])}")')
    L.append(f'(global $g (export "g") (mut i64) (i64.const {r.choice([0, 5])})) (global $h (mut i32) (i32.const 0)) (global $live (mut i32) (i32.const 1))')
    for j in range(NF):
        loc = r.choice(["", "(local v128 i32)", "(local funcref f32)"])
        L.append(f'(func $f{j} (export "f{j}") {SIG} (local $y i64) {loc} {body(r, j, mems, tails)})')
        L.append(f'(func (export "put{j}") (param i32) (table.set $s (local.get 0) (ref.func $f{j})))')
    L.append('(elem declare func ' + " ".join(f"$f{j}" for j in range(NF)) + "))")
    return "\n".join(L)


def one(r, id, cfgs, n, tails=0.25, host=True, resume=0.1):
    shared = '(module (table (export "s") 6 8 funcref) (memory (export "w") 1 4))'
    two = r.random() < 0.4
    wats = [text(r, tails), text(r, tails) if two else None, shared]
    wats = [w or shared for w in wats]
    k = r.randint(2, 4)
    names = [f"i{q}" for q in range(k)]
    P, Q = ["i32", "i64"], ["i64"]
    o = [inst(3, "s")]
    nested = lambda: [call(f"{r.choice(names)}.f{r.randrange(NF)}", i32(r.randrange(3)), i64(r.randrange(100)), **{"as": "n"}) for _ in range(r.choice([0, 1, 1, 2]))] if host else []
    beh = lambda: [{"ops": nested(), "ret": [{"arg": 1}]} for _ in range(3)] + [{"ret": [{"arg": 1}]}]
    for j in range(NF):
        o.append(hnew(f"q{j}", P, Q, beh()))
    o.append(hnew("k", P, Q, beh()))
    hd = [["h", "k", "k"]]
    for q, nm in enumerate(names):
        mod = 2 if two and r.random() < 0.5 else 1
        back = r.choice(names[:q]) if q else None
        if back is None:
            o.append(inst(mod, nm, defs=hd + [["p", f"f{j}", f"q{j}"] for j in range(NF)], links=[["s", "s"]]))
        else:
            mix = [["p", f"f{j}", r.choice([f"q{j}", f"{r.choice(names[:q])}.f{r.randrange(NF)}"])] for j in range(NF) if r.random() < 0.3]
            o.append(inst(mod, nm, defs=hd + mix, links=[["s", "s"], ["p", back]]))
    for x in range(6):
        if r.random() < 0.9:
            o.append(call(f"{r.choice(names)}.put{r.randrange(NF)}", i32(x)))
    for nm in names:
        o.append(op("gset", i=nm, n="g", v=i64(r.randrange(10**6))))
    for _ in range(n):
        nm = r.choice(names)
        x = r.random()
        a = [i32(r.choice([0, 1, 2, 3, 4])), r.v("i64") if r.random() < 0.3 else i64(r.randrange(1000))]
        if x < 0.85 - resume:
            o.append(call(f"{nm}.f{r.randrange(NF)}", *a, typed=r.random() < 0.3))
        elif x < 0.85:
            o.append(rcall(f"{nm}.f{r.randrange(NF)}", *a, sched=[{"k": "f", "b": b} for b in (r.choice([1, 2, 7, 30, 64]),)], rest={"k": "f", "b": r.choice([1, 3, 20, 100])}))
        elif x < 0.9:
            o.append(call(f"{nm}.put{r.randrange(NF)}", i32(r.randrange(6))))
        elif x < 0.95:
            o.append(op("gget", i=nm, n="g"))
        else:
            o.append(op("m.grow", o=f"{nm}.m", d=r.choice([0, 1])))
    return script(id, wats, o, cfgs)


def scripts(ck, pid, count, n, cfgs=("", "rw=0"), **k):
    return [one(Rng(f"{pid}tw-{ck.seed}-{c}"), f"{pid}/tw/{c}", list(cfgs), n, **k) for c in range(count)]
