"""P19: tail calls equal call-then-return and run in constant stack."""
from . import p01, twins
from .p01 import NT, OBS
from .core import *

TECHNIQUE = ("TLC trace validation: tail calls from every nesting of blocks to functions of every signature, direct and indirect, to guest and host functions in the same and other modules; "
             "long chains under small stack limits; the specification replaces the frame, and each program is also run with plain calls in their place")
AT = NT + ["funcref", "externref"]


def z(r, t):
    return {"funcref": "ref.null func", "externref": "ref.null extern"}.get(t) or const(t, r.bits(t))


def av(r, t):
    return NULLF if t == "funcref" else val("externref", r.choice([-1, 4])) if t == "externref" else r.v(t)


def place(r, junk, tc, rt):
    """The tail call inside some nesting, with operands left behind."""
    j = lambda: " ".join(const(t, r.bits(t)) for t in junk)
    k = r.randrange(9)
    if k == 0:
        return tc
    if k == 1:
        return f"{j()} {tc}"
    if k == 2:
        return f"{j()} (block {j()} (block {rt} {j()} {tc}) unreachable) unreachable"
    if k == 3:
        return f"{j()} (loop {rt} {j()} (if (local.get $c) (then {j()} {tc}) (else {j()} {tc})) unreachable) return"
    if k == 4:
        return f"(if {rt} (i32.eqz (local.get $c)) (then {tc}) (else {j()} {tc}))"
    if k == 5:
        return f"(block $a (block $b {j()} (br_table $a $b (local.get $c))) {j()} {tc}) {j()} {tc}"
    if k == 6:
        return f"(loop $l (local.set $c (i32.sub (local.get $c) (i32.const 1))) (br_if $l (i32.gt_s (local.get $c) (i32.const 0)))) {j()} {tc} {j()} unreachable"
    if k == 7:
        return f"(block {rt} {j()} {tc})"
    return f"{j()} (block {j()} (if (local.get $c) (then (br 1)))  {tc}) {tc}"


# modules a and b with the same functions; a imports b's. Every function f{j} tail calls another one
def matrix(ck, c, cfgs):
    r = Rng(f"P19-{ck.seed}-{c}")
    res = [[r.choice(NT) for _ in range(r.choice([0, 1, 1, 2, 3]))] for _ in range(2)]
    n = 5
    sg = [([r.choice(AT) for _ in range(r.choice([0, 1, 2, 3, 6]))], r.choice(res)) for _ in range(n)]     # after $c i32
    typ = lambda j: f"(param i32 {' '.join(sg[j][0])})" + (f" (result {' '.join(sg[j][1])})" if sg[j][1] else "")
    def module(tail, which):
        q = Rng(f"P19m-{ck.seed}-{c}-{which}")
        L = ["(module"]
        for j in range(n):
            L.append(f'(import "h" "h{j}" (func $h{j} {typ(j)}))')
        if which == "a":
            for j in range(n):
                L.append(f'(import "b" "leaf{j}" (func $b{j} {typ(j)})) (import "b" "f{j}" (func $bf{j} {typ(j)}))')
            L.append('(import "b" "t" (table $bt 12 funcref)) (import "b" "n" (global $bn (mut i32)))')
        L += [f"(type $t{j} (func {typ(j)}))" for j in range(n)]
        L.append('(global $n (export "n") (mut i32) (i32.const 0)) (memory (export "m") 1) (table $t (export "t") 12 funcref)')
        L.append(f"(elem (table $t) (i32.const 0) func {' '.join(f'$leaf{j} $h{j}' for j in range(n))} $leaf0)")
        for j in range(n):
            p, rs = sg[j]
            ret = []
            for t in rs:
                src = [i + 1 for i, x in enumerate(p) if x == t]
                ret.append(f"local.get {q.choice(src)}" if src else (f"global.get $n" if t == "i32" else const(t, q.bits(t))))
            trap = "(if (i32.eq (local.get 0) (i32.const 77)) (then unreachable))" if q.random() < 0.4 else ""
            loc = [q.choice(AT) for _ in range(q.choice([0, 1, 5]))]
            L.append(f'(func $leaf{j} (export "leaf{j}") (type $t{j}) {wtypes("local", loc)} (global.set $n (i32.add (global.get $n) (i32.const {j + 1}))) (i32.store (i32.const {j * 4}) (global.get $n)) {trap} {" ".join(ret)})')
        for j in range(n):
            p, rs = sg[j]
            ks = [k for k in range(n) if sg[k][1] == rs]
            k = q.choice(ks)
            args = f"(i32.add (local.get $c) (i32.const {q.choice([0, 1, 5])}))"
            for t in sg[k][0]:
                src = [i + 1 for i, x in enumerate(p) if x == t]
                args += f" (local.get {q.choice(src)})" if src and q.random() < 0.8 else f" ({z(q, t)})"
            x = q.randrange(8)
            rc, ri = ("return_call", "return_call_indirect") if tail else ("call", "call_indirect")
            suf = "" if tail else " return"
            if x < 2:
                tc = f"{args} {rc} {q.choice([f'$leaf{k}', f'$f{k}']) if k < j else f'$leaf{k}'}{suf}"
            elif x == 2:
                tc = f"{args} {rc} $h{k}{suf}"
            elif x in (3, 4) and which == "a":
                tc = f"{args} {rc} {q.choice([f'$b{k}', f'$bf{k}'])}{suf}"
            elif x == 5 and which == "a":
                tc = f"{args} i32.const {2 * k + q.randrange(2)} {ri} $bt (type $t{k}){suf}"
            elif x == 6:
                tc = f"{args} (i32.add (i32.const {2 * k + q.randrange(2)}) (i32.eq (local.get 0) (i32.const 55))) {ri} $t (type $t{k}){suf}"       # may be of another type
            else:
                tc = f"{args} i32.const {2 * k + q.randrange(2)} {ri} $t (type $t{k}){suf}"
            loc = [q.choice(AT) for _ in range(q.choice([0, 0, 2, 6]))]
            junk = [q.choice(NT) for _ in range(q.choice([0, 1, 2, 4]))]
            rt = f"(result {' '.join(rs)})" if rs else ""
            pn = "(param $c i32)" + "".join(f" (param {t})" for t in p)
            L.append(f'(func $f{j} (export "f{j}") {pn} {rt} {wtypes("local", loc)} (global.set $n (i32.mul (global.get $n) (i32.const 3))) {place(q, junk, tc, rt)})')
        # callers with values of every width waiting
        for j in range(n):
            p, rs = sg[j]
            pend = [q.choice(NT) for _ in range(3)]
            body = " ".join(const(t, q.bits(t)) for t in pend) + " local.get $c " + " ".join(z(q, t) for t in p) + f" call $f{j}"
            for t in list(reversed(rs)) + list(reversed(pend)):
                body += f" {OBS[t]} (i64.add (i64.rotl (local.get $x) (i64.const 5))) local.set $x"
            L.append(f'(func (export "g{j}") (param $c i32) (param $y i64) (result i64 i64) (local $x i64) (local $v v128) {body} local.get $y local.get $x)')
        return "\n".join(L) + ")"
    w = [module(True, "a"), module(True, "b"), module(False, "a"), module(False, "b")]
    ops, defs = [], []
    for j in range(n):
        p, rs = sg[j]
        beh = [{"noin": True, "ret": [r.v(t) for t in rs]}]
        if r.random() < 0.4:
            beh.append({"noin": True, "ops": [call("b.leaf0", i32(3), *[av(r, t) for t in sg[0][0]], **{"as": "n"})], "ret": [r.v(t) for t in rs]})
        if r.random() < 0.3:
            beh.append(r.choice([{"noin": True, "err": "x"}, {"noin": True, "trap": "div_zero"}, {"noin": True, "ret": []} if rs else {"noin": True, "ret": [i32(1)]}]))
        ops.append(hnew(f"h{j}", ["i32"] + p, rs, beh))
        defs.append(["h", f"h{j}", f"h{j}"])
    b, a = (1, 0) if c % 5 else (3, 2)
    ops += [inst(b + 1, "b", defs=defs), inst(a + 1, "a", defs=defs, links=[["b", "b"]])]
    for _ in range(10):
        j = r.randrange(n)
        i = r.choice("aab")
        x = i32(r.choice([0, 1, 2, 3, 77, 76, 55]))
        q = call(f"{i}.g{j}", x, r.v("i64")) if r.random() < 0.6 else call(f"{i}.f{j}", x, *[av(r, t) for t in sg[j][0]])
        if r.random() < 0.25:
            q = rcall(q["f"], *q["args"], sched=[{"k": "f", "b": b} for b in (1, 3)], rest={"k": "f", "b": 1})
        ops.append(q)
        if r.random() < 0.2:
            ops.append(op("obs"))
    return script(f"P19-{c}", w, ops, cfgs)


# chains that would overflow if a frame stayed
def chain(ck, c, cfgs):
    r = Rng(f"P19c-{ck.seed}-{c}")
    t = r.choice(AT)
    p = [r.choice(AT) for _ in range(r.choice([0, 1, 3]))]
    P = ["i32"] + p
    n = r.choice([2, 3])
    # all of the chain's functions have the same type; some take a detour through another one
    L = []
    tys = " ".join(P)
    rr = r.choice(NT)
    fs = []
    for j in range(n):
        loc = [r.choice(AT) for _ in range(r.choice([0, 1, 3]))]
        jk = " ".join(const(x, r.bits(x)) for x in [r.choice(NT) for _ in range(r.choice([0, 1, 3]))])
        gets = "(i32.sub (local.get 0) (i32.const 1)) " + " ".join(f"(local.get {i + 1})" for i in range(len(p)))
        k = r.randrange(n)
        tc = r.choice([f"{gets} return_call $f{k}", f"{gets} i32.const {k} return_call_indirect (type $t)", f"{gets} return_call $o{k}", f"{gets} i32.const {k + n} return_call_indirect (type $t)"])
        fs.append(f'(func $f{j} (export "f{j}") (type $t) {wtypes("local", loc)} (global.set $n (i32.add (global.get $n) (i32.const 1))) {jk} (if (i32.eqz (local.get 0)) (then {const(rr, r.bits(rr))} return)) {tc})')
    imp = "".join(f'(import "o" "f{j}" (func $o{j} (param {tys}) (result {rr}))) ' for j in range(n))
    w = f'(module (type $t (func (param {tys}) (result {rr}))) {imp} (global $n (export "n") (mut i32) (i32.const 0)) (table {2 * n} funcref) (elem (i32.const 0) func {" ".join(f"$f{j}" for j in range(n))} {" ".join(f"$o{j}" for j in range(n))})\n' + "\n".join(fs) + ")"
    # the other module's functions go back through a shared table
    back = "".join(f'(func (export "f{j}") (type $t) (local i64 v128) (if (i32.eqz (local.get 0)) (then {const(rr, r.bits(rr))} return)) (i32.sub (local.get 0) (i32.const 1)) {" ".join(f"(local.get {i + 1})" for i in range(len(p)))} i32.const {j} {"return_call_indirect"} (type $t))' for j in range(n))
    o = f'(module (type $t (func (param {tys}) (result {rr}))) (table (export "t") {n} funcref) {back})'
    fill = f'(module (import "o" "t" (table {n} funcref)) {"".join(f"(import {chr(34)}a{chr(34)} {chr(34)}f{j}{chr(34)} (func $f{j} (param {tys}) (result {rr}))) " for j in range(n))} (elem (i32.const 0) func {" ".join(f"$f{j}" for j in range(n))}))'
    ops = [inst(2, "o"), inst(1, "a", links=[["o", "o"]]), inst(3, "x", links=[["o", "o"], ["a", "a"]])]
    for _ in range(4):
        q = call(f"a.f{r.randrange(n)}", i32(r.choice([0, 1, 30, 90, 200, 450])), *[av(r, x) for x in p])
        if r.random() < 0.3:
            q = rcall(q["f"], *q["args"], sched=[{"k": "f", "b": 1}] * 3)
        ops += [q, op("gget", i="a", n="n")]
    return script(f"P19c-{c}", [w, o, fill], ops, cfgs)


def scripts(ck):
    lim = [["call=fixed:20", "rw=0;call=dyn:0:20"], ["vm=1;vs=fixed:60;call=fixed:25", "vm=1;vs=dyn:0:50;call=dyn:0:25"], ["", "rw=0;fp=w"]]
    out = [matrix(ck, c, lim[c % 3][:]) for c in range(ck.scale(60, 900))]
    out += [chain(ck, c, [["call=fixed:6", "rw=0;call=dyn:0:6"], ["vm=1;vs=fixed:40;call=fixed:8", "vm=1;vs=dyn:0:40;call=fixed:7"], ["vs=fixed:200"]][c % 3]) for c in range(ck.scale(30, 400))]
    out += p01.programs(ck, "P19p", ck.scale(24, 500), tail=0.5, host=2, simd=lambda r: r.random() < 0.5, refs=lambda r: r.random() < 0.5, nfun=6)
    out += twins.scripts(ck, "P19", ck.scale(20, 300), ck.scale(8, 16), tails=0.8)
    return out
