"""Small scopes, exhaustively: every bulk operation with every in-range operand triple (and the first ones out of
range) on memories of a few one-byte pages and tables of a few elements."""
from .core import *

N = 10
WIDE = [("i32", x, w) for x, w in (("load8_s", 1), ("load16_u", 2), ("load", 4))] + [("i64", x, w) for x, w in (("load8_u", 1), ("load16_s", 2), ("load32_s", 4), ("load", 8))] + [("v128", "load", 16), ("v128", "load32x2_u", 8), ("v128", "load8_splat", 1), ("v128", "load32_zero", 4)]
STS = [("i32", "store8", 1), ("i32", "store16", 2), ("i32", "store", 4), ("i64", "store8", 1), ("i64", "store32", 4), ("i64", "store", 8)]


def memory(it="i32", two=True):
    a = "i64 " if it == "i64" else ""
    L = [f'(memory $m {a}{N} {N + 6} (pagesize 1))', f'(memory $n {a}{N} {N + 6} (pagesize 1))', '(data $p "klmnopqrst")',
         f'(func $r (i64.store ({it}.const 0) (i64.const 0x0807060504030201)) (i32.store16 offset=8 ({it}.const 0) (i32.const 0x0a09)) (i64.store $n ({it}.const 0) (i64.const 0x1817161514131211)) (i32.store16 $n offset=8 ({it}.const 0) (i32.const 0x1a19)))',
         f'(func $k (export "peek") (result i64 i32 i64 i32) (i64.load ({it}.const 0)) (i32.load16_u offset=8 ({it}.const 0)) (i64.load $n ({it}.const 0)) (i32.load16_u $n offset=8 ({it}.const 0)))']
    R = "(result i64 i32 i64 i32)"
    L.append(f'(func (export "copy") (param {it} {it} {it}) {R} call $r (memory.copy (local.get 0) (local.get 1) (local.get 2)) call $k)')
    L.append(f'(func (export "across") (param {it} {it} {it}) {R} call $r (memory.copy $n $m (local.get 0) (local.get 1) (local.get 2)) call $k)')
    L.append(f'(func (export "fill") (param {it} i32 {it}) {R} call $r (memory.fill (local.get 0) (local.get 1) (local.get 2)) call $k)')
    L.append(f'(func (export "init") (param {it} i32 i32) {R} call $r (memory.init $p (local.get 0) (local.get 1) (local.get 2)) call $k)')
    L.append(f'(func (export "grow") (param {it}) (result {it}) (memory.grow (local.get 0)))')
    for j, (t, x, w) in enumerate(WIDE):
        L.append(f'(func (export "l{j}") (param {it}) (result {t}) call $r ({t}.{x} (local.get 0)))')
    for j, (t, x, w) in enumerate(STS):
        L.append(f'(func (export "s{j}") (param {it}) {R} call $r ({t}.{x} (local.get 0) ({t}.const 0x{"a1a2a3a4a5a6a7a8"[:8 if t == "i32" else 16]})) call $k)')
    return "(module " + "\n".join(L) + ")"


def triples(n, s):
    return [(d, x, k) for k in range(n + 2) for d in range(n + 2) for x in range(s + 2) if d + k <= n + 1 and x + k <= s + 1 and not (d + k > n and x + k > s)]


def memories(ck, pid, cfgs, frac=1.0):
    out = []
    for it in ("i32", "i64"):
        r = Rng(f"{pid}small-{ck.seed}-{it}")
        I = i32 if it == "i32" else i64
        cp = [call("a.copy", I(d), I(s), I(n)) for d, s, n in triples(N, N)]
        cp += [call("a.across", I(d), I(s), I(n)) for d, s, n in triples(N, N)]
        cp += [call("a.init", I(d), i32(s), i32(n)) for d, s, n in triples(N, N)]
        cp += [call("a.fill", I(d), i32(r.choice([0, 0xEE])), I(n)) for n in range(N + 2) for d in range(N + 2) if d + n <= N + 1]
        cp += [call(f"a.l{j}", I(x)) for j, (t, _, w) in enumerate(WIDE) for x in range(N - w + 3) if x >= 0]
        cp += [call(f"a.s{j}", I(x)) for j, (t, _, w) in enumerate(STS) for x in range(N - w + 3)]
        if frac < 1:
            cp = r.sample(cp, int(len(cp) * frac))
        for part in range(4):
            ops = [inst()] + cp[part::4]
            if part == 3:
                ops.insert(1 + len(ops) // 2, call("a.grow", I(3)))
            out.append(script(f"{pid}small-{it}-{part}", [memory(it)], ops, cfgs))
    return out


M = 5


def table(it, it2, et):
    x = lambda i: f"(ref.func $f{i})" if et == "funcref" else f"(table.get $o (i32.const {i}))"
    L = [f'(type $v (func (result i32)))', f'(table $t {"i64 " if it == "i64" else ""}{M} {M + 4} {et})', f'(table $u {"i64 " if it2 == "i64" else ""}{M} {et})']
    L += [f'(func $f{i} (type $v) (i32.const {i + 1}))' for i in range(8)]
    L.append("(elem declare func " + " ".join(f"$f{i}" for i in range(8)) + ")")
    L.append('(elem $p funcref (ref.func $f5) (ref.null func) (ref.func $f6) (ref.func $f7) (ref.func $f0))')
    L.append("(func $r " + " ".join(f"(table.set $t ({it}.const {i}) {'(ref.null func)' if i == 2 else x(i)}) (table.set $u ({it2}.const {i}) {'(ref.null func)' if i == 3 else x((i + 4) % 8)})" for i in range(M)) + ")")
    pk = "".join(f"(local.set 0 (i32.mul (local.get 0) (i32.const 9))) (if (i32.eqz (ref.is_null (table.get ${t} ({ty}.const {i})))) (then (local.set 0 (i32.add (local.get 0) (call_indirect ${t} (type $v) ({ty}.const {i}))))))" for t, ty in (("t", it), ("u", it2)) for i in range(M))
    pk = pk.replace(f"(local.set 0 (i32.mul (local.get 0) (i32.const 9))) (if (i32.eqz (ref.is_null (table.get $u ({it2}.const 0", f"(local.get 0) (local.set 0 (i32.const 0)) (if (i32.eqz (ref.is_null (table.get $u ({it2}.const 0", 1)
    L.append(f'(func $k (export "peek") (result i32 i32) (local i32) {pk} (local.get 0))')
    ml = "i64" if it == it2 == "i64" else "i32"
    L.append(f'(func (export "copy") (param {it} {it} {it}) (result i32 i32) call $r (table.copy $t $t (local.get 0) (local.get 1) (local.get 2)) call $k)')
    L.append(f'(func (export "across") (param {it} {it2} {ml}) (result i32 i32) call $r (table.copy $t $u (local.get 0) (local.get 1) (local.get 2)) call $k)')
    L.append(f'(func (export "fill") (param {it} {it}) (result i32 i32) call $r (table.fill $t (local.get 0) (ref.func $f7) (local.get 1)) call $k)')
    L.append(f'(func (export "init") (param {it} i32 i32) (result i32 i32) call $r (table.init $t $p (local.get 0) (local.get 1) (local.get 2)) call $k)')
    L.append(f'(func (export "grow") (param {it}) (result {it}) (table.grow $t (ref.func $f6) (local.get 0)))')
    return "(module " + "\n".join(L) + ")"


def tables(ck, pid, cfgs):
    out = []
    for it, it2 in (("i32", "i32"), ("i64", "i64"), ("i32", "i64"), ("i64", "i32")):
        I, J = (i32 if it == "i32" else i64), (i32 if it2 == "i32" else i64)
        K = i64 if it == it2 == "i64" else i32
        ops = [inst()] + [call("a.copy", I(d), I(s), I(n)) for d, s, n in triples(M, M)] + [call("a.across", I(d), J(s), K(n)) for d, s, n in triples(M, M)]
        ops += [call("a.init", I(d), i32(s), i32(n)) for d, s, n in triples(M, M)] + [call("a.fill", I(d), I(n)) for n in range(M + 2) for d in range(M + 2) if d + n <= M + 1]
        ops.insert(1 + 3 * len(ops) // 4, call("a.grow", I(2)))
        out.append(script(f"{pid}small-{it}-{it2}", [table(it, it2, "funcref")], ops, cfgs))
    return out
