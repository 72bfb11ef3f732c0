"""P01: structured execution."""
from . import prog, twins, windows
from .core import *

CFGS = ["", "rw=0"]


def programs(ck, pid, count, k=3, cfgs=CFGS, **opts):
    out = []
    for j in range(count):
        r = Rng(f"{pid}-{ck.seed}-{j}")
        o = {x: (v(r) if callable(v) else v) for x, v in opts.items()}
        m = prog.Mod(r, prog.Opt(**o))
        w = m.wat()
        hops, defs = m.host_ops()
        out.append(script(f"{pid}-{j}", [w], hops + [inst(defs=defs)] + m.calls(k=k), cfgs))
    return out


def scripts(ck):
    n = ck.scale(60, 1200)
    out = programs(ck, "P01", n)
    out += programs(ck, "P01h", n // 2, host=2, maxargs=3)
    out += [manylocals(ck, c) for c in range(ck.scale(10, 150))]
    out += [deeptable(ck, c) for c in range(ck.scale(12, 150))]
    out += [arity(ck, c) for c in range(ck.scale(12, 150))]
    out += [returns(ck, c) for c in range(ck.scale(24, 400))]
    out += windows.scripts(ck, "P01", ck.scale(80, 900), 12, lambda r: r.sample(windows.T, r.choice([1, 2, 5])), cut=0.9, mems=("i32", "i32"))
    out += twins.scripts(ck, "P01", ck.scale(30, 400), ck.scale(8, 16))
    out += windows.skeletons(ck, "P01", ck.scale(20, 300), 12)
    out += programs(ck, "P01v", n // 3, simd=True, refs=True, host=1, tail=0.15)
    return out


def manylocals(ck, c, pid="P01", ref=0.3):
    """Hundreds of locals in runs of every length and kind, over a stack that other functions left dirty."""
    r = Rng(f"{pid}ml-{ck.seed}-{c}")
    par = [r.choice(NT + ["externref"]) for _ in range(r.choice([0, 1, 5]))]
    ts = []
    groups = []
    for _ in range(r.choice([3, 6, 12])):
        t = r.choice(["funcref", "externref"]) if r.random() < ref else r.choice(NT)
        n = r.choice([1, 1, 2, 3, 10, 33, 64, 65, 70, 127, 129, 255, 256, 260, 400])
        if len(ts) + n > 900:
            continue
        groups.append(f"(local {' '.join([t] * n)})")
        ts += [t] * n
    al = par + ts
    V = lambda t: val("externref", r.randrange(9)) if t == "externref" else r.v(t)
    Z = lambda t: "ref.null extern" if t == "externref" else "ref.null func" if t == "funcref" else const(t, r.bits(t))
    edge = [i for i in range(len(al)) if i in (0, len(al) - 1) or i >= len(par) and (al[i] != al[i - 1] or i + 1 < len(al) and al[i] != al[i + 1])]

    def some(n):
        x = r.sample(range(len(al)), min(len(al), n)) + r.sample(edge, min(len(edge), n // 2))
        return x[:14]

    def see(ix):
        return " ".join(f"local.get {i} ref.is_null" if "ref" in al[i] else f"local.get {i}" for i in ix), " ".join("i32" if "ref" in al[i] else al[i] for i in ix)
    L = [f'(func $d (export "dirty") (param externref) {" ".join(Z(t) for t in r.choices(NT, k=300))} {"ref.func $d " * 90} {"local.get 0 " * 60} {"drop " * 450})']
    ops = [inst(), call("a.dirty", val("externref", 5))]
    for j in range(4):
        a, at = see(some(8))
        wr = r.sample(range(len(al)), min(len(al), 10))
        W = " ".join((f"ref.func $d local.set {i}" if al[i] == "funcref" else f"local.get $x local.set {i}" if al[i] == "externref" else f"{const(al[i], r.bits(al[i]))} local.{'set' if r.random() < 0.6 else 'tee'} {i}").replace("$x", str(len(al))) for i in wr)
        W = W + " " + "drop " * W.count("local.tee")
        b, bt = see(r.sample(wr, min(4, len(wr))) + some(5))
        # the extra externref comes last among the locals
        L.append(f'(func (export "f{j}") (param {" ".join(par)}) (result {at} {bt}) {" ".join(groups)} (local externref) {a} {W} {"call $k" if r.random() < 0.5 else ""} {b})')
        ops += [call(f"a.f{j}", *[V(t) for t in par]), call("a.dirty", val("externref", 5)), call(f"a.f{j}", *[V(t) for t in par])]
    L.append("(elem declare func $d) (func $k (call $d (ref.null extern)))")
    return script(f"{pid}ml-{c}", ["(module " + "\n".join(L) + ")"], ops, CFGS)


def deeptable(ck, c, pid="P01"):
    """Branch tables over tens of labels of different arities' contexts, some with everything they leave on the stack."""
    r = Rng(f"{pid}dt-{ck.seed}-{c}")
    n = r.choice([5, 15, 16, 17, 18, 33, 40, 70])
    res = [r.choice(NT) for _ in range(r.choice([0, 1, 2, 3]))]
    R = f"(result {' '.join(res)})" if res else ""
    P = " ".join
    vals = P(const(t, r.bits(t)) for t in res)
    junk = [P(const(t, r.bits(t)) for t in (r.choice(NT) for _ in range(r.choice([0, 0, 1, 2])))) for _ in range(n + 1)]
    m = r.choice([n, n, 2 * n, n // 2 + 1])
    tg = list(range(n + 1))
    r.shuffle(tg)
    if m < n:
        tg = tg[:m + 1]
    else:
        tg += [r.randrange(n + 1) for _ in range(m - n)]
    body = f"{vals} (local.get $c) (br_table {P(map(str, tg))})"
    ops = [inst()]
    for d in range(n):
        post = f"(local.set $n (i32.add (i32.mul (local.get $n) (i32.const 3)) (i32.const {d})))" if r.random() < 0.7 else ""
        # what waits below stays when a branch leaves to here, and goes when one leaves further
        body = f"{junk[d]} (block {R} {body}) {post}"
        body += " drop" * (len(res) + junk[d].count(".const")) + f" {vals}"
    L = [f'(func (export "f") (param $c i32) {R} (local $n i32) {body} (global.set 0 (local.get $n)))', '(global (export "n") (mut i32) (i32.const 0))']
    L.append(f'(func (export "o") (param $c i32) (result i64 {P(res)} i32) i64.const 5 (call 0 (local.get $c)) global.get 0)')
    for k in sorted(set([0, 1, 15, 16, 17, len(tg) - 2, len(tg) - 1, len(tg)] + [r.randrange(len(tg)) for _ in range(8)])):
        ops.append(call("a.o", i32(max(0, k))))
    return script(f"{pid}dt-{c}", ["(module " + "\n".join(L) + ")"], ops, CFGS)


def arity(ck, c, pid="P01"):
    """Signatures of hundreds of values: blocks, branches, calls and returns around what 8 bits count."""
    r = Rng(f"{pid}ar-{ck.seed}-{c}")
    n = r.choice([127, 128, 250, 254, 255, 256, 257, 258, 300, 511, 513, 700, 1000])
    one = r.random() < 0.5
    big = [r.choice(NT)] * n if one else [r.choice(NT) for _ in range(n)]
    if r.random() < 0.4:
        big[r.randrange(n)] = "externref"
    if r.random() < 0.5:            # all of one kind but a few
        z = r.choice(NT)
        big = [x if r.random() < 0.03 else z for x in big]
    R = f"(result {' '.join(big)})"
    vals = " ".join("ref.null extern" if t == "externref" else const(t, r.bits(t)) for t in big)
    junk = " ".join(const(t, r.bits(t)) for t in (r.choice(NT) for _ in range(r.choice([0, 1, 3, 6]))))
    take = ""
    for t in reversed(big):
        take += " drop" if t == "externref" else f" {OBS[t]} (i64.add (i64.rotl (local.get $x) (i64.const 5))) local.set $x"
    p = " ".join(big)
    body = {
        "block": f"(block $o (result {p}) {junk} {vals} (br_if 0 (local.get $c)) (br $o)) {take}",
        "table": f"(block $o (result {p}) (block $p (result {p}) {junk} {vals} (br_table $o $p $o (local.get $c)))) {take}",
        "call": f"i64.const 99 {vals} call $id {take} (i64.add (local.get $x)) local.set $x",
        "ret": f"i64.const 98 (local.get $c) call $many {take} (i64.add (local.get $x)) local.set $x",
        "loop": f"{vals} (loop $l (param {p}) (result {p}) (if (param {p}) (result {p}) (local.get $c) (then (local.set $c (i32.const 0)) {'drop ' * n} {junk} {vals} (br $l)))) {take}",
        "tail": f"i64.const 97 (local.get $c) call $tail {take} (i64.add (local.get $x)) local.set $x",
        "ind": f"i64.const 96 {vals} (i32.const 0) call_indirect (type $t) {take} (i64.add (local.get $x)) local.set $x",
        "host": f"i64.const 95 {vals} call $h {take} (i64.add (local.get $x)) local.set $x"}
    L = [f'(type $t (func (param {p}) {R}))', f'(import "h" "h" (func $h (type $t)))',
         f'(func $id (export "id") (type $t) (local i64 v128) {" ".join(f"local.get {i}" for i in range(n))})',
         f'(func $many (export "many") (param $c i32) {R} (local v128) {junk} {vals} (if (param {p}) (result {p}) (local.get $c) (then return)) return)',
         f'(func $tail (param $c i32) {R} {junk} {vals} {r.choice(["return_call $id", "(i32.const 0) return_call_indirect (type $t)", "return_call $h"])})', '(table 1 funcref) (elem (i32.const 0) func $id)']
    ks = r.sample(list(body), 4)
    for k in ks:
        L.append(f'(func (export "{k}") (param $c i32) (param $y i64) (result i64 i64) (local $x i64) (local $v v128) {body[k]} local.get $y local.get $x)')
    ret = [NULLE if t == "externref" else r.v(t) for t in big]
    ops = [hnew("h", big, big, [{"ret": ret, "noin": True}]), inst(defs=[["h", "h", "h"]])]
    for k in ks:
        ops += [call(f"a.{k}", i32(x), r.v("i64")) for x in (0, 1)]
    ops += [call("a.many", i32(r.randrange(2))), call("a.id", *ret), call("a.id", *ret[1:])]
    return script(f"{pid}ar-{c}", ["(module " + "\n".join(L) + ")"], ops, CFGS)


# every way to leave a function, with values of every width waiting in the caller, in locals and on
# the operand stack of the function that is left
NT = ["i32", "i64", "f32", "f64", "v128"]
OBS = {"i32": "i64.extend_i32_u", "i64": "", "f32": "i32.reinterpret_f32 i64.extend_i32_u", "f64": "i64.reinterpret_f64", "v128": "(local.set $v) (i64.xor (i64x2.extract_lane 0 (local.get $v)) (i64.rotl (i64x2.extract_lane 1 (local.get $v)) (i64.const 1)))"}


def leave(r, res, junk, how):
    vals = " ".join(f"{const(t, r.bits(t))}" for t in res)
    j = " ".join(const(t, r.bits(t)) for t in junk)
    rt = f"(result {' '.join(res)})" if res else ""
    if how == "fall":
        return vals                                    # nothing else on the stack
    if how == "return":
        return f"{j} {vals} return"
    if how == "br":
        return f"{j} (block (br_if 0 (local.get $c)) {vals} (br 1)) {j} {vals} (br 0)"
    if how == "br_if":
        return f"{j} {vals} (br_if 0 (i32.const 1)) {'drop ' * len(res)} {j} unreachable"
    if how == "br_table":
        return f"{j} (block $b {rt} {j} {vals} (br_table $b 1 $b (local.get $c))) {'drop ' * len(res)} {vals} (br 0)"
    if how == "nested":
        return f"{j} (block {j} (loop {j} (if (i32.eqz (local.get $c)) (then {j} {vals} (return))) {vals} (br 2)) {'unreachable'}) unreachable"
    if how == "if":
        return f"(if {rt} (local.get $c) (then {j} {vals} (return)) (else {vals}))"
    return f"{j} {vals} {'(loop ' + rt.replace('result', 'param') + ' (return))' if res else '(loop (return))'} unreachable"


HOWS = ["fall", "return", "br", "br_if", "br_table", "nested", "if", "loop"]


def returns(ck, c, pid="P01"):
    r = Rng(f"{pid}r-{ck.seed}-{c}")
    L, calls = [], []
    for j in range(10):
        res = [r.choice(NT) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
        par = [r.choice(NT + ["funcref", "externref"]) for _ in range(r.choice([0, 0, 1, 2, 4]))]
        loc = [r.choice(NT) for _ in range(r.choice([0, 0, 1, 2, 5]))]
        junk = [r.choice(NT) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        pend = [r.choice(NT) for _ in range(r.choice([2, 3, 5]))]
        how = HOWS[(c + j) % len(HOWS)] if r.random() < 0.8 else r.choice(HOWS)
        p = " ".join(f"(param {t})" for t in par)
        sig = f"(param $c i32) {p}" + (f" (result {' '.join(res)})" if res else "")
        L.append(f"(func $f{j} {sig} {wtypes('local', loc)} {leave(r, res, junk, how)})")
        if r.random() < 0.3:
            L.append(f"(func $w{j} {sig} {wtypes('local', junk)} {' '.join(f'local.get {i}' for i in range(1 + len(par)))} return_call $f{j})")
            callee = f"$w{j}"
        else:
            callee = f"$f{j}"
        a = " ".join("ref.null func" if t == "funcref" else "ref.null extern" if t == "externref" else const(t, r.bits(t)) for t in par)
        body = " ".join(const(t, r.bits(t)) for t in pend) + f" local.get $c {a} call {callee}"
        for t in list(reversed(res)) + list(reversed(pend)):       # everything that is on the stack, mixed into one number
            body += f" {OBS[t]} (i64.add (i64.rotl (local.get $x) (i64.const 5))) local.set $x"
        L.append(f'(func (export "g{j}") (param $c i32) (param $y i64) (result i64 i64) (local $x i64) (local $v v128) {body} local.get $y local.get $x)')
        calls += [call(f"a.g{j}", i32(k), r.v("i64")) for k in (0, 1, 2)]
    return script(f"{pid}r-{c}", ["(module " + "\n".join(L) + ")"], [inst()] + calls, ["", "rw=0"] if c % 2 else ["", "rw=0;fp=w"])
