"""P13: host calls pass and return values faithfully, and errors surface as errors."""
from . import p01
from .core import *

TECHNIQUE = ("TLC trace validation: argument and result values, the calling instance, the continuation after the call and the error outcome of every host call "
             "made directly, indirectly, by tail call, nested and from the host are decided by the specification's call, return and boundary transitions")

SIX = ["i32", "i64", "f32", "f64", "i32", "i64"]
TYPED = [([], []), (["i32"], []), ([], ["i32"]), ([], ["i64"]), ([], ["f64"]), ([], ["funcref"]), ([], ["externref"]), (["i32"], ["i32"]), (["i64"], ["i64"]), (["f32"], ["f32"]), (["f64"], ["f64"]),
         (["i64"], ["i32"]), (["funcref"], ["funcref"]), (["externref"], ["externref"]), (["externref"], ["i32"]), (["funcref"], ["i32"]), (["i32", "i32"], ["i32"]), (["i64", "i64"], ["i64"]),
         (["i32", "i64"], ["i64", "i32"]), (["f32", "f64"], ["f64", "f32"]), (["i32", "i32"], ["i32", "i32"]), (["i32", "i64", "f32", "f64"], ["f64", "f32", "i64", "i32"]),
         (["funcref", "externref"], ["externref", "funcref"]), (SIX, SIX), (SIX + SIX[2:] + SIX[:4][2:] if False else ["i32", "i64", "f32", "f64"] * 3, ["i32", "i64", "f32", "f64"] * 3),
         (SIX + ["f64", "f32", "i64", "i32", "f64", "f32", "i64"], SIX + ["f64", "f32", "i64", "i32", "f64", "f32", "i64"]),
         (SIX + ["i64"] + SIX, SIX + ["i64"] + SIX), (SIX, SIX + ["f64", "f32", "i64", "i32", "f64", "f32", "i64"]), (SIX + ["f64", "f32", "i64", "i32", "f64", "f32", "i64"], ["i32"])]
ALL = ["i32", "i64", "f32", "f64", "v128", "funcref", "externref"]


def randsig(r):
    n = lambda: r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 16, 17, 24])
    return [r.choice(ALL) for _ in range(n())], [r.choice(ALL) for _ in range(n())]


def rv(r, t):
    if t == "funcref":
        return r.choice([NULLF, var("F1"), var("F2")])
    if t == "externref":
        return r.choice([NULLE, val("externref", r.randrange(100))])
    return r.v(t)


def cst(r, t, body=True):
    if t == "funcref":
        return r.choice(["ref.null func", "ref.func $me", "ref.func $h0"])
    if t == "externref":
        return "ref.null extern"
    return const(t, r.bits(t))


def retvals(r, p, q, wrong=False):
    out = []
    for t in q:
        js = [i for i, x in enumerate(p) if x == t]
        out.append({"arg": r.choice(js)} if js and r.random() < 0.5 else rv(r, t))
    if wrong:
        x = r.randrange(5)
        if x == 0 or not out:
            out.append(rv(r, r.choice(ALL)))
        elif x == 1:
            out.pop(r.randrange(len(out)))
        elif x == 2 and len(out) > 1:
            out[0], out[-1] = out[-1], out[0]
        elif x == 3:
            k = r.randrange(len(out))
            out[k] = rv(r, r.choice([t for t in ALL if t != q[k]]))
        else:
            out = []
    return out


def behaviours(r, p, q, nested, typed=False):
    bs = []
    for _ in range(r.randint(1, 4)):
        x = r.random()
        b = {}
        if nested and r.random() < 0.25:
            b["ops"] = [r.choice(nested) for _ in range(r.randint(1, 2))]
        if x < 0.72:
            b["ret"] = retvals(r, p, q)
        elif x < 0.84:
            b["err"] = r.choice(["e1", "e2", "e3"])
        elif x < 0.90:
            b["trap"] = r.choice(["unreachable", "div_zero", "oom", "int_overflow"])
        else:
            b["ret"] = retvals(r, p, q, wrong=not typed)
        bs.append(b)
    bs[-1].pop("ops", None)     # the last one is used from then on
    return bs


LOCS = ["i32", "v128", "i64", "f32", "funcref", "f64", "externref"]


class Calls:
    """A module calling each of its host imports in every way."""

    def __init__(self, r, sigs, second=False):
        L = ["(module"]
        self.calls = []
        for k, (p, q) in enumerate(sigs):
            L.append(f"(type $t{k} (func {wtypes('param', p)} {wtypes('result', q)}))")
        for k, (p, q) in enumerate(sigs):
            L.append(f'(import "h" "h{k}" (func $h{k} (type $t{k})))')
        n = len(sigs)
        L.append(f'(import "a" "t" (table $t {n} funcref))' if second else f'(table $t (export "t") {2 * n} funcref)')
        if not second:
            L.append(f"(elem (i32.const 0) func " + " ".join(f"$h{k}" for k in range(n)) + ")")
        L.append('(memory (export "m") 1) (global $g (export "g") (mut i64) (i64.const 5))')
        L.append("(elem declare func $me $h0) (func $me (export \"me\") (param i32) (result i32) (i32.add (local.get 0) (i32.const 1)))")
        if not second:
            L.append('(func (export "refs") (result funcref funcref) ref.func $me ref.func $h0)')
        for k, (p, q) in enumerate(sigs):
            P, Q = wtypes("param", p), wtypes("result", q)
            gets = " ".join(f"local.get {j}" for j in range(len(p)))
            L.append(f'(export "h{k}" (func $h{k}))')
            for kind in "cinx":
                if r.random() < 0.25:
                    continue
                nm = f"{kind}{k}"
                inv = f"call $h{k}" if kind in "cn" else f"i32.const {k} call_indirect $t (type $t{k})"
                # locals of every width around the call, and operands below it
                ls = [r.choice(LOCS) for _ in range(r.randrange(4))]
                base = len(p)
                setl = " ".join(f"{cst(r, t)} local.set {base + j}" for j, t in enumerate(ls))
                below = [r.choice(LOCS) for _ in range(r.randrange(4))]
                low = " ".join(cst(r, t) for t in below)
                args = gets if kind in "ci" else " ".join(cst(r, t) for t in p)
                tee = ""
                if q and r.random() < 0.5:
                    ls.append(q[-1])
                    tee = f"local.{r.choice(['tee', 'tee', 'set'])} {base + len(ls) - 1}"
                    if "set" in tee:
                        tee += f" local.get {base + len(ls) - 1}"
                getl = " ".join(f"local.get {base + j}" for j in range(len(ls)))
                outs = below + q + ls
                if r.random() < 0.3:        # inside blocks
                    bt = f"(block {P if kind == 'never' else ''} {Q} "
                    core = f"(block {Q} {args} {inv} {'br 0' if r.random() < 0.5 else ''})"
                else:
                    core = f"{args} {inv}"
                L.append(f'(func ${nm} (export "{nm}") {P} {wtypes("result", outs)} {wtypes("local", ls)} {setl} {low} {core} {tee} {getl})')
                self.calls.append((nm, p))
            for kind in "tTy":
                nm = f"{kind}{k}"
                inv = f"return_call $h{k}" if kind == "t" else f"i32.const {k} return_call_indirect $t (type $t{k})"
                low = " ".join(cst(r, r.choice(LOCS)) for _ in range(r.randrange(3)))
                args = gets if r.random() < 0.7 else " ".join(cst(r, t) for t in p)
                if kind == "y":     # a call to a function ending in a tail call to the host
                    L.append(f'(func ${nm} (export "{nm}") {P} {wtypes("result", ["i32"] + q)} i32.const {7000 + k} {gets} call ${r.choice("tT")}{k})')
                else:
                    L.append(f'(func ${nm} (export "{nm}") {P} {Q} {low} {f"(block {args} {inv})" if False else f"{args} {inv}"})')
                self.calls.append((nm, p))
            if p == q:      # results straight into the next call
                L.append(f'(func (export "d{k}") {P} {Q} {gets} call $h{k} call $h{k} {f"i32.const {k} call_indirect $t (type $t{k})"})')
                self.calls.append((f"d{k}", p))
            if q == ["i32"] and len(p) <= 2:    # a loop of calls
                L.append(f'(func (export "l{k}") {P} (result i32 i32) (local $n i32) (local $s i32) (local.set $n (i32.const 4)) (loop $l {gets} call $h{k} local.get $s i32.add local.set $s '
                         f'(br_if $l (local.tee $n (i32.sub (local.get $n) (i32.const 1))))) local.get $s local.get $n)')
                self.calls.append((f"l{k}", p))
            if q == []:
                L.append(f'(func (export "e{k}") {P} (result i64) {gets} call $h{k} (global.set $g (i64.add (global.get $g) (i64.const 1))) (i32.store (i32.const 8) (i32.const {k + 1})) global.get $g)')
                self.calls.append((f"e{k}", p))
        L.append(")")
        self.wat = "\n".join(L)


def one(r, c, n, cfgs):
    sigs = [r.choice(TYPED) for _ in range(4)] + [randsig(r) for _ in range(3)]
    r.shuffle(sigs)
    a, b = Calls(r, sigs), Calls(r, sigs, True)
    nested = [call("a.me", i32(41)), call("b.me", i32(3)), op("m.put", o="a.m", off=0, b=[9, 8, 7]), op("g.set", o="a.g", v=i64(r.randrange(99)))]
    for m, x in ((a, "a"), (b, "b")):
        f, p = r.choice(m.calls)
        if len(p) < 3:
            nested.append(call(f"{x}.{f}", *[rv(r, t) for t in p]))
    pre = """(module (func $me (export "me") (param i32) (result i32) (i32.add (local.get 0) (i32.const 1))) (elem declare func $me) (func (export "refs") (result funcref funcref) ref.func $me ref.func $me))"""
    ops = [inst(3, "pre"), call("pre.refs", **{"as": "F1"})]
    ops[1]["as"] = "F1"
    ops.append(call("pre.refs", **{"as": "F2"}))
    for k, (p, q) in enumerate(sigs):
        typed = r.random() < 0.5
        ops.append(hnew(f"h{k}", p, q, behaviours(r, p, q, nested, typed and (p, q) in TYPED), **({"typed": True} if typed else {})))
    defs = [["h", f"h{k}", f"h{k}"] for k in range(len(sigs))]
    ops += [inst(1, "a", defs=defs), inst(2, "b", defs=defs, links=[["a", "a"]]), call("a.refs", **{"as": "F2"})]
    for _ in range(n):
        m, x = r.choice([(a, "a"), (b, "b")])
        f, p = r.choice(m.calls)
        k = {"typed": True} if r.random() < 0.3 else {}
        av = [rv(r, t) for t in p]
        y = r.random()
        if y < 0.75:
            ops.append(call(f"{x}.{f}", *av, **k))
        elif y < 0.82:
            ops.append(rcall(f"{x}.{f}", *av, sched=[{"k": "f", "b": r.choice([1, 5, 100])} for _ in range(3)], **k))
        elif y < 0.97:
            j = r.randrange(len(sigs))
            av = [rv(r, t) for t in sigs[j][0]]
            # called straight from the embedder, the calling instance of a host function is unspecified
            ops.append(call(f"a.me", i32(1)) if y < 0.9 else call(f"P{j}", *av, **k))
        else:
            ops.append(op("obs"))
    # host functions called by the embedder itself
    for j, (p, q) in enumerate(sigs):
        bs = [dict(x, noin=True) for x in behaviours(r, p, q, [], (p, q) in TYPED)]
        ops.insert(3, hnew(f"P{j}", p, q, bs, **({"typed": True} if (p, q) in TYPED and r.random() < 0.5 else {})))
    return script(f"P13-{c}", [a.wat, b.wat, pre], ops, cfgs)


def scripts(ck):
    out = [one(Rng(f"P13-{ck.seed}-{c}"), c, ck.scale(50, 70), [["", "rw=0"], ["", "arch=1"], ["call=fixed:40", "call=dyn:3:40"]][c % 3]) for c in range(ck.scale(130, 1300))]
    out += p01.programs(ck, "P13p", ck.scale(40, 600), host=lambda r: r.choice([3, 5]), maxargs=lambda r: r.choice([2, 5, 9]), tail=0.2, refs=True, simd=lambda r: r.random() < 0.3, table=lambda r: r.random() < 0.5)
    return out
