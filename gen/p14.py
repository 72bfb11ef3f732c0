"""P14: nested calls from host functions never disturb the suspended caller."""
from . import model, prog, twins
from .core import *

TECHNIQUE = ("TLC trace validation of generated programs whose host functions call back into guests to several levels, trap, exhaust the call stack, instantiate modules and use "
             "memories and tables meanwhile; the suspended frames are part of the specification's state, so any disturbance shows in later events")

HELP = """(module (memory (export "hm") 1) (global (export "hg") (mut i32) (i32.const 0)) (func $s (global.set 0 (i32.const 9))) {start}
 (func $deep (export "deep") (param i32 i64 f32) (result i64) (local v128 i32 f64) (if (result i64) (i32.eqz (local.get 0)) (then (local.get 1)) (else (i64.add (i64.const 1) (call $deep (i32.sub (local.get 0) (i32.const 1)) (local.get 1) (local.get 2))))))
 (func $inf (export "inf") (param v128) (result v128) (local i32 i64) (v128.not (call $inf (local.get 0))))
 (func (export "bad") (param i32) (result i32) i32.const 3 i64.const 4 (local.get 0) (drop (v128.const i32x4 1 2 3 4)) unreachable)
 (func (export "many") (result i32 i64 f32 f64 v128 i32 i64) i32.const 1 i64.const 2 f32.const 3 f64.const 4 v128.const i32x4 5 6 7 8 i32.const 9 i64.const 10)
 (func (export "id") (param i32 i64 f32 f64 v128 funcref externref) (result externref funcref v128 f64 f32 i64 i32) local.get 6 local.get 5 local.get 4 local.get 3 local.get 2 local.get 1 local.get 0))"""


def nested_ops(r, m, names, level):
    """One thing a host function does before it returns."""
    x = r.random()
    i = r.choice(["a", "a", "b"])
    if x < 0.40:
        j = r.randrange(m.n)
        return call(f"{i}.e{j}", *[m.arg(t) for t in m.sigs[j][0]], **dict({"as": "n"}, **({"typed": True} if r.random() < 0.3 else {})))
    if x < 0.46:
        return call("s.deep", i32(r.choice([0, 1, 5, 17, 30, 60])), r.v("i64"), r.v("f32"), **{"as": "n"})
    if x < 0.50:
        return call("s.inf", r.v("v128"))
    if x < 0.54:
        return call("s.bad", i32(1))
    if x < 0.58:
        return r.choice([call("s.many", **{"as": "n"}), call("s.id", r.v("i32"), r.v("i64"), r.v("f32"), r.v("f64"), r.v("v128"), NULLF, NULLE, **{"as": "n"})])
    if x < 0.62:
        return call(f"{i}.e0", d=True)                      # a direct call while another invocation is active
    if x < 0.64:
        return rcall("s.deep", i32(3), i64(1), r.v("f32"))
    if x < 0.66:
        return op("start", i="s")
    if x < 0.70:
        return inst(2, f"N{r.randrange(100)}", **({"ns": True} if r.random() < 0.5 else {}))
    if x < 0.72:
        return inst(3, f"N{r.randrange(100)}")              # has a start function
    if x < 0.76:
        return op("m.put", o=f"{i}.m0", off=r.randrange(64), b=[r.randrange(256) for _ in range(r.randint(1, 6))])
    if x < 0.79:
        return op("m.grow", o=f"{i}.m0", d=r.choice([0, 1]))
    if x < 0.82:
        return op("t.set", o=f"{i}.t0", i=r.randrange(4), v=NULLF)
    if x < 0.84:
        return op("t.grow", o=f"{i}.t0", i=r.choice([0, 1]), v=NULLF)
    if x < 0.86:
        return hnew(f"X{r.randrange(99)}", ["i32"], ["i32"])
    if x < 0.89:
        return op("obs")
    if x < 0.92:
        return call(f"{i}.e0", *([i32(0)] * 7))             # a rejected call
    if x < 0.95 and m.hosts:
        j = r.randrange(len(m.hosts))
        return call(f"h{j}", *[m.arg(t) for t in m.hosts[j][0]], **{"as": "n"})
    return op("gget", i=i, n="g0", ctx=r.random() < 0.5)


def one(r, c, cfgs, n, **opts):
    m = prog.Mod(r, prog.Opt(**opts))
    w = m.wat()
    ops = []
    defs = []
    for j, (p, q) in enumerate(m.hosts):
        beh = []
        for _ in range(r.randint(3, 7)):
            ret = []
            for t in q:
                same = [k for k, x in enumerate(p) if x == t]
                ret.append({"arg": r.choice(same)} if same and r.random() < 0.6 else m.arg(t))
            # the instance a host function called by the host belongs to is not specified
            b = {"noin": True, "ret": ret}
            if r.random() < 0.8:
                b["ops"] = [nested_ops(r, m, None, 0) for _ in range(r.choice([1, 1, 2, 3]))]
                if r.random() < 0.2:
                    b["ret"] = "last"
                if r.random() < 0.25:
                    b["prop"] = True
            beh.append(b)
        beh[-1] = {"noin": True, "ret": [m.arg(t) for t in q]}
        ops.append(hnew(f"h{j}", p, q, beh, typed=r.random() < 0.4 and all(b["ret"] != "last" for b in beh)))
        defs.append(["h", f"h{j}", f"h{j}"])
    ops += [inst(2, "s"), inst(1, "a", defs=defs), inst(1, "b", defs=defs)]
    cs = m.calls("a", k=n) + m.calls("b", k=1)
    r.shuffle(cs)
    for k in range(len(cs)):
        if r.random() < 0.2:
            cs[k] = dict(cs[k], op="rcall", sched=[{"k": "f", "b": r.choice([1, 7, 60, 300])} for _ in range(4)])
    ops += cs
    return script(f"P14-{c}", [w, HELP.format(start=""), HELP.format(start="(start $s)")], ops, cfgs)


# recursion through the host: f calls h, which calls f
REC = """(module (import "h" "h" (func $h (param {P}) (result {P}))) (global $n (export "n") (mut i32) (i32.const 0)) (global (export "g0") (mut i32) (i32.const 0)) (memory (export "m0") 1) (table $t 2 funcref) (elem (i32.const 0) func $h $f)
 (func $f (export "f") (param {P}) (result {P}) {L}
  (global.set $n (i32.add (global.get $n) (i32.const 1)))
  {setl}
  {low} {gets} {inv}
  {keep}
  {chk})
 (func (export "k") (param {P}) (result {P}) {gets} {invk}))"""


def rec(r, c, cfgs):
    P = r.choice([["i32"], ["i32", "i64"], ["i32", "f32", "v128"], ["i32", "externref", "f64"], ["i32"] * 3 + ["i64"] * 2])
    L = [r.choice(["i32", "i64", "v128", "f64", "funcref"]) for _ in range(r.randrange(6))]
    low = [r.choice(["i32", "i64", "v128", "f64"]) for _ in range(r.randrange(4))]
    gets = " ".join(f"local.get {j}" for j in range(len(P)))
    tail = r.random() < 0.3
    inv = r.choice(["call $h", f"i32.const 0 call_indirect (param {' '.join(P)}) (result {' '.join(P)})"])
    keep = " ".join(f"local.set {j}" for j in reversed(range(len(P)))) + " drop" * len(low) + " " + gets
    chk = " ".join(f"local.get {len(P) + j} drop" for j in range(len(L)))
    w = REC.format(P=" ".join(P), L=wtypes("local", L), setl=" ".join(f"{'ref.null func' if t == 'funcref' else const(t, r.bits(t))} local.set {len(P) + j}" for j, t in enumerate(L)),
                   low=" ".join(const(t, r.bits(t)) for t in low), gets=gets, inv=inv if not tail else inv.replace("call", "return_call", 1), keep="unreachable" if tail else keep, chk="" if tail else chk,
                   invk="call $f" if r.random() < 0.5 else f"i32.const 1 call_indirect (param {' '.join(P)}) (result {' '.join(P)})")
    args = [r.v(t) if t not in ("externref",) else val(t, 5) for t in P]
    depth = r.choice([3, 8, 20, 39, 40, 41, 42, 200])
    go = {"ops": [call(r.choice(["a.f", "a.f", "a.k"]), *[{"arg": j} for j in range(len(P))], **{"as": "n"})], "ret": "last" if r.random() < 0.5 else [{"arg": j} for j in range(len(P))]}
    if r.random() < 0.4:
        go["prop"] = True
    stop = r.choice([{"ret": [{"arg": j} for j in range(len(P))]}, {"err": "deepest"}, {"ret": []}])
    beh = [dict(go, noin=True)] * depth + [dict(stop, noin=True)]
    ops = [hnew("h", P, P, beh), inst(1, "a", defs=[["h", "h", "h"]])]
    for _ in range(4):
        ops += [call(r.choice(["a.f", "a.k", "h"]), *args), op("g.get", o="a.n")]
    if r.random() < 0.5:
        ops += [rcall("a.f", *args, sched=[{"k": "f", "b": 3}])]
    return script(f"P14r-{c}", [w], ops, cfgs)


def scripts(ck):
    lim = [["call=fixed:40", "rw=0;call=fixed:40"], ["call=dyn:2:40", "rw=0;call=dyn:0:40"], ["call=fixed:25;arch=1"], ["call=fixed:60;vs=dyn:16:100000", "call=fixed:60;rw=0;vs=dyn:2:100000"]]
    out = []
    for c in range(ck.scale(70, 1200)):
        r = Rng(f"P14-{ck.seed}-{c}")
        out.append(one(r, c, lim[c % 4], ck.scale(3, 4), host=r.choice([2, 3, 4]), refs=r.random() < 0.3, simd=r.random() < 0.4, tail=r.choice([0, 0.2]), size=r.choice([14, 22]), far=r.choice([0, 0.3]), maxargs=r.choice([2, 4])))
    out += model.nest(ck, "P14", ["", "rw=0"], ck.scale(2200, 10**6), depth=ck.scale(3, 4))
    out += twins.scripts(ck, "P14", ck.scale(40, 500), ck.scale(8, 16))
    out += [rec(Rng(f"P14r-{ck.seed}-{c}"), c, lim[c % 3]) for c in range(ck.scale(40, 400))]
    return out
