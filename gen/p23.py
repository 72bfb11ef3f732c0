"""P23: handles work only with the store that created them."""
from .core import *

TECHNIQUE = ("TLC trace validation: two or three stores with alike contents are part of the specification's state; random histories use every operation with handles of any store, from the top level and from "
             "host functions, as imports and links; the specification rejects each foreign use without effect, and every store is compared at the end")

MOD = '''(module
  (type $v (func)) (type $i (func (param i32) (result i32)))
  (import "h" "f" (func $h (type $i)))
  (memory (export "m") 1 4) (table (export "t") 4 8 funcref) (table (export "x") 3 externref)
  (global (export "g") (mut i32) (i32.const {g})) (global (export "c") i64 (i64.const {g}))
  (data (i32.const 4) "{d}") (elem (i32.const 0) func $set $get)
  (func $get (export "get") (type $i) (i32.load8_u (local.get 0)))
  (func $set (export "set") (type $i) (i32.store8 (local.get 0) (i32.const {s})) (i32.const {s}))
  (func (export "host") (type $i) (call $h (local.get 0)))
  (func (export "ind") (type $i) (call_indirect (type $i) (local.get 0) (i32.and (local.get 0) (i32.const 3))))
  (func (export "two") (param i32 i64 f32 f64) (result i64 i32) (local.get 1) (local.get 0))
  (func $st (global.set 0 (i32.add (global.get 0) (i32.const 1)))) {start})'''
IMP = '''(module (import "a" "get" (func $g (param i32) (result i32))) (import "a" "m" (memory $m 1)) (import "a" "t" (table 1 funcref)) (import "a" "g" (global (mut i32)))
  (func (export "q") (param i32) (result i32) (i32.add (call $g (local.get 0)) (i32.load8_u (local.get 0)))) (func (export "w") (param i32) (i32.store8 (local.get 0) (i32.const 99)) (global.set 0 (local.get 0))))'''
KINDS = {"m": '(memory 1)', "t": "(table 1 funcref)", "g": "(global (mut i32))", "get": "(func (param i32) (result i32))"}


def one(ck, c, cfgs):
    r = Rng(f"P23-{ck.seed}-{c}")
    ns = r.choice([2, 2, 3])
    wats = [MOD.format(g=10 * (k + 1), d=chr(97 + k) * 3, s=40 + k, start="(start $st)" if r.random() < 0.5 else "") for k in range(ns)]
    wats.append(IMP)
    single = []
    for nm, t in KINDS.items():
        wats.append(f'(module (import "z" "{nm}" {t}))')
        single.append((nm, len(wats)))
    S = range(1, ns + 1)
    def handle(kind, s=None):
        s = s or r.choice(list(S))
        return {"m": [f"a{s}.m", f"m{s}"], "t": [f"a{s}.t", f"t{s}"], "x": [f"a{s}.x"], "g": [f"a{s}.g", f"a{s}.c", f"g{s}"], "f": [f"a{s}.{n}" for n in ("get", "set", "host", "ind", "two")] + [f"h{s}"]}[kind][0 if r.random() < 0.5 else -1] \
            if kind != "f" else r.choice([f"a{s}.{n}" for n in ("get", "set", "host", "ind", "two")] + [f"h{s}"])
    def use(depth=0):
        k = r.randrange(34)
        m, t, g, f = handle("m"), handle("t"), handle("g"), handle("f")
        args = [i32(r.choice([0, 1, 2, 5])), i64(7), f32(1.0) if False else val("f32", 5), val("f64", 6)] if f.endswith(".two") else [i32(r.choice([0, 1, 2, 5]))]
        s = r.choice(list(S))
        inst_ = f"a{s}"
        if k == 0: return op("m.len", o=m)
        if k == 1: return op("m.pages", o=m)
        if k == 2: return op("m.ty", o=m)
        if k == 3: return op("m.read", o=m, off=r.choice([0, 65530]), n=10)
        if k == 4: return op("m.write", o=m, off=r.choice([0, 65530]), b=[r.randrange(256) for _ in range(8)])
        if k == 5: return op("m.rex", o=m, off=0, n=8)
        if k == 6: return op("m.rvec", o=m, off=2, n=8)
        if k == 7: return op("m.put", o=m, off=r.choice([3, 40]), b=[r.randrange(256) for _ in range(5)])
        if k == 8: return op("m.wcs", o=m, off=50, b=list(b"hey"), c=r.random() < 0.5)
        if k == 9: return op("m.fill", o=m, off=60, n=5, v=r.randrange(256))
        if k == 10: return op("m.copy", o=m, off=70, s=2, n=6)
        if k == 11: return op("m.grow", o=m, d=r.choice([0, 1]))
        if k == 12: return op(r.choice(["m.rcs", "m.rcu", "m.rstr", "m.rjs"]), o=m, off=4, n=4)
        if k == 13: return op("m.cur", o=m, off=r.choice([None, 4]), l=[{"k": "read", "n": 3}, {"k": "write", "b": [r.randrange(256)] * 2}, {"k": "pos"}])
        if k == 14: return op("t.size", o=t)
        if k == 15: return op("t.ty", o=t)
        if k == 16: return op("t.get", o=t, i=r.choice([0, 3, 9]))
        if k == 17: return op("t.load", o=t, i=0, n=2)
        if k == 18: return op("t.set", o=r.choice([t, handle("x")]), i=r.choice([0, 2]), v=r.choice([NULLF, val("externref", 5)]))
        if k == 19: return op("t.copy", o=t, i=1, s=0, n=2)
        if k == 20: return op("t.grow", o=t, i=r.choice([0, 1]), v=NULLF)
        if k == 21: return op("g.get", o=g)
        if k == 22: return op("g.ty", o=g)
        if k == 23: return op("g.set", o=g, v=i32(r.randrange(100)))
        if k in (24, 25): return call(f, *args, **({"typed": True} if r.random() < 0.3 else {}))
        if k == 26: return call(f, *args, d=not depth) if depth else rcall(f, *args, sched=[{"k": "f", "b": 1}], rest={"k": "f", "b": 50})
        if k == 27: return op("hasstart", i=inst_)
        if k == 28: return op("start", i=inst_)
        if k == 29: return op("get", i=inst_, n=r.choice(["m", "t", "g", "get", "two", "nope"]), k=r.choice("fmtg") if r.random() < 0.7 else "other", ty={"p": ["i32"], "r": ["i32"]}, typed=r.random() < 0.5)
        if k == 30:
            nm, mod = r.choice(single)
            return inst(mod, "y", defs=[["z", nm, {"m": m, "t": t, "g": r.choice([g, f"a{s}.g"]), "get": r.choice([f"a{s}.get", f"h{s}"])}[nm]]])
        if k == 31:
            return inst(ns + 1, r.choice(["y", f"b{s}"]), links=[["a", inst_]])
        if k == 32:     # one import from one store, the next from another
            q = r.choice(list(S))
            return inst(ns + 1, "y", defs=[["a", "get", f"a{s}.get"], ["a", "m", f"a{q}.m"], ["a", "t", f"a{s}.t"], ["a", "g", f"a{r.choice([s, q])}.g"]])
        return r.choice([op("eq", o=handle("m"), p=handle("m")), op("eq", o=handle("t"), p=handle("t")), op("eq", o=handle("g"), p=handle("g"))])
    ops = []
    for s in S:
        ops.append(op("use", s=s))
        beh = [{"noin": True, "ops": [use(1) for _ in range(r.choice([0, 2, 4]))], "ret": [i32(100 * s)]} for _ in range(3)] + [{"noin": True, "ret": [i32(s)]}]
        ops.append(hnew(f"h{s}", ["i32"], ["i32"], beh))
        ops.append(op("mnew", **{"as": f"m{s}"}, ty={"it": "i32", "min": 1, "max": 3, "ps": None}))
        ops.append(op("tnew", **{"as": f"t{s}"}, ty={"it": "i32", "min": 3, "max": 6, "et": "funcref"}, v=NULLF))
        ops.append(op("gnew", **{"as": f"g{s}"}, ty="i32", mu=True, v=i32(5 * s)))
        ops.append(inst(r.choice([s, 1]), f"a{s}", defs=[["h", "f", f"h{s}"]], ns=r.random() < 0.3))
    for _ in range(ck.scale(5, 10)):
        ops.append(op("use", s=r.choice(list(S))))
        ops += [use() for _ in range(r.choice([4, 8, 14]))]
    return script(f"P23-{c}", wats, ops, cfgs, ns=ns)


def scripts(ck):
    return [one(ck, c, ["", "rw=0", "mem=paged:4096", "mem=lazy:vec"][:2] if c % 3 else ["", "mem=paged:4096"]) for c in range(ck.scale(160, 2500))]
