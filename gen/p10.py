"""P10: globals keep type, mutability and sharing, and initialize exactly."""
from . import model, p01, twins
from .core import *

TYS = ["i32", "i64", "f32", "f64", "v128", "funcref", "externref"]


def rv(r, t, refs=("fa", "fb")):
    if t == "funcref":
        return NULLF if r.random() < 0.3 else var(r.choice(refs))
    if t == "externref":
        return val("externref", r.choice([-1, 0, 1, 5, 2**31 - 1]))
    return r.v(t)


def expr(r, t, avail, depth, earlier=True):
    """A constant expression of type t; avail: [(index, type)] of immutable globals it may read."""
    gs = [i for i, q in avail if q == t]
    if gs and r.random() < 0.4:
        return f"global.get {r.choice(gs)}"
    if t in ("i32", "i64"):
        if depth and r.random() < 0.6:
            return f"{expr(r, t, avail, depth - 1)} {expr(r, t, avail, depth - 1)} {t}.{r.choice(['add', 'sub', 'mul'])}"
        return const(t, r.bits(t))
    if t == "funcref":
        return r.choice(["ref.null func", "ref.func $fa", "ref.func $fb", "ref.func $himp"])
    if t == "externref":
        return "ref.null extern"
    return const(t, r.bits(t))


def accessors(ts):
    """Functions over the globals: plain, and in the shapes the parser fuses."""
    L = []
    for i, (t, mu) in enumerate(ts):
        L.append(f'(func (export "get{i}") (result {t}) global.get {i})')
        if mu:
            L.append(f'(func (export "set{i}") (param {t}) local.get 0 global.set {i})')
            L.append(f'(func (export "swap{i}") (param {t}) (result {t} {t}) global.get {i} local.get 0 global.set {i} global.get {i})')
            L.append(f'(func (export "tee{i}") (param {t}) (result {t}) (local {t}) local.get 0 local.tee 1 global.set {i} local.get 1)')
            if t in ("i32", "i64"):
                L.append(f'(func (export "inc{i}") global.get {i} {t}.const 1 {t}.add global.set {i})')
                L.append(f'(func (export "cnt{i}") (param {t}) (result {t}) (loop global.get {i} {t}.const 3 {t}.sub global.set {i} local.get 0 {t}.const 1 {t}.sub local.tee 0 '
                         f'{t}.const 6 {t}.and {t}.const 0 {t}.ne br_if 0) global.get {i})')
            js = [j for j, (q, _) in enumerate(ts) if q == t and j != i]
            for j in js[:2]:
                L.append(f'(func (export "cp{i}_{j}") global.get {j} global.set {i})')
    return L


def one(r, pid, c, n):
    local = c % 6 == 5      # initializers that read earlier globals of the module: only accepted unvalidated
    nimp = r.randint(0, 6)
    imps = [(r.choice(TYS), r.random() < 0.5) for _ in range(nimp)]
    own = [(r.choice(TYS), r.random() < 0.6) for _ in range(r.randint(2, 8))]
    ts = imps + own
    L = ["(module", '(import "h" "himp" (func $himp (param i32)))']
    o = [hnew("h.himp", ["i32"], [])]
    defs = [["h", "himp", "h.himp"]]
    # a source of function references first
    src = '(module (func $a (export "a") (result i32) i32.const 1) (func $b (export "b") (param i64)) (elem declare func $a $b) (func (export "ra") (result funcref) ref.func $a) (func (export "rb") (result funcref) ref.func $b))'
    o += [inst(2, "s"), call("s.ra", **{"as": "fa"}), call("s.rb", **{"as": "fb"})]
    for i, (t, mu) in enumerate(imps):
        L.append(f'(global (export "i{i}") (import "e" "g{i}") {f"(mut {t})" if mu else t})')
        o.append(op("gnew", **{"as": f"G{i}", "ty": t, "mu": mu, "v": rv(r, t)}))
        defs.append(["e", f"g{i}", f"G{i}"])
    avail = [(i, t) for i, (t, mu) in enumerate(imps) if not mu]
    for i, (t, mu) in enumerate(own):
        L.append(f'(global (export "o{i}") {f"(mut {t})" if mu else t} {expr(r, t, avail, 3)})')
        if local and not mu:
            avail.append((nimp + i, t))
    L.append('(func $fa (export "fa") (result i32) i32.const 21) (func $fb (export "fb") (param f32)) (elem declare func $fa $fb $himp)')
    L += accessors(ts)
    text = "\n".join(L) + ")"
    o += [inst(1, "a", defs=defs), inst(1, "b", defs=defs)]
    # a third module sharing a's globals
    L3 = ["(module"]
    sh = [i for i in range(len(ts)) if r.random() < 0.6]
    ex = lambda i: f"i{i}" if i < nimp else f"o{i - nimp}"
    for i in sh:
        t, mu = ts[i]
        L3.append(f'(import "a" "{ex(i)}" (global {f"(mut {t})" if mu else t}))')
    ts3 = [ts[i] for i in sh]
    av3 = [(k, t) for k, (t, mu) in enumerate(ts3) if not mu]
    own3 = [(r.choice(TYS[:5]), False) for _ in range(3)]
    for k, (t, mu) in enumerate(own3):
        L3.append(f'(global (export "o{k}") {t} {expr(r, t, av3, 2)})')
    L3 += accessors(ts3 + own3)
    o.append(inst(3, "c", links=[["a", "a"]]))
    insts = [("a", ts, ex), ("b", ts, ex), ("c", ts3 + own3, None)]
    refs = ["fa", "fb"]
    for _ in range(n):
        a, q, e = r.choice(insts)
        i = r.randrange(len(q))
        t, mu = q[i]
        k = r.random()
        if k < 0.25 or (k < 0.6 and not mu):
            o.append(call(f"{a}.get{i}"))
        elif k < 0.45:
            o.append(call(f"{a}.set{i}", rv(r, t), typed=r.random() < 0.3))
        elif k < 0.5:
            o.append(call(f"{a}.swap{i}", rv(r, t)))
        elif k < 0.55:
            o.append(call(f"{a}.tee{i}", rv(r, t)))
        elif k < 0.62 and t in ("i32", "i64"):
            o.append(call(f"{a}.inc{i}") if r.random() < 0.6 else call(f"{a}.cnt{i}", r.v(t)))
        elif k < 0.66 and f'"cp{i}_' in (text if a != "c" else "\n".join(L3)):
            js = [j for j in range(len(q)) if f'"cp{i}_{j}"' in (text if a != "c" else "\n".join(L3))]
            o.append(call(f"{a}.cp{i}_{r.choice(js)}"))
        elif e is None:
            o.append(call(f"{a}.get{i}"))
        else:
            name = f"{a}.{e(i)}" if i >= nimp or r.random() < 0.5 else f"G{i}"
            bad = r.random() < 0.25
            v = rv(r, r.choice(TYS) if bad else t)
            w = r.choice(["g.get", "g.set", "g.set", "g.ty", "gget", "gset"])
            if w in ("gget", "gset"):
                o.append(op(w, i=a, n=e(i), v=v, ctx=False))
            else:
                o.append(op(w, o=name, v=v))
    o.append(op("gnew", **{"as": "bad", "ty": "i32", "mu": True, "v": i64(1)}))
    o.append(op("gget", i="a", n="nosuch", v=i32(1)))
    o.append(op("gset", i="a", n="fa", v=i32(1)))
    return script(f"{pid}-{c}", [text, src, "\n".join(L3) + ")"], o, ["val=0"] if local else ["", "rw=0"] if c % 2 else [""])


def scripts(ck):
    out = [one(Rng(f"P10-{ck.seed}-{c}"), "P10", c, ck.scale(60, 90)) for c in range(ck.scale(120, 1200))]
    out += p01.programs(ck, "P10p", ck.scale(12, 150), cfgs=["", "rw=0"], refs=lambda r: r.random() < 0.5, simd=lambda r: r.random() < 0.5)
    out += twins.scripts(ck, "P10", ck.scale(20, 300), ck.scale(8, 16), host=False)
    out += model.life(ck, "P10", ["", "rw=0"], ck.scale(700, 20000), kinds=4)
    return out
