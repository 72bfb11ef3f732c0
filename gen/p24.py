"""P24: every value crossing the embedding API is type-checked."""
from . import p01, p13
from .core import *
from .p13 import ALL, TYPED, cst, rv

TECHNIQUE = ("TLC trace validation: signatures are part of the specification's functions, tables and globals; every lookup (typed with every signature the bindings can express, untyped, of every kind and name), call "
             "(direct, resumable, nested in host functions; too few, too many, exchanged or wrongly typed arguments) and table or global write is accepted exactly when the specification's types agree, with no effect otherwise")


def near(r, s):
    """a signature one step from s"""
    p, q = list(s[0]), list(s[1])
    l = p if r.random() < 0.5 else q
    k = r.randrange(6)
    if k == 0 and l:
        l.pop(r.choice([0, len(l) - 1, r.randrange(len(l))]))
    elif k == 1 and len(l) < 20:
        l.insert(r.choice([0, len(l), r.randint(0, len(l))]), r.choice(ALL))
    elif k == 2 and len(l) > 1:
        i = r.randrange(len(l) - 1)
        l[i], l[i + 1] = l[i + 1], l[i]
    elif k == 3 and l:
        l[r.choice([0, len(l) - 1, r.randrange(len(l))])] = r.choice(ALL)
    elif k == 4:
        p, q = q, p
    elif p and len(q) < 20:
        q.append(p.pop())
    return p, q


def uniq(l):
    out = []
    for s in l:
        s = (list(s[0]), list(s[1]))
        if s not in out:
            out.append(s)
    return out


def module(r, sigs, imports):
    """exports f{k} of every signature; each call is counted in $n"""
    L = ["(module"]
    for k, s in enumerate(sigs):
        L.append(f"(type $t{k} (func {wtypes('param', s[0])} {wtypes('result', s[1])}))")
    for k in imports:
        L.append(f'(import "h" "f{k}" (func $i{k} (type $t{k})))')
    h0 = f"$i{imports[0]}" if imports else "$me"
    L.append('(memory (export "m") 1 2) (global $n (export "n") (mut i32) (i32.const 0)) (elem declare func $me ' + h0 + ')')
    L.append('(func $me (export "me") (param i32) (result i32) local.get 0)')
    L.append('(table (export "tf") 4 8 funcref) (table (export "te") 4 8 externref) (table (export "t64") i64 2 4 funcref) (elem (table 0) (i32.const 1) func $me)')
    for t in ALL:
        for mu in (0, 1):
            c = cst(r, t).replace("$h0", h0)
            L.append(f'(global (export "g{mu}{t}") {f"(mut {t})" if mu else t} {c})')
    for k, (p, q) in enumerate(sigs):
        for kind in ("f", "h") if k in imports else ("f",):
            body = []
            if kind == "h":
                body = [f"local.get {j}" for j in range(len(p))] + [f"call $i{k}"]
            else:
                used = {}
                for t in q:
                    js = [j for j, x in enumerate(p) if x == t]
                    n = used.get(t, 0)
                    used[t] = n + 1
                    body.append(f"local.get {js[n % len(js)]}" if js else cst(r, t).replace("$h0", h0))
            L.append(f'(func (export "{kind}{k}") (type $t{k}) (global.set $n (i32.add (global.get $n) (i32.const 1))) (i32.store8 (i32.const {k % 200}) (global.get $n)) {" ".join(body)})')
        if k in imports:
            L.append(f'(export "i{k}" (func $i{k}))')
    for t in ("funcref", "externref"):
        L.append(f'(func (export "see{t}") (param i32) (result {t}) (table.get {0 if t == "funcref" else 1} (local.get 0)))')
    return "\n".join(L) + ")"


def badargs(r, p):
    a = [rv(r, t) for t in p]
    k = r.randrange(7)
    if k == 0 and a:
        a.pop(r.choice([0, len(a) - 1]))
    elif k == 1:
        a.insert(r.choice([0, len(a)]), rv(r, r.choice(ALL)))
    elif k == 2 and len(a) > 1:
        i, j = r.sample(range(len(a)), 2)
        a[i], a[j] = a[j], a[i]
    elif k == 3 and a:
        i = r.choice([0, len(a) - 1, r.randrange(len(a))])
        a[i] = rv(r, r.choice([t for t in ALL if t != p[i]]))
    elif k == 4 and a:      # the same bits, another type
        i = r.choice([0, len(a) - 1, r.randrange(len(a))])
        o = {"i32": "f32", "f32": "i32", "i64": "f64", "f64": "i64", "funcref": "externref", "externref": "funcref", "v128": "i64"}[p[i]]
        a[i] = {"funcref": NULLF, "externref": NULLE}.get(o) or val(o, r.randrange(10))
    elif k == 5:
        a = []
    else:
        a += [rv(r, t) for t in p]
    return a


def one(ck, c, cfgs):
    r = Rng(f"P24-{ck.seed}-{c}")
    base = r.sample(TYPED, 7)
    sigs = list(base)
    for s in base:
        sigs += [near(r, s) for _ in range(2)]
    sigs += [p13.randsig(r) for _ in range(2)]
    # one signature of each number of values the tuples and fixed buffers stop at
    sigs.append(([r.choice(ALL) for _ in range(r.choice([11, 12, 13, 16, 17, 32, 33]))], [r.choice(ALL) for _ in range(r.choice([0, 1, 12, 13, 16, 17, 32, 33]))]))
    sigs = uniq(sigs)
    imports = sorted(r.sample(range(len(sigs)), 5))
    ops = [inst(2, "pre")]
    for n in ("F1", "F2"):
        x = call("pre.refs")
        x["as"] = n
        ops.append(x)
    def use(nested):
        k = r.random()
        s = r.randrange(len(sigs))
        p, q = sigs[s]
        fn = r.choice(["f", "f", "f", "h", "i", "h"]) if s in imports else "f"
        f = f"a.{fn}{s}" if r.random() < 0.9 or s not in imports else f"P{s}"
        if nested and fn != "f":
            f = f"a.f{s}"
        ty = {} if r.random() < 0.5 else {"typed": True}
        if k < 0.22:
            return call(f, *badargs(r, p), **ty)
        if k < 0.30 and not nested:
            return rcall(f, *badargs(r, p), sched=[{"k": "f", "b": 3}] * 2, **ty)
        if k < 0.46:
            return call(f, *[rv(r, t) for t in p], **ty)
        if k < 0.54 and not nested:
            return rcall(f, *[rv(r, t) for t in p], sched=[{"k": "f", "b": r.choice([1, 2, 500])}] * 3, **ty)
        if k < 0.62:
            x = r.choice(["a.tf", "a.te", "a.t64", "T", "U"])
            v = rv(r, r.choice(["funcref", "externref", "externref", "funcref", "i32", "v128", "i64"]))
            i = r.choice([0, 1, 2, 3, 4, 9])
            return r.choice([op("t.set", o=x, i=i, v=v), op("t.grow", o=x, i=r.choice([0, 0, 1, 2]), v=v), op("t.get", o=x, i=i), op("t.size", o=x)])
        if k < 0.70:
            t = r.choice(ALL)
            x = r.choice([f"a.g{r.randrange(2)}{t}", f"G{t}", f"C{t}"])
            t2 = t if r.random() < 0.4 else r.choice(ALL)
            if t2 != t and r.random() < 0.3:
                t2 = {"i32": "f32", "f32": "i32", "i64": "f64", "f64": "i64", "funcref": "externref", "externref": "funcref", "v128": "i64"}[t]
            if r.random() < 0.5 or x[0] != "a":
                return op("g.set", o=x, v=rv(r, t2))
            return op("gset", i="a", n=x[2:], v=rv(r, t2), ctx=nested)
        if k < 0.76:
            t = r.choice(ALL)
            v = rv(r, t if r.random() < 0.4 else r.choice(ALL))
            if nested:
                return op("g.get", o=f"G{t}")
            if r.random() < 0.5:
                return op("gnew", **{"as": "Z"}, ty=t, mu=r.random() < 0.5, v=v)
            return op("tnew", **{"as": "Z"}, ty={"et": r.choice(["funcref", "externref"]), "it": r.choice(["i32", "i64"]), "min": r.choice([0, 0, 2]), "max": r.choice([None, 0, 4])}, v=v)
        n = r.choice([f"{fn}{s}", "m", "tf", "te", "n", "g0i32", "g1i64", "nope", "", f"{fn}{s} ", "F0", "see", f"f{len(sigs)}"])
        kd = r.choice("ffffmtg")
        if n == f"{fn}{s}" and r.random() < 0.8 or kd == "f":
            n = n if r.random() < 0.2 else f"{fn}{s}"
            want = r.choice(TYPED) if r.random() < 0.3 else (p, q) if r.random() < 0.5 else near(r, (p, q))
            return op("get", i="a", n=n, k="f", ty={"p": want[0], "r": want[1]}, typed=True, **({"ctx": True} if nested else {}))
        if r.random() < 0.2:
            return op(r.choice(["gget", "gget", "get"]), i="a", n=n, k="other", **({"ctx": True} if nested else {}))
        return op("get", i="a", n=n, k=kd, ty={"p": [], "r": []}, typed=False, **({"ctx": r.choice([True, "other"])} if nested else {}))
    defs = []
    for k in imports:
        p, q = sigs[k]
        typed = r.random() < 0.5 and (p, q) in TYPED
        nested = [use(True) for _ in range(5)]
        bs = p13.behaviours(r, p, q, nested, typed)
        ops.append(hnew(f"H{k}", p, q, bs, **({"typed": True} if typed else {})))
        ops.append(hnew(f"P{k}", p, q, [dict(b, noin=True) for b in p13.behaviours(r, p, q, [], typed)], **({"typed": True} if typed else {})))
        defs.append(["h", f"f{k}", f"H{k}"])
    for t in ALL:
        ops += [op("gnew", **{"as": f"{x}{t}"}, ty=t, mu=x == "G", v=rv(r, t)) for x in "GC"]
    ops.append(op("tnew", **{"as": "T"}, ty={"et": "funcref", "it": "i32", "min": 2, "max": 5}, v=NULLF))
    ops.append(op("tnew", **{"as": "U"}, ty={"et": "externref", "it": "i64", "min": 2, "max": None}, v=NULLE))
    ops.append(inst(1, "a", defs=defs))
    ops += [use(False) for _ in range(ck.scale(70, 110))]
    # each exported function under each bound signature near it, and every global and table under every kind
    for k, (p, q) in r.sample(list(enumerate(sigs)), 8):
        for w in r.sample(TYPED, 3) + [(p, q)]:
            ops.append(op("get", i="a", n=f"f{k}", k="f", ty={"p": w[0], "r": w[1]}, typed=True))
    pre = "(module (func $me (param i32) (result i32) local.get 0) (elem declare func $me) (func (export \"refs\") (result funcref) ref.func $me))"
    return script(f"P24-{c}", [module(r, sigs, imports), pre], ops, cfgs)


def matrix(ck):
    """every signature the bindings can express against every other"""
    out = []
    for lo in range(0, len(TYPED), 6):
        r = Rng(f"P24m-{ck.seed}-{lo}")
        sigs = uniq(TYPED[lo:lo + 6])
        ops = [inst(1, "a")]
        for k in range(len(sigs)):
            for w in TYPED:
                ops.append(op("get", i="a", n=f"f{k}", k="f", ty={"p": w[0], "r": w[1]}, typed=True))
            for w in TYPED:
                ops.append(call(f"a.f{k}", *[({"funcref": NULLF, "externref": NULLE}.get(t) or r.v(t)) for t in w[0]], **({"typed": True} if r.random() < 0.5 else {})))
        out.append(script(f"P24m-{lo}", [module(r, sigs, [])], ops))
    return out


def scripts(ck):
    out = [one(ck, c, [["", "rw=0"], ["", "arch=1"], [""], [""]][c % 4]) for c in range(ck.scale(120, 1400))]
    return out + matrix(ck)
