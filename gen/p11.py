"""P11: import resolution accepts exactly the matching externs and binds exactly them."""
import itertools

from .core import *

LIM = [(0, None), (0, 0), (0, 1), (1, None), (1, 1), (1, 2), (1, 3), (2, 2), (2, None), (2, 3), (3, 3)]
FT = [([], []), (["i32"], []), ([], ["i32"]), (["i32"], ["i32"]), (["i32"], ["i64"]), (["i32", "i32"], ["i32"]), (["i32"], ["i32", "i32"]), (["i64", "i32"], ["i32"]),
      (["i32", "i64"], ["i32"]), (["f32"], ["i32"]), (["funcref"], ["externref"]), (["externref"], ["funcref"]), (["v128"], ["v128"]), (["f64"], ["f64"]), (["f32"], ["f32"])]
GT = ["i32", "i64", "f32", "f64", "v128", "funcref", "externref"]
NAMES = [("e", "x"), ("", ""), ("e", ""), ("", "x"), ("ü", "日本"), ("e", "x y"), ("e.x", "y"), ("e", "x.y")]


def lims(l):
    return f"{l[0]} {'' if l[1] is None else l[1]}"


class Ext:
    """An extern type: how to import it, define it in a module, or create it on the host."""

    def __init__(self, kind, ty):
        self.kind, self.ty = kind, ty

    def imp(self):
        k, t = self.kind, self.ty
        if k == "f":
            return f"(func {wtypes('param', t[0])} {wtypes('result', t[1])})"
        if k == "g":
            return f"(global {f'(mut {t[0]})' if t[1] else t[0]})"
        if k == "m":
            return f"(memory {t[0] if t[0] == 'i64' else ''} {lims(t[1:3])} {f'(pagesize {1 << t[3]})' if t[3] != 16 else ''})"
        return f"(table {t[0] if t[0] == 'i64' else ''} {lims(t[1:3])} {t[3]})"

    def define(self, name, r):
        k, t = self.kind, self.ty
        e = f'(export "{name}")'
        if k == "f":
            return f"(func {e} {wtypes('param', t[0])} {wtypes('result', t[1])} unreachable)"
        if k == "g":
            init = {"funcref": "ref.null func", "externref": "ref.null extern"}.get(t[0]) or const(t[0], r.bits(t[0]))
            return f"(global {e} {f'(mut {t[0]})' if t[1] else t[0]} {init})"
        if k == "m":
            return f"(memory {e} {t[0] if t[0] == 'i64' else ''} {lims(t[1:3])} {f'(pagesize {1 << t[3]})' if t[3] != 16 else ''})"
        return f"(table {e} {t[0] if t[0] == 'i64' else ''} {lims(t[1:3])} {t[3]})"

    def host(self, as_, r):
        k, t = self.kind, self.ty
        if k == "f":
            return hnew(as_, t[0], t[1])
        if k == "g":
            return op("gnew", **{"as": as_, "ty": t[0], "mu": t[1], "v": {"funcref": NULLF, "externref": val("externref", 3)}.get(t[0]) or r.v(t[0])})
        if k == "m":
            return op("mnew", **{"as": as_, "ty": {"it": t[0], "min": t[1], "max": t[2], "ps": t[3]}})
        return op("tnew", **{"as": as_, "ty": {"et": t[3], "it": t[0], "min": t[1], "max": t[2]}, "v": NULLF if t[3] == "funcref" else NULLE})


def all_exts():
    fs = [Ext("f", t) for t in FT]
    gs = [Ext("g", (t, m)) for t in GT for m in (False, True)]
    ms = [Ext("m", (it, *l, ps)) for it in ("i32", "i64") for l in LIM for ps in (16, 0)]
    ms += [Ext("m", ("i32", 1, 65536, 16)), Ext("m", ("i32", 1, 65535, 16)), Ext("m", ("i64", 0, 2**48, 16)), Ext("m", ("i64", 0, 65536, 16)), Ext("m", ("i64", 0, 70000, 16)),
           Ext("m", ("i32", 1, 2**32 - 1, 0)), Ext("m", ("i64", 1, 2**63, 0)), Ext("m", ("i64", 1, 2**64 - 1, 0))]
    ts = [Ext("t", (it, *l, et)) for it in ("i32", "i64") for l in LIM for et in ("funcref", "externref")]
    ts += [Ext("t", ("i32", 1, 2**32 - 1, "funcref")), Ext("t", ("i64", 1, 2**64 - 1, "funcref")), Ext("t", ("i64", 1, 2**32, "funcref"))]
    return {"f": fs, "g": gs, "m": ms, "t": ts}


def near(r, exts, x):
    """an extern type close to x"""
    if r.random() < 0.15:
        return r.choice(exts[r.choice("fgmt")])
    if r.random() < 0.25:
        return x
    return r.choice(exts[x.kind])


def pair_scripts(ck, exts):
    """Every kind of extern against a sample (thorough: all) of the import types of its kind, from the host and from modules, some grown."""
    out = []
    for kind in "fgmt":
        pairs = list(itertools.product(range(len(exts[kind])), repeat=2))
        r = Rng(f"P11pair-{ck.seed}-{kind}")
        r.shuffle(pairs)
        if not ck.thorough:
            pairs = pairs[:500] + [(a, a) for a in range(len(exts[kind]))]
        else:
            pairs = pairs[:2600]
        pairs += [(r.randrange(len(exts[kind])), -1) for _ in range(len(pairs) // 8)]      # an import of another kind
        for c in range(0, len(pairs), 13):
            chunk = pairs[c:c + 13]
            mods, ops = [], []
            provs = ["(module"]
            for n, (a, b) in enumerate(chunk):
                have = exts[kind][a]
                want = exts[kind][b] if b >= 0 else r.choice(exts[r.choice([k for k in "fgmt" if k != kind])])
                provs.append(have.define(f"x{n}", r))
                mods.append(f'(module (import "p" "x{n}" {want.imp()}))')
                ops.append(have.host(f"H{n}", r))
            ops.append(inst(len(mods) + 1, "P"))
            if kind in "mt":
                for n, (a, b) in enumerate(chunk):
                    if r.random() < 0.35:
                        d = r.choice([1, 1, 2])
                        o = r.choice([f"H{n}", f"P.x{n}"])
                        h = exts[kind][a].ty
                        if kind == "m":
                            ops.append(op("m.grow", o=o, d=d))
                        else:
                            ops.append(op("t.grow", o=o, i=d, v=NULLF if h[3] == "funcref" else NULLE))
            for n in range(len(chunk)):
                ops.append(inst(n + 1, f"h{n}", defs=[["p", f"x{n}", f"H{n}"]]))
                ops.append(inst(n + 1, f"l{n}", links=[["p", "P"]]))
            out.append(script(f"P11{kind}-{c}", mods + ["\n".join(provs) + ")"], ops))
    return out


def mixed(r, c, exts, n):
    """Several imports at once, definitions shadowing links, merged import sets, missing names and modules, re-exports."""
    names = r.sample(NAMES, 4) + [("m", f"n{k}") for k in range(3)]
    want = [(nm, r.choice(exts[r.choice("ffgmt")])) for nm in names]
    if r.random() < 0.4:        # the same name imported twice
        nm, x = r.choice(want)
        want.append((nm, near(r, exts, x) if r.random() < 0.5 else x))
    imp = "(module " + "\n".join(f'(import "{a}" "{b}" {x.imp()})' for (a, b), x in want)
    idx = {"f": 0, "t": 0, "m": 0, "g": 0}
    for k, (nm, x) in enumerate(want):      # export what was bound
        imp += f'(export "re{k}" ({dict(f="func", t="table", m="memory", g="global")[x.kind]} {idx[x.kind]}))'
        idx[x.kind] += 1
    imp += "(func (export \"own\") (result i32) i32.const 1)"
    for q in range(idx["g"]):
        pass
    imp += ")"
    ops, defs, provided = [], [], {}
    mods = [imp]
    for k, ((a, b), x) in enumerate(want):
        if r.random() < 0.55:
            ops.append((x if r.random() < 0.85 else near(r, exts, x)).host(f"H{k}", r))
            provided[k] = f"H{k}"
    pm = {}
    for k, ((a, b), x) in enumerate(want):
        if r.random() < 0.75 and (a, b) not in [q for v in pm.values() for q in v]:
            pm.setdefault(a, {})[(a, b)] = x if r.random() < 0.85 else near(r, exts, x)
    for a, d in pm.items():
        mods.append("(module " + "\n".join(x.define(b, r) for (q, b), x in d.items()) + ")")
        ops.append(inst(len(mods), f"P{len(mods)}"))
    links = [[a, f"P{k + 2}"] for k, a in enumerate(pm)]
    for j in range(n):
        ds = [[*want[k][0], provided[k]] for k in provided if r.random() < (0.95 if j % 2 else 0.6)]
        r.shuffle(ds)
        ds = [d + [True] if r.random() < 0.2 else d for d in ds]
        ls = [l for l in links if r.random() < 0.9]
        ls = [l + [True] if r.random() < 0.2 else l for l in ls]
        ops.append(inst(1, f"i{j}", defs=ds, links=ls))
        if r.random() < 0.2:
            ops.append(inst(1, f"j{j}", **({"noimp": True} if r.random() < 0.5 else {})))
    return script(f"P11x-{c}", mods, ops)


BIND = """(module
 (import "e" "f" (func $f (param i32) (result i32)))
 (import "e" "f" (func $f2 (param i32) (result i32)))
 (import "e" "m" (memory $m 1))
 (import "e" "g" (global $g (mut i64)))
 (import "e" "c" (global $c i32))
 (import "e" "t" (table $t 2 funcref))
 (memory $own 1) (global $og (mut i32) (i32.const 5)) (table $ot 2 funcref)
 (export "m" (memory $m)) (export "g" (global $g)) (export "t" (table $t)) (export "f" (func $f)) (export "c" (global $c))
 (elem declare func $f $me)
 (func $me (export "me") (param i32) (result i32) local.get 0 global.get $og i32.add)
 (func (export "callf") (param i32) (result i32 i32) local.get 0 call $f local.get 0 call $f2)
 (func (export "ld") (param i32) (result i32 i32) local.get 0 i32.load $m local.get 0 i32.load $own)
 (func (export "st") (param i32 i32) local.get 0 local.get 1 i32.store $m local.get 0 local.get 1 i32.const 1 i32.add i32.store $own)
 (func (export "gg") (result i64 i32 i32) global.get $g global.get $c global.get $og)
 (func (export "gs") (param i64) local.get 0 global.set $g global.get $og i32.const 1 i32.add global.set $og)
 (func (export "tset") (param i32) local.get 0 ref.func $me table.set $t local.get 0 ref.func $f table.set $ot)
 (func (export "ti") (param i32 i32) (result i32) local.get 0 local.get 1 call_indirect $t (param i32) (result i32)))"""


def binding(r, c, n):
    """Three layers of importers over the same or different objects: the bound ones are the provided ones."""
    prov = """(module (memory (export "m") 2) (global (export "g") (mut i64) (i64.const 3)) (global (export "c") i32 (i32.const 8)) (table (export "t") 3 funcref)
      (func (export "f") (param i32) (result i32) local.get 0 i32.const 100 i32.add) (func (export "ldp") (param i32) (result i32) local.get 0 i32.load))"""
    o = [inst(2, "p"), inst(2, "q"), hnew("Hf", ["i32"], ["i32"], [{"ret": [i32(1)]}, {"ret": [i32(2)]}, {"ret": [{"arg": 0}]}]),
         op("mnew", **{"as": "Hm", "ty": {"it": "i32", "min": 1, "max": 3, "ps": 16}}), op("gnew", **{"as": "Hg", "ty": "i64", "mu": True, "v": i64(77)}),
         op("gnew", **{"as": "Hc", "ty": "i32", "mu": False, "v": i32(66)}), op("tnew", **{"as": "Ht", "ty": {"et": "funcref", "it": "i32", "min": 2, "max": 9}, "v": NULLF})]
    insts = []
    for k in range(4):
        src = r.choice(["p", "q"] + insts)
        defs = [["e", x, f"H{x}"] for x in "fmgct" if r.random() < 0.35] + ([["e", "f", f"{insts[-1]}.me"]] if insts and r.random() < 0.3 else [])
        o.append(inst(1, f"i{k}", defs=defs, links=[["e", src]]))
        insts.append(f"i{k}")
    for _ in range(n):
        a = r.choice(insts)
        b = r.choice(["p", "q", "H"] + insts)
        ob = (lambda x: f"H{x}" if b == "H" else f"{b}.{x}")
        o.append(r.choice([lambda: call(f"{a}.callf", i32(r.randrange(9))), lambda: call(f"{a}.ld", i32(4 * r.randrange(3))), lambda: call(f"{a}.st", i32(4 * r.randrange(3)), r.v("i32")),
                           lambda: call(f"{a}.gg"), lambda: call(f"{a}.gs", r.v("i64")), lambda: call(f"{a}.tset", i32(r.randrange(3))), lambda: call(f"{a}.ti", i32(r.randrange(50)), i32(r.randrange(3))),
                           lambda: op("m.put", o=ob("m"), off=4 * r.randrange(3), b=[1, 2, 3, r.randrange(256)]), lambda: op("g.set", o=ob("g"), v=r.v("i64")), lambda: op("g.get", o=ob("c")),
                           lambda: op("m.grow", o=ob("m"), d=r.choice([0, 1]))])())
    return script(f"P11b-{c}", [BIND, prov], o)


def scripts(ck):
    exts = all_exts()
    out = pair_scripts(ck, exts)
    out += [mixed(Rng(f"P11x-{ck.seed}-{c}"), c, exts, ck.scale(6, 9)) for c in range(ck.scale(80, 800))]
    out += [binding(Rng(f"P11b-{ck.seed}-{c}"), c, ck.scale(50, 70)) for c in range(ck.scale(30, 300))]
    return out
