"""P26: module and instance descriptors mirror the module exactly."""
from .core import *
from .p11 import Ext, GT, all_exts, near

TECHNIQUE = ("TLC trace validation: the import and export lists are computed by the specification from the module's sections and compared in full with what modules (parsed, streamed, archived) and instances report; "
             "every listed export is then looked up in every way, compared with the listed handle and exercised, the specification naming the object it must denote")

KW = {"f": "func", "t": "table", "m": "memory", "g": "global"}
ODD = ["", " ", "a", "A", "a.b", "\u00fc", "\u65e5\u672c", "\U0001F600", "\u0000", "x" * 300, "\u202e", "memory", "_start", "\u00e9", "e\u0301", "\uffff", "\t"]


def q(s):
    return '"' + "".join(f"\\u{{{ord(ch):x}}}" if ord(ch) < 32 or ord(ch) > 126 or ch in '"\\' else ch for ch in s) + '"'


class Shape:
    def __init__(self, r, exts, big=False):
        self.r = r
        n = r.choice([0, 1, 2, 4, 7]) + (20 if big else 0)
        self.imps = []
        names = set()
        for k in range(n):
            a = (r.choice(ODD + ["e", "env"]), r.choice(ODD + [f"n{k}", f"n{k}"]))
            if a in names and r.random() < 0.8:
                a = (a[0], f"u{k}")
            if a in names:      # the same name again: the same kind, so that one object can serve both
                x = next(x for b, x in self.imps if b == a)
            else:
                x = r.choice(exts[r.choice("fgmt")])
                if x.kind in "mt" and x.ty[1] > 3:
                    x = r.choice(exts["g"])
            names.add(a)
            self.imps.append((a, x))
        self.defs = {k: [r.choice(exts[k]) for _ in range(r.choice([0, 1, 2, 3]))] for k in "fgmt"}
        self.provide = self.imps

    def wat(self, start):
        r = self.r
        # the module's own types, some repeated, so that type indices say nothing by themselves
        fts = [x.ty for _, x in self.imps if x.kind == "f"] + [x.ty for x in self.defs["f"]] + [([], []), (["i64"], ["v128"]), (["i32"], [])]
        r.shuffle(fts)
        L = ["(module"] + [f"(type (func {wtypes('param', p)} {wtypes('result', s)}))" for p, s in fts]
        def use(t):
            return r.choice([k for k, s in enumerate(fts) if (list(s[0]), list(s[1])) == (list(t[0]), list(t[1]))])
        for (a, b), x in self.imps:
            d = x.imp() if x.kind != "f" else f"(func (type {use(x.ty)}))"
            L.append(f"(import {q(a)} {q(b)} {d})")
        own = {k: [] for k in "fgmt"}
        for k in "gmt":
            for x in self.defs[k]:
                L.append(x.define("@@", r).replace('(export "@@")', ""))
        n = {k: sum(x.kind == k for _, x in self.imps) for k in "fgmt"}
        for j, x in enumerate(self.defs["f"]):
            body = " ".join({"funcref": "ref.null func", "externref": "ref.null extern"}.get(t) or const(t, 1000 * (j + 1) + i) for i, t in enumerate(x.ty[1]))
            L.append(f"(func (type {use(x.ty)}) {body})")
        total = {k: n[k] + len(self.defs[k]) for k in "fgmt"}
        if start:
            L.append(f"(func $start) (start $start)")
            total["f"] += 1
        self.exports = []
        names = list(ODD) + [f"x{k}" for k in range(60)]
        r.shuffle(names)
        have = [(k, i) for k in "fgmt" for i in range(total[k])]
        if have:
            for _ in range(r.choice([0, 3, len(have), 2 * len(have), 40])):
                k, i = r.choice(have)
                if names:
                    self.exports.append((names.pop(), k, i))
        for nm, k, i in self.exports:
            L.append(f"(export {q(nm)} ({KW[k]} {i}))")
        return "\n".join(L) + ")"

    def objects(self):
        """host objects satisfying the imports, exactly or with room to spare"""
        ops, defs, got = [], [], {}
        for k, (a, x) in enumerate(self.imps):
            if a in got:
                continue
            y = Ext(x.kind, x.ty)
            t = y.ty
            r = self.r
            if x.kind == "m" and r.random() < 0.4 and (t[2] is None or t[1] < t[2]) and t[1] < 3:
                y = Ext("m", (t[0], t[1] + 1, t[2] if t[2] is None or t[2] > 4 else r.choice([t[2], t[1] + 1]), t[3]))
            if x.kind == "t" and r.random() < 0.4 and (t[2] is None or t[1] < t[2]) and t[1] < 100:
                y = Ext("t", (t[0], t[1] + 1, t[2], t[3]))
            o = y.host(f"H{k}", r)
            if x.kind == "f":
                o["beh"] = [{"noin": True, "ret": [{"funcref": NULLF, "externref": val("externref", 7)}.get(z) or val(z, 50 + k) for z in x.ty[1]]}]
            ops.append(o)
            got[a] = f"H{k}"
            defs.append([a[0], a[1], f"H{k}"])
        return ops, defs


def one(ck, c, cfgs):
    r = Rng(f"P26-{ck.seed}-{c}")
    exts = all_exts()
    exts["m"] = [x for x in exts["m"] if x.ty[1] <= 3]
    s = Shape(r, exts, c % 7 == 0)
    wats = [s.wat(c % 3 == 0)]
    hops, defs = s.objects()
    ops = [op("desc", mod=1)] + hops + [inst(1, "a", defs=defs, ns=r.random() < 0.3), op("exps", i="a", mod=1, **{"as": "a"}), op("hasstart", i="a")]
    names = [nm for nm, _, _ in s.exports] + r.sample(ODD, 4) + ["x0", "X0", "x"]
    r.shuffle(names)
    kind = {nm: k for nm, k, _ in s.exports}
    index = {nm: i for nm, _, i in s.exports}
    fty = [x.ty for _, x in s.imps if x.kind == "f"] + [x.ty for x in s.defs["f"]] + [([], [])]
    for n, nm in enumerate(names[:ck.scale(14, 40)]):
        k = kind.get(nm, "f")
        for kk in [k, "other", r.choice("fgmt")]:
            ops.append(op("get", i="a", n=nm, k=kk, ty={"p": [], "r": []} if k != "f" or nm not in index else {"p": fty[index[nm]][0], "r": fty[index[nm]][1]}, typed=kk == "f" and r.random() < 0.5, **{"as": f"L{n}{kk}"}))
        if nm in kind and k != "f":
            ops += [op("eq", o=f"a.{nm}", p=f"L{n}{k}"), op("eq", o=f"L{n}other", p=f"L{n}{k}"), op(f"{k}.ty", o=f"L{n}{k}"), op(f"{k}.ty", o=f"a.{nm}")]
        elif nm in kind:
            p = fty[index[nm]][0]
            for o in (f"a.{nm}", f"L{n}f"):
                ops.append(call(o, *[{"funcref": NULLF, "externref": NULLE}.get(t) or r.v(t) for t in p]))
    for x, k, i in s.exports:       # exports of the same object are the same, others are not
        y = r.choice([e for e in s.exports if e[1] == k])
        if k != "f" and r.random() < 0.5:
            ops.append(op("eq", o=f"a.{x}", p=f"a.{y[0]}"))
    # change each object through one name and look through the others (the final comparison sees all of them)
    for x, k, i in s.exports[:12]:
        if k == "g":
            t = ([z for _, z in s.imps if z.kind == "g"] + s.defs["g"])[i].ty[0]
            ops.append(op("g.set", o=f"a.{x}", v={"funcref": NULLF, "externref": val("externref", 9)}.get(t) or r.v(t)))
        elif k == "m":
            ops.append(op("m.put", o=f"a.{x}", off=r.randrange(4), b=[r.randrange(1, 256)]))
            ops.append(op("m.pages", o=f"a.{x}"))
            if r.random() < 0.3:
                ops += [op("m.grow", o=f"a.{x}", d=1), op("m.ty", o=f"a.{x}")]
        elif k == "t":
            ops += [op("t.size", o=f"a.{x}"), op("t.grow", o=f"a.{x}", i=1, v=r.choice([NULLF, NULLE])), op("t.ty", o=f"a.{x}")]
    # a second instance, importing from the first what it re-exports under the right names
    ops += [inst(1, "b", defs=defs), op("exps", i="b", mod=1, **{"as": "b"}), op("exps", i="a", mod=1, **{"as": "c"})]
    both = [e for e in s.exports if e[1] != "f"]
    for x, k, i in r.sample(both, min(len(both), 6)):
        ops.append(op("eq", o=f"a.{x}", p=f"b.{x}"))
    ops.append(op("desc", mod=1))
    return script(f"P26-{c}", wats, ops, cfgs)


CF = [["", "arch=1"], ["form=stream;arch=1"], ["arch=1;lay=5cl"], ["rw=0", "arch=1"], ["", "form=stream7"]]


def scripts(ck):
    return [one(ck, c, CF[c % len(CF)]) for c in range(ck.scale(200, 3000))]
