"""P30: access by index reaches every part of an instance (guest-debug)."""
import copy
import importlib
import json
import re

from . import model, prog
from .core import *
from .p11 import all_exts
from .p26 import Shape

TECHNIQUE = ("TLC trace validation of a build with guest-debug: programs and histories of the other generators with their exports removed, every function, memory, table and global reached by its index instead; "
             "the specification's instances have the same index spaces, so it says which object each index denotes (or that it is out of bounds) and what is seen through it")
BUILDS = ["dbg"]
KIND = {"func": "f", "memory": "m", "table": "t", "global": "g"}


def tops(w):
    """spans of the fields of a module's text"""
    d, k, start, out = 0, 0, 0, []
    while k < len(w):
        c = w[k]
        if c == '"':
            k += 1
            while w[k] != '"':
                k += 2 if w[k] == "\\" else 1
        elif w.startswith(";;", k):
            while k < len(w) and w[k] != "\n":
                k += 1
        elif w.startswith("(;", k):
            k = w.index(";)", k) + 1
        elif c == "(":
            d += 1
            if d == 2:
                start = k
        elif c == ")":
            d -= 1
            if d == 1:
                out.append((start, k + 1))
        k += 1
    return out


def private(r, w, p=0.8):
    """(text with some exports removed, {export name: (kind, index, type or None)})"""
    n, ids, named, late = {k: 0 for k in "fgmt"}, {}, {}, []
    types, body = [], []
    fs = [w[a:b] for a, b in tops(w)]

    def sig(f):
        h = re.split(r"\(local |\(local\)|\n|(?<=\))\s*(?=[a-z])", re.sub(r'\((export|import)( "[^"]*")+\)|\$[^\s()]+|^\(func', "", f))[0]
        if "(type" in f[:80]:
            return None
        P, R = [], []
        for k, ts in re.findall(r"\((param|result)((?:\s+[a-z0-9]+)*)\s*\)", h.split("(call")[0] if "(block" not in h and "(if" not in h and "(loop" not in h else ""):
            (P if k == "param" else R).extend(ts.split())
        return (P, R)

    for f in fs:
        kw = re.match(r"\(\s*([a-z]+)", f).group(1)
        if kw == "import":
            g = re.search(r"\((func|memory|table|global)\s*(\$[^\s()]+)?", f)
        elif kw in KIND:
            g = re.match(r"\((func|memory|table|global)\s*(\$[^\s()]+)?", f)
        else:
            g = None
        if g:
            k = KIND[g.group(1)]
            if g.group(2):
                ids[k, g.group(2)] = n[k]
            for e in re.findall(r'\(export "((?:[^"\\]|\\.)*)"\)', f) if kw != "import" else []:
                named[e] = (k, n[k], None)
                if k == "f" and re.search(r"\(param|\(result", f) is None:
                    named[e] = (k, n[k], ([], []))
            if kw != "import" and r.random() < p:
                f = re.sub(r'\(export "((?:[^"\\]|\\.)*)"\)', "", f)
            n[k] += 1
            body.append(f)
        elif kw == "export":
            g = re.match(r'\(export "((?:[^"\\]|\\.)*)" \((func|memory|table|global) ([^\s()]+)\)\)', f)
            late.append(g.groups())
            if r.random() >= p:
                body.append(f)
        else:
            body.append(f)
    for e, k, x in late:
        k = KIND[k]
        named[e] = (k, ids[k, x] if x.startswith("$") else int(x), None)
    return "(module\n" + "\n".join(body) + ")", named, n


def without(r, s, p=0.8):
    """A script whose instances are used through indices."""
    s = copy.deepcopy(s)
    if len(s["mods"]) != 1 or "wat" not in s["mods"][0] or any(o["op"] in ("exps", "cli", "wast", "insp", "comp", "desc", "parse", "arch") for o in s["ops"]):
        return None
    w, named, n = private(r, s["mods"][0]["wat"], p)
    s["mods"][0]["wat"] = w
    if any("\\" in e or '"' in e for e in named):
        return None
    ops = []
    for o in s["ops"]:
        ops.append(o)
        if o["op"] == "inst":
            a = o["as"]
            for e, (k, x, t) in named.items():
                ops.append(op("byidx", i=a, x=x, k=k, **{"as": f"{a}.{e}"}))
            for k in "fgmt":
                ops.append(op("byidx", i=a, x=r.choice([n[k], n[k], n[k] + 1, 2**31, 2**32 - 1]), k=k, **{"as": f"{a}?{k}"}))
                if n[k]:        # the parts without a name
                    x = r.randrange(n[k])
                    ops.append(op("byidx", i=a, x=x, k=k, **{"as": f"{a}#{k}"}))
    s["ops"] = ops
    return s


def uses_typed(s):
    return '"typed": true' in json.dumps([o for o in s["ops"] if o["op"] in ("call", "rcall")])


FROM = {1: 24, 5: 10, 6: 10, 7: 8, 8: 10, 9: 8, 10: 16, 13: 6, 15: 8, 18: 4, 20: 16, 25: 10}


def some(ck, q, n):
    m = importlib.import_module(f"gen.p{q:02}")
    c = copy.copy(ck)
    c.seed, c.pid, c.pred, c.coverage, c.viol = ck.seed + 7000, f"P{q:02}", {}, {}, []
    old = {f: getattr(model, f) for f in ("cells", "slots", "life", "nest")}
    for f in old:
        setattr(model, f, lambda *a, **k: [])
    try:
        all = m.scripts(c)
    finally:
        for f, g in old.items():
            setattr(model, f, g)
    r = Rng(f"P30-{ck.seed}-{q}")
    out = []
    for s in r.sample(all, len(all)):
        if len(out) == n:
            break
        if uses_typed(s) or '"m.cur"' in json.dumps(s["ops"]):
            continue
        t = without(r, s, r.choice([1, 1, 1, 0.5, 0]))
        if t:
            out.append(dict(t, id="P30-" + s["id"]))
    return out


# shapes of P26: all indices of all kinds, before and after they are changed, against the exports and the typed lookup
def shapes(ck, c, cfgs):
    r = Rng(f"P30s-{ck.seed}-{c}")
    exts = all_exts()
    exts["m"] = [x for x in exts["m"] if x.ty[1] <= 3]
    s = Shape(r, exts, c % 7 == 0)
    wat = s.wat(c % 3 == 0)
    hops, defs = s.objects()
    sp = {k: [x for _, x in s.imps if x.kind == k] + s.defs[k] for k in "fgmt"}
    if c % 3 == 0:
        from .p11 import Ext
        sp["f"].append(Ext("f", ([], [])))
    ops = hops + [inst(1, "a", defs=defs, ns=r.random() < 0.3)]
    reach = []
    for k in "fgmt":
        for x in list(range(len(sp[k]))) + [len(sp[k]), len(sp[k]) + 1, r.choice([2**16, 2**31 - 1, 2**31, 2**32 - 1])]:
            t = sp[k][x].ty if x < len(sp[k]) else ([], [])
            if k == "f":
                near = r.choice(sp["f"]).ty if sp["f"] else ([], [])
                for nm, ty, typed in (("u", t, False), ("t", t, True), ("n", near, True)):
                    ops.append(op("byidx", i="a", x=x, k=k, ty={"p": list(ty[0]), "r": list(ty[1])}, typed=typed, **{"as": f"{nm}{x}"}))
            else:
                ops.append(op("byidx", i="a", x=x, k=k, **{"as": f"{k}{x}"}))
            if x < len(sp[k]):
                reach.append((k, x))
    for nm, k, x in s.exports:
        if k != "f":
            ops.append(op("eq", o=f"a.{nm}", p=f"{k}{x}"))
            ops.append(op("eq", o=f"a.{nm}", p=f"{k}{r.randrange(len(sp[k]))}"))
    r.shuffle(reach)
    for k, x in reach[:ck.scale(14, 40)]:
        if k == "f":
            p = sp["f"][x].ty[0]
            for nm in "ut":
                ops.append(call(f"{nm}{x}", *[{"funcref": NULLF, "externref": NULLE}.get(t) or r.v(t) for t in p]))
        elif k == "g":
            t = sp["g"][x].ty[0]
            ops += [op("g.ty", o=f"g{x}"), op("g.set", o=f"g{x}", v={"funcref": NULLF, "externref": val("externref", 9)}.get(t) or r.v(t)), op("g.get", o=f"g{x}")]
        elif k == "m":
            ops += [op("m.ty", o=f"m{x}"), op("m.put", o=f"m{x}", off=r.randrange(4), b=[r.randrange(1, 256)]), op("m.pages", o=f"m{x}"), op("m.rex", o=f"m{x}", off=0, n=r.choice([0, 1, 6]))]
            if r.random() < 0.4:
                ops += [op("m.grow", o=f"m{x}", d=1), op("m.pages", o=f"m{x}")]
        else:
            ops += [op("t.ty", o=f"t{x}"), op("t.size", o=f"t{x}"), op("t.get", o=f"t{x}", i=0), op("t.grow", o=f"t{x}", i=1, v=r.choice([NULLF, NULLE])), op("t.size", o=f"t{x}")]
    # a second instance has parts of its own, and shares what it imports
    ops.append(inst(1, "b", defs=defs))
    for k in "gmt":
        for x in range(len(sp[k]))[:6]:
            ops += [op("byidx", i="b", x=x, k=k, **{"as": f"b{k}{x}"}), op("eq", o=f"{k}{x}", p=f"b{k}{x}"), op("eq", o=f"b{k}{x}", p=f"{k}{r.randrange(len(sp[k]))}")]
    # and in another store its functions are not to be had
    if c % 2:
        ops += [op("use", s=2)] + [op("byidx", i="a", x=x, k=k, **{"as": f"z{k}{x}"}) for k in "fgmt" for x in range(min(2, len(sp[k]) + 1))]
        ops += [op("m.len", o="zm0"), op("t.size", o="zt0"), op("g.get", o="zg0"), op("use", s=1)]
    return script(f"P30s-{c}", [wat], ops, cfgs, ns=2)


# programs without exports, driven through their indices: arguments, the private step counter, everything they leave behind
def programs(ck, c, cfgs):
    r = Rng(f"P30p-{ck.seed}-{c}")
    m = prog.Mod(r, prog.Opt(refs=c % 2 == 0, mem=c % 3, table=True, host=1 + c % 2, nfun=3, size=7, bulk=True, passive=True, grow=c % 4 == 0, simd=c % 5 == 0))
    wat, named, n = private(r, m.wat(), 1)
    hops, defs = m.host_ops()
    h = len(m.hosts)
    ops = hops + [inst(1, "a", defs=defs), op("byidx", i="a", x=0, k="g", **{"as": "fuel"})]
    for k in "gmt":
        ops += [op("byidx", i="a", x=x, k=k, **{"as": f"{k}{x}"}) for x in range(n[k])]
    for j in range(m.n):
        ops.append(op("byidx", i="a", x=h + j, k="f", ty={"p": m.sigs[j][0], "r": m.sigs[j][1]}, typed=r.random() < 0.5, **{"as": f"f{j}"}))
    for j in range(h):
        ops.append(op("byidx", i="a", x=j, k="f", ty={"p": m.hosts[j][0], "r": m.hosts[j][1]}, **{"as": f"h{j}i"}))
        ops.append(call(f"h{j}i", *[m.arg(t) for t in m.hosts[j][0]]))
    for _ in range(3):
        for j in range(m.n):
            ops.append(op("g.set", o="fuel", v=i32(r.choice([0, 3, 30, 60]))))
            ops.append(call(f"f{j}", *[m.arg(t) for t in m.sigs[j][0]]))
    return script(f"P30p-{c}", [wat], ops, cfgs)


CFGS = [["", "alloc=0"], ["rw=0", "form=stream1"], ["", "arch=1"], ["mem=lazy:vec", "alloc=0;mem=paged:16"], ["th=4;form=stream", ""], ["val=0", "arch=1;alloc=0"]]


def scripts(ck):
    out = [shapes(ck, c, CFGS[c % len(CFGS)]) for c in range(ck.scale(60, 700))]
    out += [programs(ck, c, CFGS[c % len(CFGS)]) for c in range(ck.scale(40, 500))]
    for q, n in FROM.items():
        out += some(ck, q, ck.scale(n, n * 10))
    return out
