"""P09: indirect calls run exactly the referenced function after a structural type check."""
from . import p01, twins
from .core import *

POOL = [([], []), ([], ["i32"]), (["i32"], ["i32"]), (["i32"], ["i64"]), (["i64"], ["i32"]), (["i32", "i32"], ["i32"]), (["i32"], ["i32", "i32"]),
        (["i32"], ["f32"]), (["f32"], ["i32"]), (["f64", "v128"], ["v128"]), (["v128", "f64"], ["v128"]), (["funcref"], ["externref"]), (["externref"], ["funcref"]),
        (["i32"], []), ([], ["i32", "i32"]), (["i64", "i32"], ["i32", "i64"]), (["i32", "i64"], ["i64", "i32"]), (["i32", "i32", "i32"], []), (["f32"], ["f32"]), (["f64"], ["f64"]),
        (["externref"], ["externref"]), (["funcref"], ["funcref"])]


def sig(t):
    return f"{wtypes('param', t[0])} {wtypes('result', t[1])}"


def dflt(t, k, r):
    if t == "funcref":
        return "ref.null func"
    if t == "externref":
        return "ref.null extern"
    if t == "v128":
        return f"v128.const i32x4 {k} 1 2 3"
    return f"{t}.const {k}"


class Linked:
    """A module of a linked set: its own types (with duplicates), functions, tables (its own, and those of the first module)."""

    def __init__(self, r, k, types, tabs, first):
        self.k, self.r = k, r
        self.types = [r.choice(types) for _ in range(r.randint(3, 7))]
        self.types += [r.choice(self.types) for _ in range(2)]      # the same type under another index
        r.shuffle(self.types)
        self.tabs = tabs
        self.fns = []
        L = ["(module"]
        if r.random() < 0.5:
            L += [f"(type $t{i} (func {sig(t)}))" for i, t in enumerate(self.types)]
        else:       # recursive groups and an odd type in front shift the indices
            L += ["(type $odd (func (param i32 i64 f32)))"] + [f"(type $t{i} (func {sig(t)}))" for i, t in enumerate(self.types)]
        L.append('(import "h" "log" (func $log (param i32 i32)))')
        for n, (p, q) in enumerate(HOSTS):
            L.append(f'(import "h" "h{n}" (func $h{n} {sig((p, q))}))')
        for j, (it, mn, mx) in enumerate(tabs):
            d = f'{it if it == "i64" else ""} {mn} {mx} funcref'
            L.append(f'(table $b{j} (export "b{j}") {d})' if first else f'(table $b{j} (export "b{j}") (import "m0" "b{j}") {d})')
        L.append("(table $own (export \"own\") 3 funcref)")
        L.append(f"(memory (export \"mem\") 1) (global $id (mut i32) (i32.const {k * 1000}))")
        for i, t in enumerate(self.types):
            for v in range(2 if r.random() < 0.3 else 1):
                n = len(self.fns)
                self.fns.append(t)
                body = f"(call $log (global.get $id) (i32.const {n})) (global.set $id (i32.add (global.get $id) (i32.const 1))) "
                body += f"(i32.store (i32.const {4 * n}) (i32.add (i32.load (i32.const {4 * n})) (i32.const 1))) "
                if r.random() < 0.07:
                    body += "unreachable "
                for q in t[1]:
                    js = [x for x, p in enumerate(t[0]) if p == q]
                    if js:
                        body += f"local.get {r.choice(js)} " + (f"(i32.add (global.get $id)) " if q == "i32" else "")
                    elif q == "i32":
                        body += f"global.get $id "
                    else:
                        body += f"({dflt(q, k * 100 + n, r)}) "
                loc = r.choice(["", "(local i32)", "(local i64 i32 f64 funcref)"])
                L.append(f'(func $f{n} (export "f{n}") (type $t{i}) {loc} {body})')
        L.append("(elem declare func " + " ".join(f"$f{n}" for n in range(len(self.fns))) + " " + " ".join(f"$h{n}" for n in range(len(HOSTS))) + ")")
        if r.random() < 0.8:
            j = r.randrange(len(tabs))
            ks = [r.randrange(len(self.fns) + len(HOSTS)) for _ in range(r.randint(1, 3))]
            L.append(f"(elem (table $b{j}) ({tabs[j][0]}.const {r.randrange(max(1, tabs[j][1] - 3))}) func " + " ".join(f"$f{x}" if x < len(self.fns) else f"$h{x - len(self.fns)}" for x in ks) + ")")
        for n in range(len(self.fns)):
            L.append(f'(func (export "r{n}") (result funcref) ref.func $f{n})')
        for n in range(len(HOSTS)):
            L.append(f'(func (export "rh{n}") (result funcref) ref.func $h{n})')
        alltabs = [(f"b{j}", t[0]) for j, t in enumerate(tabs)] + [("own", "i32")]
        self.alltabs = alltabs
        for tn, it in alltabs:
            L.append(f'(func (export "set_{tn}") (param {it} funcref) local.get 0 local.get 1 table.set ${tn})')
            L.append(f'(func (export "get_{tn}") (param {it}) (result funcref) local.get 0 table.get ${tn})')
            for i, t in enumerate(self.types):
                ar = " ".join(f"local.get {x}" for x in range(len(t[0])))
                ps = wtypes("param", t[0] + [it])
                L.append(f'(func (export "c_{tn}_{i}") {ps} {wtypes("result", t[1])} {ar} local.get {len(t[0])} call_indirect ${tn} (type $t{i}))')
                L.append(f'(func (export "t_{tn}_{i}") {ps} {wtypes("result", t[1])} {ar} local.get {len(t[0])} return_call_indirect ${tn} (type $t{i}))')
                # with operands below, an index from a constant, and effects before the check
                if r.random() < 0.5:
                    L.append(f'(func (export "k_{tn}_{i}") {wtypes("param", t[0])} {wtypes("result", ["i64"] + t[1])} (call $log (i32.const -1) (global.get $id)) i64.const 77 {ar} '
                             f'{it}.const {r.randrange(5)} call_indirect ${tn} (type $t{i}))')
                else:
                    L.append(f'(func (export "k_{tn}_{i}") {wtypes("param", t[0])} {wtypes("result", ["i64"] + t[1])} i64.const 5 {ar} '
                             f'(global.set $id (i32.const 9)) {it}.const {r.randrange(5)} (call_indirect ${tn} (type $t{i})))')
        self.text = "\n".join(L) + ")"


HOSTS = [(["i32"], ["i32"]), ([], ["i32", "i32"]), (["funcref"], ["externref"])]


def arg(r, t, refs):
    if t == "funcref":
        return r.choice([NULLF] + [var(x) for x in refs])
    if t == "externref":
        return r.choice([NULLE, val("externref", r.randrange(50))])
    return r.v(t)


def one(r, pid, c, nops):
    nm = r.randint(1, 3)
    types = r.sample(POOL, r.randint(3, 6)) + ([HOSTS[0]] if r.random() < 0.6 else [])
    tabs = [(r.choice(["i32", "i32", "i64"]), r.randint(3, 6), 8) for _ in range(r.randint(1, 2))]
    ms = [Linked(r, k, types, tabs, k == 0) for k in range(nm)]
    o = [hnew("h.log", ["i32", "i32"], [])]
    for n, (p, q) in enumerate(HOSTS):
        o.append(hnew(f"h.h{n}", p, q, [{"ret": [i32(5 + n)] * len(q) if "i32" in q else [val("externref", 9)]}, {"ret": [i32(60)] * len(q) if "i32" in q else [NULLE]}]))
    defs = [["h", "log", "h.log"]] + [["h", f"h{n}", f"h.h{n}"] for n in range(len(HOSTS))]
    refs = []
    for k, m in enumerate(ms):
        o.append(inst(k + 1, f"m{k}", defs=defs, links=[["m0", "m0"]] if k else []))
    for k, m in enumerate(ms):
        for n in range(len(m.fns)):
            o.append(call(f"m{k}.r{n}", **{"as": f"r{k}_{n}"}))
            refs.append(f"r{k}_{n}")
    for n in range(len(HOSTS)):
        o.append(call(f"m0.rh{n}", **{"as": f"rh{n}"}))
        refs.append(f"rh{n}")

    def ix(it):
        return val(it, r.choice([0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 4, 5]) if r.random() < 0.95 else r.choice([7, 8, 9, 2**31, 2**32 - 1, 2**32, 2**32 + 1]) & (2**32 - 1 if it == "i32" else 2**64 - 1))
    for k in range(nm):
        for j, (it, mn, mx) in enumerate(tabs + [("i32", 3, 3)]):
            for x in range(mn):
                if (j == len(tabs) or k == 0) and r.random() < 0.8:
                    o.append(op("t.set", o=f"m{k}.b{j}" if j < len(tabs) else f"m{k}.own", i=x, v=var(r.choice(refs))))
    for _ in range(nops):
        k = r.randrange(nm)
        m = ms[k]
        tn, it = r.choice(m.alltabs)
        w = r.random()
        if w < 0.2:
            o.append(call(f"m{k}.set_{tn}", ix(it), arg(r, "funcref", refs) if r.random() < 0.15 else var(r.choice(refs))))
        elif w < 0.3:
            o.append(op("t.set", o=f"m{k}.{tn}", i=r.randrange(5), v=arg(r, "funcref", refs)))
        elif w < 0.34:
            o.append(call(f"m{k}.get_{tn}", ix(it)))
        else:
            i = r.randrange(len(m.types))
            t = m.types[i]
            kind = r.choice("cccttk")
            args = [arg(r, p, refs) for p in t[0]]
            o.append(call(f"m{k}.{kind}_{tn}_{i}", *(args if kind == "k" else args + [ix(it)]), typed=False))
    return script(f"{pid}-{c}", [m.text for m in ms], o, ["", "rw=0"] if c % 3 == 0 else [""])


def scripts(ck):
    out = []
    for c in range(ck.scale(90, 900)):
        r = Rng(f"P09-{ck.seed}-{c}")
        out.append(one(r, "P09", c, ck.scale(60, 90)))
    out += p01.programs(ck, "P09p", ck.scale(12, 150), cfgs=["", "rw=0"], table=True, host=True, nfun=6, tail=lambda r: r.random() < 0.6)
    out += twins.scripts(ck, "P09", ck.scale(16, 300), ck.scale(8, 16), tails=0.4)
    return out
