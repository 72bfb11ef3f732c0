"""P08: table instructions and reference values."""
from . import model, p01, small
from .core import *
from .hist import *
from .p07 import HOSTFN, HDEF

TABS = [[("i32", "funcref", 5, 12)], [("i32", "funcref", 6, None), ("i32", "externref", 7, 15)], [("i64", "externref", 5, 12), ("i64", "funcref", 8, 8)],
        [("i32", "funcref", 4, 9), ("i64", "funcref", 6, 10), ("i32", "externref", 3, 3)], [("i32", "externref", 4, 8), ("i64", "externref", 5, 30), ("i32", "funcref", 1, 6)],
        [("i64", "funcref", 7, None), ("i32", "funcref", 0, 8), ("i32", "externref", 6, 10)]]

ACT = """
(elem $a0 (table $t{j}) ({it}.const 1) func $f1 $f0)
(elem $a1 (table $t{j}) ({it}.const 2) funcref (ref.null func) (ref.func $f3) (ref.func $h))
"""


def shared(r, tabs):
    """-> (second module text, its table list): imports the tables of the first, in another order, after or before its own"""
    order = list(range(len(tabs)))
    r.shuffle(order)
    own = [(r.choice(["i32", "i64"]), r.choice(["funcref", "externref"]), r.randint(1, 5), 9)]
    imp, lst = [], []
    for j in order:
        it, et, mn, mx = tabs[j][:4]
        imp.append(f'(table $t{len(lst)} (export "t{len(lst)}") (import "a" "t{j}") {it if it == "i64" else ""} {r.randint(0, mn)} {"" if mx is None or r.random() < 0.3 else mx} {et})')
        lst.append((it, et, mn, mx, "import"))
    if r.random() < 0.4:      # the same table twice
        j = order[0]
        it, et, mn, mx = tabs[j][:4]
        imp.append(f'(table $t{len(lst)} (export "t{len(lst)}") (import "a" "t{j}") {it if it == "i64" else ""} 0 {et})')
        lst.append((it, et, mn, mx, "import"))
    return tabmod(lst + own, imports="\n".join(imp)), lst + own


REFMOD = """(module
 (import "h" "ff" (func $hf (param funcref) (result funcref)))
 (import "h" "xx" (func $hx (param externref i32 funcref) (result funcref externref)))
 (global $gf (export "gf") (mut funcref) (ref.func $me))
 (global $gx (export "gx") (mut externref) (ref.null extern))
 (global $gi (export "gi") funcref (ref.func $me))
 (table $t (export "t") 4 funcref)
 (table $x (export "x") 4 externref)
 (elem declare func $me $two $hf)
 (func $me (export "me") (result i32) i32.const 11)
 (func $two (export "two") (param i32) (result i32) local.get 0 i32.const 2 i32.mul)
 (func (export "rme") (result funcref) ref.func $me)
 (func (export "rtwo") (result funcref) ref.func $two)
 (func (export "rhf") (result funcref) ref.func $hf)
 (func (export "swapg") (param funcref externref) (result funcref externref funcref)
   global.get $gf global.get $gx local.get 0 global.set $gf local.get 1 global.set $gx global.get $gi)
 (func (export "echo") (param funcref) (result funcref i32) (local funcref i64 funcref)
   local.get 0 call $hf local.tee 3 local.get 3 ref.is_null)
 (func (export "both") (param externref funcref) (result funcref externref)
   local.get 0 i32.const 9 local.get 1 call $hx)
 (func (export "tabs") (param i32 funcref externref) (result funcref externref)
   local.get 0 local.get 1 table.set $t local.get 0 local.get 2 table.set $x
   local.get 0 table.get $t local.get 0 table.get $x)
 (func (export "pick") (param i32 funcref funcref) (result funcref)
   (block (result funcref) local.get 1 local.get 0 br_if 0 drop local.get 2))
 (func (export "loopf") (param i32 funcref externref) (result externref funcref i32) (local $n i32)
   (loop $l (local.set $n (i32.add (local.get $n) (i32.const 1)))
     (table.set $x (i32.and (local.get $n) (i32.const 3)) (local.get 2))
     (br_if $l (i32.lt_u (local.get $n) (i32.and (local.get 0) (i32.const 7)))))
   (table.get $x (i32.and (local.get $n) (i32.const 3))) local.get 1 local.get $n)
 (func (export "runf") (param funcref) (result i32) i32.const 0 local.get 0 table.set $t i32.const 0 call_indirect $t (result i32))
 (func (export "unset") (result i32 i32) (local funcref externref) local.get 0 ref.is_null local.get 1 ref.is_null)
)"""


def refs(r, n):
    hosts = [hnew("h.ff", ["funcref"], ["funcref"], [{"ret": [{"arg": 0}]}, {"ret": [NULLF]}, {"ret": [var("r1")]}]),
             hnew("h.xx", ["externref", "i32", "funcref"], ["funcref", "externref"], [{"ret": [{"arg": 2}, {"arg": 0}]}, {"ret": [var("r0"), val("externref", 3)]}])]
    o = hosts + [inst(defs=[["h", "ff", "h.ff"], ["h", "xx", "h.xx"]]), call("a.rme", **{"as": "r0"}), call("a.rtwo", **{"as": "r1"}), call("a.rhf", **{"as": "r2"})]

    def f():
        return r.choice([NULLF, var("r0"), var("r1"), var("r2")])

    def x():
        return r.choice([NULLE, val("externref", 0), val("externref", 1), val("externref", 2**31 - 1), val("externref", 42)])
    for _ in range(n):
        o.append(r.choice([
            lambda: call("a.swapg", f(), x()), lambda: call("a.echo", f(), typed=r.random() < 0.5), lambda: call("a.both", x(), f()), lambda: call("a.tabs", r.v("i32") if r.random() < 0.1 else i32(r.randrange(4)), f(), x()),
            lambda: call("a.pick", i32(r.randrange(2)), f(), f()), lambda: call("a.loopf", i32(r.randrange(9)), f(), x()), lambda: call("a.runf", f()),
            lambda: call("a.unset"), lambda: op("g.get", o="a.gf"), lambda: op("g.set", o="a.gf", v=r.choice([f(), f(), x()])), lambda: op("g.set", o="a.gx", v=r.choice([x(), x(), f()])),
            lambda: op("g.get", o="a.gx"), lambda: op("g.set", o="a.gi", v=f()), lambda: op("g.get", o="a.gi"),
            lambda: op("t.set", o="a.t", i=r.randrange(4), v=f()), lambda: op("t.get", o="a.t", i=r.randrange(4)), lambda: op("t.get", o="a.x", i=r.randrange(4)),
            lambda: op("gget", i="a", n=r.choice(["gf", "gx", "gi"])), lambda: op("gset", i="a", n="gf", v=f())])())
    return o


def scripts(ck):
    out = []
    for c in range(ck.scale(60, 600)):
        r = Rng(f"P08t-{ck.seed}-{c}")
        tabs = TABS[c % len(TABS)]
        h = THist(r, tabs, host=0.3, grow=0.06)
        fj = [j for j, t in enumerate(tabs) if t[1] == "funcref" and t[2] >= 5]
        extra = ACT.format(j=fj[0], it=tabs[fj[0]][0]) if fj and c % 2 else ""
        out.append(script(f"P08t-{c}", [tabmod(tabs, extra)], HOSTFN + [inst(defs=HDEF)] + h.setup() + h.ops(ck.scale(80, 120)), ["", "rw=0"]))
    for c in range(ck.scale(40, 400)):
        r = Rng(f"P08s-{ck.seed}-{c}")
        tabs = TABS[c % len(TABS)]
        b, btabs = shared(r, tabs)
        ha, hb = THist(r, tabs, host=0.25, grow=0.05), THist(r, btabs, host=0.2, grow=0.03, inst="b")
        o = HOSTFN + [inst(defs=HDEF), inst(2, "b", defs=HDEF, links=[["a", "a"]])]
        if c % 3 == 0:
            o.append(inst(2, "b2", defs=HDEF, links=[["a", "a"]]))
        o += ha.setup() + hb.setup()
        for _ in range(ck.scale(60, 90)):
            h = r.choice([ha, hb])
            # references of either module, used by both
            ha.a = "a"
            q = h.ops(1)[0]
            for a in ("v",):
                if isinstance(q.get(a), dict) and "var" in q[a] and r.random() < 0.5:
                    q[a] = var(q[a]["var"].replace("ar_", "br_") if h is ha else q[a]["var"].replace("br_", "ar_"))
            if "args" in q:
                q["args"] = [var(("br_" if v["var"].startswith("ar_") else "ar_") + v["var"][3:]) if isinstance(v, dict) and "var" in v and r.random() < 0.5 else v for v in q["args"]]
            o.append(q)
        out.append(script(f"P08s-{c}", [tabmod(tabs), b], o, ["", "rw=0"] if c % 4 == 0 else [""]))
    for c in range(ck.scale(25, 250)):
        r = Rng(f"P08r-{ck.seed}-{c}")
        out.append(script(f"P08r-{c}", [REFMOD], refs(r, ck.scale(60, 100)), ["", "rw=0"]))
    out += [p01.manylocals(ck, c, "P08", 0.7) for c in range(ck.scale(8, 100))]
    out += p01.programs(ck, "P08p", ck.scale(16, 200), cfgs=["", "rw=0"], refs=True, table=True, bulk=True, host=lambda r: r.random() < 0.5)
    out += model.slots(ck, "P08", ["", "rw=0"], ck.scale(1800, 10**6)) + model.slots(ck, "P08", ["", "rw=0"], ck.scale(700, 10**6), it="i64", refs="{0, 1, 3}")
    return out + small.tables(ck, "P08", RW)
