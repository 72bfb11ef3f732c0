"""P05: memory accesses touch exactly the addressed bytes or trap with no effect."""
from . import p01, prog
from . import windows
from .core import *

LOADS, STORES = prog.LOADS, prog.STORES
LANES = [("8", 1, 16), ("16", 2, 8), ("32", 4, 4), ("64", 8, 2)]
PAGE = 65536


def memdecl(j, m, exp=True):
    """m = (index type, min, max or None, page size log2)"""
    it, mn, mx, ps = m
    e = f'(export "m{j}")' if exp else ""
    p = f"(pagesize {1 << ps})" if ps != 16 else ""
    return f"(memory $m{j} {e} {it if it == 'i64' else ''} {mn} {'' if mx is None else mx} {p})"


CONFIGS = [[("i32", 1, 1, 16)], [("i64", 1, 1, 16)], [("i32", 1, 2, 16), ("i64", 1, None, 16)], [("i64", 1, 1, 16), ("i32", 1, 1, 16)],
           [("i32", 77, 200, 0)], [("i64", 100, 300, 0), ("i32", 1, None, 16)], [("i32", 0, 1, 16), ("i32", 1, 1, 16)],
           [("i32", 1, 1, 16), ("i32", 64, 64, 0), ("i64", 33, 80, 0)]]


def size(m):
    return m[1] << m[3]


def edges(r, m, off, w):
    """Interesting address operands for an access of w bytes at a static offset."""
    s = size(m)
    n = 32 if m[0] == "i32" else 64
    c = [0, 1, 7, 31, 32, 33, 60, 64, 100, s - w, s - w + 1, s - w - 1, s - 1, s, s + 1, s - off - w, s - off - w + 1, s - off, s - off - w - 3,
         2**n - 1, 2**n - off, 2**n - w, 2**n - off - w, 2**31, 2**31 - 1, 2**n - 2**31]
    if n == 64:
        c += [2**32, 2**32 + 1, 2**32 - off, 2**63, 2**63 - off, 2**32 + s - w]
    return r.choice(c) & (2**n - 1)


def offset(r, m):
    s = size(m)
    k = r.random()
    if k < 0.55:
        return r.choice([0, 0, 0, 1, 3, 8, 15, 16])
    if k < 0.8:
        return r.choice([s - 1, s, s - 4, max(0, s - 8), s // 2, s + 1, 1000]) & 0xFFFFFFFF if s else 0
    return r.choice([0xFFFFFFFF, 0xFFFFFFFE, 0x80000000, 0xFFFFFFF8] + ([2**32, 2**63, 2**64 - 1, 2**64 - 8] if m[0] == "i64" else []))


def addr_form(r, it):
    """-> (setup, push): the address operand; its value is that of parameter 0"""
    k = r.choice("LLLSWTAZF")
    if k == "L":
        return "", "local.get $p"
    if k == "S":
        return "", f"local.get $p call $id{it}"
    if k == "W":
        return "local.get $p local.set $w", "local.get $w"
    if k == "T":
        return "", "local.get $p local.tee $w"
    if k == "F":
        return "local.get $p local.set $far", "local.get $far"
    if k == "A":
        return "", f"local.get $p {it}.const 5 {it}.sub {it}.const 5 {it}.add"
    return "", f"block (result {it}) local.get $p end"


def val_form(r, t):
    """a value of type t to store"""
    k = r.randrange(8)
    if k < 2:
        return "local.get $v"
    if k == 2:
        return const(t, r.bits(t))
    if k == 3:
        return f"local.get $v call $id{t}"
    if k == 4 and t in ("f32", "f64"):
        return f"local.get $v local.get $v local.get $v {t}.mul {t}.add"
    if k == 4 and t in ("i32", "i64"):
        return f"local.get $v {const(t, 1)} {t}.add"
    if k == 5 and t != "v128":
        return f"local.get $v local.get $v {t}.{r.choice(['mul', 'sub', 'add'])}"
    if k == 5:
        return "local.get $v local.get $v v128.xor"
    if k == 6:
        return "local.get $v local.tee $vv"
    return "local.get $v local.set $vv local.get $vv"


def one(r, name, mems):
    """-> (wat, parameter types, argument chooser)"""
    j = r.randrange(len(mems))
    m = mems[j]
    it = m[0]
    kind = r.choice(["load"] * 5 + ["store"] * 5 + ["rmw"] * 2 + ["lane", "chain", "fma"])
    off = offset(r, m)
    al = ""
    ls = ["(local $w " + it + ")"]
    far = "(local " + "i32 " * 130 + "i64 " * 130 + f") (local $far {it})"
    body, res, t, w = "", [], "i32", 4
    s, p = addr_form(r, it)
    mm = f"$m{j} offset={off}"
    if kind == "load":
        t = r.choice(list(LOADS))
        n, w = r.choice(LOADS[t])
        e = f"{p} {n} {mm}"
        k = r.randrange(9)
        ls.append(f"(local $r {t})")
        if k == 0:
            body, res = e, [t]
        elif k == 1:
            body, res = f"{e} local.set $r local.get $r local.get $p", [t, it]
        elif k == 2:
            body, res = f"{e} local.tee $r local.get $r", [t, t]
        elif k == 3 and t == it:
            body, res = f"{e} local.set $p local.get $p", [t]
        elif k == 4 and t == it:
            body, res = f"{e} local.tee $p local.get $p", [t, t]
        elif k == 5:
            body, res = f"{e} drop local.get $p", [it]
        elif k == 6:
            body, res = f"{e} return", [t]
        elif k == 7:
            body, res = f"i64.const 3 {e} local.get $p {n} {mm}", ["i64", t, t]
        else:
            body, res = f"{e} local.tee $r drop local.get $r", [t]
        ps = [it]
    elif kind == "store":
        t = r.choice(list(STORES))
        n, w = r.choice(STORES[t])
        ls.append(f"(local $vv {t})")
        body, res = f"{p} {val_form(r, t)} {n} {mm}", []
        ps = [it, t]
    elif kind == "fma":
        t = r.choice(["f32", "f64"])
        w = W[t]
        body = f"{p} local.get $v {const(t, r.bits(t))} local.get $v {t}.mul {t}.add {t}.store {mm}"
        ps = [it, t]
    elif kind == "rmw":
        t = r.choice(["i32", "i64", "f32", "f64"])
        w = W[t]
        c = 1 if r.random() < 0.6 else r.bits(t)
        op_ = r.choice(["add", "add", "sub"])
        m2 = mm if r.random() < 0.7 else f"$m{j} offset={r.choice([0, 4, off])}"
        q = p if r.random() < 0.6 else "local.get $p"
        body = f"{p} {q} {t}.load {m2} {const(t, c)} {t}.{op_} {t}.store {mm}"
        ps = [it]
    elif kind == "lane":
        b, w, n = r.choice(LANES)
        l = r.choice([0, 1, n - 1])
        if r.random() < 0.5:
            body, res = f"{p} local.get $v v128.load{b}_lane {mm} {l}", ["v128"]
        else:
            body, res = f"{p} local.get $v v128.store{b}_lane {mm} {l}", []
        ps, t = [it, "v128"], "v128"
    else:       # a loaded value is the next address
        a = it
        n, w = ("i32.load", 4) if it == "i32" else ("i64.load32_u", 4)
        mask = f"{it}.const 127 {it}.and"
        body, res = f"{p} {n} {mm} {mask} {n} $m{j}", [it]
        ps = [it]
    params = " ".join(f"(param ${x} {y})" for x, y in zip("pv", ps))
    f = f'(func ${name} (export "{name}") {params} {wtypes("result", res)} {" ".join(ls)} {far}\n {s} {body})'

    def args():
        return [val(it, edges(r, m, off, w))] + [r.v(x) for x in ps[1:]]
    return f, args


def bulk(r, name, mems):
    """memory.fill / copy / init with every operand a parameter or a constant"""
    j = r.randrange(len(mems))
    m = mems[j]
    it = m[0]
    k = r.choice(["fill", "fill", "copy", "copy", "init", "drop"])
    s = size(m)

    def ix(t, sz):
        n = 32 if t == "i32" else 64
        c = [0, 1, 3, 8, 31, 32, 33, 63, 64, 65, 100, sz, sz - 1, sz - 32, sz - 64, sz + 1, 2**n - 1, 2**31, 2**(n - 1)]
        if n == 64:
            c += [2**32, 2**32 + 1, 2**63]
        return r.choice(c) & (2**n - 1)

    def ln(t):
        n = 32 if t == "i32" else 64
        return r.choice([0, 0, 1, 2, 5, 8, 31, 33, 64, 100, 2**n - 1, 2**31, 2**(n - 1), s, s + 1] if s <= 400 else
                        [0, 0, 1, 2, 5, 8, 31, 33, 64, 100, 300, 2**n - 1, 2**31, 2**(n - 1), s + 1]) & (2**n - 1)
    if k == "fill":
        ts = [it, "i32", it]
        mk = lambda: [ix(it, s), r.choice([0, 1, 0xFF, 0x1AB, 0xFFFFFF80]), ln(it)]
        ins = f"memory.fill $m{j}"
    elif k == "copy":
        j2 = r.randrange(len(mems))
        m2 = mems[j2]
        lt = "i64" if it == m2[0] == "i64" else "i32"
        ts = [it, m2[0], lt]
        mk = lambda: [ix(it, s), ix(m2[0], size(m2)), ln(lt)]
        ins = f"memory.copy $m{j} $m{j2}"
    elif k == "init":
        ts = [it, "i32", "i32"]
        mk = lambda: [ix(it, s), r.choice([0, 1, 5, 39, 40, 41, 2**31, 2**32 - 1]), r.choice([0, 1, 7, 35, 40, 41, 2**32 - 1, 2**31])]
        ins = f"memory.init $m{j} {r.choice(['$d0', '$d0', '$d1', '$da'])}"
    else:
        d = r.choice(["$d0", "$d1", "$da"])
        return f'(func ${name} (export "{name}") data.drop {d})', lambda: []
    forms, ps = [], []
    fixed = [r.random() < 0.3 for _ in ts]
    if k == "fill" and r.random() < 0.4:
        fixed = [r.random() < 0.3, True, True]
    cv = mk()
    for x, t in enumerate(ts):
        if fixed[x]:
            forms.append(f"{t}.const {cv[x]}")
        else:
            forms.append(f"local.get {len(ps)}" + (f" call $id{t}" if r.random() < 0.3 else ""))
            ps.append((x, t))

    def args():
        v = mk()
        return [val(t, v[x]) for x, t in ps]
    return f'(func ${name} (export "{name}") {wtypes("param", [t for _, t in ps])} {" ".join(forms)} {ins})', args


IDS = "\n".join(f"(func $id{t} (param {t}) (result {t}) local.get 0)" for t in ("i32", "i64", "f32", "f64", "v128"))


def memmod(r, mems, n, nb, argsets, alias=False):
    L = ["(module"]
    if alias:      # the same memory imported twice
        L += [f'(import "x" "m0" {memdecl(j, m, False)})' for j, m in enumerate(mems)]
    else:
        L += [memdecl(j, m) for j, m in enumerate(mems)]
    L.append(IDS)
    for j, m in enumerate(mems):
        if size(m) >= 64:
            hi = size(m) - 40 if size(m) > 100 else 20
            for at in {0, 24, hi}:
                L.append(f'(data (memory $m{j}) ({m[0]}.const {at}) "{"".join(chr(92) + format(r.choice([0, 1, 0x7F, 0x80, 0xFF, r.randrange(256)]), "02x") for _ in range(40))}")')
    L.append('(data $d0 "' + "".join(f"\\{r.randrange(256):02x}" for _ in range(40)) + '")')
    L.append('(data $d1 "")')
    L.append(f'(data $da (memory $m0) ({mems[0][0]}.const 0) "")')
    calls = []
    for q in range(n + nb):
        f, args = one(r, f"f{q}", mems) if q < n else bulk(r, f"f{q}", mems)
        L.append(f)
        calls += [call(f"a.f{q}", *args()) for _ in range(argsets)]
    L.append(")")
    r.shuffle(calls)
    return "\n".join(L), calls


def scripts(ck):
    out = []
    for c in range(ck.scale(24, 220)):
        r = Rng(f"P05-{ck.seed}-{c}")
        mems = CONFIGS[c % len(CONFIGS)]
        w, calls = memmod(r, mems, 26, 12, 4)
        out.append(script(f"P05-{c}", [w], [inst()] + calls, RW + ["alloc=0"]))
    for c in range(ck.scale(4, 40)):     # one memory under several indices
        r = Rng(f"P05a-{ck.seed}-{c}")
        m = r.choice([("i32", 1, 1, 16), ("i64", 1, 1, 16), ("i32", 90, 90, 0)])
        w, calls = memmod(r, [m, m], 20, 12, 3, alias=True)
        src = f"(module {memdecl(0, m)})"
        out.append(script(f"P05a-{c}", [src, w], [inst(1, "x"), inst(2, "a", links=[["x", "x"]])] + calls, RW))
    n = ck.scale(16, 300)
    out += p01.programs(ck, "P05p", n, mem=2, mem64=True, oob=0.12, simd=lambda r: r.random() < 0.4, table=False)
    out += windows.scripts(ck, "P05", ck.scale(24, 300), 12, lambda r: ["i32", "i64", r.choice(["v128", "f32", "f64"])], cut=0.1,
                           mems=lambda r: r.choice([("i32", "i64", "i32"), ("i64",), ("i32", "i32", "i64")]), cfgs=RW)
    return out
