"""Every instruction in many surroundings: each operand from a local, a constant, the stack, a global or memory,
each result returned, assigned, tested, stored or combined."""
from .core import *

RT = {"ib": None}


def ops_int(t):
    o = 64 if t == "i64" else 32
    b = [f"{t}.{x}" for x in "add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr".split()]
    c = [f"{t}.{x}" for x in "eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u".split()]
    u = [f"{t}.{x}" for x in ["clz", "ctz", "popcnt", "extend8_s", "extend16_s"] + (["extend32_s"] if o == 64 else [])]
    return ([(n, [t, t], t) for n in b] + [(n, [t, t], "i32") for n in c] + [(n, [t], t) for n in u]
            + [(f"{t}.eqz", [t], "i32")])


OPS_INT = ops_int("i32") + ops_int("i64") + [("i32.wrap_i64", ["i64"], "i32"), ("i64.extend_i32_s", ["i32"], "i64"),
                                             ("i64.extend_i32_u", ["i32"], "i64")]
OPS_WIDE = [(n, a, ["i64", "i64"]) for n, a in [("i64.add128", ["i64"] * 4), ("i64.sub128", ["i64"] * 4),
                                              ("i64.mul_wide_s", ["i64"] * 2), ("i64.mul_wide_u", ["i64"] * 2)]]


def ops_float(t):
    b = [f"{t}.{x}" for x in "add sub mul div min max copysign".split()]
    c = [f"{t}.{x}" for x in "eq ne lt gt le ge".split()]
    u = [f"{t}.{x}" for x in "abs neg ceil floor trunc nearest sqrt".split()]
    return [(n, [t, t], t) for n in b] + [(n, [t, t], "i32") for n in c] + [(n, [t], t) for n in u]


def ops_conv():
    r = []
    for i in ("i32", "i64"):
        for f in ("f32", "f64"):
            for s in "su":
                r += [(f"{i}.trunc_{f}_{s}", [f], i), (f"{i}.trunc_sat_{f}_{s}", [f], i), (f"{f}.convert_{i}_{s}", [i], f)]
    r += [("f32.demote_f64", ["f64"], "f32"), ("f64.promote_f32", ["f32"], "f64"), ("i32.reinterpret_f32", ["f32"], "i32"),
          ("f32.reinterpret_i32", ["i32"], "f32"), ("i64.reinterpret_f64", ["f64"], "i64"),
          ("f64.reinterpret_i64", ["i64"], "f64")]
    return r


OPS_FLOAT = ops_float("f32") + ops_float("f64") + ops_conv()

V = "v128"


def ops_simd():
    r = []
    ints = ["i8x16", "i16x8", "i32x4", "i64x2"]
    B = lambda *n: r.extend((x, [V, V], V) for x in n)
    U = lambda *n: r.extend((x, [V], V) for x in n)
    B("v128.and", "v128.or", "v128.xor", "v128.andnot")
    U("v128.not")
    r.append(("v128.bitselect", [V, V, V], V))
    r.append(("v128.any_true", [V], "i32"))
    for s in ints:
        cs = "eq ne lt_s gt_s le_s ge_s".split() + ([] if s == "i64x2" else "lt_u gt_u le_u ge_u".split())
        B(*[f"{s}.{c}" for c in cs])
        B(f"{s}.add", f"{s}.sub")
        U(f"{s}.abs", f"{s}.neg")
        r.append((f"{s}.all_true", [V], "i32"))
        r.append((f"{s}.bitmask", [V], "i32"))
        for h in "shl shr_s shr_u".split():
            r.append((f"{s}.{h}", [V, "i32"], V))
        if s in ("i8x16", "i16x8"):
            B(*[f"{s}.{x}" for x in "add_sat_s add_sat_u sub_sat_s sub_sat_u avgr_u".split()])
        if s != "i64x2":
            B(*[f"{s}.{x}" for x in "min_s min_u max_s max_u".split()])
    B("i8x16.narrow_i16x8_s", "i8x16.narrow_i16x8_u", "i16x8.narrow_i32x4_s", "i16x8.narrow_i32x4_u", "i16x8.mul", "i32x4.mul",
      "i64x2.mul", "i16x8.q15mulr_sat_s", "i32x4.dot_i16x8_s", "i8x16.swizzle")
    U("i8x16.popcnt", "i16x8.extadd_pairwise_i8x16_s", "i16x8.extadd_pairwise_i8x16_u", "i32x4.extadd_pairwise_i16x8_s",
      "i32x4.extadd_pairwise_i16x8_u")
    for a, b in (("i16x8", "i8x16"), ("i32x4", "i16x8"), ("i64x2", "i32x4")):
        for h in ("low", "high"):
            for s in "su":
                U(f"{a}.extend_{h}_{b}_{s}")
                B(f"{a}.extmul_{h}_{b}_{s}")
    for s in ("f32x4", "f64x2"):
        B(*[f"{s}.{x}" for x in "eq ne lt gt le ge add sub mul div min max pmin pmax".split()])
        U(*[f"{s}.{x}" for x in "abs neg sqrt ceil floor trunc nearest".split()])
    U("i32x4.trunc_sat_f32x4_s", "i32x4.trunc_sat_f32x4_u", "i32x4.trunc_sat_f64x2_s_zero", "i32x4.trunc_sat_f64x2_u_zero",
      "f32x4.convert_i32x4_s", "f32x4.convert_i32x4_u", "f64x2.convert_low_i32x4_s", "f64x2.convert_low_i32x4_u",
      "f32x4.demote_f64x2_zero", "f64x2.promote_low_f32x4")
    for s, t in (("i8x16", "i32"), ("i16x8", "i32"), ("i32x4", "i32"), ("i64x2", "i64"), ("f32x4", "f32"), ("f64x2", "f64")):
        r.append((f"{s}.splat", [t], V))
        n = int(s.split("x")[1])
        for l in sorted({0, 1, n // 2, n - 1}):
            for x in (["_s", "_u"] if s in ("i8x16", "i16x8") else [""]):
                r.append((f"{s}.extract_lane{x} {l}", [V], t))
            r.append((f"{s}.replace_lane {l}", [V, t], V))
    return r


OPS_RELAXED = ([(n, [V, V], V) for n in ["i8x16.relaxed_swizzle", "i16x8.relaxed_q15mulr_s", "i16x8.relaxed_dot_i8x16_i7x16_s",
                                       "f32x4.relaxed_min", "f32x4.relaxed_max", "f64x2.relaxed_min", "f64x2.relaxed_max"]]
               + [(n, [V], V) for n in ["i32x4.relaxed_trunc_f32x4_s", "i32x4.relaxed_trunc_f32x4_u",
                                        "i32x4.relaxed_trunc_f64x2_s_zero", "i32x4.relaxed_trunc_f64x2_u_zero"]]
               + [(n, [V, V, V], V) for n in ["i8x16.relaxed_laneselect", "i16x8.relaxed_laneselect", "i32x4.relaxed_laneselect",
                                             "i64x2.relaxed_laneselect", "f32x4.relaxed_madd", "f32x4.relaxed_nmadd",
                                             "f64x2.relaxed_madd", "f64x2.relaxed_nmadd",
                                             "i32x4.relaxed_dot_i8x16_i7x16_add_s"]])
OPS_SIMD = ops_simd()

SHIFTK = [0, 1, 8, 16, 24, 31, 32, 33, 48, 56, 63, 64, 65]


def pick_const(r, opn, t, pos):
    if pos == 1 and any(x in opn for x in (".sh", ".rot")) and r.random() < 0.7:
        return r.choice(SHIFTK)
    return r.bits(t)


HDR = """(memory $m 1) (global $gi32 (mut i32) (i32.const 0)) (global $gi64 (mut i64) (i64.const 0))
(global $gf32 (mut f32) (f32.const 0)) (global $gf64 (mut f64) (f64.const 0)) (global $gv128 (mut v128) (v128.const i64x2 0 0))
(func $idi32 (param i32) (result i32) local.get 0) (func $idi64 (param i64) (result i64) local.get 0)
(func $idf32 (param f32) (result f32) local.get 0) (func $idf64 (param f64) (result f64) local.get 0)
(func $idv128 (param v128) (result v128) local.get 0)"""
KINDS = ["L", "C", "S", "G", "M", "W"]
STORE = {"i32": "i32.store", "i64": "i64.store", "f32": "f32.store", "f64": "f64.store", "v128": "v128.store"}
LOAD = {t: s.replace("store", "load") for t, s in STORE.items()}


def testable(t):
    return {"i32": "", "i64": "i64.const 0 i64.ne", "f32": "f32.const 0 f32.ne", "f64": "f64.const 0 f64.ne",
            "v128": "v128.any_true"}[t]


CONS = ["ret", "return", "set", "seta", "setb", "setget", "tee", "teea", "teeb", "teedrop", "drop", "brif", "brifz", "if", "ifz",
        "select", "store", "gset", "call", "addl", "laddr", "addc", "andtee", "subtee", "cmpc", "loop", "op2", "keep", "brv", "switch"]


def operand(r, k, t, a, n, opn, pos, cst=None):
    """-> (setup code, push code); the value is that of local $a unless constant"""
    l = f"local.get ${a}"
    if k == "L":
        return "", l
    if k == "C":
        return "", const(t, pick_const(r, opn, t, pos) if cst is None else cst)
    if k == "S":
        return "", f"{l} call $id{t}"
    if k == "G":
        return f"{l} global.set $g{t}", f"global.get $g{t}"
    if k == "W":      # assigned just before
        return f"{l} local.set $w{pos}", f"local.get $w{pos}"
    off = 64 + 16 * n
    return f"i32.const {off} {l} {STORE[t]}", f"i32.const {off} {LOAD[t]}"


BIN = {"i32": ["i32.add", "i32.sub", "i32.and", "i32.xor", "i32.mul", "i32.eq", "i32.lt_u", "i32.shl"],
       "i64": ["i64.add", "i64.sub", "i64.and", "i64.xor", "i64.mul", "i64.eq", "i64.ge_s", "i64.shl"],
       "f32": ["f32.add", "f32.sub", "f32.mul", "f32.lt", "f32.copysign"], "f64": ["f64.add", "f64.sub", "f64.mul", "f64.ge", "f64.copysign"],
       "v128": ["v128.and", "v128.xor", "i32x4.add", "i64x2.sub"]}


def rel(n):
    return any(n.split(".")[1] == x for x in ("eq", "lt_u", "ge_s", "lt", "ge")) and not n.startswith("v128")


def one(r, name, o, kinds, cons, cst=None):
    """One function applying o -> (wat, params)"""
    opn, ats, rt = o
    multi = isinstance(rt, list)
    rts = rt if multi else [rt]
    letters = "abcd"[: len(ats)]
    setup, push = [], []
    for n, (k, t) in enumerate(zip(kinds, ats)):
        s, p = operand(r, k, t, letters[n], n, opn, n, cst)
        setup.append(s)
        push.append(p)
    if len(ats) == 2 and kinds == "LL" and r.random() < 0.15 and ats[0] == ats[1]:
        push[1] = push[0]
    ev = " ".join(push) + " " + opn
    pre = " ".join(s for s in setup if s)
    lets = [f"(local $w{n} {t})" for n, t in enumerate(ats)]
    t = rts[0]
    lets += [f"(local $r {t})", "(local $n i32)"]
    ls = " ".join(f"local.get ${x}" for x in letters)
    lts = list(ats)
    res, body = rts, None
    if multi and cons not in ("ret", "return", "call"):
        cons = "ret"
    if cons == "seta" and t != ats[0] or cons == "teea" and t != ats[0]:
        cons = cons[:3]
    if cons in ("setb", "teeb") and (len(ats) < 2 or t != ats[1]):
        cons = cons[:3]
    cond = f"{ev} {testable(t)}" if not multi else ev
    B = r.choice(BIN[t]) if not multi else ""
    brt = "i32" if B and rel(B) else t
    C = const(t, r.bits(t))
    if cons == "ret":
        body = ev
    elif cons == "return":
        body = ev + " return"
    elif cons in ("set", "seta", "setb"):
        d = {"set": "r", "seta": "a", "setb": "b"}[cons]
        body, res = f"{ev} local.set ${d} {ls} local.get $r", lts + [t]
    elif cons == "setget":
        body, res = f"{ev} local.set $r local.get $r {ls}", [t] + lts
    elif cons in ("tee", "teea", "teeb"):
        d = {"tee": "r", "teea": "a", "teeb": "b"}[cons]
        body, res = f"{ev} local.tee ${d} {ls} local.get $r", [t] + lts + [t]
    elif cons == "teedrop":
        body, res = f"{ev} local.tee $r drop {ls} local.get $r", lts + [t]
    elif cons == "drop":
        body, res = f"{ev} drop {ls}", lts
    elif cons in ("brif", "brifz"):
        z = "i32.eqz" if cons == "brifz" else ""
        body, res = f"block {cond} {z} br_if 0 i32.const 1 local.set $n end local.get $n {ls}", ["i32"] + lts
    elif cons in ("if", "ifz"):
        z = "i32.eqz" if cons == "ifz" else ""
        body, res = f"{cond} {z} if (result i32) i32.const 11 else i32.const 22 end {ls}", ["i32"] + lts
    elif cons == "select":
        body, res = f"i64.const 7 i64.const 8 {cond} select {ls}", ["i64"] + lts
    elif cons == "store":
        body, res = f"i32.const 16 {ev} {STORE[t]} i32.const 16 {LOAD[t]}", [t]
    elif cons == "gset":
        body, res = f"{ev} global.set $g{t} global.get $g{t}", [t]
    elif cons == "call":
        body = ev + f" call $id{t}"
    elif cons == "addl":
        body, res = f"{ev} local.get $r2 {B}", [brt]
    elif cons == "laddr":
        body, res = f"local.get $r2 {ev} {B}", [brt]
    elif cons == "addc":
        body, res = f"{ev} {C} {B}", [brt]
    elif cons == "andtee":
        x = {"i32": "i32.and", "i64": "i64.and", "v128": "v128.and"}.get(t, B)
        if rel(x):
            x = f"{t}.add"
        body, res = f"{ev} {C} {x} local.tee $r local.get $r", [t, t]
    elif cons == "subtee":
        x = {"v128": "i32x4.sub"}.get(t, f"{t}.sub")
        body, res = f"{ev} {C} {x} local.tee $r local.get $r", [t, t]
    elif cons == "cmpc":
        if t in ("i32", "i64"):
            cm = r.choice("eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u".split())
        elif t == "v128":
            return one(r, name, o, kinds, "ret", cst)
        else:
            cm = r.choice("eq ne lt gt le ge".split())
        cc = const(t, r.choice([0, 0, 1, r.bits(t)]))
        z = r.choice(["", "i32.eqz"])
        body, res = f"block {ev} {cc} {t}.{cm} {z} br_if 0 i32.const 1 local.set $n end local.get $n", ["i32"]
    elif cons == "loop":      # at most twice round
        body, res = (f"loop local.get $n i32.const 1 i32.add local.set $n block local.get $n i32.const 2 i32.ge_u br_if 0 {cond} "
                     f"br_if 1 end end local.get $n {ls}"), ["i32"] + lts
    elif cons == "op2":
        body, res = f"{ev} {ev} {B}", [brt]
    elif cons == "keep":      # other operands below
        body, res = f"i32.const 5 i64.const 6 {ev}", ["i32", "i64", t]
    elif cons == "brv":
        body, res = f"block (result {t}) i64.const 3 {ev} br 0 end {ls}", [t] + lts
    elif cons == "switch":
        x = {"i32": "", "i64": "i32.wrap_i64", "f32": "i32.reinterpret_f32", "f64": "i64.reinterpret_f64 i32.wrap_i64",
             "v128": "i8x16.bitmask"}[t]
        body, res = (f"block block block {ev} {x} i32.const 3 i32.and br_table 0 1 2 2 end i32.const 1 local.set $n end "
                     f"local.get $n i32.const 10 i32.add local.set $n end local.get $n"), ["i32"]
    params = " ".join(f"(param ${x} {t})" for x, t in zip(letters, ats)) + f" (param $r2 {t})"
    return (f'(func ${name} (export "{name}") {params} {wtypes("result", res)} {" ".join(lets)}\n {pre} {body})', ats + [t])


def scripts(ck, pid, ops, fns, argsets, cfgs=RW, perscript=30, kinds=KINDS, cons=CONS, values=None):
    """fns functions per op: every operand-kind pair and every consumer comes up as evenly as possible."""
    r = Rng(f"{pid}-{ck.seed}")
    todo = []
    ks, cs = [], []
    for o in ops:
        n = len(o[1])
        allk = ["".join(x) for x in __import__("itertools").product(kinds, repeat=min(n, 2))]
        for j in range(fns):
            if not ks or len(ks[-1]) != min(n, 2):
                ks = allk[:]
                r.shuffle(ks)
            if not cs:
                cs = list(cons)
                r.shuffle(cs)
            k = ks.pop()
            k = k + "".join(r.choice(kinds) for _ in range(n - len(k)))
            todo.append((o, k, cs.pop()))
    out, cov = [], {}
    r.shuffle(todo)
    for b in range(0, len(todo), perscript):
        fs, calls = [], []
        for j, (o, k, c) in enumerate(todo[b:b + perscript]):
            w, ps = one(r, f"f{j}", o, k, c)
            cov[c] = cov.get(c, 0) + 1
            fs.append(w)
            for _ in range(argsets):
                calls.append(call(f"a.f{j}", *[r.v(t) for t in ps]))
        out.append(script(f"{pid}-{b // perscript}", ["(module " + HDR + "\n" + "\n".join(fs) + ")"],
                          [inst()] + calls, cfgs, indep=True))
    ck.coverage.setdefault("idiom_functions", 0)
    ck.coverage["idiom_functions"] += len(todo)
    ck.coverage["instructions"] = ck.coverage.get("instructions", 0) + len({o[0] for o in ops})
    return out


EDGE = {"i32": [0, 1, 2, 127, 128, 255, 256, 2**15, 2**16, 2**24, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32 - 2, 2**32 - 128, 2**32 - 129],
        "i64": [0, 1, 127, 128, 255, 256, 2**16, 2**31 - 1, 2**31, 2**31 + 5, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 5, 2**33, 2**40 + 7, 2**63 - 1, 2**63, 2**63 + 1,
                2**64 - 1, 2**64 - 2, 2**64 - 128, 2**64 - 2**31, 2**64 - 2**31 - 1, 2**64 - 2**32, 2**64 - 2**32 + 5]}


def close(r, t, c):
    """Values that tell a constant from its neighbours, its halves and its other extension."""
    if t in ("f32", "f64"):
        b = 31 if t == "f32" else 63
        return [c, c ^ 1 << b, c + 1, c - 1, 0, 1 << b, r.bits(t)]
    if t == "i32":
        return [c, c + 1, c - 1, -c, c ^ 2**31, c & 255, r.bits(t)]
    lo = c & 2**32 - 1
    sx = lo - 2**32 if lo >> 31 else lo
    return [c, c + 1, c - 1, lo, sx, c ^ 2**63, c ^ 2**32, (lo + sx) // 2, c // 2, r.bits(t)]


def near(ck, pid, ops, fns, calls, cfgs=RW, cons=("brif", "brifz", "if", "ifz", "ret", "select", "loop", "set", "seta", "teea", "tee", "store", "gset", "addc")):
    """Operations with one constant operand, on values next to that constant."""
    r = Rng(f"{pid}n-{ck.seed}")
    todo = []
    for o in ops:
        if len(o[1]) == 2 and not isinstance(o[2], list) and o[1][0] == o[1][1] and o[1][0] in ("i32", "i64", "f32", "f64"):
            test = o[2] == "i32" and "." in o[0] and any(o[0].split(".")[1].startswith(x) for x in ("eq", "ne", "lt", "gt", "le", "ge")) and not o[0].endswith("eqz")
            for _ in range(fns * (3 if test else 1)):
                todo.append((o, r.choice(["LC", "LC", "CL", "SC", "WC", "GC", "CS"]), r.choice(cons[:7] if test else cons)))
    r.shuffle(todo)
    out = []
    for b in range(0, len(todo), 40):
        fs, cs = [], []
        for j, (o, k, c) in enumerate(todo[b:b + 40]):
            t = o[1][0]
            x = r.choice(EDGE[t]) if t in EDGE else r.bits(t)
            w, ps = one(r, f"f{j}", o, k, c, x)
            fs.append(w)
            vs = close(r, t, x)
            for v in r.sample(vs, min(calls, len(vs))):
                cs.append(call(f"a.f{j}", *[val(q, v) if i < 2 else r.v(q) for i, q in enumerate(ps)]))
        out.append(script(f"{pid}n-{b // 40}", ["(module " + HDR + "\n" + "\n".join(fs) + ")"], [inst()] + cs, cfgs, indep=True))
    return out
