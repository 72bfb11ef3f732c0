"""Building blocks for scripts: values, modules, operations."""
import random
import struct

W = {"i32": 4, "i64": 8, "f32": 4, "f64": 8, "v128": 16}


def val(t, x=0):
    """A script value of type t from an integer (raw bits), or a reference (-1: null)."""
    if t in ("funcref", "externref"):
        return {"t": t, "v": [x]}
    n = W[t]
    return {"t": t, "v": list((x & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))}


def i32(x):
    return val("i32", x)


def i64(x):
    return val("i64", x)


def f32b(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def f64b(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def f32(x):
    return val("f32", f32b(x))


def f64(x):
    return val("f64", f64b(x))


def u64(x):
    return list((x & (2**64 - 1)).to_bytes(8, "little"))


def var(n):
    return {"var": n}


NULLF, NULLE = val("funcref", -1), val("externref", -1)

I32S = [0, 1, 2, 3, 7, 8, 15, 16, 24, 31, 32, 33, 63, 64, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000,
        0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF, 0x12345678, 0xDEADBEEF, 0xAAAAAAAA, 0x0F0F0F0F]
I64S = I32S + [0x100000000, 0x1FFFFFFFF, 0xFFFFFFFF00000000, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0x8000000000000001,
               0xFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFF, 0x123456789ABCDEF0, 0x5555555555555555, 0x00FF00FF00FF00FF,
               0xFFFFFFFF80000000, 0xFFFFFFFF7FFFFFFF, 0x80000000FFFFFFFF]
F32S = [0, 0x80000000, 0x3F800000, 0xBF800000, 0x3F000000, 0xBF000000, 0x3FC00000, 0xBFC00000, 0x40200000, 0x3EFFFFFF,
        0xBEFFFFFF, 0x3F7FFFFF, 1, 0x80000001, 0x007FFFFF, 0x00800000, 0x80800000, 0x7F7FFFFF, 0xFF7FFFFF, 0x7F800000,
        0xFF800000, 0x7FC00000, 0xFFC00000, 0x7F800001, 0x7FA00000, 0xFFA12345, 0x7FC12345, 0x4B000000, 0x4B800000,
        0x4AFFFFFF, 0xCB000001, 0x4B7FFFFF, 0x4F000000, 0xCF000000, 0xCF000001, 0x4EFFFFFF, 0x4F800000, 0x4F7FFFFF,
        0x5F000000, 0xDF000000, 0xDF000001, 0x5EFFFFFF, 0x5F800000, 0x5F7FFFFF, 0x40490FDB, 0xC0490FDB, 0x34000000,
        0x42F6E979, 0x3DCCCCCD, 0x501502F9, 0x0DA24260, 0x00000123, 0x40400000, 0xC0A00000]
F64S = [0, 1 << 63, 0x3FF0000000000000, 0xBFF0000000000000, 0x3FE0000000000000, 0xBFE0000000000000, 0x3FF8000000000000,
        0xBFF8000000000000, 0x4004000000000000, 0x3FDFFFFFFFFFFFFF, 0xBFDFFFFFFFFFFFFF, 0x3FEFFFFFFFFFFFFF, 1,
        0x8000000000000001, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x8010000000000000, 0x7FEFFFFFFFFFFFFF,
        0xFFEFFFFFFFFFFFFF, 0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0xFFF8000000000000,
        0x7FF0000000000001, 0x7FF4000000000000, 0xFFF4123456789ABC, 0x7FF8123456789ABC, 0x4330000000000000,
        0x4340000000000000, 0x432FFFFFFFFFFFFF, 0xC330000000000001, 0x433FFFFFFFFFFFFF, 0x41E0000000000000,
        0xC1E0000000000000, 0xC1E0000000200000, 0xC1E0000000100000, 0x41DFFFFFFFC00000, 0x41DFFFFFFFFFFFFF,
        0x41EFFFFFFFE00000, 0x41F0000000000000, 0x41EFFFFFFFFFFFFF, 0x43E0000000000000, 0xC3E0000000000000,
        0xC3E0000000000001, 0x43DFFFFFFFFFFFFF, 0x43EFFFFFFFFFFFFF, 0x43F0000000000000, 0x400921FB54442D18,
        0x3FB999999999999A, 0x47EFFFFFF0000000, 0x47EFFFFFE0000000, 0x47EFFFFFEFFFFFFF, 0x36A0000000000000,
        0x3690000000000000, 0x3690000000000001, 0x380FFFFFC0000000, 0x3810000000000000, 0x36B8000000000000,
        0x4202A05F20000000, 0x3CA0000000000000, 0x4008000000000000]
SPECIAL = {"i32": I32S, "i64": I64S, "f32": F32S, "f64": F64S}


class Rng(random.Random):
    def bits(self, t):
        """Raw bits of an interesting or random value."""
        if t == "v128":
            k = self.randrange(5)
            if k == 0:
                return sum(self.bits("i32") << (32 * j) for j in range(4))
            if k == 1:
                return sum(self.bits("f32") << (32 * j) for j in range(4))
            if k == 2:
                return self.bits("f64") | self.bits("f64") << 64
            if k == 3:
                return sum(self.choice([0, 1, 0x7F, 0x80, 0x81, 0xFF, 0xFE, self.getrandbits(8)]) << (8 * j) for j in range(16))
            return sum(self.choice([0, 1, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0xFF, 0x80, self.getrandbits(16)]) << (16 * j) for j in range(8))
        s = SPECIAL[t]
        k = self.random()
        n = 8 * W[t]
        if k < 0.65:
            return self.choice(s)
        if k < 0.75:
            return (self.choice(s) + self.choice([-1, 1])) & ((1 << n) - 1)
        if k < 0.85 and t in ("i32", "i64"):
            return (self.choice([1, -1]) << self.randrange(n)) & ((1 << n) - 1)
        if k < 0.9 and t in ("f32", "f64"):
            x = self.choice([self.uniform(-10, 10), self.uniform(-1e6, 1e6), self.randrange(-100, 100) / 2])
            return f32b(x) if t == "f32" else f64b(x)
        return self.getrandbits(n)

    def v(self, t):
        return val(t, self.bits(t))


def const(t, bits):
    """The WAT constant instruction with these raw bits."""
    if t in ("i32", "i64"):
        return f"{t}.const {bits:#x}"
    if t == "f32":
        return f"f32.const {wfloat(bits, 8, 23)}"
    if t == "f64":
        return f"f64.const {wfloat(bits, 11, 52)}"
    return "v128.const i32x4 " + " ".join(f"{(bits >> (32 * j)) & 0xFFFFFFFF:#x}" for j in range(4))


def wfloat(b, e, m):
    s = "-" if b >> (e + m) else ""
    x = (b >> m) & ((1 << e) - 1)
    f = b & ((1 << m) - 1)
    bias = (1 << (e - 1)) - 1
    if x == (1 << e) - 1:
        return s + ("inf" if f == 0 else f"nan:{f:#x}")
    if x == 0:
        if f == 0:
            return s + "0x0p+0"
        return s + f"{f:#x}p{1 - bias - m:+d}"
    return s + f"{f | (1 << m):#x}p{x - bias - m:+d}"


# ---------------------------------------------------------------- operations

def inst(mod=1, as_="a", defs=None, links=None, **k):
    o = {"op": "inst", "mod": mod, "as": as_}
    if defs:
        o["defs"] = defs
    if links:
        o["links"] = links
    o.update(k)
    return o


def call(f, *args, **k):
    return dict({"op": "call", "f": f, "args": list(args)}, **k)


def rcall(f, *args, **k):
    return dict({"op": "rcall", "f": f, "args": list(args)}, **k)


def hnew(as_, p, r, beh=None, **k):
    return dict({"op": "hnew", "as": as_, "ty": {"p": p, "r": r}, "beh": beh or [{"ret": default_rets(r)}]}, **k)


def default_rets(r):
    return [val(t, -1 if "ref" in t else 1) for t in r]


def op(name, **k):
    return dict({"op": name}, **k)


def script(id, wats, ops, cfgs=("",), **k):
    return dict({"id": id, "mods": [w if isinstance(w, dict) else {"wat": w} for w in wats], "cfgs": list(cfgs), "ops": ops}, **k)


def wtypes(word, ts):
    return f"({word} {' '.join(ts)})" if ts else ""


def func(name, params, results, body, locals_=()):
    """An exported function."""
    return (f'(func ${name} (export "{name}") {wtypes("param", params)} {wtypes("result", results)} '
            f'{wtypes("local", locals_)}\n  {body})')


RW = ["", "rw=0"]


def borrow(ck, per, pids, cfg):
    """Some of the scripts of other properties, under the configurations cfg(rng, original) gives."""
    import copy
    import importlib
    out = []
    for p in pids:
        c = copy.copy(ck)
        c.coverage = {}
        r = Rng(f"borrow-{ck.pid}-{p}-{ck.seed}")
        ss = importlib.import_module("gen." + p.lower()).scripts(c)
        for s in r.sample(ss, min(per, len(ss))):
            s = dict(s, id=f"{ck.pid}x{s['id']}")
            s["cfgs"] = cfg(r, r.choice(s["cfgs"]))
            out.append(s)
    return out
