"""P28: every build of the library computes the same."""
import copy
import importlib
import json

from . import model
from .core import *

TECHNIQUE = ("TLC: programs, histories and configurations drawn from all the other generators (and shuffles with every kind of index) are run by two other builds of the library - optimised, without overflow "
             "checks and with the x86 intrinsics; and without the standard library - and every trace is checked against the same TLA+ semantics")
BUILDS = ["x86", "lean"]
FROM = {1: 16, 2: 8, 3: 8, 4: 12, 5: 10, 6: 10, 7: 8, 8: 8, 9: 8, 10: 8, 11: 8, 12: 10, 13: 8, 14: 8, 15: 8, 16: 8, 17: 8, 18: 10, 19: 6, 20: 8, 22: 8, 23: 6, 24: 8, 25: 12, 26: 8}


def some(ck, q, n):
    m = importlib.import_module(f"gen.p{q:02}")
    c = copy.copy(ck)
    c.seed, c.pid, c.pred, c.coverage, c.viol = ck.seed + 4000, f"P{q:02}", {}, {}, []
    old = {f: getattr(model, f) for f in ("cells", "slots", "life", "nest")}
    for f in old:                # (the tours of the small models are not repeated)
        setattr(model, f, lambda *a, **k: [])
    try:
        all = m.scripts(c)
    finally:
        for f, g in old.items():
            setattr(model, f, g)
    out = [s for s in all if '"m.cur"' not in json.dumps(s["ops"])]
    r = Rng(f"P28-{ck.seed}-{q}")
    return r.sample(out, min(n, len(out)))


# swizzles and shuffles: every kind of index
def lanes(ck, c):
    r = Rng(f"P28l-{ck.seed}-{c}")
    L, calls = ["(module (memory (export \"m\") 1)"], [inst()]
    v = lambda f: bytes(f() for _ in range(16))
    vecv = lambda b: val("v128", int.from_bytes(b, "little"))
    for k in range(24):
        idx = [r.choice([0, 15, 16, 31, r.randrange(32)]) for _ in range(16)]
        same = r.random() < 0.3
        L.append(f'(func (export "s{k}") (param v128 v128) (result v128) (i8x16.shuffle {" ".join(map(str, idx))} (local.get 0) (local.get {0 if same else 1})))')
    for n in ("i8x16.swizzle", "i8x16.relaxed_swizzle"):
        z = n[6:]
        L.append(f'(func (export "{z}") (param v128 v128) (result v128) ({n} (local.get 0) (local.get 1)))')
        L.append(f'(func (export "{z}k") (param v128 v128) (result v128) (local v128) (local.set 2 ({n} (local.get 1) (local.get 0))) (v128.xor (local.get 2) ({n} (local.get 0) (v128.const i8x16 15 16 0 -1 -128 127 1 2 3 4 128 144 7 8 240 9))))')
        for _ in range(10):
            for f in (z, z + "k"):
                calls.append(call(f"a.{f}", vecv(v(lambda: r.randrange(256))), vecv(v(lambda: r.choice([0, 1, 14, 15, 16, 17, 31, 127, 128, 129, 143, 144, 240, 255, r.randrange(256), r.randrange(16)])))))
    for k in range(24):
        for _ in range(2):
            calls.append(call(f"a.s{k}", vecv(v(lambda: r.randrange(256))), vecv(v(lambda: r.randrange(256)))))
    return script(f"P28l-{c}", ["\n".join(L) + ")"], calls, ["", "rw=0"])


def scripts(ck):
    out = [lanes(ck, c) for c in range(ck.scale(4, 40))]
    for q, n in FROM.items():
        out += some(ck, q, ck.scale(n, n * 12))
    return out
