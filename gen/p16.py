"""P16: fuel bounds progress."""
import json
from . import prog, p15
from .core import *

TECHNIQUE = ("TLC trace validation: the specification keeps what budgets, charges and host calls of a resumable execution allow (a lower and an upper bound on guest steps, an exact "
             "remainder inside a host function) and rejects traces in which it ran further, stopped short or never stopped; runs under both accounting policies are compared")

BUD = [1, 2, 127, 128, 129, 200, 255, 256, 257, 384, 511, 640, 1000]
# bodies of counted or endless work; $n counts steps
HEAD = """(module (import "h" "h" (func $h (param i32) (result i32))) (import "h" "v" (func $v)) (global $n (export "n") (mut i32) (i32.const 0)) (memory 1) (table 4 funcref) (elem (i32.const 0) func $leaf $st $v)
 (func $leaf (param i32) (result i32) (i32.add (local.get 0) (i32.const 1)))
 (func $st (param i32) (result i32) (global.set $n (i32.add (global.get $n) (i32.const 1))) (local.get 0))
 (func $tl (param i32) (result i32) (global.set $n (i32.add (global.get $n) (i32.const 1))) (return_call $leaf (local.get 0)))
"""
UNITS = ["(call $v)", "(drop (call $h (i32.const 3)))", "(local.set 0 (call $leaf (local.get 0)))", "(local.set 0 (call $st (local.get 0)))", "(local.set 0 (call $tl (local.get 0)))",
         "(local.set 0 (call_indirect (param i32) (result i32) (local.get 0) (i32.const 0)))", "(local.set 0 (call_indirect (param i32) (result i32) (local.get 0) (i32.const 1)))",
         "(call_indirect (i32.const 2))", "(global.set $n (i32.add (global.get $n) (i32.const 1)))", "(i32.store (i32.const 0) (i32.load (i32.const 4)))", "(block (br_if 0 (local.get 0)))",
         "(memory.fill (i32.const 0) (i32.const 1) (i32.const 64))", "(drop (memory.grow (i32.const 0)))", "(local.set 0 (i32.mul (local.get 0) (i32.const 3)))"]


def endless(r, k):
    """a loop that never ends, with k kinds of body"""
    us = [r.choice(UNITS[:2] if r.random() < 0.3 else UNITS) for _ in range(k)]
    inc = "(global.set $n (i32.add (global.get $n) (i32.const 1)))"
    form = r.randrange(6)
    b = " ".join(us)
    if form == 0:
        return f"(loop $l {inc} {b} (br $l))"
    if form == 1:
        return f"(loop $l {inc} {b} (br_if $l (i32.const 1)))"
    if form == 2:
        return f"(loop $l {inc} (block $o (br_table $o $l (i32.and (global.get $n) (i32.const 1)))) {b} (br $l))"
    if form == 3:
        return f"(loop $l {inc} {b} (if (i32.const 0) (then (return)) (else (br $l))))"
    if form == 4:
        return f"(loop $l {inc} (loop $k {b} (br_if $l (global.get $n)) (br $k)))"
    return f"(loop $l (local.set 1 (i32.const 5)) (loop $k {inc} (local.set 1 (i32.sub (local.get 1) (i32.const 1))) (br_if $k (local.get 1))) {b} (br $l))"


def work(ck, c, cfgs, charge=False):
    """Straight lines of host and guest calls, and endless loops, under one budget each."""
    r = Rng(f"P16w-{ck.seed}-{c}-{charge}")
    fs, n = [], 4
    for j in range(n):
        k = r.randrange(5)
        if k == 0:              # only host calls: each is one instruction
            u = r.choice(UNITS[:2])
            body = " ".join([u] * r.choice([100, 260, 420]))
        elif k == 1:
            body = " ".join(r.choice(UNITS[:8]) for _ in range(r.choice([120, 300])))
        elif k == 2:
            body = " ".join(r.choice(UNITS) for _ in range(200))
        else:
            body = endless(r, r.choice([0, 0, 1, 2, 3]))
        fs.append((f'(func (export "f{j}") (param i32) (local i32) {body})', k > 2))
    fs.append((f'(func $rt (export "f{n}") (param i32) (local i32) (global.set $n (i32.add (global.get $n) (i32.const 1))) {r.choice(UNITS)} (return_call $rt (local.get 0)))', True))
    w = HEAD + "\n ".join(f for f, _ in fs) + ")"
    if charge:
        hb = [{"ret": [{"arg": 0}], "ops": [x for _ in range(r.randint(1, 3)) for x in r.choice([[op("rem")], [op("charge", n=r.choice([0, 1, 5, 60, 127, 128, 300, 2**32 - 1]))], [op("rem"), op("charge", n=r.choice([1, 7, 129])), op("rem")]])]}
              for _ in range(3)] + [{"ret": [{"arg": 0}], "ops": [op("rem")]}]
    else:
        hb = [{"ret": [{"arg": 0}]}]
    ops = [hnew("h", ["i32"], ["i32"], hb), hnew("v", [], [], [{"ret": [], "ops": r.choice([[], [op("rem")]])}]), inst(1, "a", defs=[["h", "h", "h"], ["h", "v", "v"]])]
    for _ in range(5):
        j = r.randrange(n + 1)
        b = r.choice(BUD)
        sch = r.choice([[], [], [0], [0, b], [b, b]])
        if r.random() < 0.15:
            o = rcall(f"a.f{j}", i32(1), sched=[{"k": "t", "b": x} for x in r.choice([[0], [0, 1], [1]])], rest={"k": "f", "b": b})
        else:
            o = rcall(f"a.f{j}", i32(1), sched=[{"k": "f", "b": x} for x in sch], rest={"k": "f", "b": b})
        if fs[j][1]:
            o["drop"] = len(o["sched"]) + r.choice([0, 0, 1])
            o["drop"] = max(1, o["drop"])
            for x in o["sched"] + [o["rest"]]:      # keep the search for the abandoned state small
                x["b"] = min(x["b"], 600 // o["drop"])
        elif r.random() < 0.3:
            o["drop"] = len(o["sched"]) + 1
        ops += [o, op("g.get", o="a.n")]
    return script(f"P16{'c' if charge else 'w'}-{c}", [w], ops, cfgs)


# budgets that suffice, and remainders outside metered execution
def enough(ck, c, cfgs):
    r = Rng(f"P16e-{ck.seed}-{c}")
    w = HEAD + """ (func (export "k") (param i32) (result i32) (local i32) (loop (local.set 1 (call $h (local.get 1))) (br_if 0 (local.tee 0 (i32.sub (local.get 0) (i32.const 1))))) (local.get 1))
 (func (export "q") (param i32) (result i32) (call $tl (call $leaf (local.get 0)))) (func (export "z"))
 (func (export "trap") (param i32) (result i32) (loop (br_if 0 (local.tee 0 (i32.sub (local.get 0) (i32.const 1))))) (unreachable)))"""
    hb = [{"ret": [{"arg": 0}], "ops": [op("rem"), op("charge", n=r.choice([0, 1, 1000])), op("rem")]}]
    if r.random() < 0.5:
        inner = [call("a.q", i32(4)), op("rem"), rcall("a.q", i32(4), rest={"k": "f", "b": r.choice([1, 1000])}), op("rem"), op("charge", n=3), op("rem")]
        hb = [{"ret": [{"arg": 0}], "ops": [r.choice(inner) for _ in range(3)]}] + hb
    ops = [hnew("h", ["i32"], ["i32"], hb), hnew("v", [], [], [{"ret": [], "ops": [op("rem")]}]), inst(1, "a", defs=[["h", "h", "h"], ["h", "v", "v"]])]
    for _ in range(8):
        f = r.choice(["k", "k", "q", "trap", "h"])
        a = i32(r.choice([1, 2, 10]))
        k = r.randrange(4)
        if k == 0:
            ops.append(call("h" if f == "h" else "a." + f, a))
        elif k == 1:
            ops.append(rcall("h" if f == "h" else "a." + f, a, sched=[{"k": "f", "b": r.choice([2**32 - 1, 2**31, 10**6 * 300, 10**6 * 300, 10**5])}], rest={"k": "f", "b": 2**32 - 1}, after=r.choice([0, 1])))
        elif k == 2:
            ops.append(rcall("h" if f == "h" else "a." + f, a, sched=[{"k": "f", "b": 0}] * r.choice([1, 3]), rest={"k": r.choice("ft"), "b": 2**32 - 1}))
        else:
            ops.append(rcall("h" if f == "h" else "a." + f, a, sched=[], rest={"k": "t", "b": r.choice([1, 10**9])}))
        if r.random() < 0.3:
            ops += [call("v"), rcall("a.z", sched=[{"k": "f", "b": r.choice([1, 129])}])]
    return script(f"P16e-{c}", [w], ops, cfgs)


def val(v):
    return sum(x << 8 * i for i, x in enumerate(v["v"]))


def over(evs):
    """The step counter after an abandoned execution against what its budgets allow: a step
    costs at least one unit, and each budget is rounded up to an accounting chunk."""
    out, prev, lim, skip = [], 0, 0, False
    for j, e in enumerate(evs):
        if e["op"] == "rnew":
            lim, skip = 0, False
        elif e["op"] == "res":
            skip |= e["k"] != "f" or e["b"] > 10**6
            lim += (e["b"] + 127) // 128 * 128 + 128 if e["b"] else 0
        elif e["op"] == "g.get":
            v = val(e["v"])
            if j and evs[j - 1]["op"] == "rdrop" and not skip:
                out.append({"op": "wless", "a": v - prev, "b": lim})
            prev = v
    return out


def marks(evs):
    """How far each resumable execution got at each of its suspensions."""
    out, cur, n = [], None, 0
    for j, e in enumerate(evs):
        o = e["op"]
        if o == "rnew":
            cur, n = [], 0
            out.append(cur)
        elif o == "hc":
            n += 1
        elif cur is not None and o in ("susp", "ret", "err"):
            cur.append((o != "susp", n, None))
            if o != "susp":
                cur = None
        elif cur is not None and o == "rdrop":
            if cur and j + 1 < len(evs) and evs[j + 1]["op"] == "g.get" and not cur[-1][0]:
                cur[-1] = cur[-1][:2] + (val(evs[j + 1]["v"]),)
            cur = None
    return out


def post(ck, lines, byid):
    cs = [json.loads(l) for l in lines]
    at = {}
    for c in cs:
        s, _, cfg = c["id"].partition("#")
        at.setdefault(s, {})[cfg] = c
    pairs = bounds = 0
    for s, by in at.items():
        if not s.startswith(("P16w", "P16c")) or s not in byid:
            continue
        timed = any(x["k"] == "t" for o in byid[s]["ops"] if o["op"] == "rcall" for x in o["sched"])
        for cfg, c in by.items():
            x = over(c["ev"])
            c["ev"] += x
            bounds += len(x)
        for cfg, c in by.items():
            if "fp=w" not in cfg:
                continue
            b = by.get(";".join(x for x in cfg.split(";") if x != "fp=w"))
            if b is None or timed:
                continue
            ma, mb = marks(c["ev"]), marks(b["ev"])
            for x, y in zip(ma, mb):
                for j, (p, q) in enumerate(zip(x, y)):
                    if q[0]:                     # the per-instruction run had ended
                        break
                    if s.startswith("P16c") and sum(z[1] >= 0 for z in x[:j]) > 1:
                        break
                    c["ev"].append({"op": "wless", "a": int(p[0]), "b": 0})
                    c["ev"].append({"op": "wless", "a": p[1], "b": q[1]})
                    pairs += 1
                    if p[2] is not None and q[2] is not None:
                        c["ev"].append({"op": "wless", "a": p[2], "b": q[2]})
                        pairs += 1
    ck.coverage["policy_comparisons"] = pairs
    ck.coverage["step_bounds"] = bounds
    return [json.dumps(c, separators=(",", ":")) + "\n" for c in cs]


def scripts(ck):
    W = [["", "fp=w"], ["rw=0", "rw=0;fp=w"]]
    out = [work(ck, c, W[c % 2]) for c in range(ck.scale(30, 500))]
    out += [work(ck, c, W[c % 2], charge=True) for c in range(ck.scale(30, 500))]
    out += [enough(ck, c, W[c % 2]) for c in range(ck.scale(20, 300))]
    out += p15.programs(ck, "P16h", ck.scale(16, 300), p15.CFGS, host=2, maxargs=3, tail=0.15, fuel=12)
    return out
