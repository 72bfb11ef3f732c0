"""Transition tours of the small models in spec/models: TLC explores a model, checks its laws on every transition and
prints the transitions; the tours walk them through the implementation, and `agree` compares every outcome with the
model's own prediction (the trace validator judges the same runs against the full specification)."""
import json
import os
import re
import subprocess
from collections import deque
from .core import *

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "models")
EDGE = re.compile(r'^"@@E@(.*)"$', re.M)


def edges(ck, name, **consts):
    """All transitions of the model: {state: [(op, predicted, next state)]} and the initial state."""
    work = os.path.join(ck.work, name)
    os.makedirs(work, exist_ok=True)
    cfg = os.path.join(work, "m.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "".join(f" {k} = {v}\n" for k, v in consts.items()))
    e = dict(os.environ, JAVA_TOOL_OPTIONS="-Xmx4g")
    r = subprocess.run(["tlc", "-workers", "1", "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE", "-config", cfg, name + ".tla"],
                       cwd=SPEC, env=e, timeout=400, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if "No error has been found" not in r.stdout:
        i = r.stdout.find("Error:")
        raise RuntimeError(f"model {name}: " + r.stdout[i:i + 1500])
    g, first = {}, None
    for m in EDGE.finditer(r.stdout):
        d = json.loads(m.group(1).replace('\\"', '"'))
        f, t = json.dumps(d["f"], sort_keys=True), json.dumps(d["t"], sort_keys=True)
        first = first or f
        g.setdefault(f, []).append((d["o"]["k"], tuple(d["o"]["a"]), tuple(d["v"]), t))
    for f in g:
        g[f].sort(key=repr)
    n = sum(len(x) for x in g.values())
    c = ck.coverage.setdefault("models", {})
    c[name + "".join(f",{k}={v}" for k, v in consts.items())] = {"states": len(g), "transitions": n}
    return g, first


def tours(r, g, first, steps, length):
    """Walks from the initial state that take as many different transitions as `steps` allow."""
    left = {f: r.sample(x, len(x)) for f, x in g.items()}
    out, total = [], 0
    todo = sum(len(x) for x in left.values())
    while total < steps and todo:
        s, walk = first, []
        while len(walk) < length:
            if left[s]:
                e = left[s].pop()
                todo -= 1
                walk.append(e)
                s = e[3]
                continue
            prev, q, hit = {s: None}, deque([s]), None      # the nearest state with something left
            while q:
                f = q.popleft()
                if left[f]:
                    hit = f
                    break
                for e in g[f]:
                    if e[3] not in prev:
                        prev[e[3]] = (f, e)
                        q.append(e[3])
            if hit is None:
                break
            path = []
            while prev[hit]:
                path.append(prev[hit][1])
                hit = prev[hit][0]
            walk += path[::-1]
            s = walk[-1][3]
        out.append(walk)
        total += len(walk)
        if not walk:
            break
    return out, todo


def num(v):
    """The number a value of the log denotes, references as 0 (null) or 1."""
    if v["t"] in ("funcref", "externref"):
        return 0 if v["v"][0] == -1 else 1
    b = sum(x << (8 * i) for i, x in enumerate(v["v"])) if len(v["v"]) != 4 or max(v["v"]) < 256 else None
    w = {"i32": 32, "i64": 64}[v["t"]]
    return b - (1 << w) if b >> (w - 1) else b


def outcomes(ev):
    """The outcome of every call and instantiation of a log, in order."""
    out, depth = [], []
    for e in ev:
        if e["op"] in ("call", "inst", "rnew"):
            depth.append(e["op"])
        elif e["op"] in ("ret", "instok", "err", "insterr", "rnewerr") and depth:
            k = depth.pop()
            if not depth:
                out.append(("ok",) if e["op"] == "instok" else ("err", e["kind"].split(":")[0]) if e["op"] in ("err", "insterr", "rnewerr") else ("ret",) + tuple(num(v) for v in e["vals"]))
    return out


def agree(ck, lines, pred):
    """Compares logs with predictions {script id: [outcome or None]}."""
    n = 0
    for l in lines:
        d = json.loads(l)
        want = pred.get(d["id"].split("#")[0])
        if want is None:
            continue
        got = outcomes(d["ev"])
        for i, w in enumerate(want):
            if w is None:
                continue
            n += 1
            if i >= len(got) or got[i][:len(w)] != w:
                ck.viol.append((d["id"], f"model predicts {w} for outcome {i}, the implementation reports {got[i] if i < len(got) else None}"))
                break
    ck.coverage["predictions_compared"] = ck.coverage.get("predictions_compared", 0) + n
    return lines


# ------------------------------------------------------------------ memory cells

def cells(ck, pid, cfgs, steps, oom=False, it="i32", cap=None, size=3, length=70):
    I = i32 if it == "i32" else i64
    a = "i64 " if it == "i64" else ""
    g, first = edges(ck, "Cells", Min=1, Max=size, Cap=cap or size, Vals="{0, 1}", Oom=str(oom).upper(), Hosts="TRUE")
    r = Rng(f"cells-{pid}-{ck.seed}-{it}-{oom}-{cap}")
    ws, left = tours(r, g, first, steps, length)
    ck.coverage.setdefault("transitions_not_walked", {})[f"Cells-{it}-{oom}-{cap}"] = left
    wat = f"""(module (memory (export "m") {a}1 {size} (pagesize 1)) (data $p "\\01\\00\\01")
      (func (export "st") (param {it} i32) (i32.store8 (local.get 0) (local.get 1)))
      (func (export "ld") (param {it}) (result i32) (i32.load8_s (local.get 0)))
      (func (export "fill") (param {it} i32 {it}) (memory.fill (local.get 0) (local.get 1) (local.get 2)))
      (func (export "copy") (param {it} {it} {it}) (memory.copy (local.get 0) (local.get 1) (local.get 2)))
      (func (export "init") (param {it} i32 i32) (memory.init $p (local.get 0) (local.get 1) (local.get 2)))
      (func (export "drop") (data.drop $p))
      (func (export "grow") (param {it}) (result {it}) (memory.grow (local.get 0))))"""
    out, pred = [], {}
    for k, w in enumerate(ws):
        ops, pr = [inst()], [("ok",)]
        for j, (o, x, v, t) in enumerate(w):
            b, o = o[0], o[1:]
            if b == "g":
                args = {"st": lambda: (I(x[0]), i32(x[1])), "ld": lambda: (I(x[0]),), "fill": lambda: (I(x[0]), i32(x[1]), I(x[2])), "copy": lambda: tuple(map(I, x)),
                        "init": lambda: (I(x[0]), i32(x[1]), i32(x[2])), "drop": tuple, "grow": lambda: (I(x[0]),)}[o]()
                ops.append(call("a." + o, *args))
                pr.append(v)
            else:
                ops.append({"st": lambda: op(r.choice(["m.put", "m.write"]), o="a.m", off=x[0], b=[x[1]]), "ld": lambda: op(r.choice(["m.rex", "m.rvec", "m.read"]), o="a.m", off=x[0], n=1),
                            "fill": lambda: op("m.fill", o="a.m", off=x[0], v=x[1], n=x[2]), "copy": lambda: op("m.copy", o="a.m", off=x[0], s=x[1], n=x[2]), "grow": lambda: op("m.grow", o="a.m", d=x[0])}[o]())
            if j % 12 == 11:
                ops.append(op("m.rvec", o="a.m", off=0, n=len(json.loads(t)["m"])))
        i = f"{pid}/cells-{it}-{oom}-{cap}/{k}"
        out.append(script(i, [wat], ops, cfgs))
        pred[i] = pr
    ck.pred.update(pred)
    return out


# ------------------------------------------------------------------ table slots

def slots(ck, pid, cfgs, steps, it="i32", refs="{0, 1, 2, 3}", size=3, length=70):
    I = i32 if it == "i32" else i64
    a = "i64 " if it == "i64" else ""
    g, first = edges(ck, "Slots", Min=1, Max=size, Refs=refs, Hosts="TRUE")
    r = Rng(f"slots-{pid}-{ck.seed}-{it}")
    ws, left = tours(r, g, first, steps, length)
    ck.coverage.setdefault("transitions_not_walked", {})[f"Slots-{it}"] = left
    other = '(module (func (export "x") (result i32) (i32.const 99)) (func (export "f") (result i32) (i32.const 2)))'
    ref = "(if (result funcref) (i32.eqz (local.get {0})) (then (ref.null func)) (else (if (result funcref) (i32.eq (local.get {0}) (i32.const 1)) (then (ref.func $f)) (else (if (result funcref) (i32.eq (local.get {0}) (i32.const 2)) (then (ref.func $o)) (else (ref.func $x)))))))"
    wat = f"""(module (type $v (func (result i32))) (import "o" "f" (func $o (type $v)))
      (table $t (export "t") {a}1 {size} funcref)
      (func $f (export "f") (type $v) (i32.const 1)) (func $x (export "x") (param i32) (result i32) (i32.const 3))
      (elem $p funcref (ref.func $f) (ref.null func) (ref.func $o)) (elem declare func $f $o $x)
      (func (export "set") (param {it} i32) (table.set $t (local.get 0) {ref.format(1)}))
      (func (export "null") (param {it}) (result i32) (ref.is_null (table.get $t (local.get 0))))
      (func (export "call") (param {it}) (result i32) (call_indirect $t (type $v) (local.get 0)))
      (func (export "tail") (param {it}) (result i32) (return_call_indirect $t (type $v) (local.get 0)))
      (func (export "fill") (param {it} i32 {it}) (table.fill $t (local.get 0) {ref.format(1)} (local.get 2)))
      (func (export "copy") (param {it} {it} {it}) (table.copy $t $t (local.get 0) (local.get 1) (local.get 2)))
      (func (export "init") (param {it} i32 i32) (table.init $t $p (local.get 0) (local.get 1) (local.get 2)))
      (func (export "drop") (elem.drop $p))
      (func (export "r") (param i32) (result funcref) {ref.format(0)})
      (func (export "grow") (param i32 {it}) (result {it}) (table.grow $t {ref.format(0)} (local.get 1))))"""
    out, pred = [], {}
    for k, w in enumerate(ws):
        ops, pr = [inst(1, "o"), inst(2, "a", links=[["o", "o"]])], [("ok",), ("ok",)]
        for v in (1, 2, 3):
            ops.append(call("a.r", i32(v), **{"as": f"r{v}"}))
            pr.append(None)
        rv = lambda v: NULLF if v == 0 else var(f"r{v}")
        for o, x, v, t in w:
            b, o = o[0], o[1:]
            if b == "g":
                args = {"set": lambda: (I(x[0]), i32(x[1])), "null": lambda: (I(x[0]),), "call": lambda: (I(x[0]),), "tail": lambda: (I(x[0]),), "fill": lambda: (I(x[0]), i32(x[1]), I(x[2])),
                        "copy": lambda: tuple(map(I, x)), "init": lambda: (I(x[0]), i32(x[1]), i32(x[2])), "drop": tuple, "grow": lambda: (i32(x[0]), I(x[1]))}[o]()
                ops.append(call("a." + o, *args))
                pr.append(v)
            else:
                ops.append({"set": lambda: op("t.set", o="a.t", i=x[0], v=rv(x[1])), "get": lambda: op("t.get", o="a.t", i=x[0]),
                            "copy": lambda: op("t.copy", o="a.t", i=x[0], s=x[1], n=x[2]), "grow": lambda: op("t.grow", o="a.t", i=x[1], v=rv(x[0]))}[o]())
        i = f"{pid}/slots-{it}/{k}"
        out.append(script(i, [other, wat], ops, cfgs))
        pred[i] = pr
    ck.pred.update(pred)
    return out


# ------------------------------------------------------------------ instances sharing what they import

LIFE = {1: "E0 D0", 2: "E2 D0", 3: "E1 D2 D1", 4: "E0 D1 trap0", 5: "D1 bump", 6: "E1 call0", 7: "E0 D0 growm", 8: "E0"}


def life_wat(k):
    fns = """(func (export "set") (param i32) (result i32) (global.get $g) (global.set $g (local.get 0)))
      (func (export "call") (param i32) (result i32) (call_indirect $t (result i32) (local.get 0)))
      (func (export "growm") (result i32) (memory.grow (i32.const 1)))
      (func (export "growt") (result i32) (table.grow $t (ref.null func) (i32.const 1)))
      (func (export "poke") (param i32) (result i32) (i32.load8_u (local.get 0)) (i32.store8 (local.get 0) (i32.const 0)))
      (func (export "wipe") (result i32) (table.fill $t (i32.const 0) (ref.null func) (table.size $t)) (table.size $t))"""
    if k == 0:
        return f"""(module (memory $m (export "m") 2 3 (pagesize 1)) (table $t (export "t") 2 3 funcref) (global $g (export "g") (mut i32) (i32.const 0)) {fns})"""
    b = 1 if k in (1, 3, 5, 7) else 2
    L = ["(module"]
    for n, p, q in (("set", 1, 1), ("call", 1, 1), ("growm", 0, 1), ("growt", 0, 1), ("poke", 1, 1), ("wipe", 0, 1)):
        L.append(f'(import "p" "{n}" (func $p{n} {"(param i32)" if p else ""} (result i32)))')
    L += ['(import "p" "m" (memory $m 2 3 (pagesize 1)))', '(import "p" "t" (table $t 2 3 funcref))', f'(import "p" "g" (global $g {"i64" if k == 8 else "(mut i32)"}))']
    L.append(f'(func $me (result i32) (i32.const {k}))')
    if k == 8:
        L.append('(elem (table $t) (i32.const 0) func $me))')
        return "\n".join(L)
    for s in LIFE[k].split():
        if s[0] == "E":
            L.append(f'(elem (table $t) (i32.const {s[1]}) func $me)')
        elif s[0] == "D":
            L.append(f'(data (i32.const {s[1]}) "\\0{b}")')
        else:
            body = {"trap0": "(if (i32.eqz (global.get $g)) (then (i32.store8 (i32.const 0) (i32.const 3)) unreachable))", "bump": "(global.set $g (i32.rem_u (i32.add (global.get $g) (i32.const 1)) (i32.const 3)))",
                    "call0": "(global.set $g (i32.rem_u (call_indirect $t (result i32) (i32.const 0)) (i32.const 3)))", "growm": "(drop (memory.grow (i32.const 1)))"}[s]
            L.append(f"(func $s {body}) (start $s)")
    L.append(fns)
    # the same work done by the provider, in the middle of this instance's own: its view before and after must be the shared one
    for n, p in (("set", 1), ("call", 1), ("growm", 0), ("growt", 0), ("poke", 1), ("wipe", 0)):
        after = {"set": "(if (i32.ne (global.get $g) (local.get 0)) (then unreachable))",
                 "growm": "(if (i32.ne (memory.size) (i32.add (local.get 1) (i32.ne (local.get 2) (i32.const -1)))) (then unreachable)) (i32.store8 (i32.sub (memory.size) (i32.const 1)) (i32.load8_u (i32.sub (memory.size) (i32.const 1))))",
                 "growt": "(if (i32.ne (table.size $t) (i32.add (local.get 3) (i32.ne (local.get 2) (i32.const -1)))) (then unreachable)) (drop (table.get $t (i32.sub (table.size $t) (i32.const 1))))",
                 "poke": "(if (i32.load8_u (local.get 0)) (then unreachable))",
                 "wipe": "(if (i32.eqz (ref.is_null (table.get $t (i32.const 0)))) (then unreachable))", "call": ""}[n]
        arg = "(local.get 0)" if p else ""
        L.append(f'(func (export "x{n}") (param i32) (result i32) (local i32 i32 i32) (local.set 1 (memory.size)) (local.set 3 (table.size $t)) (drop (i32.load8_u (i32.const 0))) (drop (global.get $g)) (local.set 2 (call $p{n} {arg})) {after} (local.get 2))')
    return "\n".join(L) + ")"


def life(ck, pid, cfgs, steps, kinds=5, length=40):
    r = Rng(f"life-{pid}-{ck.seed}")
    ks = sorted(r.sample(list(range(1, 8)), min(kinds, 7)) + [8])
    g, first = edges(ck, "Life", MemMax=3, TabMax=3, Kinds="{" + ", ".join(map(str, ks)) + "}")
    ws, left = tours(r, g, first, steps, length)
    ck.coverage.setdefault("transitions_not_walked", {})["Life"] = left
    wats = [life_wat(k) for k in range(9)]
    out, pred = [], {}
    for k, w in enumerate(ws):
        ops, pr, n, last = [inst(1, "p")], [("ok",)], 0, None
        for o, x, v, t in w:
            pr.append(v)
            if o == "inst":
                n += 1
                ops.append(inst(x[0] + 1, f"c{n}", links=[["p", "p"]]))
                if v == ("ok",):
                    last = f"c{n}"
            else:
                a = [i32(x[1])] if len(x) > 1 else []
                ops.append(call(f"p.{o}", *a) if x[0] == 0 else call(f"{last}.{o}", *a) if x[0] == 1 else call(f"{last}.x{o}", *(a or [i32(0)])))
        i = f"{pid}/life/{k}"
        out.append(script(i, wats, ops, cfgs))
        pred[i] = pr
    ck.pred.update(pred)
    return out


# ------------------------------------------------------------------ guests and hosts calling each other

NEST = """(module (import "h" "step" (func $step (param i64) (result i32))) (global $g (export "g") (mut i32) (i32.const 0)) (memory (export "m") 1)
 (func $run (export "run") (param $l i32) (result i32) (local $c i32) (local $w v128) (local $d i64)
  (local.set $w (i32x4.splat (i32.add (local.get $l) (i32.const 7))))
  (local.set $d (i64.extend_i32_u (local.get $l)))
  (f64.const 2.5)
  (block $done (loop $top
   (if (i64.ne (local.get $d) (i64.extend_i32_u (local.get $l))) (then unreachable))
   (block $flip (block $loc (block $tail (block $add (block $trap (block $ret
    (br_table $ret $trap $add $tail $loc $flip (call $step (i64.add (i64.const 100) (local.get $d)))))
    (br $done))
   unreachable)
   (global.set $g (i32.rem_u (i32.add (global.get $g) (i32.const 1)) (i32.const {mod}))) (br $top))
   (return_call $run (i32.sub (i32.const 1) (local.get $l))))
   (local.set $c (global.get $g)) (drop (i32.div_u (i32.const 7) (i32.sub (i32.const 100) (call $run (i32.sub (i32.const 1) (local.get $l)))))) (br $top))
   (local.set $l (i32.sub (i32.const 1) (local.get $l))) (local.set $d (i64.extend_i32_u (local.get $l)))
   (local.set $w (i32x4.splat (i32.add (local.get $l) (i32.const 7)))) (br $top)))
  (if (f64.ne (f64.const 2.5)) (then unreachable))
  (if (i32.ne (i32x4.extract_lane 2 (local.get $w)) (i32.add (local.get $l) (i32.const 7))) (then unreachable))
  (i32.add (i32.mul (local.get $l) (i32.const 10)) (global.get $g))))"""
NEST2 = """(module (import "a" "g" (global $g (mut i32))) (func $s (global.set $g (i32.rem_u (i32.add (global.get $g) (i32.const 1)) (i32.const {mod}))) {x}) (start $s))"""
CODE = {"ret": 0, "trap": 1, "add": 2, "tail": 3, "loc": 4, "flip": 5}


def nest(ck, pid, cfgs, steps, depth=3, mod=2, length=60):
    g, first = edges(ck, "Nest", Depth=depth, Mod=mod)
    r = Rng(f"nest-{pid}-{ck.seed}")
    ws, left = tours(r, g, first, steps, length)
    ck.coverage.setdefault("transitions_not_walked", {})["Nest"] = left
    wats = [NEST.format(mod=mod), NEST2.format(mod=mod, x=""), NEST2.format(mod=mod, x="unreachable"),
            '(module (import "a" "m" (memory 1)) (import "a" "run" (func $r (param i32) (result i32))) (data (i32.const 5) "z") (table 3 funcref) (elem (i32.const 1) func $r))']
    out, pred = [], {}
    for k, w in enumerate(ws):
        top, beh, act = [], [], []        # what the embedder does; the answers of the host in order; the answers being prepared
        pr, n, walk = [("ok",)], 0, list(w)
        frames = []                       # how each waiting guest frame was entered

        def ask():
            b = {"ops": []}
            beh.append(b)
            act.append(b)
        while walk or frames:
            o, v = (walk[0][0], walk.pop(0)[2]) if walk else ("ret", None)
            ops = act[-1]["ops"] if act else top
            if o == "rcall" and frames:
                ops.append(rcall("a.run", i32(1)))
            elif o in ("call", "rcall"):
                ops.append(call("a.run", i32(0)) if o == "call" else rcall("a.run", i32(1), rest={"k": "f", "b": r.choice([1, 3, 20, 1000])}))
                frames.append(o)
                ask()
            elif o in ("inst", "ifail", "plain"):
                n += 1
                ops.append(inst({"inst": 2, "ifail": 3, "plain": 4}[o], f"n{n}", links=[["a", "a"]]))
            elif o == "bad":
                ops.append(call("a.run", i64(0), i32(1)))
            elif o == "set":
                ops.append(op("gset", i="a", n="g", v=i32(0)))
            else:
                b = act.pop()
                if o in CODE:
                    b["ret"] = [i32(CODE[o])]
                elif o == "herr":
                    b["err"] = "x"
                elif o == "htrap":
                    b["trap"] = "div_zero"
                else:
                    b["prop"], b["ret"] = True, [i32(1)]
                if o == "loc":
                    frames.append("loc")
                    ask()
                elif o in ("add", "tail", "flip"):
                    ask()
                elif o == "ret":
                    if frames.pop() == "loc":
                        ask()
                else:
                    while frames.pop() == "loc":
                        pass
            if not act and v and not frames:
                pr.append(v)
            elif not act and not frames and v is None:
                pr.append(None)
        assert not act
        i = f"{pid}/nest/{k}"
        out.append(script(i, wats, [hnew("step", ["i64"], ["i32"], beh + [{"ret": [i32(0)]}]), inst(1, "a", defs=[["h", "step", "step"]])] + top, cfgs))
        pred[i] = pr
    ck.pred.update(pred)
    return out
