#!/usr/bin/env python3
"""check.py Pnn [--tier quick|thorough] | --replay FILE

Decides one property: builds the harness from /repo's working tree, generates embedder scripts, executes
them against tinywasm, and lets TLC check every recorded trace against the TLA+ specification."""
import argparse
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
RUN = os.path.join(V, "run")
HARNESS = os.path.join(V, "harness", "target", "debug", "harness")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2026-10-30", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
ENV["PATH"] = "/root/.cargo/bin:" + ENV["PATH"]
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_PROFILE_DEV_DEBUG"):
    ENV.pop(k, None)


class Broken(Exception):
    pass


def build():
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"], cwd=os.path.join(V, "harness"), env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken("harness does not build:\n" + r.stdout[-4000:])


# other builds of the library: with the x86 intrinsics and optimised, and without the standard library
T = os.path.join(V, "harness", "target")
BUILDS = {
    "x86": (["--release", "--features", "tinywasm/simd-x86,byindex"], {"RUSTFLAGS": "-C target-cpu=x86-64-v3", "CARGO_PROFILE_RELEASE_OPT_LEVEL": "2"}, os.path.join(T, "x86", "release", "harness")),
    "dbg": (["--features", "byindex"], {}, os.path.join(T, "dbg", "debug", "harness")),
    "lean": (["--no-default-features"], {}, os.path.join(T, "lean", "debug", "harness")),
}


def buildable(b):
    """Can this machine run it?"""
    if b != "x86":
        return True
    with open("/proc/cpuinfo") as f:
        have = next((set(l.split(":")[1].split()) for l in f if l.startswith("flags")), set())
    return {"avx2", "bmi1", "bmi2", "fma", "abm", "movbe", "popcnt", "f16c", "sse4_2", "ssse3"} <= have


def build_variants(names):
    def one(b):
        args, env, _ = BUILDS[b]
        return subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet", "--target-dir", os.path.join(T, b)] + args, cwd=os.path.join(V, "harness"), env=dict(ENV, **env),
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with ThreadPoolExecutor(len(names)) as ex:
        for b, r in zip(names, ex.map(one, names)):
            if r.returncode != 0:
                raise Broken(f"harness ({b}) does not build:\n" + r.stdout[-4000:])


def run_variants(scripts, work, names):
    """Runs the scripts under each build; what two builds report alike is checked once."""
    seen, out = set(), []
    for b in names:
        d = os.path.join(work, b)
        os.makedirs(d, exist_ok=True)
        cases = run_harness([dict(s, cfgs=[f"{c};build={b}" for c in s["cfgs"]]) for s in scripts], d, binary=BUILDS[b][2])
        for l in cases:
            c = json.loads(l)
            key = (c.pop("id").rpartition("#")[0], json.dumps(c, sort_keys=True))
            if key not in seen:
                seen.add(key)
                out.append(l)
    return out


CLI = os.path.join(V, "harness", "target", "cli", "debug", "tinywasm")


def build_cli():
    """The command line, built from the working tree into a target directory of ours."""
    e = dict(ENV, CARGO_PROFILE_DEV_DEBUG="0")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet", "-p", "tinywasm-cli", "--bin", "tinywasm",
                        "--manifest-path", "/repo/Cargo.toml", "--target-dir", os.path.dirname(os.path.dirname(CLI))],
                       cwd="/repo", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken("the command line does not build:\n" + r.stdout[-4000:])
    ENV["HARNESS_CLI"] = CLI


def run_harness(scripts, work, timeout=600, binary=None):
    src, out = os.path.join(work, "scripts.nd"), os.path.join(work, "cases.nd")
    with open(src, "w") as f:
        for s in scripts:
            f.write(json.dumps(s) + "\n")
    r = subprocess.run([binary or HARNESS, "run", src, out], env=ENV, timeout=timeout, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken("harness: " + r.stdout[-3000:])
    with open(out) as f:
        return [l for l in f if l.strip()]


TLCJ = "/opt/veriftools/tla"
STAT = re.compile(r"(\d+) states generated, (\d+) distinct")


def tlc_raw(spec, cfg, env, work, workers, heap, timeout):
    meta = os.path.join(work, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(ENV, **env)
    e["JAVA_TOOL_OPTIONS"] = f"-Xss64m -Xmx{heap}"
    try:
        r = tlc_run(spec, cfg, e, meta, workers, timeout)
    except subprocess.TimeoutExpired:
        raise Broken("out of time while model checking")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.stdout


def tlc_run(spec, cfg, e, meta, workers, timeout):
    return subprocess.run(["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, spec],
                          cwd=os.path.join(V, "spec"), env=e, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


REC = re.compile(r'^"@@(DONE|MISMATCH|INC|RUNAWAY|SKIP)@(.*?)@(.*)"$', re.M)


SKIPPED = [0]


def tlc_cases(lines, work, workers=8, heap="8g", timeout=800):
    """-> (done ids, {id: first complaint}, inconclusive ids, states, transitions)"""
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, "in.nd")
    with open(path, "w") as f:
        f.writelines(lines)
    out = tlc_raw("WasmTrace.tla", "WasmTrace.cfg", {"CASES": path}, work, workers, heap, timeout)
    with open(os.path.join(work, "tlc.out"), "w") as f:
        f.write(out)
    done, bad, inc = set(), {}, set()
    for m in REC.finditer(out):
        k, i, rest = m.group(1), m.group(2), m.group(3).replace('\\"', '"')
        if k == "DONE":
            done.add(i)
        elif k == "INC":
            inc.add(i)
        elif k == "SKIP":
            SKIPPED[0] += 1
        else:
            bad.setdefault(i, []).append(f"{k} {rest[:600]}")
    ok = "Model checking completed. No error" in out
    st = STAT.findall(out)
    g, d = (int(st[-1][0]), int(st[-1][1])) if st else (0, 0)
    return ok, done, bad, inc, g, d, out


class Outcome:
    def __init__(self):
        self.done, self.inc, self.bad, self.states, self.trans, self.errors = set(), set(), {}, 0, 0, []


def case_id(line):
    return json.loads(line)["id"]


def validate(lines, work, budget=840, batch_bytes=24_000_000):
    """Checks case lines with TLC; a case TLC cannot evaluate is isolated by halving."""
    o = Outcome()
    todo, cur, size = [], [], 0
    for l in lines:
        if cur and size + len(l) > batch_bytes:
            todo.append(cur)
            cur, size = [], 0
        cur.append(l)
        size += len(l)
    if cur:
        todo.append(cur)
    t0 = time.time()
    depth = 0
    while todo:
        b = todo.pop(0)
        left = budget - (time.time() - t0)
        if left < 20:
            raise Broken("out of time while model checking")
        ok, done, bad, inc, g, d, out = tlc_cases(b, os.path.join(work, "tlc"), timeout=left)
        o.states += d
        o.trans += g
        ids = [case_id(l) for l in b]
        if not ok:
            if "semantic analysis failed" in out:
                raise Broken("the specification does not parse: " + out[-2000:])
            depth += 1
            if depth > 40:
                raise Broken("TLC fails: " + out[-2000:])
            rest = [l for l, i in zip(b, ids) if i not in done and i not in bad]
            o.done |= done
            for i in ids:
                if i in bad and i not in done:
                    o.bad[i] = bad[i][0]
            if len(rest) > 1 and depth < 30:
                h = len(rest) // 2
                todo[:0] = [rest[:h], rest[h:]]
            elif rest:
                msg = next((x for x in out.splitlines() if x.startswith("Error:")), "Error") + " " + " ".join(out[out.find("Error:"):].split())[:1500]
                o.errors.append((case_id(rest[0]), msg))
                o.bad[case_id(rest[0])] = "the specification cannot interpret the report: " + msg[:600]
            continue
        for i in ids:
            if i in done:
                o.done.add(i)
            elif i in inc:
                o.inc.add(i)
            else:
                o.bad[i] = bad.get(i, ["no behaviour of the specification explains the trace"])[-1]
    return o


def known():
    """known-findings.json: recorded genuine defects, each naming the exact case that fails."""
    p = os.path.join(V, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


class Check:
    """What a property module gets: it adds scripts, extra model-checking runs and direct results."""

    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.thorough = tier == "thorough"
        self.coverage, self.samples, self.viol = {}, [], []
        self.pred = {}

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="substring of script ids (debugging)")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    pid, t0 = a.prop, time.time()
    work = os.path.join(RUN, f"{pid}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        mod = importlib.import_module("gen." + pid.lower())
        builds = [b for b in getattr(mod, "BUILDS", []) if buildable(b)]
        if builds:
            build_variants(builds)
        else:
            build()
        ck = Check(pid, a.tier, a.seed, work)
        ck.builds = builds
        if getattr(mod, "CLI", False):
            build_cli()
        scripts = mod.scripts(ck)
        if a.only:
            scripts = [s for s in scripts if a.only in s["id"]]
        ids = [s["id"] for s in scripts]
        assert len(set(ids)) == len(ids), "duplicate script ids"
        byid = {s["id"]: s for s in scripts}
        t1 = time.time()
        lines = (run_variants(scripts, work, builds) if builds else run_harness(scripts, work)) if scripts else []
        if hasattr(mod, "post"):
            lines = mod.post(ck, lines, byid)
        if ck.pred:
            from gen import model
            model.agree(ck, lines, ck.pred)
        t2 = time.time()
        o = validate(lines, work) if lines else Outcome()
        t3 = time.time()
        fails = [(i, why) for i, why in sorted(o.bad.items())] + ck.viol
        kf = [f for f in known()["findings"] if f["property"] == pid]
        shown, viol = [], []
        for i, why in fails:
            k = next((f for f in kf if f["case"] == i and f["symptom"] in why), None)
            (shown if k else viol).append((i, why, k))
        for i, why, k in shown:
            print(f"KNOWN-FINDING: property={pid} {i}: {k['what']}")
        nev = sum(l.count('"op":') for l in lines)
        ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "model_checking",
              "coverage": dict({"states": max(1, o.states), "transitions": max(1, o.trans),
                                "traces_validated_against_impl": len(o.done),
                                "samples": len(lines), "scripts": len(scripts), "inconclusive": len(o.inc), "inconclusive_calls": SKIPPED[0],
                                "events": nev, "configurations": sum(len(s["cfgs"]) for s in scripts)}, **ck.coverage),
              "wall_s": round(time.time() - t0, 1), "violations": len(viol), "known_findings": len(shown)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{pid}: {len(scripts)} scripts, {len(lines)} traces, {nev} events, {o.states} states, {len(o.done)} accepted, "
              f"{len(o.inc)} inconclusive, {len(viol)} rejected; build {t1-t0:.0f}s run {t2-t1:.0f}s TLC {t3-t2:.0f}s")
        if viol:
            rd = os.path.join(RUN, "replay")
            os.makedirs(rd, exist_ok=True)
            lm = {case_id(l): l for l in lines}
            for n, (i, why, _) in enumerate(viol[:20]):
                p = os.path.join(rd, f"{pid}-{n}.json")
                sid, _, cfg = i.rpartition("#")
                with open(p, "w") as f:
                    json.dump({"property": pid, "case": i, "why": why,
                               "script": dict(byid[sid], cfgs=[cfg]) if sid in byid else None,
                               "trace": json.loads(lm[i])["ev"] if i in lm else None}, f)
                print(f"  {i}: {why}")
                print(f"VIOLATION property={pid} replay={p}")
            if len(viol) > 20:
                print(f"  and {len(viol) - 20} more")
            return 1
        return 0
    except Broken as e:
        print(f"BROKEN {pid}: {e}")
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    work = os.path.join(RUN, f"replay-{os.getpid()}")
    os.makedirs(work)
    try:
        b = re.search(r"build=(\w+)", r["case"])
        if b:
            build_variants([b.group(1)])
        else:
            build()
        if getattr(importlib.import_module("gen." + r["property"].lower()), "CLI", False):
            build_cli()
        if not r.get("script"):
            print(json.dumps(r, indent=1))
            return 1
        lines = run_harness([r["script"]], work, binary=BUILDS[b.group(1)][2] if b else None)
        o = validate(lines, work)
        for i, w in o.bad.items():
            print(f"{i}: {w}")
            n = re.search(r"<<\s*(\d+)", w)
            ev = json.loads(next(l for l in lines if case_id(l) == i))["ev"]
            for j, e in enumerate(ev[: int(n.group(1)) if n else len(ev)]):
                print(" ", j + 1, json.dumps(e)[:400])
        return 1 if o.bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
