//! Runs the command line in a scratch directory.
use serde_json::{Value, json};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use tinywasm::Module;

use crate::world::Cfg;

/// exit status (-1: ended by a signal, -2: did not end) and standard output
fn spawn(dir: &Path, args: &[String], input: Option<&[u8]>) -> (i64, Vec<u8>) {
    spawn_with(dir, args, input, Stdio::null())
}

/// ... and standard error
fn spawn_err(dir: &Path, args: &[String]) -> (i64, Vec<u8>, Vec<u8>) {
    let e = dir.join(".err");
    let (exit, out) = spawn_with(dir, args, None, std::fs::File::create(&e).unwrap().into());
    let err = std::fs::read(&e).unwrap();
    let _ = std::fs::remove_file(e);
    (exit, out, err)
}

fn spawn_with(dir: &Path, args: &[String], input: Option<&[u8]>, stderr: Stdio) -> (i64, Vec<u8>) {
    let (o, i) = (dir.join(".out"), dir.join(".in"));
    let mut c = Command::new(std::env::var("HARNESS_CLI").expect("HARNESS_CLI"));
    c.args(args).current_dir(dir).stderr(stderr).stdout(std::fs::File::create(&o).unwrap());
    match input {
        Some(b) => {
            std::fs::write(&i, b).unwrap();
            c.stdin(std::fs::File::open(&i).unwrap());
        }
        None => {
            c.stdin(Stdio::null());
        }
    }
    let mut child = c.spawn().unwrap();
    let t = Instant::now();
    let exit = loop {
        match child.try_wait().unwrap() {
            Some(s) => break s.code().map_or(-1, |c| c as i64),
            None if t.elapsed() > Duration::from_secs(15) => {
                let _ = child.kill();
                let _ = child.wait();
                break -2;
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let out = std::fs::read(&o).unwrap();
    for p in [o, i] {
        let _ = std::fs::remove_file(p);
    }
    (exit, out)
}

fn flags(cfg: &Cfg) -> Vec<String> {
    let mut f: Vec<String> = vec![];
    let mut add = |a: &str, b: &str| f.extend([a.to_string(), b.to_string()]);
    match cfg.get("mem") {
        Some("vec") => add("--memory-backend", "vec"),
        Some(s) if s.starts_with("paged:") => {
            add("--memory-backend", "paged");
            add("--memory-page-chunk-size", &s[6..]);
        }
        _ => {}
    }
    for (k, fixed, dynamic) in
        [("vs", "--value-stack-size", "--value-stack-dynamic"), ("call", "--call-stack-size", "--call-stack-dynamic")]
    {
        match cfg.get(k).and_then(|s| s.split_once(':')) {
            Some(("fixed", n)) => add(fixed, n),
            Some((_, n)) => add(dynamic, n),
            None => {}
        }
    }
    match cfg.get("fp") {
        Some("w") => add("--fuel-policy", "weighted"),
        Some(_) => add("--fuel-policy", "per-instruction"),
        None => {}
    }
    if cfg.get("oom") == Some("1") {
        f.push("--trap-on-oom".into());
    }
    f
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
}

/// Text that is not itself a negative number or a plain word would be taken for an option.
fn needs_dashes(a: &str) -> bool {
    a.starts_with('-') && (a.len() < 2 || !a[1..].bytes().all(|c| c.is_ascii_digit()))
}

/// A fresh directory holding the module in the form asked for; the module's name, and standard input.
fn place(scratch: &str, form: &str, wat: Option<&str>, wasm: &[u8]) -> Option<(PathBuf, String, Option<Vec<u8>>)> {
    let dir = PathBuf::from(format!("{scratch}.d"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let twasm = || tinywasm::parse_bytes(wasm).ok()?.serialize_twasm().ok();
    let (kind, stdin) = form.strip_suffix('-').map_or((form, false), |k| (k, true));
    let bytes = match kind {
        "wat" => wat?.as_bytes().to_vec(),
        "wasm" => wasm.to_vec(),
        "twasm" => twasm()?,
        "compiled" => {
            std::fs::write(dir.join("m.wasm"), wasm).unwrap();
            let a: Vec<String> = ["compile", "m.wasm"].iter().map(|s| s.to_string()).collect();
            spawn(&dir, &a, None);
            let b = std::fs::read(dir.join("m.twasm")).unwrap_or_default();
            let _ = std::fs::remove_file(dir.join("m.wasm"));
            let _ = std::fs::remove_file(dir.join("m.twasm"));
            b
        }
        "junk" => b"neither this nor that".to_vec(),
        "missing" => vec![],
        _ => panic!("form {form}"),
    };
    if stdin {
        return Some((dir, "-".into(), Some(bytes)));
    }
    // the kind is told by the content, except that text needs its extension
    let ext = match kind {
        "compiled" => "bin",
        "junk" | "missing" => "wasm",
        k => k,
    };
    let name = format!("in.{ext}");
    if kind != "missing" {
        std::fs::write(dir.join(&name), &bytes).unwrap();
    }
    Some((dir, name, None))
}

pub fn run(op: &Value, cfg: &Cfg, scratch: &str, wat: Option<&str>, wasm: &[u8], lib: Vec<Value>) -> Option<Value> {
    let (dir, name, input) = place(scratch, op["form"].as_str()?, wat, wasm)?;
    let inv = op["inv"].as_str();
    let args = strs(&op["args"]);
    let style = op["style"].as_u64().unwrap_or(0);
    let mut fs = flags(cfg);
    fs.extend(strs(&op["flags"]));
    let mut invoke = vec![];
    if let Some(f) = inv {
        if style & 1 == 0 && !f.starts_with('-') {
            invoke.extend(["--invoke".to_string(), f.to_string()]);
        } else {
            invoke.push(format!("--invoke={f}"));
        }
    }
    let mut l = vec![];
    if style & 2 == 0 {
        l.push("run".to_string());
    }
    match (style >> 2) % 4 {
        0 => {
            l.extend(fs);
            l.extend(invoke);
            l.push(name);
        }
        1 => {
            l.extend(invoke);
            l.push(name);
            l.extend(fs);
        }
        2 => {
            l.push(name);
            l.extend(fs);
            l.extend(invoke);
        }
        _ => {
            l.extend(invoke);
            l.extend(fs);
            l.push(name);
        }
    }
    if style & 16 == 0 || args.first().is_some_and(|a| needs_dashes(a)) {
        l.push("--".into());
    }
    l.extend(args.clone());
    let (exit, out) = spawn(&dir, &l, input.as_deref());
    let _ = std::fs::remove_dir_all(&dir);
    let a: Vec<Vec<u8>> = args.into_iter().map(|a| a.into_bytes()).collect();
    Some(json!({"op": "cli", "mod": op["mod"], "inv": inv.map_or(vec![], |f| vec![f]), "args": a, "bad": op["bad"] == true,
                "form": op["form"], "exit": exit, "out": out, "lib": lib}))
}

/// `inspect`, and the lines it prints
pub fn inspect(op: &Value, scratch: &str, wat: Option<&str>, wasm: &[u8]) -> Option<Value> {
    let (dir, name, input) = place(scratch, op["form"].as_str()?, wat, wasm)?;
    let (exit, out) = spawn(&dir, &["inspect".to_string(), name], input.as_deref());
    let _ = std::fs::remove_dir_all(&dir);
    let t = String::from_utf8_lossy(&out).into_owned();
    // every line is ended by a line feed
    let mut lines: Vec<&str> = t.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    } else {
        lines.push("(no line feed)");
    }
    Some(json!({"op": "insp", "mod": op["mod"], "bad": op["bad"] == true, "form": op["form"], "exit": exit, "lines": lines}))
}

/// every file below a directory
fn files(d: &Path, out: &mut Vec<(PathBuf, Vec<u8>)>) {
    let mut l: Vec<PathBuf> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    l.sort();
    for p in l {
        if p.is_dir() { files(&p, out) } else { out.push((p.clone(), std::fs::read(&p).unwrap())) }
    }
}

pub fn compile(op: &Value, scratch: &str, wat: Option<&str>, wasm: &[u8]) -> Option<Value> {
    let (src, dst) = (op["src"].as_str()?, op["dst"].as_str()?);
    let (exists, force) = (op["exists"] == true, op["force"] == true);
    let (dir, name, input) = place(scratch, src, wat, wasm)?;
    let to = match dst {
        "default" => dir.join("in.twasm"),
        "file" => dir.join("other.name"),
        "nodir" => dir.join("sub").join("out.twasm"),
        "dir" => dir.join("sub"),
        "-" => dir.join("unused"),
        _ => panic!("dst {dst}"),
    };
    if dst == "dir" {
        std::fs::create_dir(&to).unwrap();
    }
    if exists && dst != "-" && dst != "dir" && dst != "nodir" && !to.exists() {
        std::fs::write(&to, op["old"].as_str().unwrap_or("old")).unwrap();
    }
    let (mut before, mut after) = (vec![], vec![]);
    files(&dir, &mut before);
    let mut l = vec!["compile".to_string()];
    let style = op["style"].as_u64().unwrap_or(0);
    let mut opts = vec![];
    if force {
        opts.push(if style & 1 == 0 { "--force" } else { "-f" }.to_string());
    }
    if dst != "default" {
        let o = match dst {
            "-" => "-".to_string(),
            _ => to.strip_prefix(&dir).unwrap().to_string_lossy().into_owned(),
        };
        match (style >> 1) % 3 {
            0 => opts.extend(["--output".to_string(), o]),
            1 => opts.extend(["-o".to_string(), o]),
            _ => opts.push(format!("--output={o}")),
        }
    }
    if style & 8 == 0 {
        l.extend(opts);
        l.push(name);
    } else {
        l.push(name);
        l.extend(opts);
    }
    let (exit, out) = spawn(&dir, &l, input.as_deref());
    files(&dir, &mut after);
    let other = |v: &[(PathBuf, Vec<u8>)]| -> Vec<(PathBuf, Vec<u8>)> { v.iter().filter(|x| x.0 != to).cloned().collect() };
    let at = |v: &[(PathBuf, Vec<u8>)]| v.iter().find(|x| x.0 == to).map(|x| x.1.clone());
    let stray = other(&before) != other(&after) || (dst != "-" && !out.is_empty());
    let had = at(&before).is_some();
    let same = at(&before) == at(&after) && (dst != "-" || out.is_empty());
    let made = if dst == "-" { Some(out) } else { at(&after) };
    let good = made.is_some_and(|b| Module::try_from_twasm(&b).is_ok());
    let _ = std::fs::remove_dir_all(&dir);
    Some(json!({"op": "comp", "src": src, "dst": dst, "exists": had, "force": force, "exit": exit, "same": same, "good": good, "stray": stray}))
}

// ------------------------------------------------------------------ scripts

/// A float constant from its bits: e exponent bits, m mantissa bits.
fn wfloat(b: u64, e: u32, m: u32) -> String {
    let s = if b >> (e + m) & 1 == 1 { "-" } else { "" };
    let (x, f) = (b >> m & ((1 << e) - 1), b & ((1 << m) - 1));
    if x == (1 << e) - 1 {
        return if f == 0 { format!("{s}inf") } else if f == 1 << (m - 1) { format!("{s}nan") } else { format!("{s}nan:{f:#x}") };
    }
    let bias = (1i64 << (e - 1)) - 1;
    let (lead, exp) = if x == 0 { (0, 1 - bias) } else { (1, x as i64 - bias) };
    format!("{s}0x{:x}p{}", (lead << m) | f, exp - m as i64)
}

fn bits(v: &Value) -> u128 {
    v["v"].as_array().unwrap().iter().rev().fold(0, |a, b| (a << 8) | b.as_i64().unwrap() as u8 as u128)
}

/// A value as it stands in a script; style picks between ways to write it.
fn konst(v: &Value, style: u64) -> String {
    let t = v["t"].as_str().unwrap();
    let num = |b: u128, w: u32| match style % 3 {
        0 => format!("{b:#x}"),
        1 => format!("{b}"),
        _ => format!("{}", ((b << (128 - w)) as i128) >> (128 - w)),
    };
    let lanes = |k: u32| -> Vec<u128> { (0..128 / k).map(|j| bits(v) >> (j * k) & ((1u128 << k) - 1)).collect() };
    let ints = |k: u32| lanes(k).iter().map(|x| num(*x, k)).collect::<Vec<_>>().join(" ");
    match t {
        "i32" => format!("(i32.const {})", num(bits(v), 32)),
        "i64" => format!("(i64.const {})", num(bits(v), 64)),
        "f32" => format!("(f32.const {})", wfloat(bits(v) as u64, 8, 23)),
        "f64" => format!("(f64.const {})", wfloat(bits(v) as u64, 11, 52)),
        "v128" => match style / 3 % 6 {
            0 => format!("(v128.const i8x16 {})", ints(8)),
            1 => format!("(v128.const i16x8 {})", ints(16)),
            2 => format!("(v128.const i64x2 {})", ints(64)),
            3 => format!("(v128.const f32x4 {})", lanes(32).iter().map(|x| wfloat(*x as u64, 8, 23)).collect::<Vec<_>>().join(" ")),
            4 => format!("(v128.const f64x2 {})", lanes(64).iter().map(|x| wfloat(*x as u64, 11, 52)).collect::<Vec<_>>().join(" ")),
            _ => format!("(v128.const i32x4 {})", ints(32)),
        },
        _ => {
            let n = v["v"][0].as_i64().unwrap();
            match (t, n < 0) {
                ("funcref", true) => "(ref.null func)".into(),
                ("funcref", false) => format!("(ref.func {n})"),
                (_, true) => "(ref.null extern)".into(),
                (_, false) => format!("(ref.extern {n})"),
            }
        }
    }
}

fn quoted(b: &[u8], style: u64) -> String {
    let mut s = String::from("\"");
    for (i, x) in b.iter().enumerate() {
        if style & 1 == 0 && (x.is_ascii_alphanumeric() || *x == b' ') {
            s.push(*x as char);
        } else {
            s += &format!("\\{x:02x}");
        }
        if style & 2 == 2 && i % 7 == 6 {
            s += "\" \"";
        }
    }
    s + "\""
}

/// One way in which an expectation departs from the value it is made from.
fn changed(v: &Value, how: &Value) -> Value {
    let t = v["t"].as_str().unwrap();
    let mut v = v.clone();
    match how["p"].as_str().unwrap_or("") {
        "flip" => {
            let b = v["v"].as_array_mut().unwrap();
            let k = how["n"].as_u64().unwrap() as usize;
            if t.ends_with("ref") {
                let x = b[0].as_i64().unwrap();
                b[0] = json!(if x < 0 { 3 } else if k % 2 == 0 { -1 } else { x + 1 });
            } else {
                let k = k % (8 * b.len());
                b[k / 8] = json!(b[k / 8].as_u64().unwrap() ^ (1 << (k % 8)));
            }
        }
        // the other sign; in a vector, of one lane
        "neg" if !t.ends_with("ref") => {
            let b = v["v"].as_array_mut().unwrap();
            let w = if t == "v128" { 4 << (how["n"].as_u64().unwrap() % 2) } else { b.len() };
            let k = (how["n"].as_u64().unwrap() as usize / 2 % (b.len() / w)) * w + w - 1;
            b[k] = json!(b[k].as_u64().unwrap() ^ 128);
        }
        // a lane that is no number
        "nan" if !t.ends_with("ref") => {
            let b = v["v"].as_array_mut().unwrap();
            let n = how["n"].as_u64().unwrap() as usize;
            let nan: &[u8] = if b.len() == 4 || (b.len() == 16 && n % 2 == 0) { &[0, 0, 0xc0, 0x7f] } else { &[0, 0, 0, 0, 0, 0, 0xf8, 0x7f] };
            let at = n / 2 % (b.len() / nan.len()) * nan.len();
            for (j, x) in nan.iter().enumerate() {
                b[at + j] = json!(x);
            }
        }
        // the same bits in another type
        "type" => {
            let n = v["v"].as_array().unwrap().len();
            let to = match (t, n) {
                ("i32", _) => "f32",
                ("f32", _) => "i32",
                ("i64", _) => "f64",
                ("f64", _) => "i64",
                ("externref", _) => "funcref",
                ("funcref", _) => "externref",
                _ => return json!({"t": "i64", "v": v["v"].as_array().unwrap()[..8]}),
            };
            v["t"] = json!(to);
        }
        _ => {}
    }
    v
}

/// One expected value: how it is written, and what is recorded of it.
fn pattern(v: &Value, how: &Value, style: u64) -> (String, Value) {
    match how["p"].as_str() {
        Some("canon") => ("(f32.const nan:canonical)".replace("f32", v["t"].as_str().unwrap()), json!({"p": "canon", "x": v})),
        Some("arith") => ("(f32.const nan:arithmetic)".replace("f32", v["t"].as_str().unwrap()), json!({"p": "arith", "x": v})),
        _ => {
            let x = changed(v, how);
            (konst(&x, style), json!({"p": "val", "x": x}))
        }
    }
}

/// The expectations on these results: one alternative or more for each, as generated.
fn expected(vals: &[Value], op: &Value) -> (String, Vec<Value>) {
    let style = op["style"].as_u64().unwrap_or(0);
    let fl = |v: &Value| ["f32", "f64"].contains(&v["t"].as_str().unwrap());
    let mut hows: Vec<Value> = op["exp"].as_array().map_or(vec![], |a| a.clone());
    hows.resize(vals.len().max(hows.len()), json!([{}]));
    let mut vs = vals.to_vec();
    match op["count"].as_i64() {
        Some(-1) => {
            vs.pop();
        }
        Some(1) => vs.push(json!({"t": "i32", "v": [0, 0, 0, 0]})),
        _ => {}
    }
    let (mut text, mut rec) = (vec![], vec![]);
    for (v, alts) in vs.iter().zip(hows.into_iter().chain(std::iter::repeat(json!([{}])))) {
        let ps: Vec<_> = alts.as_array().unwrap().iter()
            .map(|h| if !fl(v) && (h["p"] == "canon" || h["p"] == "arith") { json!({}) } else { h.clone() })
            .map(|h| pattern(v, &h, style)).collect();
        text.push(if ps.len() == 1 { ps[0].0.clone() } else { format!("(either {})", ps.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(" ")) });
        rec.push(json!(ps.into_iter().map(|p| p.1).collect::<Vec<_>>()));
    }
    (text.join(" "), rec)
}

/// What the library did for one operation of the script.
fn outcome(evs: &[Value]) -> Value {
    let done = evs.iter().rev().find(|e| ["instok", "insterr", "ret", "err", "g.get"].contains(&e["op"].as_str().unwrap()));
    let Some(e) = done else { return json!({"k": "none"}) };
    let kind = e["kind"].as_str().unwrap_or("");
    let link = kind.starts_with("unknown:") || kind.starts_with("incompat:");
    match e["op"].as_str().unwrap() {
        "instok" => json!({"k": "inst"}),
        "ret" => json!({"k": "vals", "vals": e["vals"]}),
        "g.get" => json!({"k": "vals", "vals": [e["v"]]}),
        _ => json!({"k": if link { "link" } else { "trap" }, "kind": kind}),
    }
}

/// What the library said while doing each operation, and the number of the instance each was about.
pub struct Done {
    pub evs: Vec<Vec<Value>>,
    pub inst: Vec<usize>,
}

/// Runs the script made of the directives `d`, each standing for an operation the library has already done.
pub fn wast(op: &Value, ops: &[Value], done: &Done, scratch: &str, wat: &[Option<String>], wasm: &[Vec<u8>]) -> Option<Value> {
    let dir = PathBuf::from(format!("{scratch}.d"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let dir = dir.canonicalize().unwrap();
    let ds = op["d"].as_array()?;
    let nf = ds.iter().map(|d| d["s"].as_u64().unwrap_or(1)).max().unwrap_or(1) as usize;
    let mut texts = vec![String::new(); nf];
    let mut recs = vec![];
    // where each directive stands
    let mut at: Vec<(usize, usize, usize)> = vec![];
    for d in ds {
        let style = d["style"].as_u64().unwrap_or(0);
        let f = d["s"].as_u64().unwrap_or(1) as usize - 1;
        let k = d["k"].as_str()?;
        let i = d["i"].as_u64().map(|i| i as usize);
        let id = d["id"].as_str().map_or(String::new(), |s| format!(" ${s}"));
        let the = i.map(|i| &ops[i]);
        let out = i.map_or(json!({"k": "none"}), |i| outcome(&done.evs[i]));
        let mut rec = json!({"s": f + 1, "k": k, "id": d["id"].as_str().map_or(vec![], |s| vec![s]), "out": out, "in": i.map_or(0, |i| done.inst[i]),
                             "act": the.is_some_and(|o| o["op"] != "inst")});
        // the bytes of a module that need not be one
        let damaged = d["muts"].as_array().map(|m| {
            let n = d["mod"].as_u64().unwrap() as usize - 1;
            let mut b = m.iter().fold(wasm[n].clone(), |b, s| crate::layout::mutate(&b, s.as_u64().unwrap()));
            let cut = d["cut"].as_u64().unwrap_or(0) as usize;
            b.truncate(b.len() - cut.min(b.len()));
            b
        });
        let n = the.and_then(|o| o["mod"].as_u64()).or(d["mod"].as_u64()).map(|n| n as usize - 1);
        let module = |id: &str, word: &str| -> Option<String> {
            if let Some(b) = &damaged {
                return Some(format!("(module{word}{id} binary {})", quoted(b, style)));
            }
            let n = n?;
            Some(match style / 64 % 3 {
                0 if wat[n].is_some() => {
                    let t = wat[n].as_ref().unwrap().trim();
                    format!("(module{word}{id} {}", t.strip_prefix("(module")?)
                }
                1 if wat[n].as_ref().is_some_and(|t| t != "(module)") && id.is_empty() && ["module", "malformed", "invalid"].contains(&k) => {
                    let t = wat[n].as_ref().unwrap().trim();
                    format!("(module quote {})", quoted(t.strip_prefix("(module")?.strip_suffix(')')?.as_bytes(), style & 1))
                }
                _ => format!("(module{word}{id} binary {})", quoted(&wasm[n], style)),
            })
        };
        let action = || -> Option<String> {
            let o = the?;
            if o["op"] == "gget" {
                return Some(format!("(get{id} {})", quoted(o["n"].as_str()?.as_bytes(), 1)));
            }
            let name = o["f"].as_str()?.split_once('.')?.1;
            let args: Vec<String> = o["args"].as_array()?.iter().map(|a| konst(a, style)).collect();
            Some(format!("(invoke{id} {} {})", quoted(name.as_bytes(), 1), args.join(" ")))
        };
        let msg = d["msg"].as_str().unwrap_or("some reason");
        let t = match k {
            "module" => {
                let ev = &done.evs[i?];
                let e = ev.iter().find(|e| e["op"] == "inst")?;
                rec["links"] = e["links"].clone();
                module(&id, "")?
            }
            "def" => module(&id, " definition")?,
            "malformed" | "invalid" => {
                rec["b"] = json!(damaged.as_ref().unwrap_or(&wasm[n?]));
                format!("(assert_{k} {} {})", module("", "")?, quoted(msg.as_bytes(), 0))
            }
            "notext" => format!("(assert_malformed (module quote {}) {})", quoted(d["text"].as_str()?.as_bytes(), style & 1), quoted(msg.as_bytes(), 0)),
            "register" => {
                rec["n"] = d["n"].clone();
                format!("(register {}{id})", quoted(d["n"].as_str()?.as_bytes(), 1))
            }
            "invoke" => action()?,
            "return" => {
                let vals = rec["out"]["vals"].as_array().cloned().unwrap_or_default();
                let (t, r) = expected(&vals, d);
                rec["exp"] = json!(r);
                format!("(assert_return {} {t})", action()?)
            }
            "trap" | "exhaustion" => {
                rec["msg"] = json!(msg.as_bytes());
                let what = if the?["op"] == "inst" { module("", "")? } else { action()? };
                format!("(assert_{k} {what} {})", quoted(msg.as_bytes(), 0))
            }
            "unlinkable" => format!("(assert_unlinkable {} {})", module("", "")?, quoted(msg.as_bytes(), 0)),
            _ => panic!("directive {k}"),
        };
        if k == "def" {
            rec["b"] = json!(damaged.as_ref().unwrap_or(&wasm[n?]));
        }
        let text = &mut texts[f];
        *text += ["", "  ", "\n", ";; (module)\n", "(; \n ;) "][(style / 8 % 5) as usize];
        let line = text.matches('\n').count() + 1;
        let col = text.len() - text.rfind('\n').map_or(0, |x| x + 1) + 1;
        at.push((f, line, col));
        *text += &t;
        *text += if style / 8 % 7 == 3 { " " } else { "\n" };
        recs.push(rec);
    }
    let mut args = vec!["wast".to_string()];
    let names: Vec<String> = (0..nf).map(|f| format!("s{f}.wast")).collect();
    for (n, t) in names.iter().zip(&texts) {
        std::fs::write(dir.join(n), t).unwrap();
    }
    if op["dir"] == true {
        std::fs::write(dir.join("other.txt"), "(assert_return").unwrap();
        args.push(".".into());
    } else {
        args.extend(names.iter().rev().cloned());
    }
    let (exit, out, err) = spawn_err(&dir, &args);
    if std::env::var("HARNESS_SHOW").is_ok() {
        eprintln!("{}\n---- {exit}\n{}\n{}", texts.join("\n=====\n"), String::from_utf8_lossy(&out), String::from_utf8_lossy(&err));
    }
    // the directive of each failure: one line each, naming the file, the line and the column
    let (mut fails, mut odd) = (vec![], 0);
    for l in String::from_utf8_lossy(&err).lines() {
        let Some(p) = l.strip_prefix(&format!("{}/", dir.display())) else { continue };
        let mut p = p.splitn(4, [':', ' ']);
        let f = p.next().and_then(|f| names.iter().position(|n| n == f));
        let (a, b) = (p.next().and_then(|x| x.parse::<usize>().ok()), p.next().and_then(|x| x.parse::<usize>().ok()));
        let hit = match (f, a, b) {
            // (the place is that of a word on the first line of the directive)
            (Some(f), Some(a), Some(b)) => at.iter().rposition(|x| x.0 == f && x.1 == a && x.2 < b),
            _ => None,
        };
        match hit {
            Some(x) => fails.push(x + 1),
            None => odd += 1,
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let out = String::from_utf8_lossy(&out).into_owned();
    let num = |l: &str| l.rsplit(' ').next().and_then(|x| x.parse::<i64>().ok()).unwrap_or(-1);
    let find = |t: &str| out.lines().find(|l| l.trim_start().starts_with(t)).map_or(-1, num);
    // the counts of each file, in the order of the summary
    let mut groups: Vec<(i64, i64)> = vec![];
    for l in out.lines() {
        if l.trim_start().starts_with("Tests Passed:") {
            groups.push((num(l), 0));
        } else if l.trim_start().starts_with("Tests Failed:") {
            if let Some(g) = groups.last_mut() {
                g.1 = num(l);
            }
        }
    }
    Some(json!({"op": "wast", "d": recs, "nf": nf, "exit": exit, "fails": fails, "odd": odd, "groups": groups,
                "total": find("Total Tests:"), "passed": find("Total Passed:"), "failed": find("Total Failed:")}))
}
