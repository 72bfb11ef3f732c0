//! Runs embedder scripts against tinywasm and records their event traces for the TLA+ specification.
mod ast;
mod cli;
mod layout;
mod typed;
mod world;

use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufWriter, Write};
use std::process::{Child, Command};
use std::time::{Duration, Instant};

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

fn lines(path: &str) -> Vec<String> {
    let f = std::fs::File::open(path).unwrap();
    std::io::BufReader::new(f).lines().map(|l| l.unwrap()).filter(|l| !l.is_empty()).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// The binary of each module of a script; a `wat` that does not assemble is a fault of the script.
fn binaries(script: &Value) -> Vec<Vec<u8>> {
    let mods = script["mods"].as_array().unwrap();
    mods.iter()
        .map(|m| {
            if let Some(h) = m["hex"].as_str() {
                return unhex(h);
            }
            let t = m["wat"].as_str().unwrap();
            match wat::parse_str(t) {
                Ok(b) => b,
                Err(_) if m["opt"] == true => b"\0asm\x01\0\0\0".to_vec(),
                Err(e) => {
                    eprintln!("script {}: {e}\n{t}", script["id"]);
                    std::process::exit(3)
                }
            }
        })
        .collect()
}

/// How one script fared under all its configurations: the case lines to check.
fn cases(script: &Value, scratch: &str, done: &mut dyn FnMut(usize), skip: &HashMap<usize, String>) -> Vec<String> {
    let mut wasm = binaries(script);
    // a changed module: the first of several changes that leaves it valid (the judgement of the
    // parser under test is the subject of other scripts)
    if let Some(ms) = script["muts"].as_array() {
        let some = ms.iter().find_map(|seeds| {
            let b = seeds.as_array().unwrap().iter().fold(wasm[0].clone(), |b, s| layout::mutate(&b, s.as_u64().unwrap()));
            (b != wasm[0] && wasmparser::Validator::new_with_features(ast::features()).validate_all(&b).is_ok() && ast::dump(&b).is_ok()).then_some(b)
        });
        let Some(b) = some else { return vec![] };
        wasm[0] = b;
    }
    // modules that are only bytes to be parsed
    let raw = script["raw"] == true;
    let mods: Vec<Value> = wasm
        .iter()
        .filter(|_| !raw)
        .map(|b| ast::dump(b).unwrap_or_else(|e| {
            eprintln!("script {}: cannot dump: {e}", script["id"]);
            std::process::exit(3)
        }))
        .collect();
    let mut seen: HashMap<String, ()> = HashMap::new();
    let mut out = vec![];
    // in its last life a worker only reports the fault that ended the one before
    let last = std::env::var("HARNESS_LAST").is_ok();
    for (k, c) in script["cfgs"].as_array().unwrap().iter().enumerate() {
        if last && k > skip.keys().copied().max().unwrap_or(0) {
            break;
        }
        done(k);
        let cfg = world::Cfg::parse(c.as_str().unwrap());
        let log = match skip.get(&k) {
            Some(why) => vec![json!({"op": why})],
            None => world::run(script, &wasm, &cfg, scratch),
        };
        let lim = cfg.call_limit();
        let vl = cfg.value_limits();
        let key = format!("{lim}{vl:?}{}", serde_json::to_string(&log).unwrap());
        if seen.insert(key, ()).is_some() {
            continue;
        }
        let id = format!("{}#{}", script["id"].as_str().unwrap(), cfg.name);
        let case = json!({"id": id, "ns": script["ns"].as_u64().unwrap_or(1), "lim": lim, "vl": vl, "cap": cfg.cap(), "oom": cfg.get("oom") == Some("1"), "indep": script["indep"].as_bool().unwrap_or(false), "mods": mods, "ev": log});
        out.push(serde_json::to_string(&case).unwrap());
    }
    out
}

fn work(scripts: &str, base: &str, me: usize, n: usize) {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}");
        PANIC.with(|p| *p.borrow_mut() = s.chars().take(300).collect());
    }));
    let prog = format!("{base}.p{me}");
    let skip_file = format!("{base}.s{me}");
    // what happened in earlier lives of this worker: <script> <cfg> <why>
    let mut skips: HashMap<usize, HashMap<usize, String>> = HashMap::new();
    let mut from = 0;
    if let Ok(t) = std::fs::read_to_string(&skip_file) {
        for l in t.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            let (i, k): (usize, usize) = (p[0].parse().unwrap(), p[1].parse().unwrap());
            skips.entry(i).or_default().insert(k, p[2].to_string());
            from = i;
        }
    }
    let all = lines(scripts);
    let f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{base}.o{me}")).unwrap();
    let mut out = BufWriter::new(f);
    let none = HashMap::new();
    for (i, l) in all.iter().enumerate() {
        if i % n != me || i < from {
            continue;
        }
        let script: Value = serde_json::from_str(l).unwrap();
        // the recursion of guest and host functions is bounded by the engine, not by this stack
        let cs = std::thread::scope(|s| {
            let (script, skips, none) = (&script, &skips, &none);
            let b = std::thread::Builder::new().stack_size(256 << 20);
            let prog = prog.clone();
            b.spawn_scoped(s, move || {
                let mut note = |k: usize| std::fs::write(&prog, format!("{i} {k}")).unwrap();
                cases(script, &format!("{prog}.x"), &mut note, skips.get(&i).unwrap_or(none))
            })
            .unwrap()
            .join()
        });
        match cs {
            Ok(cs) => {
                for c in cs {
                    writeln!(out, "{c}").unwrap();
                }
                out.flush().unwrap();
                if std::env::var("HARNESS_LAST").is_ok() {
                    break;
                }
            }
            Err(_) => {
                eprintln!("script {}: harness fault: {}", script["id"], last_panic());
                std::process::exit(3)
            }
        }
    }
    std::fs::write(&prog, "end").unwrap();
}

fn run(scripts: &str, out: &str, n: usize) {
    let exe = std::env::current_exe().unwrap();
    let base = format!("{out}.w");
    let start = |me: usize, last: bool| -> Child {
        let mut c = Command::new(&exe);
        c.args(["work", scripts, &base, &me.to_string(), &n.to_string()]);
        if last {
            c.env("HARNESS_LAST", "1");
        }
        c.spawn().unwrap()
    };
    for me in 0..n {
        for x in ["p", "s", "o"] {
            let _ = std::fs::remove_file(format!("{base}.{x}{me}"));
        }
    }
    let mut ws: Vec<Option<(Child, String, Instant)>> =
        (0..n).map(|me| Some((start(me, false), String::new(), Instant::now()))).collect();
    let mut faults = vec![0; n];
    while ws.iter().any(|w| w.is_some()) {
        std::thread::sleep(Duration::from_millis(50));
        for me in 0..n {
            let Some((child, last, since)) = &mut ws[me] else { continue };
            let now = std::fs::read_to_string(format!("{base}.p{me}")).unwrap_or_default();
            if now != *last && !now.is_empty() {
                *last = now;
                *since = Instant::now();
            }
            let mut why = None;
            if let Some(st) = child.try_wait().unwrap() {
                let now = std::fs::read_to_string(format!("{base}.p{me}")).unwrap_or_default();
                if st.success() || now == "end" {
                    ws[me] = None;
                    continue;
                }
                if st.code() == Some(3) {
                    std::process::exit(3);
                }
                *last = now;
                why = Some("crash");
            } else if since.elapsed() > Duration::from_secs(20) {
                child.kill().unwrap();
                let _ = child.wait();
                why = Some("hang");
            }
            if let Some(why) = why {
                faults[me] += if why == "hang" { 8 } else { 1 };
                if last.is_empty() || faults[me] > 100 {
                    eprintln!("too many faults");
                    std::process::exit(3);
                }
                let mut f =
                    std::fs::OpenOptions::new().create(true).append(true).open(format!("{base}.s{me}")).unwrap();
                writeln!(f, "{last} {why}").unwrap();
                ws[me] = Some((start(me, faults[me] >= 24), last.clone(), Instant::now()));
            }
        }
    }
    let mut f = BufWriter::new(std::fs::File::create(out).unwrap());
    for me in 0..n {
        for l in lines(&format!("{base}.o{me}")) {
            writeln!(f, "{l}").unwrap();
        }
        for x in ["p", "s", "o"] {
            let _ = std::fs::remove_file(format!("{base}.{x}{me}"));
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2], &a[3], a.get(4).map_or(8, |x| x.parse().unwrap())),
        Some("work") => work(&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap()),
        Some("dump") => println!("{}", ast::dump(&wat::parse_file(&a[2]).unwrap()).unwrap()),
        _ => panic!("usage: harness run SCRIPTS OUT | dump FILE"),
    }
}
