//! Runs one script against tinywasm and records what happened as specification events.
use crate::typed;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;
use tinywasm::engine::{Config, FuelPolicy};
use tinywasm::parser::{Parser, ParserOptions};
use tinywasm::types::{
    ExportType, ExternRef, FuncRef, FuncType, GlobalType, ImportType, MemoryArch, MemoryType, TableType, WasmType,
    WasmValue,
};
use tinywasm::*;

// ---------------------------------------------------------------- values

pub fn tyname(t: WasmType) -> &'static str {
    match t {
        WasmType::I32 => "i32",
        WasmType::I64 => "i64",
        WasmType::F32 => "f32",
        WasmType::F64 => "f64",
        WasmType::V128 => "v128",
        WasmType::RefFunc => "funcref",
        WasmType::RefExtern => "externref",
    }
}
pub fn tyof(s: &str) -> WasmType {
    match s {
        "i32" => WasmType::I32,
        "i64" => WasmType::I64,
        "f32" => WasmType::F32,
        "f64" => WasmType::F64,
        "v128" => WasmType::V128,
        "funcref" => WasmType::RefFunc,
        _ => WasmType::RefExtern,
    }
}
fn rraw(a: Option<u32>) -> i64 {
    a.map_or(-1, |x| x as i64)
}
pub fn enc(v: &WasmValue) -> Value {
    let (t, b) = match v {
        WasmValue::I32(x) => ("i32", json!(x.to_le_bytes())),
        WasmValue::I64(x) => ("i64", json!(x.to_le_bytes())),
        WasmValue::F32(x) => ("f32", json!(x.to_bits().to_le_bytes())),
        WasmValue::F64(x) => ("f64", json!(x.to_bits().to_le_bytes())),
        WasmValue::V128(x) => ("v128", json!(x.to_vec())),
        WasmValue::RefFunc(x) => ("funcref", json!([rraw(x.addr())])),
        WasmValue::RefExtern(x) => ("externref", json!([rraw(x.addr())])),
    };
    json!({"t": t, "v": b})
}
fn encs(v: &[WasmValue]) -> Value {
    Value::Array(v.iter().map(enc).collect())
}
fn arr<const N: usize>(v: &Value) -> [u8; N] {
    let a = v.as_array().unwrap();
    std::array::from_fn(|i| a[i].as_u64().unwrap() as u8)
}
fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect())
}
fn dec(v: &Value, vars: &HashMap<String, WasmValue>, args: &[WasmValue]) -> Option<WasmValue> {
    if let Some(n) = v.get("var") {
        return vars.get(n.as_str().unwrap()).copied();
    }
    if let Some(i) = v.get("arg") {
        return args.get(i.as_u64().unwrap() as usize).copied();
    }
    let b = &v["v"];
    let r = |b: &Value| {
        let x = b[0].as_i64().unwrap();
        if x < 0 { None } else { Some(x as u32) }
    };
    Some(match v["t"].as_str()? {
        "i32" => WasmValue::I32(i32::from_le_bytes(arr(b))),
        "i64" => WasmValue::I64(i64::from_le_bytes(arr(b))),
        "f32" => WasmValue::F32(f32::from_bits(u32::from_le_bytes(arr(b)))),
        "f64" => WasmValue::F64(f64::from_bits(u64::from_le_bytes(arr(b)))),
        "v128" => WasmValue::V128(arr(b)),
        "funcref" => WasmValue::RefFunc(FuncRef::new(r(b))),
        _ => WasmValue::RefExtern(ExternRef::new(r(b))),
    })
}
fn b8(x: u64) -> Value {
    json!(x.to_le_bytes())
}

// ---------------------------------------------------------------- types

fn ftype(v: &Value) -> FuncType {
    let l = |v: &Value| v.as_array().unwrap().iter().map(|t| tyof(t.as_str().unwrap())).collect::<Vec<_>>();
    FuncType::new(&l(&v["p"]), &l(&v["r"]))
}
fn ftype_ev(t: &FuncType) -> Value {
    let l = |v: &[WasmType]| v.iter().map(|t| tyname(*t)).collect::<Vec<_>>();
    json!({"p": l(t.params()), "r": l(t.results())})
}
fn arch(v: &Value) -> MemoryArch {
    if v["it"] == "i64" { MemoryArch::I64 } else { MemoryArch::I32 }
}
fn archname(a: MemoryArch) -> &'static str {
    if a == MemoryArch::I64 { "i64" } else { "i32" }
}
fn mtype(v: &Value) -> MemoryType {
    let ps = v["ps"].as_u64().unwrap_or(16);
    MemoryType::new(
        arch(v),
        v["min"].as_u64().unwrap(),
        v["max"].as_u64(),
        if ps == 16 && v.get("psd").is_none() { None } else { Some(1 << ps) },
    )
}
fn mtype_ev(t: &MemoryType) -> Value {
    // whether a maximum was declared is only visible through equality
    let none = |ps| *t == MemoryType::new(t.arch(), t.page_count_initial(), None, ps);
    let max = if none(None) || none(Some(t.page_size())) { json!([]) } else { b8(t.page_count_max()) };
    json!({"it": archname(t.arch()), "ps": t.page_size().trailing_zeros(), "min": b8(t.page_count_initial()), "max": max})
}
fn ttype(v: &Value) -> TableType {
    let et = tyof(v["et"].as_str().unwrap());
    let (a, b) = (v["min"].as_u64().unwrap(), v["max"].as_u64());
    if v["it"] == "i64" { TableType::new64(et, a, b) } else { TableType::new(et, a, b) }
}
fn ttype_ev(t: &TableType) -> Value {
    json!({"it": archname(t.arch()), "min": b8(t.size_initial), "max": t.size_max.map_or(json!([]), b8),
           "et": tyname(t.element_type)})
}
fn gtype_ev(t: &GlobalType) -> Value {
    json!({"ty": tyname(t.ty), "mu": t.mutable})
}

// ---------------------------------------------------------------- errors

fn tkind(t: &Trap) -> String {
    match t {
        Trap::Unreachable => "unreachable",
        Trap::MemoryOutOfBounds { .. } => "mem_oob",
        Trap::TableOutOfBounds { .. } => "table_oob",
        Trap::DivisionByZero => "div_zero",
        Trap::InvalidConversionToInt => "bad_conversion",
        Trap::IntegerOverflow => "int_overflow",
        Trap::CallStackOverflow => "call_stack",
        Trap::ValueStackOverflow => "value_stack",
        Trap::OutOfMemory => "oom",
        Trap::UndefinedElement { .. } => "undef_elem",
        Trap::UninitializedElement { .. } => "uninit_elem",
        Trap::IndirectCallTypeMismatch { .. } => "sig_mismatch",
        Trap::InvalidStore => "rej",
        Trap::HostFunction(b) => match b.downcast_ref::<Error>() {
            Some(e) => return ekind(e),
            None => return format!("host? {b}"),
        },
        t => return format!("other trap: {}", t.message()),
    }
    .into()
}
pub fn ekind(e: &Error) -> String {
    match e {
        Error::Trap(Trap::Other(_)) => "rej".into(),
        Error::Trap(t) => tkind(t),
        Error::Linker(LinkingError::UnknownImport { module, name }) => format!("unknown:{module}.{name}"),
        Error::Linker(LinkingError::IncompatibleImportType { module, name }) => format!("incompat:{module}.{name}"),
        Error::Other(s) if s.starts_with("host:") => s.clone(),
        Error::InvalidHostFnReturn { .. } => "badret".into(),
        _ => "rej".into(),
    }
}

// ---------------------------------------------------------------- configuration

#[derive(Clone)]
pub struct Cfg {
    pub name: String,
    kv: HashMap<String, String>,
}
impl Cfg {
    pub fn parse(s: &str) -> Self {
        let kv = s
            .split(';')
            .filter(|p| !p.is_empty())
            .map(|p| {
                let (a, b) = p.split_once('=').unwrap_or((p, "1"));
                (a.to_string(), b.to_string())
            })
            .collect();
        Cfg { name: s.to_string(), kv }
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.kv.get(k).map(|s| s.as_str())
    }
    /// the configured bound on the call depth as the specification wants it (0: the default)
    pub fn call_limit(&self) -> u64 {
        self.get("call").map_or(0, |s| s.rsplit(':').next().unwrap().parse().unwrap())
    }
    /// bytes each memory may reach before its backend fails to allocate (0: no such limit)
    pub fn cap(&self) -> u64 {
        self.get("mem").and_then(|s| s.split("capped:").nth(1)).map_or(0, |s| s.parse().unwrap())
    }
    pub fn options(&self) -> ParserOptions {
        let mut o = ParserOptions::default();
        if let Some(x) = self.get("val") {
            o = o.with_validation(x == "1");
        }
        if let Some(x) = self.get("alloc") {
            o = o.with_local_memory_allocation_optimization(x == "1");
        }
        if let Some(x) = self.get("rw") {
            o = o.with_rewrite_optimization(x == "1");
        }
        if let Some(x) = self.get("th") {
            #[cfg(feature = "full")]
            (o = o.with_parser_threads(x.parse().unwrap()));
            let _ = x;
        }
        o
    }
    pub fn module(&self, wasm: &[u8], scratch: &str) -> Result<Module> {
        let p = Parser::with_options(self.options());
        let laid;
        let wasm = match self.get("lay") {
            Some(l) => {
                laid = crate::layout::relayout(wasm, l).unwrap();
                &laid
            }
            None => wasm,
        };
        #[cfg(not(feature = "full"))]
        let m = (p.parse_module_bytes(wasm), scratch, &Trickle { b: wasm, n: 0, k: 0 }).0.map_err(Error::from)?;
        #[cfg(feature = "full")]
        let m = match self.get("form") {
            Some("file") => {
                let path = format!("{scratch}.wasm");
                std::fs::write(&path, wasm).unwrap();
                let r = p.parse_module_file(&path);
                let _ = std::fs::remove_file(&path);
                r
            }
            Some("stream") => p.parse_module_stream(Trickle { b: wasm, n: 0, k: 0 }),
            Some(s) if s.starts_with("stream") => {
                p.parse_module_stream(Trickle { b: wasm, n: 0, k: s[6..].parse().unwrap() })
            }
            _ => p.parse_module_bytes(wasm),
        }
        .map_err(Error::from)?;
        if self.get("arch") == Some("1") {
            let b = m.serialize_twasm()?;
            let m2 = Module::try_from_twasm(&b)?;
            // (not ==: modules with NaN constants differ from themselves)
            if m2.serialize_twasm()? != b || (m == m && m2 != m) {
                return Err(Error::Other("archive differs".into()));
            }
            return Ok(m2);
        }
        Ok(m)
    }
    /// The value stack limits, where they are to be modelled.
    pub fn value_limits(&self) -> Vec<u64> {
        if self.get("vm").is_none() {
            return vec![];
        }
        let max = |s: &str| s.rsplit(':').next().unwrap().parse::<u64>().unwrap();
        [("v32", 36 * 1024), ("v64", 32 * 1024), ("v128", 4 * 1024)]
            .iter()
            .map(|(k, d)| self.get(k).or(self.get("vs")).map_or(*d, max))
            .collect()
    }
    pub fn engine(&self) -> Engine {
        let mut c = Config::new();
        let st = |s: &str| {
            let p: Vec<&str> = s.split(':').collect();
            if p[0] == "fixed" {
                StackConfig::fixed(p[1].parse().unwrap())
            } else {
                StackConfig::dynamic(p[1].parse().unwrap(), p[2].parse().unwrap())
            }
        };
        if let Some(s) = self.get("vs") {
            c = c.with_value_stack(st(s));
        }
        if let Some(s) = self.get("v32") {
            c = c.with_value_stack_32(st(s));
        }
        if let Some(s) = self.get("v64") {
            c = c.with_value_stack_64(st(s));
        }
        if let Some(s) = self.get("v128") {
            c = c.with_value_stack_128(st(s));
        }
        if let Some(s) = self.get("call") {
            c = c.with_call_stack(st(s));
        }
        if self.get("fp") == Some("w") {
            c = c.with_fuel_policy(FuelPolicy::Weighted);
        }
        if let Some(s) = self.get("oom") {
            c = c.with_trap_on_oom(s == "1");
        }
        if let Some(s) = self.get("mem") {
            c = c.with_memory_backend(backend(s));
        }
        Engine::new(c)
    }
}

/// A reader that delivers k bytes at a time (k = 0: uneven pieces).
struct Trickle<'a> {
    b: &'a [u8],
    n: usize,
    k: usize,
}
impl Read for Trickle<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.n += 1;
        // (now and then many at once: a large module would otherwise take too long)
        let k = if self.k > 0 && self.n % 48 == 0 { 3000 } else if self.k > 0 { self.k } else { [1, 7, 64, 3, 1000][self.n % 5] };
        let k = k.min(buf.len()).min(self.b.len());
        buf[..k].copy_from_slice(&self.b[..k]);
        self.b = &self.b[k..];
        Ok(k)
    }
}

pub fn backend(s: &str) -> MemoryBackend {
    let p: Vec<&str> = s.split(':').collect();
    match p[0] {
        "vec" => MemoryBackend::vec(),
        "paged" => MemoryBackend::paged(p[1].parse().unwrap()),
        "custom" => MemoryBackend::custom(|ty: MemoryType| Piecewise::new(ty.initial_size() as usize, usize::MAX)),
        "capped" => {
            let cap: usize = p[1].parse().unwrap();
            MemoryBackend::custom(move |ty: MemoryType| Piecewise::new(ty.initial_size() as usize, cap))
        }
        "lazy" => {
            let inner = backend(&p[1..].join(":"));
            MemoryBackend::custom(move |ty: MemoryType| LazyLinearMemory::try_new(ty, inner.clone()))
        }
        _ => panic!("backend {s}"),
    }
}

/// A minimal custom memory: only the required methods, moving a few bytes per call.
pub struct Piecewise {
    b: Vec<u8>,
    cap: usize,
}
impl Piecewise {
    fn new(n: usize, cap: usize) -> tinywasm::Result<Self> {
        let mut b = Vec::new();
        b.try_reserve_exact(n).map_err(|_| Trap::OutOfMemory)?;
        b.resize(n, 0);
        Ok(Piecewise { b, cap })
    }
}
impl LinearMemory for Piecewise {
    fn len(&self) -> usize {
        self.b.len()
    }
    fn grow_to(&mut self, n: usize) -> core::result::Result<(), Trap> {
        if n > self.cap {
            return Err(Trap::OutOfMemory);
        }
        self.b.try_reserve_exact(n - self.b.len()).map_err(|_| Trap::OutOfMemory)?;
        self.b.resize(n, 0);
        Ok(())
    }
    fn read(&self, a: usize, dst: &mut [u8]) -> usize {
        if a >= self.b.len() {
            return 0;
        }
        let n = dst.len().min(self.b.len() - a).min(5 + a % 4);
        dst[..n].copy_from_slice(&self.b[a..a + n]);
        n
    }
    fn write(&mut self, a: usize, src: &[u8]) -> usize {
        if a >= self.b.len() {
            return 0;
        }
        let n = src.len().min(self.b.len() - a).min(3 + a % 6);
        self.b[a..a + n].copy_from_slice(&src[..n]);
        n
    }
}

// ---------------------------------------------------------------- the world

#[derive(Clone)]
pub enum Obj {
    F(Function, FuncType),
    T(Table),
    M(Memory),
    G(Global),
}

pub struct Inner {
    pub log: Vec<Value>,
    mods: Vec<Module>,
    wasm: Vec<Vec<u8>>,
    wat: Vec<Option<String>>,
    cfg: Cfg,
    scratch: String,
    objs: Vec<(Obj, usize)>,
    ol: HashMap<String, usize>,
    insts: Vec<(ModuleInstance, usize)>,
    il: HashMap<String, usize>,
    vars: HashMap<String, WasmValue>,
    cs: usize,
    last: Option<Error>,
    lastv: Vec<WasmValue>,
    events: usize,
    /// the operations of the script so far, with the place of their first event
    ops: Vec<Value>,
    marks: Vec<usize>,
}
pub type W = Rc<RefCell<Inner>>;

pub enum Env<'a, 'b> {
    Top(&'a mut Store),
    Host(&'a mut FuncContext<'b>),
}
impl Env<'_, '_> {
    fn store(&mut self) -> &mut Store {
        match self {
            Env::Top(s) => s,
            Env::Host(c) => c.store_mut(),
        }
    }
    fn is_host(&self) -> bool {
        matches!(self, Env::Host(_))
    }
}

pub const EVENT_CAP: usize = 4000;
fn ev(w: &W, v: Value) {
    let mut i = w.borrow_mut();
    i.events += 1;
    if i.events == EVENT_CAP {
        i.log.push(json!({"op": "toolong"}));
        drop(i);
        panic!("event cap");
    }
    i.log.push(v);
}
fn add_obj(w: &W, label: Option<&str>, o: Obj) -> usize {
    let mut i = w.borrow_mut();
    let cs = i.cs;
    i.objs.push((o, cs));
    let n = i.objs.len();
    if let Some(l) = label {
        i.ol.insert(l.to_string(), n);
    }
    n
}
fn obj(w: &W, op: &Value, key: &str) -> Option<(usize, Obj)> {
    let i = w.borrow();
    let n = *i.ol.get(op[key].as_str()?)?;
    Some((n, i.objs[n - 1].0.clone()))
}
fn inst(w: &W, op: &Value) -> Option<(usize, ModuleInstance)> {
    let i = w.borrow();
    let n = *i.il.get(op["i"].as_str()?)?;
    Some((n, i.insts[n - 1].0.clone()))
}
fn args_of(w: &W, v: &Value, host_args: &[WasmValue]) -> Option<Vec<WasmValue>> {
    let i = w.borrow();
    v.as_array().map_or(Some(vec![]), |a| a.iter().map(|x| dec(x, &i.vars, host_args)).collect())
}
fn one(w: &W, v: &Value, host_args: &[WasmValue]) -> Option<WasmValue> {
    dec(v, &w.borrow().vars, host_args)
}
fn label(op: &Value) -> Option<&str> {
    op.get("as").and_then(|x| x.as_str())
}
fn set_vars(w: &W, op: &Value, vals: &[WasmValue]) {
    let mut i = w.borrow_mut();
    i.lastv = vals.to_vec();
    if let Some(l) = label(op) {
        for (k, v) in vals.iter().enumerate() {
            i.vars.insert(if k == 0 { l.to_string() } else { format!("{l}.{k}") }, *v);
        }
    }
}
fn fail(w: &W, e: Error, op: &str) {
    let k = ekind(&e);
    ev(w, json!({"op": op, "kind": k}));
    w.borrow_mut().last = Some(e);
}
/// usize-like script operand: a number or 8 bytes
fn us(v: &Value) -> usize {
    match v {
        Value::Array(_) => u64::from_le_bytes(arr(v)) as usize,
        _ => v.as_u64().unwrap_or(0) as usize,
    }
}
fn clip(x: usize) -> usize {
    x.min(500_000_000)
}

/// The function given to `hnew`: plays its script.
pub fn host_body(w: &W, me: usize, beh: &Value, count: &RefCell<usize>, ctx: &mut FuncContext<'_>, args: &[WasmValue])
-> Result<Vec<WasmValue>> {
    let k = {
        let mut c = count.borrow_mut();
        *c += 1;
        *c - 1
    };
    let b = beh.as_array().unwrap();
    let b = &b[k.min(b.len() - 1)];
    let id = if b["noin"] == true { -1 } else { ctx.module().id() as i64 };
    ev(w, json!({"op": "hc", "o": me, "args": encs(args), "in": id}));
    w.borrow_mut().last = None;
    if let Some(ops) = b["ops"].as_array() {
        for op in ops {
            run_op(w, &mut Env::Host(ctx), op, args);
        }
    }
    if b["prop"] == true {
        let last = w.borrow_mut().last.take();
        if let Some(e) = last {
            let k = ekind(&e);
            w.borrow_mut().log.push(json!({"op": "he", "kind": k}));
            return Err(e);
        }
    }
    if let Some(e) = b["err"].as_str() {
        let k = format!("host:{e}");
        ev(w, json!({"op": "he", "kind": k}));
        return Err(Error::Other(k));
    }
    if let Some(t) = b["trap"].as_str() {
        ev(w, json!({"op": "he", "kind": t}));
        return Err(Error::Trap(match t {
            "unreachable" => Trap::Unreachable,
            "div_zero" => Trap::DivisionByZero,
            "oom" => Trap::OutOfMemory,
            _ => Trap::IntegerOverflow,
        }));
    }
    let vals = if b["ret"] == "last" {
        w.borrow().lastv.clone()
    } else {
        args_of(w, &b["ret"], args).unwrap_or_default()
    };
    ev(w, json!({"op": "hr", "vals": encs(&vals)}));
    Ok(vals)
}

fn exps(w: &W, env: &mut Env, n: usize, i: &ModuleInstance, module: Option<&Module>, lab: Option<&str>) {
    let mut l = vec![];
    let fts: HashMap<String, FuncType> = module.map_or(HashMap::new(), |m| {
        m.exports()
            .filter_map(|x| match x.ty {
                ExportType::Func(t) => Some((x.name.to_string(), t.clone())),
                _ => None,
            })
            .collect()
    });
    let items: Vec<(String, ExternItem)> = i.exports().map(|(n, x)| (n.to_string(), x)).collect();
    for (name, item) in items {
        let full = lab.map(|l| format!("{l}.{name}"));
        let (k, ty, o) = match item {
            ExternItem::Func(f) => {
                let t = fts.get(&name).cloned().unwrap_or(FuncType::new(&[], &[]));
                ("f", ftype_ev(&t), Obj::F(f, t))
            }
            ExternItem::Memory(m) => ("m", m.ty(env.store()).map_or(json!("?"), |t| mtype_ev(&t)), Obj::M(m)),
            ExternItem::Table(t) => ("t", t.ty(env.store()).map_or(json!("?"), |t| ttype_ev(&t)), Obj::T(t)),
            ExternItem::Global(g) => ("g", g.ty(env.store()).map_or(json!("?"), |t| gtype_ev(&t)), Obj::G(g)),
        };
        l.push(json!({"n": name, "k": k, "ty": ty}));
        add_obj(w, full.as_deref(), o);
    }
    ev(w, json!({"op": "exps", "i": n, "l": l}));
}

fn desc(m: &Module, n: u64) -> Value {
    let imps: Vec<Value> = m
        .imports()
        .map(|i| {
            let (k, ty) = match i.ty {
                ImportType::Func(t) => ("f", ftype_ev(t)),
                ImportType::Table(t) => ("t", ttype_ev(t)),
                ImportType::Memory(t) => ("m", mtype_ev(t)),
                ImportType::Global(t) => ("g", gtype_ev(t)),
            };
            json!({"m": i.module, "n": i.name, "k": k, "ty": ty})
        })
        .collect();
    let xs: Vec<Value> = m
        .exports()
        .map(|i| {
            let (k, ty) = match i.ty {
                ExportType::Func(t) => ("f", ftype_ev(t)),
                ExportType::Table(t) => ("t", ttype_ev(t)),
                ExportType::Memory(t) => ("m", mtype_ev(t)),
                ExportType::Global(t) => ("g", gtype_ev(t)),
            };
            json!({"n": i.name, "k": k, "ty": ty})
        })
        .collect();
    json!({"op": "desc", "mod": n, "imps": imps, "exps": xs, "start": m.start_func.is_some()})
}

/// Runs the exports of an accepted module, whatever they do, for a while.
fn exercise(m: &Module) {
    let cap = 4 << 20;
    let small = MemoryBackend::custom(move |ty: MemoryType| {
        if ty.initial_size() > cap as u64 { Err(Trap::OutOfMemory.into()) } else { Piecewise::new(ty.initial_size() as usize, cap) }
    });
    let mut s = Store::new(Engine::new(Config::new().with_memory_backend(small)));
    let mut im = Imports::new();
    for i in m.imports() {
        let v = WasmValue::default_for;
        match i.ty {
            ImportType::Func(t) => {
                let rs: Vec<WasmValue> = t.results().iter().map(|t| v(*t)).collect();
                let h = HostFunction::from_untyped(&mut s, t, move |_, _| Ok(rs.clone()));
                im.define(i.module, i.name, h);
            }
            ImportType::Memory(t) => {
                let Ok(x) = Memory::new(&mut s, *t) else { return };
                im.define(i.module, i.name, x);
            }
            ImportType::Table(t) => {
                let Ok(x) = Table::new(&mut s, *t, WasmValue::default_for(WasmType::from(t.element_type))) else { return };
                im.define(i.module, i.name, x);
            }
            ImportType::Global(t) => {
                let Ok(x) = Global::new(&mut s, *t, v(t.ty)) else { return };
                im.define(i.module, i.name, x);
            }
        }
    }
    let Ok(inst) = ModuleInstance::instantiate_no_start(&mut s, m, Some(im)) else { return };
    let fts: HashMap<&str, &FuncType> = m.exports().filter_map(|x| if let ExportType::Func(t) = x.ty { Some((x.name, t)) } else { None }).collect();
    let xs: Vec<(String, Function)> = inst.exports().filter_map(|(n, x)| if let ExternItem::Func(f) = x { Some((n.to_string(), f)) } else { None }).collect();
    let start = inst.start_func(&s).ok().flatten().map(|f| (String::new(), f));
    for (n, f) in start.into_iter().chain(xs).take(12) {
        let args: Vec<WasmValue> = fts.get(&n[..]).map_or(vec![], |t| t.params().iter().map(|t| WasmValue::default_for(*t)).collect());
        let Ok(mut x) = f.call_resumable(&mut s, &args) else { continue };
        let _ = x.resume_with_fuel(5000);
    }
}

/// What the host can see of every memory, table and global of the current store.
fn obs(w: &W, env: &mut Env) {
    let cs = w.borrow().cs;
    let objs: Vec<(usize, Obj)> = {
        let i = w.borrow();
        let mut v: Vec<(usize, Obj)> = vec![];
        for (n, (o, s)) in i.objs.iter().enumerate() {
            if *s != cs {
                continue;
            }
            let dup = v.iter().any(|(_, p)| match (o, p) {
                (Obj::M(a), Obj::M(b)) => a == b,
                (Obj::T(a), Obj::T(b)) => a == b,
                (Obj::G(a), Obj::G(b)) => a == b,
                _ => false,
            });
            if !dup && !matches!(o, Obj::F(..)) {
                v.push((n + 1, o.clone()));
            }
        }
        v
    };
    let st = env.store();
    let mut l = vec![];
    for (n, o) in objs {
        match o {
            Obj::M(m) => {
                let Ok(pg) = m.page_count(st) else { continue };
                let len = m.len(st).unwrap();
                let mut ch = vec![];
                let mut buf = vec![0u8; 4096];
                let mut at = 0;
                // only the first 64 MB: no script writes beyond
                while at < len.min(64 << 20) {
                    let k = buf.len().min(len - at);
                    if m.read_exact(st, at, &mut buf[..k]).is_err() {
                        ch.push(json!([at / 32, [256]]));
                        break;
                    }
                    for (j, c) in buf[..k].chunks(32).enumerate() {
                        if c.iter().any(|x| *x != 0) {
                            ch.push(json!([at / 32 + j, c]));
                        }
                    }
                    at += k;
                }
                l.push(json!({"o": n, "k": "m", "pg": pg, "ch": ch}));
            }
            Obj::T(t) => {
                let Ok(k) = t.size(st) else { continue };
                let el: Vec<Value> = t.load(st, 0, k).unwrap().map(|v| enc(&v)).collect();
                l.push(json!({"o": n, "k": "t", "el": el}));
            }
            Obj::G(g) => {
                let Ok(v) = g.get(st) else { continue };
                l.push(json!({"o": n, "k": "g", "v": enc(&v)}));
            }
            Obj::F(..) => {}
        }
    }
    ev(w, json!({"op": "obs", "l": l}));
}

pub fn run_op(w: &W, env: &mut Env, op: &Value, ha: &[WasmValue]) {
    let _ = run_op_(w, env, op, ha);
}

fn run_op_(w: &W, env: &mut Env, op: &Value, ha: &[WasmValue]) -> Option<()> {
    let name = op["op"].as_str().unwrap();
    match name {
        "inst" => {
            let n = op["mod"].as_u64().unwrap();
            let module = w.borrow().mods.get(n as usize - 1)?.clone();
            let (mut defs, mut links) = (vec![], vec![]);
            let mut im = Imports::new();
            let mut second = Imports::new();
            for d in op["defs"].as_array().unwrap_or(&vec![]) {
                let o = *w.borrow().ol.get(d[2].as_str()?)?;
                let x = w.borrow().objs[o - 1].0.clone();
                let (m, nm) = (d[0].as_str()?, d[1].as_str()?);
                // a fourth element: provided through a merged import set
                let im = if d.get(3).is_some() { &mut second } else { &mut im };
                match x {
                    Obj::F(f, _) => im.define(m, nm, f),
                    Obj::T(t) => im.define(m, nm, t),
                    Obj::M(t) => im.define(m, nm, t),
                    Obj::G(t) => im.define(m, nm, t),
                };
                defs.push((d.get(3).is_some(), json!({"m": m, "n": nm, "o": o})));
            }
            for l in op["links"].as_array().unwrap_or(&vec![]) {
                let i = *w.borrow().il.get(l[1].as_str()?)?;
                let x = w.borrow().insts[i - 1].0.clone();
                let im = if l.get(2).is_some() { &mut second } else { &mut im };
                im.link_module(l[0].as_str()?, x).unwrap();
                links.push((l.get(2).is_some(), json!({"m": l[0], "i": i})));
            }
            // merged sets take precedence
            let ord = |v: Vec<(bool, Value)>| {
                let (a, b): (Vec<_>, Vec<_>) = v.into_iter().partition(|x| !x.0);
                a.into_iter().chain(b).map(|x| x.1).collect::<Vec<_>>()
            };
            let (defs, links) = (ord(defs), ord(links));
            let im = im.merge(second);
            let ns = op["ns"] == true;
            let im = if defs.is_empty() && links.is_empty() && op["noimp"] == true { None } else { Some(im) };
            ev(w, json!({"op": "inst", "mod": n, "defs": defs, "links": links, "ns": ns}));
            let r = if ns {
                ModuleInstance::instantiate_no_start(env.store(), &module, im)
            } else {
                ModuleInstance::instantiate(env.store(), &module, im)
            };
            match r {
                Ok(i) => {
                    ev(w, json!({"op": "instok", "id": i.id()}));
                    let k = {
                        let mut x = w.borrow_mut();
                        let cs = x.cs;
                        x.insts.push((i.clone(), cs));
                        let k = x.insts.len();
                        if let Some(l) = label(op) {
                            x.il.insert(l.to_string(), k);
                        }
                        k
                    };
                    exps(w, env, k, &i, Some(&module), label(op));
                }
                Err(e) => fail(w, e, "insterr"),
            }
        }
        "exps" => {
            let (n, i) = inst(w, op)?;
            let module = w.borrow().mods.get(op["mod"].as_u64()? as usize - 1)?.clone();
            exps(w, env, n, &i, Some(&module), label(op));
        }
        "call" => {
            let (n, o) = obj(w, op, "f")?;
            let Obj::F(f, ft) = o else { return None };
            let args = args_of(w, &op["args"], ha)?;
            let direct = op.get("d").map_or(!env.is_host(), |d| d == true);
            let same = w.borrow().objs[n - 1].1 == w.borrow().cs;
            let typed = op["typed"] == true && same;
            ev(w, json!({"op": "call", "o": n, "args": encs(&args), "d": direct}));
            let r = match env {
                _ if typed && typed::has(&ft) && typed::fits(&ft, &args) => typed::call(&f, &ft, env, direct, &args),
                Env::Top(s) if direct => f.call(s, &args),
                Env::Top(s) => {
                    let mut c = FuncContext::new(s, 0);
                    c.call_untyped(&f, &args)
                }
                Env::Host(c) if direct => f.call(c.store_mut(), &args),
                Env::Host(c) => c.call_untyped(&f, &args),
            };
            match r {
                Ok(v) => {
                    ev(w, json!({"op": "ret", "vals": encs(&v)}));
                    set_vars(w, op, &v);
                }
                Err(e) => fail(w, e, "err"),
            }
        }
        "rcall" => {
            let (n, o) = obj(w, op, "f")?;
            let Obj::F(f, ft) = o else { return None };
            let args = args_of(w, &op["args"], ha)?;
            let direct = true;
            ev(w, json!({"op": "rnew", "o": n, "args": encs(&args), "d": direct}));
            let typed = op["typed"] == true && typed::has(&ft) && typed::fits(&ft, &args);
            let r = typed::resumable(typed, &f, &ft, env.store(), &args);
            let mut x = match r {
                Err(e) => {
                    fail(w, e, "rnewerr");
                    return Some(());
                }
                Ok(x) => x,
            };
            ev(w, json!({"op": "rnewok"}));
            let sched = op["sched"].as_array().cloned().unwrap_or_default();
            let rest = op.get("rest").cloned().unwrap_or(json!({"k": "f", "b": 100000}));
            let drop_at = op["drop"].as_u64().unwrap_or(u64::MAX);
            let (mut i, mut sus, mut done) = (0, 0, false);
            while sus < drop_at && i < 2500 {
                let s = sched.get(i).unwrap_or(&rest).clone();
                i += 1;
                // (the clock is the standard library's)
                let (k, b) = (if cfg!(feature = "full") { s["k"].as_str()? } else { "f" }, s["b"].as_u64()?);
                ev(w, json!({"op": "res", "k": k, "b": b.min(500_000_000)}));
                let r = if k == "f" {
                    x.resume_with_fuel(b as u32)
                } else {
                    x.resume_with_time_budget(std::time::Duration::from_nanos(b))
                };
                match r {
                    Ok(ExecProgress::Suspended) => {
                        ev(w, json!({"op": "susp"}));
                        sus += 1;
                    }
                    Ok(ExecProgress::Completed(v)) => {
                        ev(w, json!({"op": "ret", "vals": encs(&v)}));
                        set_vars(w, op, &v);
                        done = true;
                    }
                    Err(e) => {
                        fail(w, e, "err");
                        done = true;
                    }
                }
                if done {
                    break;
                }
            }
            if done {
                for _ in 0..op["after"].as_u64().unwrap_or(0) {
                    ev(w, json!({"op": "res", "k": "f", "b": 100}));
                    match x.resume_with_fuel(100) {
                        Ok(ExecProgress::Suspended) => ev(w, json!({"op": "susp"})),
                        Ok(ExecProgress::Completed(v)) => ev(w, json!({"op": "ret", "vals": encs(&v)})),
                        Err(Error::Other(_)) => ev(w, json!({"op": "rrej"})),
                        Err(e) => fail(w, e, "err"),
                    }
                }
            }
            drop(x);
            ev(w, json!({"op": "rdrop", "nd": !done && sus > 0}));
        }
        "start" => {
            let (n, i) = inst(w, op)?;
            ev(w, json!({"op": "start", "i": n}));
            match i.start(env.store()) {
                Ok(Some(())) => ev(w, json!({"op": "ret", "vals": []})),
                Ok(None) => ev(w, json!({"op": "none"})),
                Err(e) => fail(w, e, "err"),
            }
        }
        "hnew" => {
            let ft = ftype(&op["ty"]);
            let n = w.borrow().objs.len() + 1;
            let f = typed::host(w, env.store(), n, &ft, op);
            add_obj(w, label(op), Obj::F(f, ft.clone()));
            ev(w, json!({"op": "hnew", "ty": ftype_ev(&ft)}));
        }
        "mnew" => {
            let ty = mtype(&op["ty"]);
            let tev = mtype_ev(&ty);
            let r = Memory::new(env.store(), ty);
            ev(w, json!({"op": "mnew", "ty": tev, "ok": r.is_ok()}));
            add_obj(w, label(op), Obj::M(r.ok()?));
        }
        "tnew" => {
            let ty = ttype(&op["ty"]);
            let v = one(w, &op["v"], ha)?;
            let r = Table::new(env.store(), ty, v);
            ev(w, json!({"op": "tnew", "ty": ttype_ev(&ty), "v": enc(&v), "ok": r.is_ok()}));
            add_obj(w, label(op), Obj::T(r.ok()?));
        }
        "gnew" => {
            let ty = GlobalType::new(tyof(op["ty"].as_str()?), op["mu"] == true);
            let v = one(w, &op["v"], ha)?;
            let r = Global::new(env.store(), ty, v);
            ev(w, json!({"op": "gnew", "ty": op["ty"], "mu": ty.mutable, "v": enc(&v), "ok": r.is_ok()}));
            add_obj(w, label(op), Obj::G(r.ok()?));
        }
        "get" => {
            let (n, i) = inst(w, op)?;
            let nm = op["n"].as_str()?;
            let k = op["k"].as_str()?;
            let ty = if op["ty"].is_object() { ftype(&op["ty"]) } else { FuncType::new(&[], &[]) };
            let typed = op["typed"] == true && typed::has(&ty);
            let viactx = op["ctx"] == true;
            let r: Option<Obj> = match (k, &mut *env) {
                ("f", e) if typed => typed::lookup(&i, e.store(), nm, &ty).ok().map(|f| Obj::F(f, ty.clone())),
                ("f", e) => i.func_untyped(e.store(), nm).ok().map(|f| Obj::F(f, ty.clone())),
                ("m", Env::Host(c)) if viactx => c.memory(nm).ok().map(Obj::M),
                ("t", Env::Host(c)) if viactx => c.table(nm).ok().map(Obj::T),
                ("g", Env::Host(c)) if viactx => c.global(nm).ok().map(Obj::G),
                ("other", Env::Host(c)) if viactx => c.extern_item(nm).ok().map(|x| match x {
                    ExternItem::Func(f) => Obj::F(f, ty.clone()),
                    ExternItem::Memory(m) => Obj::M(m),
                    ExternItem::Table(m) => Obj::T(m),
                    ExternItem::Global(m) => Obj::G(m),
                }),
                ("m", _) => i.memory(nm).ok().map(Obj::M),
                ("t", _) => i.table(nm).ok().map(Obj::T),
                ("g", _) => i.global(nm).ok().map(Obj::G),
                _ => i.extern_item(nm).ok().map(|x| match x {
                    ExternItem::Func(f) => Obj::F(f, ty.clone()),
                    ExternItem::Memory(m) => Obj::M(m),
                    ExternItem::Table(m) => Obj::T(m),
                    ExternItem::Global(m) => Obj::G(m),
                }),
            };
            let k = if k == "other" { "" } else { k };
            ev(w, json!({"op": "get", "i": n, "n": nm, "k": k, "typed": typed, "ty": ftype_ev(&ty), "ok": r.is_some()}));
            let k = add_obj(w, label(op), r?);
            let s = w.borrow().insts[n - 1].1;
            w.borrow_mut().objs[k - 1].1 = s;
        }
        // private parts of an instance, by their index
        #[cfg(feature = "byindex")]
        "byidx" => {
            let (n, i) = inst(w, op)?;
            let x = op["x"].as_u64()? as u32;
            let k = op["k"].as_str()?;
            let ty = if op["ty"].is_object() { ftype(&op["ty"]) } else { FuncType::new(&[], &[]) };
            let typed = op["typed"] == true && typed::has(&ty);
            let r: Option<Obj> = match k {
                "f" if typed => typed::lookup_index(&i, env.store(), x, &ty).ok().map(|f| Obj::F(f, ty.clone())),
                "f" => i.func_by_index(env.store(), x).ok().map(|f| Obj::F(f, ty.clone())),
                "m" => i.memory_by_index(x).ok().map(Obj::M),
                "t" => i.table_by_index(x).ok().map(Obj::T),
                _ => i.global_by_index(x).ok().map(Obj::G),
            };
            // indices beyond what the specification counts with are out of bounds like any other large one
            ev(w, json!({"op": "byidx", "i": n, "x": x.min(1 << 28), "k": k, "typed": typed, "ty": ftype_ev(&ty), "ok": r.is_some()}));
            let k = add_obj(w, label(op), r?);
            let s = w.borrow().insts[n - 1].1;
            w.borrow_mut().objs[k - 1].1 = s;
        }
        // whether two handles denote the same object
        "eq" => {
            let ((a, x), (b, y)) = (obj(w, op, "o")?, obj(w, op, "p")?);
            let r = match (x, y) {
                (Obj::M(x), Obj::M(y)) => x == y,
                (Obj::T(x), Obj::T(y)) => x == y,
                (Obj::G(x), Obj::G(y)) => x == y,
                _ => return None,
            };
            ev(w, json!({"op": "eq", "o": a, "o2": b, "r": r}));
        }
        "gget" | "gset" => {
            let (n, i) = inst(w, op)?;
            let nm = op["n"].as_str()?;
            let v = if name == "gset" { Some(one(w, &op["v"], ha)?) } else { None };
            let h = i.global(nm).ok();
            let same = w.borrow().insts[n - 1].1 == w.borrow().cs;
            if !same {
                return None;
            }
            let viactx = op["ctx"] == true;
            let r = match (v, &mut *env) {
                (None, Env::Host(c)) if viactx => c.global_get(nm).map(Some),
                (Some(v), Env::Host(c)) if viactx => c.global_set(nm, v).map(|_| None),
                (None, e) => i.global_get(e.store(), nm).map(Some),
                (Some(v), e) => i.global_set(e.store(), nm, v).map(|_| None),
            };
            ev(w, json!({"op": "get", "i": n, "n": nm, "k": "g", "typed": false, "ty": {"p":[],"r":[]}, "ok": h.is_some()}));
            match h {
                None => {
                    if r.is_ok() {
                        ev(w, json!({"op": "bad", "what": "access through a missing global"}));
                    }
                }
                Some(h) => {
                    let o = add_obj(w, None, Obj::G(h));
                    match v {
                        None => {
                            let ok = r.is_ok();
                            let v = r.ok().flatten().unwrap_or(WasmValue::I32(0));
                            ev(w, json!({"op": "g.get", "o": o, "ok": ok, "v": enc(&v)}));
                            set_vars(w, op, &[v]);
                        }
                        Some(v) => ev(w, json!({"op": "g.set", "o": o, "ok": r.is_ok(), "v": enc(&v)})),
                    }
                }
            }
        }
        // how one binary fares under several configurations; the binary is a (relaid, mutated) module of the script
        "parse" => {
            let (rel, n) = (op["rel"] == true, op["mod"].as_u64()? as usize);
            let mut b = w.borrow().wasm[n - 1].clone();
            if let Some(l) = op["lay"].as_str() {
                b = crate::layout::relayout(&b, l)?;
            }
            for s in op["muts"].as_array().unwrap_or(&vec![]) {
                b = crate::layout::mutate(&b, s.as_u64()?);
            }
            if let Some(k) = op["cut"].as_u64() {
                b.truncate(k as usize);
            }
            let scratch = w.borrow().scratch.clone();
            let outs: Vec<Value> = op["cfgs"]
                .as_array()?
                .iter()
                .map(|c| {
                    let c = c.as_str().unwrap();
                    let cfg = Cfg::parse(c);
                    let r = cfg.module(&b, &scratch);
                    let ok = r.is_ok();
                    if let (true, Ok(m)) = (op["go"] == true && cfg.get("val") != Some("0"), r) {
                        exercise(&m);
                    }
                    json!({"c": c, "val": cfg.get("val") != Some("0"), "ok": ok})
                })
                .collect();
            ev(w, json!({"op": "parse", "b": if rel { vec![] } else { b }, "rel": rel, "outs": outs}));
        }
        // the archive of a module, possibly cut short or with some bytes changed
        "arch" => {
            let m = w.borrow().mods.get(op["mod"].as_u64()? as usize - 1)?.clone();
            let b = m.serialize_twasm().ok();
            let full = b.clone().unwrap_or_default();
            let mut x = full.clone();
            let cut = op["cut"].as_i64().unwrap_or(0);
            x.truncate(if cut < 0 { full.len().saturating_sub(-cut as usize) } else if cut > 0 { (cut as usize).min(full.len()) } else { full.len() });
            for s in op["set"].as_array().unwrap_or(&vec![]) {
                let (i, v) = (s[0].as_u64()? as usize, s[1].as_u64()? as u8);
                let n = x.len();
                if n > 0 {
                    x[i % n] = v;
                }
            }
            let diff: Vec<usize> = (0..x.len()).filter(|i| x[*i] != full[*i]).collect();
            let r = Module::try_from_twasm(&x);
            let ok = r.is_ok();
            // (a module with a NaN constant is not equal to itself)
            let eq = r.is_ok_and(|y| {
                (y == m || m != m) && y.serialize_twasm().is_ok_and(|z| z == full) && format!("{y:?}") == format!("{m:?}")
            });
            ev(w, json!({"op": "arch", "ser": b.is_some(), "full": full.len(), "n": x.len(), "diff": diff, "ok": ok, "eq": eq}));
        }
        // the command line, after the library did the same in a store of its own
        "cli" | "comp" | "insp" => {
            let n = op["mod"].as_u64()? as usize - 1;
            let e = {
                let i = w.borrow();
                let from = i.log.iter().rposition(|e| e["op"] == "use").map_or(0, |x| x + 1);
                let lib = i.log[from..].iter().filter(|e| {
                    ["instok", "insterr", "start", "none", "call", "ret", "err"].contains(&e["op"].as_str().unwrap())
                });
                let wat = i.wat[n].as_deref();
                if name == "cli" {
                    crate::cli::run(op, &i.cfg, &i.scratch, wat, &i.wasm[n], lib.cloned().collect())?
                } else if name == "insp" {
                    crate::cli::inspect(op, &i.scratch, wat, &i.wasm[n])?
                } else {
                    crate::cli::compile(op, &i.scratch, wat, &i.wasm[n])?
                }
            };
            ev(w, e);
        }
        // a script of the command line, after the library did what its directives say
        "wast" => {
            let e = {
                let i = w.borrow();
                let at = |k: usize| i.marks.get(k).copied().unwrap_or(i.log.len());
                let evs = (0..i.marks.len()).map(|k| i.log[at(k)..at(k + 1)].to_vec()).collect();
                let the = |o: &Value| match o["op"].as_str().unwrap() {
                    "inst" => o["as"].as_str().map(|s| s.to_string()),
                    "call" => o["f"].as_str().and_then(|s| s.split_once('.')).map(|s| s.0.to_string()),
                    _ => o["i"].as_str().map(|s| s.to_string()),
                };
                let inst = i.ops.iter().map(|o| the(o).and_then(|l| i.il.get(&l).copied()).unwrap_or(0)).collect();
                crate::cli::wast(op, &i.ops, &crate::cli::Done { evs, inst }, &i.scratch, &i.wat, &i.wasm)?
            };
            ev(w, e);
        }
        "desc" => {
            let n = op["mod"].as_u64()?;
            let m = w.borrow().mods[n as usize - 1].clone();
            ev(w, desc(&m, n));
        }
        "hasstart" => {
            let (n, i) = inst(w, op)?;
            let r = i.start_func(env.store());
            ev(w, json!({"op": "hasstart", "i": n, "ok": r.is_ok(), "r": r.is_ok_and(|f| f.is_some())}));
        }
        "obs" => obs(w, env),
        "rem" => {
            let Env::Host(c) = env else { return None };
            ev(w, json!({"op": "rem", "r": c.remaining_fuel().min(500_000_000)}));
        }
        "charge" => {
            let Env::Host(c) = env else { return None };
            let n = op["n"].as_u64()?;
            c.charge_fuel(n as u32);
            ev(w, json!({"op": "charge", "n": n.min(500_000_000)}));
        }
        _ if name.starts_with("m.") => mem_op(w, env, op, name)?,
        _ if name.starts_with("t.") => tab_op(w, env, op, name, ha)?,
        _ if name.starts_with("g.") => {
            let (n, o) = obj(w, op, "o")?;
            let Obj::G(g) = o else { return None };
            match name {
                "g.get" => {
                    let r = g.get(env.store());
                    let v = *r.as_ref().unwrap_or(&WasmValue::I32(0));
                    ev(w, json!({"op": name, "o": n, "ok": r.is_ok(), "v": enc(&v)}));
                    set_vars(w, op, &[v]);
                }
                "g.ty" => {
                    let r = g.ty(env.store());
                    let t = r.as_ref().map_or(json!({"ty":"","mu":false}), gtype_ev);
                    ev(w, json!({"op": name, "o": n, "ok": r.is_ok(), "ty": t["ty"], "mu": t["mu"]}));
                }
                _ => {
                    let v = one(w, &op["v"], ha)?;
                    let r = g.set(env.store(), v);
                    ev(w, json!({"op": name, "o": n, "ok": r.is_ok(), "v": enc(&v)}));
                }
            }
        }
        _ => panic!("script op {name}"),
    }
    Some(())
}

fn mem_op(w: &W, env: &mut Env, op: &Value, name: &str) -> Option<()> {
    let (n, o) = obj(w, op, "o")?;
    let Obj::M(m) = o else { return None };
    let st = env.store();
    let off = us(&op["off"]);
    let offj = b8(off as u64);
    let len = us(&op["n"]);
    let lenj = b8(len as u64);
    let b = bytes(&op["b"]);
    let e = match name {
        "m.len" => {
            let r = m.len(st);
            json!({"ok": r.is_ok(), "r": clip(r.unwrap_or(0))})
        }
        "m.pages" => {
            let r = m.page_count(st);
            json!({"ok": r.is_ok(), "r": r.unwrap_or(0)})
        }
        "m.ty" => {
            let r = m.ty(st);
            json!({"ok": r.is_ok(), "r": r.map_or(json!({"it":""}), |t| mtype_ev(&t))})
        }
        "m.read" => {
            let mut d = vec![0xAAu8; len];
            let r = m.read(st, off, &mut d);
            let ok = r.is_ok();
            let k = r.unwrap_or(0);
            if k > len {
                json!({"off": offj, "n": len, "ok": ok, "b": [256]})
            } else {
                json!({"off": offj, "n": len, "ok": ok, "b": &d[..k]})
            }
        }
        "m.write" => {
            let r = m.write(st, off, &b);
            json!({"off": offj, "b": b, "ok": r.is_ok(), "r": r.unwrap_or(0)})
        }
        "m.rex" => {
            let mut d = vec![0xAAu8; len.min(1 << 20)];
            if d.len() != len {
                return None;
            }
            let r = m.read_exact(st, off, &mut d);
            json!({"off": offj, "n": lenj, "ok": r.is_ok(), "b": if r.is_ok() { d } else { vec![] }})
        }
        "m.rvec" => {
            let r = m.read_vec(st, off, len);
            json!({"off": offj, "n": lenj, "ok": r.is_ok(), "b": r.unwrap_or_default()})
        }
        "m.put" => {
            let r = m.copy_from_slice(st, off, &b);
            json!({"off": offj, "b": b, "ok": r.is_ok()})
        }
        "m.wcs" => {
            let r = if op["c"] == true {
                m.write_cstring(st, off, &std::ffi::CString::new(b.clone()).ok()?)
            } else {
                m.write_cstring_bytes(st, off, std::str::from_utf8(&b).ok()?)
            };
            json!({"off": offj, "b": b, "ok": r.is_ok()})
        }
        "m.fill" => {
            let v = op["v"].as_u64()?;
            let r = m.fill(st, off, len, v as u8);
            json!({"off": offj, "n": lenj, "v": v, "ok": r.is_ok()})
        }
        "m.copy" => {
            let s = us(&op["s"]);
            let r = m.copy_within(st, s, off, len);
            json!({"off": offj, "s": b8(s as u64), "n": lenj, "ok": r.is_ok()})
        }
        "m.grow" => {
            let d = match &op["d"] {
                Value::Array(_) => i64::from_le_bytes(arr(&op["d"])),
                v => v.as_i64()?,
            };
            let r = m.grow(st, d);
            json!({"d": d.to_le_bytes(), "ok": r.is_ok(), "r": r.ok().flatten().unwrap_or(-1)})
        }
        "m.rcs" => {
            let r = m.read_cstring(st, off, len);
            json!({"off": offj, "n": lenj, "ok": r.is_ok(), "b": r.map_or(vec![], |c| c.into_bytes())})
        }
        "m.rcu" => {
            let r = m.read_cstring_until_null(st, off, len);
            json!({"off": offj, "n": lenj, "ok": r.is_ok(), "b": r.map_or(vec![], |c| c.into_bytes())})
        }
        "m.rstr" => {
            let r = m.read_string(st, off, len);
            json!({"off": offj, "n": lenj, "ok": r.is_ok(), "b": r.map_or(vec![], |c| c.into_bytes())})
        }
        "m.rjs" => {
            let r = m.read_js_string(st, off, len);
            json!({"off": offj, "n": lenj, "ok": r.is_ok(), "b": r.map_or(vec![], |c| c.into_bytes())})
        }
        "m.cur" => {
            #[cfg(not(feature = "full"))]
            let r: Result<std::io::Cursor<Vec<u8>>> = m.len(st).and_then(|_| panic!("a cursor without the standard library"));
            #[cfg(feature = "full")]
            let r = if op["off"].is_null() { m.cursor(st) } else { m.cursor_at(st, off as u64) };
            let ok = r.is_ok();
            let mut l = vec![];
            if let Ok(mut c) = r {
                for q in op["l"].as_array()? {
                    let k = q["k"].as_str()?;
                    l.push(match k {
                        "read" => {
                            let mut d = vec![0xAAu8; us(&q["n"])];
                            let r = c.read(&mut d).unwrap_or(usize::MAX);
                            json!({"k": k, "n": d.len(), "b": if r <= d.len() { json!(&d[..r]) } else { json!([256]) }})
                        }
                        "write" => {
                            let b = bytes(&q["b"]);
                            let r = c.write(&b).map_or(-1, |x| x as i64);
                            json!({"k": k, "b": b, "r": r})
                        }
                        "wall" => {
                            let b = bytes(&q["b"]);
                            let r = c.write_all(&b).is_ok() as u8;
                            json!({"k": k, "b": b, "r": r})
                        }
                        "rall" => {
                            let mut d = vec![0xAAu8; us(&q["n"])];
                            let r = c.read_exact(&mut d).is_ok() as u8;
                            json!({"k": k, "n": d.len(), "b": d, "r": r})
                        }
                        "seek" => {
                            let d = q["d"].as_i64().or(q["d"].as_u64().map(|x| x as i64))?;
                            let r = c.seek(match q["w"].as_str()? {
                                "s" => SeekFrom::Start(d as u64),
                                "c" => SeekFrom::Current(d),
                                _ => SeekFrom::End(d),
                            });
                            json!({"k": k, "w": q["w"], "d": b8(d as u64), "r": r.map_or(json!([]), |x| json!(b8(x)))})
                        }
                        "set" => {
                            c.set_position(q["d"].as_u64()?);
                            json!({"k": k, "d": b8(q["d"].as_u64()?)})
                        }
                        _ => json!({"k": "pos", "r": b8(c.position())}),
                    });
                }
            }
            json!({"off": offj, "ok": ok, "l": l})
        }
        _ => panic!("script op {name}"),
    };
    let mut e = e;
    e["op"] = json!(name);
    e["o"] = json!(n);
    ev(w, e);
    Some(())
}

fn tab_op(w: &W, env: &mut Env, op: &Value, name: &str, ha: &[WasmValue]) -> Option<()> {
    let (n, o) = obj(w, op, "o")?;
    let Obj::T(t) = o else { return None };
    let i = us(&op["i"]);
    let ij = b8(i as u64);
    let len = us(&op["n"]);
    let lenj = b8(len as u64);
    let st = env.store();
    let none = enc(&WasmValue::I32(0));
    let mut e = match name {
        "t.size" => {
            let r = t.size(st);
            json!({"ok": r.is_ok(), "r": r.unwrap_or(0)})
        }
        "t.ty" => {
            let r = t.ty(st);
            json!({"ok": r.is_ok(), "r": r.map_or(json!({"it":""}), |t| ttype_ev(&t))})
        }
        "t.get" => {
            let r = t.get(st, i as u32);
            let e = json!({"i": ij, "ok": r.is_ok(), "v": r.as_ref().map_or(none, enc)});
            if let Ok(v) = r {
                set_vars(w, op, &[v]);
            }
            e
        }
        "t.load" => {
            let r = t.load(st, i, len);
            let ok = r.is_ok();
            let vs: Vec<WasmValue> = r.map_or(vec![], |x| x.collect());
            set_vars(w, op, &vs);
            json!({"i": ij, "n": lenj, "ok": ok, "vs": encs(&vs)})
        }
        "t.set" => {
            let v = one(w, &op["v"], ha)?;
            let r = t.set(st, i as u32, v);
            json!({"i": ij, "v": enc(&v), "ok": r.is_ok()})
        }
        "t.copy" => {
            let s = us(&op["s"]);
            let r = t.copy_within(st, s, i, len);
            json!({"i": ij, "s": b8(s as u64), "n": lenj, "ok": r.is_ok()})
        }
        "t.grow" => {
            let v = one(w, &op["v"], ha)?;
            let d = op["i"].as_i64()? as i32;
            let r = t.grow(st, d, v);
            json!({"i": d.to_le_bytes(), "v": enc(&v), "ok": r.is_ok(), "r": r.unwrap_or(0)})
        }
        _ => panic!("script op {name}"),
    };
    e["op"] = json!(name);
    e["o"] = json!(n);
    ev(w, e);
    Some(())
}

/// Executes a script under one configuration; the result is the list of events.
pub fn run(script: &Value, wasm: &[Vec<u8>], cfg: &Cfg, scratch: &str) -> Vec<Value> {
    let w: W = Rc::new(RefCell::new(Inner {
        log: vec![],
        mods: vec![],
        wasm: wasm.to_vec(),
        wat: script["mods"].as_array().unwrap().iter().map(|m| m["wat"].as_str().map(|s| s.to_string())).collect(),
        cfg: cfg.clone(),
        scratch: format!("{scratch}.q"),
        objs: vec![],
        ol: HashMap::new(),
        insts: vec![],
        il: HashMap::new(),
        vars: HashMap::new(),
        cs: 1,
        last: None,
        lastv: vec![],
        events: 0,
        ops: vec![],
        marks: vec![],
    }));
    let r = catch_unwind(AssertUnwindSafe(|| {
        for (k, b) in wasm.iter().enumerate().filter(|_| script["raw"] != true) {
            match cfg.module(b, scratch) {
                Ok(m) => w.borrow_mut().mods.push(m),
                Err(_) => {
                    ev(&w, json!({"op": "refused", "mod": k + 1}));
                    return;
                }
            }
        }
        let engine = cfg.engine();
        let ns = script["ns"].as_u64().unwrap_or(1) as usize;
        let mut stores: Vec<Store> = (0..ns).map(|_| Store::new(engine.clone())).collect();
        let note = script["ops"].as_array().unwrap().iter().any(|o| o["op"] == "wast");
        for op in script["ops"].as_array().unwrap() {
            if note {
                let mut x = w.borrow_mut();
                let n = x.log.len();
                x.ops.push(op.clone());
                x.marks.push(n);
            }
            if op["op"] == "use" {
                let s = op["s"].as_u64().unwrap() as usize;
                w.borrow_mut().cs = s;
                ev(&w, json!({"op": "use", "s": s}));
                continue;
            }
            let cs = w.borrow().cs;
            run_op(&w, &mut Env::Top(&mut stores[cs - 1]), op, &[]);
        }
        for s in 1..=ns {
            if w.borrow().cs != s {
                w.borrow_mut().cs = s;
                ev(&w, json!({"op": "use", "s": s}));
            }
            obs(&w, &mut Env::Top(&mut stores[s - 1]));
        }
    }));
    let mut log = std::mem::take(&mut w.borrow_mut().log);
    if r.is_err() {
        let last = log.last().is_some_and(|e| e["op"] == "toolong");
        if !last {
            log.push(json!({"op": "panic", "msg": crate::last_panic()}));
        }
    }
    log
}
