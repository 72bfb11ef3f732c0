//! Statically typed calls and host functions for a fixed set of signatures.
use crate::world::{Env, W, host_body};
use serde_json::Value;
use std::cell::RefCell;
use tinywasm::types::{ExternRef, FuncRef, FuncType, WasmType, WasmValue};
use tinywasm::*;

pub trait IntoV {
    fn into_v(self) -> Vec<WasmValue>;
}
pub trait FromV: Sized {
    fn from_v(v: &[WasmValue]) -> Self;
}
macro_rules! scalar {
    ($($t:ty => $v:ident),*) => { $(
        impl IntoV for $t { fn into_v(self) -> Vec<WasmValue> { vec![WasmValue::$v(self)] } }
        impl FromV for $t { fn from_v(v: &[WasmValue]) -> Self { match v[0] { WasmValue::$v(x) => x, _ => panic!("typed") } } }
    )* };
}
scalar!(i32 => I32, i64 => I64, f32 => F32, f64 => F64, FuncRef => RefFunc, ExternRef => RefExtern);
impl IntoV for () {
    fn into_v(self) -> Vec<WasmValue> {
        vec![]
    }
}
impl FromV for () {
    fn from_v(_: &[WasmValue]) -> Self {}
}
macro_rules! tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: IntoV),*> IntoV for ($($t,)*) {
            fn into_v(self) -> Vec<WasmValue> { let mut v = vec![]; $( v.extend(self.$i.into_v()); )* v }
        }
        impl<$($t: FromV),*> FromV for ($($t,)*) {
            fn from_v(v: &[WasmValue]) -> Self { ($( $t::from_v(&v[$i..]), )*) }
        }
    };
}
tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
impl<A: IntoV, B: IntoV> IntoV for WasmTupleChain<A, B> {
    fn into_v(self) -> Vec<WasmValue> {
        let (a, b) = self.into_inner();
        let mut v = a.into_v();
        v.extend(b.into_v());
        v
    }
}
impl<A: FromV + ToWasmTypes, B: FromV> FromV for WasmTupleChain<A, B> {
    fn from_v(v: &[WasmValue]) -> Self {
        let n = A::wasm_types().len();
        WasmTupleChain::new(A::from_v(v), B::from_v(&v[n..]))
    }
}

type Six = (i32, i64, f32, f64, i32, i64);
type Twelve = (i32, i64, f32, f64, i32, i64, f32, f64, i32, i64, f32, f64);
type Chain = WasmTupleChain<Six, (f64, f32, i64, i32, f64, f32, i64)>;
type Chain2 = WasmTupleChain<WasmTupleChain<Six, (i64,)>, Six>;

macro_rules! sigs {
    ($m:ident) => {
        $m! {
            (), ();
            i32, ();
            (), i32;
            (), i64;
            (), f64;
            (), FuncRef;
            (), ExternRef;
            i32, i32;
            i64, i64;
            f32, f32;
            f64, f64;
            i64, i32;
            FuncRef, FuncRef;
            ExternRef, ExternRef;
            ExternRef, i32;
            FuncRef, i32;
            (i32, i32), i32;
            (i64, i64), i64;
            (i32, i64), (i64, i32);
            (f32, f64), (f64, f32);
            (i32, i32), (i32, i32);
            (i32, i64, f32, f64), (f64, f32, i64, i32);
            (FuncRef, ExternRef), (ExternRef, FuncRef);
            Six, Six;
            Twelve, Twelve;
            Chain, Chain;
            Chain2, Chain2;
            Six, Chain;
            Chain, i32
        }
    };
}

fn is<P: ToWasmTypes, R: ToWasmTypes>(t: &FuncType) -> bool {
    t.params() == P::wasm_types().as_ref() && t.results() == R::wasm_types().as_ref()
}

pub fn has(t: &FuncType) -> bool {
    macro_rules! m { ($($p:ty, $r:ty);*) => { $( if is::<$p, $r>(t) { return true; } )* }; }
    sigs!(m);
    false
}
pub fn fits(t: &FuncType, args: &[WasmValue]) -> bool {
    t.params().len() == args.len() && args.iter().zip(t.params()).all(|(a, t)| WasmType::from(a) == *t)
}

/// the function of a given name and signature through the typed lookup
pub fn lookup(i: &ModuleInstance, s: &Store, n: &str, t: &FuncType) -> Result<Function> {
    macro_rules! m { ($($p:ty, $r:ty);*) => { $( if is::<$p, $r>(t) { return i.func::<$p, $r>(s, n).map(|f| f.func); } )* }; }
    sigs!(m);
    unreachable!()
}

/// the function of a given index and signature through the typed lookup by index
#[cfg(feature = "byindex")]
pub fn lookup_index(i: &ModuleInstance, s: &Store, n: u32, t: &FuncType) -> Result<Function> {
    macro_rules! m { ($($p:ty, $r:ty);*) => { $( if is::<$p, $r>(t) { return i.func_typed_by_index::<$p, $r>(s, n).map(|f| f.func); } )* }; }
    sigs!(m);
    unreachable!()
}

/// FunctionTyped has a public `func` field: take a typed handle of the same signature from a helper
/// instance and point it at the function.
fn helper(t: &FuncType) -> (Store, ModuleInstance) {
    let l = |v: &[WasmType]| v.iter().map(|t| crate::world::tyname(*t)).collect::<Vec<_>>().join(" ");
    let src = format!(
        "(module (func (export \"f\") (param {}) (result {}) unreachable))",
        l(t.params()),
        l(t.results())
    );
    let mut s = Store::default();
    let m = tinywasm::parser::Parser::default().parse_module_bytes(&wat::parse_str(src).unwrap()).unwrap();
    let i = ModuleInstance::instantiate(&mut s, &m, None).unwrap();
    (s, i)
}

pub fn call(f: &Function, t: &FuncType, env: &mut Env, direct: bool, args: &[WasmValue]) -> Result<Vec<WasmValue>> {
    let (s0, i0) = helper(t);
    macro_rules! m { ($($p:ty, $r:ty);*) => { $( if is::<$p, $r>(t) {
        let mut h = i0.func::<$p, $r>(&s0, "f").unwrap();
        h.func = f.clone();
        let a = <$p>::from_v(args);
        return match env {
            Env::Host(c) if !direct => c.call(&h, a).map(|r: $r| r.into_v()),
            Env::Host(c) => h.call(c.store_mut(), a).map(|r| r.into_v()),
            Env::Top(s) if direct => h.call(s, a).map(|r| r.into_v()),
            Env::Top(s) => FuncContext::new(s, 0).call(&h, a).map(|r: $r| r.into_v()),
        };
    } )* }; }
    sigs!(m);
    unreachable!()
}

/// Resumable execution, typed or not.
pub enum Ex<'s> {
    U(FuncExecution<'s>),
    T(Box<dyn FnMut(Option<u32>, std::time::Duration) -> Result<ExecProgress<Vec<WasmValue>>> + 's>),
}
impl Ex<'_> {
    pub fn resume_with_fuel(&mut self, n: u32) -> Result<ExecProgress<Vec<WasmValue>>> {
        match self {
            Ex::U(x) => x.resume_with_fuel(n),
            Ex::T(x) => x(Some(n), std::time::Duration::ZERO),
        }
    }
    pub fn resume_with_time_budget(&mut self, d: std::time::Duration) -> Result<ExecProgress<Vec<WasmValue>>> {
        match self {
            #[cfg(feature = "full")]
            Ex::U(x) => x.resume_with_time_budget(d),
            #[cfg(not(feature = "full"))]
            Ex::U(_) => unreachable!("{d:?}"),
            Ex::T(x) => x(None, d),
        }
    }
}
pub fn resumable<'s>(typed: bool, f: &Function, t: &FuncType, s: &'s mut Store, args: &[WasmValue]) -> Result<Ex<'s>> {
    if !typed {
        return f.call_resumable(s, args).map(Ex::U);
    }
    let (s0, i0) = helper(t);
    macro_rules! m { ($($p:ty, $r:ty);*) => { $( if is::<$p, $r>(t) {
        let mut h = i0.func::<$p, $r>(&s0, "f").unwrap();
        h.func = f.clone();
        let mut x = h.call_resumable(s, <$p>::from_v(args))?;
        return Ok(Ex::T(Box::new(move |n, d| {
            let r = match n {
                Some(n) => x.resume_with_fuel(n),
                #[cfg(feature = "full")]
                None => x.resume_with_time_budget(d),
                #[cfg(not(feature = "full"))]
                None => unreachable!("{d:?}"),
            };
            r.map(|r| match r { ExecProgress::Completed(v) => ExecProgress::Completed(v.into_v()), ExecProgress::Suspended => ExecProgress::Suspended })
        })));
    } )* }; }
    sigs!(m);
    unreachable!()
}

/// a host function playing a script
pub fn host(w: &W, s: &mut Store, n: usize, t: &FuncType, op: &Value) -> Function {
    let (w, beh, count) = (w.clone(), op["beh"].clone(), RefCell::new(0));
    if op["typed"] == true {
        macro_rules! m { ($($p:ty, $r:ty);*) => { $( if is::<$p, $r>(t) {
            return HostFunction::from(s, move |mut c: FuncContext<'_>, p: $p| -> Result<$r> {
                Ok(<$r>::from_v(&host_body(&w, n, &beh, &count, &mut c, &p.into_v())?))
            });
        } )* }; }
        sigs!(m);
    }
    HostFunction::from_untyped(s, t, move |mut c, a| host_body(&w, n, &beh, &count, &mut c, a))
}
