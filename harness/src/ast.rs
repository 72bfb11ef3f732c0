//! Translates a WebAssembly binary into the module record the TLA+ specification interprets.
use serde_json::{Value, json};
use wasmparser::*;

pub type Res<T> = Result<T, String>;
fn e<E: std::fmt::Debug>(x: E) -> String {
    format!("{x:?}")
}

macro_rules! opname {
    ($(@$p:ident $op:ident $({ $($arg:ident: $ty:ty),* $(,)? })? => $visit:ident ($($ann:tt)*))*) => {
        fn raw_name(op: &Operator) -> &'static str {
            match op { $( Operator::$op { .. } => stringify!($visit), )* _ => "visit_unknown_op" }
        }
    };
}
wasmparser::for_each_operator!(opname);

fn name(op: &Operator) -> String {
    raw_name(op).strip_prefix("visit_").unwrap().replacen('_', ".", 1)
}

pub fn vt(t: ValType) -> Res<&'static str> {
    Ok(match t {
        ValType::I32 => "i32",
        ValType::I64 => "i64",
        ValType::F32 => "f32",
        ValType::F64 => "f64",
        ValType::V128 => "v128",
        ValType::Ref(r) if r == RefType::FUNCREF => "funcref",
        ValType::Ref(r) if r == RefType::EXTERNREF => "externref",
        _ => return Err(format!("type {t:?}")),
    })
}
fn default(t: &str) -> Value {
    match t {
        "i32" | "f32" => json!([0, 0, 0, 0]),
        "i64" | "f64" => json!([0u8; 8].to_vec()),
        "v128" => json!([0u8; 16].to_vec()),
        _ => json!([-1]),
    }
}
fn b8(x: u64) -> Value {
    json!(x.to_le_bytes())
}
fn opt8(x: Option<u64>) -> Value {
    x.map_or(json!([]), b8)
}
fn it(is64: bool) -> &'static str {
    if is64 { "i64" } else { "i32" }
}
fn mem_ty(m: &MemoryType) -> Value {
    json!({"it": it(m.memory64), "ps": m.page_size_log2.unwrap_or(16), "min": b8(m.initial), "max": opt8(m.maximum)})
}
fn tab_ty(t: &TableType) -> Res<Value> {
    Ok(json!({"it": it(t.table64), "min": b8(t.initial), "max": opt8(t.maximum), "et": vt(ValType::Ref(t.element_type))?}))
}
fn glob_ty(g: &GlobalType) -> Res<(&'static str, bool)> {
    Ok((vt(g.content_type)?, g.mutable))
}

/// a numeric or vector instruction without immediates, by name
fn plain(n: &str) -> Res<Value> {
    let (p, f) = n.split_once('.').ok_or(n)?;
    if f.starts_with("relaxed_") {
        let k = match f {
            "relaxed_madd" | "relaxed_nmadd" | "relaxed_laneselect" | "relaxed_dot_i8x16_i7x16_add_s" => 3,
            f if f.contains("trunc") => 1,
            _ => 2,
        };
        return Ok(json!({"g":"r","t":p,"f":f,"n":k}));
    }
    let rel = |f: &str| matches!(f, "eq" | "ne" | "lt" | "gt" | "le" | "ge")
        || (f.len() == 4 && (f.ends_with("_s") || f.ends_with("_u")) && matches!(&f[..2], "lt" | "gt" | "le" | "ge"));
    let cvt = ["wrap_", "extend_i32", "trunc_", "reinterpret_", "convert_", "promote_", "demote_"];
    Ok(match p {
        "i32" | "i64" => match f {
            "eqz" => json!({"g":"n","k":"eqz"}),
            "clz" | "ctz" | "popcnt" | "extend8_s" | "extend16_s" | "extend32_s" => json!({"g":"n","k":"iu","f":f}),
            "add128" | "sub128" => json!({"g":"n","k":"wide","f":f,"n":4}),
            "mul_wide_s" | "mul_wide_u" => json!({"g":"n","k":"wide","f":f,"n":2}),
            _ if rel(f) => json!({"g":"n","k":"ir","f":f}),
            _ if cvt.iter().any(|c| f.starts_with(c)) => json!({"g":"n","k":"cvt","f":n}),
            "add" | "sub" | "mul" | "div_s" | "div_u" | "rem_s" | "rem_u" | "and" | "or" | "xor" | "shl" | "shr_s"
            | "shr_u" | "rotl" | "rotr" => json!({"g":"n","k":"ib","f":f}),
            _ => return Err(n.into()),
        },
        "f32" | "f64" => match f {
            "abs" | "neg" | "ceil" | "floor" | "trunc" | "nearest" | "sqrt" => json!({"g":"n","k":"fu","f":f}),
            "add" | "sub" | "mul" | "div" | "min" | "max" | "copysign" => json!({"g":"n","k":"fb","f":f}),
            _ if rel(f) => json!({"g":"n","k":"fr","f":f}),
            _ if cvt.iter().any(|c| f.starts_with(c)) => json!({"g":"n","k":"cvt","f":n}),
            _ => return Err(n.into()),
        },
        "v128" => match f {
            "not" => json!({"g":"s","k":"vu","t":p,"f":f}),
            "and" | "or" | "xor" | "andnot" => json!({"g":"s","k":"vb","t":p,"f":f}),
            "bitselect" => json!({"g":"s","k":"vsel"}),
            "any_true" => json!({"g":"s","k":"vany"}),
            _ => return Err(n.into()),
        },
        "i8x16" | "i16x8" | "i32x4" | "i64x2" | "f32x4" | "f64x2" => match f {
            "splat" => json!({"g":"s","k":"vsplat","t":p}),
            "all_true" => json!({"g":"s","k":"vall","t":p}),
            "bitmask" => json!({"g":"s","k":"vmask","t":p}),
            "shl" | "shr_s" | "shr_u" => json!({"g":"s","k":"vsh","t":p,"f":f}),
            "abs" | "neg" | "popcnt" | "sqrt" | "ceil" | "floor" | "trunc" | "nearest" => {
                json!({"g":"s","k":"vu","t":p,"f":f})
            }
            _ if f.starts_with("narrow_") || f.starts_with("extmul_") || f.starts_with("dot_") => {
                json!({"g":"s","k":"vc2","t":p,"f":f})
            }
            _ if f.starts_with("trunc_sat") => json!({"g":"s","k":"vc","t":p,"f":f,"fl":true}),
            _ if ["convert_", "demote_", "promote_", "extend_", "extadd_"].iter().any(|c| f.starts_with(c)) => {
                json!({"g":"s","k":"vc","t":p,"f":f,"fl":false})
            }
            _ => json!({"g":"s","k":"vb","t":p,"f":f}),
        },
        _ => return Err(n.into()),
    })
}

fn ma(m: &MemArg) -> (Value, u32) {
    (b8(m.offset), m.memory)
}

struct Ctx<'a> {
    types: &'a [(Vec<&'static str>, Vec<&'static str>)],
}
impl Ctx<'_> {
    fn bt(&self, b: &BlockType) -> Res<(usize, usize)> {
        Ok(match b {
            BlockType::Empty => (0, 0),
            BlockType::Type(t) => {
                vt(*t)?;
                (0, 1)
            }
            BlockType::FuncType(i) => {
                let t = self.types.get(*i as usize).ok_or("type")?;
                (t.0.len(), t.1.len())
            }
        })
    }

    fn instr(&self, op: &Operator) -> Res<Value> {
        use Operator::*;
        let n = name(op);
        let mem = |m: &MemArg, w: u32| -> Value {
            let (off, mem) = ma(m);
            let f = n.split_once('.').unwrap().1;
            if f.starts_with("load") {
                let (b, sx) = match f {
                    "load" => (w, ""),
                    "load8_s" => (1, "s"),
                    "load8_u" => (1, "u"),
                    "load16_s" => (2, "s"),
                    "load16_u" => (2, "u"),
                    "load32_s" => (4, "s"),
                    _ => (4, "u"),
                };
                json!({"g":"m","k":"load","w":w,"b":b,"sx":sx,"off":off,"m":mem})
            } else {
                let b = match f {
                    "store" => w,
                    "store8" => 1,
                    "store16" => 2,
                    _ => 4,
                };
                json!({"g":"m","k":"store","b":b,"off":off,"m":mem})
            }
        };
        let vl = |m: &MemArg, f: &str, b: u32, w: u32, sx: &str| {
            let (off, mem) = ma(m);
            json!({"g":"m","k":"vload","f":f,"b":b,"w":w,"sx":sx,"off":off,"m":mem})
        };
        let lane = |m: &MemArg, k: &str, b: u32, l: u8| {
            let (off, mem) = ma(m);
            json!({"g":"m","k":k,"b":b,"l":l,"off":off,"m":mem})
        };
        let ext = |t: &str, l: u8, sx: &str| json!({"g":"s","k":"vext","t":t,"l":l,"sx":sx});
        let rep = |t: &str, l: u8| json!({"g":"s","k":"vrep","t":t,"l":l});
        Ok(match op {
            Unreachable => json!({"g":"c","k":"unreachable"}),
            Nop => json!({"g":"v","k":"nop"}),
            Block { blockty } => {
                let (a, r) = self.bt(blockty)?;
                json!({"g":"c","k":"block","a":a,"r":r})
            }
            Loop { blockty } => {
                let (a, r) = self.bt(blockty)?;
                json!({"g":"c","k":"loop","a":a,"r":r})
            }
            If { blockty } => {
                let (a, r) = self.bt(blockty)?;
                json!({"g":"c","k":"if","a":a,"r":r,"l":0})
            }
            Else => json!({"g":"c","k":"else"}),
            End => json!({"g":"c","k":"end"}),
            Br { relative_depth } => json!({"g":"c","k":"br","d":relative_depth}),
            BrIf { relative_depth } => json!({"g":"c","k":"br_if","d":relative_depth}),
            BrTable { targets } => {
                let ds: Vec<u32> = targets.targets().collect::<Result<_, _>>().map_err(e)?;
                json!({"g":"c","k":"br_table","ds":ds,"d":targets.default()})
            }
            Return => json!({"g":"c","k":"return"}),
            Call { function_index } => json!({"g":"c","k":"call","x":function_index}),
            ReturnCall { function_index } => json!({"g":"c","k":"rcall","x":function_index}),
            CallIndirect { type_index, table_index } => json!({"g":"c","k":"calli","t":type_index,"x":table_index}),
            ReturnCallIndirect { type_index, table_index } => {
                json!({"g":"c","k":"rcalli","t":type_index,"x":table_index})
            }
            Drop => json!({"g":"v","k":"drop"}),
            Select => json!({"g":"v","k":"select"}),
            TypedSelect { .. } => json!({"g":"v","k":"select"}),
            LocalGet { local_index } => json!({"g":"v","k":"lget","x":local_index}),
            LocalSet { local_index } => json!({"g":"v","k":"lset","x":local_index}),
            LocalTee { local_index } => json!({"g":"v","k":"ltee","x":local_index}),
            GlobalGet { global_index } => json!({"g":"v","k":"gget","x":global_index}),
            GlobalSet { global_index } => json!({"g":"v","k":"gset","x":global_index}),
            I32Const { value } => json!({"g":"v","k":"const","v":value.to_le_bytes()}),
            I64Const { value } => json!({"g":"v","k":"const","v":value.to_le_bytes()}),
            F32Const { value } => json!({"g":"v","k":"const","v":value.bits().to_le_bytes()}),
            F64Const { value } => json!({"g":"v","k":"const","v":value.bits().to_le_bytes()}),
            V128Const { value } => json!({"g":"v","k":"const","v":value.bytes()}),
            RefNull { .. } => json!({"g":"v","k":"rnull"}),
            RefIsNull => json!({"g":"v","k":"risnull"}),
            RefFunc { function_index } => json!({"g":"v","k":"rfunc","x":function_index}),
            I32Load { memarg } | F32Load { memarg } | I32Load8S { memarg } | I32Load8U { memarg }
            | I32Load16S { memarg } | I32Load16U { memarg } | I32Store { memarg } | F32Store { memarg }
            | I32Store8 { memarg } | I32Store16 { memarg } => mem(memarg, 4),
            I64Load { memarg } | F64Load { memarg } | I64Load8S { memarg } | I64Load8U { memarg }
            | I64Load16S { memarg } | I64Load16U { memarg } | I64Load32S { memarg } | I64Load32U { memarg }
            | I64Store { memarg } | F64Store { memarg } | I64Store8 { memarg } | I64Store16 { memarg }
            | I64Store32 { memarg } => mem(memarg, 8),
            V128Load { memarg } | V128Store { memarg } => mem(memarg, 16),
            V128Load8x8S { memarg } => vl(memarg, "ext", 8, 1, "s"),
            V128Load8x8U { memarg } => vl(memarg, "ext", 8, 1, "u"),
            V128Load16x4S { memarg } => vl(memarg, "ext", 8, 2, "s"),
            V128Load16x4U { memarg } => vl(memarg, "ext", 8, 2, "u"),
            V128Load32x2S { memarg } => vl(memarg, "ext", 8, 4, "s"),
            V128Load32x2U { memarg } => vl(memarg, "ext", 8, 4, "u"),
            V128Load8Splat { memarg } => vl(memarg, "splat", 1, 1, ""),
            V128Load16Splat { memarg } => vl(memarg, "splat", 2, 2, ""),
            V128Load32Splat { memarg } => vl(memarg, "splat", 4, 4, ""),
            V128Load64Splat { memarg } => vl(memarg, "splat", 8, 8, ""),
            V128Load32Zero { memarg } => vl(memarg, "zero", 4, 4, ""),
            V128Load64Zero { memarg } => vl(memarg, "zero", 8, 8, ""),
            V128Load8Lane { memarg, lane: l } => lane(memarg, "vloadl", 1, *l),
            V128Load16Lane { memarg, lane: l } => lane(memarg, "vloadl", 2, *l),
            V128Load32Lane { memarg, lane: l } => lane(memarg, "vloadl", 4, *l),
            V128Load64Lane { memarg, lane: l } => lane(memarg, "vloadl", 8, *l),
            V128Store8Lane { memarg, lane: l } => lane(memarg, "vstorel", 1, *l),
            V128Store16Lane { memarg, lane: l } => lane(memarg, "vstorel", 2, *l),
            V128Store32Lane { memarg, lane: l } => lane(memarg, "vstorel", 4, *l),
            V128Store64Lane { memarg, lane: l } => lane(memarg, "vstorel", 8, *l),
            MemorySize { mem } => json!({"g":"m","k":"msize","m":mem}),
            MemoryGrow { mem } => json!({"g":"m","k":"mgrow","m":mem}),
            MemoryFill { mem } => json!({"g":"m","k":"mfill","m":mem}),
            MemoryCopy { dst_mem, src_mem } => json!({"g":"m","k":"mcopy","m":dst_mem,"m2":src_mem}),
            MemoryInit { data_index, mem } => json!({"g":"m","k":"minit","m":mem,"x":data_index}),
            DataDrop { data_index } => json!({"g":"v","k":"ddrop","x":data_index}),
            ElemDrop { elem_index } => json!({"g":"v","k":"edrop","x":elem_index}),
            TableGet { table } => json!({"g":"t","k":"tget","x":table}),
            TableSet { table } => json!({"g":"t","k":"tset","x":table}),
            TableSize { table } => json!({"g":"t","k":"tsize","x":table}),
            TableGrow { table } => json!({"g":"t","k":"tgrow","x":table}),
            TableFill { table } => json!({"g":"t","k":"tfill","x":table}),
            TableCopy { dst_table, src_table } => json!({"g":"t","k":"tcopy","x":dst_table,"x2":src_table}),
            TableInit { elem_index, table } => json!({"g":"t","k":"tinit","x":table,"e":elem_index}),
            I8x16Shuffle { lanes } => json!({"g":"s","k":"vshuf","ls":lanes}),
            I8x16ExtractLaneS { lane } => ext("i8x16", *lane, "s"),
            I8x16ExtractLaneU { lane } => ext("i8x16", *lane, "u"),
            I16x8ExtractLaneS { lane } => ext("i16x8", *lane, "s"),
            I16x8ExtractLaneU { lane } => ext("i16x8", *lane, "u"),
            I32x4ExtractLane { lane } => ext("i32x4", *lane, ""),
            I64x2ExtractLane { lane } => ext("i64x2", *lane, ""),
            F32x4ExtractLane { lane } => ext("f32x4", *lane, ""),
            F64x2ExtractLane { lane } => ext("f64x2", *lane, ""),
            I8x16ReplaceLane { lane } => rep("i8x16", *lane),
            I16x8ReplaceLane { lane } => rep("i16x8", *lane),
            I32x4ReplaceLane { lane } => rep("i32x4", *lane),
            I64x2ReplaceLane { lane } => rep("i64x2", *lane),
            F32x4ReplaceLane { lane } => rep("f32x4", *lane),
            F64x2ReplaceLane { lane } => rep("f64x2", *lane),
            _ => plain(&n)?,
        })
    }

    fn expr(&self, x: &ConstExpr) -> Res<Value> {
        let mut out = vec![];
        for op in x.get_operators_reader() {
            let op = op.map_err(e)?;
            if !matches!(op, Operator::End) {
                out.push(self.instr(&op)?);
            }
        }
        Ok(json!(out))
    }

    fn body(&self, b: &FunctionBody) -> Res<Value> {
        let mut loc = vec![];
        for l in b.get_locals_reader().map_err(e)? {
            let (n, t) = l.map_err(e)?;
            let d = default(vt(t)?);
            if loc.len() + n as usize > 2000 {
                return Err("too many locals".into());
            }
            for _ in 0..n {
                loc.push(d.clone());
            }
        }
        let mut code: Vec<Value> = vec![];
        // indices of the open block/loop/if instructions and of their else
        let mut open: Vec<(usize, usize)> = vec![];
        for op in b.get_operators_reader().map_err(e)? {
            let op = op.map_err(e)?;
            let pc = code.len() + 1;
            match op {
                Operator::End if open.is_empty() => code.push(json!({"g":"c","k":"return"})),
                Operator::End => {
                    let (o, el) = open.pop().unwrap();
                    code.push(self.instr(&op)?);
                    code[o - 1]["e"] = json!(pc);
                    if el > 0 {
                        code[el - 1]["e"] = json!(pc);
                    }
                }
                Operator::Else => {
                    let (o, el) = open.last_mut().ok_or("else")?;
                    *el = pc;
                    code[*o - 1]["l"] = json!(pc);
                    code.push(self.instr(&op)?);
                }
                _ => {
                    if matches!(op, Operator::Block { .. } | Operator::Loop { .. } | Operator::If { .. }) {
                        open.push((pc, 0));
                    }
                    code.push(self.instr(&op)?);
                }
            }
        }
        Ok(json!({"loc": loc, "code": code}))
    }
}

pub fn dump(wasm: &[u8]) -> Res<Value> {
    let mut types: Vec<(Vec<&'static str>, Vec<&'static str>)> = vec![];
    let (mut imps, mut funcs, mut code, mut tables, mut mems) = (vec![], vec![], vec![], vec![], vec![]);
    let (mut globals, mut exports, mut elems, mut datas) = (vec![], vec![], vec![], vec![]);
    let mut start = json!(-1);
    for p in Parser::new(0).parse_all(wasm) {
        use Payload::*;
        match p.map_err(e)? {
            TypeSection(r) => {
                for t in r.into_iter_err_on_gc_types() {
                    let t = t.map_err(e)?;
                    let f = |l: &[ValType]| l.iter().map(|t| vt(*t)).collect::<Res<Vec<_>>>();
                    types.push((f(t.params())?, f(t.results())?));
                }
            }
            ImportSection(r) => {
                for i in r.into_imports() {
                    let i = i.map_err(e)?;
                    imps.push(match i.ty {
                        TypeRef::Func(t) => json!({"m":i.module,"n":i.name,"k":"f","t":t}),
                        TypeRef::Table(t) => json!({"m":i.module,"n":i.name,"k":"t","ty":tab_ty(&t)?}),
                        TypeRef::Memory(t) => json!({"m":i.module,"n":i.name,"k":"m","ty":mem_ty(&t)}),
                        TypeRef::Global(g) => {
                            let (ty, mu) = glob_ty(&g)?;
                            json!({"m":i.module,"n":i.name,"k":"g","ty":ty,"mu":mu})
                        }
                        _ => return Err("import".into()),
                    });
                }
            }
            FunctionSection(r) => {
                for t in r {
                    funcs.push(t.map_err(e)?);
                }
            }
            TableSection(r) => {
                for t in r {
                    let t = t.map_err(e)?;
                    let init = match t.init {
                        TableInit::RefNull => json!([]),
                        TableInit::Expr(x) => Ctx { types: &types }.expr(&x)?,
                    };
                    tables.push(json!({"ty": tab_ty(&t.ty)?, "init": init}));
                }
            }
            MemorySection(r) => {
                for m in r {
                    mems.push(mem_ty(&m.map_err(e)?));
                }
            }
            GlobalSection(r) => {
                for g in r {
                    let g = g.map_err(e)?;
                    let (ty, mu) = glob_ty(&g.ty)?;
                    globals.push(json!({"ty":ty,"mu":mu,"init":Ctx{types:&types}.expr(&g.init_expr)?}));
                }
            }
            ExportSection(r) => {
                for x in r {
                    let x = x.map_err(e)?;
                    let k = match x.kind {
                        ExternalKind::Func => "f",
                        ExternalKind::Table => "t",
                        ExternalKind::Memory => "m",
                        ExternalKind::Global => "g",
                        _ => return Err("export".into()),
                    };
                    exports.push(json!({"n":x.name,"k":k,"x":x.index}));
                }
            }
            StartSection { func, .. } => start = json!(func),
            ElementSection(r) => {
                for s in r {
                    let s = s.map_err(e)?;
                    let cx = Ctx { types: &types };
                    let mut init = vec![];
                    match s.items {
                        ElementItems::Functions(fs) => {
                            for f in fs {
                                init.push(json!([{"g":"v","k":"rfunc","x":f.map_err(e)?}]));
                            }
                        }
                        ElementItems::Expressions(_, xs) => {
                            for x in xs {
                                init.push(cx.expr(&x.map_err(e)?)?);
                            }
                        }
                    }
                    let (mode, x, off) = match s.kind {
                        ElementKind::Active { table_index, offset_expr } => {
                            ("active", table_index.unwrap_or(0), cx.expr(&offset_expr)?)
                        }
                        ElementKind::Passive => ("passive", 0, json!([])),
                        ElementKind::Declared => ("declared", 0, json!([])),
                    };
                    elems.push(json!({"mode":mode,"x":x,"off":off,"init":init}));
                }
            }
            DataSection(r) => {
                for d in r {
                    let d = d.map_err(e)?;
                    let (mode, x, off) = match d.kind {
                        DataKind::Active { memory_index, offset_expr } => {
                            ("active", memory_index, Ctx { types: &types }.expr(&offset_expr)?)
                        }
                        DataKind::Passive => ("passive", 0, json!([])),
                    };
                    datas.push(json!({"mode":mode,"x":x,"off":off,"b":d.data}));
                }
            }
            CodeSectionEntry(b) => code.push(Ctx { types: &types }.body(&b)?),
            _ => {}
        }
    }
    let types: Vec<Value> = types.iter().map(|t| json!({"p":t.0,"r":t.1})).collect();
    Ok(json!({"types":types,"imps":imps,"funcs":funcs,"code":code,"tables":tables,"mems":mems,"globals":globals,
              "exports":exports,"start":start,"elems":elems,"datas":datas}))
}

/// The features that the library says it supports.
pub fn features() -> WasmFeatures {
    use WasmFeatures as F;
    F::CALL_INDIRECT_OVERLONG | F::BULK_MEMORY_OPT | F::RELAXED_SIMD | F::GC_TYPES | F::REFERENCE_TYPES | F::MUTABLE_GLOBAL | F::MULTI_VALUE | F::FLOATS | F::BULK_MEMORY
        | F::SATURATING_FLOAT_TO_INT | F::SIGN_EXTENSION | F::EXTENDED_CONST | F::TAIL_CALL | F::MULTI_MEMORY | F::SIMD | F::MEMORY64 | F::CUSTOM_PAGE_SIZES | F::WIDE_ARITHMETIC
}
