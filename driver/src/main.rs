//! MIR exporter: runs as rustc on the harness crate and writes, as JSON, the
//! monomorphic MIR of everything reachable from the harness entry points,
//! together with the types, constants and resolved call targets.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate serde;
extern crate serde_json;

use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

#[derive(Default)]
struct Ctx {
    inst_ids: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
    types: BTreeMap<usize, Value>,
    tyqueue: Vec<Ty>,
    tyseen: HashSet<Ty>,
    allocs: BTreeMap<usize, Value>,
    defs: BTreeMap<usize, String>,
}

fn tyid(t: Ty) -> usize {
    serde_json::to_value(t).unwrap().as_u64().unwrap() as usize
}

impl Ctx {
    fn ty(&mut self, t: Ty) -> usize {
        if self.tyseen.insert(t) {
            self.tyqueue.push(t);
        }
        tyid(t)
    }
    fn drain_types(&mut self) {
        while let Some(t) = self.tyqueue.pop() {
            let v = self.ty_value(t);
            self.types.insert(tyid(t), v);
        }
    }
    fn args(&mut self, a: &GenericArgs) -> Value {
        let mut out = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => out.push(json!({"ty": self.ty(*t)})),
                GenericArgKind::Const(c) => out.push(json!({"const": c.eval_target_usize().ok()})),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        Value::Array(out)
    }
    fn ty_value(&mut self, t: Ty) -> Value {
        let size = t.layout().ok().map(|l| l.shape().size.bytes());
        let layout = t.layout().ok().map(|l| serde_json::to_value(l.shape()).unwrap_or(Value::Null));
        let mut v = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","signed":true,"bytes":i.num_bytes()}),
                RigidTy::Uint(i) => json!({"k":"int","signed":false,"bytes":i.num_bytes()}),
                RigidTy::Float(f) => json!({"k":"float","f":format!("{:?}", f)}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Adt(def, args) => {
                    let a = self.args(&args);
                    let mut vars = vec![];
                    for (vi, va) in def.variants_iter().enumerate() {
                        let mut fs = vec![];
                        for f in va.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(json!({"name": f.name.to_string(), "ty": self.ty(ft)}));
                        }
                        let d = if def.kind() == AdtKind::Enum {
                            Some(def.discriminant_for_variant(VariantIdx::to_val(vi)).val.to_string())
                        } else { None };
                        vars.push(json!({"name": va.name().to_string(), "fields": fs, "discr": d}));
                    }
                    json!({"k":"adt","name":def.name(),"kind":format!("{:?}",def.kind()),"args":a,"variants":vars})
                }
                RigidTy::Array(e, n) => json!({"k":"array","elem":self.ty(e),"len":n.eval_target_usize().ok()}),
                RigidTy::Slice(e) => json!({"k":"slice","elem":self.ty(e)}),
                RigidTy::RawPtr(e, m) => json!({"k":"ptr","to":self.ty(e),"mut":format!("{:?}",m)}),
                RigidTy::Ref(_, e, m) => json!({"k":"ref","to":self.ty(e),"mut":format!("{:?}",m)}),
                RigidTy::FnDef(d, args) => {
                    let a = self.args(&args);
                    let inst = Instance::resolve(d, &args).ok().map(|i| self.inst(i));
                    json!({"k":"fndef","name":d.name(),"args":a,"inst":inst})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(d, args) => {
                    let a = self.args(&args);
                    let inst = Instance::resolve_closure(d, &args, ClosureKind::FnMut).ok();
                    // upvar types: last arg is a tuple
                    let inst = inst.map(|i| self.inst(i));
                    json!({"k":"closure","name":d.name(),"args":a,"inst":inst})
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                    json!({"k":"tuple","elems":v})
                }
                RigidTy::Dynamic(p, _) => json!({"k":"dyn","s":format!("{:?}", p)}),
                o => json!({"k":"other","s":format!("{:?}", o)}),
            },
            o => json!({"k":"other","s":format!("{:?}", o)}),
        };
        let m = v.as_object_mut().unwrap();
        m.insert("s".into(), json!(format!("{}", t)));
        m.insert("size".into(), json!(size));
        if let Some(l) = layout {
            m.insert("layout".into(), json!({"fields": l["fields"], "variants": l["variants"]}));
        }
        v
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.inst_ids.get(&i) {
            return *x;
        }
        let n = self.inst_ids.len();
        self.inst_ids.insert(i, n);
        self.queue.push_back(i);
        n
    }
    fn alloc(&mut self, a: &Allocation) {
        for (_, p) in a.provenance.ptrs.iter() {
            self.alloc_id(p.0);
        }
    }
    fn alloc_id(&mut self, id: AllocId) {
        let k = serde_json::to_value(id).unwrap().as_u64().unwrap() as usize;
        if self.allocs.contains_key(&k) {
            return;
        }
        self.allocs.insert(k, Value::Null);
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => json!({"k":"fn","inst": self.inst(i)}),
            GlobalAlloc::VTable(t, _) => {
                let _ = self.ty(t);
                json!({"k":"vtable","ty": tyid(t)})
            }
            GlobalAlloc::Static(s) => {
                match s.eval_initializer() {
                    Ok(a) => {
                        self.alloc(&a);
                        let t = Instance::from(s).ty();
                        let t = self.ty(t);
                        json!({"k":"static","name":s.name(),"mem":serde_json::to_value(&a).unwrap(),"ty":t})
                    }
                    Err(_) => json!({"k":"static","name":s.name()}),
                }
            }
            GlobalAlloc::Memory(a) => {
                self.alloc(&a);
                json!({"k":"mem","mem":serde_json::to_value(&a).unwrap()})
            }
            GlobalAlloc::TypeId { ty } => json!({"k":"typeid","ty": tyid(ty)}),
        };
        self.allocs.insert(k, v);
    }
}

struct V<'a> {
    cx: &'a mut Ctx,
}
impl<'a> MirVisitor for V<'a> {
    fn visit_ty(&mut self, ty: &Ty, _l: visit::Location) {
        self.cx.ty(*ty);
        self.super_ty(ty);
    }
    fn visit_mir_const(&mut self, c: &MirConst, l: visit::Location) {
        self.cx.ty(c.ty());
        if let ConstantKind::Allocated(a) = c.kind() {
            self.cx.alloc(a);
        }
        self.super_mir_const(c, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: visit::Location) {
        match r {
            Rvalue::Cast(_, op, t) => {
                self.cx.ty(*t);
                let _ = op;
            }
            Rvalue::Aggregate(k, _) => match k {
                AggregateKind::Adt(def, _, args, _, _) => {
                    let t = Ty::from_rigid_kind(RigidTy::Adt(*def, args.clone()));
                    self.cx.ty(t);
                }
                AggregateKind::Closure(def, args) => {
                    let t = Ty::from_rigid_kind(RigidTy::Closure(*def, args.clone()));
                    self.cx.ty(t);
                }
                AggregateKind::Array(t) => {
                    self.cx.ty(*t);
                }
                _ => {}
            },
            _ => {}
        }
        self.super_rvalue(r, l);
    }
}

/// Replace aggregate kinds by explicit type ids so that the reader needs no
/// knowledge of def ids.
fn rv_ty(cx: &mut Ctx, r: &Rvalue) -> Option<usize> {
    match r {
        Rvalue::Aggregate(AggregateKind::Adt(def, _, args, _, _), _) => {
            Some(cx.ty(Ty::from_rigid_kind(RigidTy::Adt(*def, args.clone()))))
        }
        Rvalue::Aggregate(AggregateKind::Closure(def, args), _) => {
            Some(cx.ty(Ty::from_rigid_kind(RigidTy::Closure(*def, args.clone()))))
        }
        _ => None,
    }
}

fn strip(v: &mut Value) {
    match v {
        Value::Object(m) => {
            m.remove("span");
            m.remove("source_info");
            m.remove("user_ty");
            for (_, x) in m.iter_mut() {
                strip(x);
            }
        }
        Value::Array(a) => {
            for x in a.iter_mut() {
                strip(x);
            }
        }
        _ => {}
    }
}

fn want_body(krate: &str, name: &str) -> bool {
    if matches!(krate, "core" | "alloc" | "std") {
        // names the formatting function of each formatted type
        if name.starts_with("core::fmt::rt::Argument::") || name.starts_with("std::fmt::rt::Argument::") {
            return true;
        }
        if name.starts_with("<") && !name.starts_with("<&") && name.contains(" as std::fmt::") {
            return false;
        }
        // formatting / io machinery is never executed by the verifier
        for p in [
            "std::fmt::", "core::fmt::", "std::io::", "std::fs::", "std::sys", "alloc::raw_vec", "std::panicking",
            "core::panicking", "std::thread", "std::rt", "std::backtrace", "core::str::pattern", "core::unicode",
            "alloc::alloc", "std::alloc", "core::num::flt2dec", "core::num::dec2flt", "core::num::imp", "std::sync", "core::sync",
            "hashbrown", "core::ptr::drop_in_place", "std::ptr::drop_in_place", "std::path", "std::time","core::slice::sort",
            "std::env", "std::process", "std::os", "core::core_arch", "std::ffi",
        ] {
            if name.starts_with(p) || name.contains(&format!("<{}", p)) {
                return false;
            }
        }
        return true;
    }
    !matches!(krate, "hashbrown" | "chrono" | "gimli" | "addr2line" | "miniz_oxide" | "object" | "rustc_demangle" | "libc")
}

fn go() -> ControlFlow<()> {
    let out = match std::env::var("MIR_OUT") {
        Ok(o) => o,
        Err(_) => return ControlFlow::Continue(()),
    };
    let mut cx = Ctx::default();
    let mut entries = vec![];
    for it in rustc_public::all_local_items() {
        if it.requires_monomorphization() {
            continue;
        }
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let id = cx.inst(i);
            entries.push(json!({"name": it.name(), "inst": id}));
        }
    }
    let mut insts: BTreeMap<usize, Value> = BTreeMap::new();
    while let Some(i) = cx.queue.pop_front() {
        let id = cx.inst_ids[&i];
        let name = i.name();
        let def = i.def.def_id();
        let krate = with_krate(&i);
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let mut rec = json!({"id": id, "name": name, "def": def.name(), "crate": krate, "kind": kind,
             "args": cx.args(&i.args())});
        if let Some(n) = i.intrinsic_name() {
            rec["intrinsic"] = json!(n);
        }
        let wants = want_body(&krate, &name) && !matches!(i.kind, InstanceKind::Virtual{..});
        if let (true, true, Some(body)) = (wants, true, if wants { i.body() } else { None }) {
            {
                let mut v = V { cx: &mut cx };
                v.visit_body(&body);
            }
            let locals: Vec<usize> = body.locals().iter().map(|l| cx.ty(l.ty)).collect();
            let mut blocks = vec![];
            for b in body.blocks.iter() {
                let mut stmts = vec![];
                for s in b.statements.iter() {
                    match &s.kind {
                        StatementKind::Assign(p, r) => {
                            let mut jr = serde_json::to_value(r).unwrap();
                            strip(&mut jr);
                            let t = rv_ty(&mut cx, r);
                            let mut jp = serde_json::to_value(p).unwrap();
                            strip(&mut jp);
                            stmts.push(json!({"k":"assign","p":jp,"r":jr,"aty":t}));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let jp = serde_json::to_value(place).unwrap();
                            stmts.push(json!({"k":"setdisc","p":jp,"v":serde_json::to_value(variant_index).unwrap()}));
                        }
                        StatementKind::Intrinsic(n) => {
                            let mut jn = serde_json::to_value(n).unwrap();
                            strip(&mut jn);
                            stmts.push(json!({"k":"intrinsic","i":jn}));
                        }
                        _ => {}
                    }
                }
                let mut t = serde_json::to_value(&b.terminator.kind).unwrap();
                strip(&mut t);
                let sp = b.terminator.source_info.span;
                let line = sp.get_lines().start_line;
                let file = sp.get_filename();
                blocks.push(json!({"s":stmts,"t":t,"line":line,"file":file}));
            }
            let mut names = vec![];
            for d in body.var_debug_info.iter() {
                if let Some(l) = d.local() {
                    names.push(json!([d.name, l]));
                }
            }
            rec["body"] = json!({"argc": body.arg_locals().len(), "locals": locals, "blocks": blocks, "names": names, "spread": body.spread_arg()});
        }
        insts.insert(id, rec);
        cx.drain_types();
    }
    // drain (types may have added instances)
    loop {
        cx.drain_types();
        if cx.queue.is_empty() { break; }
        while let Some(i) = cx.queue.pop_front() {
            let id = cx.inst_ids[&i];
            insts.insert(id, json!({"id": id, "name": i.name(), "def": i.def.def_id().name(), "crate": with_krate(&i), "kind":"late", "args": cx.args(&i.args())}));
        }
    }
    let v = json!({"entries": entries, "insts": insts.values().collect::<Vec<_>>(), "types": cx.types, "allocs": cx.allocs});
    let f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    serde_json::to_writer(f, &v).unwrap();
    let _ = &cx.defs;
    ControlFlow::Continue(())
}

fn with_krate(i: &Instance) -> String {
    struct D(rustc_public::DefId);
    impl CrateDef for D {
        fn def_id(&self) -> rustc_public::DefId { self.0 }
    }
    D(i.def.def_id()).krate().name
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        let real = args.remove(1);
        if !args.iter().any(|a| a == "vharness") || std::env::var("MIR_OUT").is_err() {
            let st = std::process::Command::new(real).args(&args[1..]).status().unwrap();
            std::process::exit(st.code().unwrap_or(1));
        }
    }
    if rustc_public::run!(&args, go).is_err() {
        std::process::exit(1);
    }
}
