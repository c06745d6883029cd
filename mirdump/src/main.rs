//! mirdump: a rustc driver which compiles one crate exactly as cargo asks it to and, instead of
//! (only) generating code, writes the monomorphic MIR of every function of that crate as JSON.
//! Every call site carries the instance the compiler itself resolved (trait dispatch, operator
//! overloading, auto-deref, macros: all already elaborated by rustc).
//!
//! Usage: as RUSTC_WORKSPACE_WRAPPER; MIRDUMP_CRATE names the crate to dump, MIRDUMP_OUT the file.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate serde_json;

use rustc_public::abi::FieldsShape;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public::ItemKind;
use rustc_public::rustc_internal::internal;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty::TyCtxt;
use rustc_trait_selection::infer::InferCtxtExt;
use serde_json::{json, Map, Value};
use std::collections::{HashSet, VecDeque};
use rustc_public_bridge::IndexedVal;
use std::ops::ControlFlow;

struct Ctx {
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    types: Map<String, Value>,
    krate: String,
}

fn ty_name(t: &Ty) -> String {
    format!("{}", t)
}

impl Ctx {
    fn ty(&mut self, t: &Ty) -> String {
        let name = ty_name(t);
        if self.types.contains_key(&name) {
            return name;
        }
        self.types.insert(name.clone(), Value::Null);
        let v = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","bits":i.num_bytes()*8,"signed":true}),
                RigidTy::Uint(i) => json!({"k":"int","bits":i.num_bytes()*8,"signed":false}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Array(e, n) => {
                    json!({"k":"array","elem":self.ty(&e),"len":n.eval_target_usize().unwrap_or(0)})
                }
                RigidTy::Slice(e) => json!({"k":"slice","elem":self.ty(&e)}),
                RigidTy::RawPtr(e, _) => json!({"k":"ptr","to":self.ty(&e)}),
                RigidTy::Ref(_, e, m) => {
                    json!({"k":"ref","to":self.ty(&e),"mut":matches!(m, Mutability::Mut)})
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|x| self.ty(x)).collect();
                    json!({"k":"tuple","fields":v})
                }
                RigidTy::Adt(def, args) => {
                    let local = def.krate().name.as_str() == self.krate;
                    let mut vars = vec![];
                    let expand = local
                        || ["core::option::Option", "std::option::Option", "core::result::Result", "std::result::Result"]
                            .contains(&def.name().as_str());
                    if expand {
                        for (i, var) in def.variants_iter().enumerate() {
                            let fields: Vec<Value> = var
                                .fields()
                                .iter()
                                .map(|f| json!([f.name.as_str(), self.ty(&f.ty_with_args(&args))]))
                                .collect();
                            let d = if matches!(def.kind(), AdtKind::Enum) {
                                def.discriminant_for_variant(VariantIdx::to_val(i)).val.to_string()
                            } else {
                                "0".to_string()
                            };
                            vars.push(json!({"name":var.name().as_str(),"fields":fields,"discr":d}));
                        }
                    }
                    let targs: Vec<String> = args
                        .0
                        .iter()
                        .filter_map(|a| if let GenericArgKind::Type(t) = a { Some(self.ty(t)) } else { None })
                        .collect();
                    json!({"k":"adt","def":def.name().as_str(),"local":local,"enum":matches!(def.kind(),AdtKind::Enum),
                           "variants":vars,"args":targs})
                }
                RigidTy::FnDef(def, args) => {
                    let c = self.fndef(def, &args);
                    json!({"k":"fndef","fn":c})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(def, args) => {
                    let mut body = Value::Null;
                    if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
                        // the closure body itself (by-ref kinds resolve to the item)
                        let _ = i;
                    }
                    for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        if let Ok(i) = Instance::resolve_closure(def, &args, k) {
                            if i.kind == InstanceKind::Item && i.has_body() {
                                body = self.inst(&i);
                                break;
                            }
                        }
                    }
                    json!({"k":"closure","fn":body})
                }
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                _ => json!({"k":"other"}),
            },
            _ => json!({"k":"nonrigid"}),
        };
        self.types.insert(name.clone(), v);
        name
    }

    fn inst(&mut self, i: &Instance) -> Value {
        let local = i.def.def_id_local_to(&self.krate);
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let id = i.mangled_name().to_string();
        let targs: Vec<String> = i
            .args()
            .0
            .iter()
            .filter_map(|a| if let GenericArgKind::Type(t) = a { Some(self.ty(t)) } else { None })
            .collect();
        let wanted = local || wanted_external(i);
        if wanted && i.kind == InstanceKind::Item && !self.seen.contains(&id) && i.has_body() {
            self.seen.insert(id.clone());
            self.queue.push_back(*i);
        }
        json!({"id":id,"name":i.name().as_str(),"kind":kind,"local":local,"args":targs})
    }

    fn fndef(&mut self, def: FnDef, args: &GenericArgs) -> Value {
        match Instance::resolve(def, args) {
            Ok(i) => {
                let mut v = self.inst(&i);
                v["def"] = json!(def.name().as_str());
                v
            }
            Err(_) => json!({"id":null,"name":def.name().as_str(),"def":def.name().as_str(),"kind":"unresolved","local":false,"args":[]}),
        }
    }

    fn read_uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        a.read_partial_uint(off..off + n).ok()
    }

    fn constval(&mut self, ty: &Ty, a: &Allocation, off: usize, depth: usize) -> Value {
        let tn = self.ty(ty);
        if depth > 12 {
            return json!({"c":"opaque","ty":tn});
        }
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => match Self::read_uint(a, off, 1) {
                    Some(v) => json!({"c":"bool","v":v != 0}),
                    None => json!({"c":"opaque","ty":tn}),
                },
                RigidTy::Char => match Self::read_uint(a, off, 4) {
                    Some(v) => json!({"c":"int","ty":tn,"v":v.to_string()}),
                    None => json!({"c":"opaque","ty":tn}),
                },
                RigidTy::Uint(u) => match Self::read_uint(a, off, u.num_bytes()) {
                    Some(v) => json!({"c":"int","ty":tn,"v":v.to_string()}),
                    None => json!({"c":"opaque","ty":tn}),
                },
                RigidTy::Int(u) => {
                    let n = u.num_bytes();
                    match Self::read_uint(a, off, n) {
                        Some(v) => {
                            let sh = 128 - 8 * n as u32;
                            let s = ((v << sh) as i128) >> sh;
                            json!({"c":"int","ty":tn,"v":s.to_string()})
                        }
                        None => json!({"c":"opaque","ty":tn}),
                    }
                }
                RigidTy::FnDef(..) => json!({"c":"zst","ty":tn}),
                RigidTy::Tuple(ts) if ts.is_empty() => json!({"c":"zst","ty":tn}),
                RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    let Some(aid) = prov else { return json!({"c":"opaque","ty":tn}) };
                    let inner_off = Self::read_uint(a, off, 8).unwrap_or(0) as usize;
                    let mem: Option<Allocation> = match GlobalAlloc::from(aid) {
                        GlobalAlloc::Memory(m) => Some(m),
                        GlobalAlloc::Static(s) => s.eval_initializer().ok(),
                        _ => None,
                    };
                    let Some(mem) = mem else { return json!({"c":"opaque","ty":tn}) };
                    match inner.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = Self::read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let bytes: Vec<u8> =
                                mem.bytes[inner_off..inner_off + len].iter().map(|b| b.unwrap_or(0)).collect();
                            json!({"c":"ref","ty":tn,"v":{"c":"str","v":String::from_utf8_lossy(&bytes)}})
                        }
                        TyKind::RigidTy(RigidTy::Slice(e)) => {
                            let len = Self::read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let esz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let vs: Vec<Value> =
                                (0..len).map(|i| self.constval(&e, &mem, inner_off + i * esz, depth + 1)).collect();
                            json!({"c":"ref","ty":tn,"v":{"c":"arr","v":vs}})
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => json!({"c":"opaque","ty":tn}),
                        _ => {
                            let v = self.constval(&inner, &mem, inner_off, depth + 1);
                            json!({"c":"ref","ty":tn,"v":v})
                        }
                    }
                }
                RigidTy::Array(e, n) => {
                    let len = n.eval_target_usize().unwrap_or(0) as usize;
                    let esz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let vs: Vec<Value> = (0..len).map(|i| self.constval(&e, a, off + i * esz, depth + 1)).collect();
                    json!({"c":"arr","ty":tn,"v":vs})
                }
                RigidTy::Tuple(ts) => {
                    let sh = ty.layout().unwrap().shape();
                    if let FieldsShape::Arbitrary { offsets } = sh.fields {
                        let vs: Vec<Value> = ts
                            .iter()
                            .enumerate()
                            .map(|(i, t)| self.constval(t, a, off + offsets[i].bytes(), depth + 1))
                            .collect();
                        json!({"c":"tuple","ty":tn,"v":vs})
                    } else {
                        json!({"c":"opaque","ty":tn})
                    }
                }
                RigidTy::Adt(def, args) if matches!(def.kind(), AdtKind::Struct) && def.krate().name.as_str() == self.krate => {
                    let sh = ty.layout().unwrap().shape();
                    let var = def.variants_iter().next().unwrap();
                    let fields = var.fields();
                    match sh.fields {
                        FieldsShape::Arbitrary { offsets } => {
                            let vs: Vec<Value> = fields
                                .iter()
                                .enumerate()
                                .map(|(i, f)| {
                                    self.constval(&f.ty_with_args(&args), a, off + offsets[i].bytes(), depth + 1)
                                })
                                .collect();
                            json!({"c":"adt","ty":tn,"variant":0,"v":vs})
                        }
                        _ => json!({"c":"opaque","ty":tn}),
                    }
                }
                _ => {
                    let bytes: Vec<Option<u8>> = a.bytes.iter().copied().collect();
                    json!({"c":"opaque","ty":tn,"bytes":bytes})
                }
            },
            _ => json!({"c":"opaque","ty":tn}),
        }
    }

    fn mirconst(&mut self, c: &MirConst) -> Value {
        let ty = c.ty();
        let tn = self.ty(&ty);
        match c.kind() {
            ConstantKind::ZeroSized => json!({"c":"zst","ty":tn}),
            ConstantKind::Allocated(a) => {
                // constants of reference type to `str` etc. are stored as the pointer itself
                self.constval(&ty, a, 0, 0)
            }
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => json!({"c":"int","ty":tn,"v":v.to_string()}),
                Err(_) => json!({"c":"opaque","ty":tn}),
            },
            _ => json!({"c":"opaque","ty":tn}),
        }
    }

    fn place(&mut self, p: &Place) -> Value {
        let proj: Vec<Value> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => json!(["deref"]),
                ProjectionElem::Field(i, t) => json!(["field", i, self.ty(t)]),
                ProjectionElem::Index(l) => json!(["index", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["cindex", offset, min_length, from_end])
                }
                ProjectionElem::Subslice { from, to, from_end } => json!(["subslice", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["downcast", v.to_index()]),
                ProjectionElem::OpaqueCast(t) => json!(["ocast", self.ty(t)]),
            })
            .collect();
        json!([p.local, proj])
    }

    fn op(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["copy", self.place(p)]),
            Operand::Move(p) => json!(["move", self.place(p)]),
            Operand::Constant(c) => json!(["const", self.mirconst(&c.const_)]),
            Operand::RuntimeChecks(_) => json!(["const", {"c":"bool","v":true}]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::AddressOf(_, p) => json!(["addr", self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<Value> = ops.iter().map(|o| self.op(o)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => json!(["array", self.ty(t)]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(def, v, args, _, _) => {
                        let t = def.ty_with_args(args);
                        json!(["adt", self.ty(&t), v.to_index()])
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::new_closure(*def, args.clone());
                        json!(["closure", self.ty(&t)])
                    }
                    AggregateKind::RawPtr(t, _) => json!(["rawptr", self.ty(t)]),
                    _ => json!(["other"]),
                };
                json!(["aggr", kk, ops])
            }
            Rvalue::BinaryOp(b, x, y) => json!(["bin", format!("{:?}", b), self.op(x), self.op(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => json!(["cbin", format!("{:?}", b), self.op(x), self.op(y)]),
            Rvalue::Cast(k, o, t) => json!(["cast", format!("{:?}", k), self.op(o), self.ty(t)]),
            Rvalue::CopyForDeref(p) => json!(["use", ["copy", self.place(p)]]),
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Ref(_, b, p) => json!(["ref", matches!(b, BorrowKind::Mut { .. }), self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["repeat", self.op(o), n.eval_target_usize().unwrap_or(0)]),
            Rvalue::UnaryOp(u, o) => json!(["un", format!("{:?}", u), self.op(o)]),
            Rvalue::Use(o, _) => json!(["use", self.op(o)]),
            Rvalue::Reborrow(_, _, p) => json!(["use", ["copy", self.place(p)]]),
            Rvalue::ThreadLocalRef(_) => json!(["other"]),
        }
    }

    fn body(&mut self, b: &Body) -> Value {
        let locals: Vec<Value> = b.locals().iter().map(|l| json!(self.ty(&l.ty))).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut stmts = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        stmts.push(json!({"s":"assign","p":self.place(p),"r":self.rvalue(r),"l":line}))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => stmts.push(
                        json!({"s":"setdiscr","p":self.place(place),"v":variant_index.to_index(),"l":line}),
                    ),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        stmts.push(json!({"s":"unsupported","what":"copy_nonoverlapping","l":line}))
                    }
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let line = t.source_info.span.get_lines().start_line;
            let mut tv = match &t.kind {
                TerminatorKind::Goto { target } => json!({"t":"goto","target":target}),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<Value> = targets.branches().map(|(v, b)| json!([v.to_string(), b])).collect();
                    json!({"t":"switch","d":self.op(discr),"br":br,"other":targets.otherwise()})
                }
                TerminatorKind::Return => json!({"t":"return"}),
                TerminatorKind::Unreachable => json!({"t":"unreachable"}),
                TerminatorKind::Resume => json!({"t":"resume"}),
                TerminatorKind::Abort => json!({"t":"abort"}),
                TerminatorKind::Drop { target, place, .. } => {
                    json!({"t":"drop","target":target,"p":self.place(place)})
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<Value> = args.iter().map(|o| self.op(o)).collect();
                    let fty = func.ty(b.locals()).unwrap();
                    let f = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(def, ga)) => self.fndef(def, &ga),
                        _ => json!({"id":null,"name":"<indirect>","def":"<indirect>","kind":"indirect","local":false,"args":[],"op":self.op(func)}),
                    };
                    json!({"t":"call","f":f,"args":a,"dest":self.place(destination),"target":target})
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                        other => other.description().unwrap_or("assert").to_string(),
                    };
                    json!({"t":"assert","c":self.op(cond),"exp":expected,"msg":m,"target":target})
                }
                TerminatorKind::InlineAsm { .. } => json!({"t":"asm"}),
            };
            tv["l"] = json!(line);
            blocks.push(json!({"s":stmts,"t":tv}));
        }
        let dbg: Vec<Value> = b
            .var_debug_info
            .iter()
            .filter_map(|d| d.local().map(|l| json!([d.name.as_str(), l])))
            .collect();
        json!({"args":b.arg_locals().len(),"locals":locals,"blocks":blocks,"dbg":dbg,"spread":b.spread_arg()})
    }
}

/// small combinators of the standard library whose bodies are dumped as well, so that the verifier
/// follows the code the compiler uses instead of a hand-written description of it
fn wanted_external(i: &Instance) -> bool {
    let k = i.def.krate().name.to_string();
    if !(k == "core" || k == "alloc" || k == "std") {
        return false;
    }
    let n = i.name().to_string();
    if n.contains("fmt") || n.contains("panick") {
        return false;
    }
    const P: [&str; 16] = [
        "std::option::", "core::option::", "std::result::", "core::result::", "std::iter::", "core::iter::",
        "std::ops::", "core::ops::", "std::cmp::", "core::cmp::", "std::mem::", "core::mem::", "core::bool::",
        "std::convert::", "core::convert::", "core::num::<impl",
    ];
    let m = n.trim_start_matches('<').trim_start_matches('&');
    P.iter().any(|p| m.starts_with(p))
}

trait LocalTo {
    fn def_id_local_to(&self, k: &str) -> bool;
}
impl LocalTo for rustc_public::mir::mono::InstanceDef {
    fn def_id_local_to(&self, k: &str) -> bool {
        self.krate().name.as_str() == k
    }
}

/// does the compiler's trait solver establish the auto traits for a type
fn auto_traits(tcx: TyCtxt<'_>, t: Ty) -> Value {
    let ty = internal(tcx, t);
    let infcx = tcx.infer_ctxt().build(rustc_middle::ty::TypingMode::PostAnalysis);
    let env = rustc_middle::ty::ParamEnv::empty();
    let mut m = Map::new();
    for (n, d) in [
        ("Send", tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send"))),
        ("Sync", tcx.lang_items().sync_trait()),
    ] {
        if let Some(d) = d {
            m.insert(n.into(), json!(infcx.type_implements_trait(d, [ty], env).must_apply_modulo_regions()));
        }
    }
    Value::Object(m)
}

fn dump(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate().name.to_string();
    let mut cx = Ctx { queue: VecDeque::new(), seen: HashSet::new(), types: Map::new(), krate };
    let mut statics = Map::new();
    for item in rustc_public::all_local_items() {
        match item.kind() {
            ItemKind::Fn => {
                if !item.requires_monomorphization() {
                    if let Ok(i) = Instance::try_from(item) {
                        cx.inst(&i);
                    }
                }
            }
            ItemKind::Static => {
                let s = StaticDef::try_from(item);
                if let Ok(s) = s {
                    let ty = item.ty();
                    let v = match s.eval_initializer() {
                        Ok(a) => cx.constval(&ty, &a, 0, 0),
                        Err(_) => Value::Null,
                    };
                    statics.insert(s.name().to_string(), v);
                }
            }
            _ => {}
        }
    }
    // default methods of the crate's own traits, for every non-generic implementation that keeps them
    for im in rustc_public::local_crate().trait_impls() {
        if !im.generics_of().params.is_empty() {
            continue;
        }
        let t = im.trait_impl().value;
        if t.def_id.krate().name != cx.krate {
            continue;
        }
        for a in t.def_id.associated_items() {
            if matches!(a.kind, AssocKind::Fn { .. }) {
                let f = FnDef(a.def_id.def_id());
                if f.generics_of().params.is_empty() {
                    if let Ok(i) = Instance::resolve(f, t.args()) {
                        cx.inst(&i);
                    }
                }
            }
        }
    }
    let mut fns = Map::new();
    while let Some(i) = cx.queue.pop_front() {
        let Some(b) = i.body() else { continue };
        let mut v = cx.body(&b);
        let id = i.mangled_name().to_string();
        v["name"] = json!(i.name().as_str());
        let sp = b.span;
        v["file"] = json!(sp.get_filename().to_string());
        v["line"] = json!(sp.get_lines().start_line);
        v["end"] = json!(sp.get_lines().end_line);
        fns.insert(id, v);
    }
    let mut auto = Map::new();
    let mut unsafe_impls = vec![];
    for im in rustc_public::local_crate().trait_impls() {
        let t = im.trait_impl().value;
        let tn = t.def_id.name().to_string();
        if ["Send", "Sync"].iter().any(|x| tn.ends_with(&format!("marker::{x}"))) {
            unsafe_impls.push(json!([tn, format!("{}", t.self_ty())]));
        }
        if im.generics_of().params.is_empty() {
            let st = t.self_ty();
            if let TyKind::RigidTy(RigidTy::Adt(def, _)) = st.kind() {
                if def.krate().name.as_str() == cx.krate && !auto.contains_key(&ty_name(&st)) {
                    auto.insert(ty_name(&st), auto_traits(tcx, st));
                }
            }
        }
    }
    let out = json!({"crate":cx.krate,"auto":auto,"unsafe_impls":unsafe_impls,"fns":fns,"types":cx.types,"statics":statics});
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(path, serde_json::to_string(&out).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the real rustc.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = w[1].clone();
        }
    }
    if name == want {
        // no alignment / null checks on raw pointers: they are not part of the program's own logic
        args.push("-Zub-checks=no".to_string());
    }
    let ret = if name == want && args.iter().any(|a| a == "lib" || a == "--crate-type=lib") {
        match rustc_public::run_with_tcx!(&args, dump) {
            Ok(_) => 0,
            Err(_) => 1,
        }
    } else {
        match run!(&args, || ControlFlow::<(), ()>::Continue(())) {
            Ok(_) => 0,
            Err(rustc_public::CompilerError::Skipped) => 0,
            Err(_) => 1,
        }
    };
    std::process::exit(ret);
}
