//! MIR dumper: compiles one crate with the real compiler front end and writes the monomorphic MIR of every instance
//! which is reachable from the functions whose name starts with `probe_` as JSON.
//!
//! Environment:
//! * `MIRDUMP_OUT`: the file to write,
//! * `MIRDUMP_STOP`: file with one pattern per line; bodies of instances whose name matches are not dumped
//!   (the analyser models these functions), `=x` equals, `^x` starts with, otherwise contains.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate serde_json;

use rustc_middle::mir::ConstValue;
use rustc_middle::ty::{self as ity, TyCtxt, TypingEnv};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal::internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use serde_json::{json, Value};
use std::collections::HashMap;


struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Value>,
    ty_ids: HashMap<Ty, usize>,
    fns: HashMap<Instance, usize>,
    fn_list: Vec<Value>,
    work: Vec<(usize, Instance)>,
    stops: Vec<String>,
    /// functions which replace functions of std, by the path of the latter
    redirects: HashMap<String, FnDef>,
    files: HashMap<String, usize>,
    file_list: Vec<Value>,
}

impl<'tcx> Dump<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }

    fn stopped(&self, name: &str) -> bool {
        self.stops.iter().any(|s| {
            if let Some(x) = s.strip_prefix('=') {
                name == x
            } else if let Some(x) = s.strip_prefix('^') {
                name.starts_with(x)
            } else {
                name.contains(s.as_str())
            }
        })
    }

    fn ty(&mut self, ty: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&ty) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(Value::Null);
        self.ty_ids.insert(ty, id);
        let ity_ty = internal(self.tcx, ty);
        let size = self
            .tcx
            .layout_of(self.env().as_query_input(ity_ty))
            .ok()
            .map(|l| (l.size.bytes(), l.is_unsized() as u8, l.align.abi.bytes()));
        let needs_drop = ity_ty.needs_drop(self.tcx, self.env());
        let mut v = match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","bytes":i.num_bytes()}),
                RigidTy::Uint(i) => json!({"k":"uint","bytes":i.num_bytes()}),
                RigidTy::Float(_) => json!({"k":"float"}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    json!({"k":"array","elem":e,"len":n.eval_target_usize().ok()})
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    json!({"k":"slice","elem":e})
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    json!({"k":"ptr","to":e,"mut":m==Mutability::Mut})
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    json!({"k":"ref","to":e,"mut":m==Mutability::Mut})
                }
                RigidTy::Tuple(ts) => {
                    let f: Vec<usize> = ts.into_iter().map(|t| self.ty(t)).collect();
                    json!({"k":"tuple","fields":f})
                }
                RigidTy::FnDef(def, args) => {
                    let inst = Instance::resolve(def, &args).ok().map(|i| self.fun(i));
                    json!({"k":"fndef","name":def.name().to_string(),"fn":inst})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(def, _) => {
                    let ups: Vec<usize> = match ity_ty.kind() {
                        ity::TyKind::Closure(_, a) => a.as_closure().upvar_tys().iter().map(|t| rustc_public::rustc_internal::stable(t)).collect::<Vec<Ty>>(),
                        _ => vec![],
                    }
                    .into_iter()
                    .map(|t| self.ty(t))
                    .collect();
                    json!({"k":"closure","name":def.name().to_string(),"fields":ups})
                }
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                RigidTy::Adt(def, args) => {
                    let mut variants = vec![];
                    let is_enum = def.kind() == AdtKind::Enum;
                    for var in def.variants() {
                        let discr = if is_enum { Some(def.discriminant_for_variant(var.idx()).val.to_string()) } else { None };
                        let fields: Vec<Value> = var
                            .fields()
                            .iter()
                            .map(|f| {
                                let t = f.ty_with_args(&args);
                                let it = self.tcx.normalize_erasing_regions(self.env(), ity::Unnormalized::new_wip(internal(self.tcx, t)));
                                let t: Ty = rustc_public::rustc_internal::stable(it);
                                let t = self.ty(t);
                                json!([f.name.to_string(), t])
                            })
                            .collect();
                        variants.push(json!({"name":var.name().to_string(),"discr":discr,"fields":fields}));
                    }
                    let targs: Vec<Value> = args
                        .0
                        .iter()
                        .filter_map(|a| match a {
                            GenericArgKind::Type(t) => Some(json!(self.ty(*t))),
                            GenericArgKind::Const(c) => Some(json!({"const":c.eval_target_usize().ok()})),
                            GenericArgKind::Lifetime(_) => None,
                        })
                        .collect();
                    let kind = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    json!({"k":"adt","name":def.name().to_string(),"crate":def.krate().name.to_string(),"adt":kind,"variants":variants,"args":targs,"box":def.is_box()})
                }
                _ => json!({"k":"other"}),
            },
            _ => json!({"k":"nonrigid"}),
        };
        let o = v.as_object_mut().unwrap();
        o.insert("s".into(), json!(format!("{}", ity_ty)));
        if let Ok(l) = self.tcx.layout_of(self.env().as_query_input(ity_ty)) {
            let n = l.fields.count();
            if n < 64 && !matches!(ity_ty.kind(), ity::TyKind::Array(..)) {
                let offs: Vec<u64> = (0..n).map(|i| l.fields.offset(i).bytes()).collect();
                o.insert("offs".into(), json!(offs));
            }
        }
        if let Some((s, u, a)) = size {
            o.insert("size".into(), json!(s));
            o.insert("align".into(), json!(a));
            if u == 1 {
                o.insert("unsized".into(), json!(true));
            }
        }
        if needs_drop {
            let d = Instance::resolve_drop_in_place(ty);
            let d = self.fun(d);
            o.insert("drop".into(), json!(d));
        }
        self.types[id] = v;
        id
    }

    fn redirect(&self, inst: Instance) -> Instance {
        if self.redirects.is_empty() {
            return inst;
        }
        let did = internal(self.tcx, inst.def.def_id());
        if let Some(def) = self.redirects.get(&self.tcx.def_path_str(did)) {
            let types: Vec<GenericArgKind> = inst.args().0.iter().filter(|a| matches!(a, GenericArgKind::Type(_))).take(2).cloned().collect();
            if let Ok(i) = Instance::resolve(*def, &GenericArgs(types)) {
                return i;
            }
        }
        inst
    }

    fn fun(&mut self, inst: Instance) -> usize {
        let inst = self.redirect(inst);
        if let Some(i) = self.fns.get(&inst) {
            return *i;
        }
        let id = self.fn_list.len();
        self.fns.insert(inst, id);
        self.fn_list.push(Value::Null);
        self.work.push((id, inst));
        id
    }

    fn do_fun(&mut self, id: usize, inst: Instance) {
        let name = inst.name().to_string();
        let kind = match inst.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let krate = inst.def.krate().name.to_string();
        let def_name = inst.def.name().to_string();
        // generic arguments as types
        let args: Vec<Value> = inst
            .args()
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(json!(self.ty(*t))),
                GenericArgKind::Const(c) => Some(json!({"const":c.eval_target_usize().ok()})),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        // the trait method which is implemented
        let did = internal(self.tcx, inst.def.def_id());
        let mut trait_item = Value::Null;
        let mut self_ty = Value::Null;
        if let Some(assoc) = self.tcx.opt_associated_item(did) {
            if let Some(t) = assoc.trait_item_def_id() {
                trait_item = json!(self.tcx.def_path_str(t));
            } else if let Some(t) = self.tcx.trait_of_assoc(did) {
                let _ = t;
                trait_item = json!(self.tcx.def_path_str(did));
            }
            if let Some(imp) = self.tcx.impl_of_assoc(did) {
                self_ty = json!(format!("{}", self.tcx.type_of(imp).instantiate_identity().skip_normalization()));
            }
        }
        let path = self.tcx.def_path_str(did);
        let track = self.tcx.def_path(did).to_string_no_crate_verbose();
        let diverges = match inst.ty().kind().fn_sig() {
            Some(s) => s.skip_binder().output().kind().rigid() == Some(&RigidTy::Never),
            None => false,
        };
        let vis_unsafe = match inst.ty().kind().fn_sig() {
            Some(s) => s.skip_binder().safety == Safety::Unsafe,
            None => false,
        };
        let mut body = Value::Null;
        if kind != "virtual" && kind != "llvm" && !diverges && !self.stopped(&name) && !self.stopped(&path) {
            let skip_intrinsic = kind == "intrinsic";
            if !skip_intrinsic {
                let ok = match inst.kind {
                    InstanceKind::Shim => true,
                    _ => inst.has_body(),
                };
                if ok {
                    if let Some(b) = inst.body() {
                        body = self.body(&b);
                    }
                }
            } else if inst.has_body() {
                if let Some(b) = inst.body() {
                    body = self.body(&b);
                }
            }
        }
        self.fn_list[id] = json!({
            "name": name, "kind": kind, "crate": krate, "def": def_name, "path": path, "dpath": track, "args": args,
            "trait_item": trait_item, "self_ty": self_ty, "diverges": diverges, "unsafe": vis_unsafe,
            "intrinsic": inst.intrinsic_name().map(|s| s.to_string()), "body": body,
        });
    }

    fn span(&mut self, s: rustc_public::ty::Span) -> Value {
        let f = s.get_filename().to_string();
        let l = s.get_lines();
        let n = self.file_list.len();
        let i = *self.files.entry(f.clone()).or_insert(n);
        if i == n {
            self.file_list.push(json!(f));
        }
        json!([i, l.start_line])
    }

    fn body(&mut self, b: &Body) -> Value {
        let locals: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        let names: Vec<Value> = b
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => Some(json!([p.local, v.name.to_string()])),
                _ => None,
            })
            .collect();
        for bb in b.blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                if let Some(x) = self.stmt(s, b) {
                    let sp = self.span(s.source_info.span);
                    ss.push(json!([x, sp]));
                }
            }
            let t = self.term(&bb.terminator, b);
            let sp = self.span(bb.terminator.source_info.span);
            blocks.push(json!({"s":ss,"t":t,"sp":sp}));
        }
        let sp = self.span(b.span);
        json!({"locals":locals,"argc":b.arg_locals().len(),"spread":b.spread_arg(),"blocks":blocks,"names":names,"span":sp})
    }

    fn place(&mut self, p: &Place) -> Value {
        let proj: Vec<Value> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => json!(["d"]),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    json!(["f", i, t])
                }
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["ci", offset, min_length, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["sub", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["v", internal(self.tcx, *v).as_usize()]),
                ProjectionElem::OpaqueCast(t) => {
                    let t = self.ty(*t);
                    json!(["oc", t])
                }
            })
            .collect();
        json!([p.local, proj])
    }

    fn cval(&mut self, v: ConstValue, t: ity::Ty<'tcx>, depth: usize) -> Value {
        let tcx = self.tcx;
        let sty: Ty = rustc_public::rustc_internal::stable(t);
        let tid = self.ty(sty);
        let x = match t.kind() {
            ity::TyKind::Bool => v.try_to_bool().map(|b| json!({"bool":b})),
            ity::TyKind::Uint(_) | ity::TyKind::Char => self.bits(v, t).map(|b| json!({"int":b.to_string()})),
            ity::TyKind::Int(_) => self.bits(v, t).map(|b| {
                let size = tcx.layout_of(self.env().as_query_input(t)).unwrap().size;
                let s = size.sign_extend(b);
                json!({"int":s.to_string()})
            }),
            ity::TyKind::FnDef(..) => Some(json!({"zst":true})),
            ity::TyKind::Ref(_, inner, _) if inner.is_str() => Some(json!({"str":true})),
            ity::TyKind::Adt(..) | ity::TyKind::Tuple(..) | ity::TyKind::Array(..) if depth < 6 && !t.is_union() => {
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let f: Vec<Value> = d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                        Some(json!({"variant":d.variant.map(|v| v.as_usize()),"fields":f}))
                    }
                    None => None,
                }
            }
            ity::TyKind::Ref(_, inner, _) | ity::TyKind::RawPtr(inner, _) if depth < 6 => {
                let mut r = None;
                if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                    if inner.is_sized(tcx, self.env()) {
                        let (prov, off) = p.prov_and_relative_offset();
                        let aid = prov.alloc_id();
                        if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(_)) = tcx.try_get_global_alloc(aid) {
                            let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                            let iv = self.cval(iv, *inner, depth + 1);
                            r = Some(json!({"ref":iv}));
                        }
                    }
                } else if let ConstValue::Indirect { alloc_id, offset } = v {
                    // pointer stored in memory
                    if inner.is_sized(tcx, self.env()) {
                        if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                            let size = tcx.data_layout.pointer_size();
                            if let Ok(s) = a.inner().read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, size), true) {
                                if let rustc_middle::mir::interpret::Scalar::Ptr(..) = s {
                                    return self.cval(ConstValue::Scalar(s), t, depth + 1);
                                }
                            }
                        }
                    }
                } else if let Some(b) = v.try_to_bits_for_ty(tcx, self.env(), t) {
                    r = Some(json!({"addr":b.to_string()}));
                }
                r
            }
            _ => None,
        };
        let mut o = x.unwrap_or_else(|| json!({"opaque":format!("{:?}", v)}));
        if matches!(v, ConstValue::ZeroSized) && o.get("opaque").is_some() {
            o = json!({"zst":true});
        }
        o.as_object_mut().unwrap().insert("ty".into(), json!(tid));
        o
    }

    fn bits(&self, v: ConstValue, t: ity::Ty<'tcx>) -> Option<u128> {
        if let Some(b) = v.try_to_bits_for_ty(self.tcx, self.env(), t) {
            return Some(b);
        }
        if let ConstValue::Indirect { alloc_id, offset } = v {
            if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                let size = self.tcx.layout_of(self.env().as_query_input(t)).ok()?.size;
                let s = a.inner().read_scalar(&self.tcx, rustc_middle::mir::interpret::alloc_range(offset, size), false).ok()?;
                return s.to_bits(size).discard_err();
            }
        }
        None
    }

    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => {
                let p = self.place(p);
                json!(["c", p])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                json!(["m", p])
            }
            Operand::Constant(c) => {
                let ic = internal(self.tcx, &c.const_);
                let t = internal(self.tcx, c.const_.ty());
                match ic.eval(self.tcx, self.env(), rustc_span::DUMMY_SP) {
                    Ok(v) => {
                        let v = self.cval(v, t, 0);
                        json!(["k", v])
                    }
                    Err(_) => {
                        let tid = self.ty(c.const_.ty());
                        json!(["k", {"opaque":"err","ty":tid}])
                    }
                }
            }
            Operand::RuntimeChecks(r) => json!(["rc", format!("{:?}", r)]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::AddressOf(k, p) => {
                let p = self.place(p);
                json!(["addr", p, format!("{:?}", k)])
            }
            Rvalue::Ref(_, k, p) => {
                let p = self.place(p);
                let m = matches!(k, BorrowKind::Mut { .. });
                json!(["ref", p, m])
            }
            Rvalue::Reborrow(_, _, p) => {
                let p = self.place(p);
                json!(["use", ["c", p]])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<Value> = ops.iter().map(|o| self.operand(o)).collect();
                match k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        json!(["agg", "array", t, ops])
                    }
                    AggregateKind::Tuple => json!(["agg", "tuple", null, ops]),
                    AggregateKind::Adt(def, v, args, _, active) => {
                        let t = def.ty_with_args(args);
                        let t = self.ty(t);
                        json!(["agg", "adt", t, ops, internal(self.tcx, *v).as_usize(), active])
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::new_closure(*def, args.clone());
                        let t = self.ty(t);
                        json!(["agg", "closure", t, ops])
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        json!(["agg", "rawptr", t, ops])
                    }
                    _ => json!(["agg", "other", null, ops]),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let a = self.operand(a);
                let b = self.operand(b);
                json!(["bin", format!("{:?}", op), a, b])
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let a = self.operand(a);
                let b = self.operand(b);
                json!(["cbin", format!("{:?}", op), a, b])
            }
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o);
                let t = self.ty(*t);
                json!(["cast", format!("{:?}", k), o, t])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                json!(["use", ["c", p]])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(p);
                json!(["discr", p])
            }
            Rvalue::Len(p) => {
                let p = self.place(p);
                json!(["len", p])
            }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o);
                json!(["repeat", o, n.eval_target_usize().ok()])
            }
            Rvalue::ThreadLocalRef(_) => json!(["tls"]),
            Rvalue::UnaryOp(op, o) => {
                let o = self.operand(o);
                json!(["un", format!("{:?}", op), o])
            }
            Rvalue::Use(o, _) => {
                let o = self.operand(o);
                json!(["use", o])
            }
        }
    }

    fn stmt(&mut self, s: &Statement, _b: &Body) -> Option<Value> {
        match &s.kind {
            StatementKind::Assign(p, r) => {
                let p = self.place(p);
                let r = self.rvalue(r);
                Some(json!(["=", p, r]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(place);
                Some(json!(["setd", p, internal(self.tcx, *variant_index).as_usize()]))
            }
            StatementKind::StorageLive(l) => Some(json!(["live", l])),
            StatementKind::StorageDead(l) => Some(json!(["dead", l])),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                let o = self.operand(o);
                Some(json!(["assume", o]))
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let a = self.operand(&c.src);
                let b = self.operand(&c.dst);
                let n = self.operand(&c.count);
                Some(json!(["copynon", a, b, n]))
            }
            _ => None,
        }
    }

    fn unwind(&self, u: &UnwindAction) -> Value {
        match u {
            UnwindAction::Continue => json!("c"),
            UnwindAction::Unreachable => json!("u"),
            UnwindAction::Terminate => json!("t"),
            UnwindAction::Cleanup(b) => json!(b),
        }
    }

    fn term(&mut self, t: &Terminator, b: &Body) -> Value {
        match &t.kind {
            TerminatorKind::Goto { target } => json!(["goto", target]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.operand(discr);
                let br: Vec<Value> = targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                let dt = discr.ty(b.locals()).ok().map(|t| self.ty(t));
                json!(["switch", d, br, targets.otherwise(), dt])
            }
            TerminatorKind::Resume => json!(["resume"]),
            TerminatorKind::Abort => json!(["abort"]),
            TerminatorKind::Return => json!(["ret"]),
            TerminatorKind::Unreachable => json!(["unreachable"]),
            TerminatorKind::Drop { place, target, unwind } => {
                let ty = place.ty(b.locals()).unwrap();
                let ty = self.ty(ty);
                let p = self.place(place);
                json!(["drop", p, target, self.unwind(unwind), ty])
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let fty = func.ty(b.locals()).unwrap();
                let callee = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(def, a)) => match Instance::resolve(def, &a) {
                        Ok(i) => {
                            let id = self.fun(i);
                            json!(id)
                        }
                        Err(_) => json!({"unresolved": def.name().to_string()}),
                    },
                    _ => {
                        let o = self.operand(func);
                        json!({"dyn": o})
                    }
                };
                let args: Vec<Value> = args.iter().map(|a| self.operand(a)).collect();
                let p = self.place(destination);
                json!(["call", callee, args, p, target, self.unwind(unwind)])
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let c = self.operand(cond);
                let m = msg.description().unwrap_or("assert");
                json!(["assert", c, expected, m, target, self.unwind(unwind)])
            }
            TerminatorKind::InlineAsm { .. } => json!(["asm"]),
        }
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: the first argument is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let is_probe = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "probes");
    let out = std::env::var("MIRDUMP_OUT").ok();
    if !is_probe || out.is_none() {
        struct No;
        impl rustc_driver::Callbacks for No {}
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut No));
    }
    let out = out.unwrap();
    let stops: Vec<String> = std::env::var("MIRDUMP_STOP")
        .ok()
        .and_then(|f| std::fs::read_to_string(f).ok())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let res: Result<(), rustc_public::CompilerError<()>> = rustc_public::run_with_tcx!(&args, |tcx: TyCtxt<'_>| -> ControlFlow<(), ()> {
        let mut d = Dump {
            tcx,
            types: vec![],
            ty_ids: HashMap::new(),
            fns: HashMap::new(),
            fn_list: vec![],
            work: vec![],
            stops,
            redirects: HashMap::new(),
            files: HashMap::new(),
            file_list: vec![],
        };
        let mut probes = vec![];
        let mut models = vec![];
        for item in rustc_public::all_local_items() {
            if let Some((_, m)) = item.name().to_string().rsplit_once("model::") {
                let of = match m {
                    "collect_vec" => &[
                        "<std::vec::Vec<T> as std::vec::spec_from_iter::SpecFromIter<T, I>>::from_iter",
                        "<std::vec::Vec<T> as std::vec::spec_from_iter_nested::SpecFromIterNested<T, I>>::from_iter",
                    ][..],
                    "extend_vec" => &["<std::vec::Vec<T, A> as std::vec::spec_extend::SpecExtend<T, I>>::spec_extend"][..],
                    _ => &[][..],
                };
                if let TyKind::RigidTy(RigidTy::FnDef(def, _)) = item.ty().kind() {
                    for o in of {
                        d.redirects.insert(o.to_string(), def);
                    }
                }
            }
        }
        for item in rustc_public::all_local_items() {
            if !matches!(item.kind(), rustc_public::ItemKind::Fn) {
                continue;
            }
            let name = item.name().to_string();
            let last = name.rsplit("::").next().unwrap_or("").to_string();
            if !(last.starts_with("probe_") || last.starts_with("anchor_")) || item.requires_monomorphization() {
                continue;
            }
            let inst = match Instance::try_from(item) {
                Ok(i) => i,
                Err(_) => continue,
            };
            let id = d.fun(inst);
            if last.starts_with("probe_") {
                probes.push(json!([name, id]));
            } else {
                models.push(json!([name, id]));
            }
        }
        while let Some((id, inst)) = d.work.pop() {
            d.do_fun(id, inst);
        }
        let v = json!({"probes":probes,"anchors":models,"types":d.types,"fns":d.fn_list,"files":d.file_list});
        std::fs::write(&out, serde_json::to_string(&v).unwrap()).unwrap();
        ControlFlow::Continue(())
    });
    match res {
        Ok(()) => std::process::ExitCode::SUCCESS,
        Err(_) => std::process::ExitCode::FAILURE,
    }
}
