//! mirdump: a rustc driver that dumps the type-checked, resolved MIR of selected crates as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER. For the crates named in MIRDUMP_CRATES it writes
//! $MIRDUMP_OUT/<crate>[-<tag>].json after analysis; everything else compiles normally.
//!
//! What is dumped: every function, method and closure body of the crate (generic ones with
//! identity arguments), plus every instance reachable from them by resolved calls whose body
//! lives in the crate, in MIRDUMP_INLINE crates, or in a small set of core modules
//! (Option/Result combinators etc).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Upcast, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}
fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}"))))
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
    fns: Vec<String>,
    inline_crates: Vec<String>,
}

const CORE_INLINE: &[&str] = &[
    "core::option::", "core::result::", "core::ops::control_flow", "core::bool::",
    "core::convert::", "core::ops::function::",
];

impl<'tcx> Dumper<'tcx> {
    fn want_body(&self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let cn = self.tcx.crate_name(d.krate).to_string();
        if self.inline_crates.contains(&cn) { return self.tcx.is_mir_available(d); }
        if cn == "core" {
            let p = self.tcx.def_path(d).to_string_no_crate_verbose();
            let p = format!("core{p}");
            return CORE_INLINE.iter().any(|x| p.starts_with(x)) && self.tcx.is_mir_available(d);
        }
        false
    }

    fn inst_key(&self, i: Instance<'tcx>) -> String {
        let p = self.tcx.def_path(i.def_id()).to_string_no_crate_verbose();
        let cn = self.tcx.crate_name(i.def_id().krate);
        let a: Vec<String> = i.args.iter().map(|a| with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{a}"))))).collect();
        format!("{cn}{p}<{}>", a.join(","))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.type_ids.get(&t) { return i; }
        let id = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(t, id);
        let tcx = self.tcx;
        let s = esc(&tystr(t));
        let j = match *t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",\"s\":{s}}}"),
            ty::Char => format!("{{\"k\":\"char\",\"s\":{s}}}"),
            ty::Int(_) | ty::Uint(_) => {
                let (bits, signed) = match *t.kind() {
                    ty::Int(i) => (i.bit_width().unwrap_or(64), true),
                    ty::Uint(u) => (u.bit_width().unwrap_or(64), false),
                    _ => unreachable!(),
                };
                format!("{{\"k\":\"int\",\"s\":{s},\"bits\":{bits},\"signed\":{signed}}}")
            }
            ty::Float(f) => format!("{{\"k\":\"float\",\"s\":{s},\"bits\":{}}}", f.bit_width()),
            ty::Str => format!("{{\"k\":\"str\",\"s\":{s}}}"),
            ty::Never => format!("{{\"k\":\"never\",\"s\":{s}}}"),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"s\":{s},\"fields\":[{}]}}", v.join(","))
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                let e = self.ty(e);
                format!("{{\"k\":\"array\",\"s\":{s},\"elem\":{e},\"len\":{n}}}")
            }
            ty::Slice(e) => { let e = self.ty(e); format!("{{\"k\":\"slice\",\"s\":{s},\"elem\":{e}}}") }
            ty::Ref(_, e, m) => { let e = self.ty(e); format!("{{\"k\":\"ref\",\"s\":{s},\"to\":{e},\"mut\":{}}}", m.is_mut()) }
            ty::RawPtr(e, m) => { let e = self.ty(e); format!("{{\"k\":\"ptr\",\"s\":{s},\"to\":{e},\"mut\":{}}}", m.is_mut()) }
            ty::Adt(def, args) => {
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let p = esc(&path_of(tcx, def.did()));
                let cn = tcx.crate_name(def.did().krate).to_string();
                let expand = def.is_enum() || def.did().is_local() || self.inline_crates.contains(&cn)
                    || path_of(tcx, def.did()).starts_with("core::ops::range");
                let mut vs = Vec::new();
                if expand && !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                        let mut fs = Vec::new();
                        for f in &v.fields {
                            let fty = f.ty(tcx, args);
                            let env = TypingEnv::post_analysis(tcx, def.did());
                            let fty = if t.has_param() { fty.skip_norm_wip() } else { tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), fty).unwrap_or(fty.skip_norm_wip()) };
                            let _ = env;
                            let fid = self.ty(fty);
                            fs.push(format!("[{},{},{}]", esc(f.name.as_str()), fid, f.vis.is_public()));
                        }
                        vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}", esc(v.name.as_str()), discr, fs.join(",")));
                    }
                }
                let repr = def.repr();
                format!("{{\"k\":\"adt\",\"s\":{s},\"path\":{p},\"crate\":{},\"enum\":{},\"transparent\":{},\"expanded\":{},\"args\":[{}],\"variants\":[{}]}}",
                    esc(&cn), def.is_enum(), repr.transparent(), expand, a.join(","), vs.join(","))
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let inst = Instance::new_raw(d, args);
                format!("{{\"k\":\"closure\",\"s\":{s},\"key\":{},\"upvars\":[{}]}}", esc(&self.inst_key(inst)), ups.join(","))
            }
            ty::FnDef(d, _) => format!("{{\"k\":\"fndef\",\"s\":{s},\"path\":{}}}", esc(&path_of(tcx, d))),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{s}}}"),
            ty::Param(_) => format!("{{\"k\":\"param\",\"s\":{s}}}"),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{s}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        };
        self.types[id] = j;
        id
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let path = esc(&path_of(tcx, d));
        let tys: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let mut out = format!("{{\"path\":{path},\"args\":[{}]", tys.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(out, ",\"trait\":{}", esc(&path_of(tcx, tr)));
            let st = args.type_at(0);
            let _ = write!(out, ",\"self\":{}", self.ty(st));
        }
        let _ = write!(out, ",\"name\":{}", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && !tcx.fn_sig(d).skip_binder().safety().is_safe() { out.push_str(",\"unsafe\":true"); }
        if tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Variant, rustc_hir::def::CtorKind::Fn)
            || tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Struct, rustc_hir::def::CtorKind::Fn)
        {
            let ret = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().output().skip_binder();
            let rid = self.ty(ret);
            let parent = tcx.parent(d);
            let vi = if let ty::Adt(def, _) = ret.kind() {
                if def.is_enum() { def.variant_index_with_id(parent).as_usize() } else { 0 }
            } else { 0 };
            let _ = write!(out, ",\"ctor\":{vi},\"ctor_ty\":{rid}");
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, d, args)));
        match r {
            Ok(Ok(Some(inst))) => {
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(s) => match s {
                        ty::ShimKind::ClosureOnce { .. } => "closure_once",
                        ty::ShimKind::FnPtr(..) => "fnptr_shim",
                        ty::ShimKind::Clone(..) => "clone_shim",
                        ty::ShimKind::DropGlue(..) => "drop_glue",
                        _ => "shim",
                    },
                };
                let _ = write!(out, ",\"kind\":\"{kind}\",\"rpath\":{}", esc(&path_of(tcx, inst.def_id())));
                if let InstanceKind::Item(rd) = inst.def {
                    let key = self.inst_key(inst);
                    let has = self.want_body(rd) && !matches!(tcx.def_kind(rd), DefKind::Ctor(..)) && tcx.is_mir_available(rd);
                    let _ = write!(out, ",\"key\":{},\"has\":{has}", esc(&key));
                    if has { self.enqueue(inst, env); }
                }
                if let InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) = inst.def {
                    if let ty::Closure(cd, cargs) = *args.type_at(0).kind() {
                        let ci = Instance::new_raw(cd, cargs);
                        let _ = write!(out, ",\"key\":{},\"has\":true", esc(&self.inst_key(ci)));
                        self.enqueue(ci, env);
                    }
                }
            }
            Ok(Ok(None)) => out.push_str(",\"kind\":\"unresolved\""),
            _ => out.push_str(",\"kind\":\"error\""),
        }
        out.push('}');
        out
    }

    fn enqueue(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let k = self.inst_key(i);
        if self.seen.insert(k) { self.queue.push_back((i, env)); }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let tid = self.ty(t);
        if depth > 8 { return format!("{{\"c\":\"opaque\",\"ty\":{tid}}}"); }
        if let ty::FnDef(d, a) = *t.kind() { let a = a.skip_binder();
            let c = self.callee(d, a, env);
            return format!("{{\"c\":\"fn\",\"ty\":{tid},\"f\":{c}}}");
        }
        if let ty::Closure(d, a) = *t.kind() {
            let ci = Instance::new_raw(d, a);
            self.enqueue(ci, env);
        }
        match (v, t.kind()) {
            (ConstValue::Scalar(Scalar::Int(i)), ty::Int(_)) => return format!("{{\"c\":\"int\",\"ty\":{tid},\"v\":\"{}\"}}", i.to_int(i.size())),
            (ConstValue::Scalar(Scalar::Int(i)), ty::Uint(_)) => return format!("{{\"c\":\"int\",\"ty\":{tid},\"v\":\"{}\"}}", i.to_bits_unchecked()),
            (ConstValue::Scalar(Scalar::Int(i)), ty::Bool) => return format!("{{\"c\":\"bool\",\"ty\":{tid},\"v\":{}}}", i.to_bits_unchecked() != 0),
            (ConstValue::Scalar(Scalar::Int(i)), ty::Char) => return format!("{{\"c\":\"char\",\"ty\":{tid},\"v\":\"{}\"}}", i.to_bits_unchecked()),
            (ConstValue::Scalar(Scalar::Int(i)), ty::Float(_)) => return format!("{{\"c\":\"float\",\"ty\":{tid},\"v\":\"{}\"}}", i.to_bits_unchecked()),
            (ConstValue::Slice { alloc_id, meta }, ty::Ref(_, inner, _)) => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory().inner();
                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).to_vec();
                if inner.is_str() {
                    let n = meta as usize;
                    return format!("{{\"c\":\"str\",\"ty\":{tid},\"v\":{}}}", esc(&String::from_utf8_lossy(&bytes[..n])));
                }
                if let ty::Slice(e) = inner.kind() {
                    if *e == tcx.types.u8 {
                        let n = meta as usize;
                        let b: Vec<String> = bytes[..n].iter().map(|b| b.to_string()).collect();
                        return format!("{{\"c\":\"bytes\",\"ty\":{tid},\"v\":[{}]}}", b.join(","));
                    }
                }
            }
            (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Ref(_, inner, _)) | (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::RawPtr(inner, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Memory(_) => {
                        let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        let x = self.const_val(iv, *inner, env, depth + 1);
                        return format!("{{\"c\":\"ref\",\"ty\":{tid},\"v\":{x}}}");
                    }
                    GlobalAlloc::Static(d) => {
                        return format!("{{\"c\":\"static\",\"ty\":{tid},\"path\":{},\"mut\":{}}}", esc(&path_of(tcx, d)), tcx.is_mutable_static(d));
                    }
                    _ => {}
                }
            }
            (ConstValue::ZeroSized, _) => return format!("{{\"c\":\"zst\",\"ty\":{tid}}}"),
            (ConstValue::Indirect { alloc_id, offset }, _) => {
                // load references / scalars out of memory
                if let Ok(layout) = tcx.layout_of(env.as_query_input(t)) {
                    let a = tcx.global_alloc(alloc_id).unwrap_memory().inner();
                    match t.kind() {
                        ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) => {
                            if let Ok(s) = a.read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, layout.size), false) {
                                return self.const_val(ConstValue::Scalar(s), t, env, depth + 1);
                            }
                        }
                        ty::Ref(_, inner, _) => {
                            let ps = tcx.data_layout.pointer_size();
                            if let Ok(s) = a.read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, ps), true) {
                                if layout.size == ps {
                                    return self.const_val(ConstValue::Scalar(s), t, env, depth + 1);
                                }
                                if let (Scalar::Ptr(p, _), Ok(m)) = (s, a.read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset + ps, ps), false)) {
                                    let (prov, off) = p.prov_and_relative_offset();
                                    if let (GlobalAlloc::Memory(ma), Scalar::Int(mi)) = (tcx.global_alloc(prov.alloc_id()), m) {
                                        let n = mi.to_bits_unchecked() as usize;
                                        let o = off.bytes() as usize;
                                        let is_u8 = matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8);
                                        if inner.is_str() || is_u8 {
                                            let b = ma.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n).to_vec();
                                            if inner.is_str() {
                                                return format!("{{\"c\":\"str\",\"ty\":{tid},\"v\":{}}}", esc(&String::from_utf8_lossy(&b)));
                                            }
                                            let b: Vec<String> = b.iter().map(|b| b.to_string()).collect();
                                            return format!("{{\"c\":\"bytes\",\"ty\":{tid},\"v\":[{}]}}", b.join(","));
                                        }
                                    }
                                }
                            }
                            return format!("{{\"c\":\"opaque\",\"ty\":{tid}}}");
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        if matches!(t.kind(), ty::Adt(..) | ty::Array(..) | ty::Tuple(..)) {
            let ok = !t.has_param() && !matches!(t.kind(), ty::Adt(d, _) if d.is_union());
            if ok {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = Vec::new();
                    if d.fields.len() <= 256 {
                        for (fv, ft) in d.fields.iter() { fs.push(self.const_val(*fv, *ft, env, depth + 1)); }
                        let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                        return format!("{{\"c\":\"agg\",\"ty\":{tid},\"variant\":{vi},\"fields\":[{}]}}", fs.join(","));
                    }
                }
            }
        }
        format!("{{\"c\":\"opaque\",\"ty\":{tid}}}")
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let c2 = tcx.try_instantiate_and_normalize_erasing_regions(inst.args, env, ty::EarlyBinder::bind(tcx, c.const_)).unwrap_or(c.const_);
        let t = c2.ty();
        if let ty::FnDef(d, a) = *t.kind() { let a = a.skip_binder();
            let cal = self.callee(d, a, env);
            let tid = self.ty(t);
            return format!("{{\"c\":\"fn\",\"ty\":{tid},\"f\":{cal}}}");
        }
        let origin = if let Const::Unevaluated(u, _) = c2 {
            if u.promoted.is_none() { Some(path_of(tcx, u.def)) } else { None }
        } else { None };
        let v = match c2 {
            Const::Val(v, _) => Ok(v),
            _ => if c2.has_non_region_param() { Err(()) } else { c2.eval(tcx, env, c.span).map_err(|_| ()) },
        };
        let body = match v {
            Ok(v) => self.const_val(v, t, env, 0),
            Err(_) if matches!(c2, Const::Unevaluated(u, _) if u.promoted.is_some()) => {
                let Const::Unevaluated(u, _) = c2 else { unreachable!() };
                let tid = self.ty(t);
                let pb = &tcx.promoted_mir(u.def)[u.promoted.unwrap()];
                let mut ls = Vec::new();
                for l in pb.local_decls.iter() {
                    let t = self.mono(l.ty, inst, env);
                    ls.push(self.ty(t).to_string());
                }
                let bs = self.blocks(pb, inst, env);
                format!("{{\"c\":\"promoted\",\"ty\":{tid},\"locals\":[{}],\"blocks\":{bs}}}", ls.join(","))
            }
            Err(_) => {
                let tid = self.ty(t);
                format!("{{\"c\":\"generic\",\"ty\":{tid},\"s\":{}}}", esc(&with_no_trimmed_paths!(format!("{c2}"))))
            }
        };
        if let Some(o) = origin {
            format!("{},\"from\":{}}}", &body[..body.len() - 1], esc(&o))
        } else { body }
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let npt = pt.projection_ty(tcx, e);
            match e {
                ProjectionElem::Deref => out.push_str(",[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let ft = tcx.try_instantiate_and_normalize_erasing_regions(inst.args, env, ty::EarlyBinder::bind(tcx, npt.ty)).unwrap_or(npt.ty);
                    let tid = self.ty(ft);
                    let _ = write!(out, ",[\".\",{},{}]", f.as_usize(), tid);
                }
                ProjectionElem::Index(l) => { let _ = write!(out, ",[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(out, ",[\"c\",{offset},{min_length},{from_end}]"); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(out, ",[\"s\",{from},{to},{from_end}]"); }
                ProjectionElem::Downcast(_, v) => { let _ = write!(out, ",[\"v\",{}]", v.as_usize()); }
                _ => out.push_str(",[\"?\"]"),
            }
            pt = npt;
        }
        out.push(']');
        out
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, body, inst, env)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, body, inst, env)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c, inst, env)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }

    fn mono<T: rustc_middle::ty::TypeFoldable<TyCtxt<'tcx>> + Copy>(&self, v: T, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> T {
        self.tcx.try_instantiate_and_normalize_erasing_regions(inst.args, env, ty::EarlyBinder::bind(self.tcx, v)).unwrap_or(v)
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, body, inst, env)),
            Rvalue::Repeat(o, n) => {
                let n = self.mono(*n, inst, env);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{n}]", self.operand(o, body, inst, env))
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{m},{}]", self.place(p, body, inst, env))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"use\",[\"cp\",{}],{}]", self.place(p, body, inst, env), m.is_mut()),
            Rvalue::RawPtr(_, p) => format!("[\"addr\",{}]", self.place(p, body, inst, env)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&path_of(self.tcx, *d))),
            Rvalue::Cast(k, o, t) => {
                let t = self.mono(*t, inst, env);
                let ot = self.mono(o.ty(&body.local_decls, self.tcx), inst, env);
                let k = match k { CastKind::PointerCoercion(c, _) => format!("ptr:{c:?}"), k => format!("{k:?}") };
                format!("[\"cast\",{},{},{},{}]", esc(&k), self.operand(o, body, inst, env), self.ty(t), self.ty(ot))
            }
            Rvalue::BinaryOp(op, b) => {
                let t = self.mono(b.0.ty(&body.local_decls, self.tcx), inst, env);
                format!("[\"bin\",\"{op:?}\",{},{},{}]", self.operand(&b.0, body, inst, env), self.operand(&b.1, body, inst, env), self.ty(t))
            }
            Rvalue::UnaryOp(op, o) => {
                let t = self.mono(o.ty(&body.local_decls, self.tcx), inst, env);
                format!("[\"un\",\"{op:?}\",{},{}]", self.operand(o, body, inst, env), self.ty(t))
            }
            Rvalue::Discriminant(p) => {
                let t = self.mono(p.ty(&body.local_decls, self.tcx).ty, inst, env);
                format!("[\"discr\",{},{}]", self.place(p, body, inst, env), self.ty(t))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, body, inst, env)).collect();
                let os = os.join(",");
                let t = self.mono(r.ty(&body.local_decls, self.tcx), inst, env);
                let tid = self.ty(t);
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",{tid},0,[{os}]]"),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",{tid},0,[{os}]]"),
                    AggregateKind::Adt(_, v, _, _, active) => format!("[\"agg\",\"{}\",{tid},{},[{os}]]", if active.is_some() { "union" } else { "adt" }, v.as_usize()),
                    AggregateKind::Closure(..) => {
                        if let ty::Closure(cd, cargs) = *t.kind() {
                            self.enqueue(Instance::new_raw(cd, cargs), env);
                        }
                        format!("[\"agg\",\"closure\",{tid},0,[{os}]]")
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",{tid},0,[{os}]]"),
                    _ => format!("[\"agg\",\"other\",{tid},0,[{os}]]"),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, body, inst, env)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, body, inst, env)),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        format!("{f}:{}", loc.line)
    }

    fn blocks(&mut self, body: &Body<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut bs = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut ss = Vec::new();
            for s in &bb.statements {
                let ln = esc(&self.line(s.source_info.span));
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, body, inst, env);
                        let r = self.rvalue(&b.1, body, inst, env);
                        ss.push(format!("[\"=\",{p},{r},{ln}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body, inst, env);
                        ss.push(format!("[\"sd\",{p},{},{ln}]", variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => ss.push(format!("[\"intr\",{},{ln}]", esc(&format!("{i:?}")))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = esc(&self.line(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = self.mono(discr.ty(&body.local_decls, tcx), inst, env);
                    let d = self.operand(discr, body, inst, env);
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{v}\",{}]", b.as_usize())).collect();
                    format!("[\"switch\",{d},{},[{}],{},{ln}]", self.ty(dt), ts.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place, body, inst, env);
                    format!("[\"drop\",{p},{}]", target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, body, inst, env);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, body, inst, env)).collect();
                    let d = self.place(destination, body, inst, env);
                    let dt = self.mono(destination.ty(&body.local_decls, tcx).ty, inst, env);
                    let dt = self.ty(dt);
                    let at: Vec<String> = args.iter().map(|a| { let t = self.mono(a.node.ty(&body.local_decls, tcx), inst, env); self.ty(t).to_string() }).collect();
                    format!("[\"call\",{f},[{}],{d},{},{ln},{dt},[{}]]", a.join(","), target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), at.join(","))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, body, inst, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len, body, inst, env), self.operand(index, body, inst, env)),
                        AssertKind::Overflow(op, a, b) => {
                            let at = self.mono(a.ty(&body.local_decls, tcx), inst, env);
                            format!("[\"overflow\",\"{op:?}\",{},{},{}]", self.operand(a, body, inst, env), self.operand(b, body, inst, env), self.ty(at))
                        }
                        k => format!("[\"other\",{}]", esc(&format!("{k:?}"))),
                    };
                    format!("[\"assert\",{c},{expected},{m},{},{ln}]", target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                k => format!("[\"other\",{}]", esc(&format!("{k:?}"))),
            };
            bs.push(format!("{{\"s\":[{}],\"t\":{tj},\"cleanup\":{}}}", ss.join(","), bb.is_cleanup));
        }
        format!("[{}]", bs.join(","))
    }

    fn dump_fn(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let did = inst.def_id();
        if !tcx.is_mir_available(did) { return; }
        let body = tcx.instance_mir(inst.def);
        let mut o = String::new();
        let _ = write!(o, "{{\"key\":{},\"path\":{},\"local\":{},\"argc\":{},\"span\":{}", esc(&self.inst_key(inst)), esc(&path_of(tcx, did)), did.is_local(), body.arg_count, esc(&self.line(body.span)));
        let _ = write!(o, ",\"crate\":{}", esc(tcx.crate_name(did.krate).as_str()));
        let _ = write!(o, ",\"name\":{}", esc(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str()));
        let is_closure = matches!(tcx.def_kind(did), DefKind::Closure);
        let _ = write!(o, ",\"closure\":{is_closure},\"spread\":{}", body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()));
        let exp = body.span.from_expansion();
        let _ = write!(o, ",\"expanded\":{exp}");
        if is_closure {
            let _ = write!(o, ",\"parent\":{}", esc(&path_of(tcx, tcx.parent(did))));
        } else {
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                let _ = write!(o, ",\"pub\":{}", tcx.visibility(did).is_public());
                let sig = tcx.fn_sig(did).skip_binder();
                let _ = write!(o, ",\"unsafe\":{},\"sig\":{}", !sig.safety().is_safe(), esc(&with_no_trimmed_paths!(format!("{:?}", tcx.fn_sig(did).instantiate_identity().skip_norm_wip()))));
            }
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
                let _ = write!(o, ",\"impl_self\":{}", self.ty(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate(tcx, inst.args).skip_norm_wip();
                    let _ = write!(o, ",\"impl_trait\":{},\"impl_trait_full\":{}", esc(&path_of(tcx, tr.def_id)), esc(&with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", tr))))));
                }
            }
        }
        let ia: Vec<String> = inst.args.types().map(|x| self.ty(x).to_string()).collect();
        let _ = write!(o, ",\"iargs\":[{}]", ia.join(","));
        let mut ls = Vec::new();
        for l in body.local_decls.iter() {
            let t = self.mono(l.ty, inst, env);
            ls.push(self.ty(t).to_string());
        }
        let _ = write!(o, ",\"locals\":[{}]", ls.join(","));
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.push(format!("\"{}\":{}", p.local.as_usize(), esc(v.name.as_str()))); }
            }
        }
        let _ = write!(o, ",\"names\":{{{}}}", names.join(","));
        let bs = self.blocks(body, inst, env);
        let _ = write!(o, ",\"blocks\":{bs}}}");
        self.fns.push(o);
    }
}

struct UnsafeVisitor<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<(rustc_span::Span, DefId)> }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.out.push((b.span, b.hir_id.owner.to_def_id()));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb { outdir: String, inline: Vec<String>, tag: String }

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cn = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut d = Dumper { tcx, types: vec![], type_ids: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(), fns: vec![], inline_crates: self.inline.clone() };
        // roots
        for &ld in tcx.mir_keys(()) {
            let did = ld.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
            if !tcx.is_mir_available(did) { continue; }
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let env = TypingEnv::post_analysis(tcx, did);
            d.enqueue(Instance::new_raw(did, args), env);
        }
        while let Some((i, env)) = d.queue.pop_front() { d.dump_fn(i, env); }
        // items: ADTs with Send/Sync, statics, unsafe impls
        let mut items = Vec::new();
        let mut impls = Vec::new();
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let tid = d.ty(t);
                    let (mut send, mut sync) = ("null".to_string(), "null".to_string());
                    {
                        use rustc_infer::infer::TyCtxtInferExt;
                        use rustc_trait_selection::infer::InferCtxtExt;
                        // in the item's own environment plus "every type parameter is Send (Sync)"
                        for (what, out) in [("Send", &mut send), ("Sync", &mut sync)] {
                            let tr = if what == "Send" { tcx.get_diagnostic_item(rustc_span::sym::Send) } else { tcx.lang_items().sync_trait() };
                            if let Some(tr) = tr {
                                let base = TypingEnv::post_analysis(tcx, did);
                                let mut cl: Vec<ty::Clause<'tcx>> = base.param_env.caller_bounds().into_iter().collect();
                                for a in ty::GenericArgs::identity_for_item(tcx, did).types() {
                                    cl.push(ty::TraitRef::new(tcx, tr, [a]).upcast(tcx));
                                }
                                let (infcx, _) = tcx.infer_ctxt().build_with_typing_env(base);
                                let penv = ty::ParamEnv::new(tcx, tcx.mk_clauses(&cl));
                                let te = tcx.erase_and_anonymize_regions(t);
                                let r = infcx.type_implements_trait(tr, [te], penv);
                                *out = r.must_apply_modulo_regions().to_string();
                            }
                        }
                    }
                    let g = tcx.generics_of(did).count();
                    items.push(format!("{{\"kind\":\"adt\",\"path\":{},\"ty\":{tid},\"pub\":{},\"exported\":{},\"generics\":{g},\"send\":{send},\"sync\":{sync},\"span\":{}}}",
                        esc(&path_of(tcx, did)), tcx.visibility(did).is_public(),
                        tcx.effective_visibilities(()).is_reachable(id.owner_id.def_id), esc(&d.line(tcx.def_span(did)))));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let tid = d.ty(t);
                    items.push(format!("{{\"kind\":\"static\",\"path\":{},\"ty\":{tid},\"mut\":{},\"span\":{}}}", esc(&path_of(tcx, did)), mutability.is_mut(), esc(&d.line(tcx.def_span(did)))));
                }
                DefKind::Impl { of_trait } => {
                    if of_trait {
                        if let Some(h) = tcx.impl_opt_trait_ref(did) {
                            let tr = h.instantiate_identity().skip_norm_wip();
                            let st = d.ty(tr.self_ty());
                            let unsafe_ = tcx.impl_trait_header(did).safety.is_unsafe();
                            impls.push(format!("{{\"trait\":{},\"self\":{st},\"unsafe\":{unsafe_},\"full\":{},\"span\":{}}}", esc(&path_of(tcx, tr.def_id)), esc(&with_no_trimmed_paths!(format!("{tr}"))), esc(&d.line(tcx.def_span(did)))));
                        }
                    }
                }
                _ => {}
            }
        }
        while let Some((i, env)) = d.queue.pop_front() { d.dump_fn(i, env); }
        let mut uv = UnsafeVisitor { tcx, out: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut uv);
        let mut unsafes = Vec::new();
        for (sp, owner) in uv.out {
            // blocks written by macros of other crates (std, log, derives) are theirs
            let mut foreign = None;
            if sp.from_expansion() {
                let ed = sp.ctxt().outer_expn_data();
                foreign = ed.macro_def_id.map(|m| tcx.crate_name(m.krate).to_string());
            }
            unsafes.push(format!("{{\"fn\":{},\"span\":{},\"macro\":{}}}", esc(&path_of(tcx, owner)), esc(&d.line(sp)),
                foreign.map(|s| esc(&s)).unwrap_or("null".into())));
        }
        let out = format!("{{\"crate\":{},\"unsafes\":[{}],\"types\":[\n{}\n],\"fns\":[\n{}\n],\"items\":[\n{}\n],\"impls\":[\n{}\n]}}\n",
            esc(&cn), unsafes.join(","), d.types.join(",\n"), d.fns.join(",\n"), items.join(",\n"), impls.join(",\n"));
        let tag = if self.tag.is_empty() { String::new() } else { format!("-{}", self.tag) };
        let p = format!("{}/{cn}{tag}.json", self.outdir);
        std::fs::write(format!("{p}.tmp"), out).expect("write dump");
        std::fs::rename(format!("{p}.tmp"), &p).expect("rename dump");
        Compilation::Continue
    }
}
struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: mirdump <rustc path> <args...>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let wanted: Vec<String> = std::env::var("MIRDUMP_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let is_test = args.iter().any(|a| a == "--test");
    if wanted.contains(&krate) && !is_test {
        args.extend(["-Zmir-opt-level=0".into(), "-Coverflow-checks=on".into(), "-Zalways-encode-mir".into(), "-Cdebug-assertions=off".into()]);
        let mut cb = Cb {
            outdir: std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT"),
            inline: std::env::var("MIRDUMP_INLINE").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            tag: std::env::var("MIRDUMP_TAG").unwrap_or_default(),
        };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
