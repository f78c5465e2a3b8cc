// MIR dump driver: writes, for every function of the analysed crate, the type-checked, resolved
// MIR (before drop elaboration and before the coroutine transform) as JSON, together with the
// resolved instances it reaches in the standard library (option/result/iterator adapters ...).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_type_ir;

use rustc_abi::VariantIdx;
use rustc_driver_impl::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ParamEnv, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::{sym, Span};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write;

mod json;
use json::J;

type Key<'tcx> = (Instance<'tcx>, ParamEnv<'tcx>);

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    bodies: HashMap<LocalDefId, Body<'tcx>>,
    types: HashMap<Ty<'tcx>, usize>,
    types_out: Vec<J>,
    types_env: Vec<(Ty<'tcx>, TypingEnv<'tcx>)>,
    adts: HashMap<DefId, ()>,
    adts_out: Vec<J>,
    insts: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<(Key<'tcx>, usize, usize)>,
    out: Vec<J>,
    max_depth: usize,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(tcx.def_path_str(d))))
}
fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(format!("{}", t))))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, s: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let l = sm.lookup_char_pos(s.lo());
        J::I(l.line as i128)
    }
    fn span_file(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let l = sm.lookup_char_pos(s.lo());
        format!("{}", l.file.name.prefer_local_unconditionally())
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        J::I(self.tyid(t, env) as i128)
    }
    fn args_j(&mut self, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t, env));
            } else if let Some(c) = a.as_const() {
                v.push(J::A(vec![J::s("const"), J::S(format!("{}", c))]));
            }
        }
        J::A(v)
    }
    fn tyid(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.types_out.len();
        self.types.insert(t, id);
        self.types_out.push(J::N);
        self.types_env.push((t, env));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::S(tystr(t)))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("p", J::S(path(self.tcx, def.did()))));
                let a = self.args_j(args, env);
                o.push(("a", a));
                self.adt(def.did());
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let a = self.ty(*inner, env);
                o.push(("a", J::A(vec![a])));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let a = self.ty(*inner, env);
                o.push(("a", J::A(vec![a])));
            }
            ty::Array(inner, n) => {
                o.push(("k", J::s("array")));
                let a = self.ty(*inner, env);
                o.push(("a", J::A(vec![a])));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("n", J::I(n as i128)));
                }
            }
            ty::Slice(inner) => {
                o.push(("k", J::s("slice")));
                let a = self.ty(*inner, env);
                o.push(("a", J::A(vec![a])));
            }
            ty::Tuple(l) => {
                o.push(("k", J::s("tuple")));
                let a = l.iter().map(|x| self.ty(x, env)).collect();
                o.push(("a", J::A(a)));
            }
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", J::s("prim")));
            }
            ty::Param(_) => o.push(("k", J::s("param"))),
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("p", J::S(path(self.tcx, *d))));
                let up: Vec<J> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x, env)).collect();
                o.push(("a", J::A(up)));
            }
            ty::Coroutine(d, args) => {
                o.push(("k", J::s("coroutine")));
                o.push(("p", J::S(path(self.tcx, *d))));
                let up: Vec<J> =
                    args.as_coroutine().upvar_tys().iter().map(|x| self.ty(x, env)).collect();
                o.push(("a", J::A(up)));
            }
            ty::FnDef(d, _) => {
                o.push(("k", J::s("fndef")));
                o.push(("p", J::S(path(self.tcx, *d))));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(preds, _) => {
                o.push(("k", J::s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("p", J::S(path(self.tcx, p))));
                }
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types_out[id] = J::O(o);
        id
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_some() {
            return;
        }
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        if def.is_enum() {
            let discrs: Vec<(VariantIdx, ty::util::Discr<'tcx>)> =
                def.discriminants(self.tcx).collect();
            for (i, dv) in discrs {
                let v = def.variant(i);
                vs.push(J::O(vec![
                    ("n", J::S(v.name.to_string())),
                    ("d", J::S(format!("{}", dv))),
                    ("v", J::I(discr_signed(dv.val, dv.ty, self.tcx))),
                    ("f", J::A(v.fields.iter().map(|f| J::S(f.name.to_string())).collect())),
                    ("t", J::A(v.fields.iter().map(|f| J::S(tystr(self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))).collect())),
                ]));
            }
        } else {
            for v in def.variants().iter() {
                vs.push(J::O(vec![
                    ("n", J::S(v.name.to_string())),
                    ("v", J::I(0)),
                    ("f", J::A(v.fields.iter().map(|f| J::S(f.name.to_string())).collect())),
                    ("t", J::A(v.fields.iter().map(|f| J::S(tystr(self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))).collect())),
                ]));
            }
        }
        self.adts_out.push(J::O(vec![
            ("p", J::S(path(self.tcx, d))),
            ("enum", J::B(def.is_enum())),
            ("variants", J::A(vs)),
        ]));
    }

    fn inst(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Option<usize> {
        use ty::TypeVisitableExt;
        let tcx = self.tcx;
        let did = i.def_id();
        let is_local_body = match i.def {
            InstanceKind::Item(d) => match d.as_local() {
                Some(l) => {
                    if !self.bodies.contains_key(&l) {
                        // tuple-struct / variant constructors have shim bodies
                        if !matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                            return None;
                        }
                    }
                    true
                }
                None => false,
            },
            _ => false,
        };
        if !is_local_body {
            match i.def {
                InstanceKind::Item(d) => {
                    if !tcx.is_mir_available(d) {
                        return None;
                    }
                    let p = path(tcx, d);
                    if !allowed_std(&p) {
                        return None;
                    }
                }
                InstanceKind::Shim(k) => match k {
                    ty::ShimKind::DropGlue(..) | ty::ShimKind::Clone(..) | ty::ShimKind::AsyncDropGlue(..)
                    | ty::ShimKind::AsyncDropGlueCtor(..) | ty::ShimKind::FutureDropPoll(..) => return None,
                    _ => {}
                },
                _ => return None,
            }
            if depth > self.max_depth {
                return None;
            }
        }
        let _ = did;
        let pe = if i.args.has_param() { env.param_env } else { ParamEnv::empty() };
        let key = (i, pe);
        if let Some(x) = self.insts.get(&key) {
            return Some(*x);
        }
        let id = self.out.len();
        self.out.push(J::N);
        self.insts.insert(key, id);
        self.queue.push_back((key, id, depth));
        Some(id)
    }

    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o: Vec<(&'static str, J)> = vec![("p", J::S(path(tcx, d)))];
        let a = self.args_j(args, env);
        o.push(("a", a));
        let mut kind = "item";
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(path(tcx, tr))));
            o.push(("m", J::S(tcx.item_name(d).to_string())));
            kind = "trait";
            if tcx.is_diagnostic_item(sym::Iterator, tr) {
                let name = tcx.item_name(d);
                if name.as_str() != "next" {
                    if let Some(self_ty) = args.types().next() {
                        if let Some(n) = self.next_inst(self_ty, env, depth) {
                            o.push(("next", n));
                        }
                    }
                }
            }
        }
        // for consumers of an `IntoIterator`, the `next` of the iterator they consume
        let full = path(tcx, d);
        if full.ends_with("Extend::extend") || full.ends_with("FromIterator::from_iter") {
            if let Some(last) = args.types().last() {
                if let Some(it) = self.into_iter_ty(last, env) {
                    if let Some(n) = self.next_inst(it, env, depth) {
                        o.push(("next", n));
                    }
                }
            }
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) => {
                match i.def {
                    InstanceKind::Virtual(..) => {
                        kind = "virtual";
                    }
                    InstanceKind::Intrinsic(_) => {
                        kind = "intrinsic";
                    }
                    _ => {
                        kind = "item";
                        let rp = path(tcx, i.def_id());
                        o.push(("rp", J::S(rp)));
                        if let InstanceKind::Shim(_) = i.def {
                            o.push(("shim", J::B(true)));
                        }
                        let ra = self.args_j(i.args, env);
                        o.push(("ra", ra));
                        if let Some(id) = self.inst(i, env, depth + 1) {
                            o.push(("i", J::I(id as i128)));
                        }
                    }
                }
            }
            _ => {}
        }
        o.push(("k", J::s(kind)));
        J::O(o)
    }

    fn into_iter_ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<Ty<'tcx>> {
        let tcx = self.tcx;
        let tr = tcx.get_diagnostic_item(sym::IntoIterator)?;
        let assoc = tcx
            .associated_items(tr)
            .in_definition_order()
            .find(|a| a.name().as_str() == "IntoIter")?;
        let proj = Ty::new_projection(tcx, ty::IsRigid::No, assoc.def_id, [t]);
        tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(proj)).ok()
    }

    fn iterator_next_of(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<J> {
        use rustc_middle::ty::TypeVisitableExt;
        match t.kind() {
            ty::Adt(..) | ty::Param(..) | ty::Alias(..) | ty::Dynamic(..) => {}
            ty::Ref(_, i, m) if m.is_mut() && !matches!(i.kind(), ty::Slice(_) | ty::Str) => {}
            _ => return None,
        }
        if t.has_escaping_bound_vars() || t.has_infer() {
            return None;
        }
        let tcx = self.tcx;
        let tr = tcx.get_diagnostic_item(sym::Iterator)?;
        let infcx = {
            use rustc_infer::infer::TyCtxtInferExt;
            tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis)
        };
        use rustc_trait_selection::infer::InferCtxtExt;
        if !infcx.type_implements_trait(tr, [t], env.param_env).must_apply_modulo_regions() {
            return None;
        }
        drop(infcx);
        self.next_inst(t, env, 0)
    }

    fn next_inst(&mut self, self_ty: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        let tr = tcx.get_diagnostic_item(sym::Iterator)?;
        let f = tcx
            .associated_items(tr)
            .in_definition_order()
            .find(|a| a.name().as_str() == "next")?;
        let args = tcx.mk_args(&[self_ty.into()]);
        if self_ty.is_trivially_pure_clone_copy() {
            return None;
        }
        Some(self.fnref(f.def_id, args, env, depth))
    }

    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(t, env);
                    J::A(vec![J::s("f"), J::I(i.as_usize() as i128), t])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("d"), J::I(v.as_usize() as i128)]),
                _ => J::A(vec![J::s("oc")]),
            });
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(v)])
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        match o {
            Operand::Copy(p) => {
                let p = self.place(p, env);
                J::A(vec![J::s("c"), p])
            }
            Operand::Move(p) => {
                let p = self.place(p, env);
                J::A(vec![J::s("m"), p])
            }
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty(), env);
                let v = self.konst(&c.const_, env, depth, c.span);
                J::A(vec![J::s("k"), t, v])
            }
            Operand::RuntimeChecks(_) => J::A(vec![J::s("rc")]),
        }
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>, depth: usize, span: Span) -> J {
        let t = c.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                let f = self.fnref(*d, args.skip_binder(), env, depth);
                return J::A(vec![J::s("fn"), f]);
            }
            ty::Closure(..) => return J::A(vec![J::s("zst")]),
            _ => {}
        }
        let name = match c {
            mir::Const::Unevaluated(u, _) => Some(path(self.tcx, u.def)),
            _ => None,
        };
        match c.eval(self.tcx, env, span) {
            Ok(v) => {
                let j = self.konst_val(v, t, env, 0);
                match (&name, c) {
                    (Some(n), mir::Const::Unevaluated(u, _)) if u.promoted.is_none() => {
                        J::A(vec![J::s("named"), J::S(n.clone()), j])
                    }
                    _ => j,
                }
            }
            Err(_) => J::A(vec![J::s("opaque"), J::S(format!("{}", c))]),
        }
    }

    /// the pointer stored at this place of an allocation
    fn read_ptr(
        &self,
        alloc_id: mir::interpret::AllocId,
        offset: rustc_abi::Size,
    ) -> Option<(mir::interpret::AllocId, rustc_abi::Size)> {
        let mem = match self.tcx.try_get_global_alloc(alloc_id) {
            Some(mir::interpret::GlobalAlloc::Memory(m)) => m,
            _ => return None,
        };
        let prov = mem.inner().provenance().get_ptr(offset)?;
        let b = self.read_alloc(alloc_id, offset.bytes_usize(), 8)?;
        let off = b.iter().rev().fold(0u64, |x, y| (x << 8) | *y as u64);
        Some((prov.alloc_id(), rustc_abi::Size::from_bytes(off)))
    }

    fn konst_val(&mut self, v: mir::ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, d: usize) -> J {
        let tcx = self.tcx;
        if d > 6 {
            return J::A(vec![J::s("opaque"), J::s("deep")]);
        }
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                if let Some(s) = v.try_to_scalar_int() {
                    let size = s.size();
                    let val = if matches!(t.kind(), ty::Int(_)) {
                        s.to_int(size)
                    } else {
                        s.to_uint(size) as i128
                    };
                    return J::A(vec![J::s("int"), J::I(val)]);
                }
                // read from memory
                if let mir::ConstValue::Indirect { alloc_id, offset } = v {
                    if let Some(b) = self.read_alloc(alloc_id, offset.bytes_usize(), tcx.layout_of(env.as_query_input(t)).map(|l| l.size.bytes_usize()).unwrap_or(0)) {
                        let mut x: u128 = 0;
                        for (i, y) in b.iter().enumerate() {
                            x |= (*y as u128) << (8 * i);
                        }
                        let val = if matches!(t.kind(), ty::Int(_)) && !b.is_empty() {
                            let sh = 128 - 8 * b.len() as u32;
                            ((x << sh) as i128) >> sh
                        } else {
                            x as i128
                        };
                        return J::A(vec![J::s("int"), J::I(val)]);
                    }
                }
                J::A(vec![J::s("opaque"), J::s("int")])
            }
            ty::Float(_) => J::A(vec![J::s("float"), J::S(format!("{:?}", v))]),
            ty::Ref(_, inner, _) => {
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let is_bytes = matches!(inner.kind(), ty::Str)
                            || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8);
                        if is_bytes {
                            if let mir::ConstValue::Slice { alloc_id, meta } = v {
                                if let Some(b) = self.read_alloc(alloc_id, 0, meta as usize) {
                                    return J::A(vec![
                                        J::s("str"),
                                        J::S(b.iter().map(|c| *c as char).collect::<String>()),
                                    ]);
                                }
                            }
                            if let mir::ConstValue::Indirect { alloc_id, offset } = v {
                                if let (Some((a, o)), Some(n)) = (
                                    self.read_ptr(alloc_id, offset),
                                    self.read_alloc(alloc_id, offset.bytes_usize() + 8, 8),
                                ) {
                                    let n = n.iter().rev().fold(0usize, |x, y| (x << 8) | *y as usize);
                                    if n < 1 << 20 {
                                        if let Some(b) = self.read_alloc(a, o.bytes_usize(), n) {
                                            return J::A(vec![
                                                J::s("str"),
                                                J::S(b.iter().map(|c| *c as char).collect::<String>()),
                                            ]);
                                        }
                                    }
                                }
                            }
                        }
                        return J::A(vec![J::s("opaque"), J::s("slice")]);
                    }
                    ty::Dynamic(..) => return J::A(vec![J::s("opaque"), J::s("dyn")]),
                    _ => {}
                }
                let ptr = match v {
                    mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        Some((prov.alloc_id(), off))
                    }
                    mir::ConstValue::Indirect { alloc_id, offset } => self.read_ptr(alloc_id, offset),
                    _ => None,
                };
                if let Some((alloc_id, off)) = ptr {
                    if let Some(mir::interpret::GlobalAlloc::Memory(_)) =
                        tcx.try_get_global_alloc(alloc_id)
                    {
                        let j = self.konst_val(
                            mir::ConstValue::Indirect { alloc_id, offset: off },
                            *inner,
                            env,
                            d + 1,
                        );
                        return J::A(vec![J::s("ref"), j]);
                    }
                    if let Some(mir::interpret::GlobalAlloc::Static(sd)) =
                        tcx.try_get_global_alloc(alloc_id)
                    {
                        return J::A(vec![J::s("static"), J::S(path(tcx, sd))]);
                    }
                }
                J::A(vec![J::s("opaque"), J::s("ref")])
            }
            ty::Adt(def, _) if def.is_union() => J::A(vec![J::s("opaque"), J::s("union")]),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Array(e, n) = t.kind() {
                    if *e == tcx.types.u8 {
                        if let (mir::ConstValue::Indirect { alloc_id, offset }, Some(n)) =
                            (v, n.try_to_target_usize(tcx))
                        {
                            if let Some(b) = self.read_alloc(alloc_id, offset.bytes_usize(), n as usize) {
                                return J::A(vec![
                                    J::s("bytes"),
                                    J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
                                ]);
                            }
                        }
                    }
                    if let Some(n) = n.try_to_target_usize(tcx) {
                        if n > 512 {
                            return J::A(vec![J::s("opaque"), J::s("bigarray")]);
                        }
                    }
                }
                use ty::TypeVisitableExt;
                if t.has_param() {
                    return J::A(vec![J::s("opaque"), J::s("param")]);
                }
                let zs = matches!(v, mir::ConstValue::ZeroSized);
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(ds) => {
                        let variant = ds.variant.map(|x| x.as_usize()).unwrap_or(0);
                        let f: Vec<J> =
                            ds.fields.iter().map(|(fv, ft)| self.konst_val(*fv, *ft, env, d + 1)).collect();
                        J::A(vec![J::s("agg"), J::I(variant as i128), J::A(f)])
                    }
                    None => J::A(vec![if zs { J::s("zst") } else { J::s("opaque") }, J::s("adt")]),
                }
            }
            _ => {
                if let mir::ConstValue::ZeroSized = v {
                    return J::A(vec![J::s("zst")]);
                }
                J::A(vec![J::s("opaque"), J::S(format!("{:?}", t.kind()))])
            }
        }
    }

    fn read_alloc(&self, id: mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            mir::interpret::GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + len > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        match r {
            Rvalue::Use(o, _) => {
                let o = self.operand(o, env, depth);
                J::A(vec![J::s("use"), o])
            }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o, env, depth);
                let n = match n.try_to_target_usize(self.tcx) {
                    Some(n) => J::I(n as i128),
                    None => J::S(format!("{}", n)),
                };
                J::A(vec![J::s("repeat"), o, n])
            }
            Rvalue::Ref(_, k, p) => {
                let p = self.place(p, env);
                J::A(vec![J::s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), p])
            }
            Rvalue::RawPtr(_, p) => {
                let p = self.place(p, env);
                J::A(vec![J::s("ref"), J::B(true), p])
            }
            Rvalue::Reborrow(_, _, p) => {
                let p = self.place(p, env);
                J::A(vec![J::s("use"), J::A(vec![J::s("c"), p])])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p, env);
                J::A(vec![J::s("use"), J::A(vec![J::s("c"), p])])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::S(path(self.tcx, *d))]),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, env, depth);
                let t = self.ty(*t, env);
                J::A(vec![J::s("cast"), J::S(format!("{:?}", k)), o, t])
            }
            Rvalue::BinaryOp(op, b) => {
                let x = self.operand(&b.0, env, depth);
                let y = self.operand(&b.1, env, depth);
                J::A(vec![J::s("bin"), J::S(format!("{:?}", op)), x, y])
            }
            Rvalue::UnaryOp(op, x) => {
                let x = self.operand(x, env, depth);
                J::A(vec![J::s("un"), J::S(format!("{:?}", op)), x])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(p, env);
                J::A(vec![J::s("discr"), p])
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o, env, depth)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t, env);
                        J::A(vec![J::s("array"), t])
                    }
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        self.adt(*d);
                        let mut a =
                            vec![J::s("adt"), J::S(path(self.tcx, *d)), J::I(v.as_usize() as i128)];
                        if let Some(f) = f {
                            a.push(J::I(f.as_usize() as i128));
                        }
                        J::A(a)
                    }
                    AggregateKind::Closure(d, args) => {
                        if d.is_local() {
                            self.inst(Instance::new_raw(*d, args), env, depth + 1);
                        }
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(t, env);
                        J::A(vec![J::s("closure"), J::S(path(self.tcx, *d)), t])
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let t = Ty::new_coroutine(self.tcx, *d, args);
                        let t = self.ty(t, env);
                        J::A(vec![J::s("coroutine"), J::S(path(self.tcx, *d)), t])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), k, J::A(ops)])
            }
            _ => J::A(vec![J::s("opaque"), J::S(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, key: Key<'tcx>, id: usize, depth: usize) {
        let (inst, pe) = key;
        let tcx = self.tcx;
        let env = if pe.is_empty() {
            TypingEnv::fully_monomorphized()
        } else {
            TypingEnv::new(pe, ty::TypingMode::PostAnalysis)
        };
        let mut pre_coroutine = false;
        let raw: Body<'tcx> = match inst.def {
            InstanceKind::Item(d) => match d.as_local().and_then(|l| self.bodies.get(&l)) {
                Some(b) => {
                    pre_coroutine = b.coroutine.is_some();
                    b.clone()
                }
                None => tcx.instance_mir(inst.def).clone(),
            },
            _ => tcx.instance_mir(inst.def).clone(),
        };
        let raw = tcx.erase_and_anonymize_regions(raw);
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            EarlyBinder::bind(tcx, raw),
        ) {
            Ok(b) => b,
            Err(e) => {
                self.out[id] = J::O(vec![
                    ("id", J::I(id as i128)),
                    ("p", J::S(path(tcx, inst.def_id()))),
                    ("err", J::S(format!("{:?}", e))),
                ]);
                return;
            }
        };
        let d = inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![("id", J::I(id as i128))];
        o.push(("p", J::S(path(tcx, d))));
        o.push(("local", J::B(d.is_local() )));
        if let InstanceKind::Shim(s) = inst.def {
            let s = format!("{:?}", s);
            o.push(("shim", J::S(s.split('(').next().unwrap().split(' ').next().unwrap().to_string())));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) { o.push(("ctor", J::B(true))); }
        let a = self.args_j(inst.args, env);
        o.push(("a", a));
        o.push(("identity", J::B({
            let id = ty::GenericArgs::identity_for_item(tcx, d);
            inst.args.len() == id.len() && inst.args.iter().zip(id.iter()).all(|(a, b)| a == b || (a.as_region().is_some() && b.as_region().is_some()))
        })));
        o.push(("cor", J::B(pre_coroutine)));
        o.push(("argc", J::I(body.arg_count as i128)));
        if let Some(s) = body.spread_arg { o.push(("spread", J::I(s.as_usize() as i128))); }
        o.push(("file", J::S(self.span_file(body.span))));
        o.push(("line", self.span(body.span)));
        let tys: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty, env)).collect();
        o.push(("tys", J::A(tys)));
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p, env);
                names.push(J::A(vec![J::S(v.name.to_string()), pj]));
            }
        }
        o.push(("names", J::A(names)));
        let mut blocks = vec![];
        for (_bi, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                let line = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0, env);
                        let r = self.rvalue(&x.1, env, depth);
                        st.push(J::A(vec![J::s("="), p, r, line]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, env);
                        st.push(J::A(vec![J::s("sd"), p, J::I(variant_index.as_usize() as i128), line]));
                    }
                    StatementKind::Intrinsic(i) => {
                        let i = format!("{:?}", i);
                        st.push(J::A(vec![J::s("intr"), J::S(i), J::N, line]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![J::s("dead"), J::I(l.as_usize() as i128), J::N, line]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let line = self.span(t.source_info.span);
            let bb = |x: BasicBlock| J::I(x.as_usize() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), bb(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dj = self.operand(discr, env, depth);
                    let mut m = vec![];
                    for (v, tg) in targets.iter() {
                        m.push(J::A(vec![J::I(discr_signed(v, dt, tcx)), bb(tg)]));
                    }
                    let tyj = self.ty(dt, env);
                    J::A(vec![J::s("switch"), dj, J::A(m), bb(targets.otherwise()), tyj])
                }
                TerminatorKind::Return => J::A(vec![J::s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreach")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![J::s("unwind")])
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place, env);
                    J::A(vec![J::s("drop"), p, bb(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env, depth);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env, depth)).collect();
                    let dst = self.place(destination, env);
                    let tg = match target {
                        Some(x) => bb(*x),
                        None => J::N,
                    };
                    J::A(vec![J::s("call"), f, J::A(a), dst, tg])
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.operand(func, env, depth);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env, depth)).collect();
                    J::A(vec![J::s("tailcall"), f, J::A(a)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env, depth);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(len, env, depth);
                            let i = self.operand(index, env, depth);
                            J::A(vec![J::s("bounds"), l, i])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            let l = self.operand(a, env, depth);
                            let i = self.operand(b, env, depth);
                            J::A(vec![J::s("overflow"), J::S(format!("{:?}", op)), l, i])
                        }
                        AssertKind::OverflowNeg(a) => {
                            let l = self.operand(a, env, depth);
                            J::A(vec![J::s("negoverflow"), l])
                        }
                        AssertKind::DivisionByZero(a) => {
                            let l = self.operand(a, env, depth);
                            J::A(vec![J::s("div0"), l])
                        }
                        AssertKind::RemainderByZero(a) => {
                            let l = self.operand(a, env, depth);
                            J::A(vec![J::s("rem0"), l])
                        }
                        _ => J::A(vec![J::s("other")]),
                    };
                    J::A(vec![J::s("assert"), c, J::B(*expected), m, bb(*target)])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.operand(value, env, depth);
                    let ra = self.place(resume_arg, env);
                    J::A(vec![J::s("yield"), v, bb(*resume), ra])
                }
                TerminatorKind::CoroutineDrop => J::A(vec![J::s("unwind")]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), bb(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), bb(*real_target)]),
                TerminatorKind::InlineAsm { .. } => J::A(vec![J::s("asm")]),
            };
            blocks.push(J::A(vec![J::A(st), tj, line, J::B(b.is_cleanup)]));
        }
        o.push(("b", J::A(blocks)));
        self.out[id] = J::O(o);
    }
}

fn discr_signed<'tcx>(v: u128, t: Ty<'tcx>, tcx: TyCtxt<'tcx>) -> i128 {
    match t.kind() {
        ty::Int(i) => {
            let bits = i.bit_width().unwrap_or(tcx.data_layout.pointer_size().bits()) as u32;
            let sh = 128 - bits;
            ((v << sh) as i128) >> sh
        }
        _ => v as i128,
    }
}

fn allowed_std(p: &str) -> bool {
    // iterator adapters and consumers, formatting and hashing are modelled by the analyser
    for x in ["core::iter::", "core::hash::", "core::fmt::", "hashbrown", "std::hash", "std::collections", "alloc::vec", "alloc::collections"] {
        if p.contains(x) && !p.contains("core::ops::index") && !p.contains("core::ops::deref") {
            return false;
        }
    }
    const OK: &[&str] = &[
        "core::option::",
        "core::result::",
        "core::ops::",
        "core::convert::",
        "core::cmp::",
        "core::bool::",
        "core::task::",
        "core::future::",
        "core::pin::",
        "core::borrow::",
        "core::mem::",
        "core::num::",
        "core::array::",
        "alloc::boxed::",
        "alloc::borrow::",
        "streaming_decompression::",
    ];
    let q = p.trim_start_matches('<');
    OK.iter().any(|x| q.starts_with(x)) || p.contains(" as core::ops::") || p.contains(" as core::convert::")
        || p.contains(" as core::cmp::") || p.contains(" as core::default::")
        || p.contains("streaming_decompression::")
        || p.starts_with("core::bool") || p.starts_with("bool::")
}

struct Cb {
    out: String,
}

impl rustc_driver_impl::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies = HashMap::new();
        for k in tcx.mir_keys(()).iter() {
            if matches!(tcx.def_kind(k.to_def_id()), DefKind::Ctor(..)) {
                continue;
            }
            let (b, _) = tcx.mir_promoted(*k);
            let body = if !b.is_stolen() {
                b.borrow().clone()
            } else if matches!(tcx.def_kind(k.to_def_id()), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                let b = tcx.mir_drops_elaborated_and_const_checked(*k);
                if b.is_stolen() { tcx.optimized_mir(k.to_def_id()).clone() } else { b.borrow().clone() }
            } else {
                continue;
            };
            bodies.insert(*k, body);
        }
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Stop;
        }
        let mut cx = Cx {
            tcx,
            bodies,
            types: HashMap::new(),
            types_out: vec![],
            types_env: vec![],
            adts: HashMap::new(),
            adts_out: vec![],
            insts: HashMap::new(),
            queue: VecDeque::new(),
            out: vec![],
            max_depth: 24,
        };
        let mut keys: Vec<LocalDefId> = cx.bodies.keys().copied().collect();
        keys.sort_by_key(|k| k.local_def_index.as_u32());
        let mut roots = vec![];
        let mut fns = vec![];
        let ev = tcx.effective_visibilities(());
        for k in &keys {
            let d = k.to_def_id();
            let kind = tcx.def_kind(d);
            let is_closure = matches!(kind, DefKind::Closure | DefKind::SyntheticCoroutineBody);
            let mut o: Vec<(&'static str, J)> = vec![("p", J::S(path(tcx, d)))];
            o.push(("kind", J::S(format!("{:?}", kind))));
            o.push(("file", J::S(cx.span_file(tcx.def_span(d)))));
            o.push(("line", cx.span(tcx.def_span(d))));
            o.push(("pub", J::B(ev.is_reachable(*k))));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("unsafe", J::B(!tcx.fn_sig(d).skip_binder().safety().is_safe())));
                if let Some(im) = tcx.impl_of_assoc(d) {
                    o.push(("impl_self", J::S(tystr(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        o.push(("impl_trait", J::S(with_no_trimmed_paths!(with_resolve_crate_name!(format!("{}", tr.instantiate_identity().skip_norm_wip()))))));
                        o.push(("impl_trait_p", J::S(path(tcx, tr.skip_binder().def_id))));
                    }
                    o.push(("name", J::S(tcx.item_name(d).to_string())));
                }
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) || is_closure {
                let env = TypingEnv::post_analysis(tcx, d);
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                let args = tcx.erase_and_anonymize_regions(args);
                let i = Instance::new_raw(d, args);
                // closures are dumped from their own identity environment too (for who-may-call rules)
                if let Some(id) = cx.inst(i, env, 0) {
                    o.push(("i", J::I(id as i128)));
                    roots.push(J::I(id as i128));
                }
            }
            fns.push(J::O(o));
        }
        let mut iter_next: Vec<J> = vec![];
        let mut done_types = 0usize;
        loop {
            while let Some((k, id, depth)) = cx.queue.pop_front() {
                cx.body(k, id, depth);
            }
            if done_types >= cx.types_env.len() {
                break;
            }
            // the `Iterator::next` of every iterator type that occurs
            let (t, env) = cx.types_env[done_types];
            done_types += 1;
            if let Some(n) = cx.iterator_next_of(t, env) {
                iter_next.push(J::A(vec![J::I((done_types - 1) as i128), n]));
            }
        }
        // impls of local traits and statics
        let mut impls = vec![];
        let mut statics = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(d.to_def_id()) {
                DefKind::Impl { .. } => {
                    let did = d.to_def_id();
                    let self_ty = tystr(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                    let (tr, trp) = match tcx.impl_opt_trait_ref(did) {
                        Some(t) => (
                            with_no_trimmed_paths!(with_resolve_crate_name!(format!("{}", t.instantiate_identity().skip_norm_wip()))),
                            path(tcx, t.skip_binder().def_id),
                        ),
                        None => (String::new(), String::new()),
                    };
                    let items: Vec<J> = tcx
                        .associated_item_def_ids(did)
                        .iter()
                        .map(|x| J::A(vec![J::S(tcx.opt_item_name(*x).map(|s| s.to_string()).unwrap_or_default()), J::S(path(tcx, *x))]))
                        .collect();
                    impls.push(J::O(vec![
                        ("self", J::S(self_ty)),
                        ("trait", J::S(tr)),
                        ("trait_p", J::S(trp)),
                        ("items", J::A(items)),
                    ]));
                }
                DefKind::Static { mutability, .. } => {
                    statics.push(J::O(vec![
                        ("p", J::S(path(tcx, d.to_def_id()))),
                        ("mut", J::B(mutability.is_mut())),
                        ("freeze", J::B(tcx.type_of(d.to_def_id()).instantiate_identity().skip_norm_wip().is_freeze(tcx, TypingEnv::fully_monomorphized()))),
                        ("tls", J::B(tcx.is_thread_local_static(d.to_def_id()))),
                        ("ty", J::S(tystr(tcx.type_of(d.to_def_id()).instantiate_identity().skip_norm_wip()))),
                        ("file", J::S(cx.span_file(tcx.def_span(d)))),
                        ("line", cx.span(tcx.def_span(d))),
                    ]));
                }
                _ => {}
            }
        }
        // which types may cross threads, given that their parameters may
        let mut autos = vec![];
        let mut ds: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
        ds.extend(keys.iter().copied().filter(|k| matches!(tcx.def_kind(k.to_def_id()), DefKind::Closure)));
        for d in ds {
            let did = d.to_def_id();
            let k = tcx.def_kind(did);
            let is_fut = matches!(k, DefKind::Closure) && tcx.is_coroutine(did);
            if !(matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Trait) || is_fut) {
                continue;
            }
            let t = if matches!(k, DefKind::Trait) {
                tcx.types.unit
            } else {
                tcx.type_of(did).instantiate_identity().skip_norm_wip()
            };
            let mut o = vec![
                ("p", J::S(path(tcx, did))),
                ("kind", J::S(if is_fut { "future".to_string() } else { format!("{:?}", k) })),
                ("pub", J::B(ev.is_reachable(d))),
                ("file", J::S(cx.span_file(tcx.def_span(d)))),
                ("line", cx.span(tcx.def_span(d))),
            ];
            for (name, s) in [("send", sym::Send), ("sync", sym::Sync)] {
                let tr = match tcx.get_diagnostic_item(s) {
                    Some(x) => x,
                    None => continue,
                };
                if matches!(k, DefKind::Trait) {
                    let sup: Vec<DefId> = rustc_type_ir::elaborate::supertrait_def_ids(tcx, did).collect();
                    o.push((name, J::B(sup.contains(&tr))));
                    continue;
                }
                // parameters: both Send and Sync
                let mut cl: Vec<ty::Clause<'_>> = tcx.param_env(did).caller_bounds().collect();
                let args = ty::GenericArgs::identity_for_item(tcx, did);
                for a in args.iter() {
                    if let ty::GenericArgKind::Type(p) = a.kind() {
                        if matches!(p.kind(), ty::Param(_)) {
                            for s2 in [sym::Send, sym::Sync] {
                                if let Some(tr2) = tcx.get_diagnostic_item(s2) {
                                    use rustc_middle::ty::Upcast;
                                    let r = ty::TraitRef::new(tcx, tr2, [p]);
                                    cl.push(r.upcast(tcx));
                                }
                            }
                        }
                    }
                }
                let env = ty::ParamEnv::new(tcx, cl.iter().copied());
                let tenv = TypingEnv::new(env, ty::TypingMode::PostAnalysis);
                use rustc_infer::infer::TyCtxtInferExt;
                use rustc_trait_selection::infer::InferCtxtExt;
                let (icx, penv) = tcx.infer_ctxt().build_with_typing_env(tenv);
                let r = icx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions();
                o.push((name, J::B(r)));
            }
            autos.push(J::O(o));
        }
        // code outside the checks of the language
        struct U<'tcx> { tcx: TyCtxt<'tcx>, found: Vec<Span> }
        impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for U<'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    self.found.push(b.span);
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        let mut u = U { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut u);
        let unsafes: Vec<J> = u.found.iter().filter(|s| !s.in_external_macro(tcx.sess.source_map())).map(|s| J::A(vec![J::S(cx.span_file(*s)), cx.span(*s)])).collect();
        let mut consts = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Const { .. } | DefKind::AssocConst { .. } = tcx.def_kind(d.to_def_id()) {
                use ty::TypeVisitableExt;
                let did = d.to_def_id();
                if tcx.generics_of(did).requires_monomorphization(tcx) {
                    continue;
                }
                if tcx.trait_of_assoc(did).is_some() { continue; }
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if t.has_param() { continue; }
                if let Ok(v) = tcx.const_eval_poly(did) {
                    let t = tcx.erase_and_anonymize_regions(t);
                    let j = cx.konst_val(v, t, TypingEnv::fully_monomorphized(), 0);
                    consts.push(J::A(vec![J::S(path(tcx, did)), j]));
                }
            }
        }
        let Cx { types_out, adts_out, out, .. } = cx;
        let j = J::O(vec![
            ("crate", J::S(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())),
            ("types", J::A(types_out)),
            ("adts", J::A(adts_out)),
            ("fns", J::A(fns)),
            ("impls", J::A(impls)),
            ("statics", J::A(statics)),
            ("autos", J::A(autos)),
            ("unsafe_blocks", J::A(unsafes)),
            ("consts", J::A(consts)),
            ("iter_next", J::A(iter_next)),
            ("insts", J::A(out)),
        ]);
        let mut s = String::new();
        j.write(&mut s);
        let _ = write!(s, "\n");
        std::fs::write(&self.out, s).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("PQMIR_OUT").unwrap_or_default();
    let want = std::env::var("PQMIR_CRATE").unwrap_or_else(|_| "parquet2".to_string());
    let name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
    if !out.is_empty() && name.as_deref() == Some(want.as_str()) {
        args.push("-Zmir-opt-level=0".to_string());
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        struct Nop;
        impl rustc_driver_impl::Callbacks for Nop {}
        rustc_driver_impl::compiler_entrypoint(&args, &mut Nop);
    }
}
