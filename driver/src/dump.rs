use crate::json::{n, s, J};
use crate::PRE;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgs, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use std::collections::{HashMap, HashSet, VecDeque};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, String, usize)>,
    seen: HashSet<String>,
    bodies: Vec<(String, J)>,
    depth: usize,
    env_name: String,
    /// methods of concrete types that are called through a trait object or a bound: (type, trait, method, body)
    wit: Vec<J>,
    wit_seen: HashSet<String>,
    iters: HashSet<String>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}
fn defpath(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    with_no_trimmed_paths!(t.to_string())
}
fn span_str(tcx: TyCtxt<'_>, sp: Span) -> J {
    // the outermost (user-written) location, plus the raw one when it differs
    let call = sp.source_callsite();
    let f = |x: Span| {
        let lo = tcx.sess.source_map().lookup_char_pos(x.lo());
        let hi = tcx.sess.source_map().lookup_char_pos(x.hi());
        format!(
            "{}:{}:{}-{}:{}",
            lo.file.name.prefer_local_unconditionally(),
            lo.line,
            lo.col.0 + 1,
            hi.line,
            hi.col.0 + 1
        )
    };
    let a = f(call);
    let b = f(sp);
    if a == b {
        s(a)
    } else {
        J::Arr(vec![s(a), s(b)])
    }
}

const NODESCEND: &[&str] = &[
    "std::fmt", "core::fmt", "alloc::fmt", "std::panicking", "core::panicking", "std::rt", "std::io::stdio",
    "std::collections", "std::thread", "std::sync", "std::alloc", "std::backtrace", "std::sys", "std::process",
    "std::env", "std::fs", "std::net", "std::time",
];

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return n(*i as i128);
        }
        let idx = self.ty_out.len();
        self.tys.insert(t, idx);
        self.ty_out.push(J::Null);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(tystr(t)))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("n", s(i.name_str())));
            }
            ty::Uint(i) => {
                o.push(("k", s("uint")));
                o.push(("n", s(i.name_str())));
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(e);
                o.push(("e", e));
            }
            ty::Array(e, len) => {
                o.push(("k", s("array")));
                let e = self.ty(e);
                o.push(("e", e));
                if let Some(l) = len.try_to_target_usize(tcx) {
                    o.push(("len", n(l)));
                }
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                let e = self.ty(e);
                o.push(("e", e));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::Bool(m.is_mut())));
                let e = self.ty(e);
                o.push(("e", e));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::Arr(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("p", s(path(tcx, def.did()))));
                o.push(("ak", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let a = args.types().map(|x| self.ty(x)).collect();
                o.push(("a", J::Arr(a)));
                let local = def.did().is_local();
                o.push(("local", J::Bool(local)));
                let mut vs = vec![];
                let nv = def.variants().len();
                if nv < 64 {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let disc = if def.is_enum() {
                            def.discriminant_for_variant(tcx, vi).val as i128
                        } else {
                            0
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx
                                .try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(ft))
                                .unwrap_or(ft);
                            let fj = self.ty(ft);
                            fs.push(J::Obj(vec![
                                ("n", s(f.name)),
                                ("t", fj),
                                ("pub", J::Bool(f.vis.is_public())),
                                ("mod", J::Bool(match f.vis {
                                    ty::Visibility::Public => false,
                                    ty::Visibility::Restricted(m) => def.did().as_local().map_or(false, |l| tcx.is_descendant_of(m, tcx.parent_module_from_def_id(l).to_def_id())),
                                })),
                            ]));
                        }
                        vs.push(J::Obj(vec![("n", s(v.name)), ("d", J::Int(disc)), ("f", J::Arr(fs))]));
                    }
                }
                o.push(("v", J::Arr(vs)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("p", s(path(tcx, d.into()))));
                o.push(("span", span_str(tcx, tcx.def_span(d))));
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::Arr(up)));
            }
            ty::Coroutine(d, args) => {
                o.push(("k", s("coroutine")));
                o.push(("p", s(path(tcx, d.into()))));
                let up: Vec<J> = args.as_coroutine().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::Arr(up)));
                let _ = d;
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("p", s(path(tcx, d.into()))));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("p", s(p.name)));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[idx] = J::Obj(o);
        n(idx as i128)
    }

    fn callee(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        if let ty::FnDef(did, args) = *t.kind() {
            let did: DefId = did.into();
            let args = args.skip_binder();
            let mut o = vec![("path", s(path(tcx, did)))];
            o.push(("krate", s(tcx.crate_name(did.krate))));
            let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
            o.push(("a", J::Arr(a)));
            if let Some(tr) = tcx.trait_of_assoc(did) {
                o.push(("trait", s(path(tcx, tr))));
                o.push(("m", s(tcx.item_name(did))));
            } else if tcx.opt_item_name(did).is_some() {
                o.push(("m", s(tcx.item_name(did))));
            }
            if tcx.is_constructor(did) {
                o.push(("ctor", J::Bool(true)));
                let parent = tcx.parent(did);
                // ctor of variant or struct
                let (adt, variant) = match tcx.def_kind(parent) {
                    DefKind::Variant => (tcx.parent(parent), Some(parent)),
                    _ => (parent, None),
                };
                let ad = tcx.adt_def(adt);
                let vi = match variant {
                    Some(v) => ad.variant_index_with_id(v).as_usize(),
                    None => 0,
                };
                o.push(("variant", n(vi as i128)));
                let out = tcx.fn_sig(did).instantiate(tcx, args).skip_norm_wip().output().skip_binder();
                let out = self.ty(out);
                o.push(("out", out));
                return J::Obj(o);
            }
            let resolved = match Instance::try_resolve(tcx, env, did, args) {
                Ok(Some(inst)) => Some(inst),
                _ if only_default(tcx, did) => Some(Instance::new_raw(did, args)),
                _ => None,
            };
            if let Some(inst) = resolved {
                let key = self.inst(inst, env);
                if matches!(key, J::Null) {
                    self.bounds(did, args, env);
                }
                o.push(("inst", key));
                o.push(("rpath", s(path(tcx, inst.def_id()))));
                o.push(("rkrate", s(tcx.crate_name(inst.def_id().krate))));
                o.push(("rdp", s(defpath(tcx, inst.def_id()))));
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
                    _ => "other",
                };
                o.push(("ik", s(kind)));
            }
            J::Obj(o)
        } else {
            let t = self.ty(t);
            J::Obj(vec![("dyn", t)])
        }
    }

    /// the implementation of a trait of this crate or of futures by a type
    fn witness(&mut self, tr: ty::TraitRef<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let kn = tcx.crate_name(tr.def_id.krate);
        let iterator = tcx.get_diagnostic_item(rustc_span::sym::Iterator) == Some(tr.def_id);
        if !tr.def_id.is_local() && !iterator && !["futures", "tokio_futures", "futures_core"].contains(&kn.as_str()) {
            return;
        }
        if !matches!(tr.self_ty().kind(), ty::Adt(..) | ty::Closure(..) | ty::Coroutine(..)) {
            return;
        }
        let ms: Vec<DefId> = tcx.associated_items(tr.def_id).in_definition_order().filter(|x| x.is_fn()).map(|x| x.def_id).collect();
        for m in ms {
            if tcx.generics_of(m).own_requires_monomorphization() || !m.is_local() && tcx.defaultness(m).has_value() {
                continue;
            }
            let args = GenericArgs::for_item(tcx, m, |p, _| {
                if (p.index as usize) < tr.args.len() { tr.args[p.index as usize] } else { tcx.lifetimes.re_erased.into() }
            });
            let inst = match Instance::try_resolve(tcx, env, m, args) {
                Ok(Some(i)) => i,
                _ => continue,
            };
            let d = self.depth;
            self.depth = 0;
            let key = self.inst(inst, env);
            self.depth = d;
            let t = self.ty(tr.self_ty());
            let id = format!("{:?} {:?} {}", tr.self_ty(), m, self.env_name);
            if self.wit_seen.insert(id) {
                self.wit.push(J::Obj(vec![("t", t), ("trait", s(path(tcx, tr.def_id))), ("m", s(tcx.item_name(m))), ("key", key)]));
            }
        }
    }

    /// the bounds a function that is not looked into puts on its type arguments
    fn bounds(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let preds = tcx.clauses_of(did).instantiate(tcx, args);
        for c in preds.clauses {
            if let ty::ClauseKind::Trait(t) = c.skip_norm_wip().kind().skip_binder() {
                let tr = tcx.erase_and_anonymize_regions(t.trait_ref);
                let tr = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(tr)).unwrap_or(tr);
                self.witness(tr, env);
            }
        }
    }

    /// returns key if a body will be dumped
    fn inst(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let (inst, _once) = match inst.def {
            InstanceKind::Item(_) => (inst, false),
            InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                // args are those of the closure type itself
                let _ = closure;
                let cty = inst.args.type_at(0);
                if let ty::Closure(d, a) = *cty.kind() {
                    (Instance::new_raw(d.into(), a), true)
                } else {
                    return J::Null;
                }
            }
            _ => return J::Null,
        };
        let did = inst.def_id();
        let p = path(tcx, did);
        let is_local = did.is_local();
        if !is_local && p.contains(" as std::iter::Extend<") {
            // what `next` of the iterator is, for adding what it gives
            if let (Some(it), Some(i)) = (tcx.get_diagnostic_item(rustc_span::sym::Iterator), inst.args.types().last()) {
                if matches!(i.kind(), ty::Adt(..))
                    && !self.iters.contains(&format!("{:?} {}", i, self.env_name))
                    && tcx.non_blanket_impls_for_ty(it, i).next().is_some()
                {
                    self.iters.insert(format!("{:?} {}", i, self.env_name));
                    self.witness(ty::TraitRef::new(tcx, it, [i]), env);
                }
            }
        }
        if !is_local {
            if !tcx.is_mir_available(did) {
                return J::Null;
            }
            let kn = tcx.crate_name(did.krate);
            let kn = kn.as_str();
            if !["core", "alloc", "std", "itertools", "smtp_message", "either", "futures_util", "futures_core", "futures_sink", "futures_task", "futures", "tokio_futures"].contains(&kn)
                && !(kn == "tokio" && p.ends_with("into_future"))
            {
                return J::Null;
            }
            let q = p.trim_start_matches('<');
            if NODESCEND.iter().any(|x| q.starts_with(x)) {
                return J::Null;
            }
            if self.depth > 24 {
                return J::Null;
            }
        }
        let key = format!(
            "{}@{}",
            with_no_trimmed_paths!(format!("{}", tcx.def_path_str_with_args(did, inst.args))),
            self.env_name
        );
        if !is_local && p.contains("SpecFromIter") && inst.args.len() >= 2 {
            // what `next` of the iterator is, for collecting it
            if let (Some(it), Some(i)) = (tcx.get_diagnostic_item(rustc_span::sym::Iterator), inst.args.types().nth(1)) {
                if matches!(i.kind(), ty::Adt(..)) && !self.iters.contains(&format!("{:?} {}", i, self.env_name)) {
                    self.iters.insert(format!("{:?} {}", i, self.env_name));
                    self.witness(ty::TraitRef::new(tcx, it, [i]), env);
                }
            }
        }
        // disambiguate closures by def path
        let key = if tcx.is_closure_like(did) {
            format!("{}#{}", key, tcx.def_path(did).to_string_no_crate_verbose())
        } else {
            key
        };
        if self.seen.insert(key.clone()) {
            self.queue.push_back((inst, env, key.clone(), if is_local { 0 } else { self.depth + 1 }));
        }
        s(key)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => J::Arr(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::Arr(vec![s("f"), n(f.as_usize() as i128), t])
                }
                ProjectionElem::Index(l) => J::Arr(vec![s("i"), n(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    J::Arr(vec![s("ci"), n(offset), J::Bool(from_end), n(min_length)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![s("sub"), n(from), n(to), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::Arr(vec![s("d"), n(v.as_usize() as i128)]),
                ProjectionElem::OpaqueCast(_) => J::Arr(vec![s("cast")]),
                ProjectionElem::UnwrapUnsafeBinder(_) => J::Arr(vec![s("cast")]),
            });
        }
        J::Arr(vec![n(p.local.as_usize() as i128), J::Arr(pr)])
    }

    fn int_of(bits: u128, size: u64, signed: bool) -> J {
        if signed && size > 0 && size <= 16 {
            let shift = 128 - size * 8;
            J::Int(((bits << shift) as i128) >> shift)
        } else {
            J::Int(bits as i128)
        }
    }

    fn read_mem(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>, env: TypingEnv<'tcx>, fuel: usize) -> Option<J> {
        let tcx = self.tcx;
        if fuel == 0 {
            return None;
        }
        let alloc = match tcx.try_get_global_alloc(aid)? {
            GlobalAlloc::Memory(a) => a,
            GlobalAlloc::Static(d) => tcx.eval_static_initializer(d).ok()?,
            _ => return None,
        };
        let a = alloc.inner();
        let lay = tcx.layout_of(env.as_query_input(t)).ok()?;
        let size = lay.size.bytes();
        let raw = |o: u64, sz: u64| -> Option<u128> {
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + sz) as usize);
            let mut v: u128 = 0;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            Some(v)
        };
        let _ = AllocRange { start: rustc_abi::Size::from_bytes(0), size: lay.size };
        match *t.kind() {
            ty::Bool => Some(J::Obj(vec![("b", J::Bool(raw(off, 1)? != 0))])),
            ty::Char => Some(J::Obj(vec![("i", J::Int(raw(off, 4)? as i128))])),
            ty::Uint(_) => Some(J::Obj(vec![("i", Self::int_of(raw(off, size)?, size, false))])),
            ty::Int(_) => Some(J::Obj(vec![("i", Self::int_of(raw(off, size)?, size, true))])),
            ty::Pat(b, _) => self.read_mem(aid, off, b, env, fuel - 1),
            ty::Array(e, len) => {
                let len = len.try_to_target_usize(tcx)?;
                let el = tcx.layout_of(env.as_query_input(e)).ok()?;
                if e == tcx.types.u8 {
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                    return Some(J::Obj(vec![("bytes", J::Arr(b.iter().map(|x| n(*x as i128)).collect()))]));
                }
                if len > 256 {
                    return None;
                }
                let mut v = vec![];
                for i in 0..len {
                    v.push(self.read_mem(aid, off + i * el.size.bytes(), e, env, fuel - 1)?);
                }
                Some(J::Obj(vec![("arr", J::Arr(v))]))
            }
            ty::Ref(_, inner, _) => {
                let prov = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off))?;
                let (aid2, off2) = (prov.alloc_id(), raw(off, 8)? as u64);
                match *inner.kind() {
                    ty::Str => {
                        let len = raw(off + 8, 8)? as u64;
                        let al = match tcx.try_get_global_alloc(aid2)? { GlobalAlloc::Memory(a) => a, _ => return None };
                        let b = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(off2 as usize..(off2 + len) as usize);
                        Some(J::Obj(vec![("ref", J::Obj(vec![("bytes", J::Arr(b.iter().map(|x| n(*x as i128)).collect()))]))]))
                    }
                    ty::Slice(e) => {
                        let len = raw(off + 8, 8)? as u64;
                        let x = self.read_slice(aid2, off2, len, e, env, fuel - 1)?;
                        Some(J::Obj(vec![("ref", x)]))
                    }
                    _ => {
                        let x = self.read_mem(aid2, off2, inner, env, fuel - 1)?;
                        Some(J::Obj(vec![("ref", x)]))
                    }
                }
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let fo = lay.fields.offset(i).bytes();
                    v.push(self.read_mem(aid, off + fo, ft, env, fuel - 1)?);
                }
                Some(J::Obj(vec![("tup", J::Arr(v))]))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = tcx.normalize_erasing_regions(env, f.ty(tcx, args));
                    let fo = lay.fields.offset(i).bytes();
                    v.push(self.read_mem(aid, off + fo, ft, env, fuel - 1)?);
                }
                Some(J::Obj(vec![("adt", J::Int(0)), ("f", J::Arr(v))]))
            }
            _ if size == 0 => Some(J::Obj(vec![("zst", J::Bool(true))])),
            _ => {
                let val = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off) };
                self.destructure(val, t, env, fuel - 1)
            }
        }
    }

    fn read_slice(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: u64, len: u64, e: Ty<'tcx>, env: TypingEnv<'tcx>, fuel: usize) -> Option<J> {
        let tcx = self.tcx;
        if e == tcx.types.u8 {
            let al = match tcx.try_get_global_alloc(aid)? { GlobalAlloc::Memory(a) => a, _ => return None };
            let b = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
            return Some(J::Obj(vec![("bytes", J::Arr(b.iter().map(|x| n(*x as i128)).collect()))]));
        }
        if len > 256 {
            return None;
        }
        let el = tcx.layout_of(env.as_query_input(e)).ok()?;
        let mut v = vec![];
        for i in 0..len {
            v.push(self.read_mem(aid, off + i * el.size.bytes(), e, env, fuel)?);
        }
        Some(J::Obj(vec![("arr", J::Arr(v))]))
    }

    fn destructure(&mut self, val: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, fuel: usize) -> Option<J> {
        let tcx = self.tcx;
        if fuel == 0 {
            return None;
        }
        match *t.kind() {
            ty::Adt(def, _) if def.is_enum() && !def.variants().is_empty() => {
                let d = tcx.try_destructure_mir_constant_for_user_output(val, t)?;
                let vi = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.constval(*fv, *ft, env, fuel - 1));
                }
                Some(J::Obj(vec![("adt", n(vi as i128)), ("f", J::Arr(fs))]))
            }
            _ => None,
        }
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, fuel: usize) -> J {
        let tcx = self.tcx;
        let r: Option<J> = (|| {
            match v {
                ConstValue::ZeroSized => {
                    match *t.kind() {
                        ty::Adt(def, _) if def.is_struct() => Some(J::Obj(vec![("adt", J::Int(0)), ("f", J::Arr(
                            def.non_enum_variant().fields.iter().map(|_| J::Obj(vec![("zst", J::Bool(true))])).collect()))])),
                        _ => Some(J::Obj(vec![("zst", J::Bool(true))])),
                    }
                }
                ConstValue::Scalar(Scalar::Int(i)) => match *t.kind() {
                    ty::Bool => Some(J::Obj(vec![("b", J::Bool(i.try_to_bool().ok()?))])),
                    ty::Int(_) => Some(J::Obj(vec![("i", Self::int_of(i.to_bits(i.size()), i.size().bytes(), true))])),
                    ty::Uint(_) | ty::Char => Some(J::Obj(vec![("i", J::Int(i.to_bits(i.size()) as i128))])),
                    ty::Pat(b, _) => Some(self.constval(v, b, env, fuel)),
                    ty::Adt(def, _) if def.is_enum() => self.destructure(v, t, env, fuel),
                    ty::Adt(def, args) if def.is_struct() => {
                        let mut fs = vec![];
                        for f in def.non_enum_variant().fields.iter() {
                            let ft = tcx.normalize_erasing_regions(env, f.ty(tcx, args));
                            let lay = tcx.layout_of(env.as_query_input(ft)).ok()?;
                            if lay.size.bytes() == 0 {
                                fs.push(J::Obj(vec![("zst", J::Bool(true))]));
                            } else {
                                fs.push(self.constval(v, ft, env, fuel - 1));
                            }
                        }
                        Some(J::Obj(vec![("adt", J::Int(0)), ("f", J::Arr(fs))]))
                    }
                    _ => Some(J::Obj(vec![("raw", s(format!("{:?}", i)))])),
                },
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    let aid = prov.alloc_id();
                    match *t.kind() {
                        ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                            let x = self.read_mem(aid, off.bytes(), inner, env, fuel)?;
                            Some(J::Obj(vec![("ref", x)]))
                        }
                        ty::FnPtr(..) => {
                            if let Some(GlobalAlloc::Function { instance, .. }) = tcx.try_get_global_alloc(aid) {
                                let k = self.inst(instance, env);
                                Some(J::Obj(vec![("fnptr", k), ("path", s(path(tcx, instance.def_id())))]))
                            } else {
                                None
                            }
                        }
                        _ => None,
                    }
                }
                ConstValue::Slice { alloc_id, meta } => match *t.kind() {
                    ty::Ref(_, inner, _) => match *inner.kind() {
                        ty::Str => {
                            let x = self.read_slice(alloc_id, 0, meta, tcx.types.u8, env, fuel)?;
                            Some(J::Obj(vec![("ref", x)]))
                        }
                        ty::Slice(e) => {
                            let x = self.read_slice(alloc_id, 0, meta, e, env, fuel)?;
                            Some(J::Obj(vec![("ref", x)]))
                        }
                        _ => None,
                    },
                    _ => None,
                },
                ConstValue::Indirect { alloc_id, offset } => self.read_mem(alloc_id, offset.bytes(), t, env, fuel),
            }
        })();
        r.unwrap_or_else(|| J::Obj(vec![("unk", s(tystr(t)))]))
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            let f = self.callee(t, env);
            return J::Obj(vec![("t", tj), ("fn", f)]);
        }
        if let ty::Closure(d, args) = *t.kind() {
            self.inst(Instance::new_raw(d.into(), args), env);
        }
        let mut extra = vec![];
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                extra.push(("name", s(path(tcx, u.def))));
            }
        }
        let v = match c.const_.eval(tcx, env, DUMMY_SP) {
            Ok(v) => self.constval(v, t, env, 12),
            Err(_) => J::Obj(vec![("unk", s(format!("{:?}", c.const_)))]),
        };
        let mut o = vec![("t", tj), ("v", v)];
        o.append(&mut extra);
        J::Obj(o)
    }

    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::Arr(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::Arr(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let c = self.konst(c, env);
                J::Arr(vec![s("k"), c])
            }
            Operand::RuntimeChecks(_) => J::Arr(vec![s("rt")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> J {
        let mut v = vec![];
        match r {
            Rvalue::Use(op, ..) => {
                v.push(s("use"));
                v.push(self.operand(op, env));
            }
            Rvalue::Repeat(op, c) => {
                v.push(s("repeat"));
                v.push(self.operand(op, env));
                v.push(c.try_to_target_usize(self.tcx).map(|x| n(x)).unwrap_or(J::Null));
            }
            Rvalue::Ref(_, bk, p) => {
                v.push(s("ref"));
                v.push(s(match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    _ => "mut",
                }));
                v.push(self.place(p));
            }
            Rvalue::RawPtr(k, p) => {
                v.push(s("ref"));
                v.push(s(match k { RawPtrKind::Mut => "rawmut", _ => "raw" }));
                v.push(self.place(p));
            }
            Rvalue::ThreadLocalRef(_) => v.push(s("tls")),
            Rvalue::Cast(k, op, t) => {
                v.push(s("cast"));
                v.push(s(match k {
                    CastKind::PointerCoercion(pc, _) => format!("coerce:{:?}", pc),
                    k => format!("{:?}", k),
                }));
                v.push(self.operand(op, env));
                v.push(self.ty(*t));
                let from = op.ty(body, self.tcx);
                if let (Some(a), Some(b)) = (pointee(from), pointee(*t)) {
                    if let ty::Dynamic(data, _) = *b.kind() {
                        if let Some(pr) = data.principal() {
                            let tr = self.tcx.erase_and_anonymize_regions(pr.skip_binder().with_self_ty(self.tcx, a));
                            self.witness(tr, env);
                        }
                    }
                }
            }
            Rvalue::BinaryOp(b, ops) => {
                v.push(s("bin"));
                v.push(s(format!("{:?}", b)));
                v.push(self.operand(&ops.0, env));
                v.push(self.operand(&ops.1, env));
            }
            Rvalue::UnaryOp(u, op) => {
                v.push(s("un"));
                v.push(s(format!("{:?}", u)));
                v.push(self.operand(op, env));
            }
            Rvalue::Discriminant(p) => {
                v.push(s("discr"));
                v.push(self.place(p));
            }
            Rvalue::Aggregate(k, ops) => {
                v.push(s("agg"));
                let kj = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::Arr(vec![s("array"), t])
                    }
                    AggregateKind::Tuple => J::Arr(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
                        let t = self.ty(t);
                        let mut a = vec![s("adt"), t, n(vi.as_usize() as i128)];
                        if let Some(f) = active {
                            a.push(n(f.as_usize() as i128));
                        }
                        J::Arr(a)
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, (*d).try_into().unwrap(), args);
                        let key = self.inst(Instance::new_raw(*d, args), env);
                        let t = self.ty(t);
                        J::Arr(vec![s("closure"), t, key])
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let t = Ty::new_coroutine(self.tcx, (*d).try_into().unwrap(), args);
                        let key = self.inst(Instance::new_raw(*d, args), env);
                        let t = self.ty(t);
                        J::Arr(vec![s("coroutine"), t, key])
                    }
                    AggregateKind::CoroutineClosure(d, _) => J::Arr(vec![s("coroutine_closure"), s(path(self.tcx, *d))]),
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        J::Arr(vec![s("rawptr"), t])
                    }
                };
                v.push(kj);
                let o = ops.iter().map(|x| self.operand(x, env)).collect();
                v.push(J::Arr(o));
            }
            Rvalue::CopyForDeref(p) => {
                v.push(s("use"));
                v.push(J::Arr(vec![s("c"), self.place(p)]));
            }
            Rvalue::Reborrow(_, _, p) => {
                v.push(s("ref"));
                v.push(s("mut"));
                v.push(self.place(p));
            }
            _ => v.push(s("unk")),
        }
        J::Arr(v)
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, key: String) {
        let tcx = self.tcx;
        let did = inst.def_id();
        let raw: Body<'tcx> = if let Some(l) = did.as_local() {
            let x = PRE.with(|p| p.borrow().get(&l).cloned());
            match x {
                Some(b) => unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(b) },
                None => tcx.instance_mir(inst.def).clone(),
            }
        } else {
            tcx.instance_mir(inst.def).clone()
        };
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => return,
        };
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    let pj = self.place(&p);
                    upnames.push(J::Arr(vec![s(v.name), pj]));
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let mut o = vec![("t", t)];
            if let Some(nm) = names.get(&l.as_usize()) {
                o.push(("n", s(nm)));
            }
            locals.push(J::Obj(o));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, env, &body);
                        st.push(J::Arr(vec![s("="), p, r, span_str(tcx, x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::Arr(vec![s("setd"), p, n(variant_index.as_usize() as i128)]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::Arr(vec![s("dead"), n(l.as_usize() as i128)]));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::Arr(vec![s("live"), n(l.as_usize() as i128)]));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => {
                            let o = self.operand(op, env);
                            st.push(J::Arr(vec![s("assume"), o]));
                        }
                        _ => st.push(J::Arr(vec![s("copy_nonoverlapping")])),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = span_str(tcx, t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![s("goto"), n(target.as_usize() as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, env);
                    let vs = targets.iter().map(|(v, b)| J::Arr(vec![J::Int(v as i128), n(b.as_usize() as i128)])).collect();
                    let ty = discr.ty(&body.local_decls, tcx);
                    let ty = self.ty(ty);
                    J::Arr(vec![s("switch"), o, J::Arr(vs), n(targets.otherwise().as_usize() as i128), ty, sp])
                }
                TerminatorKind::Return => J::Arr(vec![s("ret"), sp]),
                TerminatorKind::Unreachable => J::Arr(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::Arr(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    J::Arr(vec![s("drop"), p, n(target.as_usize() as i128), pt, sp])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let c = match func {
                        Operand::Constant(_) => self.callee(ft, env),
                        _ => {
                            let o = self.operand(func, env);
                            J::Obj(vec![("ptr", o)])
                        }
                    };
                    let a = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let d = self.place(destination);
                    let _ = unwind;
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    J::Arr(vec![
                        s("call"),
                        c,
                        J::Arr(a),
                        d,
                        target.map(|b| n(b.as_usize() as i128)).unwrap_or(J::Null),
                        dt,
                        sp,
                    ])
                }
                TerminatorKind::TailCall { .. } => J::Arr(vec![s("tailcall")]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env);
                    let (mk, ops): (String, Vec<Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len.clone(), index.clone()]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![x.clone(), y.clone()]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![x.clone()]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![x.clone()]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![x.clone()]),
                        AssertKind::MisalignedPointerDereference { .. } => ("ub".into(), vec![]),
                        AssertKind::NullPointerDereference => ("ub".into(), vec![]),
                        AssertKind::InvalidEnumConstruction(_) => ("ub".into(), vec![]),
                        _ => ("other".into(), vec![]),
                    };
                    let ops = ops.iter().map(|x| self.operand(x, env)).collect();
                    J::Arr(vec![
                        s("assert"),
                        c,
                        J::Bool(*expected),
                        s(mk),
                        J::Arr(ops),
                        n(target.as_usize() as i128),
                        sp,
                    ])
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => {
                    let p = self.place(resume_arg);
                    J::Arr(vec![s("yield"), n(resume.as_usize() as i128), p, sp])
                }
                TerminatorKind::CoroutineDrop => J::Arr(vec![s("resume")]),
                TerminatorKind::FalseEdge { real_target, .. } => J::Arr(vec![s("goto"), n(real_target.as_usize() as i128)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec![s("goto"), n(real_target.as_usize() as i128)]),
                TerminatorKind::InlineAsm { .. } => J::Arr(vec![s("asm")]),
            };
            blocks.push(J::Obj(vec![("c", J::Bool(bb.is_cleanup)), ("s", J::Arr(st)), ("t", tj)]));
        }
        let kind = if tcx.is_coroutine(did) {
            "coroutine"
        } else if tcx.is_closure_like(did) {
            "closure"
        } else {
            "fn"
        };
        let mut o = vec![
            ("path", s(path(tcx, did))),
            ("dp", s(defpath(tcx, did))),
            ("krate", s(tcx.crate_name(did.krate))),
            ("local", J::Bool(did.is_local())),
            ("kind", s(kind)),
            ("span", span_str(tcx, body.span)),
            ("argc", n(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("locals", J::Arr(locals)),
            ("up", J::Arr(upnames)),
            ("blocks", J::Arr(blocks)),
            ("pre", J::Bool(did.is_local() && body.phase < MirPhase::Runtime(RuntimePhase::Initial))),
            ("env", s(&self.env_name)),
        ];
        if kind != "fn" {
            let root = tcx.typeck_root_def_id(did);
            o.push(("root", s(path(tcx, root))));
        }
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait_default", s(path(tcx, tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let sj = self.ty(st);
            o.push(("self_ty", sj));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("impl_trait", s(path(tcx, tr.def_id))));
                o.push(("method", s(tcx.item_name(did))));
            }
        }
        if kind == "fn" {
            o.push(("vis", J::Bool(tcx.visibility(did).is_public())));
            o.push(("name", s(tcx.item_name(did))));
        }
        self.bodies.push((key, J::Obj(o)));
    }
}

struct UnsafeV<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    out: &'a mut Vec<J>,
    owner: String,
    depth: usize,
}
impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'a, 'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.out.push(J::Obj(vec![("in", s(&self.owner)), ("span", span_str(self.tcx, b.span))]));
            self.depth += 1;
            rustc_hir::intravisit::walk_block(self, b);
            self.depth -= 1;
            return;
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        use rustc_hir::ExprKind::*;
        let tcx = self.tcx;
        let tr = tcx.typeck(e.hir_id.owner.def_id);
        let op = match e.kind {
            Call(f, _) => match *tr.expr_ty(f).kind() {
                ty::FnDef(d, _) => {
                    let d: DefId = d.into();
                    if !tcx.is_constructor(d) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() { Some(format!("call {}", path(tcx, d))) } else { None }
                }
                ty::FnPtr(_, h) if h.safety().is_unsafe() => Some("call of an unsafe function pointer".to_string()),
                _ => None,
            },
            MethodCall(..) => match tr.type_dependent_def_id(e.hir_id) {
                Some(d) if tcx.fn_sig(d).skip_binder().safety().is_unsafe() => Some(format!("call {}", path(tcx, d))),
                _ => None,
            },
            Unary(rustc_hir::UnOp::Deref, x) if tr.expr_ty(x).is_raw_ptr() => Some("dereference of a raw pointer".to_string()),
            InlineAsm(_) => Some("inline assembly".to_string()),
            Field(x, _) if tr.expr_ty_adjusted(x).is_union() => Some("access to a union".to_string()),
            Path(ref q) => match tr.qpath_res(q, e.hir_id) {
                rustc_hir::def::Res::Def(DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. }, _) => Some("access to a mutable static".to_string()),
                _ => None,
            },
            _ => None,
        };
        if let (Some(op), true) = (op, self.depth > 0) {
            self.out.push(J::Obj(vec![("in", s(&self.owner)), ("span", span_str(tcx, e.span)), ("op", s(op))]));
        }
        if let Closure(c) = e.kind {
            let b = tcx.hir_body(c.body);
            rustc_hir::intravisit::Visitor::visit_body(self, b);
        }
        rustc_hir::intravisit::walk_expr(self, e);
    }
}

pub fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        queue: VecDeque::new(),
        seen: HashSet::new(),
        bodies: vec![],
        depth: 0,
        env_name: String::new(),
        wit: vec![],
        wit_seen: HashSet::new(),
        iters: HashSet::new(),
    };
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut roots = vec![];
    let mut unsafes = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().cloned().collect();
    keys.sort_by_key(|k| tcx.def_path_str(k.to_def_id()));
    for l in keys.iter() {
        let d = l.to_def_id();
        let dk = tcx.def_kind(d);
        if tcx.is_closure_like(d) || tcx.is_constructor(d) {
            continue;
        }
        {
            let body = tcx.hir_maybe_body_owned_by(*l);
            if let Some(b) = body {
                let mut v = UnsafeV { tcx, out: &mut unsafes, owner: path(tcx, d), depth: if matches!(dk, DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() { 1 } else { 0 } };
                rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
            }
        }
        if !matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let args = GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let env = TypingEnv::post_analysis(tcx, d);
        // functions without type parameters share one environment
        let generic = args.types().next().is_some();
        cx.env_name = if generic { path(tcx, d) } else { String::new() };
        cx.depth = 0;
        let inst = Instance::new_raw(d, args);
        let k = cx.inst(inst, env);
        // a returned `impl Trait`: how the concrete type implements the trait
        let out = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder().output();
        if let ty::Alias(..) = *out.kind() {
            let con = tcx.erase_and_anonymize_regions(out);
            let con = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(con)).unwrap_or(con);
            if let Some(od) = opaque_def(out) {
                for b in tcx.explicit_item_bounds(od).skip_binder().iter() {
                    if let ty::ClauseKind::Trait(t) = b.0.kind().skip_binder() {
                        let tr = ty::TraitRef::new(tcx, t.trait_ref.def_id, [con]);
                        if t.trait_ref.args.len() == 1 {
                            cx.witness(tr, env);
                        }
                    }
                }
            }
        }
        roots.push(J::Obj(vec![
            ("path", s(path(tcx, d))),
            ("key", k),
            ("pub", J::Bool(tcx.visibility(d).is_public())),
            ("async", J::Bool(tcx.asyncness(d).is_async())),
            ("unsafe", J::Bool(tcx.fn_sig(d).skip_binder().safety().is_unsafe())),
            ("span", span_str(tcx, tcx.def_span(d))),
        ]));
        while let Some((i, e, k, depth)) = cx.queue.pop_front() {
            cx.depth = depth;
            cx.body(i, e, k);
        }
    }
    // ADTs & impls of this crate
    let mut adts = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = cx.ty(t);
                adts.push(J::Obj(vec![
                    ("path", s(path(tcx, d))),
                    ("t", t),
                    ("pub", J::Bool(tcx.visibility(d).is_public())),
                    ("repr", s(format!("{:?}", tcx.adt_def(d).repr()))),
                ]));
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let stj = cx.ty(st);
                let tr = tcx.impl_opt_trait_ref(d).map(|t| path(tcx, t.skip_binder().def_id));
                let items: Vec<J> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|x| s(x.name()))
                    .collect();
                impls.push(J::Obj(vec![
                    ("self", stj),
                    ("trait", tr.map(s).unwrap_or(J::Null)),
                    ("unsafe", J::Bool(tcx.impl_opt_trait_ref(d).is_some() && tcx.impl_trait_header(d).safety.is_unsafe())),
                    ("items", J::Arr(items)),
                    ("span", span_str(tcx, tcx.def_span(d))),
                ]));
            }
            _ => {}
        }
    }
    // named constants
    let mut consts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Const | DefKind::AssocConst) {
            if tcx.generics_of(d).requires_monomorphization(tcx) {
                continue;
            }
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let t = tcx.erase_and_anonymize_regions(t);
            let env = TypingEnv::fully_monomorphized();
            if let Ok(v) = tcx.const_eval_poly(d) {
                let v = cx.constval(v, t, env, 12);
                let t = cx.ty(t);
                consts.push(J::Obj(vec![("path", s(path(tcx, d))), ("t", t), ("v", v), ("pub", J::Bool(tcx.visibility(d).is_public()))]));
            }
        }
    }
    let top = J::Obj(vec![
        ("crate", s(&krate)),
        ("roots", J::Arr(roots)),
        ("bodies", J::Map(cx.bodies)),
        ("types", J::Arr(cx.ty_out)),
        ("adts", J::Arr(adts)),
        ("impls", J::Arr(impls)),
        ("consts", J::Arr(consts)),
        ("unsafe_blocks", J::Arr(unsafes)),
        ("witnesses", J::Arr(cx.wit)),
    ]);
    let mut o = String::new();
    top.write(&mut o);
    std::fs::write(format!("{}/{}.json", out, krate), o).expect("write dump");
}

/// what a pointer points to
fn pointee<'tcx>(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
    match *t.kind() {
        ty::Ref(_, e, _) | ty::RawPtr(e, _) => Some(e),
        ty::Adt(_, args) => args.types().next(),
        _ => None,
    }
}

fn opaque_def(t: Ty<'_>) -> Option<DefId> {
    match *t.kind() {
        ty::Alias(_, a) => match a.kind {
            ty::AliasTyKind::Opaque { def_id } => Some(def_id),
            _ => None,
        },
        _ => None,
    }
}

/// a provided method of a trait whose only impl is a blanket one that does not override it (extension traits):
/// whatever the type, the call runs the default body
fn only_default(tcx: TyCtxt<'_>, did: DefId) -> bool {
    let tr = match tcx.trait_of_assoc(did) {
        Some(t) => t,
        None => return false,
    };
    if !tcx.defaultness(did).has_value() {
        return false;
    }
    let impls = tcx.trait_impls_of(tr);
    impls.non_blanket_impls().is_empty()
        && impls.blanket_impls().len() == 1
        && impls.blanket_impls().iter().all(|i| {
            matches!(tcx.type_of(*i).instantiate_identity().skip_norm_wip().kind(), ty::Param(_))
                && !tcx.impl_item_implementor_ids(*i).contains_key(&did)
        })
}
