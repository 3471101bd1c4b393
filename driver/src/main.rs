//! yamd-mir: a rustc driver that exports the type-checked, monomorphised MIR of the crate being
//! compiled (plus the std helper bodies it instantiates) as JSON, for the analyses in /verif/analysis.
//! It is injected through RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_ast;
extern crate rustc_ast_pretty;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};

struct Exporter<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyv: Vec<Option<J>>,
    keys: HashMap<Instance<'tcx>, String>,
    used: HashSet<String>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<Instance<'tcx>>,
}

const STD_PREFIX: &[&str] = &[
    "core::option::", "core::result::", "core::cmp::", "core::mem::", "core::convert::",
    "core::clone::", "core::default::", "core::ops::", "core::bool::", "core::iter::",
    "core::tuple::", "std::option::", "std::result::", "std::cmp::", "std::mem::", "std::convert::",
    "std::clone::", "std::default::", "std::ops::", "std::bool::", "std::iter::", "std::tuple::",
    "core::array::", "std::array::", "core::slice::", "std::slice::", "core::char::", "std::char::",
    "core::num::", "std::num::", "std::borrow::", "alloc::borrow::", "alloc::vec::", "std::vec::",
    "alloc::slice::", "alloc::string::", "std::string::", "std::collections::VecDeque", "alloc::collections",
    "core::str::", "std::str::", "alloc::str::", "core::fmt::", "std::fmt::", "alloc::fmt::",
];

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}

impl<'tcx> Exporter<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return J::Null;
        }
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))
            )
        )
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(t)).unwrap_or(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tyv.len();
        self.tys.insert(t, i);
        self.tyv.push(None);
        let j = self.ty_json(t);
        self.tyv[i] = Some(j);
        i
    }

    fn ty_json(&mut self, t: Ty<'tcx>) -> J {
        let name = rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_resolve_crate_name!(format!("{t}"))
            )
        );
        let mut o = vec![("s", s(name))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("p", s(self.path(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                let a: Vec<J> = args.types().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(a)));
                let expand = def.did().is_local()
                    || {
                        let p = self.path(def.did());
                        STD_PREFIX.iter().any(|q| p.starts_with(q))
                    };
                if expand {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let fty = f.ty(self.tcx, args).skip_norm_wip();
                            fs.push(J::A(vec![s(f.name.as_str()), n(self.ty(fty))]));
                        }
                        let d = if def.is_enum() {
                            J::I(def.discriminant_for_variant(self.tcx, vi).val as i128)
                        } else {
                            J::I(0)
                        };
                        vs.push(J::O(vec![("n", s(v.name.as_str())), ("f", J::A(fs)), ("d", d)]));
                    }
                    o.push(("vs", J::A(vs)));
                }
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("t", n(i)));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", s("ptr")));
                let i = self.ty(*inner);
                o.push(("t", n(i)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| n(self.ty(x))).collect();
                o.push(("fs", J::A(a)));
            }
            ty::Array(e, len) => {
                o.push(("k", s("array")));
                let i = self.ty(*e);
                o.push(("t", n(i)));
                if let Some(l) = len.try_to_target_usize(self.tcx) {
                    o.push(("len", J::I(l as i128)));
                }
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let i = self.ty(*e);
                o.push(("t", n(i)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| n(self.ty(x))).collect();
                o.push(("up", J::A(up)));
                let inst = Instance::new_raw(*d, args);
                let k = self.key(inst);
                self.push(inst);
                o.push(("inst", s(k)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("p", s(self.path(*d))));
                // constructors have MIR shims too
                let a: Vec<J> = args.no_bound_vars().into_iter().flat_map(|a| a.types()).map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(a)));
                if let Some(a2) = args.no_bound_vars() {
                    if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, *d, a2) {
                        let k = self.key(inst);
                        self.push(inst);
                        o.push(("inst", s(k)));
                        o.push(("rp", s(self.path(inst.def_id()))));
                    }
                }
            }
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("bits", n(i.bit_width().unwrap_or(64) as usize)));
            }
            ty::Uint(i) => {
                o.push(("k", s("uint")));
                o.push(("bits", n(i.bit_width().unwrap_or(64) as usize)));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }

    fn key(&mut self, inst: Instance<'tcx>) -> String {
        if let Some(k) = self.keys.get(&inst) {
            return k.clone();
        }
        let base = rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_resolve_crate_name!(
                    self.tcx.def_path_str_with_args(inst.def_id(), inst.args)
                )
            )
        );
        let mut k = match inst.def {
            InstanceKind::Item(_) => base,
            InstanceKind::Intrinsic(_) => format!("intrinsic {base}"),
            InstanceKind::Virtual(..) => format!("virtual {base}"),
            other => format!("shim {} {base}", format!("{other:?}").split('(').next().unwrap_or("").to_string()),
        };
        let b = k.clone();
        let mut c = 1;
        while self.used.contains(&k) {
            c += 1;
            k = format!("{b} #{c}");
        }
        self.used.insert(k.clone());
        self.keys.insert(inst, k.clone());
        k
    }

    fn push(&mut self, inst: Instance<'tcx>) {
        if self.seen.insert(inst) {
            self.queue.push_back(inst);
        }
    }

    fn has_body(&self, inst: Instance<'tcx>) -> bool {
        match inst.def {
            InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) {
                    return false;
                }
                if d.is_local() {
                    return true;
                }
                let p = self.path(d);
                let p2 = p.trim_start_matches('<');
                STD_PREFIX.iter().any(|q| p2.starts_with(q)) || self.tcx.def_kind(d) == DefKind::Closure
                    || p2.contains(" as ")
            }
            InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) | InstanceKind::LlvmIntrinsic(_) => false,
            InstanceKind::Shim(_) => {
                let dbg = format!("{:?}", inst.def);
                !dbg.contains("DropGlue") && !dbg.contains("ThreadLocal") && !dbg.contains("AsyncDrop") && !dbg.contains("FutureDrop")
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::PhantomDeref => J::A(vec![s("pd")]),
                ProjectionElem::Field(f, t) => {
                    let ti = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), n(ti)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"), n(offset as usize), n(min_length as usize), J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_usize())]),
                ProjectionElem::OpaqueCast(_) => J::A(vec![s("oc")]),
                ProjectionElem::UnwrapUnsafeBinder(_) => J::A(vec![s("ub")]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o = vec![("c", s("opaque")), ("ty", n(ti))];
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                o[0].1 = s("promoted");
                o.push(("def", s(self.path(uv.def))));
                o.push(("i", n(p.as_usize())));
                return J::O(o);
            }
            o.push(("def", s(self.path(uv.def))));
        }
        let val = match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => v,
            Err(_) => return J::O(o),
        };
        if let Some(tree) = self.tree(val, t, 0) {
            o.push(("tree", tree));
        }
        match val {
            ConstValue::ZeroSized => o[0].1 = s("zst"),
            ConstValue::Scalar(mir::interpret::Scalar::Int(si)) => {
                o[0].1 = s("int");
                let size = si.size();
                let v: i128 = match t.kind() {
                    ty::Int(_) => si.to_int(size),
                    _ => si.to_uint(size) as i128,
                };
                o.push(("v", J::I(v)));
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(ptr, _)) => {
                let (prov, off) = ptr.into_raw_parts();
                self.const_ptr(&mut o, t, prov.alloc_id(), off.bytes() as usize);
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                    let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                    o[0].1 = s("bytes");
                    o.push(("v", J::A(bytes.iter().map(|b| n(*b as usize)).collect())));
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                    let a = a.inner();
                    let mut sz = 0u64;
                    if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) {
                        sz = l.size.bytes();
                    }
                    let st = offset.bytes() as usize;
                    let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + sz as usize);
                    o[0].1 = s("mem");
                    o.push(("v", J::A(bytes.iter().map(|b| n(*b as usize)).collect())));
                    let mut ptrs = vec![];
                    for (po, prov) in a.provenance().ptrs().iter() {
                        let mut q = vec![("c", s("opaque")), ("ty", n(0))];
                        self.const_ptr(&mut q, t, prov.alloc_id(), 0);
                        ptrs.push(J::A(vec![n(po.bytes() as usize), J::O(q)]));
                    }
                    o.push(("ptrs", J::A(ptrs)));
                }
            }
        }
        J::O(o)
    }

    /// a constant taken apart by its type: integers, text, functions, aggregates and references to them
    fn tree(&mut self, val: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<J> {
        if depth > 6 {
            return None;
        }
        let ti = self.ty(t);
        let mk = |k: &str, v: Vec<(&'static str, J)>| {
            let mut o = vec![("c", s(k)), ("ty", n(ti))];
            o.extend(v);
            Some(J::O(o))
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let si = val.try_to_scalar_int().or_else(|| match val {
                    ConstValue::Indirect { alloc_id, offset } => {
                        let Some(mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) else { return None };
                        let l = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
                        let r = mir::interpret::AllocRange { start: offset, size: l.size };
                        a.inner().read_scalar(&self.tcx, r, false).ok()?.try_to_scalar_int().ok()
                    }
                    _ => None,
                })?;
                let size = si.size();
                let v: i128 = if matches!(t.kind(), ty::Int(_)) { si.to_int(size) } else { si.to_uint(size) as i128 };
                mk("int", vec![("v", J::I(v))])
            }
            ty::Ref(_, inner, _) => {
                // where the reference points
                let (id, off, meta) = match val {
                    ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, Some(meta)),
                    ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        (prov.alloc_id(), off, None)
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let Some(mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) else { return None };
                        let ps = self.tcx.data_layout.pointer_size();
                        let p = a.inner().read_scalar(&self.tcx, mir::interpret::AllocRange { start: offset, size: ps }, true).ok()?;
                        let mir::interpret::Scalar::Ptr(p, _) = p else { return None };
                        let (prov, off) = p.into_raw_parts();
                        let meta = if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                            let m = a.inner().read_scalar(&self.tcx, mir::interpret::AllocRange { start: offset + ps, size: ps }, false).ok()?;
                            Some(m.try_to_scalar_int().ok()?.to_uint(ps) as u64)
                        } else {
                            None
                        };
                        (prov.alloc_id(), off, meta)
                    }
                    _ => return None,
                };
                let id = match self.tcx.try_get_global_alloc(id)? {
                    mir::interpret::GlobalAlloc::Memory(_) => id,
                    mir::interpret::GlobalAlloc::Static(d) if !self.tcx.is_mutable_static(d) && !self.tcx.is_foreign_item(d) => {
                        if !inner.is_freeze(self.tcx, self.env) {
                            return None;
                        }
                        self.tcx.reserve_and_set_memory_alloc(self.tcx.eval_static_initializer(d).ok()?)
                    }
                    _ => return None,
                };
                let Some(mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(id) else { return None };
                match inner.kind() {
                    ty::Str => {
                        let st = off.bytes() as usize;
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + meta? as usize);
                        mk("bytes", vec![("v", J::A(b.iter().map(|b| n(*b as usize)).collect()))])
                    }
                    ty::Slice(e) => {
                        let l = self.tcx.layout_of(self.env.as_query_input(*e)).ok()?;
                        let m = meta?;
                        if m > 512 {
                            return None;
                        }
                        let mut fs = vec![];
                        for i in 0..m {
                            fs.push(self.tree(ConstValue::Indirect { alloc_id: id, offset: off + l.size * i }, *e, depth + 1)?);
                        }
                        let at = Ty::new_array(self.tcx, *e, m);
                        let ai = self.ty(at);
                        let arr = J::O(vec![("c", s("agg")), ("ty", n(ai)), ("k", n(0)), ("fs", J::A(fs))]);
                        mk("slice", vec![("to", arr)])
                    }
                    _ => {
                        let x = self.tree(ConstValue::Indirect { alloc_id: id, offset: off }, *inner, depth + 1)?;
                        mk("refto", vec![("to", x)])
                    }
                }
            }
            ty::FnPtr(..) => {
                let p = match val {
                    ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => p,
                    ConstValue::Indirect { alloc_id, offset } => {
                        let Some(mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) else { return None };
                        let ps = self.tcx.data_layout.pointer_size();
                        let mir::interpret::Scalar::Ptr(p, _) = a.inner().read_scalar(&self.tcx, mir::interpret::AllocRange { start: offset, size: ps }, true).ok()? else {
                            return None;
                        };
                        p
                    }
                    _ => return None,
                };
                match self.tcx.try_get_global_alloc(p.into_raw_parts().0.alloc_id())? {
                    mir::interpret::GlobalAlloc::Function { instance, .. } => {
                        let k = self.key(instance);
                        self.push(instance);
                        mk("fn", vec![("inst", s(k))])
                    }
                    _ => None,
                }
            }
            ty::Adt(d, _) if d.is_union() => None,
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                let d = self.tcx.try_destructure_mir_constant_for_user_output(val, t)?;
                let v = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                if d.fields.len() > 512 {
                    return None;
                }
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.tree(*fv, *ft, depth + 1)?);
                }
                mk("agg", vec![("k", n(v)), ("fs", J::A(fs))])
            }
            _ if matches!(val, ConstValue::ZeroSized) => mk("zst", vec![]),
            _ => None,
        }
    }

    fn const_ptr(&mut self, o: &mut Vec<(&'static str, J)>, _t: Ty<'tcx>, id: mir::interpret::AllocId, off: usize) {
        match self.tcx.try_get_global_alloc(id) {
            Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                let a = a.inner();
                let len = a.len();
                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(off..len);
                o[0].1 = s("ptrbytes");
                o.push(("v", J::A(bytes.iter().map(|b| n(*b as usize)).collect())));
                let mut ptrs = vec![];
                let list: Vec<_> = a.provenance().ptrs().iter().map(|(po, p)| (po.bytes() as usize, p.alloc_id())).collect();
                for (po, p) in list {
                    let mut q = vec![("c", s("opaque"))];
                    self.const_ptr(&mut q, _t, p, 0);
                    ptrs.push(J::A(vec![n(po), J::O(q)]));
                }
                o.push(("ptrs", J::A(ptrs)));
            }
            Some(mir::interpret::GlobalAlloc::Static(d)) => {
                o[0].1 = s("static");
                let p = self.path(d);
                o.push(("def", s(p)));
            }
            Some(mir::interpret::GlobalAlloc::Function { instance, .. }) => {
                o[0].1 = s("fn");
                let k = self.key(instance);
                self.push(instance);
                o.push(("inst", s(k)));
            }
            _ => {}
        }
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(c)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("rt")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), self.operand(o), l])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), self.place(p), J::B(matches!(bk, BorrowKind::Mut { .. }))]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("ref"), self.place(p), J::B(m.is_mut()), s("reborrow")])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("raw"), self.place(p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let ks = format!("{k:?}");
                J::A(vec![s("cast"), s(ks), self.operand(o), n(ti)])
            }
            Rvalue::BinaryOp(b, x) => {
                J::A(vec![s("bin"), s(format!("{b:?}")), self.operand(&x.0), self.operand(&x.1)])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{u:?}")), self.operand(o)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)])]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let (kind, ti, vi) = match &**k {
                    AggregateKind::Array(t) => ("array", self.ty(*t), 0),
                    AggregateKind::Tuple => ("tuple", 0, 0),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        ("adt", self.ty(t), v.as_usize())
                    }
                    AggregateKind::Closure(d, args) => ("closure", self.ty(Ty::new_closure(self.tcx, *d, args)), 0),
                    AggregateKind::RawPtr(t, _) => ("rawptr", self.ty(*t), 0),
                    _ => ("other", 0, 0),
                };
                J::A(vec![s("agg"), s(kind), n(ti), n(vi), J::A(v)])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(o)]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>) -> J {
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(n(self.ty(l.ty)));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(&p);
                names.push(J::A(vec![s(v.name.as_str()), pj]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1);
                        st.push(J::A(vec![s("="), p, r, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("sd"), p, n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::Assume(o) = &**i {
                            let o = self.operand(o);
                            st.push(J::A(vec![s("assume"), o]));
                        } else {
                            st.push(J::A(vec![s("copy_nonoverlapping")]));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let mut ts = vec![];
                    for (v, t) in targets.iter() {
                        let v = match dt.kind() {
                            ty::Int(i) => {
                                let bits = i.bit_width().unwrap_or(64);
                                (((v as i128) << (128 - bits)) >> (128 - bits)) as i128
                            }
                            _ => v as i128,
                        };
                        ts.push(J::A(vec![J::I(v), n(t.as_usize())]));
                    }
                    let dti = self.ty(dt);
                    J::A(vec![s("switch"), d, J::A(ts), n(targets.otherwise().as_usize()), n(dti)])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let pj = self.place(place);
                    let ti = self.ty(pt);
                    J::A(vec![s("drop"), pj, n(target.as_usize()), n(ti)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            J::A(vec![s("bounds"), self.operand(len), self.operand(index)])
                        }
                        AssertKind::Overflow(op, a, c) => {
                            J::A(vec![s("overflow"), s(format!("{op:?}")), self.operand(a), self.operand(c)])
                        }
                        other => J::A(vec![s("other"), s(format!("{other:?}"))]),
                    };
                    let c = self.operand(cond);
                    J::A(vec![s("assert"), c, J::B(*expected), n(target.as_usize()), m])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.callee(func, b);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    J::A(vec![
                        s("call"), f, J::A(a), d,
                        target.map(|t| n(t.as_usize())).unwrap_or(J::Null),
                    ])
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.callee(func, b);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    J::A(vec![s("tailcall"), f, J::A(a)])
                }
                other => J::A(vec![s("other"), s(format!("{other:?}"))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", sp), ("cl", J::B(bb.is_cleanup))]));
        }
        J::O(vec![
            ("argc", n(b.arg_count)),
            ("spread", b.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn callee(&mut self, func: &Operand<'tcx>, b: &Body<'tcx>) -> J {
        let ft = func.ty(&b.local_decls, self.tcx);
        if let ty::FnDef(d, args) = ft.kind() {
            let args = args.no_bound_vars().expect("bound vars in callee");
            let mut o = vec![("p", s(self.path(*d)))];
            let a: Vec<J> = args.types().map(|x| n(self.ty(x))).collect();
            o.push(("args", J::A(a)));
            match Instance::try_resolve(self.tcx, self.env, *d, args) {
                Ok(Some(inst)) => {
                    let k = self.key(inst);
                    self.push(inst);
                    o.push(("inst", s(k)));
                    o.push(("rp", s(self.path(inst.def_id()))));
                    o.push(("local", J::B(inst.def_id().is_local())));
                    if inst.def.requires_caller_location(self.tcx) {
                        o.push(("tc", J::B(true)));
                    }
                    if let InstanceKind::Virtual(..) = inst.def {
                        o.push(("virtual", J::B(true)));
                    }
                    if let InstanceKind::Intrinsic(_) = inst.def {
                        o.push(("intrinsic", J::B(true)));
                    }
                }
                _ => {}
            }
            J::O(o)
        } else {
            let fo = self.operand(func);
            J::O(vec![("dyn", fo), ("ty", n(self.ty(ft)))])
        }
    }
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("YAMD_MIR_OUT") else { return Compilation::Continue };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let is_test = tcx.sess.opts.test;
        let ctypes: Vec<String> = tcx.crate_types().iter().map(|c| format!("{c:?}")).collect();
        if is_test || ctypes.iter().any(|c| c == "ProcMacro") || name == "build_script_build" {
            return Compilation::Continue;
        }
        if let Ok(p) = std::env::var("YAMD_ATTRS_OUT") {
            std::fs::write(&p, attrs(tcx)).expect("write attributes");
            return Compilation::Continue;
        }
        let out = export(tcx, &name, &ctypes);
        let tag = std::env::var("YAMD_MIR_TAG").unwrap_or_default();
        let p = format!("{dir}/{name}{tag}.json");
        std::fs::write(&p, out).expect("write mir json");
        Compilation::Continue
    }
}

fn export<'tcx>(tcx: TyCtxt<'tcx>, name: &str, ctypes: &[String]) -> String {
    let mut e = Exporter {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        tys: HashMap::new(),
        tyv: vec![],
        keys: HashMap::new(),
        used: HashSet::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
    };
    e.ty(tcx.types.unit);
    // ---- items
    let mut items = vec![];
    let mut statics = vec![];
    let mut impls = vec![];
    let mut locals: Vec<_> = tcx.hir_crate_items(()).definitions().collect();
    locals.sort_by_key(|d| tcx.def_span(d.to_def_id()).lo());
    for ld in locals {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let generic = tcx.generics_of(d).requires_monomorphization(tcx);
                let has = tcx.is_mir_available(d);
                let mut o = vec![
                    ("p", s(e.path(d))),
                    ("generic", J::B(generic)),
                    ("vis", J::B(tcx.effective_visibilities(()).is_exported(ld))),
                    ("sp", e.span(tcx.def_span(d))),
                    ("body", J::B(has)),
                    ("unsafe", J::B(matches!(tcx.fn_sig(d).skip_binder().safety(), rustc_hir::Safety::Unsafe))),
                ];
                if !generic && has {
                    let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => unreachable!(),
                    });
                    let inst = Instance::new_raw(d, args);
                    let k = e.key(inst);
                    e.push(inst);
                    o.push(("inst", s(k)));
                }
                items.push(J::O(o));
            }
            DefKind::Static { .. } => {
                statics.push(J::O(vec![("p", s(e.path(d))), ("sp", e.span(tcx.def_span(d))),
                    ("mut", J::B(tcx.is_mutable_static(d))),
                    ("tls", J::B(tcx.is_thread_local_static(d))),
                    ("freeze", J::B(tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, e.env))),
                    ("ty", n(e.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())))]));
            }
            DefKind::Impl { of_trait: true } => {
                if tcx.generics_of(d).requires_monomorphization(tcx) {
                    continue;
                }
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let tr = tcx.erase_and_anonymize_regions(tr);
                let mut ms = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    if it.is_fn() && !tcx.generics_of(it.def_id).requires_monomorphization(tcx) {
                        let args = ty::GenericArgs::for_item(tcx, it.def_id, |_, _| tcx.lifetimes.re_erased.into());
                        let inst = Instance::new_raw(it.def_id, args);
                        let k = e.key(inst);
                        e.push(inst);
                        ms.push(J::A(vec![s(it.name().as_str()), s(k)]));
                    }
                }
                let targs: Vec<J> = tr.args.types().map(|x| n(e.ty(x))).collect();
                let derived = tcx.is_automatically_derived(d);
                impls.push(J::O(vec![
                    ("trait", s(e.path(tr.def_id))),
                    ("self", n(e.ty(tr.self_ty()))),
                    ("targs", J::A(targs)),
                    ("derived", J::B(derived)),
                    ("ms", J::A(ms)),
                ]));
            }
            _ => {}
        }
    }
    // ---- bodies
    let mut bodies = vec![];
    let mut leaves: Vec<(String, String)> = vec![];
    let mut prom_done: HashSet<DefId> = HashSet::new();
    let mut proms = vec![];
    while let Some(inst) = e.queue.pop_front() {
        let k = e.key(inst);
        if !e.has_body(inst) {
            let p = e.path(inst.def_id());
            leaves.push((k, p));
            continue;
        }
        if std::env::var("YAMD_DBG").is_ok() {
            eprintln!("body {k}");
        }
        let raw = tcx.instance_mir(inst.def);
        let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, e.env, EarlyBinder::bind(tcx, raw.clone()));
        let bj = e.body(&b);
        let d = inst.def_id();
        let mut o = vec![
            ("k", s(k.clone())),
            ("p", s(e.path(d))),
            ("local", J::B(d.is_local())),
            ("sp", e.span(tcx.def_span(d))),
            ("b", bj),
        ];
        if let InstanceKind::Item(d) = inst.def {
            if tcx.def_kind(d) == DefKind::Closure {
                o.push(("parent", s(e.path(tcx.typeck_root_def_id(d)))));
            }
            let pr = tcx.promoted_mir(d);
            if !pr.is_empty() {
                let mut v = vec![];
                for p in pr.iter() {
                    let pb = inst.instantiate_mir_and_normalize_erasing_regions(tcx, e.env, EarlyBinder::bind(tcx, p.clone()));
                    v.push(e.body(&pb));
                }
                o.push(("prom", J::A(v)));
            }
            prom_done.insert(d);
        }
        bodies.push(J::O(o));
    }
    let _ = &mut proms as &mut Vec<J>;
    // ---- unsafe blocks (HIR)
    let mut unsafes = vec![];
    {
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'a, 'tcx> {
            tcx: TyCtxt<'tcx>,
            out: &'a mut Vec<Span>,
        }
        impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
                    if !b.span.from_expansion() {
                        self.out.push(b.span);
                    }
                }
                intravisit::walk_block(self, b)
            }
        }
        let mut v = vec![];
        tcx.hir_walk_toplevel_module(&mut V { tcx, out: &mut v });
        for sp in v {
            unsafes.push(e.span(sp));
        }
    }
    let tyv: Vec<J> = e.tyv.into_iter().map(|x| x.unwrap_or(J::Null)).collect();
    let leavesj: Vec<J> = leaves.into_iter().map(|(a, b)| J::A(vec![s(a), s(b)])).collect();
    J::O(vec![
        ("crate", s(name)),
        ("ctypes", J::A(ctypes.iter().map(|c| s(c.clone())).collect())),
        ("debug_assertions", J::B(tcx.sess.opts.debug_assertions)),
        ("items", J::A(items)),
        ("statics", J::A(statics)),
        ("impls", J::A(impls)),
        ("unsafe_blocks", J::A(unsafes)),
        ("types", J::A(tyv)),
        ("leaves", J::A(leavesj)),
        ("bodies", J::A(bodies)),
    ])
    .render()
}

/// the types of the crate with the tool attributes on them, their variants and their fields, and who implements what for them
fn attrs<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let path = |d: DefId| {
        rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(tcx.def_path_str(d)))
        )
    };
    let sp = |d: DefId| {
        let lo = tcx.sess.source_map().lookup_char_pos(tcx.def_span(d).source_callsite().lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    };
    let at = |d: DefId| {
        let mut v = vec![];
        if let Some(l) = d.as_local() {
            for a in tcx.hir_attrs(tcx.local_def_id_to_hir_id(l)) {
                if let rustc_attr_ir::Attribute::DeriveHelper(i) = a {
                    let p = i.path.segments.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("::");
                    let args = match &i.args {
                        rustc_attr_ir::AttrArgs::Delimited(d) => rustc_ast_pretty::pprust::tts_to_string(&d.tokens),
                        rustc_attr_ir::AttrArgs::Eq { .. } => "=".to_string(),
                        _ => String::new(),
                    };
                    v.push(J::A(vec![s(p), s(args)]));
                }
            }
        }
        J::A(v)
    };
    let mut adts = vec![];
    let mut impls = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum => {
                let def = tcx.adt_def(d);
                let mut vs = vec![];
                for v in def.variants().iter() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let tn = rustc_middle::ty::print::with_no_visible_paths!(
                            rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(format!("{ft}")))
                        );
                        fs.push(J::O(vec![("n", s(f.name.as_str())), ("ty", s(tn)), ("at", at(f.did))]));
                    }
                    vs.push(J::O(vec![
                        ("n", s(v.name.as_str())),
                        ("at", if def.is_enum() { at(v.def_id) } else { J::A(vec![]) }),
                        ("ctor", s(match v.ctor_kind() { None => "named", Some(rustc_hir::def::CtorKind::Fn) => "tuple", _ => "unit" })),
                        ("f", J::A(fs)),
                    ]));
                }
                adts.push(J::O(vec![
                    ("p", s(path(d))),
                    ("sp", sp(d)),
                    ("enum", J::B(def.is_enum())),
                    ("vis", J::B(tcx.effective_visibilities(()).is_exported(ld))),
                    ("at", at(d)),
                    ("vs", J::A(vs)),
                ]));
            }
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                if let ty::Adt(a, _) = tr.self_ty().kind() {
                    impls.push(J::O(vec![
                        ("trait", s(path(tr.def_id))),
                        ("self", s(path(a.did()))),
                        ("derived", J::B(tcx.is_automatically_derived(d))),
                        ("sp", sp(d)),
                    ]));
                }
            }
            _ => {}
        }
    }
    J::O(vec![("adts", J::A(adts)), ("impls", J::A(impls))]).render()
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
