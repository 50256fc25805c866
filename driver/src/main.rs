//! Dumps the type-checked program (MIR, resolved callees, types, items) of the
//! crate being compiled as JSON.  Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
#![allow(unused_variables)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_hir::intravisit::{self, Visitor};
use rustc_interface::interface;
use rustc_middle::mir;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let dir = match std::env::var("FACTS_OUT") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let test = tcx.sess.is_test_crate();
        let j = with_no_visible_paths!(with_no_trimmed_paths!(dump(tcx, &krate)));
        let f = format!("{}/{}{}.json", dir, krate, if test { ".test" } else { "" });
        let tmp = format!("{}.tmp{}", f, std::process::id());
        std::fs::write(&tmp, j.render()).expect("write facts");
        std::fs::rename(&tmp, &f).expect("rename facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if std::env::var("FACTS_OUT").is_ok() && args.iter().any(|a| a == "--crate-name") {
        args.push("-Zmir-opt-level=0".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ix: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adts_seen: HashSet<DefId>,
    bodies: Vec<J>,
    done: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, DefId, usize)>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl TryInto<i128>) -> J {
    J::I(x.try_into().ok().unwrap())
}

/// External modules whose generic code may be stepped into.
const STEP: &[&str] = &[
    "core::iter", "core::option", "core::result", "core::ops", "core::cmp", "core::mem",
    "core::convert", "core::clone", "core::default", "core::slice", "core::array", "core::tuple",
    "core::num", "core::bool", "core::borrow", "core::ptr", "core::range", "core::char",
    "core::f64", "core::str", "core::panic", "core::any", "core::unicode",
    "alloc::slice", "alloc::vec", "alloc::borrow",
];
const MAXDEPTH: usize = 9;

impl<'tcx> Cx<'tcx> {
    /// crate-qualified path that does not depend on re-exports
    fn rawpath(&self, d: DefId) -> String {
        let mut out = self.tcx.crate_name(d.krate).to_string();
        out.push_str(&self.tcx.def_path(d).to_string_no_crate_verbose());
        out
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = match &lo.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => "?".to_string(),
            },
            _ => "?".to_string(),
        };
        J::S(format!("{}:{}", name, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.type_ix.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.type_ix.insert(t, i);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(t.to_string()))];
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", s("prim")))
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("d", s(self.rawpath(def.did()))));
                let a: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|t| n(self.ty(t) as i64)).collect();
                o.push(("a", J::A(a)));
                let fields: Vec<Vec<Ty<'tcx>>> = if def.did().is_local() || def.is_enum() || def.all_fields().count() < 8 {
                    def.variants().iter().map(|v| v.fields.iter().map(|f| {
                        f.ty(self.tcx, args).skip_norm_wip()
                    }).collect()).collect()
                } else { vec![] };
                let fj: Vec<J> = fields.into_iter().map(|v| J::A(v.into_iter().map(|t| n(self.ty(t) as i64)).collect())).collect();
                o.push(("vf", J::A(fj)));
                self.adt(def.did());
            }
            ty::Ref(_, t2, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("t", n(self.ty(*t2) as i64)));
            }
            ty::RawPtr(t2, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                o.push(("t", n(self.ty(*t2) as i64)));
            }
            ty::Slice(t2) => {
                o.push(("k", s("slice")));
                o.push(("t", n(self.ty(*t2) as i64)));
            }
            ty::Array(t2, len) => {
                o.push(("k", s("array")));
                o.push(("t", n(self.ty(*t2) as i64)));
                if let Some(l) = len.try_to_target_usize(self.tcx) {
                    o.push(("len", n(l)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|t| n(self.ty(t) as i64)).collect();
                o.push(("a", J::A(a)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("d", s(self.rawpath(*d))));
                let a: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| n(self.ty(t) as i64)).collect();
                o.push(("a", J::A(a)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("d", s(self.rawpath(*d))));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[i] = J::O(o);
        i
    }

    fn adt(&mut self, d: DefId) {
        if !self.adts_seen.insert(d) {
            return;
        }
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        let discr: Vec<Option<u128>> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(_, d)| Some(d.val)).collect()
        } else {
            def.variants().iter().map(|_| None).collect()
        };
        for (i, v) in def.variants().iter().enumerate() {
            let fields: Vec<J> = v.fields.iter().map(|f| {
                J::O(vec![
                    ("n", s(f.name.to_string())),
                    ("pub", J::B(f.vis.is_public())),
                ])
            }).collect();
            vs.push(J::O(vec![
                ("n", s(v.name.to_string())),
                ("discr", match discr[i] { Some(x) => J::S(x.to_string()), None => J::Null }),
                ("f", J::A(fields)),
            ]));
        }
        let drop = self.tcx.adt_destructor(d).map(|x| self.rawpath(x.did));
        let p = self.rawpath(d);
        self.adts.insert(p, J::O(vec![
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::B(d.is_local())),
            ("drop", match drop { Some(x) => J::S(x), None => J::Null }),
            ("variants", J::A(vs)),
        ]));
    }

    fn inst_key(&self, i: &Instance<'tcx>) -> String {
        let base = self.rawpath(i.def_id());
        let shim = match i.def {
            InstanceKind::Item(_) => String::new(),
            InstanceKind::Intrinsic(_) => "!intrinsic".into(),
            InstanceKind::LlvmIntrinsic(_) => "!llvm".into(),
            InstanceKind::Virtual(_, n) => format!("!virtual{}", n),
            InstanceKind::Shim(ref k) => format!("!shim:{:?}", k),
        };
        let args = if i.args.is_empty() { String::new() } else { format!("<{}>", i.args.iter().filter_map(|a| match a.kind() {
            ty::GenericArgKind::Type(t) => Some(t.to_string()),
            ty::GenericArgKind::Const(c) => Some(c.to_string()),
            _ => None,
        }).collect::<Vec<_>>().join(",")) };
        format!("{}{}{}", base, args, shim)
    }

    fn env_tag(&self, root: DefId) -> String {
        // generic parameters are only meaningful within their item
        let g = self.tcx.generics_of(root);
        let mut p = root;
        while self.tcx.is_closure_like(p) { p = self.tcx.parent(p); }
        self.rawpath(p)
    }

    fn full_key(&self, i: &Instance<'tcx>, root: DefId) -> String {
        let k = self.inst_key(i);
        if i.args.has_param() {
            format!("{}@{}", k, self.env_tag(root))
        } else {
            k
        }
    }

    fn wants(&self, i: &Instance<'tcx>, depth: usize) -> bool {
        let d = i.def_id();
        match i.def {
            InstanceKind::Item(_) => {}
            InstanceKind::Shim(ref k) => match k {
                ty::ShimKind::ClosureOnce { .. } => return true,
                ty::ShimKind::FnPtr(..) => return true,
                ty::ShimKind::Clone(..) => return true,
                _ => return false,
            },
            _ => return false,
        }
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        if d.is_local() {
            return true;
        }
        if depth > MAXDEPTH {
            return false;
        }
        let p = self.rawpath(d);
        STEP.iter().any(|m| p.starts_with(m))
    }

    fn konst(&mut self, c: &mir::ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId, depth: usize) -> J {
        self.konst2(c.const_, env, root, depth)
    }

    fn konst2(&mut self, c: mir::Const<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId, depth: usize) -> J {
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = vec![("t", n(ti as i64))];
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            o.push(("fn", self.callee(*d, args, env, root, depth)));
            return J::O(o);
        }
        if let mir::Const::Unevaluated(u, _) = c {
            o.push(("def", s(self.rawpath(u.def))));
            if let Some(p) = u.promoted {
                let key = format!("{}#p{}", self.rawpath(u.def), p.as_usize());
                o.push(("promoted", s(key)));
            }
        }
        match c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
            Ok(v) => {
                let x = self.cval(v, t, env, 0);
                o.push(("v", x));
            }
            Err(_) => o.push(("u", s(format!("{}", c)))),
        }
        J::O(o)
    }

    fn cval(&mut self, v: mir::ConstValue, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>, lvl: usize) -> J {
        let ti = n(self.ty(t) as i64);
        match t.kind() {
            ty::Bool => if let Some(b) = v.try_to_bool() { return J::O(vec![("t", ti), ("b", J::B(b))]); },
            ty::Int(_) | ty::Uint(_) | ty::Char => {
                if let Some(x) = v.try_to_scalar_int() {
                    let sz = x.size();
                    let val: i128 = if let ty::Int(_) = t.kind() { x.to_int(sz) } else { x.to_uint(sz) as i128 };
                    return J::O(vec![("t", ti), ("i", J::S(val.to_string()))]);
                }
            }
            ty::Float(ft) => {
                if let Some(x) = v.try_to_scalar_int() {
                    let sz = x.size();
                    let bits = x.to_uint(sz);
                    let f = if sz.bytes() == 4 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits as u64) };
                    return J::O(vec![("t", ti), ("f", J::S(format!("{:?}", f)))]);
                }
            }
            ty::Ref(_, inner, _) => {
                if inner.is_str() {
                    if let mir::ConstValue::Slice { .. } = v {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                            return J::O(vec![("t", ti), ("str", J::S(String::from_utf8_lossy(b).to_string()))]);
                        }
                    }
                }
                if lvl < 4 {
                if let mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.prov_and_relative_offset();
                    match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) => {
                            return J::O(vec![("t", ti), ("static", s(self.rawpath(d)))]);
                        }
                        Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(_)) if inner.is_sized(self.tcx, env) => {
                            let iv = mir::ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                            let x = self.cval(iv, *inner, env, lvl + 1);
                            return J::O(vec![("t", ti), ("ref", x)]);
                        }
                        _ => {}
                    }
                }
                }
            }
            ty::RawPtr(..) => {
                if let mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                        return J::O(vec![("t", ti), ("static", s(self.rawpath(d)))]);
                    }
                }
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                let skip = match t.kind() { ty::Adt(d, _) => d.is_union(), ty::Array(_, l) => l.try_to_target_usize(self.tcx).map_or(true, |x| x > 300), _ => false };
                if !skip && lvl < 6 && !t.has_param() {
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let var = d.variant.map(|x| x.as_usize());
                    let fs: Vec<J> = d.fields.to_vec().into_iter().map(|(v, t)| self.cval(v, t, env, lvl + 1)).collect();
                    return J::O(vec![("t", ti), ("var", match var { Some(x) => n(x as i64), None => J::Null }), ("agg", J::A(fs))]);
                }
                }
            }
            _ => {}
        }
        if let mir::ConstValue::ZeroSized = v {
            return J::O(vec![("t", ti), ("zst", J::B(true))]);
        }
        J::O(vec![("t", ti), ("opaque", J::B(true))])
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId, depth: usize) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o = vec![("d", s(self.rawpath(d)))];
        let ta: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|t| n(self.ty(t) as i64)).collect();
        o.push(("a", J::A(ta)));
        if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            o.push(("unsafe", J::B(true)));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.rawpath(tr))));
        }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            o.push(("ctor", J::B(true)));
            return J::O(o);
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(inst)) => {
                let k = self.full_key(&inst, root);
                o.push(("r", s(self.rawpath(inst.def_id()))));
                o.push(("rk", s(k)));
                o.push(("local", J::B(inst.def_id().is_local())));
                if let InstanceKind::Virtual(..) = inst.def {
                    o.push(("virtual", J::B(true)));
                }
                if self.wants(&inst, depth + 1) {
                    o.push(("body", J::B(true)));
                    self.queue.push_back((inst, root, if inst.def_id().is_local() { 0 } else { depth + 1 }));
                }
            }
            _ => {}
        }
        // how a consumer of an iterator steps it
        let tr = tcx.trait_of_assoc(d).map(|x| self.rawpath(x));
        let tr_did = tcx.trait_of_assoc(d).unwrap_or(d);
        match tr.as_deref() {
            Some("core::iter::traits::iterator::Iterator") if self.flat(args.types().next()).is_some() => {
                // the steps of flatten and flat_map: outer iterator, its items' into_iter, inner iterator
                let (fi, i, u) = self.flat(args.types().next()).unwrap();
                let x = self.next_of(fi, env, root, depth);
                o.push(("outer", x));
                let x = self.next_of(u, env, root, depth);
                o.push(("inner", x));
                let asc = |n: &str| tcx.associated_items(tr_did).in_definition_order().find(|x| x.name().as_str() == n).map(|x| x.def_id);
                if let (Some(item), Some(ii)) = (asc("Item"), tcx.lang_items().into_iter_fn()) {
                    let p = ty::Ty::new_projection(tcx, ty::IsRigid::No, item, [i]);
                    if let Ok(t) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(p)) {
                        let a = tcx.mk_args(&[t.into()]);
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, ii, a) {
                            let x = self.inst_ref(inst, root, depth);
                            o.push(("into", x));
                        }
                    }
                }
            }
            Some("core::iter::traits::iterator::Iterator") => {
                if tcx.item_name(d).as_str() != "next" {
                    let t = args.types().next().unwrap();
                    let x = self.next_of(t, env, root, depth);
                    o.push(("next", x));
                }
            }
            Some("core::iter::adapters::fuse::FuseImpl") => {
                if let Some(t) = args.types().last() {
                    let x = self.next_of(t, env, root, depth);
                    o.push(("next", x));
                }
            }
            Some("core::iter::traits::collect::Extend") | Some("core::iter::traits::collect::FromIterator") => {
                if let Some(t) = args.types().last() {
                    if let Some(ii) = tcx.lang_items().into_iter_fn() {
                        let a = tcx.mk_args(&[t.into()]);
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, ii, a) {
                            let x = self.inst_ref(inst, root, depth);
                            o.push(("into", x));
                            let sig = tcx.fn_sig(inst.def_id());
                            let sig = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, sig);
                            let out = tcx.instantiate_bound_regions_with_erased(sig).output();
                            let x = self.next_of(out, env, root, depth);
                            o.push(("next", x));
                        }
                    }
                }
            }
            _ => {}
        }
        J::O(o)
    }

    fn inst_ref(&mut self, inst: Instance<'tcx>, root: DefId, depth: usize) -> J {
        let tcx = self.tcx;
        let mut o = vec![("d", s(self.rawpath(inst.def_id())))];
        let ta: Vec<J> = inst.args.types().collect::<Vec<_>>().into_iter().map(|t| n(self.ty(t) as i64)).collect();
        o.push(("a", J::A(ta)));
        if let Some(tr) = tcx.trait_of_assoc(inst.def_id()) {
            o.push(("trait", s(self.rawpath(tr))));
        }
        o.push(("r", s(self.rawpath(inst.def_id()))));
        o.push(("rk", s(self.full_key(&inst, root))));
        o.push(("local", J::B(inst.def_id().is_local())));
        if self.wants(&inst, depth + 1) {
            o.push(("body", J::B(true)));
            self.queue.push_back((inst, root, if inst.def_id().is_local() { 0 } else { depth + 1 }));
        }
        J::O(o)
    }

    fn flat(&self, t: Option<Ty<'tcx>>) -> Option<(Ty<'tcx>, Ty<'tcx>, Ty<'tcx>)> {
        if let ty::Adt(def, a) = t?.kind() {
            if self.rawpath(def.did()) == "core::iter::adapters::flatten::FlattenCompat" {
                let f = def.all_fields().next()?.ty(self.tcx, a);
                return Some((self.tcx.erase_and_anonymize_regions(f.skip_norm_wip()), a.types().next()?, a.types().nth(1)?));
            }
        }
        None
    }

    fn next_of(&mut self, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId, depth: usize) -> J {
        let tcx = self.tcx;
        if let Some(nf) = tcx.lang_items().next_fn() {
            let a = tcx.mk_args(&[t.into()]);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, nf, a) {
                let x = self.inst_ref(inst, root, depth);
                return match x {
                    J::O(mut v) => {
                        if !v.iter().any(|(k, _)| *k == "trait") {
                            v.push(("trait", s("core::iter::traits::iterator::Iterator")));
                        }
                        for e in v.iter_mut() {
                            // the generic arguments of the trait method, not of the impl
                            if e.0 == "a" { e.1 = J::A(vec![n(self.ty(t) as i64)]); }
                            if e.0 == "d" { e.1 = s("core::iter::traits::iterator::Iterator::next"); }
                        }
                        J::O(v)
                    }
                    o => o,
                };
            }
            return J::O(vec![
                ("d", s("core::iter::traits::iterator::Iterator::next")),
                ("a", J::A(vec![n(self.ty(t) as i64)])),
                ("trait", s("core::iter::traits::iterator::Iterator")),
            ]);
        }
        J::Null
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref | mir::ProjectionElem::PhantomDeref => J::A(vec![s("d")]),
                mir::ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.as_usize() as i64), n(self.ty(t) as i64)]),
                mir::ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize() as i64)]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(offset), n(min_length), J::B(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("sub"), n(from), n(to), J::B(from_end)]),
                mir::ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_usize() as i64)]),
                mir::ProjectionElem::OpaqueCast(_) => J::A(vec![s("oc")]),
                mir::ProjectionElem::UnwrapUnsafeBinder(_) => J::A(vec![s("oc")]),
            });
        }
        J::A(vec![n(p.local.as_usize() as i64), J::A(v)])
    }

    fn operand(&mut self, op: &mir::Operand<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId, depth: usize) -> J {
        match op {
            mir::Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            mir::Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            mir::Operand::Constant(c) => J::A(vec![s("k"), self.konst(c, env, root, depth)]),
            mir::Operand::RuntimeChecks(r) => J::A(vec![s("rc"), s(format!("{:?}", r))]),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, env: ty::TypingEnv<'tcx>, root: DefId, depth: usize) -> J {
        match r {
            mir::Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, env, root, depth)]),
            mir::Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(self.tcx);
                J::A(vec![s("repeat"), self.operand(o, env, root, depth), match l { Some(x) => n(x), None => J::Null }])
            }
            mir::Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), J::B(matches!(k, mir::BorrowKind::Mut { .. })), self.place(p)]),
            mir::Rvalue::Reborrow(_, m, p) => J::A(vec![s("reborrow"), J::B(m.is_mut()), self.place(p)]),
            mir::Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.rawpath(*d))]),
            mir::Rvalue::RawPtr(k, p) => J::A(vec![s("raw"), J::B(matches!(k, mir::RawPtrKind::Mut)), self.place(p)]),
            mir::Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(o, env, root, depth), n(self.ty(*t) as i64)]),
            mir::Rvalue::BinaryOp(b, ops) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.operand(&ops.0, env, root, depth), self.operand(&ops.1, env, root, depth)]),
            mir::Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(o, env, root, depth)]),
            mir::Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            mir::Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    mir::AggregateKind::Array(t) => J::A(vec![s("array"), n(self.ty(*t) as i64)]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, v, args, _, af) => {
                        self.adt(*d);
                        J::A(vec![s("adt"), s(self.rawpath(*d)), n(v.as_usize() as i64)])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        let k = self.full_key(&inst, root);
                        self.queue.push_back((inst, root, 0));
                        J::A(vec![s("closure"), s(self.rawpath(*d)), s(k)])
                    }
                    mir::AggregateKind::RawPtr(t, m) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                let v: Vec<J> = ops.iter().map(|o| self.operand(o, env, root, depth)).collect();
                J::A(vec![s("agg"), kind, J::A(v)])
            }
            mir::Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            mir::Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(o, env, root, depth)]),
        }
    }

    fn unwind(u: &mir::UnwindAction) -> J {
        match u {
            mir::UnwindAction::Cleanup(b) => n(b.as_usize() as i64),
            mir::UnwindAction::Continue => s("continue"),
            mir::UnwindAction::Unreachable => s("unreachable"),
            mir::UnwindAction::Terminate(_) => s("terminate"),
        }
    }

    fn body(&mut self, key: String, body: &mir::Body<'tcx>, inst_path: String, root: DefId, env: ty::TypingEnv<'tcx>, depth: usize, local: bool) {
        let tcx = self.tcx;
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upvars: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    upvars.push(J::A(vec![s(v.name.to_string()), self.place(&p)]));
                }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            locals.push(J::A(vec![n(self.ty(d.ty) as i64), match names.get(&l.as_usize()) { Some(x) => s(x.clone()), None => J::Null }]));
        }
        let mut blocks = vec![];
        for (bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for stmt in &data.statements {
                match &stmt.kind {
                    mir::StatementKind::Assign(b) => {
                        st.push(J::A(vec![s("="), self.place(&b.0), self.rvalue(&b.1, env, root, depth), self.span(stmt.source_info.span)]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("sd"), self.place(place), n(variant_index.as_usize() as i64)]));
                    }
                    mir::StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(o) => st.push(J::A(vec![s("assume"), self.operand(o, env, root, depth)])),
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            st.push(J::A(vec![s("cno"), self.operand(&c.src, env, root, depth), self.operand(&c.dst, env, root, depth), self.operand(&c.count, env, root, depth), self.span(stmt.source_info.span)]));
                        }
                    },
                    mir::StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), n(l.as_usize() as i64)]));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let sp = self.span(t.source_info.span);
            let b = |x: &mir::BasicBlock| n(x.as_usize() as i64);
            let term = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), b(target)]),
                mir::TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), b(real_target)]),
                mir::TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), b(real_target)]),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let tv: Vec<J> = targets.iter().map(|(v, t)| {
                        let vs = if let ty::Int(it) = dt.kind() {
                            let bits = it.bit_width().unwrap_or(64);
                            let sh = 128 - bits as u32;
                            (((v << sh) as i128) >> sh).to_string()
                        } else { v.to_string() };
                        J::A(vec![J::S(vs), b(&t)])
                    }).collect();
                    J::A(vec![s("switch"), self.operand(discr, env, root, depth), J::A(tv), b(&targets.otherwise()), n(self.ty(dt) as i64), sp])
                }
                mir::TerminatorKind::Return => J::A(vec![s("ret")]),
                mir::TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                mir::TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                mir::TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                mir::TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let nd = pt.needs_drop(tcx, env);
                    J::A(vec![s("drop"), self.place(place), b(target), Self::unwind(unwind), n(self.ty(pt) as i64), J::B(nd), sp])
                }
                mir::TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                    let f = self.operand(func, env, root, depth);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env, root, depth)).collect();
                    J::A(vec![s("call"), f, J::A(a), self.place(destination), match target { Some(t) => b(t), None => J::Null }, Self::unwind(unwind), sp])
                }
                mir::TerminatorKind::TailCall { .. } => J::A(vec![s("other"), s("tailcall")]),
                mir::TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.operand(len, env, root, depth), self.operand(index, env, root, depth)]),
                        mir::AssertKind::Overflow(op, x, y) => J::A(vec![s("overflow"), s(format!("{:?}", op)), self.operand(x, env, root, depth), self.operand(y, env, root, depth)]),
                        mir::AssertKind::OverflowNeg(x) => J::A(vec![s("overflow"), s("Neg"), self.operand(x, env, root, depth)]),
                        mir::AssertKind::DivisionByZero(x) => J::A(vec![s("div0"), self.operand(x, env, root, depth)]),
                        mir::AssertKind::RemainderByZero(x) => J::A(vec![s("div0"), self.operand(x, env, root, depth)]),
                        _ => J::A(vec![s("other")]),
                    };
                    J::A(vec![s("assert"), self.operand(cond, env, root, depth), J::B(*expected), m, b(target), Self::unwind(unwind), sp])
                }
                other => J::A(vec![s("other"), s(format!("{:?}", std::mem::discriminant(other)))]),
            };
            blocks.push(J::A(vec![J::A(st), term, J::B(data.is_cleanup)]));
        }
        let sp = self.span(body.span);
        // how a returned iterator is stepped
        let mut retnext = J::Null;
        let rt = tcx.erase_and_anonymize_regions(body.return_ty());
        if local && matches!(rt.kind(), ty::Adt(..)) {
            if let Some(it) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) {
                use rustc_infer::infer::TyCtxtInferExt;
                use rustc_trait_selection::infer::InferCtxtExt;
                let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
                if infcx.type_implements_trait(it, [rt], penv).must_apply_modulo_regions() {
                    retnext = self.next_of(rt, env, root, depth);
                }
            }
        }
        self.bodies.push(J::O(vec![
            ("retnext", retnext),
            ("key", s(key)),
            ("path", s(inst_path)),
            ("local", J::B(local)),
            ("root", s(self.rawpath(root))),
            ("span", sp),
            ("argc", n(body.arg_count as i64)),
            ("spread", match body.spread_arg { Some(l) => n(l.as_usize() as i64), None => J::Null }),
            ("locals", J::A(locals)),
            ("upvars", J::A(upvars)),
            ("blocks", J::A(blocks)),
        ]));
    }

    fn run_queue(&mut self) {
        while let Some((inst, root, depth)) = self.queue.pop_front() {
            let key = self.full_key(&inst, root);
            if !self.done.insert(key.clone()) {
                continue;
            }
            let env = ty::TypingEnv::post_analysis(self.tcx, root);
            let d = inst.def_id();
            let raw = self.tcx.instance_mir(inst.def);
            let b = inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, env, ty::EarlyBinder::bind(self.tcx, raw.clone()));
            let p = self.rawpath(d);
            self.body(key, &b, p, root, env, depth, d.is_local());
            if d.is_local() && matches!(inst.def, InstanceKind::Item(_)) {
                let pm = self.tcx.promoted_mir(d);
                for (i, pb) in pm.iter_enumerated() {
                    let key = format!("{}#p{}", self.rawpath(d), i.as_usize());
                    if self.done.insert(key.clone()) {
                        let penv = ty::TypingEnv::post_analysis(self.tcx, d);
                        self.body(key.clone(), pb, key, d, penv, depth, true);
                    }
                }
            }
        }
    }
}

struct UnsafeFinder {
    found: Vec<Span>,
}
impl<'tcx> Visitor<'tcx> for UnsafeFinder {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push(b.span);
        }
        intravisit::walk_block(self, b);
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, krate: &str) -> J {
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ix: HashMap::new(),
        adts: BTreeMap::new(),
        adts_seen: HashSet::new(),
        bodies: vec![],
        done: HashSet::new(),
        queue: VecDeque::new(),
    };
    let eff = tcx.effective_visibilities(());
    let mut items = vec![];
    let mut fns = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let path = cx.rawpath(d);
        let sp = cx.span(tcx.def_span(d));
        match kind {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = ty::TypingEnv::post_analysis(tcx, d);
                let fz = t.is_freeze(tcx, env);
                items.push(J::O(vec![
                    ("kind", s("static")),
                    ("path", s(path)),
                    ("mut", J::B(mutability.is_mut())),
                    ("tls", J::B(tcx.is_thread_local_static(d))),
                    ("freeze", J::B(fz)),
                    ("ty", n(cx.ty(t) as i64)),
                    ("span", sp),
                ]));
                // value of the static, for table lookups
                if let Ok(alloc) = tcx.eval_static_initializer(d) {
                    let id = tcx.reserve_and_set_memory_alloc(alloc);
                    let v = mir::ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO };
                    let x = cx.cval(v, t, env, 0);
                    items.push(J::O(vec![("kind", s("staticval")), ("path", s(cx.rawpath(d))), ("v", x)]));
                }
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                cx.adt(d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = ty::TypingEnv::post_analysis(tcx, d);
                let ti = cx.ty(t);
                let fz = t.is_freeze(tcx, env);
                items.push(J::O(vec![
                    ("kind", s("adt")),
                    ("path", s(path)),
                    ("pub", J::B(eff.is_reachable(ld))),
                    ("freeze", J::B(fz)),
                    ("ty", n(ti as i64)),
                    ("span", sp),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let (tr, uns, neg) = if of_trait {
                    let h = tcx.impl_trait_header(d);
                    (
                        s(cx.rawpath(h.trait_ref.skip_binder().def_id)),
                        h.safety.is_unsafe(),
                        !matches!(h.polarity, ty::ImplPolarity::Positive),
                    )
                } else {
                    (J::Null, false, false)
                };
                items.push(J::O(vec![
                    ("kind", s("impl")),
                    ("path", s(path)),
                    ("trait", tr),
                    ("unsafe", J::B(uns)),
                    ("neg", J::B(neg)),
                    ("ty", n(ti as i64)),
                    ("span", sp),
                ]));
            }
            DefKind::ForeignMod => items.push(J::O(vec![("kind", s("foreign")), ("path", s(path)), ("span", sp)])),
            DefKind::GlobalAsm => items.push(J::O(vec![("kind", s("asm")), ("path", s(path)), ("span", sp)])),
            DefKind::Const { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o = vec![("kind", s("const")), ("path", s(path)), ("ty", n(cx.ty(t) as i64)), ("span", sp)];
                if tcx.generics_of(d).is_empty() {
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        let env = ty::TypingEnv::post_analysis(tcx, d);
                        let x = cx.cval(v, t, env, 0);
                        o.push(("v", x));
                    }
                }
                items.push(J::O(o));
            }
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let hir_id = tcx.local_def_id_to_hir_id(ld);
                let has_body = tcx.hir_maybe_body_owned_by(ld).is_some();
                let mut uf = UnsafeFinder { found: vec![] };
                if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
                    uf.visit_body(b);
                }
                let us: Vec<J> = uf.found.iter().map(|x| cx.span(*x)).collect();
                let mut o = vec![
                    ("kind", s("fn")),
                    ("path", s(path)),
                    ("closure", J::B(kind == DefKind::Closure)),
                    ("unsafe_blocks", J::A(us)),
                    ("span", sp),
                ];
                if kind != DefKind::Closure {
                    let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate_identity().skip_norm_wip());
                    let ins: Vec<J> = sig.inputs().iter().map(|t| n(cx.ty(*t) as i64)).collect();
                    o.push(("in", J::A(ins)));
                    o.push(("out", n(cx.ty(sig.output()) as i64)));
                    if let ty::Alias(..) = sig.output().kind() {
                        let env = ty::TypingEnv::post_analysis(tcx, d);
                        let out = tcx.erase_and_anonymize_regions(sig.output());
                        if let Ok(t) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(out)) {
                            if !matches!(t.kind(), ty::Alias(..)) {
                                o.push(("outt", n(cx.ty(t) as i64)));
                                let x = cx.next_of(t, env, d, 0);
                                o.push(("outnext", x));
                            }
                        }
                    }
                    o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                    o.push(("pub", J::B(eff.is_reachable(ld))));
                    let parent = tcx.parent(d);
                    if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                        o.push(("impl", s(cx.rawpath(parent))));
                        if of_trait {
                            let h = tcx.impl_trait_header(parent);
                            o.push(("trait", s(cx.rawpath(h.trait_ref.skip_binder().def_id))));
                        }
                        let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                        o.push(("self", n(cx.ty(st) as i64)));
                        o.push(("derived", J::B(tcx.is_automatically_derived(parent))));
                    }
                    o.push(("name", s(tcx.item_name(d).to_string())));
                }
                // is it inside #[cfg(test)] or a #[test] fn? (only in test builds)
                if has_body && tcx.is_mir_available(d) {
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let inst = Instance::new_raw(d, args);
                    if kind != DefKind::Closure {
                        let k = cx.full_key(&inst, d);
                        o.push(("key", s(k)));
                        cx.queue.push_back((inst, d, 0));
                    }
                }
                fns.push(J::O(o));
            }
            _ => {}
        }
    }
    cx.run_queue();
    let adts: Vec<J> = std::mem::take(&mut cx.adts).into_iter().map(|(k, v)| J::A(vec![J::S(k), v])).collect();
    J::O(vec![
        ("crate", s(krate)),
        ("items", J::A(items)),
        ("fns", J::A(fns)),
        ("adts", J::A(adts)),
        ("types", J::A(cx.types)),
        ("bodies", J::A(cx.bodies)),
    ])
}
