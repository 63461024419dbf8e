//! What the crate reaches for outside of its values: every body, every reference to a foreign function, every static, every piece of unsafe code.
use crate::auto::js;
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor as HirVisitor};
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, TyCtxt};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::BTreeSet;

fn site(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
    let f = lo.file.name.prefer_local_unconditionally().to_string();
    let f = f.rsplit_once("/src/").map(|x| format!("src/{}", x.1)).unwrap_or(f);
    format!("{f}:{}", lo.line)
}

struct Refs<'a, 'tcx> { tcx: TyCtxt<'tcx>, body: &'a Body<'tcx>, owner: String, out: &'a mut Found }
#[derive(Default)]
pub struct Found {
    pub bodies: Vec<String>,
    pub refs: usize,
    pub foreign: BTreeSet<String>,
    pub locals: BTreeSet<(String, String)>,
    /// (kind, what, in which function, where)
    pub hits: BTreeSet<(String, String, String, String)>,
}
const MODULES: &[(&str, &str)] = &[
    ("std::env", "the environment"), ("std::fs", "the file system"), ("std::io", "input and output"), ("std::net", "the network"), ("std::os", "the system"),
    ("std::process", "processes"), ("std::thread", "threads or thread-local state"), ("std::time", "the time"), ("core::time", "the time"), ("std::backtrace", "the call stack"),
    ("std::panicking::begin", ""), ("std::panic::catch_unwind", "panics"), ("std::panic::set_hook", "panics"), ("std::panic::take_hook", "panics"), ("std::alloc::alloc", "raw memory"), ("core::arch", "the machine"),
    ("core::sync::atomic", "shared state"), ("std::sync::mpsc", "shared state"), ("std::sync::poison", "shared state"), ("std::sync::once", "shared state"), ("std::sync::lazy_lock", "shared state"),
    ("std::sync::once_lock", "shared state"), ("std::sync::reentrant_lock", "shared state"), ("std::sync::barrier", "shared state"), ("std::sync::nonpoison", "shared state"), ("core::fmt::Pointer", "addresses"),
    ("std::hash::random", "random numbers"), ("core::random", "random numbers"), ("std::random", "random numbers"),
];

/// the path of an item where it is defined
fn real_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = tcx.def_path(d);
    let mut o = tcx.crate_name(d.krate).to_string();
    for x in p.data { if let Some(n) = x.data.get_opt_name() { o += "::"; o += n.as_str(); } }
    o
}

impl<'a, 'tcx> Refs<'a, 'tcx> {
    fn function(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, sp: Span) {
        let tcx = self.tcx;
        self.out.refs += 1;
        if d.is_local() { self.out.locals.insert((self.owner.clone(), tcx.def_path_str(d))); return }
        let p = real_path(tcx, d);
        self.out.foreign.insert(p.clone());
        let mut hit = |k: &str| { self.out.hits.insert(("effect".into(), format!("{p} ({k})"), self.owner.clone(), site(tcx, sp))); };
        for (m, k) in MODULES { if !k.is_empty() && (p == *m || p.starts_with(&format!("{m}::"))) { hit(k) } }
        let name = tcx.item_name(d);
        let name = name.as_str();
        // the impl blocks' types, for what has no name in the path
        let mut tys: Vec<String> = vec![];
        if let Some(t) = args.types().next() { if let ty::Adt(a, _) = t.peel_refs().kind() { tys.push(real_path(tcx, a.did())) } }
        if let Some(i) = tcx.impl_of_assoc(d) { if let ty::Adt(a, _) = tcx.type_of(i).instantiate_identity().skip_norm_wip().kind() { tys.push(real_path(tcx, a.did())) } }
        for t in &tys {
            let hashed = t.ends_with("::HashMap") || t.ends_with("::HashSet");
            if hashed && matches!(name, "iter" | "iter_mut" | "keys" | "values" | "values_mut" | "into_keys" | "into_values" | "drain" | "retain" | "into_iter" | "next") { hit("the order of a hash table") }
            for (m, k) in MODULES { if !k.is_empty() && t.starts_with(&format!("{m}::")) { hit(k) } }
        }
        if name == "new_pointer" && p.contains("fmt") { hit("addresses") }
        if tcx.is_foreign_item(d) { hit("foreign code") }
    }
}
impl<'a, 'tcx> Visitor<'tcx> for Refs<'a, 'tcx> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, loc: Location) {
        let sp = self.body.source_info(loc).span;
        if let ty::FnDef(d, a) = c.const_.ty().kind() { self.function(*d, a.skip_binder(), sp) }
        if let Some(d) = c.check_static_ptr(self.tcx) {
            if !d.is_local() { self.out.hits.insert(("effect".into(), format!("the static {}", self.tcx.def_path_str(d)), self.owner.clone(), site(self.tcx, sp))); }
        }
        self.super_const_operand(c, loc);
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, loc: Location) {
        let sp = self.body.source_info(loc).span;
        if let Rvalue::Cast(CastKind::PointerExposeProvenance, ..) = r { self.out.hits.insert(("effect".into(), "an address taken as a number".into(), self.owner.clone(), site(self.tcx, sp))); }
        if let Rvalue::ThreadLocalRef(d) = r { self.out.hits.insert(("state".into(), format!("the thread-local {}", self.tcx.def_path_str(*d)), self.owner.clone(), site(self.tcx, sp))); }
        self.super_rvalue(r, loc);
    }
}

struct Unsafe<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Found, owner: String }
impl<'a, 'tcx> HirVisitor<'tcx> for Unsafe<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if matches!(b.rules, hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided)) && !b.span.in_external_macro(self.tcx.sess.source_map()) {
            self.out.hits.insert(("unsafe".into(), "an unsafe block".into(), self.owner.clone(), site(self.tcx, b.span)));
        }
        intravisit::walk_block(self, b)
    }
}

pub fn collect(tcx: TyCtxt<'_>) -> Found {
    let mut out = Found::default();
    for d in tcx.hir_body_owners() {
        let did = d.to_def_id();
        let owner = tcx.def_path_str(did);
        let mut v = Unsafe { tcx, out: &mut out, owner: owner.clone() };
        v.visit_body(tcx.hir_body_owned_by(d));
        let kind = tcx.def_kind(did);
        let body = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(did),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => tcx.mir_for_ctfe(did),
            _ => continue,
        };
        out.bodies.push(owner.clone());
        Refs { tcx, body, owner: owner.clone(), out: &mut out }.visit_body(body);
        for p in tcx.promoted_mir(did).iter() { Refs { tcx, body: p, owner: owner.clone(), out: &mut out }.visit_body(p); }
    }
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        let sp = tcx.def_span(did);
        let name = tcx.def_path_str(did);
        match tcx.def_kind(did) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let frozen = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                if mutability.is_mut() || !frozen { out.hits.insert(("state".into(), format!("the static {name}: {t}"), name.clone(), site(tcx, sp))); }
            }
            DefKind::Fn | DefKind::AssocFn if tcx.fn_sig(did).skip_binder().safety().is_unsafe() => {
                if !sp.in_external_macro(tcx.sess.source_map()) { out.hits.insert(("unsafe".into(), "an unsafe function".into(), name, site(tcx, sp))); }
            }
            DefKind::Impl { of_trait: true } if !tcx.is_automatically_derived(did) && tcx.impl_trait_header(did).safety.is_unsafe() => { out.hits.insert(("unsafe".into(), "an unsafe impl".into(), name, site(tcx, sp))); }
            DefKind::ForeignMod => { out.hits.insert(("unsafe".into(), "foreign functions".into(), name, site(tcx, sp))); }
            _ => {}
        }
    }
    out
}

pub fn record(tcx: TyCtxt<'_>) -> String {
    let f = collect(tcx);
    let l = |i: &mut dyn Iterator<Item = &String>| i.map(|x| js(x)).collect::<Vec<_>>().join(",");
    format!("{{\"name\":\"effects\",\"states\":{},\"refs\":{},\"bodies\":[{}],\"foreign\":[{}],\"hits\":[{}]}}", f.bodies.len(), f.refs, l(&mut f.bodies.iter()), l(&mut f.foreign.iter()),
        f.hits.iter().map(|(a, b, c, d)| format!("[{},{},{},{}]", js(a), js(b), js(c), js(d))).collect::<Vec<_>>().join(","))
}

/// the types of the crate that can be compared or copied
pub fn types(tcx: TyCtxt<'_>) -> String {
    let vis = tcx.effective_visibilities(());
    let mut impls: std::collections::HashMap<DefId, Vec<(String, bool)>> = Default::default();
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Impl { of_trait: true }) { continue }
        let r = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
        let n = tcx.item_name(r.def_id);
        if !matches!(n.as_str(), "PartialEq" | "Clone") || n.as_str() == "PartialEq" && r.args.type_at(1) != r.self_ty() { continue }
        if let ty::Adt(a, _) = r.self_ty().kind() { impls.entry(a.did()).or_default().push((n.to_string(), tcx.is_automatically_derived(did))) }
    }
    let mut out = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) || !vis.is_reachable(d) { continue }
        let Some(i) = impls.get(&did) else { continue };
        let ad = tcx.adt_def(did);
        let vs = ad.variants().iter().map(|v| format!("[{},[{}]]", js(v.name.as_str()), v.fields.iter().map(|f| js(f.name.as_str())).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",");
        out.push(format!("{{\"type\":{},\"path\":{},\"enum\":{},\"variants\":[{vs}],\"impls\":[{}],\"site\":{}}}", js(tcx.item_name(did).as_str()), js(&tcx.def_path_str(did)), ad.is_enum(),
            i.iter().map(|(a, b)| format!("[{},{}]", js(a), b)).collect::<Vec<_>>().join(","), js(&site(tcx, tcx.def_span(did)))));
    }
    format!("{{\"name\":\"types\",\"states\":{},\"types\":[{}]}}", out.len(), out.join(","))
}
