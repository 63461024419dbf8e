//! Path-sensitive abstract interpreter over drop-elaborated MIR.
//!
//! The interpreter explores the product of control location and abstract store
//! (a finite domain; equal states are merged) and produces a graph whose edges
//! carry the observable events of the analysed function: what it takes from its
//! input stream, which other parser productions and builder methods it calls and
//! with what, and what it returns.
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub const EOF_TOK: usize = 63;
pub const EOF_CH: usize = 128;
pub const CH_WS: usize = 129;
pub const CH_ALPHA: usize = 130;
pub const CH_NUM: usize = 131;
pub const CH_OTHER: usize = 132;
pub const TEXT0: usize = 64;
pub const MID: u32 = 20;
/// larger bounds, for the thorough runs
pub fn deep() -> bool { std::env::var_os("CONCH_SA_DEEP").is_some() }
pub fn block(bb: u32) -> u32 { bb & ((1 << MID) - 1) }

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Lab { pub txt: Rc<str>, pub la: Vec<Mask> }
impl Lab {
    pub fn t(x: &str) -> Lab { Lab { txt: s(x), la: vec![] } }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FK { Body(u32), Native(&'static str) }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Frame {
    pub k: FK,
    /// block, and above `MID` the statement to go on with
    pub bb: u32,
    /// statements of the block are done, the terminator is next
    pub t: bool,
    pub locals: Vec<V>,
    /// where the caller wants the result
    pub dest: Option<Pl>,
    pub target: u32,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct St {
    pub frames: Vec<Frame>,
    pub lost: BTreeSet<Rc<str>>,
}

pub struct BodyInfo<'tcx> {
    pub body: &'tcx Body<'tcx>,
    pub args: GenericArgsRef<'tcx>,
    pub def: DefId,
    pub preds: Vec<u32>,
    pub livein: Vec<Vec<bool>>,
    pub name: String,
    pub local: bool,
}

#[derive(Debug)]
pub enum Stop {
    /// refine the partition of the input alphabet and start over
    Refine(bool, Vec<Mask>),
    AddText(String),
    /// the statement at hand needs to know the variant of this value
    Disc(V),
    Fail(String),
}
pub type R<T> = Result<T, Stop>;

pub enum Out { Cont, Split(Vec<(Vec<Lab>, St)>), Done(Vec<Lab>), Dead }

pub struct Ctx { pub dest: Option<Pl>, pub target: Option<u32>, pub span: Span }

pub enum H {
    No,
    Val(V),
    Multi(Vec<(Vec<Lab>, St, V)>),
    /// split the state before the call and execute the call again
    Retry(Vec<(Vec<Lab>, St)>),
    /// frames were pushed
    Pushed,
    /// already finished alternatives
    Done2(Vec<(Vec<Lab>, St)>),
    Dead,
}

#[derive(Clone)]
pub struct Edge { pub labs: Vec<u32>, pub to: usize, pub site: u32 }

#[derive(Clone, Default)]
pub struct Config {
    /// local functions (by path suffix) that are treated as opaque productions
    pub nts: HashSet<String>,
    /// productions known to begin by skipping blanks
    pub wskip: HashSet<String>,
    /// treat `skip_whitespace` by its specification
    pub ws_intrinsic: bool,
    pub max_states: usize,
    pub recursion: usize,
    /// analyse the token iterators themselves instead of using their specification
    pub raw_iter: bool,
    /// places further back than this only keep their order
    pub at_old: i128,
    pub raw_stream_ch: bool,
    pub raw_builder: bool,
    /// vectors with all their elements
    pub exact: bool,
    /// greatest length of a vector about which nothing is known
    pub maxlen: usize,
    pub far: Vec<usize>,
    /// numbers that only count are not followed beyond a few
    pub counts: bool,
    /// functions to keep opaque (pure)
    pub opaque: HashSet<String>,
}

pub struct Graph {
    pub edges: Vec<Vec<Edge>>,
    pub labels: Vec<Lab>,
    pub sites: Vec<String>,
    pub texts: Vec<(usize, String)>,
    pub states: usize,
    pub steps: usize,
    pub unknown_asserts: BTreeSet<(String, String, String)>,
    pub panics: BTreeSet<(String, String)>,
    pub opaque_calls: BTreeSet<String>,
    pub inlined: BTreeSet<String>,
    pub nt_calls: BTreeSet<String>,
    pub top_branches: BTreeSet<(String, String, String)>,
}

pub struct An<'tcx> {
    pub found_bad: bool,
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub cfg: Config,
    pub adts: Vec<DefId>,
    pub adt_ix: HashMap<DefId, u32>,
    pub fns: Vec<(DefId, GenericArgsRef<'tcx>)>,
    pub fn_ix: HashMap<(DefId, GenericArgsRef<'tcx>), u32>,
    pub clos: Vec<(DefId, GenericArgsRef<'tcx>)>,
    pub clo_ix: HashMap<(DefId, GenericArgsRef<'tcx>), u32>,
    pub bodies: Vec<Rc<BodyInfo<'tcx>>>,
    pub split_lists: bool,
    pub body_ix: HashMap<(DefId, u32, GenericArgsRef<'tcx>), u32>,
    pub const_cache: HashMap<(DefId, u32, GenericArgsRef<'tcx>), V>,
    pub tpart: Vec<Mask>,
    pub cpart: Vec<Mask>,
    pub texts: Vec<(usize, String)>,
    pub token_def: DefId,
    pub nkinds: usize,
    pub payload_kinds: Vec<usize>,
    // graph
    pub nodes: HashMap<Rc<St>, usize>,
    pub work: Vec<(usize, Rc<St>)>,
    pub edges: Vec<Vec<Edge>>,
    pub labels: Vec<Lab>,
    pub lab_ix: HashMap<Lab, u32>,
    pub sites: Vec<String>,
    pub site_ix: HashMap<String, u32>,
    pub cur_span: Span,
    pub steps: usize,
    pub unknown_asserts: BTreeSet<(String, String, String)>,
    pub panics: BTreeSet<(String, String)>,
    pub opaque_calls: BTreeSet<String>,
    pub inlined: BTreeSet<String>,
    pub nt_calls: BTreeSet<String>,
    pub path_cache: HashMap<DefId, Rc<str>>,
    pub short_cache: HashMap<DefId, Rc<str>>,
    pub top_branches: BTreeSet<(String, String, String)>,
    pub ws_kinds: (usize, usize, usize),
    pub iter_proj: Vec<P>,
    pub parser_iter_field: u16,
}

pub enum PR { B(bool), Top, Split(Vec<(Vec<Lab>, St)>) }
pub enum RP { Pl(Pl), Val(V) }

impl<'tcx> An<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>, root: DefId, cfg: Config, token_def: DefId) -> Self {
        let ad = tcx.adt_def(token_def);
        let mut payload = vec![];
        for (i, v) in ad.variants().iter_enumerated() {
            if let Some(f) = v.fields.iter().next() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                if t.is_adt() && tcx.def_path_str(t.ty_adt_def().unwrap().did()).ends_with("String") { payload.push(i.as_usize()); }
            }
        }
        let kind_of = |n: &str| ad.variants().iter().position(|v| v.name.as_str() == n).unwrap_or(EOF_TOK);
        let n = ad.variants().len();
        let mut all = Mask::NONE;
        for i in 0..n { all.set(i) }
        let mut call = Mask::NONE;
        for i in 0..128 { call.set(i) }
        for i in [CH_WS, CH_ALPHA, CH_NUM, CH_OTHER] { call.set(i) }
        An {
            found_bad: false,
            tcx, env: TypingEnv::post_analysis(tcx, root), cfg,
            adts: vec![], adt_ix: HashMap::new(), fns: vec![], fn_ix: HashMap::new(), clos: vec![], clo_ix: HashMap::new(),
            bodies: vec![], split_lists: false, body_ix: HashMap::new(), const_cache: HashMap::new(),
            tpart: vec![all, Mask::one(EOF_TOK)], cpart: vec![call, Mask::one(EOF_CH)], texts: vec![],
            token_def, nkinds: n, payload_kinds: payload,
            nodes: HashMap::new(), work: vec![], edges: vec![], labels: vec![], lab_ix: HashMap::new(),
            sites: vec![], site_ix: HashMap::new(), cur_span: rustc_span::DUMMY_SP, steps: 0,
            unknown_asserts: BTreeSet::new(), panics: BTreeSet::new(), opaque_calls: BTreeSet::new(), inlined: BTreeSet::new(), nt_calls: BTreeSet::new(),
            path_cache: HashMap::new(), short_cache: HashMap::new(), top_branches: BTreeSet::new(), ws_kinds: (kind_of("Whitespace"), kind_of("Backslash"), kind_of("Newline")), iter_proj: vec![P::F(0)], parser_iter_field: 0,
        }
    }
    pub fn all_mask(&self, ch: bool) -> Mask {
        let mut m = Mask::NONE;
        for p in if ch { &self.cpart } else { &self.tpart } { m = m.or(p) }
        m
    }
    pub fn refine(&mut self, ch: bool, by: &[Mask]) -> bool {
        let part = if ch { &mut self.cpart } else { &mut self.tpart };
        let before = part.len();
        for m in by {
            let mut n = vec![];
            for p in part.iter() {
                let a = p.and(m);
                let b = p.sub(m);
                if !a.is_empty() { n.push(a) }
                if !b.is_empty() { n.push(b) }
            }
            *part = n;
        }
        part.len() > before
    }
    pub fn add_text(&mut self, t: &str) -> bool {
        if self.texts.iter().any(|(_, x)| x == t) { return false; }
        for k in self.payload_kinds.clone() {
            let a = TEXT0 + self.texts.len();
            if a >= 256 { return false }
            self.texts.push((k, t.to_string()));
            // the text atom was so far part of the class of its kind
            for p in self.tpart.iter_mut() { if p.has(k) { p.set(a) } }
        }
        true
    }
    pub fn text_atoms(&self, t: &str) -> Mask {
        let mut m = Mask::NONE;
        for (i, (_, x)) in self.texts.iter().enumerate() { if x == t { m.set(TEXT0 + i) } }
        m
    }
    pub fn kind_mask(&self, k: usize) -> Mask {
        let mut m = Mask::one(k);
        for (i, (kk, _)) in self.texts.iter().enumerate() { if *kk == k { m.set(TEXT0 + i) } }
        m
    }
    pub fn atom_kind(&self, a: usize) -> usize { if a >= TEXT0 { self.texts[a - TEXT0].0 } else { a } }

    pub fn path(&mut self, d: DefId) -> Rc<str> {
        if let Some(p) = self.path_cache.get(&d) { return p.clone(); }
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        let p: Rc<str> = Rc::from(p);
        self.path_cache.insert(d, p.clone());
        p
    }
    pub fn adt(&mut self, d: DefId) -> u32 {
        if let Some(i) = self.adt_ix.get(&d) { return *i; }
        let i = self.adts.len() as u32;
        self.adts.push(d);
        self.adt_ix.insert(d, i);
        i
    }
    pub fn fnv(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> V {
        if let Some(i) = self.fn_ix.get(&(d, a)) { return V::Fn(*i); }
        let i = self.fns.len() as u32;
        self.fns.push((d, a));
        self.fn_ix.insert((d, a), i);
        V::Fn(i)
    }
    pub fn clo(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> u32 {
        if let Some(i) = self.clo_ix.get(&(d, a)) { return *i; }
        let i = self.clos.len() as u32;
        self.clos.push((d, a));
        self.clo_ix.insert((d, a), i);
        i
    }
    pub fn variant_name(&self, adt: u32, v: u32) -> String {
        let ad = self.tcx.adt_def(self.adts[adt as usize]);
        ad.variants()[rustc_abi::VariantIdx::from_u32(v)].name.to_string()
    }
    pub fn adt_name(&self, adt: u32) -> String { self.tcx.item_name(self.adts[adt as usize]).to_string() }
    pub fn lang_adt(&mut self, path: &str, v: &str, fields: Vec<V>) -> V {
        let item = match path { "Option" => rustc_span::sym::Option, _ => rustc_span::sym::Result };
        let d = self.tcx.get_diagnostic_item(item).unwrap();
        let i = self.adt(d);
        let n = match v { "None" | "Ok" => 0, _ => 1 };
        V::Adt(i, n, fields)
    }
    pub fn some(&mut self, v: V) -> V { self.lang_adt("Option", "Some", vec![v]) }
    pub fn none(&mut self) -> V { self.lang_adt("Option", "None", vec![]) }
    pub fn ok(&mut self, v: V) -> V { self.lang_adt("Result", "Ok", vec![v]) }
    pub fn err(&mut self, v: V) -> V { self.lang_adt("Result", "Err", vec![v]) }

    // ---------------------------------------------------------------- bodies
    pub fn body_of(&mut self, def: DefId, promoted: u32, args: GenericArgsRef<'tcx>) -> Option<u32> {
        if let Some(i) = self.body_ix.get(&(def, promoted, args)) { return Some(*i); }
        let tcx = self.tcx;
        let body: &'tcx Body<'tcx> = if promoted != u32::MAX {
            &tcx.promoted_mir(def)[Promoted::from_u32(promoted)]
        } else {
            match tcx.def_kind(def) {
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Static { .. } => tcx.mir_for_ctfe(def),
                _ => {
                    if !tcx.is_mir_available(def) { return None; }
                    tcx.optimized_mir(def)
                }
            }
        };
        let n = body.basic_blocks.len();
        let mut preds = vec![0u32; n];
        for (_, d) in body.basic_blocks.iter_enumerated() {
            if d.is_cleanup { continue }
            for t in succs(d.terminator()) { preds[t.as_usize()] += 1; }
        }
        let livein = liveness(body);
        let name = self.path(def).to_string();
        let i = self.bodies.len() as u32;
        self.bodies.push(Rc::new(BodyInfo { body, args, def, preds, livein, name, local: def.is_local() }));
        self.body_ix.insert((def, promoted, args), i);
        Some(i)
    }
    pub fn subst<T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, args: GenericArgsRef<'tcx>, t: T) -> T {
        if args.is_empty() {
            return match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new(t.clone())) { Ok(x) => x, Err(_) => t };
        }
        let u = ty::EarlyBinder::bind(self.tcx, t.clone()).instantiate(self.tcx, args);
        match self.tcx.try_normalize_erasing_regions(self.env, u) {
            Ok(x) => x,
            Err(_) => ty::EarlyBinder::bind(self.tcx, t).instantiate(self.tcx, args).skip_norm_wip(),
        }
    }
    pub fn new_frame(&self, b: u32, args: Vec<V>, dest: Option<Pl>, target: u32) -> Frame {
        let bi = &self.bodies[b as usize];
        let mut locals = vec![V::Undef; bi.body.local_decls.len()];
        for (i, a) in args.into_iter().enumerate() { locals[i + 1] = a; }
        Frame { k: FK::Body(b), bb: 0, t: false, locals, dest, target }
    }

    // ---------------------------------------------------------------- places
    pub fn get<'a>(&self, st: &'a St, pl: &'a Pl) -> Option<&'a V> {
        let mut v: &'a V = match &pl.base {
            Base::Local(f, l) => st.frames.get(*f as usize)?.locals.get(*l as usize)?,
            Base::Const(c) => c,
        };
        for p in &pl.proj {
            v = match (p, v) {
                (P::F(i), V::Adt(_, _, fs)) | (P::F(i), V::Tup(fs)) | (P::F(i), V::Clo(_, fs)) | (P::F(i), V::Ext(_, fs)) => fs.get(*i as usize)?,
                (P::Idx(i), V::Arr(fs)) => fs.get(*i as usize)?,
                (P::BoxDeref, V::Bx(b)) => b,
                _ => return None,
            }
        }
        Some(v)
    }
    pub fn read(&self, st: &St, pl: &Pl) -> V { self.get(st, pl).cloned().unwrap_or(V::Top) }
    pub fn set(&self, st: &mut St, pl: &Pl, val: V) {
        let Base::Local(f, l) = pl.base else { return };
        let Some(fr) = st.frames.get_mut(f as usize) else { return };
        let mut v: &mut V = &mut fr.locals[l as usize];
        for p in &pl.proj {
            let nv = match (p, v) {
                (P::F(i), V::Adt(_, _, fs)) | (P::F(i), V::Tup(fs)) | (P::F(i), V::Clo(_, fs)) | (P::F(i), V::Ext(_, fs)) => {
                    let i = *i as usize;
                    while fs.len() <= i { fs.push(V::Undef) }
                    &mut fs[i]
                }
                (P::F(i), x @ V::Undef) => {
                    // field-wise initialisation
                    let mut fs = vec![V::Undef; *i as usize + 1];
                    fs[*i as usize] = V::Undef;
                    *x = V::Tup(fs);
                    let V::Tup(fs) = x else { unreachable!() };
                    &mut fs[*i as usize]
                }
                (P::Idx(i), V::Arr(fs)) => {
                    let i = *i as usize;
                    if i >= fs.len() { return }
                    &mut fs[i]
                }
                (P::BoxDeref, V::Bx(b)) => &mut **b,
                _ => return,
            };
            v = nv;
        }
        *v = val;
    }
    /// follow references to the value behind them
    pub fn deref(&self, st: &St, v: &V) -> V {
        let mut v = v.clone();
        for _ in 0..8 {
            match &v {
                V::Ref(p) => { v = self.read(st, p) }
                _ => return v,
            }
        }
        v
    }
    /// follow references to the innermost place
    pub fn deref_place(&self, st: &St, v: &V) -> Option<Pl> {
        let mut p = match v { V::Ref(p) => p.clone(), _ => return None };
        for _ in 0..8 {
            match self.get(st, &p) {
                Some(V::Ref(q)) => p = q.clone(),
                Some(V::Bx(_)) => { p.proj.push(P::BoxDeref) }
                _ => return Some(p),
            }
        }
        Some(p)
    }
    pub fn bi(&self, st: &St) -> Rc<BodyInfo<'tcx>> {
        let FK::Body(b) = st.frames.last().unwrap().k else { panic!() };
        self.bodies[b as usize].clone()
    }
    pub fn field_name(&self, bi: &BodyInfo<'tcx>, p: &mir::Place<'tcx>, i: usize, f: usize) -> String {
        let pt = mir::Place::ty_from(p.local, &p.projection[..i], bi.body, self.tcx);
        match pt.ty.kind() {
            ty::Adt(ad, _) => {
                if let Some(vi) = pt.variant_index {
                    let v = &ad.variants()[vi];
                    let n = v.fields[rustc_abi::FieldIdx::from_usize(f)].name.to_string();
                    format!("{}.{}", v.name, n)
                } else if ad.is_struct() {
                    ad.non_enum_variant().fields[rustc_abi::FieldIdx::from_usize(f)].name.to_string()
                } else { format!("{f}") }
            }
            _ => format!("{f}"),
        }
    }
    pub fn el_payload(&self, e: &El) -> V {
        V::Ext("text", vec![V::El(e.clone())])
    }
    pub fn place(&self, st: &St, p: &mir::Place<'tcx>) -> RP {
        let fi = (st.frames.len() - 1) as u16;
        let bi = self.bi(st);
        let mut cur = RP::Pl(Pl { base: Base::Local(fi, p.local.as_u32() as u16), proj: vec![] });
        for (i, e) in p.projection.iter().enumerate() {
            cur = match e {
                ProjectionElem::Deref => {
                    let v = match &cur { RP::Pl(pl) => self.read(st, pl), RP::Val(v) => v.clone() };
                    match v {
                        V::Ref(q) => RP::Pl(q),
                        V::Bx(_) => match cur { RP::Pl(mut pl) => { pl.proj.push(P::BoxDeref); RP::Pl(pl) } RP::Val(V::Bx(b)) => RP::Val(*b), x => x },
                        V::Stream(_) | V::Adt(..) | V::Tup(..) | V::Arr(..) | V::Vec(..) | V::Ext(..) if matches!(cur, RP::Pl(_)) => cur,
                        v => RP::Val(v),
                    }
                }
                ProjectionElem::Field(f, _) => {
                    let f = f.as_usize();
                    let fv = |v: &V, cur_pl: Option<&Pl>| -> RP {
                        match v {
                            V::Bx(_) => match cur_pl { Some(pl) => { let mut q = pl.clone(); q.proj.push(P::BoxDeref); RP::Val(V::Ref(q)) } None => RP::Val(v.clone()) },
                            V::Ref(_) => RP::Val(v.clone()),
                            V::Stream(_) => match cur_pl { Some(pl) => RP::Pl(pl.clone()), None => RP::Val(v.clone()) },
                            V::Adt(_, _, fs) | V::Tup(fs) | V::Clo(_, fs) => match cur_pl {
                                Some(pl) => { let mut q = pl.clone(); q.proj.push(P::F(f as u16)); RP::Pl(q) }
                                None => RP::Val(fs.get(f).cloned().unwrap_or(V::Top)),
                            },
                            V::Undef => match cur_pl { Some(pl) => { let mut q = pl.clone(); q.proj.push(P::F(f as u16)); RP::Pl(q) } None => RP::Val(V::Top) },
                            V::Sym(sy) => RP::Val(V::Sym(sy.child(&self.field_name(&bi, p, i, f)))),
                            V::El(e) if !e.ch => RP::Val(self.el_payload(e)),
                            _ => RP::Val(V::Top),
                        }
                    };
                    match &cur {
                        RP::Pl(pl) => match self.get(st, pl) { Some(v) => fv(v, Some(pl)), None => RP::Val(V::Top) },
                        RP::Val(v) => fv(v, None),
                    }
                }
                ProjectionElem::Index(l) => {
                    let iv = st.frames[fi as usize].locals[l.as_usize()].clone();
                    let v = match &cur { RP::Pl(pl) => self.read(st, pl), RP::Val(v) => v.clone() };
                    match (v, iv) {
                        (V::Arr(a), V::Int(i)) if (i as usize) < a.len() => match cur { RP::Pl(mut pl) => { pl.proj.push(P::Idx(i as u16)); RP::Pl(pl) } _ => RP::Val(a[i as usize].clone()) },
                        (V::Sym(sy), _) => RP::Val(V::Sym(sy.child("[]"))),
                        _ => RP::Val(V::Top),
                    }
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let v = match &cur { RP::Pl(pl) => self.read(st, pl), RP::Val(v) => v.clone() };
                    match v {
                        V::Arr(a) => {
                            let ix = if from_end { a.len() as u64 - offset } else { offset } as usize;
                            match cur { RP::Pl(mut pl) => { pl.proj.push(P::Idx(ix as u16)); RP::Pl(pl) } _ => RP::Val(a.get(ix).cloned().unwrap_or(V::Top)) }
                        }
                        V::Sym(sy) => RP::Val(V::Sym(sy.child(&format!("[{}]", offset)))),
                        _ => RP::Val(V::Top),
                    }
                }
                ProjectionElem::Subslice { .. } => RP::Val(V::Top),
                _ => cur,
            };
        }
        cur
    }
    pub fn read_rp(&self, st: &St, rp: &RP) -> V {
        match rp { RP::Pl(p) => self.read(st, p), RP::Val(v) => v.clone() }
    }
    pub fn operand(&mut self, st: &mut St, o: &Operand<'tcx>) -> R<V> {
        match o {
            Operand::Copy(p) => { let rp = self.place(st, p); Ok(self.read_rp(st, &rp)) }
            Operand::Move(p) => {
                let rp = self.place(st, p);
                let v = self.read_rp(st, &rp);
                if let RP::Pl(pl) = &rp { if !matches!(v, V::Int(_)) { self.set(st, pl, V::Undef); } }
                Ok(v)
            }
            Operand::Constant(c) => {
                let bi = self.bi(st);
                self.konst(c.const_, bi.args, c.span)
            }
            Operand::RuntimeChecks(_) => Ok(V::Int(0)),
        }
    }
    pub fn konst(&mut self, c: mir::Const<'tcx>, fargs: GenericArgsRef<'tcx>, span: Span) -> R<V> {
        let t = self.subst(fargs, c.ty());
        if let ty::FnDef(d, a) = t.kind() { let a = a.skip_binder(); return Ok(self.fnv(*d, a)); }
        match c {
            mir::Const::Val(cv, _) => Ok(self.conv(cv, t)),
            mir::Const::Unevaluated(uv, _) => {
                let args = self.subst(fargs, uv.args);
                if let Some(p) = uv.promoted { return self.eval_const_body(uv.def, p.as_u32(), args); }
                if uv.def.is_local() { return self.eval_const_body(uv.def, u32::MAX, args); }
                let c2 = mir::Const::Unevaluated(mir::UnevaluatedConst { def: uv.def, args, promoted: None }, t);
                match c2.eval(self.tcx, self.env, span) { Ok(cv) => Ok(self.conv(cv, t)), Err(_) => Ok(V::Top) }
            }
            mir::Const::Ty(..) => {
                let c = self.subst(fargs, c);
                match c.eval(self.tcx, self.env, span) { Ok(cv) => Ok(self.conv(cv, t)), Err(_) => Ok(V::Top) }
            }
        }
    }
    pub fn conv(&mut self, cv: ConstValue, t: Ty<'tcx>) -> V {
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) => match cv.try_to_scalar_int() { Some(i) => V::Int(i.to_bits(i.size()) as i128), None => V::Top },
            ty::Int(_) => match cv.try_to_scalar_int() { Some(i) => V::Int(i.to_int(i.size())), None => V::Top },
            ty::Tuple(l) if l.is_empty() => V::unit(),
            ty::Closure(d, a) => { let i = self.clo(*d, a); V::Clo(i, vec![]) }
            ty::FnDef(d, a) => { let a = a.skip_binder(); self.fnv(*d, a) }
            ty::Ref(_, inner, _) => {
                if inner.is_str() {
                    if matches!(cv, ConstValue::Slice { .. } | ConstValue::Indirect { .. }) {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) { return V::Str(s(&String::from_utf8_lossy(b))); }
                    }
                    V::Top
                } else {
                    if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = cv {
                        // reference to a sized static value
                        let (prov, off) = p.prov_and_relative_offset();
                        let cv2 = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        let v = self.conv(cv2, *inner);
                        return V::Ref(Pl { base: Base::Const(Rc::new(v)), proj: vec![] });
                    }
                    V::Top
                }
            }
            ty::Adt(ad, _) => {
                let d = ad.did();
                if let Some(dc) = self.tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    let ix = self.adt(d);
                    let vi = dc.variant.map(|v| v.as_u32()).unwrap_or(0);
                    let fs: Vec<V> = dc.fields.iter().map(|(c, t)| self.conv(*c, *t)).collect();
                    return V::Adt(ix, vi, fs);
                }
                V::Top
            }
            ty::Tuple(_) | ty::Array(..) => {
                if let Some(dc) = self.tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    let fs: Vec<V> = dc.fields.iter().map(|(c, t)| self.conv(*c, *t)).collect();
                    return if t.is_array() { V::Arr(fs) } else { V::Tup(fs) };
                }
                V::Top
            }
            _ => V::Top,
        }
    }
    fn eval_const_body(&mut self, def: DefId, promoted: u32, args: GenericArgsRef<'tcx>) -> R<V> {
        if let Some(v) = self.const_cache.get(&(def, promoted, args)) { return Ok(v.clone()); }
        let Some(b) = self.body_of(def, promoted, args) else { return Ok(V::Top) };
        let mut st = St::default();
        st.frames.push(self.new_frame(b, vec![], None, 0));
        let sp = self.cur_span;
        let mut n = 0;
        let r = loop {
            n += 1;
            if n > 2000 { break V::Top }
            // stop at the return of the const body itself
            if st.frames.len() == 1 {
                let bi = self.bi(&st);
                let bb = BasicBlock::from_u32(block(st.frames[0].bb));
                if let TerminatorKind::Return = bi.body.basic_blocks[bb].terminator().kind {
                    for stmt in &bi.body.basic_blocks[bb].statements { self.stmt(&mut st, stmt)?; }
                    let v = st.frames[0].locals[0].clone();
                    break self.freeze(&st, &v, 0);
                }
            }
            match self.step(&mut st)? { Out::Cont => {} _ => break V::Top }
        };
        self.cur_span = sp;
        self.const_cache.insert((def, promoted, args), r.clone());
        Ok(r)
    }
    pub fn freeze(&self, st: &St, v: &V, d: usize) -> V {
        if d > 12 { return V::Top }
        match v {
            V::Ref(p) => { let x = self.read(st, p); let x = self.freeze(st, &x, d + 1); V::Ref(Pl { base: Base::Const(Rc::new(x)), proj: vec![] }) }
            V::Adt(a, b, fs) => V::Adt(*a, *b, fs.iter().map(|f| self.freeze(st, f, d + 1)).collect()),
            V::Tup(fs) => V::Tup(fs.iter().map(|f| self.freeze(st, f, d + 1)).collect()),
            V::Arr(fs) => V::Arr(fs.iter().map(|f| self.freeze(st, f, d + 1)).collect()),
            V::Clo(i, fs) => V::Clo(*i, fs.iter().map(|f| self.freeze(st, f, d + 1)).collect()),
            V::Bx(b) => V::Bx(Box::new(self.freeze(st, b, d + 1))),
            x => x.clone(),
        }
    }

    // ---------------------------------------------------------------- statements
    pub fn place_ty(&self, st: &St, p: &mir::Place<'tcx>) -> Ty<'tcx> {
        let bi = self.bi(st);
        self.subst(bi.args, p.ty(bi.body, self.tcx).ty)
    }
    /// a symbolic struct of which a part may be changed is laid open into its fields
    fn open_place(&mut self, st: &mut St, p: &mir::Place<'tcx>) {
        for (i, e) in p.projection.iter().enumerate() {
            let ProjectionElem::Field(..) = e else { continue };
            let q = mir::Place { local: p.local, projection: self.tcx.mk_place_elems(&p.projection[..i]) };
            let RP::Pl(pl) = self.place(st, &q) else { continue };
            let Some(V::Sym(y)) = self.get(st, &pl) else { continue };
            let y = y.clone();
            match self.place_ty(st, &q).kind() {
                ty::Adt(ad, _) if ad.is_struct() && ad.did().is_local() => {
                    let fs = ad.non_enum_variant().fields.iter().map(|f| V::Sym(y.child(f.name.as_str()))).collect();
                    let ix = self.adt(ad.did());
                    self.set(st, &pl, V::Adt(ix, 0, fs));
                }
                ty::Tuple(ts) => { let fs = (0..ts.len()).map(|i| V::Sym(y.child(&format!("{i}")))).collect(); self.set(st, &pl, V::Tup(fs)) }
                _ => {}
            }
        }
    }
    pub fn stmt(&mut self, st: &mut St, stm: &Statement<'tcx>) -> R<()> {
        match &stm.kind {
            StatementKind::Assign(b) => {
                let (pl, rv) = &**b;
                if let Rvalue::Ref(_, mir::BorrowKind::Mut { .. }, p) | Rvalue::RawPtr(_, p) = rv { self.open_place(st, p) }
                self.open_place(st, pl);
                let v = self.rvalue(st, rv, pl)?;
                let rp = self.place(st, pl);
                match rp {
                    RP::Pl(p) => self.set(st, &p, v),
                    RP::Val(V::Top) => {}
                    RP::Val(_) => return Err(Stop::Fail("a write that cannot be followed".into())),
                }
            }
            StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => {
                st.frames.last_mut().unwrap().locals[l.as_usize()] = V::Undef;
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let t = self.place_ty(st, place);
                if let ty::Adt(ad, _) = t.kind() {
                    let ix = self.adt(ad.did());
                    if let RP::Pl(p) = self.place(st, place) {
                        let old = self.read(st, &p);
                        let fs = match old { V::Adt(_, _, f) | V::Tup(f) => f, _ => vec![] };
                        self.set(st, &p, V::Adt(ix, variant_index.as_u32(), fs));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    pub fn fold_rec(&self, adt: u32, v: &mut V, depth: usize) {
        // bound the nesting of recursive data
        match v {
            V::Adt(a, _, fs) => {
                let d = if *a == adt { depth + 1 } else { depth };
                if *a == adt && depth >= 2 { *v = V::sym(&format!("~{}", self.adt_name(adt))); return }
                for f in fs { self.fold_rec(adt, f, d) }
            }
            V::Bx(b) => self.fold_rec(adt, b, depth),
            V::Tup(fs) | V::Ext(_, fs) => for f in fs { self.fold_rec(adt, f, depth) },
            V::Vec(vv) => for f in vv.el.iter_mut() { self.fold_rec(adt, f, depth) },
            _ => {}
        }
    }
    fn rvalue(&mut self, st: &mut St, rv: &Rvalue<'tcx>, _dest: &mir::Place<'tcx>) -> R<V> {
        Ok(match rv {
            Rvalue::Use(o, _) => self.operand(st, o)?,
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, o)?;
                let bi = self.bi(st);
                let n = self.subst(bi.args, *n);
                match n.try_to_target_usize(self.tcx) { Some(n) if n < 64 => V::Arr(vec![v; n as usize]), _ => V::Top }
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                match self.place(st, p) {
                    RP::Pl(pl) => {
                        // immutable leaf values are their own references
                        match self.get(st, &pl) {
                            Some(v @ V::Str(_)) => v.clone(),
                            // what lies in something that stands for its own reference
                            Some(v @ V::Sym(_)) if matches!(rv, Rvalue::Ref(_, mir::BorrowKind::Shared, _)) && p.projection.len() > 1 && p.projection[0] == ProjectionElem::Deref
                                && matches!(st.frames.last().unwrap().locals[p.local.as_usize()], V::Adt(..) | V::Tup(..)) => v.clone(),
                            Some(v @ V::El(_)) if p.projection.iter().any(|e| e == ProjectionElem::Deref) => v.clone(),
                            _ => V::Ref(pl),
                        }
                    }
                    RP::Val(v) => match v {
                        V::Adt(..) | V::Tup(..) | V::Arr(..) | V::Vec(..) | V::Int(_) => V::Ref(Pl { base: Base::Const(Rc::new(v)), proj: vec![] }),
                        v => v,
                    },
                }
            }
            Rvalue::ThreadLocalRef(_) => V::Top,
            Rvalue::Cast(_, o, t) => {
                if let Operand::Copy(p) | Operand::Move(p) = o {
                    let rp = self.place(st, p);
                    let v = self.read_rp(st, &rp);
                    if matches!(v, V::SymDisc(..) | V::Ext("textdisc", _)) { return Err(Stop::Disc(v)) }
                }
                let v = self.operand(st, o)?;
                let (t, from) = { let bi = self.bi(st); let f = o.ty(bi.body, self.tcx); (self.subst(bi.args, *t), self.subst(bi.args, f)) };
                // only of ASCII characters nothing is lost in a byte
                if let V::El(e) = &v {
                    if e.ch && t.is_integral() && t.primitive_size(self.tcx).bytes() < 4 {
                        let mut ascii = Mask::NONE;
                        for at in e.mask.iter() { if at < 128 { ascii.set(at) } }
                        if ascii != e.mask {
                            if ascii == Mask::NONE { return Ok(V::sym(&format!("trunc({})", self.show(st, &v)))) }
                            if e.frozen() { return Ok(V::Top) }
                            return Err(Stop::Refine(true, vec![ascii]))
                        }
                    }
                }
                match &v {
                    V::Sym(y) if t.is_floating_point() || from.is_floating_point() => V::sym(&format!("{} as {t}", y.show())),
                    V::Int(i) if t.is_integral() && !from.is_char() => {
                        // the value in the type it is converted to
                        let n = t.primitive_size(self.tcx).bits() as u32;
                        if n < 128 { let m = i & ((1i128 << n) - 1); V::Int(if t.is_signed() && m >> (n - 1) & 1 != 0 { m - (1i128 << n) } else { m }) } else { v }
                    }
                    V::Sym(y) if t.is_integral() && from.is_integral() && t.primitive_size(self.tcx) < from.primitive_size(self.tcx) => V::sym(&format!("trunc({})", y.show())),
                    V::Int(_) | V::Ref(_) | V::Fn(_) | V::Clo(..) | V::Sym(_) | V::Str(_) | V::Stream(_) | V::Bx(_) | V::El(_) => v,
                    V::Adt(a, vi, fs) if fs.is_empty() && (t.is_integral()) => {
                        let ad = self.tcx.adt_def(self.adts[*a as usize]);
                        V::Int(ad.discriminant_for_variant(self.tcx, rustc_abi::VariantIdx::from_u32(*vi)).val as i128)
                    }
                    V::Ext(..) => V::sym(&format!("{} as {}", self.show(st, &v), t)),
                    _ => v,
                }
            }
            Rvalue::BinaryOp(op, b) => {
                let a = self.operand(st, &b.0)?;
                let c = self.operand(st, &b.1)?;
                if matches!(op, BinOp::BitAnd | BinOp::BitOr) && !matches!((&a, &c), (V::Int(_), V::Int(_))) {
                    // connectives of truth values, not of the bits of numbers
                    let t = { let bi = self.bi(st); let t = b.0.ty(bi.body, self.tcx); self.subst(bi.args, t) };
                    if !t.is_bool() { return Ok(self.arith_sym(st, *op, &a, &c)) }
                }
                self.binop(st, *op, a, c)?
            }
            Rvalue::UnaryOp(op, o) => {
                let a = self.operand(st, o)?;
                match (op, a) {
                    (UnOp::Not, V::Int(i)) => {
                        let t = { let bi = self.bi(st); let t = o.ty(bi.body, self.tcx); self.subst(bi.args, t) };
                        if t.is_bool() { V::Int(1 - i) } else { V::Top }
                    }
                    (UnOp::Not, V::Sym(y)) => V::Ext("not", vec![V::Sym(y)]),
                    (UnOp::Not, V::Ext("cmp", x)) => V::Ext("not", vec![V::Ext("cmp", x)]),
                    (UnOp::Not, V::Ext("not", mut x)) => x.pop().unwrap(),
                    (UnOp::Neg, V::Int(i)) => V::Int(-i),
                    (UnOp::PtrMetadata, a) => self.len_of(st, &a),
                    _ => V::Top,
                }
            }
            Rvalue::Discriminant(p) => {
                let rp = self.place(st, p);
                let v = match &rp { RP::Pl(pl) => self.get(st, pl).cloned().unwrap_or(V::Top), RP::Val(v) => v.clone() };
                match v {
                    V::Adt(a, vi, _) => {
                        let ad = self.tcx.adt_def(self.adts[a as usize]);
                        V::Int(ad.discriminant_for_variant(self.tcx, rustc_abi::VariantIdx::from_u32(vi)).val as i128)
                    }
                    V::El(e) if !e.ch => V::ElDisc(e),
                    V::Sym(sy) => {
                        let t = self.place_ty(st, p);
                        match t.kind() { ty::Adt(ad, _) => { let i = self.adt(ad.did()); V::SymDisc(sy, i) } _ => V::Top }
                    }
                    V::Ext("text", _) => {
                        let t = self.place_ty(st, p);
                        match t.kind() { ty::Adt(ad, _) if ad.is_enum() => { let i = self.adt(ad.did()); V::Ext("textdisc", vec![v, V::Int(i as i128)]) } _ => V::Top }
                    }
                    _ => V::Top,
                }
            }
            Rvalue::Aggregate(k, ops) => {
                let mut fs = vec![];
                for o in ops.iter() { fs.push(self.operand(st, o)?) }
                match &**k {
                    AggregateKind::Array(_) => V::Arr(fs),
                    AggregateKind::Tuple => V::Tup(fs),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let _ = active;
                        let i = self.adt(*d);
                        let mut v = V::Adt(i, vi.as_u32(), fs);
                        self.fold_rec(i, &mut v, 0);
                        self.collapse(v)
                    }
                    AggregateKind::Closure(d, a) => {
                        let bi = self.bi(st);
                        let a = self.subst(bi.args, *a);
                        let i = self.clo(*d, a);
                        V::Clo(i, fs)
                    }
                    AggregateKind::RawPtr(..) => fs.into_iter().next().unwrap_or(V::Top),
                    _ => V::Top,
                }
            }
            Rvalue::CopyForDeref(p) => { let rp = self.place(st, p); self.read_rp(st, &rp) }
            _ => V::Top,
        })
    }
    pub fn len_of(&self, st: &St, v: &V) -> V {
        match self.deref(st, v) {
            V::Arr(a) => V::Int(a.len() as i128),
            V::Str(x) => V::Int(x.len() as i128),
            V::Vec(b) => match b.len { 1 => V::Int(0), 2 => V::Int(1), _ => V::Ext("len", vec![V::Vec(b.clone()), self.vec_place(st, v)]) },
            V::Sym(y) => V::Sym(y.child("len")),
            V::Ext("text", x) => V::Ext("len", vec![V::Ext("text", x)]),
            _ => V::Top,
        }
    }
    pub fn vec_place(&self, st: &St, v: &V) -> V {
        match self.deref_place(st, v) { Some(p) => V::Ref(p), None => V::Undef }
    }
    /// evaluate a predicate on characters for one atom
    fn char_cmp(a: usize, op: BinOp, c: i128) -> Option<bool> {
        if a < 128 {
            let a = a as i128;
            return Some(match op { BinOp::Eq => a == c, BinOp::Ne => a != c, BinOp::Lt => a < c, BinOp::Le => a <= c, BinOp::Gt => a > c, BinOp::Ge => a >= c, _ => return None });
        }
        if c < 128 { return Some(match op { BinOp::Eq | BinOp::Lt | BinOp::Le => false, BinOp::Ne | BinOp::Gt | BinOp::Ge => true, _ => return None }); }
        None
    }
    pub fn el_pred(&self, pre: &St, e: &El, t: Mask) -> R<PR> {
        if e.frozen() { return Ok(PR::Top) }
        if e.mask.subset(&t) { return Ok(PR::B(true)) }
        if e.mask.disjoint(&t) { return Ok(PR::B(false)) }
        let all = Mask([u64::MAX; 4]);
        if let Some(a) = self.split_peek(pre, e, &[t, all.sub(&t)]) { return Ok(PR::Split(a)) }
        Err(Stop::Refine(e.ch, vec![t]))
    }
    fn binop(&mut self, st: &mut St, op: BinOp, a: V, c: V) -> R<V> {
        use BinOp::*;
        // what counts the rounds of a loop up or down is some number after a while
        if self.cfg.counts {
            const FEW: i128 = 2;
            let one = matches!(c, V::Int(1));
            let up = one && matches!(op, Add | AddWithOverflow | AddUnchecked) && (matches!(a, V::Ext("count", _)) || matches!(a, V::Int(x) if x >= FEW));
            let down = one && matches!(op, Sub | SubWithOverflow | SubUnchecked) && (matches!(a, V::Ext("left", _)) || matches!(a, V::Int(x) if x > 2 * FEW));
            if up || down {
                let v = V::Ext(if up { "count" } else { "left" }, vec![]);
                return Ok(if matches!(op, AddWithOverflow) { V::Tup(vec![v, V::Top]) } else if matches!(op, SubWithOverflow) { V::Tup(vec![v, V::Int(0)]) } else { v });
            }
            let cmp = matches!(op, Eq | Ne | Lt | Le | Gt | Ge);
            if let (V::Ext("count" | "left", _), V::Int(_)) | (V::Int(_), V::Ext("count" | "left", _)) = (&a, &c) {
                if !cmp { return Ok(if matches!(op, AddWithOverflow | SubWithOverflow | MulWithOverflow) { V::Tup(vec![V::Top, V::Top]) } else { V::Top }) }
                let (n, k, flip) = match (&a, &c) { (V::Ext(n, _), V::Int(k)) => (*n, *k, false), (V::Int(k), V::Ext(n, _)) => (*n, *k, true), _ => unreachable!() };
                let op2 = if flip { match op { Lt => Gt, Le => Ge, Gt => Lt, Ge => Le, x => x } } else { op };
                if n == "count" && k <= FEW { return Ok(V::bool(matches!(op2, Ne | Gt | Ge))) }
                if n == "left" && k <= 0 && matches!(op2, Lt | Ge) { return Ok(V::bool(op2 == Ge)) }
                return Ok(V::Ext("cmp", vec![V::Str(s(&format!("{:?}", op))), a, c]));
            }
            if cmp && (matches!(a, V::Ext("count" | "left", _)) || matches!(c, V::Ext("count" | "left", _))) { return Ok(V::Top) }
        }
        if matches!(op, Add | AddWithOverflow | AddUnchecked | Mul | MulWithOverflow | MulUnchecked) {
            let big = |v: &V| matches!(v, V::Ext("len", _)) || matches!(v, V::Int(i) if *i > 40);
            if big(&a) || big(&c) || matches!(a, V::Top) || matches!(c, V::Top) {
                return Ok(if matches!(op, AddWithOverflow | MulWithOverflow) { V::Tup(vec![V::Top, V::Top]) } else { V::Top })
            }
        }
        // lengths of abstract vectors
        if let (V::Ext("len", _), V::Int(_)) | (V::Int(_), V::Ext("len", _)) = (&a, &c) {
            // the length of the text of a token
            if let (V::Ext("len", l), V::Int(_)) | (V::Int(_), V::Ext("len", l)) = (&a, &c) {
                if let (V::Ext("text", x), true) = (&l[0], matches!(op, Eq | Ne | Lt | Le | Gt | Ge)) {
                    if matches!(x[0], V::El(_)) { let n = format!("{:?}({},{})", op, self.show(st, &a), self.show(st, &c)); return Ok(V::sym(&n)) }
                }
            }
            if matches!(op, Eq | Ne | Lt | Le | Gt | Ge) { return Ok(V::Ext("cmp", vec![V::Str(s(&format!("{:?}", op))), a, c])); }
        }
        if let (V::El(e), V::Int(k)) = (&a, &c) {
            if e.ch {
                let mut t = Mask::NONE;
                let mut ok = true;
                for at in e.mask.iter() { match Self::char_cmp(at, op, *k) { Some(true) => t.set(at), Some(false) => {} None => ok = false } }
                if ok {
                    if e.frozen() { return Ok(V::Top) }
                    if e.mask.subset(&t) { return Ok(V::Int(1)) }
                    if e.mask.disjoint(&t) { return Ok(V::Int(0)) }
                    return Err(Stop::Refine(e.ch, vec![t]))
                }
            }
        }
        if let (V::Int(_), V::El(e)) = (&a, &c) {
            if e.ch {
                let op2 = match op { Lt => Gt, Le => Ge, Gt => Lt, Ge => Le, x => x };
                return self.binop(st, op2, c, a);
            }
        }
        Ok(match (&a, &c) {
            (V::Int(x), V::Int(y)) => {
                let (x, y) = (*x, *y);
                match op {
                    Add | AddUnchecked => V::Int(x.wrapping_add(y)),
                    Sub | SubUnchecked => V::Int(x.wrapping_sub(y)),
                    Mul | MulUnchecked => V::Int(x.wrapping_mul(y)),
                    AddWithOverflow => V::Tup(vec![V::Int(x + y), V::Int(0)]),
                    SubWithOverflow => V::Tup(vec![V::Int(x - y), V::Int((x < y) as i128)]),
                    MulWithOverflow => V::Tup(vec![V::Int(x * y), V::Int(0)]),
                    Eq => V::bool(x == y), Ne => V::bool(x != y), Lt => V::bool(x < y), Le => V::bool(x <= y), Gt => V::bool(x > y), Ge => V::bool(x >= y),
                    BitAnd => V::Int(x & y), BitOr => V::Int(x | y), BitXor => V::Int(x ^ y),
                    _ => V::Top,
                }
            }
            _ => match op {
                AddWithOverflow | SubWithOverflow | MulWithOverflow => V::Tup(vec![self.arith_sym(st, op, &a, &c), V::Top]),
                BitAnd | BitOr => {
                    let (k, o) = match (&a, &c) { (V::Int(k), o) => (*k, o), (o, V::Int(k)) => (*k, o), _ => return Ok(V::Top) };
                    // boolean connectives
                    match (op, k) { (BitAnd, 0) => V::Int(0), (BitAnd, _) => o.clone(), (_, 0) => o.clone(), (_, _) => V::Int(1) }
                }
                Eq | Ne | Lt | Le | Gt | Ge => {
                    if let (V::Ext("dpos", x), V::Int(_)) | (V::Int(_), V::Ext("dpos", x)) = (&a, &c) { let _ = x; }
                    if a == c && matches!(a, V::Sym(_)) { return Ok(V::bool(matches!(op, Eq | Le | Ge))) }
                    let n = format!("{:?}({},{})", op, self.show(st, &a), self.show(st, &c));
                    if matches!(a, V::Top) || matches!(c, V::Top) { V::Top } else { V::sym(&n) }
                }
                _ => self.arith_sym(st, op, &a, &c),
            },
        })
    }
    fn arith_sym(&self, st: &St, op: BinOp, a: &V, c: &V) -> V {
        if matches!(a, V::Top | V::Undef) || matches!(c, V::Top | V::Undef) { return V::Top }
        let n = format!("{:?}({},{})", op, self.show(st, a), self.show(st, c)).replace("WithOverflow", "");
        if n.len() > 120 { V::Top } else { V::sym(&n) }
    }

    // ---------------------------------------------------------------- printing
    pub fn show(&self, st: &St, v: &V) -> String { self.show_d(st, v, 0) }
    fn show_d(&self, st: &St, v: &V, d: usize) -> String {
        if d > 14 { return "…".into() }
        let list = |fs: &[V]| fs.iter().map(|f| self.show_d(st, f, d + 1)).collect::<Vec<_>>().join(", ");
        match v {
            V::Undef => "_".into(),
            V::Top => "?".into(),
            V::Int(i) => format!("{i}"),
            V::Str(x) => format!("{:?}", x),
            V::Adt(a, vi, fs) => {
                let ad = self.tcx.adt_def(self.adts[*a as usize]);
                let var = &ad.variants()[rustc_abi::VariantIdx::from_u32(*vi)];
                if ad.is_enum() {
                    if fs.is_empty() { var.name.to_string() } else { format!("{}({})", var.name, list(fs)) }
                } else {
                    // all the parts of one thing are that thing
                    if let Some(V::Sym(y)) = fs.first() {
                        let n = format!(".{}", var.fields[rustc_abi::FieldIdx::from_usize(0)].name);
                        if let Some(base) = y.path.strip_suffix(n.as_str()) {
                            let mut w = y.clone();
                            w.path = base.into();
                            if fs.len() == var.fields.len() && fs.iter().zip(var.fields.iter()).all(|(f, n)| matches!(f, V::Sym(z) if *z == w.child(n.name.as_str()))) { return w.show() }
                        }
                    }
                    let parts: Vec<String> = fs.iter().zip(var.fields.iter()).map(|(f, n)| format!("{}: {}", n.name, self.show_d(st, f, d + 1))).collect();
                    format!("{}{{{}}}", var.name, parts.join(", "))
                }
            }
            V::Tup(fs) => format!("({})", list(fs)),
            V::Arr(fs) => format!("[{}]", list(fs)),
            V::Bx(b) => self.show_d(st, b, d + 1),
            V::Ref(p) => match self.get(st, p) { Some(x) => self.show_d(st, x, d + 1), None => "&?".into() },
            V::Fn(i) => format!("fn {}", self.tcx.item_name(self.fns[*i as usize].0)),
            V::Clo(..) => "closure".into(),
            V::Sym(y) => y.show(),
            V::SymDisc(y, _) => format!("disc({})", y.show()),
            V::El(e) => {
                let n = if e.ch { "chr" } else { "tok" };
                let st = if e.st.as_ref() == "in" { String::new() } else { format!("{}:", e.st) };
                match e.src { Src::Peek(k) => format!("{st}peek{k}"), Src::Age(k) if k >= 10 => format!("{st}{n}{}*", k - 10), Src::Age(k) => format!("{st}{n}{k}") }
            }
            V::ElDisc(_) => "disc".into(),
            V::Stream(x) => format!("stream<{}>", x.id),
            V::Mp(..) => "multipeek".into(),
            V::Pos(id, p) => {
                let i = if id.as_ref() == "in" { String::new() } else { format!("{id}:") };
                match p { PosV::Start(w) => format!("{i}pos@start{}", if *w { "+ws" } else { "" }), PosV::Cur => format!("{i}pos@now"), PosV::Before { ev, age } => if *age == 0 { format!("{i}pos@{ev}") } else { format!("{i}pos@{ev}'{age}") } }
            }
            V::Vec(b) => {
                let l: Vec<String> = b.el.iter().map(|x| self.show_d(st, x, d + 1)).collect();
                let f = &b.flags;
                match b.len {
                    1 => format!("{f}[]"),
                    2 => format!("{f}[{}]", l.join("!")),
                    4 => format!("{f}[{}]", l.join(" .. ")),
                    6 => format!("{f}[{}+]", l.join(" .. ")),
                    3 => format!("{f}[{}?]", l.join(" .. ")),
                    _ => format!("{f}[{}*]", l.join(" .. ")),
                }
            }
            V::Ext(n, fs) => format!("{n}({})", list(fs)),
        }
    }
}

pub fn succs<'a>(t: &Terminator<'a>) -> Vec<BasicBlock> {
    match &t.kind {
        TerminatorKind::Goto { target, .. } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets().to_vec(),
        TerminatorKind::Drop { target, .. } => vec![*target],
        TerminatorKind::Call { target, .. } => target.iter().copied().collect(),
        TerminatorKind::Assert { target, .. } => vec![*target],
        TerminatorKind::FalseEdge { real_target, .. } => vec![*real_target],
        TerminatorKind::FalseUnwind { real_target, .. } => vec![*real_target],
        _ => vec![],
    }
}

/// live-in sets of locals; locals whose address is taken are always live
fn liveness(body: &Body<'_>) -> Vec<Vec<bool>> {
    use rustc_middle::mir::visit::{PlaceContext, Visitor, MutatingUseContext, NonMutatingUseContext, NonUseContext};
    let n = body.local_decls.len();
    struct Acc { gen_: Vec<bool>, kill: Vec<bool>, borrowed: Vec<bool> }
    impl<'tcx> Visitor<'tcx> for Acc {
        fn visit_place(&mut self, p: &mir::Place<'tcx>, c: PlaceContext, l: Location) {
            let i = p.local.as_usize();
            let direct = p.projection.is_empty();
            match c {
                PlaceContext::NonMutatingUse(NonMutatingUseContext::SharedBorrow | NonMutatingUseContext::FakeBorrow | NonMutatingUseContext::RawBorrow)
                | PlaceContext::MutatingUse(MutatingUseContext::Borrow | MutatingUseContext::RawBorrow) => {
                    if !p.projection.iter().any(|e| e == ProjectionElem::Deref) { self.borrowed[i] = true; }
                    self.gen_[i] = true; self.kill[i] = false;
                }
                PlaceContext::MutatingUse(MutatingUseContext::Store | MutatingUseContext::Call) if direct => { self.kill[i] = true; self.gen_[i] = false; }
                PlaceContext::NonUse(NonUseContext::StorageDead | NonUseContext::StorageLive) => {}
                _ => { self.gen_[i] = true; self.kill[i] = false; }
            }
            for e in p.projection.iter() { if let ProjectionElem::Index(ix) = e { self.gen_[ix.as_usize()] = true; self.kill[ix.as_usize()] = false; } }
            let _ = l;
        }
    }
    let nb = body.basic_blocks.len();
    let mut borrowed = vec![false; n];
    let mut gk = vec![];
    for (bb, d) in body.basic_blocks.iter_enumerated() {
        // process backwards, statement by statement
        let mut gen_ = vec![false; n];
        let mut kill = vec![false; n];
        let mut apply = |a: Acc, gen_: &mut Vec<bool>, kill: &mut Vec<bool>| {
            for i in 0..n {
                if a.kill[i] { gen_[i] = false; kill[i] = true; }
                if a.gen_[i] { gen_[i] = true; kill[i] = false; }
                if a.borrowed[i] { borrowed[i] = true; }
            }
        };
        let t = d.terminator();
        let mut uses = Acc { gen_: vec![false; n], kill: vec![false; n], borrowed: vec![false; n] };
        // destination first (it is written after the arguments are read)
        if let TerminatorKind::Call { func, args, destination, .. } = &t.kind {
            let loc = Location { block: bb, statement_index: d.statements.len() };
            let mut k = Acc { gen_: vec![false; n], kill: vec![false; n], borrowed: vec![false; n] };
            k.visit_place(destination, PlaceContext::MutatingUse(MutatingUseContext::Call), loc);
            apply(k, &mut gen_, &mut kill);
            uses.visit_operand(func, loc);
            for a in args { uses.visit_operand(&a.node, loc); }
        } else {
            uses.visit_terminator(t, Location { block: bb, statement_index: d.statements.len() });
        }
        if let TerminatorKind::Return = t.kind { uses.gen_[0] = true; }
        apply(uses, &mut gen_, &mut kill);
        for (i, sm) in d.statements.iter().enumerate().rev() {
            let loc = Location { block: bb, statement_index: i };
            if let StatementKind::Assign(b) = &sm.kind {
                let mut k = Acc { gen_: vec![false; n], kill: vec![false; n], borrowed: vec![false; n] };
                k.visit_place(&b.0, PlaceContext::MutatingUse(MutatingUseContext::Store), loc);
                apply(k, &mut gen_, &mut kill);
                let mut u = Acc { gen_: vec![false; n], kill: vec![false; n], borrowed: vec![false; n] };
                u.visit_rvalue(&b.1, loc);
                apply(u, &mut gen_, &mut kill);
            } else {
                let mut u = Acc { gen_: vec![false; n], kill: vec![false; n], borrowed: vec![false; n] };
                u.visit_statement(sm, loc);
                apply(u, &mut gen_, &mut kill);
            }
        }
        gk.push((gen_, kill));
    }
    let mut live = vec![vec![false; n]; nb];
    let mut ch = true;
    while ch {
        ch = false;
        for b in (0..nb).rev() {
            let d = &body.basic_blocks[BasicBlock::from_usize(b)];
            let mut out = vec![false; n];
            for sx in succs(d.terminator()) { for i in 0..n { if live[sx.as_usize()][i] { out[i] = true } } }
            for i in 0..n {
                let v = gk[b].0[i] || (out[i] && !gk[b].1[i]);
                if v && !live[b][i] { live[b][i] = true; ch = true; }
            }
        }
    }
    for l in live.iter_mut() { for i in 0..n { if borrowed[i] { l[i] = true } } }
    live
}
