//! Single functions on symbolic arguments: all results as terms over the arguments.
use crate::drive::*;
use crate::exact::*;
use crate::interp::*;
use crate::parser::*;
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::def_id::DefId;

pub const METHODS: &[&str] = &[
    "complete_command", "and_or_list", "pipeline", "simple_command", "brace_group", "subshell", "loop_command", "if_command", "for_command", "case_command",
    "compound_command_into_pipeable", "function_declaration", "comments", "word", "redirect",
];
const BUILDERS: &[&str] = &["core", "rc", "arc", "empty", "mut", "box"];
const OTHER: &[&str] = &[
    "tok.as_str", "tok.len", "tok.is_empty", "tok.is_word_delimiter", "tok.fmt", "pos.as_num", "pos.from_num",
    "srcpos.new", "srcpos.advance", "srcpos.advance_tabs", "srcpos.fmt", "param.fmt", "err.fmt", "err.cause",
    "parser.new", "parser.with_builder", "parser.pos", "pos.into", "srcpos.default", "wrapper.token_iter_from_backticked_with_removed_backslashes",
];
pub fn names() -> Vec<String> {
    let mut out = vec![];
    for b in BUILDERS { for m in METHODS { out.push(format!("{b}.{m}")) } }
    out.extend(OTHER.iter().map(|x| x.to_string()));
    out
}

/// the method of the implementation of a local trait (or a foreign one) for a type
pub fn impl_fn(tcx: TyCtxt<'_>, tr: &str, m: &str, of: &dyn Fn(Ty<'_>) -> bool) -> Option<DefId> {
    for d in tcx.hir_crate_items(()).definitions() {
        let d = d.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Impl { of_trait: true }) { continue }
        let t = tcx.impl_trait_id(d);
        if tcx.item_name(t).as_str() != tr { continue }
        if !of(tcx.type_of(d).instantiate_identity().skip_norm_wip()) { continue }
        for a in tcx.associated_items(d).in_definition_order() { if a.name().as_str() == m && a.is_fn() { return Some(a.def_id) } }
    }
    None
}
fn is_adt(tcx: TyCtxt<'_>, t: Ty<'_>, n: &str) -> bool { matches!(t.kind(), ty::Adt(a, _) if a.did().is_local() && tcx.item_name(a.did()).as_str() == n) }

fn target(tcx: TyCtxt<'_>, name: &str) -> Option<DefId> {
    let (o, m) = name.split_once('.')?;
    // equality and copies of a type, written or derived
    if let Some(tr) = match o { "same" => Some("PartialEq"), "copy" => Some("Clone"), _ => None } {
        for d in tcx.hir_crate_items(()).definitions() {
            let d = d.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Impl { of_trait: true }) { continue }
            if tcx.item_name(tcx.impl_trait_id(d)).as_str() != tr { continue }
            let r = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
            if !is_adt(tcx, r.self_ty(), m) { continue }
            if tr == "PartialEq" && r.args.type_at(1) != r.self_ty() { continue }
            let want = if tr == "PartialEq" { "eq" } else { "clone" };
            return tcx.associated_items(d).in_definition_order().find(|a| a.name().as_str() == want).map(|a| a.def_id);
        }
        return None;
    }
    if let Some(n) = match o { "cmd" => Some("TopLevelCommand"), "acmd" => Some("AtomicTopLevelCommand"), "wrd" => Some("TopLevelWord"), "awrd" => Some("AtomicTopLevelWord"), _ => None } {
        let tr = match m { "deref" => "Deref", "deref_mut" => "DerefMut", "from" => "From", _ => "PartialEq" };
        for d in tcx.hir_crate_items(()).definitions() {
            let d = d.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Impl { of_trait: true }) { continue }
            if tcx.item_name(tcx.impl_trait_id(d)).as_str() != tr { continue }
            let r = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
            if !is_adt(tcx, r.self_ty(), n) || tr == "PartialEq" && r.args.type_at(1) == r.self_ty() { continue }
            return tcx.associated_items(d).in_definition_order().find(|a| a.name().as_str() == m).map(|a| a.def_id);
        }
        return None;
    }
    match o {
        "core" => impl_fn(tcx, "Builder", m, &|t| is_adt(tcx, t, "CoreBuilder")),
        "rc" => impl_fn(tcx, "Builder", m, &|t| is_adt(tcx, t, "DefaultBuilder")),
        "arc" => impl_fn(tcx, "Builder", m, &|t| is_adt(tcx, t, "AtomicDefaultBuilder")),
        "empty" => impl_fn(tcx, "Builder", m, &|t| is_adt(tcx, t, "EmptyBuilder")),
        "mut" => impl_fn(tcx, "Builder", m, &|t| matches!(t.kind(), ty::Ref(_, x, _) if matches!(x.kind(), ty::Param(_)))),
        "box" => impl_fn(tcx, "Builder", m, &|t| t.is_box()),
        "tok" if m == "fmt" => impl_fn(tcx, "Display", m, &|t| is_adt(tcx, t, "Token")),
        "srcpos" if m == "fmt" => impl_fn(tcx, "Display", m, &|t| is_adt(tcx, t, "SourcePos")),
        "param" => impl_fn(tcx, "Display", m, &|t| is_adt(tcx, t, "Parameter")),
        "err" if m == "fmt" => impl_fn(tcx, "Display", m, &|t| is_adt(tcx, t, "ParseError")),
        "err" => impl_fn(tcx, "Error", m, &|t| is_adt(tcx, t, "ParseError")),
        "srcpos" if m == "default" => impl_fn(tcx, "Default", m, &|t| is_adt(tcx, t, "SourcePos")),
        "pos" if m == "into" => impl_fn(tcx, "Into", m, &|t| is_adt(tcx, t, "Positional")).or_else(|| impl_fn(tcx, "From", "from", &|t| matches!(t.kind(), ty::Uint(ty::UintTy::U8)))),
        "wrapper" => inherent_fn(tcx, find_adt(tcx, "parse::iter::TokenIterWrapper")?, m),
        "tok" => inherent_fn(tcx, find_adt(tcx, "token::Token")?, m),
        "pos" => inherent_fn(tcx, find_adt(tcx, "token::Positional")?, m),
        "parser" => parser_fn(tcx, m),
        "srcpos" => inherent_fn(tcx, find_adt(tcx, "parse::SourcePos")?, m),
        _ => None,
    }
}

/// terms like Concat([Simple(x), SingleQuoted(t)]), read along the type
struct Terms<'a> { x: &'a [u8], i: usize }
impl<'a> Terms<'a> {
    fn ws(&mut self) { while self.i < self.x.len() && self.x[self.i] == b' ' { self.i += 1 } }
    fn eat(&mut self, c: u8) -> bool { self.ws(); if self.i < self.x.len() && self.x[self.i] == c { self.i += 1; true } else { false } }
    fn word(&mut self) -> String {
        self.ws();
        let a = self.i;
        while self.i < self.x.len() && (self.x[self.i].is_ascii_alphanumeric() || self.x[self.i] == b'_') { self.i += 1 }
        String::from_utf8(self.x[a..self.i].to_vec()).unwrap()
    }
    fn read<'tcx>(&mut self, an: &mut An<'tcx>, t: Ty<'tcx>) -> Result<V, String> {
        let tcx = an.tcx;
        match t.kind() {
            ty::Ref(_, x, _) => return Ok(cref(self.read(an, *x)?)),
            ty::Adt(ad, a) if ad.is_box() => return Ok(V::Bx(Box::new(self.read(an, a.type_at(0))?))),
            _ => {}
        }
        if self.eat(b'[') {
            let el = match t.kind() { ty::Adt(_, a) => a.type_at(0), ty::Slice(x) | ty::Array(x, _) => *x, _ => return Err("list".into()) };
            let mut out = vec![];
            while !self.eat(b']') { out.push(self.read(an, el)?); self.eat(b','); }
            return Ok(xv(out));
        }
        if self.eat(b'(') {
            let ty::Tuple(l) = t.kind() else { return Err("tuple".into()) };
            let mut out = vec![];
            for x in l.iter() { out.push(self.read(an, x)?); self.eat(b','); }
            self.eat(b')');
            return Ok(V::Tup(out));
        }
        let w = self.word();
        let c = w.bytes().next().unwrap_or(b' ');
        if c.is_ascii_digit() { return Ok(V::Int(w.parse().unwrap())) }
        if c.is_ascii_lowercase() { return Ok(V::sym(&w)) }
        let ty::Adt(ad, a) = t.kind() else { return Err(format!("{w} of {t}")) };
        let Some((vi, v)) = ad.variants().iter_enumerated().find(|(_, v)| v.name.as_str() == w) else { return Err(format!("no {w} in {t}")) };
        let mut fs = vec![];
        if self.eat(b'(') {
            for f in v.fields.iter() {
                let ft = tcx.type_of(f.did).instantiate(tcx, a).skip_norm_wip();
                let ft = tcx.try_normalize_erasing_regions(an.env, ty::Unnormalized::new(ft)).unwrap_or(ft);
                fs.push(self.read(an, ft)?);
                self.eat(b',');
            }
            if !self.eat(b')') { return Err(format!("fields of {w}")) }
        }
        if fs.len() != v.fields.len() { return Err(format!("fields of {w}")) }
        let ix = an.adt(ad.did());
        Ok(V::Adt(ix, vi.as_u32(), fs))
    }
}

fn word_configs() -> Vec<String> {
    let mut out: Vec<String> = ["Single(Simple(x))", "Single(SingleQuoted(x))"].iter().map(|x| x.to_string()).collect();
    let any = ["DoubleQuoted([x])", "DoubleQuoted([Star,x])", "DoubleQuoted([x,Star])", "DoubleQuoted([])", "DoubleQuoted([Literal(l),x])", "DoubleQuoted([x,Literal(l)])"];
    out.extend(any.iter().map(|x| format!("Single({x})")));
    let k3 = ["Literal(a%)", "Escaped(a%)", "Star"];
    let sub = |k: &str, i: usize| k.replace('%', &i.to_string());
    for a in k3 { for b in k3 { for c in k3 { out.push(format!("Single(DoubleQuoted([{},{},{}]))", sub(a, 1), sub(b, 2), sub(c, 3))) } } }
    let kinds = ["Simple(Literal(a%))", "Simple(Escaped(a%))", "Simple(Star)", "SingleQuoted(a%)", "DoubleQuoted([])", "DoubleQuoted([Literal(a%)])", "DoubleQuoted([Star])",
        "DoubleQuoted([Literal(a%),Literal(b%)])", "DoubleQuoted([Literal(a%),Star])", "DoubleQuoted([Star,Literal(a%)])"];
    out.push("Concat([])".into());
    for a in kinds {
        out.push(format!("Concat([{}])", sub(a, 1)));
        for b in kinds {
            out.push(format!("Concat([{},{}])", sub(a, 1), sub(b, 2)));
            for c in kinds { out.push(format!("Concat([{},{},{}])", sub(a, 1), sub(b, 2), sub(c, 3))) }
        }
    }
    for a in ["Simple(x)", "SingleQuoted(q),Simple(x)", "Simple(x),SingleQuoted(q)"] { out.push(format!("Concat([{a}])")) }
    out
}

/// a symbolic struct as its fields
fn lay_open<'tcx>(an: &mut An<'tcx>, t: Ty<'tcx>, x: V, depth: usize) -> V {
    match (t.kind(), &x) {
        (ty::Adt(ad, a), V::Sym(y)) if depth > 0 && ad.is_struct() && ad.did().is_local() => {
            let mut fs = vec![];
            for f in ad.non_enum_variant().fields.iter() {
                let ft = an.tcx.type_of(f.did).instantiate(an.tcx, a).skip_norm_wip();
                let ft = an.tcx.try_normalize_erasing_regions(an.env, ty::Unnormalized::new(ft)).unwrap_or(ft);
                fs.push(lay_open(an, ft, V::Sym(y.child(f.name.as_str())), depth - 1));
            }
            let ix = an.adt(ad.did());
            V::Adt(ix, 0, fs)
        }
        _ => x,
    }
}

/// lists are given up to a length; where the code compares with or indexes by larger numbers, up to beyond those
pub fn analyse<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> Result<(An<'tcx>, Graph), String> {
    let method = name.split_once('.').unwrap_or(("", name)).1;
    let maxlen = if method == "case_command" || method == "if_command" { 2 } else { 3 } + if deep() { 1 } else { 0 };
    let (an, g) = match analyse_upto(tcx, name, maxlen, vec![]) {
        Err(e) if e.contains("state limit") && maxlen > 2 => return analyse_upto(tcx, name, 2, vec![]),
        r => r?,
    };
    if !an.split_lists { return Ok((an, g)) }
    // the numbers the code compares with or counts to
    let mut ks: Vec<usize> = numbers(&an).into_iter().filter(|k| *k >= maxlen as u128 && *k <= 300).map(|k| k as usize).collect();
    ks.sort();
    ks.dedup();
    let Some(k) = ks.last() else { return Ok((an, g)) };
    let to = if *k <= 6 { *k + 1 } else { maxlen };
    let far: Vec<usize> = if *k <= 6 { vec![] } else { ks.iter().flat_map(|k| [*k, *k + 1]).filter(|k| *k > maxlen).collect() };
    match analyse_upto(tcx, name, to, far) {
        Ok(r) => Ok(r),
        Err(e) => Err(format!("lists of {k} or more: {e}")),
    }
}
/// the numbers of type usize in the functions of this crate that were gone through
pub fn numbers(an: &An<'_>) -> Vec<u128> {
    struct Vis<'tcx>(TyCtxt<'tcx>, Vec<u128>);
    impl<'tcx> rustc_middle::mir::visit::Visitor<'tcx> for Vis<'tcx> {
        fn visit_const_operand(&mut self, c: &rustc_middle::mir::ConstOperand<'tcx>, _: rustc_middle::mir::Location) {
            if c.const_.ty() != self.0.types.usize { return }
            if let Some(i) = c.const_.try_to_scalar_int() { self.1.push(i.to_bits_unchecked()); }
        }
    }
    let mut v = Vis(an.tcx, vec![]);
    for b in an.bodies.iter().filter(|b| b.local) { rustc_middle::mir::visit::Visitor::visit_body(&mut v, b.body); }
    v.1
}
fn analyse_upto<'tcx>(tcx: TyCtxt<'tcx>, name: &str, maxlen: usize, far: Vec<usize>) -> Result<(An<'tcx>, Graph), String> {
    crate::hooks::COARSE.with(|c| c.set(false));
    let Some(def) = target(tcx, name) else { return Err(format!("no function {name}")) };
    let Some(token) = find_adt(tcx, "token::Token") else { return Err("no token::Token".into()) };
    let (owner, method) = name.split_once('.').unwrap();
    let mut cfg = Config::default();
    cfg.exact = true;
    cfg.raw_builder = true;
    cfg.recursion = 0;
    cfg.maxlen = maxlen;
    cfg.far = far;
    cfg.max_states = 400_000;
    let mut an = An::new(tcx, def, cfg, token);
    an.iter_proj = vec![P::F(99)];
    let err = std::cell::RefCell::new(None);
    let r = an.run(&|an: &mut An<'tcx>| {
        let sig = an.subst(ty::GenericArgs::identity_for_item(tcx, def), tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder());
        let ga = ty::GenericArgs::identity_for_item(an.tcx, def);
        let Some(b) = an.body_of(def, u32::MAX, ga) else { *err.borrow_mut() = Some("no body".to_string()); return vec![] };
        let inputs: Vec<Ty<'tcx>> = sig.inputs().to_vec();
        // alternatives for the arguments
        let mut alts: Vec<(Vec<Lab>, Vec<V>)> = vec![(vec![], vec![])];
        for (i, _) in inputs.iter().enumerate() {
            let opts: Vec<Option<String>> = match (owner, method, i) { ("core" | "rc" | "arc", "word", 1) => word_configs().into_iter().map(Some).collect(), _ => vec![None] };
            let mut next = vec![];
            for (l, v) in &alts {
                for o in &opts {
                    let (mut l, mut v) = (l.clone(), v.clone());
                    match o {
                        None => v.push(V::sym(&if i == 0 { "self".to_string() } else { format!("arg{i}") })),
                        Some(txt) => {
                            let mut t = inputs[i];
                            if let ty::Ref(_, x, _) = t.kind() { t = *x }
                            match (Terms { x: txt.as_bytes(), i: 0 }).read(an, t) {
                                Ok(x) => { l.push(Lab::t(&format!("arg{i}={}", an.show(&St::default(), &x)))); v.push(x) }
                                Err(e) => { *err.borrow_mut() = Some(format!("{txt}: {e}")); continue }
                            }
                        }
                    }
                    next.push((l, v));
                }
            }
            alts = next;
        }
        let mut out = vec![];
        for (l, v) in alts {
            let mut st = St::default();
            let mut locals = vec![V::Undef];
            let mut args = vec![];
            for (i, x) in v.into_iter().enumerate() {
                if matches!(inputs[i].kind(), ty::Ref(..)) {
                    // structs are laid open, so that they can be changed
                    let x = match (inputs[i].peel_refs().kind(), x) {
                        (ty::Adt(ad, _), V::Sym(y)) if ad.is_struct() && ad.did().is_local() => {
                            let depth = if matches!(owner, "same" | "copy") { 1 } else { 3 };
                            lay_open(an, inputs[i].peel_refs(), V::Sym(y), depth)
                        }
                        (ty::Adt(ad, _), _) if tcx.item_name(ad.did()).as_str() == "Formatter" => V::Ext("fmt", vec![V::Str(s(""))]),
                        (_, x) => x,
                    };
                    args.push(V::Ref(Pl { base: Base::Local(0, locals.len() as u16), proj: vec![] }));
                    locals.push(x);
                } else { args.push(x) }
            }
            st.frames.push(Frame { k: FK::Native("root"), bb: 0, t: false, locals, dest: None, target: 0 });
            let fr = an.new_frame(b, args, None, 0);
            st.frames.push(fr);
            out.push((l, st));
        }
        out
    });
    if let Some(e) = err.into_inner() { return Err(e) }
    match r {
        Ok(()) => { let g = an.graph(); Ok((an, g)) }
        Err(e) if std::env::var("CONCH_SA_HOT").is_ok() => { an.hot(); Err(format!("{e:?}")) }
        Err(e) => Err(format!("{e:?} at {}", an.site(an.cur_span))),
    }
}
