//! Analyses of whole objects: a most general client calls the operations of an object, and what it observes is the event trace.
use crate::interp::*;
use crate::parser::*;
use crate::val::*;
use rustc_middle::ty::{self, TyCtxt};
use rustc_span::def_id::DefId;

pub const OBJECTS: &[&str] = &["Lexer", "Lexer.size_hint", "ParserIterator"];

pub fn inherent_fn(tcx: TyCtxt<'_>, adt: DefId, name: &str) -> Option<DefId> {
    for i in tcx.inherent_impls(adt) {
        for a in tcx.associated_items(*i).in_definition_order() { if a.name().as_str() == name && a.is_fn() { return Some(a.def_id) } }
    }
    None
}
fn stream(ch: bool) -> V { V::Stream(Box::new(Stream { id: s("in"), ch, la: vec![], start: 0 })) }

impl<'tcx> An<'tcx> {
    pub fn trait_method(&mut self, tr: &str, m: &str, self_ty: ty::Ty<'tcx>) -> Option<V> {
        let tcx = self.tcx;
        let d = tcx.all_traits_including_private().find(|t| tcx.item_name(*t).as_str() == tr)?;
        let f = tcx.associated_items(d).in_definition_order().find(|a| a.name().as_str() == m)?.def_id;
        let ga = tcx.mk_args(&[self_ty.into()]);
        Some(self.fnv(f, ga))
    }
    /// the client of the object under analysis
    pub fn drive(&mut self, st: &mut St, op: &'static str, stage: u32) -> R<Out> {
        let fi = (st.frames.len() - 1) as u16;
        let loc = |i: u16| Pl { base: Base::Local(fi, i), proj: vec![] };
        let pre = st.clone();
        let sp = self.cur_span;
        let cx = |d: u16, t: u32| Ctx { dest: Some(loc(d)), target: Some(t), span: sp };
        // events of the client carry what is known of the input that follows
        let lab = |st: &St, t: &str| {
            let mut la = vec![];
            for v in &st.frames[fi as usize].locals { v.visit(&mut |x| if let V::Stream(x) = x { if x.id.as_ref() == "in" { la = x.la.iter().map(|s| s.mask).collect() } }) }
            Lab { txt: s(t), la }
        };
        let fnl = |st: &St, i: usize| st.frames[fi as usize].locals[i].clone();
        match (op, stage) {
            ("drv:lexer" | "drv:hint", 0) => {
                let f = fnl(st, 2);
                let c = self.cfg.raw_stream_ch;
                self.invoke(st, &pre, f, vec![stream(c)], cx(1, if op == "drv:hint" { 5 } else { 1 }))
            }
            ("drv:lexer" | "drv:hint", 1) => { let f = fnl(st, 3); self.invoke(st, &pre, f, vec![V::Ref(loc(1))], cx(0, 2)) }
            ("drv:lexer" | "drv:hint", 2) => {
                let r = std::mem::replace(&mut st.frames[fi as usize].locals[0], V::Undef);
                let nx = if op == "drv:hint" { 5 } else { 1 };
                match &r {
                    V::Adt(_, 0, _) => { st.frames[fi as usize].bb = 3; Ok(Out::Split(vec![(vec![lab(st, "end")], st.clone())])) }
                    V::Adt(_, 1, x) => {
                        let t = self.show(st, &x[0]);
                        st.frames[fi as usize].bb = nx;
                        Ok(Out::Split(vec![(vec![lab(st, &format!("yield {t}"))], st.clone())]))
                    }
                    v => Err(Stop::Fail(format!("next() returned {}", self.show(st, v)))),
                }
            }
            ("drv:lexer" | "drv:hint", 3) => { let f = fnl(st, 3); self.invoke(st, &pre, f, vec![V::Ref(loc(1))], cx(0, 4)) }
            ("drv:lexer" | "drv:hint", 4) => {
                let r = fnl(st, 0);
                Ok(Out::Done(vec![lab(st, &match &r { V::Adt(_, 0, _) => "ret".to_string(), V::Adt(_, 1, x) => format!("yield after end {}", self.show(st, &x[0])), _ => "ret ?".into() })]))
            }
            // ask for the hint at any time
            ("drv:hint", 5) => {
                let mut a = st.clone(); a.frames[fi as usize].bb = 1;
                let mut b = st.clone(); b.frames[fi as usize].bb = 6;
                Ok(Out::Split(vec![(vec![lab(st, "go")], a), (vec![], b)]))
            }
            ("drv:hint", 6) => { let f = fnl(st, 4); self.invoke(st, &pre, f, vec![V::Ref(loc(1))], cx(0, 7)) }
            ("drv:hint", 7) => {
                let r = fnl(st, 0);
                Ok(Out::Done(vec![lab(st, &format!("hint {}", self.show(st, &r)))]))
            }
            // the commands of a parser, also after the end
            ("drv:commands", 0) => {
                let f = fnl(st, 2);
                let p = fnl(st, 1);
                self.invoke(st, &pre, f, vec![p], cx(1, 1))
            }
            ("drv:commands", 1) => {
                let mut a = st.clone(); a.frames[fi as usize].bb = 2;
                let mut b = st.clone(); b.frames[fi as usize].bb = 4;
                Ok(Out::Split(vec![(vec![Lab::t("next")], a), (vec![], b)]))
            }
            ("drv:commands", 2) => { let f = fnl(st, 3); self.invoke(st, &pre, f, vec![V::Ref(loc(1))], cx(0, 3)) }
            ("drv:commands", 3) => {
                let r = std::mem::replace(&mut st.frames[fi as usize].locals[0], V::Undef);
                let l = match &r { V::Adt(_, 0, _) => "end".to_string(), V::Adt(_, 1, x) => format!("yield {}", self.show(st, &x[0])), v => return Err(Stop::Fail(format!("next() returned {}", self.show(st, v)))) };
                st.frames[fi as usize].bb = 1;
                Ok(Out::Split(vec![(vec![Lab::t(&l)], st.clone())]))
            }
            ("drv:commands", 4) => Ok(Out::Done(vec![Lab::t("ret")])),
            _ => Err(Stop::Fail(format!("driver {op}:{stage}"))),
        }
    }
}

/// iterating over the commands of a parser; the parsing of one command is a single event
pub fn commands<'tcx>(tcx: TyCtxt<'tcx>) -> Result<(An<'tcx>, Graph), String> {
    crate::hooks::COARSE.with(|c| c.set(false));
    let Some(token) = find_adt(tcx, "token::Token") else { return Err("no token::Token".into()) };
    let Some(parser) = find_adt(tcx, "parse::Parser") else { return Err("no parse::Parser".into()) };
    let Some(one) = parser_fn(tcx, "complete_command") else { return Err("no Parser::complete_command".into()) };
    let mut cfg = config();
    cfg.max_states = 50_000;
    let mut an = An::new(tcx, one, cfg, token);
    let fields: Vec<String> = tcx.adt_def(parser).non_enum_variant().fields.iter().map(|f| f.name.to_string()).collect();
    let Some(fi) = fields.iter().position(|f| f == "iter") else { return Err("Parser has no field iter".into()) };
    an.parser_iter_field = fi as u16;
    an.iter_proj = vec![P::F(fi as u16)];
    let t = tcx.type_of(parser).instantiate_identity().skip_norm_wip();
    let Some(into) = crate::func::impl_fn(tcx, "IntoIterator", "into_iter", &|x| matches!(x.kind(), ty::Adt(a, _) if a.did() == parser)) else { return Err("Parser is no IntoIterator".into()) };
    let it = tcx.fn_sig(into).instantiate_identity().skip_norm_wip().skip_binder().output();
    let ga = ty::GenericArgs::identity_for_item(tcx, into);
    let it = an.subst(ga, it);
    let ty::Adt(ia, _) = it.kind() else { return Err(format!("into_iter gives {it}")) };
    let ia = ia.did();
    let _ = t;
    let Some(next) = crate::func::impl_fn(tcx, "Iterator", "next", &|x| matches!(x.kind(), ty::Adt(a, _) if a.did() == ia)) else { return Err("no next".into()) };
    let r = an.run(&|an: &mut An<'tcx>| {
        let pix = an.adt(parser);
        let fs: Vec<V> = fields.iter().map(|f| match f.as_str() { "iter" => stream(false), f => V::sym(f) }).collect();
        let f = an.fnv(into, ty::GenericArgs::identity_for_item(tcx, into));
        let g = an.fnv(next, ty::GenericArgs::identity_for_item(tcx, next));
        let mut st = St::default();
        st.frames.push(Frame { k: FK::Native("root"), bb: 0, t: false, locals: vec![V::Undef], dest: None, target: 0 });
        st.frames.push(Frame { k: FK::Native("drv:commands"), bb: 0, t: false, locals: vec![V::Undef, V::Adt(pix, 0, fs), f, g], dest: None, target: 0 });
        vec![(vec![], st)]
    });
    match r {
        Ok(()) => { let g = an.graph(); Ok((an, g)) }
        Err(e) => Err(format!("{e:?} at {}", an.site(an.cur_span))),
    }
}

pub fn analyse<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> Result<(An<'tcx>, Graph), String> {
    if name == "ParserIterator" { return commands(tcx) }
    crate::hooks::COARSE.with(|c| c.set(true));
    let Some(token) = find_adt(tcx, "token::Token") else { return Err("no token::Token".into()) };
    let Some(lexer) = find_adt(tcx, "lexer::Lexer") else { return Err("no lexer::Lexer".into()) };
    let Some(new) = inherent_fn(tcx, lexer, "new") else { return Err("no Lexer::new".into()) };
    let mut cfg = Config::default();
    cfg.max_states = 200_000;
    cfg.recursion = 1;
    cfg.raw_stream_ch = true;
    let mut an = An::new(tcx, new, cfg, token);
    an.iter_proj = vec![P::F(99)];
    let op = if name == "Lexer" { "drv:lexer" } else { "drv:hint" };
    let r = an.run(&|an: &mut An<'tcx>| {
        let ga = ty::GenericArgs::identity_for_item(tcx, new);
        let f = an.fnv(new, ga);
        let t = tcx.type_of(lexer).instantiate_identity().skip_norm_wip();
        let next = an.trait_method("Iterator", "next", t).unwrap();
        let hint = an.trait_method("Iterator", "size_hint", t).unwrap();
        let mut st = St::default();
        st.frames.push(Frame { k: FK::Native("root"), bb: 0, t: false, locals: vec![V::Undef], dest: None, target: 0 });
        st.frames.push(Frame { k: FK::Native(op), bb: 0, t: false, locals: vec![V::Undef, V::Undef, f, next, hint], dest: None, target: 0 });
        vec![(vec![], st)]
    });
    match r {
        Ok(()) => { let g = an.graph(); Ok((an, g)) }
        Err(e) if std::env::var("CONCH_SA_HOT").is_ok() => { an.hot(); Err(format!("{e:?}")) }
        Err(e) => Err(format!("{e:?} at {}", an.site(an.cur_span))),
    }
}
