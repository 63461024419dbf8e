//! Models of library operations and of the opaque productions.
use crate::interp::*;
use crate::val::*;
use rustc_middle::ty::{self, GenericArgsRef};
use rustc_span::def_id::DefId;
use std::rc::Rc;


pub enum Eqr { B(bool), Split(Vec<(Vec<Lab>, St)>), Sym(String), Top }

fn strip(v: &mut V) {
    v.visit_mut(&mut |x| match x {
        V::Sym(y) => if y.age < 10 { y.age += 10 },
        V::El(e) => { e.src = match e.src { Src::Age(n) if n < 10 => Src::Age(n + 10), Src::Peek(_) => Src::Age(19), x => x }; e.mask = Mask([u64::MAX; 4]); }
        _ => {}
    });
}
thread_local! { pub static COARSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// keep only what the elements have in common
fn coarse(v: &mut VecV) {
    if !COARSE.with(|c| c.get()) { return }
    if v.len & 1 != 0 { return }
    if v.flags.starts_with('s') { v.el = vec![V::Top] }
    else if v.el.len() == 2 { let j = vjoin(&v.el[0], &v.el[1]); v.el = vec![j]; }
    v.len = 6;
}
pub fn vpush(vv: &mut VecV, x: V) { vpush1(vv, x); coarse(vv) }
fn vpush1(vv: &mut VecV, mut x: V) {
    strip(&mut x);
    if COARSE.with(|c| c.get()) { x.visit_mut(&mut |v| if let V::Pos(_, p) = v { *p = PosV::Before { ev: s("earlier"), age: 0 } }) }
    match vv.len {
        1 => { vv.len = 2; vv.el = vec![x]; }
        2 => { vv.len = 4; vv.el.push(x); }
        4 => { let j = vjoin(&vv.el[0], &vv.el[1]); vv.el = vec![j, x]; }
        _ => {
            let first = vv.el.first().cloned().unwrap_or(V::Top);
            vv.el = vec![first, x];
            vv.len = if vv.len & 1 == 1 { 6 } else { 4 };
        }
    }
}
/// "all elements so far" with one more
pub fn vjoin(m: &V, x: &V) -> V {
    if m == x { return m.clone() }
    if !COARSE.with(|c| c.get()) { return V::Top }
    match (m, x) {
        (V::Tup(a), V::Tup(b)) if a.len() == b.len() => V::Tup(a.iter().zip(b).map(|(x, y)| vjoin(x, y)).collect()),
        (V::Vec(a), V::Vec(b)) if a.flags == b.flags => {
            let mut v = (**a).clone();
            v.len |= b.len;
            if a.el.is_empty() { v.el = b.el.clone() }
            else if !b.el.is_empty() { let j = a.el.iter().chain(b.el.iter()).skip(1).fold(a.el[0].clone(), |j, e| vjoin(&j, e)); v.el = vec![j]; if v.len & 4 != 0 || v.len & 2 != 0 { v.len |= 6 } }
            V::Vec(Box::new(v))
        }
        (V::Pos(i, _), V::Pos(j, _)) if i == j => V::Pos(i.clone(), PosV::Before { ev: s("earlier"), age: 0 }),
        _ => V::Top,
    }
}
pub fn vcat(a: &mut VecV, b: &VecV) { vcat1(a, b); coarse(a) }
fn vcat1(a: &mut VecV, b: &VecV) {
    if b.len == 1 { return }
    if a.len == 1 { a.len = b.len; a.el = b.el.clone(); return }
    let mut j = a.el[0].clone();
    for x in a.el.iter().skip(1).chain(b.el.iter().take(b.el.len() - 1)) { j = vjoin(&j, x); }
    let last = b.el.last().cloned().unwrap();
    if b.el.len() == 1 && b.len != 2 { j = vjoin(&j, &last); }
    a.len = if a.len & 1 == 1 || b.len & 1 == 1 { 6 } else { 4 };
    a.el = vec![j, last];
}
fn as_str_vec(v: &V) -> VecV {
    match v {
        V::Vec(b) => (**b).clone(),
        V::Str(x) if x.is_empty() => VecV { len: 1, el: vec![], flags: s("s") },
        V::Undef | V::Top => VecV { len: 7, el: vec![V::Top], flags: s("s") },
        x => { let mut x = x.clone(); strip(&mut x); VecV { len: 2, el: vec![x], flags: s("s") } }
    }
}

impl<'tcx> An<'tcx> {
    /// a new text of one character
    fn char_string(&mut self, st: &St, x: &V) -> H {
        let mut new = VecV { len: 6, el: vec![V::Top], flags: s("s") };
        let labs = self.text_event(st, &VecV { len: 1, el: vec![], flags: s("s") }, &mut new, x);
        H::Multi(vec![(labs, st.clone(), V::Vec(Box::new(new)))])
    }
    /// the events of adding `x` to the text `old`, which becomes `new`; a text is told from others that are under construction by a number
    fn text_event(&mut self, st: &St, old: &VecV, new: &mut VecV, x: &V) -> Vec<Lab> {
        let x = self.show(st, x);
        if !self.cfg.raw_stream_ch { return vec![Lab::t(&format!("text += {x}"))] }
        let mut labs = vec![];
        if old.flags.len() < 2 || old.len == 1 {
            let mut used = vec![];
            for f in &st.frames { for v in &f.locals { v.visit(&mut |v| if let V::Vec(w) = v { if w.len != 1 && w.flags.starts_with('s') { used.push(w.flags.clone()) } }) } }
            let n = (1..).find(|n| !used.iter().any(|u| u[1..] == format!("{n}"))).unwrap();
            new.flags = s(&format!("s{n}"));
            if old.len != 1 { for e in &old.el { labs.push(Lab::t(&format!("text{n} {} {}", if labs.is_empty() { "=" } else { "+=" }, self.show(st, e)))) } }
            labs.push(Lab::t(&format!("text{n} {} {x}", if labs.is_empty() { "=" } else { "+=" })));
        } else {
            new.flags = old.flags.clone();
            labs.push(Lab::t(&format!("text{} += {x}", &old.flags[1..])));
        }
        labs
    }
    pub fn eq_vals(&mut self, st: &St, pre: &St, a: &V, b: &V) -> R<Eqr> {
        let a = self.deref(st, a);
        let b = self.deref(st, b);
        let a = if let V::Bx(x) = a { *x } else { a };
        let b = if let V::Bx(x) = b { *x } else { b };
        Ok(match (&a, &b) {
            (V::Int(x), V::Int(y)) => Eqr::B(x == y),
            (V::Str(x), V::Str(y)) => Eqr::B(x == y),
            // different tokens are at different places (no token is empty)
            (V::Ext("at", f1), V::Ext("at", f2)) if f1[0] == f2[0] => Eqr::B(f1[1] == f2[1]),
            (V::Adt(_, v1, f1), V::Adt(_, v2, f2)) => {
                if v1 != v2 { Eqr::B(false) } else { return self.eq_list(st, pre, f1, f2) }
            }
            (V::Tup(f1), V::Tup(f2)) => return self.eq_list(st, pre, f1, f2),
            (V::Ext("xv", f1), V::Ext("xv", f2)) => return self.xeq(st, pre, f1, f2),
            (V::Arr(f1), V::Arr(f2)) => { if f1.len() != f2.len() { Eqr::B(false) } else { return self.eq_list(st, pre, f1, f2) } }
            (V::Fn(x), V::Fn(y)) => Eqr::B(x == y),
            (V::El(e), V::El(f)) if e == f => Eqr::B(true),
            (V::El(e), V::Adt(d, k, fs)) | (V::Adt(d, k, fs), V::El(e)) if !e.ch && self.adts[*d as usize] == self.token_def => {
                let k = *k as usize;
                let kb = match self.el_pred(pre, e, self.kind_mask(k))? { PR::B(b) => b, PR::Top => return Ok(Eqr::Top), PR::Split(a) => return Ok(Eqr::Split(a)) };
                if fs.is_empty() {
                    Eqr::B(kb)
                } else {
                    if !kb { return Ok(Eqr::B(false)) }
                    let pay = self.deref(st, &fs[0]);
                    let t = V::Ext("text", vec![V::El(e.clone())]);
                    return self.eq_vals(st, pre, &t, &pay);
                }
            }
            (V::El(e), V::Int(c)) | (V::Int(c), V::El(e)) if e.ch => {
                let m = if *c < 128 { Mask::one(*c as usize) } else { return Ok(Eqr::Top) };
                match self.el_pred(pre, e, m)? { PR::B(b) => Eqr::B(b), PR::Top => Eqr::Top, PR::Split(a) => Eqr::Split(a) }
            }
            (V::Ext("text", t), V::Str(x)) | (V::Str(x), V::Ext("text", t)) => {
                let V::El(e) = &t[0] else { return Ok(Eqr::Top) };
                if e.ch { return Ok(Eqr::Top) }
                if !self.texts.iter().any(|(_, y)| y.as_str() == x.as_ref()) { return Err(Stop::AddText(x.to_string())) }
                let m = self.text_atoms(x);
                match self.el_pred(pre, e, m)? { PR::B(b) => Eqr::B(b), PR::Top => Eqr::Top, PR::Split(a) => Eqr::Split(a) }
            }
            (V::Sym(y), V::Adt(d, ..)) | (V::Adt(d, ..), V::Sym(y)) if self.tcx.adt_def(self.adts[*d as usize]).is_enum() && self.adts[*d as usize] != self.token_def => {
                Eqr::Split(self.split_sym(pre, y, *d))
            }
            (V::Vec(x), V::Vec(y)) => {
                if x.len == 1 && y.len == 1 { Eqr::B(true) } else if x.len & y.len == 0 { Eqr::B(false) } else { Eqr::Sym(format!("Eq({},{})", self.show(st, &a), self.show(st, &b))) }
            }
            (V::Vec(x), V::Str(y)) | (V::Str(y), V::Vec(x)) if y.is_empty() && x.len & 1 == 0 => Eqr::B(false),
            (V::Top | V::Undef, _) | (_, V::Top | V::Undef) => Eqr::Top,
            (V::Sym(x), V::Sym(y)) if x == y => Eqr::B(true),
            _ => {
                let mut l = [self.show(st, &a), self.show(st, &b)];
                l.sort();
                Eqr::Sym(format!("Eq({},{})", l[0], l[1]))
            }
        })
    }
    pub fn eq_list(&mut self, st: &St, pre: &St, a: &[V], b: &[V]) -> R<Eqr> {
        let mut syms = vec![];
        let mut top = false;
        for (x, y) in a.iter().zip(b.iter()) {
            match self.eq_vals(st, pre, x, y)? {
                Eqr::B(true) => {}
                Eqr::B(false) => return Ok(Eqr::B(false)),
                Eqr::Split(x) => return Ok(Eqr::Split(x)),
                Eqr::Sym(x) => syms.push(x),
                Eqr::Top => top = true,
            }
        }
        Ok(if top { Eqr::Top } else if syms.is_empty() { Eqr::B(true) } else { Eqr::Sym(syms.join("&")) })
    }
    fn eq_val(&mut self, e: Eqr, neg: bool) -> H {
        match e {
            Eqr::B(b) => H::Val(V::bool(b != neg)),
            Eqr::Split(a) => H::Retry(a),
            Eqr::Sym(x) => { let v = V::sym(&x); H::Val(if neg { V::Ext("not", vec![v]) } else { v }) }
            Eqr::Top => H::Val(V::Top),
        }
    }
    fn const_slice(&self, st: &St, v: &V) -> bool {
        match self.deref(st, v) { V::Arr(a) => a.iter().all(|x| !matches!(self.deref(st, x), V::Sym(_) | V::Top)), _ => false }
    }
    pub fn stream_pl(&self, st: &St, v: &V) -> Option<Pl> {
        let pl = self.deref_place(st, v)?;
        match self.get(st, &pl) { Some(V::Stream(_)) => Some(pl), _ => None }
    }
    fn parser_stream(&self, st: &St, v: &V) -> Option<Pl> {
        let mut pl = self.deref_place(st, v)?;
        pl.proj.push(P::F(self.parser_iter_field));
        match self.get(st, &pl) { Some(V::Stream(_)) => Some(pl), _ => None }
    }
    fn char_set(name: &str) -> Option<Mask> {
        let mut m = Mask::NONE;
        let mut asc = |f: &dyn Fn(char) -> bool| for i in 0..128u8 { if f(i as char) { m.set(i as usize) } };
        let ext: &[usize] = match name {
            "is_whitespace" => { asc(&|c| c.is_whitespace()); &[CH_WS] }
            "is_alphabetic" => { asc(&|c| c.is_alphabetic()); &[CH_ALPHA] }
            "is_alphanumeric" => { asc(&|c| c.is_alphanumeric()); &[CH_ALPHA, CH_NUM] }
            "is_numeric" => { asc(&|c| c.is_numeric()); &[CH_NUM] }
            "is_ascii_digit" => { asc(&|c| c.is_ascii_digit()); &[] }
            "is_ascii_alphabetic" => { asc(&|c| c.is_ascii_alphabetic()); &[] }
            "is_ascii_alphanumeric" => { asc(&|c| c.is_ascii_alphanumeric()); &[] }
            "is_ascii_whitespace" => { asc(&|c| c.is_ascii_whitespace()); &[] }
            "is_ascii_punctuation" => { asc(&|c| c.is_ascii_punctuation()); &[] }
            "is_ascii" => { asc(&|_| true); &[] }
            _ => return None,
        };
        for e in ext { m.set(*e) }
        Some(m)
    }
    pub fn iter_next_fn(&mut self, self_ty: ty::Ty<'tcx>) -> Option<V> {
        let it = self.tcx.get_diagnostic_item(rustc_span::sym::Iterator)?;
        let next = self.tcx.associated_items(it).in_definition_order().find(|a| a.name().as_str() == "next")?.def_id;
        let ga = self.tcx.mk_args(&[self_ty.into()]);
        Some(self.fnv(next, ga))
    }
    fn push_native(&mut self, st: &mut St, op: &'static str, locals: Vec<V>, cx: &Ctx) {
        st.frames.push(Frame { k: FK::Native(op), bb: 0, t: false, locals, dest: cx.dest.clone(), target: cx.target.unwrap_or(0) });
    }
    /// the abstract vec behind an iterator over a vec, if it is one
    fn whole_vec(&self, st: &St, v: &V) -> Option<VecV> {
        match v {
            V::Vec(b) => Some((**b).clone()),
            V::Ext("vecinto" | "vecit", x) => match &x[0] { V::Vec(b) => Some((**b).clone()), _ => None },
            V::Ref(_) => { let d = self.deref(st, v); if let V::Ref(_) = d { None } else { self.whole_vec(st, &d) } }
            V::Arr(a) => {
                let mut vv = VecV { len: 1, el: vec![], flags: s("") };
                for x in a { vpush(&mut vv, x.clone()) }
                Some(vv)
            }
            V::Ext("empty", _) => Some(VecV { len: 1, el: vec![], flags: s("") }),
            V::Ext("once", x) => Some(VecV { len: 2, el: vec![x[0].clone()], flags: s("") }),
            V::Adt(a, vi, f) if self.adt_name(*a) == "Option" => Some(if *vi == 0 { VecV { len: 1, el: vec![], flags: s("") } } else { VecV { len: 2, el: f.clone(), flags: s("") } }),
            _ => None,
        }
    }
    fn iter_next(&mut self, st: &mut St, pre: &St, pl: &Pl, cx: &Ctx) -> R<H> {
        let v = self.read(st, pl);
        match v {
            V::Stream(_) => {
                if let Some(a) = self.split_slot(pre, pl, 0) { return Ok(H::Retry(a)) }
                Ok(H::Multi(self.consume(st, pl)))
            }
            V::Ext("sliceit", f) => {
                let V::Int(i) = f[1] else { return Ok(H::Val(V::Top)) };
                let V::Arr(a) = self.deref(st, &f[0]) else { return Ok(H::Val(V::Top)) };
                if i as usize >= a.len() { return Ok(H::Val(self.none())) }
                self.set(st, pl, V::Ext("sliceit", vec![f[0].clone(), V::Int(i + 1)]));
                let e = match self.deref_place(st, &f[0]) {
                    Some(mut p) => { p.proj.push(P::Idx(i as u16)); V::Ref(p) }
                    None => a[i as usize].clone(),
                };
                let e = match &e { V::Ref(p) => match self.get(st, p) { Some(V::Str(_)) | Some(V::Adt(..)) | Some(V::Int(_)) => V::Ref(Pl { base: Base::Const(Rc::new(a[i as usize].clone())), proj: vec![] }), _ => e }, _ => e };
                Ok(H::Val(self.some(e)))
            }
            V::Ext("vecinto" | "vecit", f) => {
                let by_ref = matches!(self.read(st, pl), V::Ext("vecit", _));
                let V::Vec(vv) = &f[0] else { return Ok(H::Val(V::Top)) };
                let tag = if by_ref { "vecit" } else { "vecinto" };
                let mut out = vec![];
                let mut alts: Vec<(Option<V>, VecV)> = vec![];
                if vv.len & 1 != 0 { alts.push((None, VecV { len: 1, el: vec![], flags: vv.flags.clone() })); }
                if vv.len & 2 != 0 { alts.push((Some(vv.el[0].clone()), VecV { len: 1, el: vec![], flags: vv.flags.clone() })); }
                if vv.len & 4 != 0 {
                    let last = vv.el[vv.el.len() - 1].clone();
                    let f = vv.el[0].clone();
                    alts.push((Some(f.clone()), VecV { len: 2, el: vec![last.clone()], flags: vv.flags.clone() }));
                    alts.push((Some(f.clone()), VecV { len: 4, el: vec![f, last], flags: vv.flags.clone() }));
                }
                let fresh = vv.len.count_ones() > 1;
                for (e, rest) in alts {
                    let mut s2 = st.clone();
                    let mut rest = rest;
                    if fresh && vv.el.len() == 1 && rest.len == 4 { rest.el = vec![vv.el[0].clone()]; rest.len = 6; }
                    else if fresh && vv.el.len() == 1 && rest.len == 2 && vv.len & 4 != 0 { continue }
                    self.set(&mut s2, pl, V::Ext(tag, vec![V::Vec(Box::new(rest))]));
                    let v = match e { None => self.none(), Some(e) => { let e = if by_ref { match e { V::Sym(_) | V::Str(_) | V::El(_) | V::Top => e, e => V::Ref(Pl { base: Base::Const(Rc::new(e)), proj: vec![] }) } } else { e }; self.some(e) } };
                    let lab = if matches!(&v, V::Adt(_, 0, _)) { vec![] } else { vec![Lab::t("~")] };
                    out.push((lab, s2, v));
                }
                Ok(H::Multi(out))
            }
            V::Ext("symit", f) => {
                let V::Sym(y) = &f[0] else { return Ok(H::Val(V::Top)) };
                let n = self.none();
                let e = V::Sym(y.child("[]"));
                let sm = self.some(e);
                Ok(H::Multi(vec![(vec![], st.clone(), n), (vec![Lab::t("~")], st.clone(), sm)]))
            }
            V::Ext("once", f) => {
                self.set(st, pl, V::Ext("empty", vec![]));
                Ok(H::Val(self.some(f[0].clone())))
            }
            V::Ext("empty", _) => Ok(H::Val(self.none())),
            V::Ext("flatmap", _) => {
                self.push_native(st, "flatnext", vec![V::Undef, V::Ref(pl.clone())], cx);
                Ok(H::Pushed)
            }
            V::Ext("charsC", f) => {
                let (V::Str(x), V::Int(i)) = (&f[0], &f[1]) else { return Ok(H::Val(V::Top)) };
                match x.chars().nth(*i as usize) {
                    Some(c) => { self.set(st, pl, V::Ext("charsC", vec![f[0].clone(), V::Int(i + 1)])); Ok(H::Val(self.some(V::Int(c as i128)))) }
                    None => Ok(H::Val(self.none())),
                }
            }
            V::Adt(a, _, f) if self.adt_name(a) == "Range" => {
                if let (V::Int(x), V::Int(y)) = (&f[0], &f[1]) {
                    if x >= y { return Ok(H::Val(self.none())) }
                    let v = V::Adt(a, 0, vec![V::Int(x + 1), V::Int(*y)]);
                    let x = *x;
                    self.set(st, pl, v);
                    return Ok(H::Val(self.some(V::Int(x))));
                }
                Ok(H::No)
            }
            V::Ext(n, f) if n == "adapter" || n == "adapter1" => {
                // next() of one of the token iterators: an event on the underlying stream
                let V::Str(name) = &f[0] else { return Ok(H::Val(V::Top)) };
                let Some(spl) = self.stream_pl(st, &f[1]) else { return Ok(H::Val(V::Top)) };
                let x = self.stream_at(st, &spl).unwrap().clone();
                let args: Vec<String> = f[2..].iter().map(|v| self.show(st, v)).collect();
                let pre_n = if x.id.as_ref() == "in" { String::new() } else { format!("@{}", x.id) };
                let base = format!("{name}{pre_n}");
                let mut b2 = st.clone();
                let la: Vec<Mask> = x.la.iter().map(|s| s.mask).collect();
                self.advance(&mut b2, &x.id, &base, false);
                if let Some(V::Stream(y)) = self.get(&b2, &spl) { let mut y = y.clone(); y.la.clear(); self.set(&mut b2, &spl, V::Stream(y)); }
                self.age_base(&mut b2, &base);
                let none = self.none();
                let all = { let mut m = self.all_mask(false); m = m.sub(&Mask::one(EOF_TOK)); m };
                let id: Rc<str> = s(&format!("{base}"));
                let tokv = V::El(El { st: id.clone(), ch: false, mask: all, src: Src::Age(0) });
                let mut outs = vec![];
                // a fresh `balanced()` yields at least one item if there is a token
                let fresh = n == "adapter" && name.as_ref() == "balanced" && x.la.first().map_or(false, |s| !s.mask.has(EOF_TOK));
                let f2 = f.clone();
                self.set(&mut b2, pl, V::Ext("adapter1", f2));
                if !fresh { outs.push((vec![Lab { txt: s(&format!("{base}({})→None", args.join(", "))), la: la.clone() }], b2.clone(), none)); }
                // one alternative per known class of tokens
                let part = self.tpart.clone();
                for p in part {
                    let m = p.and(&all);
                    if m.is_empty() { continue }
                    let mut b3 = b2.clone();
                    self.advance(&mut b3, &id, "tok", true);
                    let mut e = match tokv.clone() { V::El(e) => e, _ => unreachable!() };
                    e.mask = m;
                    let o = self.ok(V::El(e));
                    let v = self.some(o);
                    let mut lam = vec![m];
                    lam.extend(la.iter().copied());
                    outs.push((vec![Lab { txt: s(&format!("{base}({})→Ok", args.join(", "))), la: lam }], b3, v));
                }
                let er = self.err(V::sym(&format!("{base}.Err")));
                let v = self.some(er);
                outs.push((vec![Lab { txt: s(&format!("{base}({})→Err", args.join(", "))), la }], b2, v));
                Ok(H::Multi(outs))
            }
            _ => Ok(H::No),
        }
    }
    fn token_as_str(&mut self) -> Option<DefId> {
        let tcx = self.tcx;
        for i in tcx.inherent_impls(self.token_def) {
            for a in tcx.associated_items(*i).in_definition_order() { if a.name().as_str() == "as_str" { return Some(a.def_id) } }
        }
        None
    }
    fn stringish(&mut self, st: &St, v: &V) -> Option<V> {
        match self.deref(st, v) {
            x @ (V::Str(_) | V::Ext("text", _)) => Some(x),
            V::Vec(b) => Some(V::Vec(b)),
            V::El(e) => Some(if e.ch { V::El(e) } else { V::Ext("text", vec![V::El(e)]) }),
            V::Sym(y) => Some(V::Sym(y)),
            _ => None,
        }
    }
    pub fn hook(&mut self, st: &mut St, pre: &St, def: DefId, ga: GenericArgsRef<'tcx>, args: &[V], cx: &Ctx) -> R<H> {
        let sh = self.short(def);
        let sh: &str = &sh.clone();
        let name = sh.rsplit("::").next().unwrap().to_string();
        let name: &str = &name;
        let owner = &sh[..sh.len() - name.len() - 2];
        if self.cfg.raw_iter { match self.ihook(st, pre, args, owner, name)? { H::No => {} h => return Ok(h) } }
        if self.cfg.exact { match self.xhook(st, pre, def, ga, args, cx, owner, name)? { H::No => {} h => return Ok(h) } }
        // the box itself is given back; what was in it has been moved or dropped before
        if owner == "Drop" && name == "drop" && ga.types().next().is_some_and(|t| t.is_box()) { return Ok(H::Val(V::unit())) }
        // ---- the repository's own abstractions
        if def.is_local() {
            if self.cfg.nts.contains(sh) {
                if let Some(pl) = self.parser_stream(pre, &args[0]) {
                    if self.cfg.wskip.contains(sh) {
                        if let Some(a) = self.skip_ws(pre, &pl) { return Ok(H::Retry(a)) }
                    }
                    let sl = matches!(name, "peek_reserved_token" | "peek_reserved_word" | "reserved_token" | "reserved_word");
                    if !(sl && self.const_slice(st, &args[1])) {
                        return Ok(H::Multi(self.nt_call(st, def, ga, &pl, &args[1..], name)));
                    }
                }
            }
            if self.cfg.ws_intrinsic && sh == "Parser::skip_whitespace" {
                if let Some(pl) = self.parser_stream(pre, &args[0]) {
                    if let Some(a) = self.skip_ws(pre, &pl) { return Ok(H::Retry(a)) }
                    return Ok(H::Val(V::unit()));
                }
            }
            if owner == "Builder" && !self.cfg.raw_builder {
                return Ok(H::Multi(self.builder_call(st, def, ga, args)));
            }
            if !self.cfg.raw_iter {
                match name {
                    "multipeek" if owner == "TokenIterWrapper" || owner == "TokenIter" => {
                        if let Some(pl) = self.stream_pl(st, &args[0]) { return Ok(H::Val(V::Mp(Box::new(V::Ref(pl)), 0))) }
                    }
                    "peek_next" if owner == "Multipeek" => {
                        let Some(mpl) = self.deref_place(st, &args[0]) else { return Ok(H::No) };
                        let V::Mp(r, off) = self.read(st, &mpl) else { return Ok(H::No) };
                        let Some(pl) = self.stream_pl(st, &r) else { return Ok(H::No) };
                        return self.mp_next(st, pre, &mpl, &pl, off as usize);
                    }
                    "balanced" | "single_quoted" | "double_quoted" | "backticked" | "backticked_remove_backslashes" => {
                        if let Some(pl) = self.stream_pl(st, &args[0]) {
                            let mut f = vec![V::Str(s(name)), V::Ref(pl)];
                            f.extend(args[1..].iter().cloned());
                            return Ok(H::Val(V::Ext("adapter", f)));
                        }
                    }
                    "buffer_tokens_to_yield_first" => {
                        if let Some(pl) = self.stream_pl(st, &args[0]) {
                            let mut alts = self.nt_call(st, def, ga, &pl, &args[1..], "buffer");
                            // what is put back comes next
                            let put = match self.deref(st, &args[1]) { V::Vec(v) if v.len == 2 && v.el.len() == 1 => v.el.clone(), V::Arr(v) | V::Ext(_, v) => v, _ => vec![] };
                            let tix = self.adt(self.token_def);
                            let la: Vec<Slot> = put.iter().map_while(|v| match v { V::Adt(i, k, _) if *i == tix => Some(Slot { mask: self.kind_mask(*k as usize), rep: false }), _ => None }).collect();
                            if !la.is_empty() && la.len() == put.len() { for a in alts.iter_mut() { self.with_stream(&mut a.1, &pl, &mut |x| x.la = la.clone()) } }
                            return Ok(H::Multi(alts));
                        }
                    }
                    "token_iter_from_backticked_with_removed_backslashes" => {
                        if let Some(pl) = self.stream_pl(st, &args[0]) {
                            let mut alts = self.nt_call(st, def, ga, &pl, &args[1..], "backticked_stream");
                            for a in alts.iter_mut() {
                                a.2.visit_mut(&mut |v| if let V::Sym(y) = v { if y.path.as_ref() == ".Ok" { *v = V::Stream(Box::new(Stream { id: s("backticked"), ch: false, la: vec![], start: 2 })) } });
                            }
                            return Ok(H::Multi(alts));
                        }
                        if self.cfg.exact && owner == "TokenIter" {
                            let a = self.deref(st, &args[0]);
                            return Ok(H::Val(V::sym(&format!("{}.unescaped({})", self.show(st, &a), self.show(st, &args[1])))));
                        }
                    }
                    "pos" if self.cfg.exact && matches!(owner, "TokenIter" | "TokenIterWrapper") => {
                        let a = self.deref(st, &args[0]);
                        return Ok(H::Val(V::sym(&format!("{}.pos()", self.show(st, &a)))));
                    }
                    "new" | "with_position" if owner == "TokenIter" => {
                        let id = format!("sub{}", args.iter().map(|a| format!("<{}>", self.show(st, a))).collect::<String>());
                        return Ok(H::Val(V::Stream(Box::new(Stream { id: s(&id), ch: false, la: vec![], start: 2 }))));
                    }
                    _ => {}
                }
            }
            if matches!(name, "as_str" | "fmt" | "to_string") && owner == "Token" {
                if let V::El(e) = self.deref(st, &args[0]) { return Ok(H::Val(V::Ext("text", vec![V::El(e)]))) }
                if name == "as_str" && matches!(self.deref(st, &args[0]), V::Top) { return Ok(H::Val(V::Ext("text", vec![V::Top]))) }
            }
        }
        // ---- streams
        match name {
            "peek" if args.len() == 1 => {
                if let Some(pl) = self.stream_pl(pre, &args[0]) {
                    if let Some(a) = self.split_slot(pre, &pl, 0) { return Ok(H::Retry(a)) }
                    let v = self.peek_val_pub(st, &pl, 0);
                    return Ok(H::Val(v));
                }
            }
            "pos" if args.len() == 1 => {
                if let Some(pl) = self.stream_pl(st, &args[0]) {
                    let x = self.stream_at(st, &pl).unwrap();
                    return Ok(H::Val(V::Pos(x.id.clone(), match x.start { 0 => PosV::Start(false), 1 => PosV::Start(true), _ => PosV::Cur })));
                }
                if let V::Ext("adapter" | "adapter1", f) = self.deref(st, &args[0]) {
                    if let Some(pl) = self.stream_pl(st, &f[1]) { let x = self.stream_at(st, &pl).unwrap(); return Ok(H::Val(V::Pos(x.id.clone(), match x.start { 0 => PosV::Start(false), 1 => PosV::Start(true), _ => PosV::Cur }))); }
                }
            }
            "next" if args.len() == 1 && !def.is_local() && matches!(self.deref(st, &args[0]), V::Top) => return Ok(H::Val(V::Top)),
            "next" if args.len() == 1 => {
                if let Some(pl) = self.deref_place(st, &args[0]) {
                    match self.iter_next(st, pre, &pl, cx)? { H::No => {} h => return Ok(h) }
                }
            }
            "next_if" | "next_if_eq" if args.len() == 2 && !def.is_local() && self.stream_pl(st, &args[0]).is_some() => {
                let op: &'static str = if name == "next_if" { "next_if" } else { "next_if_eq" };
                self.push_native(st, op, vec![V::Undef, args[0].clone(), args[1].clone(), V::Undef, V::Undef, V::Undef], cx);
                return Ok(H::Pushed);
            }
            "by_ref" if args.len() == 1 => return Ok(H::Val(args[0].clone())),
            "fuse" | "peekable" if args.len() == 1 => {
                if matches!(args[0], V::Stream(_) | V::Ext(..)) { return Ok(H::Val(args[0].clone())) }
            }
            "size_hint" if matches!(self.deref(st, &args[0]), V::Stream(_)) => {
                let no = self.none();
                let so = self.some(V::sym("in.hi"));
                let alts = [no, so].into_iter().map(|h| (vec![], st.clone(), V::Tup(vec![V::sym("in.lo"), h]))).collect();
                return Ok(H::Multi(alts));
            }
            "size_hint" if matches!(self.deref(st, &args[0]), V::Ext(..)) => return Ok(H::Val(V::Top)),
            "checked_add" | "saturating_add" | "wrapping_add" if args.len() == 2 && (matches!(args[0], V::Sym(_)) && matches!(args[1], V::Int(_)) || matches!(args[1], V::Sym(_)) && matches!(args[0], V::Int(_))) => {
                let (y, k) = match (&args[0], &args[1]) { (V::Sym(y), V::Int(k)) | (V::Int(k), V::Sym(y)) => (y.clone(), *k), _ => unreachable!() };
                let v = if k == 0 { V::Sym(y.clone()) } else { V::sym(&format!("{}+{k}", y.show())) };
                if name != "checked_add" { return Ok(H::Val(v)) }
                let (n, o) = (self.none(), self.some(v));
                return Ok(H::Multi(vec![(vec![], st.clone(), n), (vec![], st.clone(), o)]));
            }
            "peek" if args.len() == 1 && !def.is_local() => {
                if let V::Ext(n, f) = self.deref(st, &args[0]) { match n { "empty" => return Ok(H::Val(self.none())), "once" => return Ok(H::Val(self.some(f[0].clone()))), _ => {} } }
            }
            _ => {}
        }
        if def.is_local() {
            let derived = matches!(name, "eq" | "ne" | "clone" | "fmt" | "default");
            if !derived { return Ok(H::No) }
        }
        // ---- library
        let a0 = args.first().map(|a| self.deref(st, a)).unwrap_or(V::Undef);
        match (owner, name) {
            ("FnOnce", "call_once") | ("FnMut", "call_mut") | ("Fn", "call") => {
                let tup = match &args[1] { V::Tup(x) => x.clone(), x => vec![x.clone()] };
                let cx2 = Ctx { dest: cx.dest.clone(), target: cx.target, span: cx.span };
                let ctor = if let V::Fn(i) = a0 { let d = self.fns[i as usize].0; if matches!(self.tcx.def_kind(d), rustc_hir::def::DefKind::Ctor(..)) { Some(d) } else { None } } else { None };
                if let Some(d) = ctor { return Ok(H::Val(self.construct(d, tup))) }
                return Ok(match self.invoke(st, pre, args[0].clone(), tup, cx2)? {
                    Out::Cont => H::Pushed,
                    Out::Dead => H::Dead,
                    Out::Split(a) => H::Done2(a),
                    Out::Done(_) => H::Dead,
                });
            }
            _ => {}
        }
        if matches!(self.tcx.def_kind(def), rustc_hir::def::DefKind::Ctor(..)) { return Ok(H::Val(self.construct(def, args.to_vec()))) }
        match name {
            "eq" | "ne" if args.len() == 2 => { let e = self.eq_vals(st, pre, &args[0], &args[1])?; return Ok(self.eq_val(e, name == "ne")) }
            "clone" | "cloned" | "copied" if args.len() == 1 && (owner != "Option" && owner != "Iterator" || name == "clone") && owner != "Result" => {
                if !matches!(a0, V::Top | V::Undef) { return Ok(H::Val(a0)) }
            }
            "to_owned" | "to_string" | "into_string" | "into_boxed_str" | "as_str" | "as_mut_str" | "into" | "deref" | "deref_mut" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" | "as_slice" | "as_mut_slice" | "to_vec" | "into_boxed_slice" | "into_vec"
                if args.len() == 1 && owner != "Option" && owner != "Result" => {
                if name == "to_string" {
                    if let V::Adt(d, ..) = &a0 {
                        if self.adts[*d as usize] == self.token_def {
                            let d = self.token_as_str();
                            if let Some(d) = d {
                                let cx2 = Ctx { dest: cx.dest.clone(), target: cx.target, span: cx.span };
                                let r = V::Ref(Pl { base: Base::Const(Rc::new(a0.clone())), proj: vec![] });
                                return Ok(match self.call_def(st, pre, d, self.tcx.mk_args(&[]), vec![r], cx2)? { Out::Cont => H::Pushed, Out::Split(a) => H::Done2(a), _ => H::Dead });
                            }
                        }
                    }
                }
                if name == "into" || name == "to_string" {
                    if let (V::El(e), true) = (&a0, self.cfg.raw_stream_ch) { if e.ch { return Ok(self.char_string(st, &a0)) } }
                    if let Some(x) = self.stringish(st, &args[0]) { if !matches!(x, V::Sym(_)) || name == "to_string" { return Ok(H::Val(x)) } }
                    return Ok(H::No);
                }
                match &a0 {
                    // what is changed through it is changed in its place
                    V::Str(_) | V::Ext("text", _) | V::Sym(_) | V::El(_) if matches!(name, "deref_mut" | "as_mut_str") && matches!(owner, "str" | "String" | "DerefMut") => {
                        if let Some(p) = self.deref_place(st, &args[0]) { if !matches!(p.base, Base::Const(_)) { return Ok(H::Val(V::Ref(p))) } }
                        return Ok(H::Val(a0));
                    }
                    V::Str(_) | V::Ext("text", _) | V::Sym(_) | V::El(_) => return Ok(H::Val(a0)),
                    V::Vec(_) | V::Arr(_) => {
                        let owned = matches!(name, "to_owned" | "to_vec" | "into_boxed_slice" | "into_vec" | "into_string");
                        if owned { let w = self.whole_vec(st, &a0).unwrap(); return Ok(H::Val(V::Vec(Box::new(w)))) }
                        if let Some(p) = self.deref_place(st, &args[0]) { return Ok(H::Val(V::Ref(p))) }
                        return Ok(H::Val(a0));
                    }
                    V::Bx(b) => {
                        if let Some(mut p) = self.deref_place(st, &args[0]) { if matches!(self.get(st, &p), Some(V::Bx(_))) { p.proj.push(P::BoxDeref) } return Ok(H::Val(V::Ref(p))) }
                        let _ = b;
                    }
                    _ => {}
                }
            }
            "from" if args.len() == 1 => {
                match (&a0, owner) {
                    (V::Str(_) | V::Ext("text", _), _) => return Ok(H::Val(a0)),
                    (V::El(e), "String") if e.ch && self.cfg.raw_stream_ch => return Ok(self.char_string(st, &a0)),
                    (V::El(e), "String") if e.ch => return Ok(H::Val(V::Vec(Box::new(VecV { len: 2, el: vec![a0.clone()], flags: s("s") })))),
                    (V::Arr(_), "Vec") => { let w = self.whole_vec(st, &a0).unwrap(); return Ok(H::Val(V::Vec(Box::new(w)))) }
                    _ => {}
                }
            }
            _ => {}
        }
        match (owner, name) {
            ("String", "new" | "with_capacity") | ("String", "default") => return Ok(H::Val(V::Vec(Box::new(VecV { len: 1, el: vec![], flags: s("s") })))),
            ("Vec", "new" | "with_capacity" | "default") => return Ok(H::Val(V::vec(1, vec![]))),
            ("Box", "new") => return Ok(H::Val(V::Bx(Box::new(args[0].clone())))),
            ("mem", "swap") => {
                let (Some(p), Some(q)) = (self.deref_place(st, &args[0]), self.deref_place(st, &args[1])) else { return Ok(H::No) };
                let (x, y) = (self.read(st, &p), self.read(st, &q));
                self.set(st, &p, y); self.set(st, &q, x);
                return Ok(H::Val(V::unit()));
            }
            ("mem", "replace") => {
                let Some(p) = self.deref_place(st, &args[0]) else { return Ok(H::No) };
                let x = self.read(st, &p);
                self.set(st, &p, args[1].clone());
                return Ok(H::Val(x));
            }
            ("mem", "take") => {
                let Some(p) = self.deref_place(st, &args[0]) else { return Ok(H::No) };
                let x = self.read(st, &p);
                let d = match &x {
                    V::Vec(b) => V::Vec(Box::new(VecV { len: 1, el: vec![], flags: b.flags.clone() })),
                    V::Str(_) | V::Ext("text", _) => V::Str(s("")),
                    V::Adt(a, ..) if self.adt_name(*a) == "Option" => self.none(),
                    V::Int(_) => V::Int(0),
                    _ => V::Top,
                };
                self.set(st, &p, d);
                return Ok(H::Val(x));
            }
            ("iter", "once") => return Ok(H::Val(V::Ext("once", vec![args[0].clone()]))),
            ("iter", "empty") => return Ok(H::Val(V::Ext("empty", vec![]))),
            ("intrinsics", "discriminant_value") => {
                return Ok(H::Val(match &a0 {
                    V::Adt(a, vi, _) => V::Int(self.tcx.adt_def(self.adts[*a as usize]).discriminant_for_variant(self.tcx, rustc_abi::VariantIdx::from_u32(*vi)).val as i128),
                    V::El(e) => V::ElDisc(e.clone()),
                    _ => V::Top,
                }));
            }
            ("str", "chars") => {
                return Ok(H::Val(match &a0 { V::Str(_) => V::Ext("charsC", vec![a0, V::Int(0)]), _ => V::Ext("chars", vec![a0]) }));
            }
            _ => {}
        }
        // characters
        if owner == "char" || name == "is_digit" {
            if name == "is_digit" || name == "is_ascii_hexdigit" {
                let radix = if name == "is_ascii_hexdigit" { 16 } else { match args.get(1) { Some(V::Int(r)) => *r as u32, _ => return Ok(H::Val(V::Top)) } };
                let mut m = Mask::NONE;
                for i in 0..128u8 { if (i as char).is_digit(radix) { m.set(i as usize) } }
                return Ok(H::Val(match &a0 {
                    V::El(e) => match self.el_pred(pre, e, m)? { PR::B(b) => V::bool(b), PR::Top => V::Top, PR::Split(a) => return Ok(H::Retry(a)) },
                    V::Int(c) => V::bool(char::from_u32(*c as u32).map_or(false, |c| c.is_digit(radix))),
                    _ => V::Top,
                }));
            }
            if let ("to_digit", V::El(e), Some(V::Int(radix))) = (name, &a0, args.get(1)) {
                let radix = *radix as u32;
                for d in 0..radix {
                    let mut m = Mask::NONE;
                    for i in 0..128u8 { if (i as char).to_digit(radix) == Some(d) { m.set(i as usize) } }
                    match self.el_pred(pre, e, m)? { PR::B(true) => return Ok(H::Val(self.some(V::Int(d as i128)))), PR::B(false) => {} PR::Top => return Ok(H::Val(V::Top)), PR::Split(a) => return Ok(H::Retry(a)) }
                }
                return Ok(H::Val(self.none()));
            }
            if let Some(m) = Self::char_set(name) {
                return Ok(H::Val(match &a0 {
                    V::El(e) => match self.el_pred(pre, e, m)? { PR::B(b) => V::bool(b), PR::Top => V::Top, PR::Split(a) => return Ok(H::Retry(a)) },
                    V::Int(c) if *c < 128 => V::bool(m.has(*c as usize)),
                    _ => V::Top,
                }));
            }
        }
        // iterators over sequences
        match name {
            "into_iter" | "iter" | "iter_mut" | "drain" if !args.is_empty() => {
                let by_ref = matches!(args[0], V::Ref(_));
                match &a0 {
                    V::Vec(b) if !b.flags.starts_with('s') => {
                        if name == "drain" {
                            let full = matches!(&args[1], V::Adt(a, ..) if self.adt_name(*a) == "RangeFull");
                            let Some(p) = self.deref_place(st, &args[0]) else { return Ok(H::Val(V::Top)) };
                            if !full {
                                if b.len == 1 { return Ok(H::Val(V::Ext("vecinto", vec![V::Vec(b.clone())]))) }
                                self.changed(st, &p, "drain");
                                return Ok(H::Val(V::Top))
                            }
                            self.set(st, &p, V::vec(1, vec![]));
                            return Ok(H::Val(V::Ext("vecinto", vec![V::Vec(b.clone())])));
                        }
                        if name == "iter_mut" && b.len != 1 {
                            // what is done to the elements through the references is not followed
                            if let Some(p) = self.deref_place(st, &args[0]) { self.set(st, &p, V::Top); }
                        }
                        return Ok(H::Val(V::Ext(if by_ref { "vecit" } else { "vecinto" }, vec![V::Vec(b.clone())])));
                    }
                    V::Arr(_) => {
                        let r = match self.deref_place(st, &args[0]) { Some(p) => V::Ref(p), None => V::Ref(Pl { base: Base::Const(Rc::new(a0.clone())), proj: vec![] }) };
                        return Ok(H::Val(V::Ext("sliceit", vec![r, V::Int(0)])));
                    }
                    V::Sym(y) if owner != "Option" => return Ok(H::Val(V::Ext("symit", vec![V::Sym(y.clone())]))),
                    V::Ext(..) | V::Stream(_) => return Ok(H::Val(args[0].clone())),
                    _ => {}
                }
            }
            "rev" => if let V::Ext(n @ ("vecinto" | "vecit"), f) = &args[0] {
                if let V::Vec(b) = &f[0] { let mut b = b.clone(); b.el.reverse(); return Ok(H::Val(V::Ext(n, vec![V::Vec(b)]))) }
            },
            "all" | "any" if args.len() == 2 && matches!(a0, V::Ext("chars", _)) => {
                if let V::Ext("chars", f) = &a0 {
                    if let Some(m) = self.pred_mask(&args[1])? {
                        let mut all = Mask::NONE;
                        for i in 0..128 { all.set(i) }
                        for i in [CH_WS, CH_ALPHA, CH_NUM, CH_OTHER] { all.set(i) }
                        let t = self.show(st, &f[0]);
                        let (m, neg) = if name == "all" { (m, false) } else { (all.sub(&m), true) };
                        let v = V::sym(&format!("all({t} in {})", show_chars(&m)));
                        return Ok(H::Val(if neg { V::Ext("not", vec![v]) } else { v }));
                    }
                    return Ok(H::Val(V::Top));
                }
            }
            "any" | "all" | "find" | "position" | "find_map" if args.len() == 2 && !matches!(a0, V::Ext("chars", _) | V::Adt(..)) => {
                let t = self.peel_ref(ga.type_at(0));
                let itv = match self.deref_place(st, &args[0]) { Some(p) => V::Ref(p), None => args[0].clone() };
                if let Some(n) = self.iter_next_fn(t) {
                    let op: &'static str = match name { "any" => "any", "all" => "all", "find" => "find", "position" => "position", _ => "find_map" };
                    self.push_native(st, op, vec![V::Undef, itv, V::Int(0), n, args[1].clone(), V::Undef], cx);
                    return Ok(H::Pushed);
                }
            }
            "contains" if args.len() == 2 => {
                if let V::Arr(a) = &a0 {
                    for x in a.clone() {
                        match self.eq_vals(st, pre, &x, &args[1])? {
                            Eqr::B(true) => return Ok(H::Val(V::Int(1))),
                            Eqr::B(false) => {}
                            Eqr::Split(a) => return Ok(H::Retry(a)),
                            _ => return Ok(H::Val(V::Top)),
                        }
                    }
                    return Ok(H::Val(V::Int(0)));
                }
            }
            "fold" if args.len() == 3 => {
                let t = ga.type_at(0);
                if let Some(n) = self.iter_next_fn(t) {
                    let it = self.iter_arg(st, &args[0]);
                    self.push_native(st, "fold", vec![V::Undef, it, args[1].clone(), n, args[2].clone(), V::Undef], cx);
                    return Ok(H::Pushed);
                }
            }
            "flat_map" | "flatten" if matches!(args[0], V::Ext("vecinto" | "vecit", _)) => {
                let it_t = self.into_iter_ty(ga.type_at(0));
                let Some(n) = self.iter_next_fn(it_t) else { return Ok(H::No) };
                let f = args.get(1).cloned().unwrap_or(V::Undef);
                return Ok(H::Val(V::Ext("flatmap", vec![args[0].clone(), f, V::Undef, n])));
            }
            "collect" | "from_iter" => {
                let (it_t, out_t) = if name == "collect" { (ga.type_at(0), ga.types().nth(1).unwrap()) } else { (ga.types().last().unwrap(), ga.type_at(0)) };
                let outn = match out_t.kind() { ty::Adt(ad, _) => self.tcx.item_name(ad.did()).to_string(), _ => String::new() };
                let flag = match outn.as_str() { "Vec" | "Box" | "VecDeque" => "", "String" => "s", _ => return Ok(H::No) };
                if let Some(mut w) = self.whole_vec(st, &args[0]) {
                    w.flags = s(flag);
                    if flag == "s" { if let Some(x) = self.fold_const(&w) { return Ok(H::Val(x)) } }
                    return Ok(H::Val(V::Vec(Box::new(w))));
                }
                let it_t = self.into_iter_ty(it_t);
                if let Some(n) = self.iter_next_fn(it_t) {
                    let it = self.iter_arg(st, &args[0]);
                    self.push_native(st, "collect", vec![V::Undef, it, V::Vec(Box::new(VecV { len: 1, el: vec![], flags: s(flag) })), n], cx);
                    return Ok(H::Pushed);
                }
            }
            "extend" | "extend_from_slice" | "append" if args.len() == 2 => {
                let Some(tp) = self.deref_place(st, &args[0]) else { return Ok(H::No) };
                let cur = self.read(st, &tp);
                if !matches!(cur, V::Vec(_) | V::Str(_) | V::Ext("text", _)) { return Ok(H::No) }
                if let Some(w) = self.whole_vec(st, &args[1]) {
                    let mut c = as_str_vec(&cur);
                    vcat(&mut c, &w);
                    self.set(st, &tp, V::Vec(Box::new(c)));
                    if name == "append" { if let Some(q) = self.deref_place(st, &args[1]) { self.set(st, &q, V::vec(1, vec![])) } }
                    return Ok(H::Val(V::unit()));
                }
                if let V::Sym(y) = self.deref(st, &args[1]) {
                    let mut c = as_str_vec(&cur);
                    vcat(&mut c, &VecV { len: 7, el: vec![V::Sym(y.child("[]"))], flags: s("") });
                    self.set(st, &tp, V::Vec(Box::new(c)));
                    return Ok(H::Val(V::unit()));
                }
                let it_t = self.into_iter_ty(ga.types().last().unwrap());
                if let Some(n) = self.iter_next_fn(it_t) {
                    let it = self.iter_arg(st, &args[1]);
                    self.push_native(st, "extend", vec![V::Undef, it, V::Ref(tp), n], cx);
                    return Ok(H::Pushed);
                }
            }
            _ => {}
        }
        // `vec![..]`
        if owner == "Box" && name == "new_uninit" { return Ok(H::Val(V::Bx(Box::new(V::Tup(vec![V::Undef, V::Tup(vec![V::Undef])]))))) }
        if name.starts_with("box_assume_init_into_vec") {
            let a = match &args[0] { V::Bx(b) => (**b).clone(), v => v.clone() };
            if let V::Tup(x) = &a { if let Some(V::Tup(y)) = x.get(1) { if let Some(w) = self.whole_vec(st, &y[0]) { return Ok(H::Val(V::Vec(Box::new(w)))) } } }
        }
        if matches!(name, "from_str" | "from_str_radix" | "parse") {
            let shown: Vec<String> = args.iter().map(|a| self.show(st, a)).collect();
            let own = if owner == "FromStr" || name == "parse" { format!("{}", ga.type_at(0)) } else { owner.to_string() };
            let (name, shown) = if name == "from_str_radix" && args[1] != V::Int(10) { (name, &shown[..]) } else { ("from_str", &shown[..1]) };
            return Ok(H::Val(V::sym(&format!("{own}::{name}({})", shown.join(",")))));
        }
        // vectors and strings
        let strty = |t: ty::Ty<'tcx>| matches!(t.kind(), ty::Adt(a, _) if self.tcx.item_name(a.did()).as_str() == "String");
        let (owner, name) = if owner == "AddAssign" && ga.types().next().map_or(false, strty) { ("String", "push_str") } else { (owner, name) };
        if matches!(owner, "Vec" | "slice" | "String" | "str" | "Index" | "IndexMut" | "Write") {
            let pl = args.first().and_then(|a| self.deref_place(st, a));
            let at = pl.clone();
            if let Some(Pl { base: Base::Const(_), .. }) = &pl {
                if !def.is_local() && matches!(a0, V::Vec(_) | V::Str(_) | V::Ext("text", _)) && !matches!(owner, "Index") {
                    let sig = self.tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
                    if matches!(sig.inputs().first().map(|t| t.kind()), Some(ty::Ref(_, _, m)) if m.is_mut()) && !matches!(name, "reserve" | "shrink_to_fit" | "reserve_exact") {
                        return Err(Stop::Fail(format!("{name} on an element of a collection")));
                    }
                }
            }
            // a list of any length that is changed
            if let (V::Sym(_), "Vec" | "slice", Some(p)) = (&a0, owner, &pl) {
                let sig = self.tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
                if !def.is_local() && !matches!(p.base, Base::Const(_)) && !matches!(name, "push" | "reserve" | "shrink_to_fit" | "reserve_exact")
                    && matches!(sig.inputs().first().map(|t| t.kind()), Some(ty::Ref(_, _, m)) if m.is_mut()) {
                    if name == "clear" || name == "truncate" && args[1] == V::Int(0) {
                        self.set(st, p, V::Vec(Box::new(VecV { len: 1, el: vec![], flags: s("") })));
                        return Ok(H::Val(V::unit()));
                    }
                    if sig.output().is_unit() {
                        let shown: Vec<String> = args.iter().map(|a| self.show(st, a)).collect();
                        let t = shown.join(",");
                        self.set(st, p, V::sym(&if t.len() > 200 { format!("{name}(..)") } else { format!("{name}({t})") }));
                        return Ok(H::Val(V::unit()));
                    }
                    return Err(Stop::Fail(format!("{name} on a list of any length")));
                }
            }
            match name {
                "concat" | "join" if owner == "slice" && (args.len() == 1 || self.deref(st, &args[1]) == V::Str(s(""))) => {
                    if let V::Vec(b) = &a0 {
                        if b.len == 1 { return Ok(H::Val(V::Vec(Box::new(VecV { len: 1, el: vec![], flags: s("s") })))) }
                        let mut out = VecV { len: 1, el: vec![], flags: s("s") };
                        if b.el.iter().all(|x| !matches!(x, V::Vec(_))) {
                            let mut n = (**b).clone();
                            n.flags = s("s");
                            vcat(&mut out, &n);
                            return Ok(H::Val(V::Vec(Box::new(out))));
                        }
                        if matches!(b.len, 2) {
                            if let V::Vec(x) = &b.el[0] { vcat(&mut out, x); return Ok(H::Val(V::Vec(Box::new(out)))) }
                        }
                        return Ok(H::Val(V::Vec(Box::new(VecV { len: 7, el: vec![V::Top], flags: s("s") }))));
                    }
                }
                "push" | "push_str" | "write_str" | "write_char" if args.len() == 2 => {
                    let Some(pl) = pl else { return Ok(H::No) };
                    let x = if owner == "Vec" { args[1].clone() } else { self.deref(st, &args[1]) };
                    let x = if let V::Int(c) = (&x, owner).0 { if owner != "Vec" { V::Str(s(&char::from_u32(*c as u32).unwrap_or('?').to_string())) } else { x } } else { x };
                    let cur = self.read(st, &pl);
                    if matches!(cur, V::Sym(_)) && owner == "Vec" { self.set(st, &pl, V::Top); return Ok(H::Val(V::unit())) }
                    let mut c = as_str_vec(&cur);
                    let old = c.clone();
                    if let (V::Adt(a, _, fs), "Vec") = (&x, owner) {
                        let ad = self.tcx.adt_def(self.adts[*a as usize]);
                        if ad.is_struct() && ad.did().is_local() && fs.len() >= 2 {
                            // a composite record: its content is an event of its own
                            let lab = Lab::t(&format!("push {}", self.show(st, &x)));
                            let mut tracked = false;
                            x.visit(&mut |v| if let V::Sym(y) = v { tracked |= y.tracked });
                            let n = self.adt_name(*a);
                            vpush(&mut c, V::symt(&n, tracked));
                            let mut s2 = st.clone();
                            self.set(&mut s2, &pl, V::Vec(Box::new(c)));
                            return Ok(H::Multi(vec![(vec![lab], s2, V::unit())]));
                        }
                    }
                    if !matches!(&x, V::Str(t) if t.is_empty()) {
                        if let V::Vec(w) = &x { if owner != "Vec" { vcat(&mut c, w); } else { vpush(&mut c, x.clone()) } } else { vpush(&mut c, x); }
                    }
                    if owner != "Vec" && COARSE.with(|c| c.get()) {
                        // what is put together from tokens that were collected before is no event
                        let mut kept = false;
                        self.deref(st, &args[1]).visit(&mut |v| kept |= match v { V::El(e) => e.frozen(), V::Sym(y) => y.age >= 10, V::Top => true, _ => false });
                        let labs = if kept && !self.cfg.raw_stream_ch { vec![] } else { self.text_event(st, &old, &mut c, &args[1]) };
                        let mut s2 = st.clone();
                        self.set(&mut s2, &pl, V::Vec(Box::new(c)));
                        return Ok(H::Multi(vec![(labs, s2, V::unit())]));
                    }
                    self.set(st, &pl, V::Vec(Box::new(c)));
                    return Ok(H::Val(V::unit()));
                }
                "truncate" | "swap" | "dedup" | "dedup_by" | "dedup_by_key" | "retain" | "retain_mut" | "sort" | "sort_by" | "sort_by_key" | "sort_by_cached_key"
                | "sort_unstable" | "sort_unstable_by" | "sort_unstable_by_key" | "rotate_left" | "rotate_right" | "fill" | "resize"
                    if matches!(a0, V::Vec(_)) => {
                    let Some(pl) = pl else { return Ok(H::No) };
                    let V::Vec(vv) = self.read(st, &pl) else { return Ok(H::Val(V::Top)) };
                    if vv.len.count_ones() > 1 { let a = self.split_vec(pre, &pl).into_iter().map(|s| (vec![], s)).collect(); return Ok(H::Retry(a)) }
                    let grows = matches!(name, "fill" | "resize");
                    let same = !grows && vv.len == 1
                        || vv.len == 2 && (name.starts_with("dedup") || name.starts_with("sort") || name.starts_with("rotate") || name == "swap" || name == "truncate" && matches!(args[1], V::Int(k) if k > 0))
                        || name == "truncate" && args[1] == self.len_of(st, &args[0])
                        || name == "swap" && args[1] == args[2];
                    if name == "truncate" && args[1] == V::Int(0) {
                        let o = V::Vec(vv.clone());
                        self.lose(st, &o);
                        self.set(st, &pl, V::Vec(Box::new(VecV { len: 1, el: vec![], flags: vv.flags })));
                    } else if !same { self.changed(st, &pl, name) }
                    return Ok(H::Val(V::unit()));
                }
                "pop" if args.len() == 1 => {
                    let Some(pl) = pl else { return Ok(H::No) };
                    let V::Vec(vv) = self.read(st, &pl) else { return Ok(H::Val(V::Top)) };
                    if vv.len.count_ones() > 1 { let a = self.split_vec(pre, &pl).into_iter().map(|s| (vec![], s)).collect(); return Ok(H::Retry(a)) }
                    let fl = vv.flags.clone();
                    return Ok(match vv.len {
                        1 => H::Val(self.none()),
                        2 => { self.set(st, &pl, V::Vec(Box::new(VecV { len: 1, el: vec![], flags: fl }))); H::Val(self.some(vv.el[0].clone())) }
                        _ => {
                            let last = self.some(vv.el[1].clone());
                            let mk = |len: u8, el: Vec<V>| V::Vec(Box::new(VecV { len, el, flags: fl.clone() }));
                            let f = vv.el[0].clone();
                            let mut s1 = st.clone();
                            self.set(&mut s1, &pl, mk(2, vec![f.clone()]));
                            let mut s2 = st.clone();
                            self.set(&mut s2, &pl, mk(4, vec![f.clone(), f]));
                            H::Multi(vec![(vec![], s1, last.clone()), (vec![Lab::t("~")], s2, last)])
                        }
                    });
                }
                "remove" | "swap_remove" if args.len() == 2 && owner == "Vec" && args[1] == V::Int(0) => {
                    let Some(pl) = pl else { return Ok(H::No) };
                    let V::Vec(vv) = self.read(st, &pl) else { return Ok(H::Val(V::Top)) };
                    if vv.len.count_ones() > 1 { let a = self.split_vec(pre, &pl).into_iter().map(|s| (vec![], s)).collect(); return Ok(H::Retry(a)) }
                    let mk = |len: u8, el: Vec<V>| V::Vec(Box::new(VecV { len, el, flags: vv.flags.clone() }));
                    match vv.len {
                        1 => {
                            let what = format!("{}: {sh} on an empty vector", self.cur_fn(st));
                            let site = self.site(self.cur_span);
                            self.panics.insert((what, site));
                            return Ok(H::Dead);
                        }
                        2 => { self.set(st, &pl, mk(1, vec![])); return Ok(H::Val(vv.el[0].clone())) }
                        _ if name == "remove" && args[1] == V::Int(0) => {
                            let (f, l) = (vv.el[0].clone(), vv.el[1].clone());
                            let mut s1 = st.clone();
                            self.set(&mut s1, &pl, mk(2, vec![l.clone()]));
                            let mut s2 = st.clone();
                            self.set(&mut s2, &pl, mk(4, vec![f.clone(), l]));
                            return Ok(H::Multi(vec![(vec![], s1, f.clone()), (vec![Lab::t("~")], s2, f)]));
                        }
                        _ => {}
                    }
                }
                "len" | "is_empty" if args.len() == 1 => {
                    if let (V::Vec(vv), "is_empty", Some(pl)) = (&a0, name, &pl) {
                        if vv.len & 1 != 0 && vv.len != 1 {
                            let (mut e, mut f) = (vv.clone(), vv.clone());
                            e.len = 1; e.el = vec![]; f.len &= !1;
                            let mut out = vec![];
                            for n in [e, f] { let mut s2 = pre.clone(); self.set(&mut s2, pl, V::Vec(n)); out.push((vec![], s2)); }
                            if self.get(pre, pl) == Some(&a0) { return Ok(H::Retry(out)) }
                        }
                    }
                    if let (V::Vec(vv), "is_empty") = (&a0, name) { if vv.len & 1 == 0 { return Ok(H::Val(V::Int(0))) } }
                    let l = self.len_of(st, &args[0]);
                    if name == "len" { return Ok(H::Val(l)) }
                    return Ok(H::Val(match &a0 {
                        V::Sym(y) => V::Sym(y.child("is_empty()")),
                        V::Ext("text", _) => { let t = self.show(st, &a0); V::sym(&format!("is_empty({t})")) }
                        _ => match l { V::Int(i) => V::bool(i == 0), V::Ext("len", _) => V::Ext("cmp", vec![V::Str(s("Eq")), l, V::Int(0)]), _ => V::Top },
                    }));
                }
                "insert" if args.len() == 3 => {
                    let Some(pl) = pl else { return Ok(H::No) };
                    let V::Vec(vv) = self.read(st, &pl) else { return Ok(H::Val(V::Top)) };
                    let mut c = *vv.clone();
                    if c.len != 1 && args[1] != V::Int(0) && args[1] != self.len_of(st, &args[0]) {
                        if vv.len.count_ones() > 1 { let a = self.split_vec(pre, &pl).into_iter().map(|s| (vec![], s)).collect(); return Ok(H::Retry(a)) }
                        self.changed(st, &pl, "insert");
                        return Ok(H::Val(V::unit()));
                    }
                    if c.len == 1 || !matches!(args[1], V::Int(0)) { vpush(&mut c, args[2].clone()) }
                    else { let mut x = args[2].clone(); strip(&mut x); let l = c.el.last().cloned().unwrap(); if c.len != 2 { x = vjoin(&x, &c.el[0]); } c.el = vec![x, l]; c.len = 4; }
                    self.set(st, &pl, V::Vec(Box::new(c)));
                    return Ok(H::Val(V::unit()));
                }
                "reverse" if args.len() == 1 => {
                    let Some(pl) = pl else { return Ok(H::No) };
                    if let V::Vec(mut vv) = self.read(st, &pl) { vv.el.reverse(); self.set(st, &pl, V::Vec(vv)); }
                    return Ok(H::Val(V::unit()));
                }
                "clear" if args.len() == 1 => {
                    let Some(pl) = pl else { return Ok(H::No) };
                    if let V::Vec(vv) = self.read(st, &pl) { let o = V::Vec(vv.clone()); self.lose(st, &o); self.set(st, &pl, V::Vec(Box::new(VecV { len: 1, el: vec![], flags: vv.flags }))); }
                    return Ok(H::Val(V::unit()));
                }
                "reserve" | "shrink_to_fit" | "reserve_exact" => return Ok(H::Val(V::unit())),
                "first" | "last" | "get" | "first_mut" | "last_mut" => {
                    let last = name.starts_with("last");
                    if name == "get" && !matches!(args[1], V::Int(0)) { return Ok(H::Val(V::Top)) }
                    match &a0 {
                        V::Vec(vv) => {
                            if vv.len.count_ones() > 1 { if let Some(pl) = &pl { let a = self.split_vec(pre, pl).into_iter().map(|s| (vec![], s)).collect(); return Ok(H::Retry(a)) } return Ok(H::Val(V::Top)) }
                            if vv.len == 1 { return Ok(H::Val(self.none())) }
                            let e = if last { vv.el[vv.el.len() - 1].clone() } else { vv.el[0].clone() };
                            let e = match e { V::Sym(_) | V::Str(_) | V::El(_) | V::Top => e, e => V::Ref(Pl { base: Base::Const(Rc::new(e)), proj: vec![] }) };
                            return Ok(H::Val(self.some(e)));
                        }
                        V::Arr(x) => {
                            let e = if last { x.last() } else { x.first() };
                            return Ok(H::Val(match e { None => self.none(), Some(e) => { let r = V::Ref(Pl { base: Base::Const(Rc::new(e.clone())), proj: vec![] }); self.some(r) } }));
                        }
                        // one certain element of a list of any length
                        V::Sym(y) if !name.ends_with("_mut") => {
                            let n = if last { "[last]" } else { "[first]" };
                            let none = self.none();
                            let some = self.some(V::Sym(y.child(n)));
                            return Ok(H::Multi([("None", none), ("Some", some)].into_iter().map(|(w, v)| (vec![Lab::t(&format!("?{}.{n}={w}", y.show()))], st.clone(), v)).collect()));
                        }
                        _ => return Ok(H::Val(V::Top)),
                    }
                }
                "index" if args.len() == 2 => {
                    if let (V::Vec(vv), V::Int(0)) = (&a0, &args[1]) {
                        if vv.len & 1 == 0 { let e = vv.el[0].clone(); return Ok(H::Val(match e { V::Sym(_) | V::Str(_) | V::El(_) => e, e => V::Ref(Pl { base: Base::Const(Rc::new(e)), proj: vec![] }) })) }
                    }
                }
                _ => {}
            }
            // what any other operation does to what it is given to change is not followed
            if cx.target.is_some() && !def.is_local() {
                let sig = self.tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
                let by_mut = matches!(sig.inputs().first().map(|t| t.kind()), Some(ty::Ref(_, _, m)) if m.is_mut());
                let text = matches!(owner, "str" | "String");
                if by_mut && (matches!(a0, V::Vec(_) | V::Str(_) | V::Ext("text", _)) || text && matches!(a0, V::Sym(_) | V::El(_))) {
                    if let Some(pl) = &at {
                        if text { self.changed(st, pl, name) } else { self.set(st, pl, V::Top) }
                        let lc = self.cur_fn(st);
                        self.opaque_calls.insert(format!("{lc}: {sh}"));
                        return Ok(H::Val(if sig.output().is_unit() { V::unit() } else { V::Top }));
                    }
                }
            }
            // any other string operation is an uninterpreted function
            if matches!(owner, "str" | "String") || (matches!(a0, V::Ext("text", _)) && name == "index") {
                let shown: Vec<String> = args.iter().map(|a| self.show(st, a)).collect();
                let t = format!("{sh}({})", shown.join(","));
                if cx.target.is_some() { let lc = self.cur_fn(st); self.opaque_calls.insert(format!("{lc}: {sh}")); return Ok(H::Val(if t.len() > 200 { V::Top } else { V::sym(&t) })) }
            }
        }
        Ok(H::No)
    }
    /// what is at `pl` was changed by an operation that nothing in the specification corresponds to
    fn changed(&mut self, st: &mut St, pl: &Pl, by: &str) {
        let o = self.read(st, pl);
        self.lose(st, &o);
        self.set(st, pl, V::sym(&format!("{by}(..)")));
    }
    fn fold_const(&self, w: &VecV) -> Option<V> {
        if w.len == 1 { return Some(V::Vec(Box::new(w.clone()))) }
        None
    }
    fn iter_arg(&self, st: &St, v: &V) -> V {
        match v {
            V::Sym(y) => V::Ext("symit", vec![V::Sym(y.clone())]),
            V::Ref(_) => match self.deref(st, v) {
                V::Vec(b) => V::Ext("vecit", vec![V::Vec(b)]),
                _ => v.clone(),
            },
            V::Vec(b) => V::Ext("vecinto", vec![V::Vec(b.clone())]),
            x => x.clone(),
        }
    }
    fn peel_ref(&self, t: ty::Ty<'tcx>) -> ty::Ty<'tcx> { let mut t = t; while let ty::Ref(_, x, _) = t.kind() { t = *x; } t }
    pub fn into_iter_ty(&self, t: ty::Ty<'tcx>) -> ty::Ty<'tcx> {
        let Some(tr) = self.tcx.get_diagnostic_item(rustc_span::sym::IntoIterator) else { return t };
        let Some(a) = self.tcx.associated_items(tr).in_definition_order().find(|a| a.name().as_str() == "IntoIter") else { return t };
        let proj = ty::Ty::new_projection(self.tcx, ty::IsRigid::No, a.def_id, [t]);
        self.subst(self.tcx.mk_args(&[]), proj)
    }
    pub fn construct(&mut self, ctor: DefId, fs: Vec<V>) -> V {
        let tcx = self.tcx;
        let p = tcx.parent(ctor);
        let (adt, vi) = match tcx.def_kind(p) {
            rustc_hir::def::DefKind::Variant => { let e = tcx.parent(p); let ad = tcx.adt_def(e); (e, ad.variant_index_with_id(p).as_u32()) }
            _ => (p, 0),
        };
        let i = self.adt(adt);
        let mut v = V::Adt(i, vi, fs);
        self.fold_rec(i, &mut v, 0);
        self.collapse(v)
    }
    /// a token iterator wrapped in the enum of token iterators is the stream itself
    pub fn collapse(&self, v: V) -> V {
        match v {
            V::Adt(a, vi, mut f) => {
                if f.len() == 1 && matches!(f[0], V::Stream(_)) && self.adt_name(a) == "TokenIterWrapper" { return f.pop().unwrap() }
                V::Adt(a, vi, f)
            }
            v => v,
        }
    }
    fn mp_next(&mut self, st: &mut St, pre: &St, mpl: &Pl, pl: &Pl, off: usize) -> R<H> {
        let x = self.stream_at(st, pl).unwrap().clone();
        let eof = |m: &Mask| *m == Mask::one(if x.ch { EOF_CH } else { EOF_TOK });
        if off > 0 && off <= x.la.len() && eof(&x.la[off - 1].mask) { return Ok(H::Val(self.none())) }
        if off < x.la.len() {
            if let Some(a) = self.split_slot(pre, pl, off) { return Ok(H::Retry(a)) }
        }
        let mpv = V::Ref(pl.clone());
        if off == x.la.len() {
            let part = if x.ch { self.cpart.clone() } else { self.tpart.clone() };
            let mut out = vec![];
            // a run of equal look-ahead classes is summarised
            let n = x.la.len();
            let merge = n >= 3 && x.la[n - 3..].iter().all(|s| s.mask == x.la[n - 1].mask) && !eof(&x.la[n - 1].mask);
            for p in part {
                let mut s2 = st.clone();
                let k = if merge { n - 1 } else { n };
                if let Some(V::Stream(y)) = self.get(&s2, pl) {
                    let mut y = y.clone();
                    if merge { y.la.pop(); y.la[n - 2].rep = true; }
                    y.la.push(Slot { mask: p, rep: false });
                    self.set(&mut s2, pl, V::Stream(y));
                }
                if merge {
                    let id = x.id.clone();
                    self.each(&mut s2, &mut |v| if let V::El(e) | V::ElDisc(e) = v { if e.st == id && e.src == Src::Peek((n - 1) as u8) { e.src = Src::Peek((n - 2) as u8) } });
                }
                self.set(&mut s2, mpl, V::Mp(Box::new(mpv.clone()), (k + 1) as u8));
                let v = self.peek_val_pub(&s2, pl, k);
                out.push((if eof(&p) { vec![] } else { vec![Lab::t("~")] }, s2, v));
            }
            return Ok(H::Multi(out));
        }
        let v = self.peek_val_pub(st, pl, off);
        let mut s2 = st.clone();
        self.set(&mut s2, mpl, V::Mp(Box::new(mpv), (off + 1) as u8));
        let lab = if eof(&x.la[off].mask) { vec![] } else { vec![Lab::t("~")] };
        let mut out = vec![(lab.clone(), s2, v.clone())];
        if x.la[off].rep { out.push((lab, st.clone(), v)); }
        Ok(H::Multi(out))
    }
    pub fn peek_val_pub(&mut self, st: &St, pl: &Pl, k: usize) -> V {
        let x = self.stream_at(st, pl).unwrap().clone();
        let m = x.la[k].mask;
        if m == Mask::one(if x.ch { EOF_CH } else { EOF_TOK }) { return self.none() }
        let e = V::El(El { st: x.id.clone(), ch: x.ch, mask: m, src: Src::Peek(k as u8) });
        self.some(e)
    }
    /// the set of characters on which a closure answers true
    pub fn pred_mask(&mut self, f: &V) -> R<Option<Mask>> {
        let mut out = Mask::NONE;
        for a in (0..128).chain([CH_WS, CH_ALPHA, CH_NUM, CH_OTHER]) {
            let mut st = St::default();
            let e = V::El(El { st: s("any"), ch: true, mask: Mask::one(a), src: Src::Age(0) });
            st.frames.push(Frame { k: FK::Native("halt"), bb: 0, t: false, locals: vec![V::Undef], dest: None, target: 0 });
            st.frames.push(Frame { k: FK::Native("halt"), bb: 0, t: false, locals: vec![V::Undef], dest: None, target: 0 });
            let f2 = match f { V::Clo(..) | V::Fn(_) => f.clone(), _ => return Ok(None) };
            let pre = st.clone();
            let cx = Ctx { dest: Some(Pl { base: Base::Local(1, 0), proj: vec![] }), target: Some(1), span: self.cur_span };
            let mut arg = vec![e];
            // predicates that take a reference
            let _ = &mut arg;
            match self.invoke(&mut st, &pre, f2, arg, cx)? { Out::Cont => {} _ => return Ok(None) }
            let mut n = 0;
            while st.frames.len() > 2 {
                n += 1;
                if n > 500 { return Ok(None) }
                match self.step(&mut st)? { Out::Cont => {} _ => return Ok(None) }
            }
            match st.frames[1].locals[0] { V::Int(1) => out.set(a), V::Int(0) => {} _ => return Ok(None) }
        }
        Ok(Some(out))
    }
    pub fn native(&mut self, st: &mut St, op: &'static str) -> R<Out> {
        let fi = (st.frames.len() - 1) as u16;
        let stage = st.frames.last().unwrap().bb;
        if op.starts_with('x') { return self.xnative(st, op, stage) }
        if op.starts_with("drv:ba") { return self.drive_bal(st, op, stage) }
        if op.starts_with("drv:it") { return self.drive_iter(st, op, stage) }
        if op.starts_with("drv:") { return self.drive(st, op, stage) }
        let pre0 = st.clone();
        let loc = |i: u16| Pl { base: Base::Local(fi, i), proj: vec![] };
        let done = |an: &mut Self, st: &mut St, v: V| -> R<Out> {
            let fr = st.frames.pop().unwrap();
            if let Some(d) = &fr.dest { an.set(st, d, v); }
            let f = st.frames.last_mut().unwrap();
            f.bb = fr.target; f.t = false;
            Ok(Out::Cont)
        };
        match (op, stage) {
            ("any" | "all" | "find" | "position" | "find_map", 0) => {
                let f = st.frames[fi as usize].locals[3].clone();
                let it = st.frames[fi as usize].locals[1].clone();
                let it = if matches!(it, V::Ref(_)) { it } else { V::Ref(loc(1)) };
                let pre = pre0.clone();
                let cx = Ctx { dest: Some(loc(0)), target: Some(1), span: self.cur_span };
                self.invoke(st, &pre, f, vec![it], cx)
            }
            ("any" | "all" | "find" | "position" | "find_map", 1) => {
                let r = std::mem::replace(&mut st.frames[fi as usize].locals[0], V::Undef);
                let item = match r {
                    V::Adt(_, 0, _) => None,
                    V::Adt(_, 1, mut f) => f.pop(),
                    _ => return Err(Stop::Fail(format!("iterator of unknown shape in {op}"))),
                };
                match item {
                    None => { let v = match op { "any" => V::Int(0), "all" => V::Int(1), _ => self.none() }; done(self, st, v) }
                    Some(x) => {
                        st.frames[fi as usize].locals[5] = x.clone();
                        let a = if op == "find" { V::Ref(loc(5)) } else { x };
                        let pre = pre0.clone();
                        let cx = Ctx { dest: Some(loc(0)), target: Some(2), span: self.cur_span };
                        self.invoke(st, &pre, V::Ref(loc(4)), vec![a], cx)
                    }
                }
            }
            ("find_map", 2) => {
                match st.frames[fi as usize].locals[0].clone() {
                    V::Adt(_, 0, _) => { st.frames[fi as usize].bb = 0; Ok(Out::Cont) }
                    v @ V::Adt(_, 1, _) => done(self, st, v),
                    _ => Err(Stop::Fail("unknown result of a find_map closure".into())),
                }
            }
            ("any" | "all" | "find" | "position", 2) => {
                let c = st.frames[fi as usize].locals[0].clone();
                match self.boolish(&st.clone(), &c)? {
                    Ok(b) => {
                        let x = std::mem::replace(&mut st.frames[fi as usize].locals[5], V::Undef);
                        let n = st.frames[fi as usize].locals[2].clone();
                        match (op, b != 0) {
                            ("any", true) => done(self, st, V::Int(1)),
                            ("all", false) => done(self, st, V::Int(0)),
                            ("find", true) => { let v = self.some(x); done(self, st, v) }
                            ("position", true) => { let v = self.some(n); done(self, st, v) }
                            _ => {
                                if op == "position" { st.frames[fi as usize].locals[2] = match n { V::Int(i) if i < 40 => V::Int(i + 1), _ => V::Top }; }
                                st.frames[fi as usize].bb = 0;
                                st.frames[fi as usize].locals[0] = V::Undef;
                                Ok(Out::Cont)
                            }
                        }
                    }
                    Err(Some(a)) => Ok(self.retry(a, st)),
                    Err(None) => {
                        let w = self.show(st, &c);
                        let site = self.site(self.cur_span);
                        let f = self.cur_fn(st);
                        self.top_branches.insert((f, site, w));
                        let mut out = vec![];
                        for b in [0, 1] { let mut s2 = st.clone(); s2.frames[fi as usize].locals[0] = V::Int(b); out.push((vec![], s2)); }
                        Ok(Out::Split(out))
                    }
                }
            }
            ("next_if" | "next_if_eq", 0) => {
                let Some(pl) = self.stream_pl(st, &st.frames[fi as usize].locals[1].clone()) else { return Err(Stop::Fail(op.into())) };
                if let Some(a) = self.split_slot(&pre0, &pl, 0) { return Ok(self.retry(a, st)) }
                match self.peek_val_pub(st, &pl, 0) {
                    V::Adt(_, 1, mut f) => {
                        let x = f.pop().unwrap();
                        let c = st.frames[fi as usize].locals[2].clone();
                        if op == "next_if_eq" {
                            match self.eq_vals(st, &pre0, &x, &c)? {
                                Eqr::B(b) => { st.frames[fi as usize].locals[0] = V::bool(b); st.frames[fi as usize].bb = 1; Ok(Out::Cont) }
                                Eqr::Split(a) => Ok(self.retry(a, st)),
                                _ => Err(Stop::Fail(op.into())),
                            }
                        } else {
                            st.frames[fi as usize].locals[5] = x;
                            let cx = Ctx { dest: Some(loc(0)), target: Some(1), span: self.cur_span };
                            self.invoke(st, &pre0, c, vec![V::Ref(loc(5))], cx)
                        }
                    }
                    v => done(self, st, v),
                }
            }
            ("next_if" | "next_if_eq", _) => {
                let c = st.frames[fi as usize].locals[0].clone();
                match self.boolish(&pre0, &c)? {
                    Ok(0) => { let v = self.none(); done(self, st, v) }
                    Ok(_) => {
                        let Some(pl) = self.stream_pl(st, &st.frames[fi as usize].locals[1].clone()) else { return Err(Stop::Fail(op.into())) };
                        let mut out = vec![];
                        for (l, mut s2, v) in self.consume(st, &pl) { done(self, &mut s2, v)?; out.push((l, s2)); }
                        Ok(Out::Split(out))
                    }
                    Err(Some(a)) => Ok(self.retry(a, st)),
                    Err(None) => Err(Stop::Fail(op.into())),
                }
            }
            ("flatnext", _) => {
                let V::Ref(fp) = st.frames[fi as usize].locals[1].clone() else { return Err(Stop::Fail("flatnext".into())) };
                let V::Ext(_, f) = self.read(st, &fp) else { return Err(Stop::Fail("flatnext".into())) };
                let sub = |i: u16| { let mut p = fp.clone(); p.proj.push(P::F(i)); p };
                match stage {
                    0 => {
                        let (p, t) = if f[2] == V::Undef { (sub(0), 2) } else { (sub(2), 1) };
                        let cx = Ctx { dest: Some(loc(0)), target: Some(t), span: self.cur_span };
                        self.invoke(st, &pre0, f[3].clone(), vec![V::Ref(p)], cx)
                    }
                    1 => {
                        let r = std::mem::replace(&mut st.frames[fi as usize].locals[0], V::Undef);
                        match r {
                            V::Adt(_, 0, _) => { self.set(st, &sub(2), V::Undef); st.frames[fi as usize].bb = 0; Ok(Out::Cont) }
                            v @ V::Adt(_, 1, _) => done(self, st, v),
                            _ => Err(Stop::Fail("iterator of unknown shape in flat_map".into())),
                        }
                    }
                    2 => {
                        let r = std::mem::replace(&mut st.frames[fi as usize].locals[0], V::Undef);
                        match r {
                            v @ V::Adt(_, 0, _) => done(self, st, v),
                            V::Adt(_, 1, mut x) => {
                                let x = x.pop().unwrap();
                                if f[1] == V::Undef { st.frames[fi as usize].locals[0] = x; st.frames[fi as usize].bb = 3; return Ok(Out::Cont) }
                                let cx = Ctx { dest: Some(loc(0)), target: Some(3), span: self.cur_span };
                                self.invoke(st, &pre0, V::Ref(sub(1)), vec![x], cx)
                            }
                            _ => Err(Stop::Fail("iterator of unknown shape in flat_map".into())),
                        }
                    }
                    _ => {
                        let r = std::mem::replace(&mut st.frames[fi as usize].locals[0], V::Undef);
                        let it = self.iter_arg(st, &r);
                        self.set(st, &sub(2), it);
                        st.frames[fi as usize].bb = 0;
                        Ok(Out::Cont)
                    }
                }
            }
            ("collect" | "extend" | "fold", 0) => {
                let f = st.frames[fi as usize].locals[3].clone();
                let pre = pre0.clone();
                let cx = Ctx { dest: Some(loc(0)), target: Some(1), span: self.cur_span };
                self.invoke(st, &pre, f, vec![V::Ref(loc(1))], cx)
            }
            (_, 1) => {
                let r = std::mem::replace(&mut st.frames[fi as usize].locals[0], V::Undef);
                let item = match r {
                    V::Adt(_, 0, _) => None,
                    V::Adt(_, 1, mut f) => f.pop(),
                    _ => { return Err(Stop::Fail(format!("iterator of unknown shape in {op}"))) }
                };
                st.frames[fi as usize].bb = 0;
                match (op, item) {
                    ("collect" | "fold", None) => { let v = st.frames[fi as usize].locals[2].clone(); done(self, st, v) }
                    ("extend", None) => done(self, st, V::unit()),
                    ("collect", Some(x)) => {
                        if let V::Vec(mut v) = st.frames[fi as usize].locals[2].clone() {
                            let text = v.flags.starts_with('s');
                            let x = if text { self.deref(st, &x) } else { x };
                            let old = (*v).clone();
                            vpush(&mut v, x.clone());
                            if text && self.cfg.raw_stream_ch {
                                let labs = self.text_event(st, &old, &mut v, &x);
                                st.frames[fi as usize].locals[2] = V::Vec(v);
                                return Ok(Out::Split(vec![(labs, st.clone())]))
                            }
                            st.frames[fi as usize].locals[2] = V::Vec(v);
                        }
                        Ok(Out::Cont)
                    }
                    ("extend", Some(x)) => {
                        let t = st.frames[fi as usize].locals[2].clone();
                        if let Some(pl) = self.deref_place(st, &t) {
                            let cur = self.read(st, &pl);
                            let mut c = as_str_vec(&cur);
                            let text = c.flags.starts_with('s');
                            let x = if text { self.deref(st, &x) } else { x };
                            let old = c.clone();
                            vpush(&mut c, x.clone());
                            if text && self.cfg.raw_stream_ch {
                                let labs = self.text_event(st, &old, &mut c, &x);
                                self.set(st, &pl, V::Vec(Box::new(c)));
                                return Ok(Out::Split(vec![(labs, st.clone())]))
                            }
                            self.set(st, &pl, V::Vec(Box::new(c)));
                        }
                        Ok(Out::Cont)
                    }
                    ("fold", Some(x)) => {
                        let acc = st.frames[fi as usize].locals[2].clone();
                        let pre = pre0.clone();
                        let cx = Ctx { dest: Some(loc(2)), target: Some(0), span: self.cur_span };
                        self.invoke(st, &pre, V::Ref(loc(4)), vec![acc, x], cx)
                    }
                    _ => Err(Stop::Fail("native".into())),
                }
            }
            _ => Err(Stop::Fail(format!("native frame {op}"))),
        }
    }
}

pub fn show_chars(m: &Mask) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < 128 {
        if m.has(i) {
            let mut j = i;
            while j + 1 < 128 && m.has(j + 1) { j += 1 }
            let c = |x: usize| { let c = x as u8 as char; if c.is_ascii_graphic() { c.to_string() } else { format!("\\x{x:02x}") } };
            if j > i + 1 { o += &format!("{}-{}", c(i), c(j)); } else { for k in i..=j { o += &c(k) } }
            i = j + 1;
        } else { i += 1 }
    }
    for (k, n) in [(CH_WS, "<ws>"), (CH_ALPHA, "<alpha>"), (CH_NUM, "<num>"), (CH_OTHER, "<other>"), (EOF_CH, "<eof>")] { if m.has(k) { o += n } }
    o
}
