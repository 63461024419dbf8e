//! Transition function: terminators, calls, events, native frames, exploration.
use crate::interp::*;
use crate::val::*;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty};
use rustc_span::def_id::DefId;
use std::collections::HashSet;
use std::rc::Rc;

pub fn fshort(st: &St) -> usize { st.frames.len() }

impl<'tcx> An<'tcx> {
    // ------------------------------------------------------------ helpers
    pub fn goto(&self, st: &mut St, bb: u32) { let f = st.frames.last_mut().unwrap(); f.bb = bb; f.t = false; }
    pub fn finish(&self, st: &mut St, cx: &Ctx, v: V) -> bool {
        if let Some(d) = &cx.dest { self.set(st, d, v); }
        match cx.target { Some(t) => { self.goto(st, t); true } None => false }
    }
    /// `Type::method`, `Trait::method` or `module::function`
    pub fn short(&mut self, d: DefId) -> Rc<str> {
        if let Some(p) = self.short_cache.get(&d) { return p.clone(); }
        let tcx = self.tcx;
        let name = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_else(|| "{closure}".into());
        let owner = match tcx.opt_parent(d) {
            Some(p) => match tcx.def_kind(p) {
                rustc_hir::def::DefKind::Trait => tcx.item_name(p).to_string(),
                rustc_hir::def::DefKind::Impl { .. } => {
                    let t = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let mut t = t;
                    while let ty::Ref(_, x, _) = t.kind() { t = *x; }
                    match t.kind() {
                        ty::Adt(ad, _) => tcx.item_name(ad.did()).to_string(),
                        ty::Slice(_) => "slice".into(),
                        ty::Str => "str".into(),
                        ty::Array(..) => "array".into(),
                        ty::Param(p) => p.name.to_string(),
                        _ => format!("{t}"),
                    }
                }
                rustc_hir::def::DefKind::Mod => tcx.opt_item_name(p).map(|n| n.to_string()).unwrap_or_else(|| "crate".into()),
                _ => tcx.opt_item_name(p).map(|n| n.to_string()).unwrap_or_default(),
            },
            None => String::new(),
        };
        let r: Rc<str> = Rc::from(format!("{owner}::{name}"));
        self.short_cache.insert(d, r.clone());
        r
    }
    pub fn site(&mut self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        let f = match f.find("src/") { Some(i) if f.contains("/repo/") || !f.starts_with('/') => f[i..].to_string(), _ => f };
        format!("{}:{}", f, loc.line)
    }

    // ------------------------------------------------------------ substitution and ageing
    pub fn subst_v(&self, st: &mut St, from: &Sym, to: &V) {
        for f in st.frames.iter_mut() {
            for l in f.locals.iter_mut() {
                l.visit_mut(&mut |v| { if let V::Sym(y) = v { if y == from { *v = to.clone(); } } });
            }
        }
    }
    /// a symbolic value restricted by the variant of its enum
    pub fn variant_value(&mut self, sym: &Sym, adt: u32, vi: u32) -> V {
        let ad = self.tcx.adt_def(self.adts[adt as usize]);
        let v = &ad.variants()[rustc_abi::VariantIdx::from_u32(vi)];
        let fs = v.fields.iter().map(|f| V::Sym(sym.child(&format!("{}.{}", v.name, f.name)))).collect();
        V::Adt(adt, vi, fs)
    }
    pub fn split_sym(&mut self, pre: &St, sym: &Sym, adt: u32) -> Vec<(Vec<Lab>, St)> {
        let n = self.tcx.adt_def(self.adts[adt as usize]).variants().len();
        let mut out = vec![];
        for i in 0..n as u32 {
            let val = self.variant_value(sym, adt, i);
            let mut s2 = pre.clone();
            self.subst_v(&mut s2, sym, &val);
            for f in s2.frames.iter_mut() {
                for l in f.locals.iter_mut() {
                    let mut k = None;
                    l.visit(&mut |v| if let V::SymDisc(y, a) = v { if y == sym { k = Some(*a) } });
                    if k.is_some() {
                        let ad = self.tcx.adt_def(self.adts[adt as usize]);
                        let d = ad.discriminant_for_variant(self.tcx, rustc_abi::VariantIdx::from_u32(i)).val as i128;
                        l.visit_mut(&mut |v| if let V::SymDisc(y, _) = v { if y == sym { *v = V::Int(d) } });
                    }
                }
            }
            let lab = format!("?{}={}", sym.show(), self.variant_name(adt, i));
            out.push((vec![Lab::t(&lab)], s2));
        }
        out
    }
    pub fn split_int(&mut self, pre: &St, sym: &Sym, vals: &[i128], other: bool) -> Vec<(Vec<Lab>, St)> {
        let mut out = vec![];
        for v in vals {
            let mut s2 = pre.clone();
            self.subst_v(&mut s2, sym, &V::Int(*v));
            out.push((vec![Lab::t(&format!("?{}={}", sym.show(), v))], s2));
        }
        if other {
            let mut s2 = pre.clone();
            let mut o = vec![V::Str(s(&sym.show()))];
            o.extend(vals.iter().map(|v| V::Int(*v)));
            self.subst_v(&mut s2, sym, &V::Ext("other", o));
            out.push((vec![Lab::t(&format!("?{}=other", sym.show()))], s2));
        }
        out
    }
    /// a number that is none of some values is compared with further ones
    pub fn split_other(&mut self, pre: &St, l: &[V], vals: &[i128]) -> Option<Vec<(Vec<Lab>, St)>> {
        let V::Str(name) = &l[0] else { return None };
        let new: Vec<i128> = vals.iter().copied().filter(|v| !l[1..].contains(&V::Int(*v))).collect();
        if new.is_empty() { return None }
        let old = V::Ext("other", l.to_vec());
        let mut out = vec![];
        let mut one = |an: &Self, to: V, lab: String| {
            let mut s2 = pre.clone();
            an.each(&mut s2, &mut |v| if *v == old { *v = to.clone() });
            out.push((vec![Lab::t(&lab)], s2));
        };
        for v in &new { one(self, V::Int(*v), format!("?{name}={v}")) }
        let mut o = l.to_vec();
        o.extend(new.iter().map(|v| V::Int(*v)));
        one(self, V::Ext("other", o), format!("?{name}=other"));
        Some(out)
    }
    /// one alternative per variant of the value whose discriminant is `v`
    pub fn split_disc(&mut self, pre: &St, v: &V) -> Vec<(Vec<Lab>, St)> {
        match v {
            V::SymDisc(y, adt) => self.split_sym(pre, y, *adt),
            V::Ext("textdisc", x) => {
                let V::Int(adt) = x[1] else { return vec![] };
                let adt = adt as u32;
                let name = self.show(pre, &x[0]);
                let n = self.tcx.adt_def(self.adts[adt as usize]).variants().len();
                let mut out = vec![];
                for i in 0..n as u32 {
                    let ad = self.tcx.adt_def(self.adts[adt as usize]);
                    let d = ad.discriminant_for_variant(self.tcx, rustc_abi::VariantIdx::from_u32(i)).val as i128;
                    let mut s2 = pre.clone();
                    self.each(&mut s2, &mut |w| if w == v { *w = V::Int(d) });
                    out.push((vec![Lab::t(&format!("?{name}={}", self.variant_name(adt, i)))], s2));
                }
                out
            }
            _ => vec![],
        }
    }
    /// split a peeked, not yet consumed element along `by`
    pub fn split_peek(&self, pre: &St, e: &El, by: &[Mask]) -> Option<Vec<(Vec<Lab>, St)>> {
        let Src::Peek(k) = e.src else { return None };
        let mut out = vec![];
        for m in by {
            let m = m.and(&e.mask);
            if m.is_empty() { continue }
            let mut s2 = pre.clone();
            let mut found = false;
            self.each(&mut s2, &mut |v| match v {
                V::Stream(x) if x.id == e.st && x.ch == e.ch => {
                    if let Some(sl) = x.la.get_mut(k as usize) { if sl.mask == e.mask { sl.mask = m; found = true; } }
                }
                V::El(f) | V::ElDisc(f) if f.st == e.st && f.ch == e.ch && f.src == e.src => f.mask = m,
                _ => {}
            });
            if !found { return None }
            out.push((vec![], s2));
        }
        Some(out)
    }
    pub fn each(&self, st: &mut St, f: &mut dyn FnMut(&mut V)) {
        for fr in st.frames.iter_mut() { for l in fr.locals.iter_mut() { l.visit_mut(f) } }
    }
    fn age_el(e: &mut El, id: &str, all: bool, cap: u8) {
        if e.st.as_ref() != id { return }
        e.src = match e.src {
            Src::Peek(k) if all => { let _ = k; Src::Age(3) }
            Src::Peek(0) => Src::Age(0),
            Src::Peek(k) => Src::Peek(k - 1),
            Src::Age(n) if !all && n < 10 => Src::Age((n + 1).min(cap)),
            x => x,
        };
    }
    /// old places of a stream keep their order, the distances between them are forgotten
    fn compress(&self, st: &mut St, id: &str) {
        let lim = -self.cfg.at_old;
        let old = |f: &Vec<V>| match (&f[0], &f[1]) { (V::Str(x), V::Int(k)) if x.as_ref() == id && *k < lim => Some(*k), _ => None };
        let mut ks = std::collections::BTreeSet::new();
        for f in &st.frames { for v in &f.locals { v.visit(&mut |v| if let V::Ext("at", f) = v { ks.extend(old(f)) }) } }
        if ks.is_empty() { return }
        let map: std::collections::HashMap<i128, i128> = ks.iter().rev().enumerate().map(|(i, k)| (*k, lim - 1 - i as i128)).collect();
        self.each(st, &mut |v| if let V::Ext("at", f) = v { if let Some(k) = old(f) { f[1] = V::Int(map[&k]) } });
    }
    /// an event took something from the stream `id`
    pub fn advance(&self, st: &mut St, id: &str, ev: &str, tok: bool) {
        let cap = if self.cfg.raw_iter { crate::iters::OLD } else { 3 };
        self.each(st, &mut |v| match v {
            V::Ext("at", f) if tok && matches!(&f[0], V::Str(x) if x.as_ref() == id) => if let V::Int(k) = &mut f[1] { *k -= 1 },
            V::Stream(x) if x.id.as_ref() == id => x.start = if ev == "ws" && x.start < 2 { 1 } else { 2 },
            V::El(e) | V::ElDisc(e) => Self::age_el(e, id, !tok, cap),
            V::Pos(i, p) if i.as_ref() == id => {
                match p {
                    PosV::Cur => *p = PosV::Before { ev: s(ev), age: 0 },
                    PosV::Before { ev: e2, .. } if e2.as_ref() == "earlier" => {}
                    p @ PosV::Before { .. } if crate::hooks::COARSE.with(|c| c.get()) => *p = PosV::Before { ev: s("earlier"), age: 0 },
                    PosV::Before { ev: e2, age } if e2.as_ref() == ev => *age = (*age + 1).min(3),
                    _ => {}
                }
            }
            _ => {}
        });
        if tok && self.cfg.raw_iter { self.compress(st, id) }
    }
    pub fn age_base(&self, st: &mut St, base: &str) {
        self.each(st, &mut |v| match v {
            V::Sym(y) | V::SymDisc(y, _) if y.base.as_ref() == base && y.age < 10 => y.age = (y.age + 1).min(3),
            _ => {}
        });
    }

    // ------------------------------------------------------------ streams
    pub fn stream_at<'a>(&self, st: &'a St, pl: &'a Pl) -> Option<&'a Stream> {
        match self.get(st, pl) { Some(V::Stream(x)) => Some(x), _ => None }
    }
    pub fn with_stream(&self, st: &mut St, pl: &Pl, f: &mut dyn FnMut(&mut Stream)) {
        if let Some(V::Stream(x)) = self.get(st, pl) { let mut x = x.clone(); f(&mut x); self.set(st, pl, V::Stream(x)); }
    }
    fn is_eof(&self, ch: bool, m: &Mask) -> bool { *m == Mask::one(if ch { EOF_CH } else { EOF_TOK }) }
    /// make slot `k` of the look-ahead known up to the partition; None: it is
    pub fn split_slot(&mut self, pre: &St, pl: &Pl, k: usize) -> Option<Vec<(Vec<Lab>, St)>> {
        let stv = self.stream_at(pre, pl)?.clone();
        let part = if stv.ch { self.cpart.clone() } else { self.tpart.clone() };
        let all = self.all_mask(stv.ch);
        let cur = match stv.la.get(k) {
            Some(sl) => sl.mask,
            None => if k > 0 && self.is_eof(stv.ch, &stv.la[k - 1].mask) { stv.la[k - 1].mask } else { all },
        };
        let hits: Vec<Mask> = part.iter().map(|p| p.and(&cur)).filter(|m| !m.is_empty()).collect();
        if hits.len() <= 1 && k < stv.la.len() { return None }
        let mut out = vec![];
        for h in hits {
            let mut s2 = pre.clone();
            self.with_stream(&mut s2, pl, &mut |x| {
                if k < x.la.len() { x.la[k].mask = h } else { x.la.push(Slot { mask: h, rep: false }) }
            });
            out.push((vec![], s2));
        }
        Some(out)
    }
    fn el_at(&self, x: &Stream, k: usize) -> V {
        V::El(El { st: x.id.clone(), ch: x.ch, mask: x.la[k].mask, src: Src::Peek(k as u8) })
    }
    fn peek_val(&mut self, st: &St, pl: &Pl, k: usize) -> V {
        let x = self.stream_at(st, pl).unwrap().clone();
        if self.is_eof(x.ch, &x.la[k].mask) { self.none() } else { let e = self.el_at(&x, k); self.some(e) }
    }
    fn ev_name(&self, x: &Stream) -> String {
        let n = if x.ch { "chr" } else { "tok" };
        if x.id.as_ref() == "in" { n.to_string() } else { format!("{n}:{}", x.id) }
    }
    /// take slot 0, which is known
    pub fn consume(&mut self, st: &mut St, pl: &Pl) -> Vec<(Vec<Lab>, St, V)> {
        let x = self.stream_at(st, pl).unwrap().clone();
        let sl = x.la[0].clone();
        if self.is_eof(x.ch, &sl.mask) { let v = self.none(); return vec![(vec![], st.clone(), v)]; }
        let name = self.ev_name(&x);
        let lab = Lab { txt: s(&name), la: vec![sl.mask] };
        let mut out = vec![];
        let mut one = |an: &mut Self, drop: bool, unrep: bool| {
            let mut s2 = st.clone();
            an.with_stream(&mut s2, pl, &mut |x| { if drop { x.la.remove(0); } else if unrep { x.la[0].rep = false } });
            if drop || !unrep { an.advance(&mut s2, &x.id, if x.ch { "chr" } else { "tok" }, true); }
            let e = El { st: x.id.clone(), ch: x.ch, mask: sl.mask, src: Src::Age(0) };
            let v = an.some(V::El(e));
            out.push((vec![lab.clone()], s2, v));
        };
        if sl.rep { one(self, true, false); one(self, false, false); } else { one(self, true, false); }
        out
    }
    pub fn masks(&self, st: &St, pl: &Pl) -> Vec<Mask> {
        match self.stream_at(st, pl) { Some(x) => x.la.iter().map(|s| s.mask).collect(), None => vec![] }
    }
    /// specification of `skip_whitespace`; Some = alternatives
    pub fn skip_ws(&mut self, st: &St, pl: &Pl) -> Option<Vec<(Vec<Lab>, St)>> {
        let (wsk, bs, nl) = self.ws_kinds;
        let wsm = self.kind_mask(wsk);
        let bsm = Mask::one(bs);
        let nlm = Mask::one(nl);
        if let Some(alts) = self.split_slot_by(st, pl, 0, &[wsm, bsm]) { return Some(alts) }
        let x = self.stream_at(st, pl).unwrap().clone();
        let m0 = x.la[0].mask;
        let mut fire = m0.subset(&wsm);
        if m0.subset(&bsm) {
            if let Some(alts) = self.split_slot_by(st, pl, 1, &[nlm]) { return Some(alts) }
            let x = self.stream_at(st, pl).unwrap();
            fire = x.la[1].mask.subset(&nlm);
        }
        if !fire { return None }
        let here: Vec<Mask> = if m0.subset(&wsm) { vec![m0] } else { vec![m0, nlm] };
        let lab = Lab { txt: s(&self.ev_name(&x).replace("tok", "ws")), la: here };
        let mut out = vec![];
        let all = self.all_mask(false);
        // the part of the look-ahead that is known to follow the blanks stays known
        {
            let la: Vec<Slot> = self.stream_at(st, pl).unwrap().la.clone();
            let mut i = 0;
            loop {
                if i < la.len() && la[i].mask.subset(&wsm) { i += 1 }
                else if i + 1 < la.len() && la[i].mask.subset(&bsm) && la[i + 1].mask.subset(&nlm) && !la[i].rep && !la[i + 1].rep { i += 2 }
                else { break }
            }
            let stop = i < la.len() && la[i].mask.disjoint(&wsm) && (la[i].mask.disjoint(&bsm) || (i + 1 < la.len() && la[i].mask.subset(&bsm) && (la[i].rep || la[i + 1].mask.disjoint(&nlm))));
            if stop {
                let mut s2 = st.clone();
                self.advance(&mut s2, &x.id, "ws", false);
                self.with_stream(&mut s2, pl, &mut |x| { x.la = la[i..].to_vec() });
                return Some(vec![(vec![lab], s2)]);
            }
        }
        for la in [vec![all.sub(&wsm).sub(&bsm)], vec![bsm, all.sub(&nlm)]] {
            let mut s2 = st.clone();
            self.advance(&mut s2, &x.id, "ws", false);
            self.with_stream(&mut s2, pl, &mut |x| x.la = la.iter().map(|m| Slot { mask: *m, rep: false }).collect());
            out.push((vec![lab.clone()], s2));
        }
        Some(out)
    }
    /// split slot k so that it is inside or outside each of the masks
    pub fn split_slot_by(&mut self, pre: &St, pl: &Pl, k: usize, by: &[Mask]) -> Option<Vec<(Vec<Lab>, St)>> {
        let x = self.stream_at(pre, pl)?.clone();
        let all = self.all_mask(x.ch);
        let cur = match x.la.get(k) {
            Some(sl) => sl.mask,
            None => if k > 0 && self.is_eof(x.ch, &x.la[k - 1].mask) { x.la[k - 1].mask } else { all },
        };
        let mut hits = vec![cur];
        for b in by {
            hits = hits.iter().flat_map(|h| [h.and(b), h.sub(b)]).filter(|m| !m.is_empty()).collect();
        }
        if hits.len() <= 1 && k < x.la.len() { return None }
        let mut out = vec![];
        for h in hits {
            let mut s2 = pre.clone();
            self.with_stream(&mut s2, pl, &mut |x| { if k < x.la.len() { x.la[k].mask = h } else { x.la.push(Slot { mask: h, rep: false }) } });
            out.push((vec![], s2));
        }
        Some(out)
    }

    // ------------------------------------------------------------ stepping
    pub fn step(&mut self, st: &mut St) -> R<Out> {
        self.steps += 1;
        match st.frames.last().unwrap().k {
            FK::Native(op) => self.native(st, op),
            FK::Body(b) => {
                let bi = self.bodies[b as usize].clone();
                let at = st.frames.last().unwrap().bb;
                let bb = BasicBlock::from_u32(block(at));
                let data = &bi.body.basic_blocks[bb];
                if !st.frames.last().unwrap().t {
                    for (i, sm) in data.statements.iter().enumerate().skip((at >> MID) as usize) {
                        if bi.local { self.cur_span = sm.source_info.span; }
                        match self.stmt(st, sm) {
                            Ok(()) => {}
                            // the statement is executed again for each of the variants
                            Err(Stop::Disc(v)) => {
                                st.frames.last_mut().unwrap().bb = block(at) | (i as u32) << MID;
                                let a = self.split_disc(st, &v);
                                return Ok(self.retry(a, st));
                            }
                            Err(e) => return Err(e),
                        }
                    }
                    let f = st.frames.last_mut().unwrap();
                    f.bb = block(at);
                    f.t = true;
                }
                if bi.local { self.cur_span = data.terminator().source_info.span; }
                self.terminator(st, &bi, data.terminator())
            }
        }
    }
    pub fn retry(&self, mut alts: Vec<(Vec<Lab>, St)>, st: &mut St) -> Out {
        if alts.len() == 1 && alts[0].0.is_empty() { *st = alts.pop().unwrap().1; return Out::Cont }
        if alts.is_empty() { return Out::Dead }
        Out::Split(alts)
    }
    /// decide a length comparison for one length class (0, 1, 2 stands for "2 or more")
    fn len_cmp(op: &str, l: i128, k: i128, more: bool) -> Option<bool> {
        let f = |l: i128| match op { "Eq" => l == k, "Ne" => l != k, "Lt" => l < k, "Le" => l <= k, "Gt" => l > k, _ => l >= k };
        if !more { return Some(f(l)) }
        let a = f(l);
        for x in l..l.max(k) + 3 { if f(x) != a { return None } }
        Some(a)
    }
    /// resolve a boolean-like value to alternatives; Ok(Some(b)): known; Ok(None): unknown
    pub fn boolish(&mut self, pre: &St, v: &V) -> R<Result<i128, Option<Vec<(Vec<Lab>, St)>>>> {
        match v {
            V::Int(i) => Ok(Ok(*i)),
            V::Ext("not", x) => {
                match self.boolish(pre, &x[0])? { Ok(i) => Ok(Ok(1 - i)), e => Ok(e) }
            }
            V::Ext("cmp", x) => {
                let V::Str(op) = &x[0] else { return Ok(Err(None)) };
                let (l, k, flip) = match (&x[1], &x[2]) {
                    (V::Int(a), V::Int(k)) => return Ok(Ok(Self::len_cmp(op, *a, *k, false).unwrap_or(false) as i128)),
                    (V::Ext("len", l), V::Int(k)) => (l, *k, false),
                    (V::Int(k), V::Ext("len", l)) => (l, *k, true),
                    _ => return Ok(Err(None)),
                };
                let op: &str = if flip { match op.as_ref() { "Lt" => "Gt", "Le" => "Ge", "Gt" => "Lt", "Ge" => "Le", o => o } } else { op };
                let V::Vec(vv) = &l[0] else { return Ok(Err(None)) };
                let mut res = HashSet::new();
                for b in 0..3 {
                    if vv.len >> b & 1 == 1 { res.insert(Self::len_cmp(op, b as i128, k, b == 2)); }
                }
                if res.len() == 1 {
                    if let Some(Some(b)) = res.iter().next() { return Ok(Ok(*b as i128)) }
                }
                Ok(Err(self.len_alts(pre, l)))
            }
            V::Sym(y) => { let a = self.split_int(pre, y, &[0, 1], false); Ok(Err(Some(a))) }
            _ => Ok(Err(None)),
        }
    }
    /// how many elements there are is known up to two: a comparison with a larger number is a decision of its own
    fn size_alts(&self, pre: &St, v: &V) -> Option<Vec<(Vec<Lab>, St)>> {
        let c = match v { V::Ext("not", x) => &x[0], c => c };
        let V::Ext("cmp", x) = c else { return None };
        let V::Str(op) = &x[0] else { return None };
        let (l, k, flip) = match (&x[1], &x[2]) {
            (V::Ext("len" | "count" | "left", _), V::Int(k)) => (&x[1], *k, false),
            (V::Int(k), V::Ext("len" | "count" | "left", _)) => (&x[2], *k, true),
            _ => return None,
        };
        let what = match l {
            V::Ext("len", l) => {
                let V::Vec(vv) = &l[0] else { return None };
                if vv.len & 4 == 0 { return None }
                "len([many])"
            }
            V::Ext(n, _) => n,
            _ => return None,
        };
        let op: &str = if flip { match op.as_ref() { "Lt" => "Gt", "Le" => "Ge", "Gt" => "Lt", "Ge" => "Le", o => o } } else { op };
        let old = c.clone();
        let mut out = vec![];
        for b in 0..2 {
            let mut s2 = pre.clone();
            self.each(&mut s2, &mut |v| if *v == old { *v = V::Int(b) } else if matches!(v, V::Ext("not", x) if x[0] == old) { *v = V::Int(1 - b) });
            out.push((vec![Lab::t(&format!("?{op}({what},{k})={b}"))], s2));
        }
        Some(out)
    }
    /// split the vector whose length is asked for
    fn len_alts(&self, pre: &St, l: &[V]) -> Option<Vec<(Vec<Lab>, St)>> {
        let V::Vec(vv) = &l[0] else { return None };
        if vv.len.count_ones() <= 1 { return None }
        let V::Ref(pl) = &l[1] else { return None };
        if self.get(pre, pl) != Some(&l[0]) { return None }
        let mut out = vec![];
        for s2 in self.split_vec(pre, pl) { out.push((vec![], s2)); }
        // what is pending still mentions the old vector
        for (_, s2) in out.iter_mut() {
            let nv = self.read(s2, pl);
            let V::Vec(nb) = &nv else { continue };
            let old = l[0].clone();
            let n = match nb.len { 1 => Some(0), 2 => Some(1), _ => None };
            let me = V::Ref(pl.clone());
            self.each(s2, &mut |v| {
                let hit = matches!(v, V::Ext("len", y) if y[0] == old && y[1] == me);
                if hit { match n { Some(n) => *v = V::Int(n), None => if let V::Ext(_, y) = v { y[0] = nv.clone() } } }
            });
        }
        Some(out)
    }
    pub fn split_vec(&self, pre: &St, pl: &Pl) -> Vec<St> {
        let Some(V::Vec(vv)) = self.get(pre, pl) else { return vec![pre.clone()] };
        let mut out = vec![];
        for b in 0..3 {
            if vv.len >> b & 1 == 1 {
                let mut n = vv.clone();
                n.len = 1 << b;
                n.el = match b { 0 => vec![], 1 => vec![vv.el[0].clone()], _ => vec![vv.el[0].clone(), vv.el[vv.el.len() - 1].clone()] };
                let mut s2 = pre.clone();
                self.set(&mut s2, pl, V::Vec(n));
                out.push(s2);
            }
        }
        out
    }
    pub fn lose(&self, st: &mut St, v: &V) {
        let mut l = vec![];
        fn go(v: &V, l: &mut Vec<Rc<str>>) {
            match v {
                V::Sym(y) if y.tracked => l.push(s(&format!("{}{}", y.base, y.path))),
                V::Adt(_, _, f) | V::Tup(f) | V::Arr(f) | V::Clo(_, f) | V::Ext(_, f) => for x in f { go(x, l) },
                V::Bx(b) => go(b, l),
                V::Vec(b) => if b.len != 1 { for x in &b.el { go(x, l) } },
                _ => {}
            }
        }
        go(v, &mut l);
        for x in l { st.lost.insert(x); }
    }
    fn terminator(&mut self, st: &mut St, bi: &BodyInfo<'tcx>, t0: &'tcx Terminator<'tcx>) -> R<Out> {
        let t = t0;
        match &t.kind {
            TerminatorKind::Goto { target, .. } => { self.goto(st, target.as_u32()); Ok(Out::Cont) }
            TerminatorKind::FalseEdge { real_target: target, .. } | TerminatorKind::FalseUnwind { real_target: target, .. } => { self.goto(st, target.as_u32()); Ok(Out::Cont) }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = match discr { Operand::Copy(p) | Operand::Move(p) => { let rp = self.place(st, p); self.read_rp(st, &rp) } o => self.operand(st, o)? };
                let isbool = { let d = discr.ty(bi.body, self.tcx); d.is_bool() };
                let pick = |i: i128| -> u32 {
                    for (val, bb) in targets.iter() { if val as i128 == i || (i < 0 && val == i as u128) || (i < 0 && val as i64 as i128 == i) { return bb.as_u32() } }
                    targets.otherwise().as_u32()
                };
                match &v {
                    V::Int(i) => { self.goto(st, pick(*i)); Ok(Out::Cont) }
                    V::ElDisc(e) if !e.frozen() => {
                        let mut by: Vec<(u32, Mask)> = vec![];
                        let ad = self.tcx.adt_def(self.token_def);
                        for a in e.mask.iter() {
                            let k = self.atom_kind(a);
                            let d = ad.discriminant_for_variant(self.tcx, rustc_abi::VariantIdx::from_usize(k)).val as i128;
                            let t = pick(d);
                            match by.iter_mut().find(|x| x.0 == t) { Some(x) => x.1.set(a), None => by.push((t, Mask::one(a))) }
                        }
                        if by.len() == 1 { self.goto(st, by[0].0); return Ok(Out::Cont) }
                        if let Some(a) = self.split_peek(st, e, &by.iter().map(|x| x.1).collect::<Vec<_>>()) { return Ok(Out::Split(a)) }
                        Err(Stop::Refine(e.ch, by.into_iter().map(|x| x.1).collect()))
                    }
                    V::El(e) if e.ch => {
                        let mut by: Vec<(u32, Mask)> = vec![];
                        let big = targets.iter().any(|(v, _)| v >= 128);
                        for a in e.mask.iter() {
                            if a >= 128 && big { return Err(Stop::Fail("character outside ASCII is matched".into())) }
                            let t = if a < 128 { pick(a as i128) } else { targets.otherwise().as_u32() };
                            match by.iter_mut().find(|x| x.0 == t) { Some(x) => x.1.set(a), None => by.push((t, Mask::one(a))) }
                        }
                        if by.len() == 1 { self.goto(st, by[0].0); return Ok(Out::Cont) }
                        if let Some(a) = self.split_peek(st, e, &by.iter().map(|x| x.1).collect::<Vec<_>>()) { return Ok(Out::Split(a)) }
                        Err(Stop::Refine(true, by.into_iter().map(|x| x.1).collect()))
                    }
                    V::SymDisc(y, adt) => { let a = self.split_sym(st, y, *adt); Ok(self.retry(a, st)) }
                    V::Sym(y) if !isbool => {
                        let vals: Vec<i128> = targets.iter().map(|(v, _)| v as i128).collect();
                        let a = self.split_int(st, y, &vals, true);
                        Ok(self.retry(a, st))
                    }
                    V::Ext("textdisc", _) => { let a = self.split_disc(st, &v); Ok(self.retry(a, st)) }
                    V::Ext("other", l) => {
                        let vals: Vec<i128> = targets.iter().map(|(v, _)| v as i128).collect();
                        match self.split_other(st, l, &vals) {
                            Some(a) => Ok(self.retry(a, st)),
                            None => { self.goto(st, targets.otherwise().as_u32()); Ok(Out::Cont) }
                        }
                    }
                    V::Ext(n @ ("count" | "left"), _) => {
                        let mut out = vec![];
                        for (k, bb) in targets.iter() {
                            if *n == "count" && k <= 2 { continue }
                            let mut s2 = st.clone();
                            self.goto(&mut s2, bb.as_u32());
                            out.push((vec![Lab::t(&format!("?Eq({n},{k})=1"))], s2));
                        }
                        let k = targets.iter().map(|(k, _)| k).max().unwrap_or(0);
                        let mut s2 = st.clone();
                        self.goto(&mut s2, targets.otherwise().as_u32());
                        if out.is_empty() { *st = s2; return Ok(Out::Cont) }
                        out.push((vec![Lab::t(&format!("?Eq({n},{k})=0"))], s2));
                        Ok(Out::Split(out))
                    }
                    V::Ext("len", l) if matches!(&l[0], V::Vec(_)) && self.len_alts(st, l).is_some() => { let a = self.len_alts(st, l).unwrap(); Ok(self.retry(a, st)) }
                    V::Ext("len", l) if matches!(&l[0], V::Vec(b) if b.len == 4) && targets.iter().all(|(v, _)| v < 2) => { self.goto(st, targets.otherwise().as_u32()); Ok(Out::Cont) }
                    v => {
                        match self.boolish(st, v)? {
                            Ok(i) => { self.goto(st, pick(i)); Ok(Out::Cont) }
                            Err(Some(a)) => Ok(self.retry(a, st)),
                            Err(None) => {
                                if let Some(a) = self.size_alts(st, v) { return Ok(self.retry(a, st)) }
                                let mut seen = vec![];
                                for t in targets.all_targets() {
                                    if seen.contains(&t.as_u32()) { continue }
                                    if matches!(bi.body.basic_blocks[*t].terminator().kind, TerminatorKind::Unreachable) && bi.body.basic_blocks[*t].statements.is_empty() { continue }
                                    seen.push(t.as_u32());
                                }
                                let what = self.show(st, v);
                                let site = self.site(self.cur_span);
                                self.top_branches.insert((bi.name.clone(), site, what));
                                if seen.len() == 1 { self.goto(st, seen[0]); return Ok(Out::Cont) }
                                let mut out = vec![];
                                for t in seen { let mut s2 = st.clone(); self.goto(&mut s2, t); out.push((vec![], s2)); }
                                Ok(Out::Split(out))
                            }
                        }
                    }
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = match cond { Operand::Copy(p) | Operand::Move(p) => { let rp = self.place(st, p); self.read_rp(st, &rp) } o => self.operand(st, o)? };
                match self.boolish(st, &v)? {
                    Ok(i) => {
                        if (i != 0) == *expected { self.goto(st, target.as_u32()); return Ok(Out::Cont) }
                        let site = self.site(self.cur_span);
                        let what = format!("{}: {}", bi.name, assert_kind(msg));
                        self.panics.insert((what.clone(), site));
                        Ok(Out::Done(vec![Lab::t(&format!("PANIC {what}"))]))
                    }
                    Err(_) => {
                        let site = self.site(self.cur_span);
                        let mut kind = assert_kind(msg).to_string();
                        if let AssertKind::Overflow(_, a, _) = &**msg {
                            // counts are of type usize; anything else is named
                            let t = self.subst(bi.args, a.ty(bi.body, self.tcx));
                            if t != self.tcx.types.usize { kind += &format!(" of {t}"); }
                        }
                        self.unknown_asserts.insert((bi.name.clone(), kind, site));
                        self.goto(st, target.as_u32());
                        Ok(Out::Cont)
                    }
                }
            }
            TerminatorKind::Drop { place, target, .. } => {
                let rp = self.place(st, place);
                let v = self.read_rp(st, &rp);
                if self.cfg.exact && !matches!(v, V::Undef) {
                    let t = self.subst(bi.args, place.ty(bi.body, self.tcx).ty);
                    if let Some((d, ga)) = self.destructor(t) {
                        if let RP::Pl(p) = &rp {
                            let pre = st.clone();
                            self.goto(st, target.as_u32());
                            let cx = Ctx { dest: None, target: Some(target.as_u32()), span: t0.source_info.span };
                            return self.call_def(st, &pre, d, ga, vec![V::Ref(p.clone())], cx);
                        }
                    }
                    if self.has_destructor(t) {
                        let site = self.site(self.cur_span);
                        self.top_branches.insert((bi.name.clone(), site, "a destructor below is not followed".into()));
                    }
                }
                self.lose(st, &v);
                if let RP::Pl(p) = rp { self.set(st, &p, V::Undef); }
                self.goto(st, target.as_u32());
                Ok(Out::Cont)
            }
            TerminatorKind::Unreachable => {
                // the paths that end here are those the models of the library have wrong
                let site = self.site(t.source_info.span);
                self.top_branches.insert((bi.name.clone(), site, format!("unreachable code (bb{})", block(st.frames.last().unwrap().bb))));
                Ok(Out::Dead)
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => Ok(Out::Dead),
            TerminatorKind::Return => {
                let v = st.frames.last().unwrap().locals[0].clone();
                self.ret(st, v)
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let pre = st.clone();
                let f = self.operand(st, func)?;
                let mut av = vec![];
                for a in args.iter() { av.push(self.operand(st, &a.node)?); }
                let dest = match self.place(st, destination) { RP::Pl(p) => Some(p), RP::Val(_) => None };
                if bi.local { self.cur_span = *fn_span; }
                let cx = Ctx { dest, target: target.map(|t| t.as_u32()), span: *fn_span };
                self.invoke(st, &pre, f, av, cx)
            }
            k => Err(Stop::Fail(format!("unsupported terminator {k:?}"))),
        }
    }
    fn ret(&mut self, st: &mut St, v: V) -> R<Out> {
        // a returned reference into the finished frame would dangle
        let depth = st.frames.len() - 1;
        let mut v = v;
        v.visit_mut(&mut |x| if let V::Ref(p) = x { if let Base::Local(f, _) = p.base { if f as usize == depth {
            let val = self.read(st, p);
            *x = match val { V::Undef => V::Top, V::Str(_) | V::El(_) | V::Ref(_) | V::Sym(_) => val, val => V::Ref(Pl { base: Base::Const(Rc::new(val)), proj: vec![] }) };
        } } });
        let fr = st.frames.pop().unwrap();
        if st.frames.len() == 1 {
            let root = Pl { base: Base::Local(0, 0), proj: self.iter_proj.clone() };
            let mut txt = format!("ret {}", self.show(st, &v));
            if self.cfg.exact { for x in st.frames[0].locals.iter().skip(1) { txt += &format!(" | {}", self.show(st, x)) } }
            let is_err = matches!(&v, V::Adt(a, 1, _) if self.adt_name(*a) == "Result");
            if !st.lost.is_empty() && !is_err { txt += &format!(" lost{{{}}}", st.lost.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); }
            let mut la = vec![];
            match self.get(st, &root) {
                Some(V::Stream(x)) => { la = x.la.iter().map(|s| s.mask).collect(); if x.id.as_ref() != "in" { txt += &format!(" iter={}", x.id) } }
                None => {}
                Some(x) => { let x = self.show(st, x); txt += &format!(" iter={x}") }
            }
            return Ok(Out::Done(vec![Lab { txt: s(&txt), la }]));
        }
        if let Some(d) = &fr.dest { self.set(st, d, v); }
        let f = st.frames.last_mut().unwrap();
        f.bb = fr.target; f.t = false;
        Ok(Out::Cont)
    }
    pub fn on_stack(&self, st: &St, def: DefId) -> usize {
        st.frames.iter().filter(|f| match f.k { FK::Body(b) => self.bodies[b as usize].def == def, _ => false }).count()
    }
    pub fn on_stack_args(&self, st: &St, def: DefId, ga: GenericArgsRef<'tcx>) -> usize {
        st.frames.iter().filter(|f| match f.k { FK::Body(b) => self.bodies[b as usize].def == def && self.bodies[b as usize].args == ga, _ => false }).count()
    }
    /// call a function value
    pub fn invoke(&mut self, st: &mut St, pre: &St, f: V, args: Vec<V>, cx: Ctx) -> R<Out> {
        match self.deref(st, &f) {
            V::Fn(i) => {
                let (d, a) = self.fns[i as usize];
                self.call_def(st, pre, d, a, args, cx)
            }
            V::Clo(i, ups) => {
                let (d, ga) = self.clos[i as usize];
                let Some(b) = self.body_of(d, u32::MAX, ga) else { return Err(Stop::Fail("closure without body".into())) };
                let byref = self.bodies[b as usize].body.local_decls[Local::from_u32(1)].ty.is_ref();
                let mut fr = self.new_frame(b, vec![V::Undef], cx.dest.clone(), cx.target.unwrap_or(0));
                for (k, a) in args.into_iter().enumerate() { fr.locals[k + 2] = a; }
                let fi = st.frames.len() as u16;
                if byref {
                    fr.locals[1] = match self.deref_place(st, &f) {
                        Some(pl) => V::Ref(pl),
                        None => { let n = fr.locals.len() as u16; fr.locals.push(V::Clo(i, ups)); V::Ref(Pl { base: Base::Local(fi, n), proj: vec![] }) }
                    };
                } else { fr.locals[1] = V::Clo(i, ups); }
                if cx.target.is_none() { return Err(Stop::Fail("diverging closure".into())) }
                st.frames.push(fr);
                Ok(Out::Cont)
            }
            v => {
                let w = self.show(st, &v);
                self.opaque_calls.insert(format!("indirect call of {w}"));
                if self.finish(st, &cx, V::Top) { Ok(Out::Cont) } else { Ok(Out::Dead) }
            }
        }
    }
    pub fn call_def(&mut self, st: &mut St, pre: &St, def: DefId, ga: GenericArgsRef<'tcx>, args: Vec<V>, cx: Ctx) -> R<Out> {
        let tcx = self.tcx;
        let mut def = def;
        let mut ga = ga;
        for round in 0..2 {
            let h = self.hook(st, pre, def, ga, &args, &cx)?;
            match h {
                H::No => {}
                H::Val(v) => return Ok(if self.finish(st, &cx, v) { Out::Cont } else { Out::Dead }),
                H::Multi(alts) => {
                    let mut out = vec![];
                    for (l, mut s2, v) in alts { if self.finish(&mut s2, &cx, v) { out.push((l, s2)) } }
                    return Ok(self.retry(out, st));
                }
                H::Retry(alts) => return Ok(self.retry(alts, st)),
                H::Pushed => return Ok(Out::Cont),
                H::Done2(a) => return Ok(self.retry(a, st)),
                H::Dead => return Ok(Out::Dead),
            }
            if round == 1 { break }
            match Instance::try_resolve(tcx, self.env, def, ga) {
                Ok(Some(inst)) => {
                    match inst.def {
                        ty::InstanceKind::Item(d) => { if d == def { ga = inst.args; break } def = d; ga = inst.args; }
                        ty::InstanceKind::Intrinsic(_) => break,
                        ty::InstanceKind::Virtual(..) => match self.dyn_impl(st, def, args.first().unwrap_or(&V::Undef)) {
                            Some((d, a)) => { def = d; ga = a }
                            None => break,
                        },
                        _ => { break }
                    }
                }
                _ => break,
            }
        }
        if cx.target.is_none() {
            let p = self.path(def);
            let site = self.site(self.cur_span);
            let fnm = self.cur_fn(st);
            let what = format!("{fnm}: {p}");
            self.panics.insert((what.clone(), site));
            return Ok(Out::Done(vec![Lab::t(&format!("PANIC {what}"))]));
        }
        // inline
        let is_trait_decl = matches!(tcx.opt_parent(def).map(|p| tcx.def_kind(p)), Some(rustc_hir::def::DefKind::Trait))
            && !tcx.defaultness(def).has_value();
        let deep = if self.cfg.exact { self.on_stack_args(st, def, ga) } else { self.on_stack(st, def) };
        if !is_trait_decl && self.tcx.intrinsic(def).is_none() && deep <= self.cfg.recursion && st.frames.len() < 60 {
            if let Some(b) = self.body_of(def, u32::MAX, ga) {
                if def.is_local() { let p = self.path(def).to_string(); self.inlined.insert(p); }
                let body = self.bodies[b as usize].body;
                let mut args = args;
                if body.spread_arg.is_some() {
                    if let Some(V::Tup(x)) = args.pop() { args.push(V::Tup(x)) }
                }
                let fr = self.new_frame(b, args, cx.dest.clone(), cx.target.unwrap());
                st.frames.push(fr);
                return Ok(Out::Cont);
            }
        }
        if self.cfg.exact {
            match self.xfallback(st, def, ga, &args) {
                None => {}
                Some(H::Multi(alts)) => {
                    let mut out = vec![];
                    for (l, mut s2, v) in alts { if self.finish(&mut s2, &cx, v) { out.push((l, s2)) } }
                    return Ok(self.retry(out, st));
                }
                Some(H::Val(v)) => return Ok(if self.finish(st, &cx, v) { Out::Cont } else { Out::Dead }),
                Some(_) => return Ok(Out::Dead),
            }
        }
        // opaque
        self.opaque(st, def, ga, &args, &cx)
    }
    pub fn cur_fn(&self, st: &St) -> String {
        for f in st.frames.iter().rev() { if let FK::Body(b) = f.k { if self.bodies[b as usize].local { return self.bodies[b as usize].name.clone() } } }
        String::new()
    }
    /// uninterpreted function of its arguments
    fn opaque(&mut self, st: &mut St, def: DefId, ga: GenericArgsRef<'tcx>, args: &[V], cx: &Ctx) -> R<Out> {
        let p = self.path(def);
        let sig = self.subst(ga, self.tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder());
        for (i, t) in sig.inputs().iter().enumerate() {
            if let ty::Ref(_, _, m) = t.kind() {
                if m.is_mut() {
                    if let Some(V::Ref(pl)) = args.get(i) { let pl = pl.clone(); self.set(st, &pl, V::Top); }
                }
            }
        }
        let shown: Vec<String> = args.iter().map(|a| self.show(st, a)).collect();
        let txt = format!("{}({})", self.short(def), shown.join(","));
        let lc = self.cur_fn(st);
        self.opaque_calls.insert(format!("{lc}: {p}"));
        let v = if sig.output().is_unit() { V::unit() } else if txt.len() > 200 || shown.iter().any(|s| s.contains('?') && !s.starts_with('"')) { V::Top } else { V::sym(&txt) };
        Ok(if self.finish(st, cx, v) { Out::Cont } else { Out::Dead })
    }
    /// alternatives for a value of type `t` produced by an opaque operation
    pub fn shape(&mut self, t: Ty<'tcx>, sym: Sym, depth: usize) -> Vec<(String, V)> {
        match t.kind() {
            ty::Bool => vec![("false".into(), V::Int(0)), ("true".into(), V::Int(1))],
            ty::Tuple(l) => {
                let mut acc: Vec<(Vec<String>, Vec<V>)> = vec![(vec![], vec![])];
                for (i, x) in l.iter().enumerate() {
                    let alts = self.shape(x, sym.child(&i.to_string()), depth + 1);
                    acc = acc.into_iter().flat_map(|(n, v)| alts.iter().map(move |(m, w)| { let mut n = n.clone(); n.push(m.clone()); let mut v = v.clone(); v.push(w.clone()); (n, v) }).collect::<Vec<_>>()).collect();
                }
                acc.into_iter().map(|(n, v)| (if n.iter().all(|x| x.is_empty()) { String::new() } else { format!("({})", n.join(",")) }, V::Tup(v))).collect()
            }
            ty::Adt(ad, a) => {
                let name = self.tcx.item_name(ad.did()).to_string();
                match name.as_str() {
                    "Result" => {
                        let mut out = vec![];
                        let ok = self.shape(a.type_at(0), sym.child("Ok"), depth + 1);
                        for (n, v) in ok { let v = self.ok(v); out.push((format!("Ok {n}").trim().to_string(), v)); }
                        let mut e = sym.child("Err"); e.tracked = false;
                        if a.type_at(1).is_unit() { let v = self.err(V::unit()); out.push(("Err".into(), v)); }
                        else { let v = self.err(V::Sym(e)); out.push(("Err".into(), v)); }
                        out
                    }
                    "Option" => {
                        let mut out = vec![];
                        let v = self.none();
                        out.push(("None".to_string(), v));
                        for (n, v) in self.shape(a.type_at(0), sym.child("Some"), depth + 1) { let v = self.some(v); out.push((format!("Some {n}").trim().to_string(), v)); }
                        out
                    }
                    "Vec" => vec![("[]".into(), V::vec(1, vec![])), ("[+]".into(), V::vec(6, vec![V::Sym(sym.child("[]"))]))],
                    "Box" => vec![(String::new(), V::Bx(Box::new(V::Sym(sym))))],
                    _ => {
                        let n = ad.variants().len();
                        let plain = ad.is_enum() && ad.did().is_local() && (ad.variants().iter().all(|v| v.fields.is_empty()) || name == "Parameter") && n <= 12;
                        if plain {
                            let ix = self.adt(ad.did());
                            return (0..n as u32).map(|i| { let v = self.variant_value(&sym, ix, i); (self.variant_name(ix, i), v) }).collect();
                        }
                        let mut y = sym;
                        if ad.did() == self.token_def || name == "String" || !t.needs_drop(self.tcx, self.env) { y.tracked = false }
                        vec![(String::new(), V::Sym(y))]
                    }
                }
            }
            _ => {
                let mut y = sym;
                if !matches!(t.kind(), ty::Alias(..) | ty::Param(_)) { y.tracked = false }
                vec![(String::new(), V::Sym(y))]
            }
        }
    }
    /// event: a production of the parser is run on the stream at `pl`
    pub fn nt_call(&mut self, st: &St, def: DefId, ga: GenericArgsRef<'tcx>, pl: &Pl, args: &[V], name: &str) -> Vec<(Vec<Lab>, St, V)> {
        let x = self.stream_at(st, pl).cloned();
        let shown: Vec<String> = args.iter().map(|a| self.show(st, a)).collect();
        let la: Vec<Mask> = x.as_ref().map(|x| x.la.iter().map(|s| s.mask).collect()).unwrap_or_default();
        let mut name2 = name.to_string();
        if let Some(x) = &x { if x.id.as_ref() != "in" { name2 = format!("{name}@{}", x.id) } }
        let sig = self.subst(ga, self.tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder());
        let out = sig.output();
        self.nt_calls.insert(name.to_string());
        let mut base = st.clone();
        for a in args { if let V::Ref(_) = a {} }
        if let Some(x) = &x {
            self.advance(&mut base, &x.id, &name2, false);
            self.with_stream(&mut base, pl, &mut |x| x.la.clear());
        }
        self.age_base(&mut base, &name2);
        let mut res = vec![];
        let sym = Sym { base: s(&name2), age: 0, path: s(""), tracked: true };
        for (n, v) in self.shape(out, sym, 0) {
            let n = if n.is_empty() { String::new() } else { format!("→{n}") };
            res.push((vec![Lab { txt: s(&format!("{name2}({}){n}", shown.join(", "))), la: la.clone() }], base.clone(), v));
        }
        res
    }
    pub fn builder_call(&mut self, st: &St, def: DefId, ga: GenericArgsRef<'tcx>, args: &[V]) -> Vec<(Vec<Lab>, St, V)> {
        let name = format!("B.{}", self.tcx.item_name(def));
        let shown: Vec<String> = args[1..].iter().map(|a| self.show(st, a)).collect();
        let sig = self.subst(ga, self.tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder());
        let mut base = st.clone();
        self.age_base(&mut base, &name);
        let sym = Sym { base: s(&name), age: 0, path: s(""), tracked: true };
        let mut res = vec![];
        for (n, v) in self.shape(sig.output(), sym, 0) {
            let n = if n.is_empty() { String::new() } else { format!("→{n}") };
            res.push((vec![Lab { txt: s(&format!("{name}({}){n}", shown.join(", "))), la: vec![] }], base.clone(), v));
        }
        res
    }

    // ------------------------------------------------------------ exploration
    fn lab(&mut self, l: &Lab) -> u32 {
        if let Some(i) = self.lab_ix.get(l) { return *i }
        let i = self.labels.len() as u32;
        self.labels.push(l.clone());
        self.lab_ix.insert(l.clone(), i);
        i
    }
    fn node(&mut self, st: St) -> usize {
        let st = Rc::new(st);
        if let Some(i) = self.nodes.get(&st) { return *i }
        let i = self.edges.len();
        self.edges.push(vec![]);
        self.nodes.insert(st.clone(), i);
        self.work.push((i, st));
        i
    }
    /// forget dead locals
    fn clean(&self, st: &mut St) {
        let n = st.frames.len();
        for (i, f) in st.frames.iter_mut().enumerate() {
            let FK::Body(b) = f.k else { continue };
            let bi = &self.bodies[b as usize];
            if i + 1 == n {
                if f.t || f.bb >> MID != 0 { continue }
                let live = &bi.livein[f.bb as usize];
                for (k, l) in f.locals.iter_mut().enumerate() { if k < live.len() && !live[k] && !matches!(l, V::Undef) { *l = V::Undef } }
            }
        }
    }
    pub fn explore(&mut self, init: Vec<(Vec<Lab>, St)>) -> R<()> {
        self.nodes.clear(); self.work.clear(); self.edges.clear(); self.labels.clear(); self.lab_ix.clear(); self.sites.clear(); self.site_ix.clear();
        self.panics.clear(); self.unknown_asserts.clear(); self.opaque_calls.clear(); self.top_branches.clear(); self.nt_calls.clear();
        self.steps = 0;
        self.found_bad = false;
        let fin = self.node(St::default()); // final node
        self.work.clear();
        assert!(fin == 0);
        let mut dummy = St::default();
        dummy.lost.insert(s("root"));
        let root = self.node(dummy);
        self.work.clear();
        assert!(root == 1);
        for (l, st) in init {
            let to = self.node(st);
            let labs: Vec<u32> = l.iter().map(|x| self.lab(x)).collect();
            let si = self.site_id(rustc_span::DUMMY_SP);
            self.edges[root].push(Edge { labs, to, site: si });
        }
        // the client stops soon after the first answer that is wrong
        let (mut front, mut left) = (0, usize::MAX);
        loop {
            let (n, st) = if self.cfg.raw_iter {
                let Some(x) = self.work.get(front).cloned() else { break };
                front += 1;
                if left == usize::MAX && self.found_bad { left = 500 }
                if left == 0 { break }
                if left != usize::MAX { left -= 1 }
                x
            } else {
                let Some(x) = self.work.pop() else { break };
                x
            };
            if self.edges.len() > self.cfg.max_states { return Err(Stop::Fail("state limit exceeded".into())) }
            let mut cur = (*st).clone();
            let mut guard = 0;
            loop {
                guard += 1;
                if guard > 20000 { return Err(Stop::Fail("no progress inside one abstract step".into())) }
                let out = self.step(&mut cur)?;
                let site = self.cur_span;
                match out {
                    Out::Dead => break,
                    Out::Cont => {
                        let f = cur.frames.last().unwrap();
                        let merge = match f.k { FK::Body(b) => !f.t && f.bb >> MID == 0 && self.bodies[b as usize].preds[f.bb as usize] >= 2, _ => false };
                        if merge {
                            self.clean(&mut cur);
                            let to = self.node(cur);
                            let si = self.site_id(site);
                            self.edges[n].push(Edge { labs: vec![], to, site: si });
                            break;
                        }
                    }
                    Out::Split(alts) => {
                        let si = self.site_id(site);
                        // a decision is made under what is known of the input
                        let la: Vec<Mask> = if self.cfg.exact || self.cfg.raw_iter || self.cfg.raw_stream_ch { vec![] } else {
                            let root = Pl { base: Base::Local(0, 0), proj: self.iter_proj.clone() };
                            match self.get(&cur, &root) { Some(V::Stream(x)) => x.la.iter().map(|s| s.mask).collect(), _ => vec![] }
                        };
                        for (mut l, mut s2) in alts {
                            if !la.is_empty() { for x in l.iter_mut() { if (x.txt.starts_with('?') || x.txt.starts_with("B.")) && x.la.is_empty() { x.la = la.clone() } } }
                            self.clean(&mut s2);
                            let to = self.node(s2);
                            let labs: Vec<u32> = l.iter().map(|x| self.lab(x)).collect();
                            self.edges[n].push(Edge { labs, to, site: si });
                        }
                        break;
                    }
                    Out::Done(l) => {
                        let labs: Vec<u32> = l.iter().map(|x| self.lab(x)).collect();
                        let si = self.site_id(site);
                        self.edges[n].push(Edge { labs, to: 0, site: si });
                        break;
                    }
                }
            }
        }
        Ok(())
    }
    fn site_id(&mut self, sp: rustc_span::Span) -> u32 {
        let t = self.site(sp);
        if let Some(i) = self.site_ix.get(&t) { return *i }
        let i = self.sites.len() as u32;
        self.sites.push(t.clone());
        self.site_ix.insert(t, i);
        i
    }
    pub fn hot(&self) {
        let mut by: std::collections::HashMap<Vec<(FK, u32)>, Vec<Rc<St>>> = Default::default();
        for st in self.nodes.keys() { by.entry(st.frames.iter().map(|f| (f.k, f.bb)).collect()).or_default().push(st.clone()); }
        let mut l: Vec<_> = by.into_iter().collect();
        l.sort_by_key(|x| std::cmp::Reverse(x.1.len()));
        for (k, sts) in l.iter().take(3) {
            println!("   HOT {} {:?}", sts.len(), k.iter().map(|(f, b)| match f { FK::Body(i) => format!("{}:{}", self.bodies[*i as usize].name.rsplit("::").next().unwrap(), b), FK::Native(n) => n.to_string() }).collect::<Vec<_>>());
            for st in sts.iter().take(8) {
                for (i, f) in st.frames.iter().enumerate() {
                    let v: Vec<String> = f.locals.iter().enumerate().filter(|(_, v)| !matches!(v, V::Undef)).map(|(j, v)| format!("_{j}={}", match v { V::Ref(p) => format!("&{:?}", p), v => self.show(st, v) })).collect();
                    println!("      {i}: {}", v.join(" "));
                }
                let root = Pl { base: Base::Local(0, 0), proj: self.iter_proj.clone() };
                if let Some(V::Stream(x)) = self.get(st, &root) { println!("      la {:?}", x.la.iter().map(|s| (s.mask.count(), s.rep)).collect::<Vec<_>>()); }
                println!("      --");
            }
        }
    }
    /// explore, refining the partition of the input alphabet until it is stable
    pub fn run(&mut self, init: &dyn Fn(&mut Self) -> Vec<(Vec<Lab>, St)>) -> R<()> {
        for _ in 0..400 {
            self.const_cache.clear();
            let st = init(self);
            match self.explore(st) {
                Err(Stop::Refine(ch, m)) => {
                    if !self.refine(ch, &m) {
                        return Err(Stop::Fail(format!("partition of the alphabet cannot be refined at {}", self.site(self.cur_span))));
                    }
                }
                Err(Stop::AddText(t)) => { if !self.add_text(&t) { return Err(Stop::Fail("too many constant texts".into())) } }
                r => return r,
            }
        }
        Err(Stop::Fail("alphabet refinement does not converge".into()))
    }
    pub fn graph(&self) -> Graph {
        Graph {
            edges: self.edges.clone(), labels: self.labels.clone(), sites: self.sites.clone(), texts: self.texts.clone(),
            states: self.edges.len(), steps: self.steps, unknown_asserts: self.unknown_asserts.clone(), panics: self.panics.clone(),
            opaque_calls: self.opaque_calls.clone(), inlined: self.inlined.clone(), nt_calls: self.nt_calls.clone(), top_branches: self.top_branches.clone(),
        }
    }
    pub fn mirplace(&self, l: usize) -> mir::Place<'tcx> { mir::Place::from(Local::from_usize(l)) }
}

fn assert_kind<'tcx>(m: &AssertMessage<'tcx>) -> &'static str {
    match m {
        AssertKind::BoundsCheck { .. } => "bounds check",
        AssertKind::Overflow(BinOp::Add, ..) => "add overflow",
        AssertKind::Overflow(BinOp::Sub, ..) => "subtract overflow",
        AssertKind::Overflow(BinOp::Mul, ..) => "multiply overflow",
        AssertKind::Overflow(..) => "overflow",
        AssertKind::OverflowNeg(..) => "negate overflow",
        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "division by zero",
        _ => "other assertion",
    }
}
