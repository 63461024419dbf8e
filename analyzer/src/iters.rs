//! The token iterators: a most general client drives the real code and compares what it gives with a reference.
//!
//! Positions are symbolic: `at(s, k)` is the place of the k-th token after the next one that is still in the stream `s`.
use crate::drive::*;
use crate::exact::*;
use crate::interp::*;
use crate::parser::*;
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_middle::ty::{self, GenericArgsRef, TyCtxt};
use rustc_span::def_id::DefId;

pub const ITERS: &[&str] = &["TokenIter", "TokenIter.new", "TokenIterWrapper.Regular", "TokenIterWrapper.Buffered",
    "Balanced.balanced", "Balanced.single_quoted", "Balanced.double_quoted", "Balanced.backticked", "Remover.backticked_remove_backslashes", "Removed.content", "Removed.long"];
/// the greatest number of tokens that wait in the iterator at a time
fn cap() -> usize { far().max(if deep() { 4 } else { 3 }) }
thread_local! { static FAR: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
thread_local! { static KINDS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) }; }
/// the code counts up to beyond the usual bounds
fn far() -> usize { FAR.with(|c| c.get()) }
/// tokens that were taken from the stream longer ago than this are not told apart
pub const OLD: u8 = 9;

pub fn at(id: &str, k: i128) -> V { V::Ext("at", vec![V::Str(s(id)), V::Int(k)]) }
fn longest(v: &V) -> usize {
    let mut n = 0;
    v.visit(&mut |x| if let V::Ext("xv", l) = x { n = n.max(l.len()) });
    n
}
fn flag_of(v: &V) -> bool {
    let mut f = false;
    v.visit(&mut |x| match x { V::Ext("raw", r) if r[1] == V::Int(1) => f = true, V::Ext("empty", _) => f = true, _ => {} });
    f
}

impl<'tcx> An<'tcx> {
    /// the implementation of a method of a local trait for the type of a value
    pub fn dyn_impl(&mut self, st: &St, def: DefId, recv: &V) -> Option<(DefId, GenericArgsRef<'tcx>)> {
        let tcx = self.tcx;
        let tr = tcx.opt_parent(def)?;
        if !matches!(tcx.def_kind(tr), DefKind::Trait) { return None }
        let mut v = self.deref(st, recv);
        while let V::Bx(b) = v { v = *b; }
        let V::Adt(a, ..) = v else { return None };
        let did = self.adts[a as usize];
        for d in tcx.all_impls(tr) {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if !matches!(t.kind(), ty::Adt(x, _) if x.did() == did) { continue }
            let n = tcx.item_name(def);
            let f = tcx.associated_items(d).in_definition_order().find(|x| x.name() == n).map(|x| x.def_id);
            return Some(match f {
                Some(f) => (f, ty::GenericArgs::identity_for_item(tcx, f)),
                None => (def, tcx.mk_args(&[t.into()])),
            });
        }
        None
    }
    /// the destructor that is written for a type, if there is one
    pub fn destructor(&self, t: ty::Ty<'tcx>) -> Option<(DefId, GenericArgsRef<'tcx>)> {
        match t.kind() {
            ty::Adt(ad, a) if ad.did().is_local() => self.tcx.adt_destructor(ad.did()).map(|d| (d.did, *a)),
            _ => None,
        }
    }
    /// a destructor somewhere below
    pub fn has_destructor(&self, t: ty::Ty<'tcx>) -> bool {
        for x in t.walk() {
            if let Some(x) = x.as_type() { if self.destructor(x).is_some() { return true } }
        }
        match t.kind() {
            ty::Adt(ad, a) if ad.did().is_local() => ad.all_fields().any(|f| {
                let ft = self.subst(a, self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip());
                ft != t && matches!(ft.kind(), ty::Adt(x, _) if x.did() != ad.did()) && self.has_destructor(ft)
            }),
            _ => false,
        }
    }
    /// the source under the iterators
    #[allow(clippy::too_many_arguments)]
    pub fn ihook(&mut self, st: &mut St, pre: &St, args: &[V], owner: &str, name: &str) -> R<H> {
        let a0 = args.first().map(|a| self.deref(st, a)).unwrap_or(V::Undef);
        let pl = args.first().and_then(|a| self.deref_place(st, a));
        match (name, &a0) {
            ("fuse", V::Ext("raw", _)) => return Ok(H::Val(V::Ext("fuse", vec![a0]))),
            ("fuse", V::Ext("fuse" | "empty", _)) => return Ok(H::Val(a0)),
            ("next", V::Ext("fuse" | "raw", _)) if pl.is_some() => {
                let mut p = pl.unwrap();
                let fused = matches!(a0, V::Ext("fuse", _));
                if fused { p.proj.push(P::F(0)) }
                let V::Ext("raw", r) = self.read(st, &p) else { return Err(Stop::Fail("source of unknown shape".into())) };
                if r[1] == V::Int(1) {
                    let v = self.none();
                    return Ok(if fused { H::Val(v) } else { H::Multi(vec![(vec![Lab::t("source asked after its end")], st.clone(), v)]) });
                }
                let mut q = p.clone();
                q.proj.push(P::F(0));
                if let Some(a) = self.split_slot(pre, &q, 0) { return Ok(H::Retry(a)) }
                let mut out = self.consume(st, &q);
                for (_, s2, v) in out.iter_mut() {
                    if matches!(v, V::Adt(_, 0, _)) { let mut f = p.clone(); f.proj.push(P::F(1)); self.set(s2, &f, V::Int(1)); }
                }
                return Ok(H::Multi(out));
            }
            ("size_hint", V::Ext("fuse" | "raw", _)) => {
                if flag_of(&a0) { let z = self.some(V::Int(0)); return Ok(H::Val(V::Tup(vec![V::Int(0), z]))) }
                let no = self.none();
                let so = self.some(V::sym("in.hi"));
                let alts = [no, so].into_iter().map(|h| (vec![], st.clone(), V::Tup(vec![V::sym("in.lo"), h]))).collect();
                return Ok(H::Multi(alts));
            }
            ("size_hint", V::Ext("empty", _)) => { let z = self.some(V::Int(0)); return Ok(H::Val(V::Tup(vec![V::Int(0), z]))) }
            ("pos", V::Stream(x)) => return Ok(H::Val(at(&x.id, 0))),
            ("advance", V::Ext("at", f)) if owner == "SourcePos" && args.len() == 2 && pl.is_some() => {
                let (V::Str(id), V::Int(k)) = (&f[0], &f[1]) else { return Ok(H::No) };
                let t = self.deref(st, &args[1]);
                let ix = match &t {
                    V::El(e) if e.st == *id => match e.src { Src::Age(n) if n < OLD => Some(-(n as i128) - 1), Src::Peek(n) => Some(n as i128), _ => None },
                    V::Sym(y) if y.base == *id => y.path.strip_prefix('.').and_then(|x| x.parse().ok()),
                    _ => None,
                };
                // a token that was made anew counts as the one of its kind that was there
                let ix = ix.or_else(|| {
                    let mut hit = false;
                    if matches!(t, V::Adt(..)) { for f in &st.frames { for v in &f.locals { v.visit(&mut |x| if let V::Ext("tok", w) = x { hit |= w[1] == a0 && self.same_tok(&t, &w[0]) }) } } }
                    hit.then_some(*k)
                });
                let v = if ix == Some(*k) { at(id, k + 1) } else { V::sym(&format!("{} moved past {}", self.show(st, &a0), self.show(st, &t))) };
                self.set(st, &pl.unwrap(), v);
                return Ok(H::Val(V::unit()));
            }
            _ => {}
        }
        Ok(H::No)
    }
    fn bad(&mut self, st: &St, what: String) -> R<Out> { let _ = st; self.found_bad = true; Ok(Out::Done(vec![Lab::t(&format!("BAD {what}"))])) }
    /// the client of a token iterator
    ///
    /// locals: 0 result, 1 the iterator, 2 look-ahead, 3 the tokens that wait (with their positions), 4 the place of the next token
    /// that does not wait, 5 number of tokens looked at, 6.. the operations, 20 how it is wrapped
    pub fn drive_iter(&mut self, st: &mut St, op: &'static str, stage: u32) -> R<Out> {
        let fi = (st.frames.len() - 1) as u16;
        let loc = |i: u16| Pl { base: Base::Local(fi, i), proj: vec![] };
        let pre = st.clone();
        let sp = self.cur_span;
        let cx = |d: u16, t: u32| Ctx { dest: Some(loc(d)), target: Some(t), span: sp };
        let get = |st: &St, i: usize| st.frames[fi as usize].locals[i].clone();
        let put = |st: &mut St, i: usize, v: V| st.frames[fi as usize].locals[i] = v;
        let to = |st: &mut St, l: Vec<Lab>, t: u32| -> R<Out> { st.frames[fi as usize].bb = t; Ok(Out::Split(vec![(l, st.clone())])) };
        let queue = |st: &St| -> Vec<V> { match get(st, 3) { V::Ext(_, q) => q, _ => vec![] } };
        let obj = V::Ref(loc(1));
        let (iop, ihint) = ("drv:iter", op == "drv:ithint");
        let _ = iop;
        // what a look at the k-th token has to give; grows the queue
        let expect = |an: &mut Self, st: &mut St, r: &V, k: usize, take: bool| -> Option<String> {
            let mut q = queue(st);
            let V::Ext(_, m) = get(st, 4) else { return Some("?".into()) };
            let V::Int(mk) = m[1] else { return Some("?".into()) };
            let V::Str(id) = m[0].clone() else { return Some("?".into()) };
            let got = match r { V::Adt(_, 1, x) => Some(an.deref(st, &x[0])), V::Adt(_, 0, _) => None, x => return Some(format!("gives {}", an.show(st, x))) };
            if k < q.len() {
                let V::Tup(w) = &q[k] else { return Some("?".into()) };
                let ok = match (&got, &w[0]) {
                    (Some(V::El(a)), V::El(b)) => a.st == b.st && a.src == b.src && !matches!(a.src, Src::Age(n) if n >= OLD),
                    (Some(a), b) => a == b,
                    _ => false,
                };
                if !ok { return Some(format!("gives {} where {} waits", an.show(st, r), an.show(st, &w[0]))) }
                if take { q.remove(0); put(st, 3, xv(q)); }
                return None;
            }
            match &got {
                None => {
                    if !flag_of(&get(st, 1)) { return Some("reports the end although the source has not".into()) }
                    if mk != 0 { return Some("reports the end although tokens were taken from the source and not given".into()) }
                    None
                }
                Some(x) => {
                    let ok = matches!(x, V::El(e) if e.st == id && e.src == Src::Age((-mk - 1).max(0) as u8)) && mk < 0;
                    if !ok { return Some(format!("gives {} where the next token of the source is due", an.show(st, r))) }
                    if !take { q.push(V::Tup(vec![x.clone(), at(&id, mk)])); put(st, 3, xv(q)); }
                    put(st, 4, at(&id, mk + 1));
                    None
                }
            }
        };
        match stage {
            0 => {
                let f = get(st, 6);
                let src = get(st, 19);
                if op == "drv:itnew" { return self.invoke(st, &pre, f, vec![src], cx(1, 60)) }
                self.invoke(st, &pre, f, vec![src, at("in", 0)], cx(1, 100))
            }
            100 => {
                if let V::Adt(a, v, _) = get(st, 20) { let x = get(st, 1); put(st, 1, V::Adt(a, v, vec![x])); }
                to(st, vec![], 1)
            }
            // the position is that of the next token at any time
            1 => { let f = get(st, 12); self.invoke(st, &pre, f, vec![obj], cx(0, 2)) }
            2 => {
                let r = get(st, 0);
                let q = queue(st);
                let want = match q.first() { Some(V::Tup(w)) => w[1].clone(), _ => get(st, 4) };
                if r != want { return self.bad(st, format!("pos() is {} where the next token is at {}", self.show(st, &r), self.show(st, &want))) }
                put(st, 0, V::Undef);
                let mut alts = vec![];
                let mut go = |t: u32, l: &str| { let mut s2 = st.clone(); put(&mut s2, 5, V::Int(0)); s2.frames[fi as usize].bb = t; alts.push((vec![Lab::t(l)], s2)); };
                go(10, "next");
                if ihint { go(50, "size_hint") }
                go(20, "peek");
                go(30, "multipeek");
                for n in 0..3usize { if q.len() + n <= cap() { go(40 + n as u32, &format!("buffer {n}")) } }
                Ok(Out::Split(alts))
            }
            10 => { let f = get(st, 7); self.invoke(st, &pre, f, vec![obj], cx(0, 11)) }
            11 => {
                let r = get(st, 0);
                match expect(self, st, &r, 0, true) { Some(e) => self.bad(st, format!("next() {e}")), None => { put(st, 0, V::Undef); to(st, vec![], 1) } }
            }
            20 => { let f = get(st, 8); self.invoke(st, &pre, f, vec![obj], cx(0, 21)) }
            21 => {
                let r = get(st, 0);
                match expect(self, st, &r, 0, false) { Some(e) => self.bad(st, format!("peek() {e}")), None => { put(st, 0, V::Undef); to(st, vec![], 1) } }
            }
            30 => { let f = get(st, 9); self.invoke(st, &pre, f, vec![obj], cx(2, 31)) }
            31 => {
                let V::Int(k) = get(st, 5) else { return Err(Stop::Fail("driver".into())) };
                let mut alts = vec![];
                if (k as usize) < cap() { let mut s2 = st.clone(); s2.frames[fi as usize].bb = 32; alts.push((vec![Lab::t("peek_next")], s2)); }
                let mut s2 = st.clone();
                s2.frames[fi as usize].bb = 35;
                alts.push((vec![Lab::t("drop")], s2));
                Ok(Out::Split(alts))
            }
            32 => { let f = get(st, 10); self.invoke(st, &pre, f, vec![V::Ref(loc(2))], cx(0, 33)) }
            33 => {
                let r = get(st, 0);
                let V::Int(k) = get(st, 5) else { return Err(Stop::Fail("driver".into())) };
                let end = matches!(r, V::Adt(_, 0, _));
                match expect(self, st, &r, k as usize, false) {
                    Some(e) => self.bad(st, format!("peek_next() number {} {e}", k + 1)),
                    None => { put(st, 0, V::Undef); if !end { put(st, 5, V::Int(k + 1)) } to(st, vec![], 31) }
                }
            }
            35 => {
                let f = get(st, 14);
                if matches!(f, V::Undef) { put(st, 2, V::Undef); return to(st, vec![], 1) }
                self.invoke(st, &pre, f, vec![V::Ref(loc(2))], cx(0, 36))
            }
            36 => { put(st, 2, V::Undef); put(st, 0, V::Undef); to(st, vec![], 1) }
            40..=42 => {
                let n = (stage - 40) as usize;
                let mut used = vec![];
                for f in &st.frames { for v in &f.locals { v.visit(&mut |v| match v { V::Sym(y) => used.push(y.base.to_string()), V::Ext("at", f) => if let V::Str(x) = &f[0] { used.push(x.to_string()) }, _ => {} }) } }
                let Some(id) = (1..9).map(|i| format!("b{i}")).find(|b| !used.contains(b)) else { return Err(Stop::Fail("too many buffers".into())) };
                let toks: Vec<V> = (0..n).map(|i| V::Sym(Sym { base: s(&id), age: 0, path: s(&format!(".{i}")), tracked: false })).collect();
                let mut q: Vec<V> = toks.iter().enumerate().map(|(i, t)| V::Tup(vec![t.clone(), at(&id, i as i128)])).collect();
                q.extend(queue(st));
                put(st, 3, xv(q));
                let pre = st.clone();
                let f = get(st, 11);
                self.invoke(st, &pre, f, vec![obj, xv(toks), at(&id, 0)], cx(0, 45))
            }
            45 => { put(st, 0, V::Undef); to(st, vec![], 1) }
            50 => { let f = get(st, 13); self.invoke(st, &pre, f, vec![obj], cx(0, 51)) }
            51 => {
                let r = get(st, 0);
                let V::Ext(_, m) = get(st, 4) else { return Err(Stop::Fail("driver".into())) };
                let V::Int(mk) = m[1] else { return Err(Stop::Fail("driver".into())) };
                let n = queue(st).len() as i128 - mk;
                Ok(Out::Done(vec![Lab::t(&format!("hint waiting={n} ended={} {}", flag_of(&get(st, 1)) as u8, self.show(st, &r)))]))
            }
            60 => { let f = get(st, 12); self.invoke(st, &pre, f, vec![obj], cx(0, 61)) }
            61 => { let r = get(st, 0); let t = self.show(st, &r); Ok(Out::Done(vec![Lab::t(&format!("pos {t}"))])) }
            _ => Err(Stop::Fail(format!("driver {op}:{stage}"))),
        }
    }
}

/// how deep the delimiters are nested at most
fn depth() -> usize { if deep() { 4 } else { 3 } }
/// number of tokens of a backquoted command, of all kinds that matter, and of those that matter for the removal
fn content_len() -> usize { if deep() { 5 } else { 4 } }
fn long_len() -> usize { if deep() { 6 } else { 5 } }
const SPECIAL: &[&str] = &["Backslash", "Backtick", "SingleQuote", "DoubleQuote", "ParenOpen", "ParenClose", "CurlyOpen", "CurlyClose", "Dollar"];

impl<'tcx> An<'tcx> {
    fn kind(&self, n: &str) -> usize { self.tcx.adt_def(self.token_def).variants().iter().position(|v| v.name.as_str() == n).unwrap_or(EOF_TOK) }
    fn kname(&self, k: i128) -> String { self.tcx.adt_def(self.token_def).variants().iter().nth(k as usize).map(|v| v.name.to_string()).unwrap_or_default() }
    /// The reference: what comes next when delimiters are matched.
    ///
    /// locals: 3 the pending delimiters, 4 the place of the next token, 5 the next token is escaped, 6 the tokens that are known to follow,
    /// 10 finished, 11 the outermost delimiter is not given, 12 a `$` came before
    fn reference(&mut self, st: &mut St, fi: usize) -> R<V> {
        let l = &mut st.frames[fi].locals;
        let one = |v: &V| *v == V::Int(1);
        let V::Ext(_, mut stack) = l[3].clone() else { return Err(Stop::Fail("reference".into())) };
        let V::Ext(_, mut known) = l[6].clone() else { return Err(Stop::Fail("reference".into())) };
        let V::Ext(_, m) = l[4].clone() else { return Err(Stop::Fail("reference".into())) };
        let V::Int(mk) = m[1] else { return Err(Stop::Fail("reference".into())) };
        let here = at("in", mk);
        if one(&l[5]) {
            l[5] = V::Int(0);
            let x = known.remove(0);
            l[6] = xv(known);
            l[4] = at("in", mk + 1);
            return Ok(V::Ext("tok", vec![x, here]));
        }
        if one(&l[10]) { return Ok(V::Ext("none", vec![])) }
        let x = known.remove(0);
        let kind = match &x { V::El(e) => { let k: Vec<usize> = e.mask.iter().collect(); let n = self.kname(self.atom_kind(k[0]) as i128); if SPECIAL.contains(&n.as_str()) { n } else { String::new() } } _ => "EOF".into() };
        let l = &mut st.frames[fi].locals;
        let dollar = one(&l[12]);
        if dollar && stack.is_empty() && !matches!(kind.as_str(), "CurlyOpen" | "ParenOpen") { l[10] = V::Int(1); return Ok(V::Ext("none", vec![])) }
        let top = match stack.last() { Some(V::Tup(t)) => match t[0] { V::Int(k) => self.kname(k), _ => String::new() }, _ => String::new() };
        if kind == "EOF" {
            l[10] = V::Int(1);
            let Some(V::Tup(t)) = stack.last() else { return Ok(V::Ext("none", vec![])) };
            let open = match top.as_str() { "ParenClose" => "ParenOpen", "CurlyClose" => "CurlyOpen", x => x };
            return Ok(V::Ext("err", vec![V::Int(self.kind(open) as i128), t[1].clone()]));
        }
        l[12] = V::Int(0);
        l[4] = at("in", mk + 1);
        if kind == top && !top.is_empty() {
            stack.pop();
            let last = stack.is_empty();
            l[3] = xv(stack);
            l[6] = xv(known);
            if last { l[10] = V::Int(1); if one(&l[11]) { return Ok(V::Ext("none", vec![])) } }
            return Ok(V::Ext("tok", vec![x, here]));
        }
        let mut push = None;
        if top != "SingleQuote" {
            match kind.as_str() {
                "Backslash" => { if matches!(known.first(), Some(V::El(_))) { l[5] = V::Int(1) } if stack.is_empty() { l[10] = V::Int(1) } }
                "Backtick" | "DoubleQuote" => push = Some(kind.as_str()),
                "SingleQuote" => if top != "DoubleQuote" { push = Some("SingleQuote") },
                "ParenOpen" => if dollar || top != "DoubleQuote" { push = Some("ParenClose") },
                "CurlyOpen" if dollar => push = Some("CurlyClose"),
                "Dollar" => l[12] = V::Int(1),
                _ => {}
            }
            if let Some(p) = push { stack.push(V::Tup(vec![V::Int(self.kind(p) as i128), here.clone()])) }
            else if stack.is_empty() && kind != "Dollar" { l[10] = V::Int(1) }
        }
        l[3] = xv(stack);
        l[6] = xv(known);
        Ok(V::Ext("tok", vec![x, here]))
    }
    /// know the next token, and the one after a backslash; None: they are known
    fn foresee(&mut self, st: &mut St, fi: usize, spl: &Pl) -> Option<Vec<(Vec<Lab>, St)>> {
        loop {
            let V::Ext(_, mut known) = st.frames[fi].locals[6].clone() else { return None };
            let V::Ext(_, m) = st.frames[fi].locals[4].clone() else { return None };
            let V::Int(mk) = m[1] else { return None };
            let bs = Mask::one(self.kind("Backslash"));
            let need = if known.is_empty() || known.len() == 1 && matches!(&known[0], V::El(e) if e.mask.subset(&bs)) { known.len() + 1 } else { known.len() };
            if known.len() >= need { return None }
            let slot = known.len() as i128 + mk;
            if slot < 0 { return None }
            let mut by: Vec<Mask> = SPECIAL.iter().map(|n| Mask::one(self.kind(n))).collect();
            by.push(Mask::one(EOF_TOK));
            // all slots up to it have to be there
            let have = self.stream_at(st, spl).map_or(0, |x| x.la.len());
            if let Some(a) = self.split_slot_by(&st.clone(), spl, (slot as usize).min(have), &by) { return Some(a) }
            let x = self.stream_at(st, spl).unwrap();
            let sl = &x.la[slot as usize];
            known.push(if sl.mask == Mask::one(EOF_TOK) { V::Ext("eof", vec![]) } else { V::El(El { st: x.id.clone(), ch: false, mask: sl.mask, src: Src::Peek(slot as u8) }) });
            st.frames[fi].locals[6] = xv(known);
        }
    }
    /// compares a result of next() with what the reference gives; None: as it should be
    fn agrees(&mut self, st: &St, r: &V, want: &V) -> Option<String> {
        let V::Ext(n, w) = want else { return Some("?".into()) };
        let err = |an: &Self, e: &V| -> bool {
            let V::Adt(a, _, f) = e else { return false };
            an.adt_name(*a) == "UnmatchedError" && matches!(&f[0], V::Adt(_, k, _) if V::Int(*k as i128) == w[0]) && f[1] == w[1]
        };
        let ok = match (*n, r) {
            ("none", V::Adt(_, 0, _)) => true,
            ("tok", V::Adt(_, 1, x)) => match &x[0] { V::Adt(_, 0, y) => self.same_tok(&y[0], &w[0]), _ => false },
            ("err", V::Adt(_, 1, x)) => match &x[0] { V::Adt(_, 1, y) => err(self, &y[0]), _ => false },
            ("err", x) => err(self, x),
            _ => false,
        };
        if ok { return None }
        let want = match *n { "none" => "the end".to_string(), "tok" => self.show(st, &w[0]), _ => { let V::Int(k) = w[0] else { return Some("?".into()) }; format!("the error that {} at {} is unmatched", self.kname(k), self.show(st, &w[1])) } };
        Some(format!("gives {} where {want} is due", self.show(st, r)))
    }
    fn same_tok(&self, a: &V, b: &V) -> bool {
        match (a, b) {
            (V::El(a), V::El(b)) => a.st == b.st && a.src == b.src && !matches!(a.src, Src::Age(n) if n >= OLD),
            // a kind of token that has no text may be made anew
            (V::Adt(a, k, f), V::El(b)) => self.adts[*a as usize] == self.token_def && f.is_empty() && b.mask.iter().all(|x| self.atom_kind(x) == *k as usize),
            _ => false,
        }
    }
    /// the client of the iterators that match delimiters
    pub fn drive_bal(&mut self, st: &mut St, op: &'static str, stage: u32) -> R<Out> {
        let fi = st.frames.len() - 1;
        let loc = |i: u16| Pl { base: Base::Local(fi as u16, i), proj: vec![] };
        let pre = st.clone();
        let sp = self.cur_span;
        let cx = |d: u16, t: u32| Ctx { dest: Some(loc(d)), target: Some(t), span: sp };
        let get = |st: &St, i: usize| st.frames[fi].locals[i].clone();
        let put = |st: &mut St, i: usize, v: V| st.frames[fi].locals[i] = v;
        let to = |st: &mut St, l: &str, t: u32| -> R<Out> { st.frames[fi].bb = t; Ok(Out::Split(vec![(if l.is_empty() { vec![] } else { vec![Lab::t(l)] }, st.clone())])) };
        let args = |st: &St, r: V| -> Vec<V> { let mut a = vec![r]; if let V::Ext(_, x) = get(st, 13) { a.extend(x) } a };
        let (rem, content) = (op == "drv:barem", op == "drv:bacon");
        // where the source is
        let mut spl = loc(2);
        if content { let mut p = None; fn find(v: &V, path: &mut Vec<P>, out: &mut Option<Vec<P>>) { match v { V::Stream(_) => *out = Some(path.clone()), V::Adt(_, _, f) | V::Ext(_, f) => for (i, x) in f.iter().enumerate() { path.push(P::F(i as u16)); find(x, path, out); path.pop(); }, _ => {} } } find(&get(st, 2), &mut vec![], &mut p); if let Some(p) = p { spl.proj = p } }
        match stage {
            0 if content => { let f = get(st, 17); let src = get(st, 19); self.invoke(st, &pre, f, vec![src, at("in", 0)], cx(2, 20)) }
            0 => { let f = get(st, 9); let a = args(st, V::Ref(loc(2))); self.invoke(st, &pre, f, a, cx(1, 1)) }
            1 if rem => to(st, "", 3),
            1 => { let f = get(st, 8); self.invoke(st, &pre, f, vec![V::Ref(loc(1))], cx(0, 2)) }
            2 => {
                let (r, want) = (get(st, 0), get(st, 4));
                if r != want { return self.bad(st, format!("pos() is {} where the next token is at {}", self.show(st, &r), self.show(st, &want))) }
                to(st, "", 3)
            }
            3 => {
                if !(get(st, 5) == V::Int(1) || get(st, 10) == V::Int(1) || !matches!(get(st, 14), V::Undef)) { if let Some(a) = self.foresee(st, fi, &spl) { return Ok(Out::Split(a)) } }
                // what the call is to give
                let l = match (get(st, 14), get(st, 6)) {
                    (V::Ext("tok", _), _) => "next".to_string(),
                    (_, V::Ext(_, k)) => match k.first() { Some(V::El(e)) => { let k: Vec<usize> = e.mask.iter().collect(); let n = self.kname(self.atom_kind(k[0]) as i128); format!("next of {}", if k.len() == 1 { n } else { "another token".into() }) } Some(_) => "next at the end of the input".into(), None => "next".into() },
                    _ => "next".to_string(),
                };
                to(st, &l, 4)
            }
            4 => { let f = get(st, 7); self.invoke(st, &pre, f, vec![V::Ref(loc(1))], cx(0, 5)) }
            5 => {
                let r = get(st, 0);
                put(st, 0, V::Undef);
                let want = if !matches!(get(st, 14), V::Undef) { let x = get(st, 14); put(st, 14, V::Undef); x } else {
                    let a = self.reference(st, fi)?;
                    if rem { self.unescaped(st, fi, a)? } else { a }
                };
                if let Some(e) = self.agrees(st, &r, &want) { return self.bad(st, format!("next() {e}")) }
                match &want {
                    V::Ext("err", _) => Ok(Out::Done(vec![Lab::t("error")])),
                    V::Ext("none", _) => {
                        if get(st, 4) != at("in", 0) { return self.bad(st, "ends after it has taken tokens from the source that it did not give".into()) }
                        // and again
                        if get(st, 15) == V::Int(1) { return Ok(Out::Done(vec![Lab::t("end")])) }
                        put(st, 15, V::Int(1));
                        put(st, 10, V::Int(1));
                        to(st, "end", 1)
                    }
                    _ => {
                        // what is nested deeper is only followed while it is more of the same
                        let more = |s: &[V]| s.len() <= far() && s[depth() - 1..].windows(2).all(|w| matches!((&w[0], &w[1]), (V::Tup(a), V::Tup(b)) if a[0] == b[0]));
                        if matches!(get(st, 3), V::Ext(_, s) if s.len() > depth() && !more(&s)) || longest(&get(st, 1)) > depth().max(far()) + 2 { return Ok(Out::Done(vec![Lab::t("cap")])) }
                        to(st, "", 1)
                    }
                }
            }
            // the content of backquotes: first the reference
            20 => {
                if get(st, 10) != V::Int(1) && get(st, 5) != V::Int(1) { if let Some(a) = self.foresee(st, fi, &spl) { return Ok(Out::Split(a)) } }
                let a = self.reference(st, fi)?;
                let a = self.unescaped(st, fi, a)?;
                let V::Ext(_, mut l) = get(st, 16) else { return Err(Stop::Fail("driver".into())) };
                let mut more = !matches!(a, V::Ext("none" | "err", _));
                l.push(a);
                let p = get(st, 14);
                if !matches!(p, V::Undef) { put(st, 14, V::Undef); if matches!(p, V::Ext("none" | "err", _)) { more = false } l.push(p) }
                put(st, 16, xv(l));
                to(st, "", if more { 20 } else { 21 })
            }
            21 => { let f = get(st, 9); let a = args(st, V::Ref(loc(2))); self.invoke(st, &pre, f, a, cx(0, 22)) }
            22 => {
                let r = get(st, 0);
                put(st, 0, V::Undef);
                let V::Ext(_, l) = get(st, 16) else { return Err(Stop::Fail("driver".into())) };
                match (&r, l.last()) {
                    (V::Adt(_, 1, e), Some(w @ V::Ext("err", _))) => match self.agrees(st, &e[0], w) { None => Ok(Out::Done(vec![Lab::t("error")])), Some(e) => self.bad(st, e) },
                    (V::Adt(_, 0, x), Some(V::Ext("none", _))) => { put(st, 1, x[0].clone()); to(st, "content", 23) }
                    _ => { let t = self.show(st, &r); self.bad(st, format!("gives {t}")) }
                }
            }
            // what is left in the source
            23 => { let f = get(st, 18); self.invoke(st, &pre, f, vec![V::Ref(loc(2))], cx(0, 24)) }
            24 => {
                let (r, want) = (get(st, 0), get(st, 4));
                if r != want || want != at("in", 0) { let t = self.show(st, &r); return self.bad(st, format!("the source is left at {t}, its next token is at {}", self.show(st, &want))) }
                to(st, "", 25)
            }
            25 => { let f = get(st, 8); self.invoke(st, &pre, f, vec![V::Ref(loc(1))], cx(0, 26)) }
            26 => {
                let V::Ext(_, l) = get(st, 16) else { return Err(Stop::Fail("driver".into())) };
                let want = match l.first() { Some(V::Ext("tok", w)) => w[1].clone(), _ => get(st, 4) };
                let r = get(st, 0);
                if r != want { return self.bad(st, format!("pos() is {} where the next token is at {}", self.show(st, &r), self.show(st, &want))) }
                to(st, "next", 27)
            }
            27 => { let f = get(st, 7); self.invoke(st, &pre, f, vec![V::Ref(loc(1))], cx(0, 28)) }
            28 => {
                let V::Ext(_, mut l) = get(st, 16) else { return Err(Stop::Fail("driver".into())) };
                let r = get(st, 0);
                put(st, 0, V::Undef);
                let want = l.remove(0);
                let ok = match (&r, &want) {
                    (V::Adt(_, 0, _), V::Ext("none", _)) => return Ok(Out::Done(vec![Lab::t("end")])),
                    (V::Adt(_, 1, x), V::Ext("tok", w)) => self.same_tok(&x[0], &w[0]),
                    _ => false,
                };
                if !ok { let t = self.show(st, &r); return self.bad(st, format!("next() gives {t} where {} is due", self.show(st, &want))) }
                put(st, 16, xv(l));
                to(st, "", 25)
            }
            _ => Err(Stop::Fail(format!("driver {op}:{stage}"))),
        }
    }
    /// backslashes before `$`, a backquote or a backslash are taken away
    fn unescaped(&mut self, st: &mut St, fi: usize, a: V) -> R<V> {
        let is = |an: &Self, v: &V, names: &[&str]| match v { V::Ext("tok", x) => match &x[0] { V::El(e) => names.iter().any(|n| e.mask.subset(&Mask::one(an.kind(n)))), _ => false }, _ => false };
        if !is(self, &a, &["Backslash"]) { return Ok(a) }
        let b = self.reference(st, fi)?;
        if is(self, &b, &["Dollar", "Backtick", "Backslash"]) { return Ok(b) }
        st.frames[fi].locals[14] = b;
        Ok(a)
    }
}

fn balanced<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> Result<(An<'tcx>, Graph), String> {
    let Some(token) = find_adt(tcx, "token::Token") else { return Err("no token::Token".into()) };
    let Some(ti) = find_adt(tcx, "parse::iter::TokenIter") else { return Err("no TokenIter".into()) };
    let (kind, method) = name.split_once('.').unwrap();
    let content = kind == "Removed";
    let ctor = if content { inherent_fn(tcx, ti, "token_iter_from_backticked_with_removed_backslashes") } else {
        tcx.all_traits_including_private().find(|t| t.is_local() && tcx.item_name(*t).as_str() == "TokenIterator")
            .and_then(|t| tcx.associated_items(t).in_definition_order().find(|a| a.name().as_str() == method).map(|a| a.def_id))
    };
    let Some(ctor) = ctor else { return Err(format!("no {method}")) };
    let mut cfg = Config::default();
    cfg.max_states = if deep() { 3_000_000 } else { 300_000 };
    cfg.recursion = 1;
    cfg.exact = true;
    cfg.raw_iter = true;
    cfg.at_old = if content { OLD as i128 } else { 2 };
    let mut an = An::new(tcx, ctor, cfg, token);
    an.iter_proj = vec![P::F(99)];
    let op = match kind { "Balanced" => "drv:bal", "Remover" => "drv:barem", _ => "drv:bacon" };
    let err = std::cell::RefCell::new(None);
    let r = an.run(&|an: &mut An<'tcx>| {
        let mut go = || -> Option<Vec<St>> {
            let ga = ty::GenericArgs::identity_for_item(tcx, ctor);
            let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(ctor).instantiate_identity().skip_norm_wip());
            let out = an.subst(ga, sig).output();
            let t = if content { let ty::Adt(_, a) = out.kind() else { return None }; a.type_at(0) } else { out };
            let mut l = vec![V::Undef; 20];
            l[3] = xv(vec![]);
            l[4] = at("in", 0);
            l[6] = xv(vec![]);
            for i in [5, 10, 12, 15] { l[i] = V::Int(0) }
            l[11] = V::Int((method != "balanced") as i128);
            l[7] = an.trait_method("Iterator", "next", t)?;
            l[8] = an.trait_method("PositionIterator", "pos", t)?;
            l[9] = an.fnv(ctor, ga);
            let delim = match method { "balanced" => None, "single_quoted" => Some("SingleQuote"), "double_quoted" => Some("DoubleQuote"), _ => Some("Backtick") };
            l[13] = xv(vec![]);
            if let Some(d) = delim { l[3] = xv(vec![V::Tup(vec![V::Int(an.kind(d) as i128), V::sym("delim")])]); l[13] = xv(vec![V::sym("delim")]); }
            l[16] = xv(vec![]);
            let base = |l: Vec<V>| -> St {
                let mut st = St::default();
                st.frames.push(Frame { k: FK::Native("root"), bb: 0, t: false, locals: vec![V::Undef], dest: None, target: 0 });
                st.frames.push(Frame { k: FK::Native(op), bb: 0, t: false, locals: l, dest: None, target: 0 });
                st
            };
            let stream = |la: Vec<Mask>| V::Stream(Box::new(Stream { id: s("in"), ch: false, la: la.into_iter().map(|m| Slot { mask: m, rep: false }).collect(), start: 2 }));
            if !content { l[2] = stream(vec![]); return Some(vec![base(l)]) }
            let wp = inherent_fn(tcx, ti, "with_position")?;
            l[17] = { let ga = ty::GenericArgs::identity_for_item(tcx, wp); an.fnv(wp, ga) };
            let tt = tcx.type_of(ti).instantiate_identity().skip_norm_wip();
            l[18] = an.trait_method("PositionIterator", "pos", tt)?;
            let mut some = Mask::NONE;
            let long = method == "long";
            for n in if long { &["Backslash", "Dollar", "Semi"][..] } else { &["Backslash", "Backtick", "Dollar", "SingleQuote", "Semi"] } { some.set(an.kind(n)) }
            let mut out = vec![];
            for n in if long { long_len()..=long_len() } else { 0..=content_len() } {
                let mut la = vec![some; n];
                if long { la.push(Mask::one(an.kind("Backtick"))) }
                la.push(Mask::one(EOF_TOK));
                let mut l = l.clone();
                l[19] = V::Ext("raw", vec![stream(la), V::Int(0)]);
                out.push(base(l));
            }
            for more in KINDS.with(|c| c.borrow().clone()).chunks(2).filter(|_| !long) {
                let mut some = Mask::NONE;
                for n in ["Backslash", "Dollar"].into_iter().chain(more.iter().map(|x| x.as_str())) { some.set(an.kind(n)) }
                for n in 1..=content_len() {
                    let mut la = vec![some; n];
                    la.push(Mask::one(an.kind("Backtick")));
                    la.push(Mask::one(EOF_TOK));
                    let mut l = l.clone();
                    l[19] = V::Ext("raw", vec![stream(la), V::Int(0)]);
                    out.push(base(l));
                }
            }
            if long && far() > long_len() {
                let mut two = Mask::NONE;
                for n in ["Backslash", "Dollar"] { two.set(an.kind(n)) }
                let mut la = vec![two; far()];
                la.push(Mask::one(an.kind("Backtick")));
                la.push(Mask::one(EOF_TOK));
                let mut l = l.clone();
                l[19] = V::Ext("raw", vec![stream(la), V::Int(0)]);
                out.push(base(l));
            }
            Some(out)
        };
        match go() { Some(l) => l.into_iter().map(|st| (vec![], st)).collect(), None => { *err.borrow_mut() = Some("an operation is missing".to_string()); vec![] } }
    });
    if let Some(e) = err.into_inner() { return Err(e) }
    match r {
        Ok(()) => { let g = an.graph(); Ok((an, g)) }
        Err(e) if std::env::var("CONCH_SA_HOT").is_ok() => { an.hot(); Err(format!("{e:?}")) }
        Err(e) => Err(format!("{e:?} at {}", an.site(an.cur_span))),
    }
}

fn trait_for<'tcx>(an: &mut An<'tcx>, m: &str, t: ty::Ty<'tcx>, trs: &[&str]) -> Option<V> {
    for tr in trs { if let Some(v) = an.trait_method(tr, m, t) { return Some(v) } }
    None
}

/// the kinds of tokens that are mentioned beside those the content of backquotes is made of anyway
fn told_apart(an: &An<'_>) -> Vec<String> {
    struct Vis<'a, 'tcx>(&'a An<'tcx>, &'tcx rustc_middle::mir::Body<'tcx>, ty::GenericArgsRef<'tcx>, std::collections::BTreeSet<u32>);
    impl<'a, 'tcx> Vis<'a, 'tcx> {
        fn is_token(&self, t: ty::Ty<'tcx>) -> bool { matches!(t.kind(), ty::Adt(d, _) if d.did() == self.0.token_def) }
    }
    impl<'a, 'tcx> rustc_middle::mir::visit::Visitor<'tcx> for Vis<'a, 'tcx> {
        fn visit_rvalue(&mut self, r: &rustc_middle::mir::Rvalue<'tcx>, l: rustc_middle::mir::Location) {
            if let rustc_middle::mir::Rvalue::Aggregate(k, _) = r {
                if let rustc_middle::mir::AggregateKind::Adt(d, v, ..) = &**k { if *d == self.0.token_def { self.3.insert(v.as_u32()); } }
            }
            self.super_rvalue(r, l);
        }
        fn visit_terminator(&mut self, t: &rustc_middle::mir::Terminator<'tcx>, l: rustc_middle::mir::Location) {
            if let rustc_middle::mir::TerminatorKind::SwitchInt { discr, targets } = &t.kind {
                if let Some(p) = discr.place() {
                    let tok = self.1.basic_blocks.iter().flat_map(|b| b.statements.iter()).any(|s| match &s.kind {
                        rustc_middle::mir::StatementKind::Assign(b) => b.0 == p && matches!(&b.1, rustc_middle::mir::Rvalue::Discriminant(q) if self.is_token(self.0.subst(self.2, q.ty(self.1, self.0.tcx).ty))),
                        _ => false,
                    });
                    if tok { for (v, _) in targets.iter() { self.3.insert(v as u32); } }
                }
            }
            self.super_terminator(t, l);
        }
    }
    let mut out = std::collections::BTreeSet::new();
    for b in an.bodies.iter().filter(|b| b.local) {
        let path = an.tcx.def_path_str(b.def);
        if path.contains("Balanced<") || path.contains("Token as ") || path.contains("::Token::") { continue }
        let mut v = Vis(an, b.body, b.args, Default::default());
        rustc_middle::mir::visit::Visitor::visit_body(&mut v, b.body);
        out.append(&mut v.3);
        if b.def.is_local() && an.tcx.is_mir_available(b.def) {
            for p in an.tcx.promoted_mir(b.def).iter() {
                let mut v = Vis(an, p, b.args, Default::default());
                rustc_middle::mir::visit::Visitor::visit_body(&mut v, p);
                out.append(&mut v.3);
            }
        }
    }
    let ad = an.tcx.adt_def(an.token_def);
    out.into_iter().map(|v| ad.variants()[rustc_abi::VariantIdx::from_u32(v)].name.to_string())
        .filter(|n| !["Backslash", "Backtick", "Dollar", "SingleQuote", "Semi"].contains(&n.as_str())).collect()
}
/// where the code compares with numbers beyond the bounds of the exploration it goes that far
pub fn analyse<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> Result<(An<'tcx>, Graph), String> {
    FAR.with(|c| c.set(0));
    let (an, g) = analyse_upto(tcx, name)?;
    let k = crate::func::numbers(&an).into_iter().filter(|k| *k >= cap() as u128 && *k <= 300).max();
    let more = if name.starts_with("Removed") { told_apart(&an) } else { vec![] };
    if k.is_none() && more.is_empty() { return Ok((an, g)) }
    FAR.with(|c| c.set(k.map_or(0, |k| k as usize + 1)));
    KINDS.with(|c| *c.borrow_mut() = more.clone());
    let r = analyse_upto(tcx, name);
    FAR.with(|c| c.set(0));
    KINDS.with(|c| c.borrow_mut().clear());
    r.map_err(|e| match k { Some(k) => format!("counts up to {k}: {e}"), None => format!("with {}: {e}", more.join(", ")) })
}
fn analyse_upto<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> Result<(An<'tcx>, Graph), String> {
    crate::hooks::COARSE.with(|c| c.set(false));
    if !name.starts_with("TokenIter") { return balanced(tcx, name) }
    let Some(token) = find_adt(tcx, "token::Token") else { return Err("no token::Token".into()) };
    let Some(ti) = find_adt(tcx, "parse::iter::TokenIter") else { return Err("no TokenIter".into()) };
    let wrap = name.strip_prefix("TokenIterWrapper.");
    let ob = match wrap { Some(_) => find_adt(tcx, "parse::iter::TokenIterWrapper").ok_or("no TokenIterWrapper")?, None => ti };
    let Some(ctor) = inherent_fn(tcx, ti, if name == "TokenIter.new" { "new" } else { "with_position" }) else { return Err("no constructor".into()) };
    let Some(mp) = find_adt(tcx, "parse::iter::Multipeek") else { return Err("no Multipeek".into()) };
    let mut cfg = Config::default();
    cfg.max_states = 400_000;
    cfg.recursion = 1;
    cfg.exact = true;
    cfg.raw_iter = true;
    cfg.at_old = OLD as i128;
    let mut an = An::new(tcx, ctor, cfg, token);
    an.iter_proj = vec![P::F(99)];
    let op = match name { "TokenIter.new" => "drv:itnew", "TokenIter.hint" => "drv:ithint", _ => "drv:iter" };
    let err = std::cell::RefCell::new(None);
    let r = an.run(&|an: &mut An<'tcx>| {
        let mut go = || -> Option<St> {
            let t = tcx.type_of(ob).instantiate_identity().skip_norm_wip();
            let inh = |an: &mut An<'tcx>, a: DefId, n: &str| inherent_fn(tcx, a, n).map(|d| { let ga = ty::GenericArgs::identity_for_item(tcx, d); an.fnv(d, ga) });
            let mut l = vec![V::Undef; 21];
            l[3] = xv(vec![]);
            l[4] = at("in", 0);
            l[5] = V::Int(0);
            let ga = ty::GenericArgs::identity_for_item(tcx, ctor);
            l[6] = an.fnv(ctor, ga);
            l[7] = an.trait_method("Iterator", "next", t)?;
            l[8] = trait_for(an, "peek", t, &["PeekableIterator"])?;
            l[9] = inh(an, ob, "multipeek")?;
            l[10] = inh(an, mp, "peek_next")?;
            l[11] = inh(an, ob, "buffer_tokens_to_yield_first")?;
            l[12] = trait_for(an, "pos", t, &["PositionIterator"])?;
            l[13] = an.trait_method("Iterator", "size_hint", t)?;
            if let Some(d) = tcx.adt_destructor(mp) { let ga = ty::GenericArgs::identity_for_item(tcx, d.did); l[14] = an.fnv(d.did, ga); }
            let stream = V::Stream(Box::new(Stream { id: s("in"), ch: false, la: vec![], start: 2 }));
            l[19] = if wrap == Some("Buffered") { V::Ext("empty", vec![]) } else { V::Ext("raw", vec![stream, V::Int(0)]) };
            if let Some(w) = wrap {
                let v = tcx.adt_def(ob).variants().iter_enumerated().find(|(_, v)| v.name.as_str() == w)?.0.as_u32();
                l[20] = V::Adt(an.adt(ob), v, vec![]);
            }
            let mut st = St::default();
            st.frames.push(Frame { k: FK::Native("root"), bb: 0, t: false, locals: vec![V::Undef], dest: None, target: 0 });
            st.frames.push(Frame { k: FK::Native(op), bb: 0, t: false, locals: l, dest: None, target: 0 });
            Some(st)
        };
        match go() { Some(st) => vec![(vec![], st)], None => { *err.borrow_mut() = Some("an operation is missing".to_string()); vec![] } }
    });
    if let Some(e) = err.into_inner() { return Err(e) }
    match r {
        Ok(()) => { let g = an.graph(); Ok((an, g)) }
        Err(e) if std::env::var("CONCH_SA_HOT").is_ok() => { an.hot(); Err(format!("{e:?}")) }
        Err(e) => Err(format!("{e:?} at {}", an.site(an.cur_span))),
    }
}
