//! Exact vectors and texts: for functions whose data is small, where what matters is every element and its place.
use crate::hooks::Eqr;
use crate::interp::*;
use crate::val::*;
use rustc_middle::ty::{self, GenericArgsRef};
use rustc_span::def_id::DefId;
use std::rc::Rc;

pub fn xv(els: Vec<V>) -> V { V::Ext("xv", els) }
pub fn cref(v: V) -> V { V::Ref(Pl { base: Base::Const(Rc::new(v)), proj: vec![] }) }
/// concatenation of texts in a normal form
pub fn cat(a: &V, b: &V) -> V {
    let mut out: Vec<V> = vec![];
    for v in [a, b] {
        let parts: Vec<V> = match v { V::Ext("cat", p) => p.clone(), V::Str(x) if x.is_empty() => vec![], v => vec![v.clone()] };
        for p in parts {
            if let (Some(V::Str(l)), V::Str(r)) = (out.last(), &p) { let t = V::Str(s(&format!("{l}{r}"))); *out.last_mut().unwrap() = t; } else { out.push(p) }
        }
    }
    match out.len() { 0 => V::Str(s("")), 1 => out.pop().unwrap(), _ => V::Ext("cat", out) }
}

/// the pieces of a format template
fn template(t: &[V], args: &[V]) -> Option<Vec<V>> {
    let b: Vec<u8> = t.iter().map(|v| match v { V::Int(i) => Some(*i as u8), _ => None }).collect::<Option<_>>()?;
    let (mut i, mut k, mut out) = (0, 0, vec![]);
    loop {
        let c = *b.get(i)?;
        i += 1;
        match c {
            0 => return Some(out),
            1..=0x7f => { out.push(V::Str(s(std::str::from_utf8(b.get(i..i + c as usize)?).ok()?))); i += c as usize }
            0x80 => { let n = *b.get(i)? as usize | (*b.get(i + 1)? as usize) << 8; i += 2; out.push(V::Str(s(std::str::from_utf8(b.get(i..i + n)?).ok()?))); i += n }
            0xc0 => { out.push(args.get(k)?.clone()); k += 1 }
            0xc8 => { k = *b.get(i)? as usize | (*b.get(i + 1)? as usize) << 8; i += 2; out.push(args.get(k)?.clone()); k += 1 }
            _ => return None,
        }
    }
}

impl<'tcx> An<'tcx> {
    fn peel(&self, t: ty::Ty<'tcx>) -> ty::Ty<'tcx> {
        let mut t = t;
        loop {
            match t.kind() {
                ty::Ref(_, x, _) => t = *x,
                ty::Adt(ad, a) if ad.is_box() => t = a.type_at(0),
                _ => return t,
            }
        }
    }
    pub fn tname(&self, t: ty::Ty<'tcx>) -> String {
        match self.peel(t).kind() { ty::Adt(ad, _) => self.tcx.item_name(ad.did()).to_string(), ty::Slice(_) => "slice".into(), ty::Array(..) => "array".into(), ty::Str => "str".into(), ty::Char => "char".into(), _ => String::new() }
    }
    /// a symbolic vector takes each of its possible lengths, up to the bound of the analysis
    pub fn xsplit(&mut self, pre: &St, y: &Sym) -> Vec<(Vec<Lab>, St)> {
        let mut out = vec![];
        self.split_lists = true;
        for n in (0..=self.cfg.maxlen).chain(self.cfg.far.clone()) {
            let els = (0..n).map(|i| V::Sym(y.child(&format!("[{i}]")))).collect();
            let mut s2 = pre.clone();
            self.subst_v(&mut s2, y, &xv(els));
            out.push((vec![Lab::t(&format!("?{}=[{n}]", y.show()))], s2));
        }
        out
    }
    fn xpush(&mut self, st: &mut St, op: &'static str, locals: Vec<V>, cx: &Ctx) -> R<H> {
        st.frames.push(Frame { k: FK::Native(op), bb: 0, t: false, locals, dest: cx.dest.clone(), target: cx.target.unwrap_or(0) });
        Ok(H::Pushed)
    }
    fn xpanic(&mut self, st: &St, what: &str) -> R<H> {
        let f = self.cur_fn(st);
        let site = self.site(self.cur_span);
        self.panics.insert((format!("{f}: {what}"), site));
        Ok(H::Dead)
    }
    pub fn elref(&self, st: &St, pl: Option<&Pl>, i: usize, e: &V) -> V {
        match pl {
            Some(p) if matches!(self.get(st, p), Some(V::Ext("xv", _))) => { let mut q = p.clone(); q.proj.push(P::F(i as u16)); V::Ref(q) }
            _ => cref(e.clone()),
        }
    }
    fn text_of(&self, st: &St, v: &V) -> V {
        match self.deref(st, v) { V::Int(c) => V::Str(s(&char::from_u32(c as u32).unwrap_or('?').to_string())), V::Bx(b) => *b, v => v }
    }
    #[allow(clippy::too_many_arguments)]
    pub fn xhook(&mut self, st: &mut St, pre: &St, def: DefId, ga: GenericArgsRef<'tcx>, args: &[V], cx: &Ctx, owner: &str, name: &str) -> R<H> {
        if def.is_local() { return Ok(H::No) }
        let a0 = args.first().map(|a| self.deref(st, a)).unwrap_or(V::Undef);
        let pl = args.first().and_then(|a| self.deref_place(st, a));
        let t0 = ga.types().next();
        let tn = t0.map(|t| self.tname(t)).unwrap_or_default();
        let vecty = matches!(owner, "Vec" | "slice" | "VecDeque") || (matches!(owner, "IntoIterator" | "Index" | "IndexMut" | "Extend" | "Deref" | "AsRef" | "PartialEq" | "Default") && matches!(tn.as_str(), "Vec" | "slice" | "array"));
        if vecty && matches!(name, "len" | "is_empty") && t0 == Some(self.tcx.types.u8) && matches!(a0, V::Str(_)) { return self.xhook(st, pre, def, ga, args, cx, "str", name) }
        if vecty {
            if let V::Sym(y) = &a0 {
                match name {
                    "reserve" | "shrink_to_fit" | "reserve_exact" => return Ok(H::Val(V::unit())),
                    "deref" | "deref_mut" | "as_ref" | "as_slice" | "clone" | "to_vec" | "as_mut_slice" | "into_boxed_slice" | "into_vec" => return Ok(H::Val(args[0].clone())),
                    // the bytes of a text are no list
                    "len" | "is_empty" if t0 == Some(self.tcx.types.u8) => return self.xhook(st, pre, def, ga, args, cx, "str", name),
                    _ if t0 == Some(self.tcx.types.u8) => return Err(Stop::Fail("the bytes of a text".into())),
                    "eq" | "ne" if args.get(1).is_some_and(|x| matches!(self.deref(st, x), V::Sym(_))) => {}
                    _ => { let y = y.clone(); return Ok(H::Retry(self.xsplit(pre, &y))) }
                }
            }
        }
        match (owner, name) {
            ("Vec" | "VecDeque", "new" | "with_capacity" | "default") => return Ok(H::Val(xv(vec![]))),
            ("Default", "default") if tn == "Vec" || tn == "VecDeque" => return Ok(H::Val(xv(vec![]))),
            ("String", "new" | "with_capacity" | "default") => return Ok(H::Val(V::Str(s("")))),
            ("Rc" | "Arc", "from" | "new") => return Ok(H::Val(V::Bx(Box::new(args[0].clone())))),
            ("Box", "from") => return Ok(H::Val(V::Bx(Box::new(args[0].clone())))),
            ("mem", "take") => if let (V::Ext("xv", _), Some(p)) = (&a0, &pl) { self.set(st, p, xv(vec![])); return Ok(H::Val(a0)) },
            _ => {}
        }
        if name.starts_with("box_assume_init_into_vec") {
            let a = match &args[0] { V::Bx(b) => (**b).clone(), v => v.clone() };
            if let V::Tup(x) = &a { if let Some(V::Tup(y)) = x.get(1) { if let V::Arr(e) = &y[0] { return Ok(H::Val(xv(e.clone()))) } } }
        }
        if let ("slice" | "array", "get" | "index", V::Arr(e)) = (owner, name, &a0) {
            let n = e.len();
            let past = |l: &[V]| (0..n).all(|i| l.contains(&V::Int(i as i128)));
            match args.get(1).map(|i| self.deref(st, i)) {
                Some(V::Int(i)) if name == "get" => return Ok(H::Val(if (i as usize) < n { let r = self.elref(st, None, i as usize, &e[i as usize]); self.some(r) } else { self.none() })),
                Some(V::Ext("other", l)) if name == "get" && past(&l) => return Ok(H::Val(self.none())),
                Some(V::Sym(y)) if n <= 16 && name == "get" => { let v: Vec<i128> = (0..n as i128).collect(); return Ok(H::Retry(self.split_int(pre, &y, &v, true))) }
                _ => {}
            }
        }
        if let ("Vec" | "From", "from", V::Arr(e)) = (owner, name, &a0) { return Ok(H::Val(xv(e.clone()))) }
        if let V::Ext("xv", els) = &a0 {
            let n = els.len();
            let ix = |v: Option<&V>| match v { Some(V::Int(i)) if *i >= 0 => Some(*i as usize), _ => None };
            match name {
                "len" => return Ok(H::Val(V::Int(n as i128))),
                "is_empty" => return Ok(H::Val(V::bool(n == 0))),
                "reserve" | "shrink_to_fit" | "reserve_exact" => return Ok(H::Val(V::unit())),
                "capacity" => return Ok(H::Val(V::Top)),
                "deref" | "deref_mut" | "as_ref" | "as_mut" | "as_slice" | "as_mut_slice" | "borrow" | "borrow_mut" => return Ok(H::Val(args[0].clone())),
                "to_vec" | "clone" | "to_owned" | "into_boxed_slice" | "into_vec" => return Ok(H::Val(a0)),
                "into_iter" | "iter" | "iter_mut" => {
                    let byref = matches!(args[0], V::Ref(_));
                    let l = if byref { els.iter().enumerate().map(|(i, e)| self.elref(st, pl.as_ref(), i, e)).collect() } else { els.clone() };
                    return Ok(H::Val(V::Ext("xinto", l)));
                }
                "first" | "last" | "first_mut" | "last_mut" | "get" | "get_mut" | "front" | "front_mut" | "back" | "back_mut" => {
                    let i = if name.starts_with("f") { Some(0) } else if name.starts_with("last") || name.starts_with("back") { n.checked_sub(1) } else { match ix(args.get(1)) { Some(i) => Some(i), None => return Ok(H::Val(V::Top)) } };
                    return Ok(H::Val(match i { Some(i) if i < n => { let r = self.elref(st, pl.as_ref(), i, &els[i]); self.some(r) } _ => self.none() }));
                }
                "index" | "index_mut" => {
                    if let Some(i) = ix(args.get(1)) {
                        if i >= n { return self.xpanic(st, "index out of range") }
                        return Ok(H::Val(self.elref(st, pl.as_ref(), i, &els[i])));
                    }
                }
                _ => {}
            }
            if let Some(p) = &pl {
                let mut e = els.clone();
                let up = |an: &Self, st: &mut St, e: Vec<V>, v: V| -> R<H> { an.set(st, p, xv(e)); Ok(H::Val(v)) };
                match name {
                    "push" | "push_back" => { e.push(args[1].clone()); return up(self, st, e, V::unit()) }
                    "push_front" => { e.insert(0, args[1].clone()); return up(self, st, e, V::unit()) }
                    "pop" | "pop_back" => { let v = match e.pop() { Some(x) => self.some(x), None => self.none() }; return up(self, st, e, v) }
                    "pop_front" => { let v = if e.is_empty() { self.none() } else { let x = e.remove(0); self.some(x) }; return up(self, st, e, v) }
                    "clear" => return up(self, st, vec![], V::unit()),
                    "reverse" => { e.reverse(); return up(self, st, e, V::unit()) }
                    "swap" => if let (Some(i), Some(j)) = (ix(args.get(1)), ix(args.get(2))) {
                        if i >= n || j >= n { return self.xpanic(st, "index out of range") }
                        e.swap(i, j);
                        return up(self, st, e, V::unit());
                    },
                    "insert" => if let Some(i) = ix(args.get(1)) { if i > n { return self.xpanic(st, "insert out of range") } e.insert(i, args[2].clone()); return up(self, st, e, V::unit()) },
                    "remove" | "swap_remove" => if let Some(i) = ix(args.get(1)) {
                        if i >= n { return self.xpanic(st, "remove out of range") }
                        let x = if name == "remove" { e.remove(i) } else { e.swap_remove(i) };
                        return up(self, st, e, x);
                    },
                    "truncate" => if let Some(i) = ix(args.get(1)) { e.truncate(i); return up(self, st, e, V::unit()) },
                    "split_off" => if let Some(i) = ix(args.get(1)) { if i > n { return self.xpanic(st, "split out of range") } let t = e.split_off(i); return up(self, st, e, xv(t)) },
                    "append" => if let Some(q) = self.deref_place(st, &args[1]) {
                        let o = self.read(st, &q);
                        if let V::Sym(y) = &o { let y = y.clone(); return Ok(H::Retry(self.xsplit(pre, &y))) }
                        if let V::Ext("xv", o) = o { e.extend(o); self.set(st, &q, xv(vec![])); return up(self, st, e, V::unit()) }
                    },
                    "drain" => {
                        let (lo, hi) = match &args[1] {
                            V::Adt(a, _, f) => match (self.adt_name(*a).as_str(), &f[..]) {
                                ("RangeFull", _) => (0, n),
                                ("RangeFrom", [V::Int(i)]) => (*i as usize, n),
                                ("RangeTo", [V::Int(i)]) => (0, *i as usize),
                                ("Range", [V::Int(i), V::Int(j)]) => (*i as usize, *j as usize),
                                _ => return Ok(H::Val(V::Top)),
                            },
                            _ => return Ok(H::Val(V::Top)),
                        };
                        if lo > hi || hi > n { return self.xpanic(st, "drain out of range") }
                        let d: Vec<V> = e.drain(lo..hi).collect();
                        return up(self, st, e, V::Ext("xinto", d));
                    }
                    "extend" | "extend_from_slice" if args.len() == 2 => {
                        match self.deref(st, &args[1]) {
                            V::Ext("xinto" | "xv", l) => { let l: Vec<V> = l.iter().map(|x| if matches!(args[1], V::Ref(_)) || name == "extend_from_slice" { self.deref(st, x) } else { x.clone() }).collect(); e.extend(l); return up(self, st, e, V::unit()) }
                            V::Sym(y) => { let y = y.clone(); return Ok(H::Retry(self.xsplit(pre, &y))) }
                            it => {
                                let t = self.into_iter_ty(ga.types().last().unwrap());
                                if let Some(nf) = self.iter_next_fn(t) { let _ = it; return self.xpush(st, "xextend", vec![V::Undef, args[1].clone(), V::Ref(p.clone()), nf], cx) }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        // iterators over them
        if let V::Ext("xinto", els) = &a0 {
            let n = els.len();
            match name {
                "next" | "next_back" if pl.is_some() => {
                    let mut e = els.clone();
                    let v = if e.is_empty() { self.none() } else { let x = if name == "next" { e.remove(0) } else { e.pop().unwrap() }; self.some(x) };
                    self.set(st, pl.as_ref().unwrap(), V::Ext("xinto", e));
                    return Ok(H::Val(v));
                }
                "size_hint" => { let h = self.some(V::Int(n as i128)); return Ok(H::Val(V::Tup(vec![V::Int(n as i128), h]))) }
                "len" | "count" => return Ok(H::Val(V::Int(n as i128))),
                "rev" => { let mut e = els.clone(); e.reverse(); return Ok(H::Val(V::Ext("xinto", e))) }
                "into_iter" | "by_ref" | "fuse" => return Ok(H::Val(args[0].clone())),
                "last" => return Ok(H::Val(match els.last() { Some(x) => self.some(x.clone()), None => self.none() })),
                "cloned" | "copied" => { let e = els.iter().map(|x| self.deref(st, x)).collect(); return Ok(H::Val(V::Ext("xinto", e))) }
                _ => {}
            }
        }
        if matches!(name, "collect" | "from_iter") {
            let (it_t, out_t) = if name == "collect" { (ga.type_at(0), ga.types().nth(1).unwrap()) } else { (ga.types().last().unwrap(), ga.type_at(0)) };
            let it_t = self.into_iter_ty(it_t);
            let outn = self.tname(out_t);
            let op: Option<&'static str> = match (outn.as_str(), out_t.kind()) {
                ("Vec" | "slice", _) => Some("xcollect"),
                ("Result", ty::Adt(_, a)) if self.tname(a.type_at(0)) == "Vec" => Some("xcollectr"),
                ("Option", ty::Adt(_, a)) if self.tname(a.type_at(0)) == "Vec" => Some("xcollecto"),
                ("String", _) => Some("xconcat"),
                _ => None,
            };
            if let Some(op) = op {
                let start = if op == "xconcat" { V::Str(s("")) } else { xv(vec![]) };
                match &args[0] {
                    V::Ext("xv" | "xinto", e) if op == "xcollect" => return Ok(H::Val(xv(e.clone()))),
                    V::Sym(y) if op == "xcollect" => { let y = y.clone(); return Ok(H::Retry(self.xsplit(pre, &y))) }
                    _ => {}
                }
                let it = match &args[0] { V::Ext("xv", e) => V::Ext("xinto", e.clone()), x => x.clone() };
                if let Some(nf) = self.iter_next_fn(it_t) { return self.xpush(st, op, vec![V::Undef, it, start, nf], cx) }
            }
        }
        // formatting
        match (owner, name) {
            ("Argument", "new_display") if args.len() == 1 => {
                if let Some(f) = self.trait_method("Display", "fmt", ga.types().next().unwrap()) { return Ok(H::Val(V::Ext("fmtarg", vec![args[0].clone(), f]))) }
            }
            ("Arguments", "new") if args.len() == 2 => {
                let (t, a) = (self.deref(st, &args[0]), self.deref(st, &args[1]));
                if let (V::Arr(t), V::Arr(a)) = (&t, &a) {
                    if let Some(p) = template(t, a) { return Ok(H::Val(V::Ext("fmtargs", p))) }
                }
                return Ok(H::Val(V::Top));
            }
            ("Arguments", "from_str" | "new_const") => { let t = self.text_of(st, &args[0]); return Ok(H::Val(V::Ext("fmtargs", vec![t]))) }
            ("Formatter" | "Write" | "fmt", "write_fmt" | "write") if args.len() == 2 => {
                if let V::Ext("fmtargs", p) = self.deref(st, &args[1]) { return self.xpush(st, "xfmt", vec![V::Undef, V::Ext("xinto", p), args[0].clone()], cx) }
            }
            ("fmt", "format") => if let V::Ext("fmtargs", p) = self.deref(st, &args[0]) {
                let fi = st.frames.len() as u16;
                return self.xpush(st, "xformat", vec![V::Undef, V::Ext("xinto", p), V::Ref(Pl { base: Base::Local(fi, 3), proj: vec![] }), V::Ext("fmt", vec![V::Str(s(""))])], cx);
            },
            ("Display", "fmt") if args.len() == 2 => {
                let t = self.peel(ga.types().next().unwrap());
                if !matches!(t.kind(), ty::Adt(a, _) if a.did().is_local()) {
                    let x = match (t.kind(), &a0) {
                        (ty::Char, _) => self.text_of(st, &a0),
                        (ty::Bool, V::Int(i)) => V::Str(s(if *i == 0 { "false" } else { "true" })),
                        (_, V::Int(i)) => V::Str(s(&i.to_string())),
                        (_, V::Bx(b)) => (**b).clone(),
                        _ => a0.clone(),
                    };
                    if let Some(p) = self.deref_place(st, &args[1]) {
                        if let V::Ext("fmt", f) = self.read(st, &p) {
                            let n = cat(&f[0], &x);
                            self.set(st, &p, V::Ext("fmt", vec![n]));
                            let u = V::unit();
                            return Ok(H::Val(self.ok(u)));
                        }
                    }
                } else if let ty::Ref(..) = ga.types().next().unwrap().kind() {
                    if let Some(f) = self.trait_method("Display", "fmt", t) {
                        let r = match &pl { Some(p) => V::Ref(p.clone()), None => cref(a0.clone()) };
                        self.invoke(st, pre, f, vec![r, args[1].clone()], Ctx { dest: cx.dest.clone(), target: cx.target, span: cx.span })?;
                        return Ok(H::Pushed);
                    }
                }
            }
            ("Formatter", "pad") if args.len() == 2 => if let (Some(p), V::Ext("fmt", f)) = (&pl, &a0) {
                let n = cat(&f[0], &self.text_of(st, &args[1]));
                self.set(st, p, V::Ext("fmt", vec![n]));
                let u = V::unit();
                return Ok(H::Val(self.ok(u)));
            },
            _ => {}
        }
        // texts
        if matches!(owner, "String" | "str" | "Write" | "Formatter" | "Add" | "AddAssign") {
            match name {
                "push" | "push_str" | "write_str" | "write_char" | "add_assign" if args.len() == 2 => {
                    if let Some(p) = &pl {
                        if let V::Ext("fmt", f) = &a0 {
                            let n = cat(&f[0], &self.text_of(st, &args[1]));
                            self.set(st, p, V::Ext("fmt", vec![n]));
                            let u = V::unit();
                            return Ok(H::Val(self.ok(u)));
                        }
                        let n = cat(&a0, &self.text_of(st, &args[1]));
                        self.set(st, p, n);
                        let u = V::unit();
                        return Ok(H::Val(if name.starts_with("write") { self.ok(u) } else { u }));
                    }
                }
                "add" if args.len() == 2 => return Ok(H::Val(cat(&a0, &self.text_of(st, &args[1])))),
                "len" => match &a0 {
                    V::Str(x) => return Ok(H::Val(V::Int(x.len() as i128))),
                    V::Ext("cat", _) => { let t = self.show(st, &a0); return Ok(H::Val(V::sym(&format!("{t}.len")))) }
                    _ => {}
                },
                "is_empty" => match &a0 {
                    V::Str(x) => return Ok(H::Val(V::bool(x.is_empty()))),
                    V::Ext("cat", p) if p.iter().any(|x| matches!(x, V::Str(_))) => return Ok(H::Val(V::Int(0))),
                    V::Sym(_) | V::Ext("cat", _) => { let t = self.show(st, &a0); return Ok(H::Val(V::sym(&format!("Eq({t}.len,0)")))) }
                    _ => {}
                },
                "as_bytes" | "into_bytes" if matches!(a0, V::Str(_)) => return Ok(H::Val(args[0].clone())),
                "as_bytes" | "bytes" | "into_bytes" if matches!(a0, V::Sym(_) | V::Ext("cat", _)) => return Ok(H::Val(args[0].clone())),
                "reserve" | "shrink_to_fit" => return Ok(H::Val(V::unit())),
                "chars" if matches!(a0, V::Sym(_) | V::Ext("cat", _)) => return Ok(H::Val(V::Ext("chars", vec![a0]))),
                _ => {}
            }
        }
        if let V::Ext("cat", _) = &a0 {
            if matches!(name, "clone" | "to_string" | "to_owned" | "into" | "from" | "as_str" | "deref" | "as_ref" | "borrow" | "into_boxed_str" | "into_string") { return Ok(H::Val(a0)) }
        }
        // the number of characters of a text with a property
        if let V::Ext("chars", t) = &a0 {
            match name {
                "filter" => if let Some(m) = self.pred_mask(&args[1])? { return Ok(H::Val(V::Ext("charsf", vec![t[0].clone(), V::Str(s(&crate::hooks::show_chars(&m)))]))) },
                "count" => { let t = self.show(st, &t[0]); return Ok(H::Val(V::sym(&format!("count({t})")))) }
                _ => {}
            }
        }
        if let (V::Ext("charsf", t), "count") = (&a0, name) {
            let x = self.show(st, &t[0]);
            let V::Str(m) = &t[1] else { return Ok(H::No) };
            return Ok(H::Val(V::sym(&format!("count({x} in {m})"))));
        }
        Ok(H::No)
    }
    /// what is left uninterpreted is taken for the identity when it is a conversion
    pub fn xfallback(&mut self, st: &mut St, def: DefId, ga: GenericArgsRef<'tcx>, args: &[V]) -> Option<H> {
        let sh = self.short(def);
        match sh.as_ref() {
            "From::from" | "Into::into" if args.len() == 1 => return Some(H::Val(args[0].clone())),
            _ => {}
        }
        // a method of a builder that is not known, or that calls itself
        let tr = match self.tcx.opt_parent(def) {
            Some(p) => match self.tcx.def_kind(p) {
                rustc_hir::def::DefKind::Trait => Some(p),
                rustc_hir::def::DefKind::Impl { of_trait: true } => Some(self.tcx.impl_trait_id(p)),
                _ => None,
            },
            None => None,
        };
        if let Some(t) = tr { if t.is_local() && self.tcx.item_name(t).as_str() == "Builder" { return Some(H::Multi(self.builder_call(st, def, ga, args))) } }
        None
    }
    pub fn xnative(&mut self, st: &mut St, op: &'static str, stage: u32) -> R<Out> {
        let fi = (st.frames.len() - 1) as u16;
        let loc = |i: u16| Pl { base: Base::Local(fi, i), proj: vec![] };
        let pre = st.clone();
        let done = |an: &mut Self, st: &mut St, v: V| -> R<Out> {
            let fr = st.frames.pop().unwrap();
            if let Some(d) = &fr.dest { an.set(st, d, v); }
            let f = st.frames.last_mut().unwrap();
            f.bb = fr.target; f.t = false;
            Ok(Out::Cont)
        };
        if op == "xfmt" || op == "xformat" {
            if stage == 1 {
                match std::mem::replace(&mut st.frames[fi as usize].locals[0], V::Undef) {
                    V::Adt(_, 0, _) => {}
                    e @ V::Adt(_, 1, _) => return done(self, st, e),
                    _ => return Err(Stop::Fail("formatting of unknown outcome".into())),
                }
                st.frames[fi as usize].bb = 0;
            }
            let V::Ext(_, mut p) = st.frames[fi as usize].locals[1].clone() else { return Err(Stop::Fail(op.into())) };
            let dst = st.frames[fi as usize].locals[2].clone();
            if p.is_empty() {
                if op == "xformat" { let V::Ext(_, mut f) = st.frames[fi as usize].locals[3].clone() else { return Err(Stop::Fail(op.into())) }; return done(self, st, f.pop().unwrap()) }
                let u = V::unit();
                let v = self.ok(u);
                return done(self, st, v);
            }
            let x = p.remove(0);
            st.frames[fi as usize].locals[1] = V::Ext("xinto", p);
            match x {
                V::Ext("fmtarg", a) => {
                    let cx = Ctx { dest: Some(loc(0)), target: Some(1), span: self.cur_span };
                    return self.invoke(st, &pre, a[1].clone(), vec![a[0].clone(), dst], cx);
                }
                x => {
                    let Some(pl) = self.deref_place(st, &dst) else { return Err(Stop::Fail(op.into())) };
                    match self.read(st, &pl) {
                        V::Ext("fmt", f) => { let n = cat(&f[0], &x); self.set(st, &pl, V::Ext("fmt", vec![n])) }
                        o => { let n = cat(&o, &x); self.set(st, &pl, n) }
                    }
                    return Ok(Out::Cont);
                }
            }
        }
        if stage == 0 {
            let f = st.frames[fi as usize].locals[3].clone();
            let cx = Ctx { dest: Some(loc(0)), target: Some(1), span: self.cur_span };
            return self.invoke(st, &pre, f, vec![V::Ref(loc(1))], cx);
        }
        let r = std::mem::replace(&mut st.frames[fi as usize].locals[0], V::Undef);
        let item = match r {
            V::Adt(_, 0, _) => None,
            V::Adt(_, 1, mut f) => f.pop(),
            _ => return Err(Stop::Fail(format!("iterator of unknown shape in {op}"))),
        };
        st.frames[fi as usize].bb = 0;
        let acc = st.frames[fi as usize].locals[2].clone();
        let Some(x) = item else {
            let v = match op { "xextend" => V::unit(), "xcollectr" => self.ok(acc), "xcollecto" => self.some(acc), _ => acc };
            return done(self, st, v);
        };
        let x = match op {
            "xcollectr" => match x { V::Adt(_, 0, mut f) => f.pop().unwrap(), e @ V::Adt(_, 1, _) => return done(self, st, e), _ => return Err(Stop::Fail("result of unknown shape".into())) },
            "xcollecto" => match x { V::Adt(_, 1, mut f) => f.pop().unwrap(), e @ V::Adt(_, 0, _) => return done(self, st, e), _ => return Err(Stop::Fail("option of unknown shape".into())) },
            _ => x,
        };
        match (op, acc) {
            ("xconcat", a) => { let x = self.text_of(st, &x); st.frames[fi as usize].locals[2] = cat(&a, &x); }
            ("xextend", r) => {
                let Some(p) = self.deref_place(st, &r) else { return Err(Stop::Fail(op.into())) };
                let V::Ext("xv", mut e) = self.read(st, &p) else { return Err(Stop::Fail(op.into())) };
                e.push(x);
                self.set(st, &p, xv(e));
            }
            (_, V::Ext("xv", mut e)) => { if e.len() > self.cfg.far.last().copied().unwrap_or(0).max(40) { return Err(Stop::Fail("vector without bound".into())) } e.push(x); st.frames[fi as usize].locals[2] = xv(e); }
            _ => return Err(Stop::Fail(op.into())),
        }
        Ok(Out::Cont)
    }
    pub fn xeq(&mut self, st: &St, pre: &St, a: &[V], b: &[V]) -> R<Eqr> { if a.len() != b.len() { Ok(Eqr::B(false)) } else { self.eq_list(st, pre, a, b) } }
}
