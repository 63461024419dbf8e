//! Abstract values.
use std::fmt::Write;
use std::rc::Rc;

/// A set of atoms (input symbols). 256 bits.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default, Debug)]
pub struct Mask(pub [u64; 4]);
impl Mask {
    pub const NONE: Mask = Mask([0; 4]);
    pub fn one(i: usize) -> Mask { let mut m = Mask([0; 4]); m.0[i / 64] |= 1 << (i % 64); m }
    pub fn has(&self, i: usize) -> bool { self.0[i / 64] >> (i % 64) & 1 == 1 }
    pub fn set(&mut self, i: usize) { self.0[i / 64] |= 1 << (i % 64) }
    pub fn and(&self, o: &Mask) -> Mask { Mask([self.0[0] & o.0[0], self.0[1] & o.0[1], self.0[2] & o.0[2], self.0[3] & o.0[3]]) }
    pub fn or(&self, o: &Mask) -> Mask { Mask([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]]) }
    pub fn sub(&self, o: &Mask) -> Mask { Mask([self.0[0] & !o.0[0], self.0[1] & !o.0[1], self.0[2] & !o.0[2], self.0[3] & !o.0[3]]) }
    pub fn is_empty(&self) -> bool { self.0 == [0; 4] }
    pub fn subset(&self, o: &Mask) -> bool { self.sub(o).is_empty() }
    pub fn disjoint(&self, o: &Mask) -> bool { self.and(o).is_empty() }
    pub fn count(&self) -> u32 { self.0.iter().map(|x| x.count_ones()).sum() }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ { (0..256).filter(move |i| self.has(*i)) }
    pub fn single(&self) -> Option<usize> { if self.count() == 1 { self.iter().next() } else { None } }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Sym { pub base: Rc<str>, pub age: u8, pub path: Rc<str>, pub tracked: bool }

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Base { Local(u16, u16), Const(Rc<V>) }

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum P { F(u16), BoxDeref, Idx(u16) }

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Pl { pub base: Base, pub proj: Vec<P> }

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Src { Peek(u8), Age(u8) }

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct El { pub st: Rc<str>, pub ch: bool, pub mask: Mask, pub src: Src }

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Slot { pub mask: Mask, pub rep: bool }

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Stream { pub id: Rc<str>, pub ch: bool, pub la: Vec<Slot>, pub start: u8 }

/// abstract vec / string: `len` is a set over {0, 1, 2+}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct VecV { pub len: u8, pub el: Vec<V>, pub flags: Rc<str> }

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum PosV { Start(bool), Cur, Before { ev: Rc<str>, age: u8 } }

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum V {
    Undef,
    Top,
    Int(i128),
    Str(Rc<str>),
    Adt(u32, u32, Vec<V>),
    Tup(Vec<V>),
    Arr(Vec<V>),
    Bx(Box<V>),
    Ref(Pl),
    Fn(u32),
    Clo(u32, Vec<V>),
    Sym(Sym),
    SymDisc(Sym, u32),
    El(El),
    ElDisc(El),
    Stream(Box<Stream>),
    /// multipeek cursor over the stream at a place
    Mp(Box<V>, u8),
    Pos(Rc<str>, PosV),
    Vec(Box<VecV>),
    /// native iterator / adapter object
    Ext(&'static str, Vec<V>),
}

pub fn s(x: &str) -> Rc<str> { Rc::from(x) }

impl V {
    pub fn unit() -> V { V::Tup(vec![]) }
    pub fn bool(b: bool) -> V { V::Int(b as i128) }
    pub fn sym(base: &str) -> V { V::Sym(Sym { base: s(base), age: 0, path: s(""), tracked: false }) }
    pub fn symt(base: &str, tracked: bool) -> V { V::Sym(Sym { base: s(base), age: 0, path: s(""), tracked }) }
    pub fn vec(len: u8, el: Vec<V>) -> V { V::Vec(Box::new(VecV { len, el, flags: s("") })) }
    pub fn visit_mut(&mut self, f: &mut dyn FnMut(&mut V)) {
        f(self);
        match self {
            V::Adt(_, _, v) | V::Tup(v) | V::Arr(v) | V::Clo(_, v) | V::Ext(_, v) => { for x in v { x.visit_mut(f) } }
            V::Bx(b) => b.visit_mut(f),
            V::Mp(b, _) => b.visit_mut(f),
            V::Vec(b) => { for x in b.el.iter_mut() { x.visit_mut(f) } }
            V::Ref(p) => {
                if let Base::Const(c) = &mut p.base {
                    let mut v = (**c).clone();
                    v.visit_mut(f);
                    if v != **c { *c = Rc::new(v); }
                }
            }
            _ => {}
        }
    }
    pub fn visit(&self, f: &mut dyn FnMut(&V)) {
        f(self);
        match self {
            V::Adt(_, _, v) | V::Tup(v) | V::Arr(v) | V::Clo(_, v) | V::Ext(_, v) => { for x in v { x.visit(f) } }
            V::Bx(b) => b.visit(f),
            V::Mp(b, _) => b.visit(f),
            V::Vec(b) => { for x in b.el.iter() { x.visit(f) } }
            V::Ref(p) => { if let Base::Const(c) = &p.base { c.visit(f) } }
            _ => {}
        }
    }
}

impl El { pub fn frozen(&self) -> bool { matches!(self.src, Src::Age(n) if n >= 10) } }
impl Sym {
    pub fn child(&self, p: &str) -> Sym {
        Sym { base: self.base.clone(), age: self.age, path: s(&format!("{}.{}", self.path, p)), tracked: self.tracked }
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        o.push_str(&self.base);
        if self.age >= 10 { if self.age > 10 { let _ = write!(o, "'{}", self.age - 10); } o.push('*'); }
        else if self.age > 0 { let _ = write!(o, "'{}", self.age); }
        o.push_str(&self.path);
        o
    }
}
