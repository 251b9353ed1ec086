//! Reader for textual LLVM IR (the subset rustc emits), compiled lazily, function by function.
use crate::fx::FxMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Void, I(u32), F32, F64, Ptr, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vec(u32, Rc<Ty>), Meta }

impl Ty {
    pub fn bits(&self) -> u32 { match self { Ty::I(n) => *n, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, Ty::Vec(n, t) => n * t.bits(), _ => 0 } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(n) => { let b = (*n as u64 + 7) / 8; b.next_power_of_two().min(16) }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(v, packed) => if *packed { 1 } else { v.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::I(n) => { let b = (*n as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for t in v.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 { if let Ty::I(n) = self { (*n as u64 + 7) / 8 } else { self.size() } }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for (k, t) in v.iter().enumerate() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } if k == i { return (o, t.clone()); } o += t.size(); }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn count(&self) -> usize { match self { Ty::Struct(v, _) => v.len(), Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => 0 } }
    pub fn scalar(&self) -> bool { matches!(self, Ty::I(n) if *n <= 64) || matches!(self, Ty::F32 | Ty::F64 | Ty::Ptr) }
}

/// Constants after address resolution.
#[derive(Clone, Debug)]
pub enum Cv { N(u64), W(u128), A(Rc<Vec<Cv>>), Bytes(Rc<Vec<u8>>) }

#[derive(Clone, Debug)]
pub enum O { R(u32), C(u64), K(Rc<Cv>) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast { Zext, Sext, Trunc, Bit, PtrInt }

pub struct Edge { pub to: u32, pub moves: Vec<(u32, O)> }

pub enum Callee { Direct(u64), Name(Rc<str>), Ind(O), Asm(bool) }

pub struct CallI { pub d: Option<u32>, pub ret: Ty, pub callee: Callee, pub args: Vec<O>, pub argty: Vec<Ty>, pub cache: std::cell::Cell<u32> }

pub enum I {
    Bin { op: Bin, w: u32, d: u32, a: O, b: O },
    Icmp { p: Pred, w: u32, d: u32, a: O, b: O },
    VBin { op: Bin, ty: Ty, d: u32, a: O, b: O },
    VIcmp { p: Pred, ty: Ty, d: u32, a: O, b: O },
    FBin { op: u8, ty: Ty, d: u32, a: O, b: O },
    Fcmp { p: Rc<str>, ty: Ty, d: u32, a: O, b: O },
    Load { ty: Ty, n: u32, d: u32, p: O },
    Store { ty: Ty, n: u32, v: O, p: O },
    Gep { d: u32, p: O, off: i64, idx: Vec<(O, i64, u32)> },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: O },
    FCast { k: Rc<str>, from: Ty, to: Ty, d: u32, a: O },
    Select { ty: Ty, cw: bool, d: u32, c: O, a: O, b: O },
    Alloca { d: u32, off: u32 },
    Call(Box<CallI>),
    Br(u32),
    CBr(O, u32, u32),
    Switch { w: u32, v: O, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<O>),
    Unreachable,
    Extract { d: u32, a: O, path: Vec<u32> },
    Insert { d: u32, a: O, v: O, path: Vec<u32>, ty: Ty },
    InsElem { d: u32, a: O, v: O, i: O, ty: Ty },
    ExtElem { d: u32, a: O, i: O },
    Shuffle { d: u32, a: O, b: O, n: u32, m: Vec<u32> },
    Rmw { d: u32, op: Rc<str>, p: O, v: O, ty: Ty },
    Cx { d: u32, p: O, c: O, n: O, ty: Ty },
    Copy { d: u32, a: O },
    Nop,
    Bad(Rc<str>),
}

pub struct Block { pub start: u32, pub end: u32, pub succ: Vec<u32>, pub phis: Vec<u32> }

pub struct Func {
    pub name: Rc<str>,
    pub module: usize,
    pub ins: Vec<I>,
    pub blocks: Vec<Block>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub nparams: u32,
    pub frame: u32,
    pub allocas: Vec<(u32, u32)>,
    pub ret: Ty,
    /// reverse post-order number, enclosing loop headers (outermost first) and join flag of each block
    pub rpo: Vec<u32>,
    pub loops: Vec<Vec<u32>>,
    pub join: Vec<bool>,
    pub block_of: Vec<u32>,
    pub live: std::cell::RefCell<Option<Rc<Vec<Vec<u64>>>>>,
    pub block_names: Vec<String>,
    pub icpt: std::cell::Cell<u8>,
    pub regty: Vec<Ty>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum T<'a> { Word(&'a str), Local(&'a str), Global(&'a str), Num(&'a str), Str(&'a str), CStr(&'a str), P(u8), Meta, NL, Eof }

struct Lex<'a> { s: &'a str, p: usize }

fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lex<'a> {
    fn next(&mut self) -> T<'a> {
        let b = self.s.as_bytes();
        loop {
            if self.p >= b.len() { return T::Eof; }
            match b[self.p] {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b';' => while self.p < b.len() && b[self.p] != b'\n' { self.p += 1 },
                _ => break,
            }
        }
        let st = self.p;
        match b[st] {
            b'\n' => { self.p += 1; T::NL }
            b'%' | b'@' => {
                let loc = b[st] == b'%';
                self.p += 1;
                let n = if b[self.p] == b'"' { self.quoted() } else { let s0 = self.p; while self.p < b.len() && idc(b[self.p]) { self.p += 1 } &self.s[s0..self.p] };
                if loc { T::Local(n) } else { T::Global(n) }
            }
            b'"' => T::Str(self.quoted()),
            b'c' if b.get(st + 1) == Some(&b'"') => { self.p += 1; T::CStr(self.quoted()) }
            b'!' => {
                self.p += 1;
                if self.p < b.len() && b[self.p] == b'{' { return T::Meta; }
                if self.p < b.len() && b[self.p] == b'"' { self.quoted(); return T::Meta; }
                while self.p < b.len() && idc(b[self.p]) { self.p += 1 }
                T::Meta
            }
            b'#' => { self.p += 1; while self.p < b.len() && idc(b[self.p]) { self.p += 1 } T::Word("#") }
            c if c == b'-' || c.is_ascii_digit() => {
                self.p += 1;
                while self.p < b.len() && (b[self.p].is_ascii_alphanumeric() || b[self.p] == b'.' || ((b[self.p] == b'+' || b[self.p] == b'-') && (b[self.p - 1] | 32) == b'e' && !self.s[st..].starts_with("0x"))) { self.p += 1 }
                T::Num(&self.s[st..self.p])
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                while self.p < b.len() && idc(b[self.p]) { self.p += 1 }
                T::Word(&self.s[st..self.p])
            }
            c => { self.p += 1; T::P(c) }
        }
    }
    fn quoted(&mut self) -> &'a str {
        let b = self.s.as_bytes();
        self.p += 1;
        let s0 = self.p;
        while b[self.p] != b'"' { self.p += 1 }
        let r = &self.s[s0..self.p];
        self.p += 1;
        r
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while i < b.len() {
        if b[i] == b'\\' { if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else { o.push(h(b[i + 1]) << 4 | h(b[i + 2])); i += 3; } }
        else { o.push(b[i]); i += 1; }
    }
    o
}

pub struct Global { pub name: Rc<str>, pub addr: u64, pub size: u64, pub konst: bool, pub external: bool, line: (usize, usize) }

pub struct Module {
    pub idx: usize,
    pub text: &'static str,
    pub globals: Vec<Global>,
    pub gmap: FxMap<&'static str, u32>,
    /// offset >> 4 -> global index
    pub page: Vec<u32>,
    pub gsize: u64,
    pub fdefs: Vec<(&'static str, usize, usize)>,
    pub fmap: FxMap<&'static str, u32>,
    /// external functions, numbered after the defined ones
    pub fdecl: Vec<&'static str>,
}

pub const GBASE: u64 = 0x6000_0000;
pub const FBASE: u64 = 0x4000_0000;

impl Module {
    pub fn load(idx: usize, text: &'static str) -> Module {
        let empty = || Module { idx, text, globals: vec![], gmap: FxMap::default(), page: vec![], gsize: 0, fdefs: vec![], fmap: FxMap::default(), fdecl: vec![] };
        let dummy: &'static Module = Box::leak(Box::new(empty()));
        let mut m = empty();
        let b = text.as_bytes();
        let mut p = 0;
        let mut glines = vec![];
        while p < b.len() {
            let e = memchr(b, p);
            match b[p] {
                b'@' => glines.push((p, e)),
                b'd' if text[p..].starts_with("define") => {
                    let name = fname(&text[p..e]);
                    let st = p;
                    let mut q = e + 1;
                    loop { let e2 = memchr(b, q); if b[q] == b'}' { p = q; break; } q = e2 + 1; }
                    m.fmap.insert(name, m.fdefs.len() as u32);
                    m.fdefs.push((name, st, p));
                    p = memchr(b, p) + 1;
                    continue;
                }
                b'd' if text[p..].starts_with("declare") => { let n = fname(&text[p..e]); m.fdecl.push(n); }
                _ => {}
            }
            p = e + 1;
        }
        let nd = m.fdefs.len() as u32;
        for (i, n) in m.fdecl.iter().enumerate() { m.fmap.entry(n).or_insert(nd + i as u32); }
        // lay out globals
        let mut off = 16u64;
        for (s, e) in glines {
            let l = &text[s..e];
            if l.starts_with("@llvm.") { continue; }
            let mut ps = P::new(l, dummy);
            let name = match ps.next() { T::Global(n) => n, t => panic!("global {:?}", t) };
            ps.expect(b'=');
            let mut external = false;
            let konst;
            loop {
                match ps.next() {
                    T::Word("external") | T::Word("extern_weak") => external = true,
                    T::Word("global") => { konst = false; break; }
                    T::Word("constant") => { konst = true; break; }
                    T::Word("addrspace") => { ps.skip_parens(); }
                    T::Word(_) => { if ps.peek() == T::P(b'(') { ps.skip_parens(); } }
                    t => panic!("global line {:?} {}", t, l),
                }
            }
            let pos = ps.save();
            let ty = ps.ty();
            let size = ty.size();
            let gi = m.globals.len() as u32;
            m.gmap.insert(name, gi);
            m.globals.push(Global { name: name.into(), addr: ((GBASE + idx as u64) << 32) + off, size, konst, external, line: (s + pos, e) });
            let slots = (size + 15) / 16 + 1;
            m.page.resize((off >> 4) as usize, u32::MAX);
            for _ in 0..slots { m.page.push(gi); }
            off += slots * 16;
        }
        m.gsize = off;
        m
    }
    pub fn faddr(&self, i: u32) -> u64 { ((FBASE + self.idx as u64) << 32) + (i as u64 + 1) * 16 }
    /// Initial bytes of a global.
    pub fn init(&self, i: usize) -> Vec<u8> {
        let g = &self.globals[i];
        let mut out = vec![0u8; g.size as usize];
        if g.external { return out; }
        let mut ps = P::new(&self.text[g.line.0..g.line.1], self);
        let ty = ps.ty();
        let c = ps.konst(&ty);
        fill(&mut out, 0, &ty, &c);
        out
    }
    pub fn compile(&self, i: usize) -> Func {
        let (name, s, e) = self.fdefs[i];
        let mut ps = P::new(&self.text[s..e], self);
        ps.func(name)
    }
}

fn memchr(b: &[u8], mut p: usize) -> usize {
    // plain word-at-a-time newline search
    while p < b.len() && b[p] != b'\n' { p += 1 }
    p
}

fn fname(l: &'static str) -> &'static str {
    // first '@' outside quotes that is followed by name and '('
    let b = l.as_bytes();
    let mut i = 0;
    loop {
        if b[i] == b'@' {
            let mut lx = Lex { s: l, p: i };
            if let T::Global(n) = lx.next() { return n; }
        }
        if b[i] == b'"' { i += 1; while b[i] != b'"' { i += 1 } }
        i += 1;
    }
}

fn fill(out: &mut [u8], off: usize, ty: &Ty, c: &Cv) {
    match c {
        Cv::N(v) => {
            if ty.scalar() { let n = ty.store_size() as usize; out[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]); }
            else if *v != 0 { panic!("aggregate constant {:?}", ty) }
        }
        Cv::W(v) => { let n = ty.store_size() as usize; out[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]); }
        Cv::Bytes(b) => out[off..off + b.len()].copy_from_slice(b),
        Cv::A(v) => for (i, x) in v.iter().enumerate() { let (o, t) = ty.field(i); fill(out, off + o as usize, &t, x); },
    }
}

struct P<'a> { lx: Lex<'a>, pk: Option<T<'a>>, m: &'a Module, regs: FxMap<&'a str, u32>, ftys: Vec<Ty> }

impl<'a> P<'a> {
    fn new(s: &'a str, m: &'a Module) -> P<'a> { P { lx: Lex { s, p: 0 }, pk: None, m, regs: FxMap::default(), ftys: vec![] } }
    fn next(&mut self) -> T<'a> { if let Some(t) = self.pk.take() { return t; } self.lx.next() }
    fn peek(&mut self) -> T<'a> { if self.pk.is_none() { self.pk = Some(self.lx.next()); } self.pk.unwrap() }
    fn save(&mut self) -> usize { assert!(self.pk.is_none()); self.lx.p }
    fn expect(&mut self, c: u8) { let t = self.next(); if t != T::P(c) { let p = self.lx.p; panic!("expected '{}' got {:?} near ...{}", c as char, t, &self.lx.s[p.saturating_sub(200)..(p + 60).min(self.lx.s.len())]) } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == T::P(c) { self.next(); true } else { false } }
    fn eatw(&mut self, w: &str) -> bool { if self.peek() == T::Word(w) { self.next(); true } else { false } }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 { match self.next() { T::P(b'(') => d += 1, T::P(b')') => d -= 1, T::Eof => panic!("eof in parens"), _ => {} } }
    }
    fn eol(&mut self) { loop { match self.next() { T::NL | T::Eof => return, _ => {} } } }
    fn num(&mut self) -> u64 { match self.next() { T::Num(n) => n.parse::<u64>().unwrap_or_else(|_| panic!("num {}", n)), t => panic!("num {:?}", t) } }
    fn reg(&mut self, n: &'a str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }

    fn ty(&mut self) -> Ty {
        let t = self.next();
        let mut r = match t {
            T::Word("void") => Ty::Void, T::Word("ptr") => Ty::Ptr, T::Word("float") => Ty::F32, T::Word("double") => Ty::F64, T::Word("metadata") => Ty::Meta, T::Word("label") => Ty::Meta,
            T::Word(w) if w.starts_with('i') => Ty::I(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
            T::P(b'[') => { let n = self.num(); assert!(self.eatw("x")); let e = self.ty(); self.expect(b']'); Ty::Arr(n, Rc::new(e)) }
            T::P(b'<') => {
                if self.eat(b'{') { let v = self.tylist(); self.expect(b'>'); Ty::Struct(Rc::new(v), true) }
                else { let n = self.num(); assert!(self.eatw("x")); let e = self.ty(); self.expect(b'>'); Ty::Vec(n as u32, Rc::new(e)) }
            }
            T::P(b'{') => { let v = self.tylist(); Ty::Struct(Rc::new(v), false) }
            t => { let p = self.lx.p; panic!("type {:?} near ...{}", t, &self.lx.s[p.saturating_sub(200)..(p + 60).min(self.lx.s.len())]) }
        };
        if self.peek() == T::P(b'(') { self.skip_parens(); r = r; }
        r
    }
    fn tylist(&mut self) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(b'}') { return v; }
        loop { v.push(self.ty()); if self.eat(b'}') { return v; } self.expect(b','); }
    }
    fn int(&self, s: &str, w: u32) -> Cv {
        let neg = s.starts_with('-');
        let d = if neg { &s[1..] } else { s };
        let v: u128 = if let Some(h) = d.strip_prefix("0x") { u128::from_str_radix(h, 16).unwrap() } else { d.parse().unwrap_or_else(|_| panic!("int {}", s)) };
        let v = if neg { v.wrapping_neg() } else { v };
        if w > 64 { Cv::W(if w >= 128 { v } else { v & ((1u128 << w) - 1) }) } else { Cv::N(v as u64 & crate::expr::mask(w)) }
    }
    fn fnum(&self, s: &str, ty: &Ty) -> Cv {
        let d: f64 = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse().unwrap() };
        if *ty == Ty::F32 { Cv::N((d as f32).to_bits() as u64) } else { Cv::N(d.to_bits()) }
    }
    fn zero(&self, ty: &Ty) -> Cv {
        match ty { Ty::I(n) if *n > 64 => Cv::W(0), Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
            if let Ty::Arr(n, t) = ty { if **t == Ty::I(8) { return Cv::Bytes(Rc::new(vec![0; *n as usize])); } }
            Cv::A(Rc::new((0..ty.count()).map(|i| { let t = match ty { Ty::Struct(v, _) => v[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => unreachable!() }; self.zero(&t) }).collect()))
        } _ => Cv::N(0) }
    }
    fn gaddr(&self, n: &str) -> u64 {
        if let Some(i) = self.m.gmap.get(n) { return self.m.globals[*i as usize].addr; }
        if let Some(i) = self.m.fmap.get(n) { return self.m.faddr(*i); }
        panic!("unknown global {}", n)
    }
    fn konst(&mut self, ty: &Ty) -> Cv { let t = self.next(); self.konst_t(t, ty) }
    fn typed_const(&mut self) -> (Ty, Cv) { let t = self.ty(); let c = self.konst(&t); (t, c) }
    fn cn(c: &Cv) -> u64 { match c { Cv::N(v) => *v, c => panic!("scalar const {:?}", c) } }
    fn konst_t(&mut self, t: T<'a>, ty: &Ty) -> Cv {
        match t {
            T::P(b'+') => { // +1.5e+00, +inf, +qnan, +nan(0x...)
                let d = match self.next() { T::Num(s) => return self.fnum(s, ty), T::Word("inf") => f64::INFINITY, T::Word(_) => { if self.peek() == T::P(b'(') { self.skip_parens(); } f64::NAN } t => panic!("float const {:?}", t) };
                if *ty == Ty::F32 { Cv::N((d as f32).to_bits() as u64) } else { Cv::N(d.to_bits()) }
            }
            T::Num(s) if s.starts_with("-nan") || s.starts_with("-qnan") || s.starts_with("-snan") => {
                if self.peek() == T::P(b'(') { self.skip_parens(); }
                if *ty == Ty::F32 { Cv::N((-f32::NAN).to_bits() as u64) } else { Cv::N((-f64::NAN).to_bits()) }
            }
            T::Num(s) => match ty { Ty::I(w) => self.int(s, *w), Ty::F32 | Ty::F64 => self.fnum(s, ty), _ => panic!("num const of {:?}", ty) },
            T::Word("true") => Cv::N(1), T::Word("false") => Cv::N(0), T::Word("null") => Cv::N(0),
            T::Word("undef") | T::Word("poison") | T::Word("zeroinitializer") => self.zero(ty),
            T::Global(n) => Cv::N(self.gaddr(n)),
            T::Word(w) if w.starts_with("f0x") => { let b = u64::from_str_radix(&w[3..], 16).unwrap(); if *ty == Ty::F32 && w.len() > 11 { Cv::N((f64::from_bits(b) as f32).to_bits() as u64) } else { Cv::N(b) } }
            T::CStr(s) => Cv::Bytes(Rc::new(unescape(s))),
            T::P(b'[') | T::P(b'{') => self.agg(if t == T::P(b'[') { b']' } else { b'}' }),
            T::P(b'<') => { if self.eat(b'{') { let r = self.agg(b'}'); self.expect(b'>'); r } else { self.agg(b'>') } }
            T::Word("splat") => { self.expect(b'('); let (_, c) = self.typed_const(); self.expect(b')'); Cv::A(Rc::new(vec![c; ty.count()])) }
            T::Word("inttoptr") | T::Word("ptrtoint") | T::Word("bitcast") | T::Word("addrspacecast") => { self.expect(b'('); let (_, c) = self.typed_const(); assert!(self.eatw("to")); let t2 = self.ty(); self.expect(b')'); match c { Cv::N(v) => Cv::N(v & crate::expr::mask(t2.bits())), c => c } }
            T::Word("trunc") => { self.expect(b'('); let (_, c) = self.typed_const(); assert!(self.eatw("to")); let t2 = self.ty(); self.expect(b')'); Cv::N(Self::cn(&c) & crate::expr::mask(t2.bits())) }
            T::Word(op @ ("sub" | "add" | "xor" | "mul")) => {
                while matches!(self.peek(), T::Word("nuw") | T::Word("nsw")) { self.next(); }
                self.expect(b'('); let (t1, a) = self.typed_const(); self.expect(b','); let (_, b) = self.typed_const(); self.expect(b')');
                let (a, b) = (Self::cn(&a), Self::cn(&b));
                Cv::N(match op { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), _ => a ^ b } & crate::expr::mask(t1.bits()))
            }
            T::Word("getelementptr") => {
                while self.peek() != T::P(b'(') { self.next(); if self.peek() == T::P(b'(') && false { break; } }
                // inrange(...) also has parens: distinguish by checking what follows
                let save = (self.lx.p, self.pk);
                self.expect(b'(');
                if matches!(self.peek(), T::Num(_)) { // inrange(a, b)
                    self.lx.p = save.0; self.pk = save.1; self.skip_parens();
                    while self.peek() != T::P(b'(') { self.next(); }
                    self.expect(b'(');
                }
                let sty = self.ty(); self.expect(b',');
                let (_, base) = self.typed_const();
                let mut off = 0i64;
                let mut cur = sty.clone(); let mut first = true;
                while self.eat(b',') {
                    while matches!(self.peek(), T::Word("inrange")) { self.next(); if self.peek() == T::P(b'(') { self.skip_parens(); } }
                    let (it, c) = self.typed_const();
                    let v = crate::expr::sx(Self::cn(&c), it.bits());
                    if first { off += v * sty.size() as i64; first = false; } else {
                        match &cur { Ty::Struct(..) => { let (o, t) = cur.field(v as usize); off += o as i64; cur = t; } Ty::Arr(_, t) | Ty::Vec(_, t) => { let t = (**t).clone(); off += v * t.size() as i64; cur = t; } _ => panic!("gep const") }
                    }
                }
                self.expect(b')');
                Cv::N(Self::cn(&base).wrapping_add(off as u64))
            }
            t => { let p = self.lx.p; panic!("const {:?} of {:?} near ...{}", t, ty, &self.lx.s[p.saturating_sub(200)..(p + 60).min(self.lx.s.len())]) }
        }
    }
    fn agg(&mut self, close: u8) -> Cv {
        let mut v = vec![];
        if !self.eat(close) { loop { let (_, c) = self.typed_const(); v.push(c); if self.eat(close) { break; } self.expect(b','); } }
        Cv::A(Rc::new(v))
    }
    fn op(&mut self, ty: &Ty) -> O {
        match self.next() {
            T::Local(n) => O::R(self.reg(n)),
            t => match self.konst_t(t, ty) { Cv::N(v) => O::C(v), c => O::K(Rc::new(c)) },
        }
    }
    fn top(&mut self) -> (Ty, O) { let t = self.ty(); self.skip_attrs(); let o = self.op(&t); (t, o) }
    /// Skips parameter attributes up to the operand.
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                T::Word("true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "getelementptr") => return,
                T::Word("align") => { self.next(); if self.peek() == T::P(b'(') { self.skip_parens(); } else { self.next(); } }
                T::Word(_) => { self.next(); if self.peek() == T::P(b'(') { self.skip_parens(); } }
                T::Str(_) => { self.next(); if self.eat(b'=') { self.next(); } }
                _ => return,
            }
        }
    }

    fn func(&mut self, name: &'a str) -> Func {
        // header
        let mut ret = Ty::Void;
        loop {
            match self.peek() {
                T::Global(_) => { self.next(); break; }
                T::Word("void" | "ptr" | "float" | "double") | T::P(b'[') | T::P(b'{') | T::P(b'<') => { ret = self.ty(); }
                T::Word(w) if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => { ret = self.ty_noparen(); }
                _ => { self.next(); if self.peek() == T::P(b'(') { self.skip_parens(); } }
            }
        }
        self.expect(b'(');
        let mut nparams = 0; let mut unnamed = 0;
        if !self.eat(b')') {
            loop {
                if self.eat(b'.') { break; }
                let pt = self.ty();
                self.skip_attrs();
                self.ftys.push(pt);
                match self.next() { T::Local(n) => { if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } let r = self.reg(n); assert_eq!(r, nparams); nparams += 1; } t => panic!("param {:?}", t) }
                if self.eat(b')') { break; }
                self.expect(b',');
            }
        }
        self.eol();
        let mut bnames: FxMap<&'a str, u32> = FxMap::default();
        let mut names: Vec<String> = vec![];
        // pre-scan block labels
        {
            let s = self.lx.s; let b = s.as_bytes();
            let mut p = self.lx.p; let mut first = true;
            while p < b.len() {
                let e = memchr(b, p);
                if e > p && b[p] == b';' { p = e + 1; continue; }
                if e > p && b[p] != b' ' && b[p] != b'\t' {
                    let l = &s[p..e];
                    let n = if l.starts_with('"') { Some(&l[1..1 + l[1..].find('"').unwrap()]) } else { l.find(':').map(|k| &l[..k]) };
                    if let Some(n) = n { bnames.insert(n, names.len() as u32); names.push(n.to_string()); }
                } else if first && e > p {
                    // unnamed entry block: numbered after the parameters
                    let n: &'a str = Box::leak(format!("{}", unnamed).into_boxed_str());
                    bnames.insert(n, 0); names.push(n.to_string());
                }
                if e > p { first = false; }
                p = e + 1;
            }
        }
        let nb = names.len();
        let mut f = Func { name: name.into(), module: self.m.idx, ins: vec![], blocks: vec![], edges: vec![], nregs: 0, nparams, frame: 0, allocas: vec![], ret, rpo: vec![], loops: vec![], join: vec![], block_of: vec![], live: Default::default(), block_names: names, icpt: Default::default(), regty: vec![] };
        let mut phis: Vec<Vec<(u32, Vec<(O, u32)>)>> = (0..nb).map(|_| vec![]).collect();
        let mut cur = u32::MAX;
        loop {
            let t = self.next();
            match t {
                T::Eof => break,
                T::NL => continue,
                _ => {}
            }
            // label?
            let lab = match t { T::Word(n) | T::Str(n) | T::Num(n) if self.peek() == T::P(b':') => Some(n), _ => None };
            if let Some(n) = lab {
                if cur != u32::MAX { f.blocks[cur as usize].end = f.ins.len() as u32; }
                cur = bnames[n];
                assert_eq!(cur as usize, f.blocks.len());
                f.blocks.push(Block { start: f.ins.len() as u32, end: 0, succ: vec![], phis: vec![] });
                self.eol();
                continue;
            }
            if cur == u32::MAX { cur = 0; f.blocks.push(Block { start: 0, end: 0, succ: vec![], phis: vec![] }); }
            self.ins(t, &mut f, cur, &bnames, &mut phis);
        }
        if cur != u32::MAX { f.blocks[cur as usize].end = f.ins.len() as u32; }
        f.nregs = self.regs.len() as u32;
        self.ftys.resize(f.nregs as usize, Ty::Void);
        f.regty = std::mem::take(&mut self.ftys);
        // edges: phi moves
        let nblocks = f.blocks.len();
        for ei in 0..f.edges.len() {
            // edges were created with `to` = target and a placeholder source kept in moves as (u32::MAX, C(src))
            let src = match f.edges[ei].moves.pop() { Some((_, O::C(s))) => s as u32, _ => unreachable!() };
            let to = f.edges[ei].to as usize;
            let mut mv = vec![];
            for (d, inc) in &phis[to] {
                let o = inc.iter().find(|(_, b)| *b == src).map(|(o, _)| o.clone()).expect("phi source");
                mv.push((*d, o));
            }
            f.edges[ei].moves = mv;
            f.blocks[src as usize].succ.push(to as u32);
        }
        for b in 0..nblocks { f.blocks[b].phis = phis[b].iter().map(|(d, _)| *d).collect(); }
        shape(&mut f);
        f
    }
    fn ty_noparen(&mut self) -> Ty { match self.next() { T::Word(w) => Ty::I(w[1..].parse().unwrap()), _ => unreachable!() } }
    fn label(&mut self, bn: &FxMap<&'a str, u32>) -> u32 {
        assert!(self.eatw("label"));
        match self.next() { T::Local(n) => *bn.get(n).unwrap_or_else(|| panic!("no label {}; have {:?}", n, bn.keys().collect::<Vec<_>>())), t => panic!("label {:?}", t) }
    }
    fn edge(&mut self, f: &mut Func, src: u32, to: u32) -> u32 {
        f.edges.push(Edge { to, moves: vec![(u32::MAX, O::C(src as u64))] });
        f.edges.len() as u32 - 1
    }

    fn ins(&mut self, t: T<'a>, f: &mut Func, cur: u32, bn: &FxMap<&'a str, u32>, phis: &mut Vec<Vec<(u32, Vec<(O, u32)>)>>) {
        let (d, w) = match t {
            T::Local(n) => { let d = self.reg(n); self.expect(b'='); let w = match self.next() { T::Word(w) => w, t => panic!("op {:?}", t) }; (d, w) }
            T::Word(w) => (u32::MAX, w),
            t => panic!("statement {:?} in {}", t, f.name),
        };
        let i = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while matches!(self.peek(), T::Word("nuw" | "nsw" | "exact" | "disjoint")) { self.next(); }
                let op = match w { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or, _ => Bin::Xor };
                let ty = self.ty(); let a = self.op(&ty); self.expect(b','); let b = self.op(&ty);
                if ty.scalar() { I::Bin { op, w: ty.bits(), d, a, b } } else { I::VBin { op, ty, d, a, b } }
            }
            "icmp" => {
                while matches!(self.peek(), T::Word("samesign")) { self.next(); }
                let p = match self.next() { T::Word(p) => match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => panic!("pred {}", p) }, t => panic!("pred {:?}", t) };
                let ty = self.ty(); let a = self.op(&ty); self.expect(b','); let b = self.op(&ty);
                if ty.scalar() { I::Icmp { p, w: ty.bits(), d, a, b } } else { I::VIcmp { p, ty, d, a, b } }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                while matches!(self.peek(), T::Word("nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast")) { self.next(); }
                let ty = self.ty(); let a = self.op(&ty);
                let b = if w == "fneg" { O::C(0) } else { self.expect(b','); self.op(&ty) };
                I::FBin { op: match w { "fadd" => 0, "fsub" => 1, "fmul" => 2, "fdiv" => 3, "frem" => 4, _ => 5 }, ty, d, a, b }
            }
            "fcmp" => {
                while matches!(self.peek(), T::Word("nnan" | "ninf" | "nsz" | "fast")) { self.next(); }
                let p = match self.next() { T::Word(p) => p, t => panic!("{:?}", t) };
                let ty = self.ty(); let a = self.op(&ty); self.expect(b','); let b = self.op(&ty);
                I::Fcmp { p: p.into(), ty, d, a, b }
            }
            "load" => {
                while matches!(self.peek(), T::Word("atomic" | "volatile")) { self.next(); }
                let ty = self.ty(); self.expect(b','); let (_, p) = self.top();
                I::Load { n: ty.store_size() as u32, ty, d, p }
            }
            "store" => {
                while matches!(self.peek(), T::Word("atomic" | "volatile")) { self.next(); }
                let (ty, v) = self.top(); self.expect(b','); let (_, p) = self.top();
                I::Store { n: ty.store_size() as u32, ty, v, p }
            }
            "getelementptr" => {
                while !matches!(self.peek(), T::Word("ptr")) && !matches!(self.peek(), T::P(_)) && !matches!(self.peek(), T::Word(x) if x.starts_with('i') && x[1..].bytes().all(|c| c.is_ascii_digit())) { self.next(); if self.peek() == T::P(b'(') { self.skip_parens(); } }
                let sty = self.ty(); self.expect(b',');
                let (_, p) = self.top();
                let mut off = 0i64; let mut idx = vec![]; let mut curt = sty.clone(); let mut first = true;
                while self.peek() == T::P(b',') {
                    self.next();
                    if self.peek() == T::Meta { break; }
                    let (it, o) = self.top();
                    let scale;
                    if first { scale = sty.size() as i64; first = false; }
                    else {
                        match curt.clone() {
                            Ty::Struct(..) => { let k = match o { O::C(v) => v, _ => panic!("gep") }; let (o2, t) = curt.field(k as usize); off += o2 as i64; curt = t; continue; }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => { scale = t.size() as i64; curt = (*t).clone(); }
                            _ => panic!("gep into {:?}", curt),
                        }
                    }
                    match o { O::C(v) => off += crate::expr::sx(v, it.bits()) * scale, o => idx.push((o, scale, it.bits())) }
                }
                I::Gep { d, p, off, idx }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" => {
                while matches!(self.peek(), T::Word("nneg" | "nuw" | "nsw")) { self.next(); }
                let from = self.ty(); let a = self.op(&from); assert!(self.eatw("to")); let to = self.ty();
                let k = match w { "zext" => Cast::Zext, "sext" => Cast::Sext, "trunc" => Cast::Trunc, "bitcast" => Cast::Bit, _ => Cast::PtrInt };
                I::Cast { k, from, to, d, a }
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                while matches!(self.peek(), T::Word("nneg" | "nnan" | "ninf" | "nsz" | "fast")) { self.next(); }
                let from = self.ty(); let a = self.op(&from); assert!(self.eatw("to")); let to = self.ty();
                I::FCast { k: w.into(), from, to, d, a }
            }
            "select" => {
                while matches!(self.peek(), T::Word("nnan" | "ninf" | "nsz" | "fast")) { self.next(); }
                let (ct, c) = self.top(); self.expect(b','); let (ty, a) = self.top(); self.expect(b','); let (_, b) = self.top();
                I::Select { ty, cw: ct != Ty::I(1), d, c, a, b }
            }
            "alloca" => {
                let ty = self.ty();
                let mut al = 16u64;
                if self.eat(b',') { if self.eatw("align") { al = self.num().max(1); } else { panic!("alloca form") } }
                let off = (f.frame as u64 + al.max(8) - 1) / al.max(8) * al.max(8);
                let sz = ty.size() as u32;
                f.frame = off as u32 + sz;
                f.allocas.push((off as u32, sz));
                I::Alloca { d, off: off as u32 }
            }
            "phi" => {
                let ty = self.ty();
                let mut inc = vec![];
                loop {
                    self.expect(b'['); let o = self.op(&ty); self.expect(b',');
                    let b = match self.next() { T::Local(n) => *bn.get(n).unwrap_or_else(|| panic!("no label {} in {}", n, f.name)), t => panic!("phi {:?}", t) };
                    self.expect(b']'); inc.push((o, b));
                    if self.peek() == T::P(b',') { self.next(); if self.peek() != T::P(b'[') { break; } } else { break; }
                }
                phis[cur as usize].push((d, inc));
                self.settype(d, ty);
                self.eol();
                return;
            }
            "tail" | "musttail" | "notail" => { self.next(); self.call(d, false, f, cur, bn); self.eol(); return; }
            "call" => { self.call(d, false, f, cur, bn); self.eol(); return; }
            "invoke" => { self.call(d, true, f, cur, bn); self.eol(); return; }
            "br" => {
                if self.peek() == T::Word("label") { let l = self.label(bn); let e = self.edge(f, cur, l); I::Br(e) }
                else {
                    let (_, c) = self.top(); self.expect(b','); let a = self.label(bn); self.expect(b','); let b = self.label(bn);
                    let (ea, eb) = (self.edge(f, cur, a), self.edge(f, cur, b));
                    I::CBr(c, ea, eb)
                }
            }
            "switch" => {
                let (ty, v) = self.top(); self.expect(b','); let def = self.label(bn); self.expect(b'[');
                let mut cases = vec![];
                let de = self.edge(f, cur, def);
                let mut byto: FxMap<u32, u32> = FxMap::default();
                byto.insert(def, de);
                loop {
                    while self.peek() == T::NL { self.next(); }
                    if self.eat(b']') { break; }
                    let (_, c) = self.top(); self.expect(b','); let l = self.label(bn);
                    let e = if let Some(e) = byto.get(&l) { *e } else { let e = self.edge(f, cur, l); byto.insert(l, e); e };
                    match c { O::C(c) => cases.push((c, e)), _ => panic!("switch case") }
                }
                cases.sort();
                I::Switch { w: ty.bits(), v, def: de, cases }
            }
            "ret" => { let ty = self.ty(); if ty == Ty::Void { I::Ret(None) } else { I::Ret(Some(self.op(&ty))) } }
            "unreachable" => I::Unreachable,
            "extractvalue" => {
                let (_, a) = self.top(); let path = self.path();
                I::Extract { d, a, path }
            }
            "insertvalue" => {
                let (ty, a) = self.top(); self.expect(b','); let (_, v) = self.top(); let path = self.path();
                I::Insert { d, a, v, path, ty }
            }
            "insertelement" => { let (ty, a) = self.top(); self.expect(b','); let (_, v) = self.top(); self.expect(b','); let (_, i) = self.top(); I::InsElem { d, a, v, i, ty } }
            "extractelement" => { let (_, a) = self.top(); self.expect(b','); let (_, i) = self.top(); I::ExtElem { d, a, i } }
            "shufflevector" => {
                let (ty, a) = self.top(); self.expect(b','); let (_, b) = self.top(); self.expect(b','); let mt = self.ty(); let m = self.konst(&mt);
                let m = match m { Cv::A(v) => v.iter().map(|c| Self::cn(c) as u32).collect(), _ => panic!("mask") };
                I::Shuffle { d, a, b, n: ty.count() as u32, m }
            }
            "atomicrmw" => {
                while matches!(self.peek(), T::Word("volatile")) { self.next(); }
                let op = match self.next() { T::Word(o) => o, t => panic!("{:?}", t) };
                let (_, p) = self.top(); self.expect(b','); let (ty, v) = self.top();
                I::Rmw { d, op: op.into(), p, v, ty }
            }
            "cmpxchg" => {
                while matches!(self.peek(), T::Word("weak" | "volatile")) { self.next(); }
                let (_, p) = self.top(); self.expect(b','); let (ty, c) = self.top(); self.expect(b','); let (_, n) = self.top();
                I::Cx { d, p, c, n, ty }
            }
            "freeze" => { let (_, a) = self.top(); I::Copy { d, a } }
            "fence" => I::Nop,
            "landingpad" => {
                // may continue on following lines (cleanup / catch clauses)
                self.eol();
                while matches!(self.peek(), T::Word("cleanup" | "catch" | "filter")) { self.eol(); }
                f.ins.push(I::Bad("landingpad".into()));
                return;
            }
            "resume" => I::Bad("resume".into()),
            w => I::Bad(format!("instruction {}", w).into()),
        };
        if let Some(d) = defines(&i) { if d != u32::MAX { let t = result_type(&i); self.settype(d, t); } }
        f.ins.push(i);
        self.eol();
    }
    fn settype(&mut self, d: u32, t: Ty) { if self.ftys.len() <= d as usize { self.ftys.resize(d as usize + 1, Ty::Void); } self.ftys[d as usize] = t; }
    fn path(&mut self) -> Vec<u32> {
        let mut v = vec![];
        while self.peek() == T::P(b',') { self.next(); match self.peek() { T::Num(_) => v.push(self.num() as u32), _ => break } }
        v
    }
    fn call(&mut self, d: u32, invoke: bool, f: &mut Func, cur: u32, bn: &FxMap<&'a str, u32>) {
        // return attributes, calling convention, type
        let ret;
        loop {
            match self.peek() {
                T::Word("void" | "ptr" | "float" | "double") | T::P(b'[') | T::P(b'{') | T::P(b'<') => { ret = self.ty(); break; }
                T::Word(w) if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => { ret = self.ty(); break; }
                T::Word("align") => { self.next(); self.next(); }
                T::Word(_) => { self.next(); if self.peek() == T::P(b'(') { self.skip_parens(); } }
                t => panic!("call form {:?}", t),
            }
        }
        let callee = match self.next() {
            T::Global(n) => {
                if let Some(i) = self.m.fmap.get(n) { if (*i as usize) < self.m.fdefs.len() { Callee::Direct(self.m.faddr(*i)) } else { Callee::Name(n.into()) } } else { panic!("call to unknown @{}", n) }
            }
            T::Local(n) => Callee::Ind(O::R(self.reg(n))),
            T::Word("asm") => {
                let mut s = "";
                let mut k = 0;
                loop { match self.next() { T::Str(x) => { if k == 0 { s = x; } k += 1; if k == 2 { break; } } T::Eof => panic!("asm"), _ => {} } }
                Callee::Asm(!s.is_empty())
            }
            t => { let c = self.konst_t(t, &Ty::Ptr); Callee::Ind(O::C(Self::cn(&c))) }
        };
        self.expect(b'(');
        let mut args = vec![]; let mut argty = vec![];
        if !self.eat(b')') {
            loop {
                let t = self.ty();
                if t == Ty::Meta { // metadata argument
                    let mut depth = 0;
                    loop { match self.peek() { T::P(b'(') => { depth += 1; self.next(); } T::P(b')') if depth > 0 => { depth -= 1; self.next(); } T::P(b')') => break, T::P(b',') if depth == 0 => break, _ => { self.next(); } } }
                } else { self.skip_attrs(); let o = self.op(&t); args.push(o); argty.push(t); }
                if self.eat(b')') { break; }
                self.expect(b',');
            }
        }
        let dd = if ret == Ty::Void || d == u32::MAX { None } else { Some(d) };
        if let Some(d) = dd { self.settype(d, ret.clone()); }
        let skip = matches!(&callee, Callee::Name(n) if n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg"));
        if !skip { f.ins.push(I::Call(Box::new(CallI { d: dd, ret, callee, args, argty, cache: std::cell::Cell::new(u32::MAX) }))); }
        if invoke {
            loop { match self.next() { T::Word("to") => break, T::Eof => panic!("invoke"), _ => {} } }
            let l = self.label(bn);
            let e = self.edge(f, cur, l);
            f.ins.push(I::Br(e));
        }
    }
}

/// Control-flow facts that decide in which order unmerged states advance.
fn shape(f: &mut Func) {
    let n = f.blocks.len();
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n];
    for b in 0..n { for s in &f.blocks[b].succ { let p = &mut pred[*s as usize]; if !p.contains(&b) { p.push(b); } } }
    let mut order = vec![]; let mut seen = vec![false; n];
    if n > 0 {
        let mut st = vec![(0usize, 0usize)]; seen[0] = true;
        while let Some((b, i)) = st.pop() {
            if i < f.blocks[b].succ.len() { st.push((b, i + 1)); let t = f.blocks[b].succ[i] as usize; if !seen[t] { seen[t] = true; st.push((t, 0)); } }
            else { order.push(b); }
        }
    }
    f.rpo = vec![u32::MAX; n];
    for (i, b) in order.iter().rev().enumerate() { f.rpo[*b] = i as u32; }
    f.loops = vec![vec![]; n];
    let mut heads: Vec<usize> = vec![];
    for b in 0..n { if seen[b] { for t in &f.blocks[b].succ { if f.rpo[*t as usize] <= f.rpo[b] && !heads.contains(&(*t as usize)) { heads.push(*t as usize); } } } }
    heads.sort_by_key(|h| f.rpo[*h]);
    for h in heads {
        // everything that reaches a back edge to h without leaving through h
        let mut body = vec![false; n]; body[h] = true;
        let mut w: Vec<usize> = pred[h].iter().copied().filter(|b| seen[*b] && f.rpo[*b] >= f.rpo[h]).collect();
        while let Some(b) = w.pop() { if body[b] || f.rpo[b] < f.rpo[h] { continue; } body[b] = true; w.extend(pred[b].iter().copied().filter(|p| seen[*p])); }
        for b in 0..n { if body[b] { f.loops[b].push(h as u32); } }
    }
    f.join = (0..n).map(|b| pred[b].len() > 1 || f.loops[b].last() == Some(&(b as u32))).collect();
    f.block_of = vec![0; f.ins.len()];
    for (i, b) in f.blocks.iter().enumerate() { for k in b.start..b.end { f.block_of[k as usize] = i as u32; } }
}

pub fn operands(i: &I, f: &Func, mut g: impl FnMut(u32)) {
    let mut o = |x: &O| if let O::R(r) = x { g(*r) };
    match i {
        I::Bin { a, b, .. } | I::Icmp { a, b, .. } | I::VBin { a, b, .. } | I::VIcmp { a, b, .. } | I::FBin { a, b, .. } | I::Fcmp { a, b, .. } | I::Shuffle { a, b, .. } => { o(a); o(b) }
        I::Load { p, .. } => o(p),
        I::Store { v, p, .. } | I::Rmw { p, v, .. } => { o(v); o(p) }
        I::Gep { p, idx, .. } => { o(p); for x in idx { o(&x.0) } }
        I::Cast { a, .. } | I::FCast { a, .. } | I::Extract { a, .. } | I::Copy { a, .. } => o(a),
        I::Select { c, a, b, .. } => { o(c); o(a); o(b) }
        I::Call(c) => { if let Callee::Ind(x) = &c.callee { o(x) } for x in &c.args { o(x) } }
        I::CBr(c, ..) => o(c),
        I::Switch { v, .. } => o(v),
        I::Ret(Some(v)) => o(v),
        I::Insert { a, v, .. } => { o(a); o(v) }
        I::InsElem { a, v, i, .. } => { o(a); o(v); o(i) }
        I::ExtElem { a, i, .. } => { o(a); o(i) }
        I::Cx { p, c, n, .. } => { o(p); o(c); o(n) }
        _ => {}
    }
    let _ = f;
}
fn result_type(i: &I) -> Ty {
    match i {
        I::Bin { w, .. } => Ty::I(*w),
        I::Icmp { .. } | I::Fcmp { .. } => Ty::I(1),
        I::VIcmp { ty, .. } => match ty { Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::I(1))), _ => Ty::I(1) },
        I::VBin { ty, .. } | I::FBin { ty, .. } | I::Load { ty, .. } | I::Select { ty, .. } | I::Rmw { ty, .. } | I::Insert { ty, .. } | I::InsElem { ty, .. } => ty.clone(),
        I::Cast { to, .. } | I::FCast { to, .. } => to.clone(),
        I::Gep { .. } | I::Alloca { .. } => Ty::Ptr,
        I::Call(c) => c.ret.clone(),
        _ => Ty::Void,
    }
}
pub fn defines(i: &I) -> Option<u32> {
    match i {
        I::Bin { d, .. } | I::Icmp { d, .. } | I::VBin { d, .. } | I::VIcmp { d, .. } | I::FBin { d, .. } | I::Fcmp { d, .. } | I::Load { d, .. } | I::Gep { d, .. } | I::Cast { d, .. } | I::FCast { d, .. } | I::Select { d, .. } | I::Alloca { d, .. }
        | I::Extract { d, .. } | I::Insert { d, .. } | I::InsElem { d, .. } | I::ExtElem { d, .. } | I::Shuffle { d, .. } | I::Rmw { d, .. } | I::Cx { d, .. } | I::Copy { d, .. } => Some(*d),
        I::Call(c) => c.d,
        _ => None,
    }
}

impl Func {
    /// Registers live at the start of a block once its phis have been assigned.
    pub fn live_at(&self, b: u32) -> Rc<Vec<Vec<u64>>> {
        let _ = b;
        if let Some(l) = self.live.borrow().as_ref() { return l.clone(); }
        let words = (self.nregs as usize + 63) / 64;
        let n = self.blocks.len();
        let mut usev = vec![vec![0u64; words]; n];
        let mut defv = vec![vec![0u64; words]; n];
        for (bi, blk) in self.blocks.iter().enumerate() {
            for i in blk.start..blk.end {
                let ins = &self.ins[i as usize];
                operands(ins, self, |r| if defv[bi][r as usize / 64] >> (r % 64) & 1 == 0 { usev[bi][r as usize / 64] |= 1 << (r % 64) });
                if let Some(d) = defines(ins) { if d != u32::MAX { defv[bi][d as usize / 64] |= 1 << (d % 64); } }
            }
        }
        // out-edges
        let mut edges: Vec<Vec<u32>> = vec![vec![]; n];
        for (bi, blk) in self.blocks.iter().enumerate() {
            for i in blk.start..blk.end {
                match &self.ins[i as usize] {
                    I::Br(e) => edges[bi].push(*e), I::CBr(_, a, b) => { edges[bi].push(*a); edges[bi].push(*b) }
                    I::Switch { def, cases, .. } => { edges[bi].push(*def); for c in cases { edges[bi].push(c.1) } edges[bi].sort(); edges[bi].dedup(); }
                    _ => {}
                }
            }
        }
        let mut live = usev.clone(); // live-in after phis
        let mut ch = true;
        while ch {
            ch = false;
            for bi in (0..n).rev() {
                let mut out = vec![0u64; words];
                for e in &edges[bi] {
                    let ed = &self.edges[*e as usize];
                    let mut l = live[ed.to as usize].clone();
                    for (d, _) in &ed.moves { l[*d as usize / 64] &= !(1 << (d % 64)); }
                    for (_, o) in &ed.moves { if let O::R(r) = o { l[*r as usize / 64] |= 1 << (r % 64); } }
                    for k in 0..words { out[k] |= l[k]; }
                }
                for k in 0..words {
                    let v = usev[bi][k] | (out[k] & !defv[bi][k]);
                    if v & !live[bi][k] != 0 { live[bi][k] |= v; ch = true; }
                }
            }
        }
        let r = Rc::new(live);
        *self.live.borrow_mut() = Some(r.clone());
        r
    }
}
