//! Byte-granular symbolic memory with copy-on-write sharing between states.
use crate::expr::{Ex, Exprs, Op};
use std::rc::Rc;

pub const NOSYM: Ex = 0;

#[derive(Clone)]
pub struct Obj { pub bytes: Vec<u8>, pub sym: Option<Box<[Ex]>>, pub wide: Box<[u8]>, pub konst: bool }

impl Obj {
    pub fn new(n: usize) -> Obj { Obj { bytes: vec![0; n], sym: None, wide: vec![0; (n + 7) / 8].into_boxed_slice(), konst: false } }
    pub fn from(b: Vec<u8>, konst: bool) -> Obj { let n = b.len(); Obj { bytes: b, sym: None, wide: vec![0; (n + 7) / 8].into_boxed_slice(), konst } }
    #[inline] pub fn is_sym(&self, off: usize, n: usize) -> bool { match &self.sym { None => false, Some(s) => s[off..off + n].iter().any(|e| *e != NOSYM) } }
    #[inline] pub fn sym_at(&self, i: usize) -> Ex { match &self.sym { None => NOSYM, Some(s) => s[i] } }
    pub fn syms(&mut self) -> &mut Box<[Ex]> { let n = self.bytes.len(); self.sym.get_or_insert_with(|| vec![NOSYM; n].into_boxed_slice()) }
}

pub const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    pub heap: Vec<Rc<Chunk>>,
    pub next: u32,
    pub stack: Vec<Option<Rc<Obj>>>,
    pub globals: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
}

pub const SBASE: u32 = 0x2000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Id { Heap(u32), Stack(u32), Glob(u32, u32) }

impl Mem {
    pub fn new() -> Mem { Mem { heap: vec![], next: 16, stack: vec![], globals: vec![] } }
    pub fn get(&self, id: Id) -> Option<&Rc<Obj>> {
        match id {
            Id::Heap(i) => self.heap.get(i as usize / CH).and_then(|c| c[i as usize % CH].as_ref()),
            Id::Stack(i) => self.stack.get(i as usize).and_then(|c| c.as_ref()),
            Id::Glob(m, g) => self.globals.get(m as usize).and_then(|v| v[g as usize].as_ref()),
        }
    }
    pub fn get_mut(&mut self, id: Id) -> Option<&mut Obj> {
        let r = match id {
            Id::Heap(i) => { let c = self.heap.get_mut(i as usize / CH)?; Rc::make_mut(c)[i as usize % CH].as_mut() }
            Id::Stack(i) => self.stack.get_mut(i as usize)?.as_mut(),
            Id::Glob(m, g) => Rc::make_mut(self.globals.get_mut(m as usize)?)[g as usize].as_mut(),
        };
        r.map(Rc::make_mut)
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let i = self.next as usize;
        self.next += 1;
        while self.heap.len() <= i / CH { self.heap.push(Rc::new([const { None }; CH])); }
        Rc::make_mut(&mut self.heap[i / CH])[i % CH] = Some(Rc::new(o));
        (i as u64) << 32
    }
    pub fn free(&mut self, i: u32) -> bool {
        match self.heap.get_mut(i as usize / CH) { Some(c) => Rc::make_mut(c)[i as usize % CH].take().is_some(), None => false }
    }
    /// Drops every heap object numbered `from` or above and reuses the numbers.
    pub fn drop_from(&mut self, from: u32) {
        let k = (from as usize + CH - 1) / CH;
        self.heap.truncate(k);
        if from as usize % CH != 0 && self.heap.len() == k { let c = Rc::make_mut(&mut self.heap[k - 1]); for i in from as usize % CH..CH { c[i] = None; } }
        self.next = from;
    }
}

/// Value of `n` bytes at `off` (n <= 8 concrete, otherwise term).
pub fn read_sym(o: &Obj, off: usize, n: usize, ex: &mut Exprs) -> Ex {
    let s = o.sym.as_ref().unwrap();
    let mut r: Option<Ex> = None;
    let mut i = n;
    while i > 0 {
        i -= 1;
        let p = if s[off + i] != NOSYM { s[off + i] } else { ex.konst(o.bytes[off + i] as u64, 8) };
        r = Some(match r { None => p, Some(h) => { let w = ex.w(h) + 8; ex.mk(Op::Concat, h, p, 0, w) } });
    }
    r.unwrap()
}

pub fn write_sym(o: &mut Obj, off: usize, n: usize, e: Ex, ex: &mut Exprs) {
    let w = ex.w(e);
    for i in 0..n {
        let lo = 8 * i as u32;
        let p = if lo >= w { ex.konst(0, 8) } else if w - lo < 8 { let p = ex.extract(e, lo, w - lo); ex.mk(Op::Zext, p, 0, 0, 8) } else { ex.extract(e, lo, 8) };
        match ex.cval(p) {
            Some(v) => { o.bytes[off + i] = v as u8; if let Some(s) = &mut o.sym { s[off + i] = NOSYM; } }
            None => { o.bytes[off + i] = 0; o.syms()[off + i] = p; }
        }
    }
    if n == 8 && off % 8 == 0 { o.wide[off / 8] = 1; } else { for k in off / 8..=(off + n - 1) / 8 { o.wide[k] = 0; } }
}

pub fn write_c(o: &mut Obj, off: usize, n: usize, v: u64) {
    o.bytes[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
    if let Some(s) = &mut o.sym { s[off..off + n].fill(NOSYM); }
    if n == 8 && off % 8 == 0 { o.wide[off / 8] = 1; } else { o.wide[off / 8] = 0; if n > 1 { o.wide[(off + n - 1) / 8] = 0; } }
}
