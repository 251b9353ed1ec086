//! Hash-consed bit-vector expressions over 8-bit symbolic variables.
//!
//! An expression whose support is a single variable is canonicalised by its 256-entry value table, so
//! semantically equal single-variable expressions are one node. Everything else is kept as a term.
use crate::z3::{Ast, Z3};
use crate::fx::FxMap as HashMap;

pub type Ex = u32;
pub type Dom = [u64; 4];
pub const NONE: u32 = u32::MAX;
pub const FULL: Dom = [u64::MAX; 4];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, Eq, Ult, Ule, Slt, Sle, Zext, Sext, Extract, Concat, Ite }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K { Const(u64), Var(u16), Op(Op, Ex, Ex, Ex), Tab }

pub struct Node { pub k: K, pub w: u8, pub tab: u32, pub var: u16, pub sup: u128 }

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub tabs: Vec<Box<[u64; 256]>>,
    masks: HashMap<u32, Dom>,
    consed: HashMap<(K, u8), Ex>,
    tabmap: HashMap<u64, Vec<Ex>>,
    pub nvars: u16,
    zcache: HashMap<Ex, Ast>,
    zbool: HashMap<Ex, Ast>,
    zvars: Vec<Ast>,
    memo: Vec<(u64, u128)>,
    epoch: u64,
}

#[inline] pub fn mask(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
#[inline] pub fn sx(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
pub fn dom_and(a: &Dom, b: &Dom) -> Dom { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn dom_andn(a: &Dom, b: &Dom) -> Dom { [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]] }
pub fn dom_or(a: &Dom, b: &Dom) -> Dom { [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]] }
pub fn dom_empty(a: &Dom) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
pub fn dom_has(a: &Dom, v: u8) -> bool { a[(v >> 6) as usize] >> (v & 63) & 1 == 1 }
pub fn dom_first(a: &Dom) -> Option<u8> {
    for i in 0..4 { if a[i] != 0 { return Some((i as u32 * 64 + a[i].trailing_zeros()) as u8); } }
    None
}
pub fn dom_iter(a: &Dom) -> impl Iterator<Item = u8> + '_ {
    (0..4usize).flat_map(move |i| {
        let mut x = a[i];
        std::iter::from_fn(move || { if x == 0 { None } else { let t = x.trailing_zeros(); x &= x - 1; Some((i as u32 * 64 + t) as u8) } })
    })
}
pub fn dom_count(a: &Dom) -> u32 { a.iter().map(|x| x.count_ones()).sum() }

/// Concrete semantics; `w` is the operand width (width of `a`), `rw` the result width.
#[inline]
pub fn eval_op(op: Op, w: u32, rw: u32, a: u64, b: u64, c: u64) -> u64 {
    use Op::*;
    let r = match op {
        Add => a.wrapping_add(b), Sub => a.wrapping_sub(b), Mul => a.wrapping_mul(b),
        UDiv => if b == 0 { mask(w) } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x >= 0 { u64::MAX } else { 1 } } else { x.wrapping_div(y) as u64 } }
        SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u64 } }
        Shl => if b >= w as u64 { 0 } else { a << b },
        LShr => if b >= w as u64 { 0 } else { a >> b },
        AShr => { let s = if b >= w as u64 { w as u64 - 1 } else { b }; (sx(a, w) >> s) as u64 }
        And => a & b, Or => a | b, Xor => a ^ b,
        Eq => (a == b) as u64, Ult => (a < b) as u64, Ule => (a <= b) as u64,
        Slt => (sx(a, w) < sx(b, w)) as u64, Sle => (sx(a, w) <= sx(b, w)) as u64,
        Zext => a, Sext => sx(a, w) as u64,
        Extract => a >> b,
        Concat => unreachable!(),
        Ite => if a & 1 == 1 { b } else { c },
    };
    r & mask(rw)
}

impl Exprs {
    pub fn new() -> Exprs {
        Exprs { nodes: Vec::new(), tabs: Vec::new(), masks: HashMap::default(), consed: HashMap::default(), tabmap: HashMap::default(), nvars: 0, zcache: HashMap::default(), zbool: HashMap::default(), zvars: Vec::new(), memo: Vec::new(), epoch: 0 }
    }
    #[inline] pub fn w(&self, e: Ex) -> u32 { self.nodes[e as usize].w as u32 }
    #[inline] pub fn cval(&self, e: Ex) -> Option<u64> { if let K::Const(v) = self.nodes[e as usize].k { Some(v) } else { None } }
    #[inline] pub fn single(&self, e: Ex) -> Option<(u16, u32)> { let n = &self.nodes[e as usize]; if n.tab != NONE { Some((n.var, n.tab)) } else { None } }
    #[inline] pub fn table(&self, e: Ex) -> Option<(u16, &[u64; 256])> { self.single(e).map(|(v, t)| (v, &*self.tabs[t as usize])) }
    pub fn konst(&mut self, v: u64, w: u32) -> Ex {
        let k = (K::Const(v & mask(w)), w as u8);
        if let Some(e) = self.consed.get(&k) { return *e; }
        self.push(Node { k: k.0, w: w as u8, tab: NONE, var: 0, sup: 0 }, Some(k))
    }
    fn push(&mut self, n: Node, key: Option<(K, u8)>) -> Ex {
        let e = self.nodes.len() as Ex;
        self.nodes.push(n);
        if let Some(k) = key { self.consed.insert(k, e); }
        e
    }
    pub fn fresh(&mut self) -> Ex {
        let v = self.nvars;
        assert!(v < 128, "too many symbolic bytes");
        self.var(v)
    }
    /// The variable numbered `v` (creating it, and all below, if needed).
    pub fn var(&mut self, v: u16) -> Ex {
        if v >= self.nvars { self.nvars = v + 1; }
        let k = (K::Var(v), 8);
        if let Some(e) = self.consed.get(&k) { return *e; }
        let mut t = Box::new([0u64; 256]);
        for i in 0..256 { t[i] = i as u64; }
        let h = Self::hash(v, 8, &t);
        let ti = self.tabs.len() as u32;
        self.tabs.push(t);
        let e = self.push(Node { k: k.0, w: 8, tab: ti, var: v, sup: 1u128 << v }, Some(k));
        self.tabmap.entry(h).or_default().push(e);
        e
    }
    fn hash(var: u16, w: u32, t: &[u64; 256]) -> u64 {
        let mut h = (var as u64) << 8 | w as u64;
        for x in t.iter() { h = (h.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
        h
    }
    /// Interns a table; `def` is the defining term, kept for the solver encoding.
    pub fn tab(&mut self, var: u16, w: u32, t: Box<[u64; 256]>, def: K) -> Ex {
        let first = t[0];
        if t.iter().all(|x| *x == first) { return self.konst(first, w); }
        let h = Self::hash(var, w, &t);
        if let Some(v) = self.tabmap.get(&h) {
            for e in v { let n = &self.nodes[*e as usize]; if n.var == var && n.w as u32 == w && *self.tabs[n.tab as usize] == *t { return *e; } }
        }
        let ti = self.tabs.len() as u32;
        self.tabs.push(t);
        let e = self.push(Node { k: def, w: w as u8, tab: ti, var, sup: 1u128 << var }, None);
        self.tabmap.entry(h).or_default().push(e);
        e
    }
    pub fn truth(&mut self, e: Ex) -> Dom {
        let t = self.nodes[e as usize].tab;
        if let Some(m) = self.masks.get(&t) { return *m; }
        let tb = &self.tabs[t as usize];
        let mut d = [0u64; 4];
        for i in 0..256 { if tb[i] & 1 == 1 { d[i >> 6] |= 1 << (i & 63); } }
        self.masks.insert(t, d);
        d
    }
    pub fn from_dom(&mut self, var: u16, d: &Dom) -> Ex {
        let mut t = Box::new([0u64; 256]);
        for i in 0..256 { t[i] = dom_has(d, i as u8) as u64; }
        self.tab(var, 1, t, K::Tab)
    }
    fn get_tab(&self, e: Ex, buf: &mut [u64; 256]) {
        match self.nodes[e as usize].k { K::Const(v) => buf.fill(v), _ => *buf = *self.tabs[self.nodes[e as usize].tab as usize] }
    }
    /// Generic constructor.
    pub fn mk(&mut self, op: Op, a: Ex, b: Ex, c: Ex, rw: u32) -> Ex {
        let aw = self.w(a);
        if aw <= 64 && rw <= 64 && op != Op::Concat {
            let bimm = op == Op::Extract;
            let un = matches!(op, Op::Zext | Op::Sext);
            let ca = self.cval(a);
            let cb = if bimm { Some(b as u64) } else if un { Some(0) } else { self.cval(b) };
            let cc = if op == Op::Ite { self.cval(c) } else { Some(0) };
            if let (Some(x), Some(y), Some(z)) = (ca, cb, cc) { let v = eval_op(op, aw, rw, x, y, z); return self.konst(v, rw); }
            // single variable?
            let mut var: Option<u16> = None; let mut ok = true;
            let chk = |e: Ex, s: &Self, var: &mut Option<u16>, ok: &mut bool| {
                let n = &s.nodes[e as usize];
                if let K::Const(_) = n.k { return; }
                if n.tab == NONE { *ok = false; } else if let Some(v) = var { if *v != n.var { *ok = false; } } else { *var = Some(n.var); }
            };
            chk(a, self, &mut var, &mut ok);
            if !bimm && !un { chk(b, self, &mut var, &mut ok); }
            if op == Op::Ite { chk(c, self, &mut var, &mut ok); }
            if ok {
                let var = var.unwrap();
                let mut ta = [0u64; 256]; let mut tb = [0u64; 256]; let mut tc = [0u64; 256];
                self.get_tab(a, &mut ta);
                if bimm { tb.fill(b as u64) } else if !un { self.get_tab(b, &mut tb) }
                if op == Op::Ite { self.get_tab(c, &mut tc); }
                let mut t = Box::new([0u64; 256]);
                for i in 0..256 { t[i] = eval_op(op, aw, rw, ta[i], tb[i], tc[i]); }
                return self.tab(var, rw, t, K::Op(op, a, b, c));
            }
        }
        if let Some(e) = self.simplify(op, a, b, c, rw) { return e; }
        self.term(op, a, b, c, rw)
    }
    fn term(&mut self, op: Op, a: Ex, b: Ex, c: Ex, rw: u32) -> Ex {
        // a concatenation over one variable (<= 64 bits) still becomes a table
        if op == Op::Concat && rw <= 64 {
            let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
            let sup = na.sup | nb.sup;
            if sup == 0 { let v = self.cval(a).unwrap() << self.w(b) | self.cval(b).unwrap(); return self.konst(v, rw); }
            if sup.count_ones() == 1 {
                let var = sup.trailing_zeros() as u16; let bw = self.w(b);
                let mut ta = [0u64; 256]; let mut tb = [0u64; 256];
                self.get_tab(a, &mut ta); self.get_tab(b, &mut tb);
                let mut t = Box::new([0u64; 256]);
                for i in 0..256 { t[i] = ta[i] << bw | tb[i]; }
                return self.tab(var, rw, t, K::Op(op, a, b, 0));
            }
        }
        let k = (K::Op(op, a, b, c), rw as u8);
        if let Some(e) = self.consed.get(&k) { return *e; }
        let mut sup = self.nodes[a as usize].sup;
        if !matches!(op, Op::Extract | Op::Zext | Op::Sext) { sup |= self.nodes[b as usize].sup; }
        if op == Op::Ite { sup |= self.nodes[c as usize].sup; }
        self.push(Node { k: k.0, w: rw as u8, tab: NONE, var: 0, sup }, Some(k))
    }
    /// Bits that can be set.
    pub fn pbits(&self, e: Ex) -> u64 {
        let n = &self.nodes[e as usize];
        let m = mask(n.w as u32);
        if n.w > 64 { return u64::MAX; }
        if let K::Const(v) = n.k { return v; }
        if n.tab != NONE { return self.tabs[n.tab as usize].iter().fold(0, |a, b| a | *b); }
        match n.k {
            K::Op(Op::Zext, a, ..) => self.pbits(a),
            K::Op(Op::Ite, _, a, b) => self.pbits(a) | self.pbits(b),
            K::Op(Op::And, a, b, _) => self.pbits(a) & self.pbits(b),
            K::Op(Op::Or | Op::Xor, a, b, _) => self.pbits(a) | self.pbits(b),
            K::Op(Op::Concat, a, b, _) => (self.pbits(a) << self.w(b) | self.pbits(b)) & m,
            _ => m,
        }
    }
    /// x op y where the two never share a bit and one lies wholly above the other.
    fn side_by_side(&mut self, a: Ex, b: Ex, rw: u32) -> Option<Ex> {
        if rw < 2 || rw > 64 { return None; }
        let (pa, pb) = (self.pbits(a), self.pbits(b));
        if pa == 0 || pb == 0 { return None; }
        let (hi, lo, ph, pl) = if pa > pb { (a, b, pa, pb) } else { (b, a, pb, pa) };
        let k = 64 - pl.leading_zeros();
        if k >= rw || ph.trailing_zeros() < k { return None; }
        let h = self.extract(hi, k, rw - k); let l = self.extract(lo, 0, k);
        Some(self.mk(Op::Concat, h, l, 0, rw))
    }
    pub fn ubound(&self, e: Ex) -> u64 {
        let n = &self.nodes[e as usize];
        if n.w > 64 { return u64::MAX; }
        if let K::Const(v) = n.k { return v; }
        if n.tab != NONE { return *self.tabs[n.tab as usize].iter().max().unwrap(); }
        match n.k {
            K::Op(Op::Concat, a, b, _) => { let bw = self.w(b); (self.ubound(a) << bw) | self.ubound(b).max(0) | 0 }
            K::Op(Op::Zext, a, ..) => self.ubound(a),
            K::Op(Op::Ite, _, a, b) => self.ubound(a).max(self.ubound(b)),
            K::Op(Op::And, a, b, _) => self.ubound(a).min(self.ubound(b)),
            K::Op(Op::Add, a, b, _) => { let s = self.ubound(a).checked_add(self.ubound(b)); match s { Some(s) if s <= mask(n.w as u32) => s, _ => mask(n.w as u32) } }
            _ => mask(n.w as u32),
        }
    }
    fn pieces(&self, e: Ex, out: &mut Vec<Ex>) {
        if let K::Op(Op::Concat, a, b, _) = self.nodes[e as usize].k { if self.nodes[e as usize].tab == NONE { self.pieces(a, out); self.pieces(b, out); return; } }
        out.push(e)
    }
    fn is_concat(&self, e: Ex) -> bool { self.nodes[e as usize].tab == NONE && matches!(self.nodes[e as usize].k, K::Op(Op::Concat, ..)) }
    pub fn concat_all(&mut self, ps: &[Ex]) -> Ex {
        let mut r = ps[0];
        // merge adjacent constants / same-variable pieces first (low widths)
        for p in &ps[1..] { let w = self.w(r) + self.w(*p); r = self.mk(Op::Concat, r, *p, 0, w); }
        r
    }
    fn simplify(&mut self, op: Op, a: Ex, b: Ex, c: Ex, rw: u32) -> Option<Ex> {
        use Op::*;
        let aw = self.w(a);
        match op {
            Concat => {
                // right-normalise: Concat(Concat(x,y),z) keeps left nesting; join consts
                if rw <= 64 {
                    if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { let v = x << self.w(b) | y; return Some(self.konst(v, rw)); }
                }
                // adjacent extracts of the same term
                if let (K::Op(Extract, x, lo1, _), K::Op(Extract, y, lo2, _)) = (self.nodes[a as usize].k, self.nodes[b as usize].k) {
                    if x == y && lo1 == lo2 + self.w(b) && self.nodes[x as usize].tab == NONE {
                        return Some(self.extract(x, lo2, rw));
                    }
                }
                if let K::Op(Concat, p, q, _) = self.nodes[a as usize].k {
                    if self.nodes[a as usize].tab == NONE {
                        if let (K::Op(Extract, x, lo1, _), K::Op(Extract, y, lo2, _)) = (self.nodes[q as usize].k, self.nodes[b as usize].k) {
                            if x == y && lo1 == lo2 + self.w(b) && self.nodes[x as usize].tab == NONE {
                                let w = self.w(q) + self.w(b);
                                let m = self.extract(x, lo2, w);
                                return Some(self.mk(Concat, p, m, 0, rw));
                            }
                        }
                        // join constants / same-variable parts on the right: only constants, to keep pieces small
                        if let (Some(x), Some(y)) = (self.cval(q), self.cval(b)) {
                            let w = self.w(q) + self.w(b);
                            if w <= 64 { let v = x << self.w(b) | y; let m = self.konst(v, w); return Some(self.mk(Concat, p, m, 0, rw)); }
                        }
                    }
                }
                None
            }
            Extract => {
                let lo = b;
                if lo == 0 && rw == aw { return Some(a); }
                match self.nodes[a as usize].k {
                    K::Op(Concat, h, l, _) if self.nodes[a as usize].tab == NONE => {
                        let lw = self.w(l);
                        if lo + rw <= lw { return Some(self.extract(l, lo, rw)); }
                        if lo >= lw { return Some(self.extract(h, lo - lw, rw)); }
                        let low = self.extract(l, lo, lw - lo);
                        let hw = rw - (lw - lo);
                        let hi = self.extract(h, 0, hw);
                        return Some(self.mk(Concat, hi, low, 0, rw));
                    }
                    K::Op(Extract, x, l2, _) => return Some(self.extract(x, lo + l2, rw)),
                    K::Op(Zext, x, ..) => {
                        let xw = self.w(x);
                        if lo >= xw { return Some(self.konst(0, rw)); }
                        if lo + rw <= xw { return Some(self.extract(x, lo, rw)); }
                        let p = self.extract(x, lo, xw - lo);
                        return Some(self.mk(Zext, p, 0, 0, rw));
                    }
                    K::Op(Sext, x, ..) => { let xw = self.w(x); if lo + rw <= xw { return Some(self.extract(x, lo, rw)); } }
                    K::Op(Ite, cnd, x, y) if rw <= 64 => {
                        let p = self.extract(x, lo, rw); let q = self.extract(y, lo, rw);
                        return Some(self.mk(Ite, cnd, p, q, rw));
                    }
                    K::Op(o @ (And | Or | Xor), x, y, _) => {
                        let p = self.extract(x, lo, rw); let q = self.extract(y, lo, rw);
                        return Some(self.mk(o, p, q, 0, rw));
                    }
                    K::Op(o @ (Add | Sub | Mul), x, y, _) if lo == 0 => {
                        let p = self.extract(x, 0, rw); let q = self.extract(y, 0, rw);
                        return Some(self.mk(o, p, q, 0, rw));
                    }
                    _ => {}
                }
                None
            }
            Zext => {
                if rw == aw { return Some(a); }
                let mut left = rw - aw; let mut r = a;
                while left > 0 { let k = left.min(64); let z = self.konst(0, k); let w = self.w(r) + k; r = self.mk(Concat, z, r, 0, w); left -= k; }
                Some(r)
            }
            Sext => { if rw == aw { return Some(a); } if aw == 1 && rw <= 64 { let x = self.konst(mask(rw), rw); let z = self.konst(0, rw); return Some(self.mk(Ite, a, x, z, rw)); } None }
            And | Or | Xor => {
                if a == b { return Some(if op == Xor { self.konst(0, rw) } else { a }); }
                if rw > 64 { return self.piecewise(op, a, b, rw); }
                let (x, k) = if let Some(k) = self.cval(b) { (a, Some(k)) } else if let Some(k) = self.cval(a) { (b, Some(k)) } else { (a, None) };
                if let Some(k) = k {
                    match op {
                        And => { if k == 0 { return Some(self.konst(0, rw)); } if k == mask(rw) { return Some(x); } }
                        Or => { if k == 0 { return Some(x); } if k == mask(rw) { return Some(self.konst(k, rw)); } }
                        _ => { if k == 0 { return Some(x); }
                            if rw == 1 { if let K::Op(Xor, p, q, _) = self.nodes[x as usize].k { if self.cval(q) == Some(1) && self.nodes[x as usize].tab == NONE { return Some(p); } } } }
                    }
                    if rw > 1 && (self.is_concat(x)) { return self.piecewise(op, a, b, rw); }
                } else {
                    if rw > 1 && (self.is_concat(a) || self.is_concat(b)) { return self.piecewise(op, a, b, rw); }
                    if rw == 1 {
                        // x op not x
                        let na = self.not(a);
                        if na == b { return Some(self.konst(match op { And => 0, _ => 1 }, 1)); }
                    }
                    if op != And { if let Some(e) = self.side_by_side(a, b, rw) { return Some(e); } }
                    if a > b { return Some(self.term(op, b, a, 0, rw)); }
                }
                None
            }
            Shl | LShr | AShr => {
                if let Some(k) = self.cval(b) {
                    if k == 0 { return Some(a); }
                    let k = k as u32;
                    if op != AShr {
                        if k >= rw { return Some(self.konst(0, rw)); }
                        let z = self.konst(0, k);
                        if op == Shl { let p = self.extract(a, 0, rw - k); return Some(self.mk(Concat, p, z, 0, rw)); }
                        let p = self.extract(a, k, rw - k);
                        return Some(self.mk(Concat, z, p, 0, rw));
                    }
                }
                None
            }
            Add | Sub => {
                if let Some(0) = self.cval(b) { return Some(a); }
                if op == Add { if let Some(0) = self.cval(a) { return Some(b); } }
                if op == Add && self.cval(a).is_none() && self.cval(b).is_none() && rw <= 64 { if let Some(e) = self.side_by_side(a, b, rw) { return Some(e); } }
                if op == Sub && a == b { return Some(self.konst(0, rw)); }
                // (x + k1) + k2
                if let (Some(k2), K::Op(o, x, y, _)) = (self.cval(b), self.nodes[a as usize].k) {
                    if self.nodes[a as usize].tab == NONE && matches!(o, Add | Sub) {
                        if let Some(k1) = self.cval(y) {
                            let s1 = if o == Add { k1 } else { k1.wrapping_neg() };
                            let s2 = if op == Add { k2 } else { k2.wrapping_neg() };
                            let k = self.konst(s1.wrapping_add(s2), rw);
                            return Some(self.mk(Add, x, k, 0, rw));
                        }
                    }
                }
                if op == Sub { if let Some(k) = self.cval(b) { let nk = self.konst(k.wrapping_neg(), rw); return Some(self.mk(Add, a, nk, 0, rw)); } }
                if op == Add && self.cval(a).is_some() { return Some(self.mk(Add, b, a, 0, rw)); }
                // keep what depends on one variable together
                if let (Add, Some((v, _)), K::Op(Add, p, q, _), true) = (op, self.single(b), self.nodes[a as usize].k, self.nodes[a as usize].tab == NONE) {
                    if self.single(q).map(|x| x.0) == Some(v) { let r = self.mk(Add, q, b, 0, rw); return Some(self.mk(Add, p, r, 0, rw)); }
                    if self.single(p).map(|x| x.0) == Some(v) { let r = self.mk(Add, p, b, 0, rw); return Some(self.mk(Add, r, q, 0, rw)); }
                }
                None
            }
            Mul => {
                let (x, k) = if let Some(k) = self.cval(b) { (a, k) } else if let Some(k) = self.cval(a) { (b, k) } else { return None };
                if k == 0 { return Some(self.konst(0, rw)); }
                if k == 1 { return Some(x); }
                if k.is_power_of_two() { let s = self.konst(k.trailing_zeros() as u64, rw); return Some(self.mk(Shl, x, s, 0, rw)); }
                None
            }
            SDiv | SRem => None,
            UDiv | URem => {
                if let Some(k) = self.cval(b) {
                    if k.is_power_of_two() {
                        if op == UDiv { let s = self.konst(k.trailing_zeros() as u64, rw); return Some(self.mk(LShr, a, s, 0, rw)); }
                        let m = self.konst(k - 1, rw); return Some(self.mk(And, a, m, 0, rw));
                    }
                    if self.ubound(a) < k { return Some(if op == UDiv { self.konst(0, rw) } else { a }); }
                }
                None
            }
            Eq => {
                if a == b { return Some(self.konst(1, 1)); }
                if self.cval(a).is_some() { return Some(self.mk(Eq, b, a, 0, 1)); }
                if let Some(k) = self.cval(b) {
                    if aw == 1 { return Some(if k == 1 { a } else { self.not(a) }); }
                    if aw <= 64 && self.ubound(a) < k { return Some(self.konst(0, 1)); }
                    match self.nodes[a as usize].k {
                        K::Op(Concat, h, l, _) => {
                            let lw = self.w(l); let hw = self.w(h);
                            let kl = self.konst(k & mask(lw), lw); let kh = self.konst(k >> lw, hw);
                            let p = self.mk(Eq, l, kl, 0, 1);
                            if self.cval(p) == Some(0) { return Some(p); }
                            let q = self.mk(Eq, h, kh, 0, 1);
                            return Some(self.mk(And, q, p, 0, 1));
                        }
                        K::Op(Ite, cnd, x, y) => {
                            let p = self.mk(Eq, x, b, 0, 1); let q = self.mk(Eq, y, b, 0, 1);
                            if self.cval(p).is_some() || self.cval(q).is_some() { return Some(self.mk(Ite, cnd, p, q, 1)); }
                        }
                        K::Op(Add, x, y, _) => if let Some(k1) = self.cval(y) { let nk = self.konst(k.wrapping_sub(k1), aw); return Some(self.mk(Eq, x, nk, 0, 1)); } else if aw <= 64 {
                            // a sum at the end of its range: every part is
                            let (ux, uy) = (self.ubound(x), self.ubound(y));
                            if let Some(s) = ux.checked_add(uy) { if s <= mask(aw) {
                                if s < k { return Some(self.konst(0, 1)); }
                                if s == k || k == 0 {
                                    let (kx, ky) = if k == 0 { (0, 0) } else { (ux, uy) };
                                    let (kx, ky) = (self.konst(kx, aw), self.konst(ky, aw));
                                    let p = self.mk(Eq, x, kx, 0, 1); let q = self.mk(Eq, y, ky, 0, 1);
                                    return Some(self.mk(And, p, q, 0, 1));
                                }
                            } }
                        }
                        K::Op(Xor, x, y, _) if k == 0 => return Some(self.mk(Eq, x, y, 0, 1)),
                        K::Op(Or, x, y, _) if k == 0 => { let z = self.konst(0, aw); let p = self.mk(Eq, x, z, 0, 1); let q = self.mk(Eq, y, z, 0, 1); return Some(self.mk(And, p, q, 0, 1)); }
                        _ => {}
                    }
                } else if self.is_concat(a) || self.is_concat(b) {
                    let (mut pa, mut pb) = (Vec::new(), Vec::new());
                    self.split(a, b, &mut pa, &mut pb);
                    if pa.len() > 1 {
                        let mut r = self.konst(1, 1);
                        for (x, y) in pa.into_iter().zip(pb) { let e = self.mk(Eq, x, y, 0, 1); r = self.mk(And, r, e, 0, 1); if self.cval(r) == Some(0) { return Some(r); } }
                        return Some(r);
                    }
                } else if aw == 1 { let x = self.mk(Xor, a, b, 0, 1); return Some(self.not(x)); }
                else if a > b { return Some(self.term(Eq, b, a, 0, 1)); }
                None
            }
            Ult => {
                if a == b { return Some(self.konst(0, 1)); }
                if let Some(k) = self.cval(b) {
                    if k == 0 { return Some(self.konst(0, 1)); }
                    if self.ubound(a) < k { return Some(self.konst(1, 1)); }
                    if k == 1 { let z = self.konst(0, aw); return Some(self.mk(Eq, a, z, 0, 1)); }
                    if let Some((x, hw)) = self.strip0(a) { if k <= mask(hw) { let kk = self.konst(k, hw); return Some(self.mk(Ult, x, kk, 0, 1)); } }
                }
                if let Some(k) = self.cval(a) {
                    if self.ubound(b) <= k { return Some(self.konst(0, 1)); }
                    if let Some((x, hw)) = self.strip0(b) { if k <= mask(hw) { let kk = self.konst(k, hw); return Some(self.mk(Ult, kk, x, 0, 1)); } }
                }
                None
            }
            Ule => { let r = self.mk(Ult, b, a, 0, 1); Some(self.not(r)) }
            Sle => { let r = self.mk(Slt, b, a, 0, 1); Some(self.not(r)) }
            Slt => {
                if a == b { return Some(self.konst(0, 1)); }
                // both known non-negative -> unsigned
                if aw <= 64 && self.ubound(a) >> (aw - 1) == 0 && self.ubound(b) >> (aw - 1) == 0 { return Some(self.mk(Ult, a, b, 0, 1)); }
                if let Some(0) = self.cval(b) { return Some(self.extract(a, aw - 1, 1)); }
                if self.cval(a) == Some(mask(aw)) { let s = self.extract(b, aw - 1, 1); return Some(self.not(s)); }
                None
            }
            Ite => {
                if let Some(k) = self.cval(a) { return Some(if k == 1 { b } else { c }); }
                if b == c { return Some(b); }
                if rw == 1 {
                    match (self.cval(b), self.cval(c)) {
                        (Some(1), Some(0)) => return Some(a), (Some(0), Some(1)) => return Some(self.not(a)),
                        (Some(1), None) => return Some(self.mk(Or, a, c, 0, 1)),
                        (Some(0), None) => { let n = self.not(a); return Some(self.mk(And, n, c, 0, 1)); }
                        (None, Some(0)) => return Some(self.mk(And, a, b, 0, 1)),
                        (None, Some(1)) => { let n = self.not(a); return Some(self.mk(Or, n, b, 0, 1)); }
                        _ => {}
                    }
                }
                if rw > 64 || self.is_concat(b) || self.is_concat(c) {
                    let (mut pa, mut pb) = (Vec::new(), Vec::new());
                    self.split(b, c, &mut pa, &mut pb);
                    if pa.len() > 1 {
                        let ps: Vec<Ex> = pa.into_iter().zip(pb).map(|(x, y)| { let w = self.w(x); self.mk(Ite, a, x, y, w) }).collect();
                        return Some(self.concat_all(&ps));
                    }
                }
                None
            }
        }
    }
    /// Strips leading constant-zero pieces.
    fn strip0(&mut self, e: Ex) -> Option<(Ex, u32)> {
        if !self.is_concat(e) { return None; }
        let mut ps = Vec::new(); self.pieces(e, &mut ps);
        let mut i = 0;
        while i < ps.len() && self.cval(ps[i]) == Some(0) { i += 1; }
        if i == 0 || i == ps.len() { return None; }
        let x = self.concat_all(&ps[i..]);
        let w = self.w(x);
        Some((x, w))
    }
    /// Splits two equally wide terms at the union of their concatenation boundaries.
    fn split(&mut self, a: Ex, b: Ex, pa: &mut Vec<Ex>, pb: &mut Vec<Ex>) {
        let (mut la, mut lb) = (Vec::new(), Vec::new());
        self.pieces(a, &mut la); self.pieces(b, &mut lb);
        la.reverse(); lb.reverse();
        while let (Some(x), Some(y)) = (la.pop(), lb.pop()) {
            let (wx, wy) = (self.w(x), self.w(y));
            if wx == wy { pa.push(x); pb.push(y); }
            else if wx > wy { let h = self.extract(x, wx - wy, wy); let l = self.extract(x, 0, wx - wy); pa.push(h); pb.push(y); la.push(l); }
            else { let h = self.extract(y, wy - wx, wx); let l = self.extract(y, 0, wy - wx); pa.push(x); pb.push(h); lb.push(l); }
        }
    }
    fn piecewise(&mut self, op: Op, a: Ex, b: Ex, _rw: u32) -> Option<Ex> {
        let (mut pa, mut pb) = (Vec::new(), Vec::new());
        self.split(a, b, &mut pa, &mut pb);
        if pa.len() == 1 { return None; }
        let ps: Vec<Ex> = pa.into_iter().zip(pb).map(|(x, y)| { let w = self.w(x); self.mk(op, x, y, 0, w) }).collect();
        Some(self.concat_all(&ps))
    }
    pub fn extract(&mut self, a: Ex, lo: u32, w: u32) -> Ex {
        if lo == 0 && w == self.w(a) { return a; }
        if self.w(a) > 64 { return self.simplify(Op::Extract, a, lo, 0, w).unwrap_or_else(|| self.term(Op::Extract, a, lo, 0, w)); }
        self.mk(Op::Extract, a, lo, 0, w)
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        let one = self.konst(1, 1);
        self.mk(Op::Xor, a, one, 0, 1)
    }
    /// Value under an assignment of (at least) the variables of `e`.
    pub fn eval(&mut self, e: Ex, m: &[u8]) -> u128 {
        self.epoch += 1;
        if self.memo.len() < self.nodes.len() { self.memo.resize(self.nodes.len() + 1024, (0, 0)); }
        self.ev(e, m)
    }
    fn ev(&mut self, e: Ex, m: &[u8]) -> u128 {
        let (k, w, tab, var) = { let n = &self.nodes[e as usize]; (n.k, n.w as u32, n.tab, n.var) };
        if let K::Const(v) = k { return v as u128; }
        if tab != NONE { return self.tabs[tab as usize][m[var as usize] as usize] as u128; }
        let (ep, v) = self.memo[e as usize];
        if ep == self.epoch { return v; }
        let r = match k {
            K::Op(Op::Concat, a, b, _) => self.ev(a, m) << self.w(b) | self.ev(b, m),
            K::Op(Op::Extract, a, lo, _) => (self.ev(a, m) >> lo) & (mask(w) as u128),
            K::Op(Op::Ite, c, a, b) => if self.ev(c, m) & 1 == 1 { self.ev(a, m) } else { self.ev(b, m) },
            K::Op(Op::Zext, a, ..) => self.ev(a, m),
            K::Op(Op::And, a, b, _) if w == 1 => if self.ev(a, m) & 1 == 0 { 0 } else { self.ev(b, m) & 1 },
            K::Op(Op::Or, a, b, _) if w == 1 => if self.ev(a, m) & 1 == 1 { 1 } else { self.ev(b, m) & 1 },
            K::Op(op, a, b, _) => {
                let x = self.ev(a, m) as u64;
                let y = if matches!(op, Op::Sext) { 0 } else { self.ev(b, m) as u64 };
                eval_op(op, self.w(a), w, x, y, 0) as u128
            }
            _ => unreachable!(),
        };
        self.memo[e as usize] = (self.epoch, r);
        r
    }
    /// The expression with some variables replaced by their (only possible) values.
    pub fn subst(&mut self, e: Ex, fixed: u128, m: &[u8], memo: &mut HashMap<Ex, Ex>) -> Ex {
        let (k, w, tab, var, sup) = { let n = &self.nodes[e as usize]; (n.k, n.w as u32, n.tab, n.var, n.sup) };
        if sup & fixed == 0 { return e; }
        if tab != NONE { let v = self.tabs[tab as usize][m[var as usize] as usize]; return self.konst(v, w); }
        if let Some(r) = memo.get(&e) { return *r; }
        let r = match k {
            K::Op(op, a, b, c) => {
                let x = self.subst(a, fixed, m, memo);
                let imm = matches!(op, Op::Extract | Op::Zext | Op::Sext);
                let y = if imm { b } else { self.subst(b, fixed, m, memo) };
                let z = if op == Op::Ite { self.subst(c, fixed, m, memo) } else { c };
                if op == Op::Extract { self.extract(x, b, w) } else { self.mk(op, x, y, z, w) }
            }
            _ => e,
        };
        memo.insert(e, r);
        r
    }
    // ---- solver encoding ----
    pub fn zvar(&mut self, z: &Z3, v: u16) -> Ast {
        while self.zvars.len() <= v as usize { let n = format!("b{}", self.zvars.len()); self.zvars.push(z.var(&n, 8)); }
        self.zvars[v as usize]
    }
    pub fn zbv(&mut self, z: &Z3, e: Ex) -> Ast {
        if let Some(a) = self.zcache.get(&e) { return *a; }
        let (k, w) = { let n = &self.nodes[e as usize]; (n.k, n.w as u32) };
        let r = match k {
            K::Const(v) => z.num(v, w),
            K::Var(v) => self.zvar(z, v),
            K::Tab => { let b = self.ztab(z, e); b }
            _ if w == 1 && !matches!(k, K::Op(Op::Extract, ..)) => { let b = self.zb(z, e); z.ite(b, z.num(1, 1), z.num(0, 1)) }
            K::Op(op, a, b, c) => {
                if op == Op::Ite { let cc = self.zb(z, a); let x = self.zbv(z, b); let y = self.zbv(z, c); z.ite(cc, x, y) }
                else if op == Op::Extract { let x = self.zbv(z, a); z.extract(b + w - 1, b, x) }
                else if op == Op::Zext { let x = self.zbv(z, a); z.zext(w - self.w(a), x) }
                else if op == Op::Sext { let x = self.zbv(z, a); z.sext(w - self.w(a), x) }
                else {
                    let x = self.zbv(z, a); let y = self.zbv(z, b);
                    match op {
                        Op::Add => z.add(x, y), Op::Sub => z.sub(x, y), Op::Mul => z.mul(x, y), Op::UDiv => z.udiv(x, y), Op::SDiv => z.sdiv(x, y),
                        Op::URem => z.urem(x, y), Op::SRem => z.srem(x, y), Op::Shl => z.shl(x, y), Op::LShr => z.lshr(x, y), Op::AShr => z.ashr(x, y),
                        Op::And => z.and(x, y), Op::Or => z.or(x, y), Op::Xor => z.xor(x, y), Op::Concat => z.concat(x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.zcache.insert(e, r);
        r
    }
    /// Encodes a raw table as a chain over runs of constant or unit-slope values.
    fn ztab(&mut self, z: &Z3, e: Ex) -> Ast {
        let (var, w) = { let n = &self.nodes[e as usize]; (n.var, n.w as u32) };
        let t = self.tabs[self.nodes[e as usize].tab as usize].clone();
        let v = self.zvar(z, var);
        let mut runs: Vec<(u32, u64, bool)> = Vec::new(); // start, value at start, slope
        let mut i = 0usize;
        while i < 256 {
            let (mut j, mut k) = (i + 1, i + 1);
            while j < 256 && t[j] == t[i] { j += 1; }
            while k < 256 && t[k] == t[i].wrapping_add((k - i) as u64) & mask(w) { k += 1; }
            if k > j { runs.push((i as u32, t[i], true)); i = k; } else { runs.push((i as u32, t[i], false)); i = j; }
        }
        if runs.len() > 6 {
            let bits: Vec<Ast> = (0..8).map(|i| { let x = z.extract(i, i, v); z.eq(x, z.num(1, 1)) }).collect();
            let mut layer: Vec<Ast> = t.iter().map(|x| z.num(*x, w)).collect();
            for b in bits { layer = layer.chunks(2).map(|c| if c[0] == c[1] { c[0] } else { z.ite(b, c[1], c[0]) }).collect(); }
            return layer[0];
        }
        let vw = if w >= 8 { z.zext(w - 8, v) } else { z.extract(w - 1, 0, v) };
        let val = |r: &(u32, u64, bool)| if r.2 { z.add(vw, z.num(r.1.wrapping_sub(r.0 as u64) & mask(w), w)) } else { z.num(r.1, w) };
        let mut acc = val(&runs[0]);
        for r in &runs[1..] { let c = z.ule(z.num(r.0 as u64, 8), v); let x = val(r); acc = z.ite(c, x, acc); }
        acc
    }
    pub fn zb(&mut self, z: &Z3, e: Ex) -> Ast {
        if let Some(a) = self.zbool.get(&e) { return *a; }
        let (k, w) = { let n = &self.nodes[e as usize]; (n.k, n.w) };
        assert_eq!(w, 1);
        let r = match k {
            K::Op(Op::Eq, a, b, _) => { let x = self.zbv(z, a); let y = self.zbv(z, b); z.eq(x, y) }
            K::Op(Op::Ult, a, b, _) => { let x = self.zbv(z, a); let y = self.zbv(z, b); z.ult(x, y) }
            K::Op(Op::Ule, a, b, _) => { let x = self.zbv(z, a); let y = self.zbv(z, b); z.ule(x, y) }
            K::Op(Op::Slt, a, b, _) => { let x = self.zbv(z, a); let y = self.zbv(z, b); z.slt(x, y) }
            K::Op(Op::Sle, a, b, _) => { let x = self.zbv(z, a); let y = self.zbv(z, b); z.sle(x, y) }
            K::Op(Op::And, a, b, _) => { let x = self.zb(z, a); let y = self.zb(z, b); z.band(&[x, y]) }
            K::Op(Op::Or, a, b, _) => { let x = self.zb(z, a); let y = self.zb(z, b); z.bor(&[x, y]) }
            K::Op(Op::Xor, a, b, _) => { let x = self.zb(z, a); let y = self.zb(z, b); let q = z.eq(x, y); z.not(q) }
            K::Op(Op::Ite, c, a, b) => { let q = self.zb(z, c); let x = self.zb(z, a); let y = self.zb(z, b); z.ite(q, x, y) }
            K::Op(Op::Add | Op::Sub, a, b, _) => { let x = self.zb(z, a); let y = self.zb(z, b); let q = z.eq(x, y); z.not(q) }
            K::Op(Op::Mul, a, b, _) => { let x = self.zb(z, a); let y = self.zb(z, b); z.band(&[x, y]) }
            _ => { let x = if let K::Tab = k { self.ztab(z, e) } else if let K::Op(o, ..) = k { if matches!(o, Op::Extract) { self.zbv(z, e) } else { self.ztab_or_fail(z, e) } } else { self.zbv(z, e) }; z.eq(x, z.num(1, 1)) }
        };
        self.zbool.insert(e, r);
        r
    }
    fn ztab_or_fail(&mut self, z: &Z3, e: Ex) -> Ast {
        assert!(self.nodes[e as usize].tab != NONE, "unencodable boolean {:?}", self.nodes[e as usize].k);
        self.ztab(z, e)
    }
    /// Encodes membership of a variable in a domain.
    pub fn zdom(&mut self, z: &Z3, v: u16, d: &Dom) -> Ast {
        let x = self.zvar(z, v);
        let mut ors = Vec::new();
        let mut i = 0usize;
        while i < 256 {
            if !dom_has(d, i as u8) { i += 1; continue; }
            let mut j = i;
            while j < 255 && dom_has(d, (j + 1) as u8) { j += 1; }
            if i == j { ors.push(z.eq(x, z.num(i as u64, 8))); }
            else { let a = z.ule(z.num(i as u64, 8), x); let b = z.ule(x, z.num(j as u64, 8)); ors.push(z.band(&[a, b])); }
            i = j + 1;
        }
        z.bor(&ors)
    }
    pub fn dump(&self, e: Ex, depth: u32) -> String {
        let n = &self.nodes[e as usize];
        match n.k {
            K::Const(v) => format!("{:#x}", v),
            K::Var(v) => format!("b{}", v),
            K::Tab => format!("tab(b{})", n.var),
            K::Op(op, a, b, c) => {
                if depth == 0 { return "..".into(); }
                if op == Op::Extract { format!("Ex[{}+{}]({})", b, n.w, self.dump(a, depth - 1)) }
                else if op == Op::Ite { format!("Ite({}, {}, {})", self.dump(a, depth - 1), self.dump(b, depth - 1), self.dump(c, depth - 1)) }
                else if matches!(op, Op::Zext | Op::Sext) { format!("{:?}{}({})", op, n.w, self.dump(a, depth - 1)) }
                else { format!("{:?}({}, {})", op, self.dump(a, depth - 1), self.dump(b, depth - 1)) }
            }
        }
    }
}
