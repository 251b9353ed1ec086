//! Path exploration with state merging at post-dominators and function returns.
use crate::env::Env;
use crate::exec::*;
use crate::expr::*;
use crate::ir::{Func, Ty};
use crate::mem::*;
use std::rc::Rc;

const BUDGET: u64 = 60_000;
/// Joins at which a state may fail to merge before it is run to the end of its frame on its own.
const PATIENCE: u32 = 12;

enum Place { Reg(u32), Mem(Id, u32), Out(usize, usize) }

/// How a state came to stop: at a join or past its frame, out of budget, or at an undecided fork.
#[derive(Clone, Copy, PartialEq)]
enum How { Arrived, Escaped, Forked }

impl Eng {
    pub fn explore(&mut self, st: State) -> Result<(), String> {
        let mut stops = vec![];
        let left = self.run(st, &mut stops)?;
        if !left.is_empty() { return Err("states left over".into()); }
        Ok(())
    }
    fn done(&mut self, mut s: State, e: End) -> Result<(), String> {
        if e == End::Infeasible { return Ok(()); }
        let excluded = e == End::Assume;
        if excluded { self.stats.excluded += 1; } else { self.stats.paths += 1; }
        if self.stats.paths > self.max_paths { return Err(format!("more than {} paths", self.max_paths)); }
        self.fix_model_len(&mut s);
        if !s.model_ok { match self.ensure_model(&mut s) { Ok(()) => {} Err(X::End(_)) => return Ok(()), Err(X::Err(m)) => return Err(m), Err(_) => unreachable!() } }
        for n in &s.env.notes { let t = String::from_utf8_lossy(n).into_owned(); if self.notes.len() < 2000 && !self.notes.contains(&t) { self.notes.push(t); } }
        if self.trace { eprintln!("path {} excl={} model={:02x?} steps={}", self.stats.paths, excluded, s.model, s.steps); }
        self.paths.push(PathRec { dom: s.dom.clone(), cons: s.cons.clone(), model: (*s.model).clone(), excluded, outs: vec![] });
        Ok(())
    }
    /// Runs a state, and everything it forks into, until the innermost region's next stop.
    fn run(&mut self, st: State, stops: &mut Vec<Stop>) -> Result<Vec<(State, How)>, String> {
        let mut work = vec![st];
        let mut out = vec![];
        let here = stops.last().map_or(0, |t| t.depth);
        'next: while let Some(mut s) = work.pop() {
            if self.late() { return Err("job time limit".into()); }
            loop {
                match self.run_straight(&mut s, stops)? {
                    Ev::Stop => { out.push((s, How::Arrived)); continue 'next; }
                    Ev::Escape => { self.stats.escapes += 1; out.push((s, How::Escaped)); continue 'next; }
                    Ev::End(e) => { self.done(s, e)?; continue 'next; }
                    Ev::Fork(cons) => {
                        self.stats.forks += 1;
                        let depth = s.stack.len();
                        if self.trace { let f = s.cur.f; *self.forksites.entry((f.module, f.name.to_string(), f.block_of[s.cur.pc as usize])).or_insert(0) += 1; }
                        let mut kids = vec![];
                        let n = cons.len();
                        let mut sopt = Some(s);
                        for (i, c) in cons.iter().enumerate() {
                            let mut k = if i + 1 == n { sopt.take().unwrap() } else { sopt.as_ref().unwrap().clone() };
                            k.forks += 1;
                            match self.apply(&mut k, c) { Ok(()) => kids.push(k), Err(X::End(_)) => {} Err(X::Err(m)) => return Err(m), Err(_) => return Err("apply".into()) }
                        }
                        if kids.len() == 1 { s = kids.pop().unwrap(); continue; }
                        if depth == here && stops.last().map_or(false, |t| t.join) { out.extend(kids.into_iter().map(|k| (k, How::Forked))); continue 'next; }
                        self.region(kids, depth, here, stops, &mut work, &mut out)?;
                        continue 'next;
                    }
                }
            }
        }
        Ok(out)
    }
    /// Advances the states of one call frame together, the one furthest behind first, merging them where
    /// control flow joins, until one is left or all have left the frame.
    fn region(&mut self, kids: Vec<State>, depth: usize, here: usize, stops: &mut Vec<Stop>, work: &mut Vec<State>, out: &mut Vec<(State, How)>) -> Result<(), String> {
        let limit = kids[0].steps + BUDGET;
        let mut pool: Vec<(State, Vec<(u32, u32)>, u32, bool)> = kids.into_iter().map(|k| (k, vec![], 0, true)).collect();
        let mut fin: Vec<State> = vec![];
        loop {
            if pool.is_empty() { break; }
            if pool.len() == 1 && fin.is_empty() { work.push(pool.pop().unwrap().0); return Ok(()); }
            let mut best = 0;
            if let Some(i) = pool.iter().position(|p| p.2 > PATIENCE) { best = i; }
            else if pool.len() > 1 { let mut bk = place(&pool[0]); for i in 1..pool.len() { let k = place(&pool[i]); if k < bk { bk = k; best = i; } } }
            let (s, it, fails, _) = pool.swap_remove(best);
            let from = s.cur.f.block_of[s.cur.pc as usize];
            stops.push(Stop { depth, join: !pool.is_empty() && fails <= PATIENCE, limit });
            let got = self.run(s, stops)?;
            stops.pop();
            'got: for (mut x, how) in got {
                if x.stack.len() < depth { fin.push(x); continue; }
                if how == How::Escaped { work.push(x); continue; }
                let f = x.cur.f;
                let b = f.block_of[x.cur.pc as usize];
                let mut it = it.clone();
                let at_start = how == How::Arrived && f.blocks[b as usize].start == x.cur.pc;
                if b != from || at_start {
                    it.retain(|(h, _)| f.loops[b as usize].contains(h));
                    if at_start && f.loops[b as usize].last() == Some(&b) {
                        let back = f.loops[from as usize].contains(&b);
                        match it.iter_mut().find(|(h, _)| *h == b) { Some(e) => e.1 += 1, None => it.push((b, back as u32)) }
                    }
                }
                let mut fails = if at_start { fails } else { 0 };
                if at_start {
                    let mut i = 0; let mut tries = 0; let mut met = false;
                    while i < pool.len() {
                        if pool[i].0.cur.pc == x.cur.pc { met = true; }
                        if pool[i].0.cur.pc == x.cur.pc && tries < 64 && !pool[i].3 && self.alike(&pool[i].0, &x) {
                            tries += 1;
                            if let Some(m) = self.try_merge(&pool[i].0, &x, Some((f, b))) {
                                self.stats.merges += 1;
                                let (_, it2, _, _) = pool.swap_remove(i);
                                for (h, c) in it2 { match it.iter_mut().find(|e| e.0 == h) { Some(e) => e.1 = e.1.max(c), None => it.push((h, c)) } }
                                x = m; i = 0; tries = 0; met = false; fails = 0; continue;
                            }
                            self.stats.merge_fail += 1;
                        }
                        i += 1;
                    }
                    if met { fails += 1; }
                }
                if pool.len() > 20_000 { work.push(x); continue 'got; }
                pool.push((x, it, fails, how == How::Forked));
            }
        }
        for k in self.merge(fin) { if k.stack.len() < here { out.push((k, How::Arrived)) } else { work.push(k) } }
        Ok(())
    }
    fn merge(&mut self, states: Vec<State>) -> Vec<State> {
        let mut groups: Vec<((u32, usize, usize, usize, u32), Vec<State>)> = vec![];
        'n: for s in states {
            let mut s = s;
            let key = |s: &State| (s.cur.pc, s.stack.len(), s.env.out[0].len(), s.env.out[1].len(), s.mem.next);
            'again: loop {
                let k = key(&s);
                let g = match groups.iter_mut().position(|g| g.0 == k) { Some(g) => g, None => { groups.push((k, vec![s])); continue 'n; } };
                for i in 0..groups[g].1.len().min(256) {
                    if let Some(m) = self.try_merge(&groups[g].1[i], &s, None) { self.stats.merges += 1; groups[g].1.swap_remove(i); s = m; continue 'again; }
                }
                groups[g].1.push(s);
                continue 'n;
            }
        }
        let out: Vec<State> = groups.into_iter().flat_map(|g| g.1).collect();
        if out.len() > 1 { self.stats.merge_fail += 1; }
        out
    }
    fn veq(&self, a: &V, b: &V) -> bool {
        match (a, b) { (V::C(x), V::C(y)) => x == y, (V::S(x), V::S(y)) => x == y, (V::W(x), V::W(y)) => x == y, (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| self.veq(p, q))), _ => false }
    }
    fn mergeable(&self, a: &V, b: &V, t: &Ty) -> bool {
        if self.veq(a, b) { return true; }
        match t {
            Ty::I(w) if *w <= 32 => matches!((a, b), (V::C(_) | V::S(_), V::C(_) | V::S(_))),
            Ty::I(w) if *w <= 64 => matches!((a, b), (V::S(_), V::C(_) | V::S(_)) | (V::C(_), V::S(_))),
            Ty::Struct(..) | Ty::Arr(..) => match (a, b) { (V::A(x), V::A(y)) if x.len() == y.len() => x.iter().zip(y.iter()).enumerate().all(|(i, (p, q))| self.mergeable(p, q, &t.field(i).1)), _ => false },
            _ => false,
        }
    }
    fn mix(&mut self, c: Ex, a: &V, b: &V, t: &Ty) -> V {
        if self.veq(a, b) { return a.clone(); }
        match (a, b) {
            (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).enumerate().map(|(i, (p, q))| { let ft = t.field(i).1; self.mix(c, p, q, &ft) }).collect())),
            _ => self.ite(c, a, b, t.bits()).ok().expect("ite"),
        }
    }
    fn try_merge(&mut self, a: &State, b: &State, at: Option<(&'static Func, u32)>) -> Option<State> {
        if a.stack.len() != b.stack.len() || !std::ptr::eq(a.cur.f, b.cur.f) || a.cur.pc != b.cur.pc || a.cur.ret_to != b.cur.ret_to || a.cur.boundary != b.cur.boundary { return None; }
        if !a.stack.iter().zip(&b.stack).all(|(x, y)| Rc::ptr_eq(x, y)) { return None; }
        if (a.run_steps > 0) != (b.run_steps > 0) { return None; }
        // path condition
        let n = a.dom.len().max(b.dom.len());
        let mut dd = vec![];
        if !Rc::ptr_eq(&a.dom, &b.dom) { for v in 0..n as u16 { let (x, y) = (self.dom_of(a, v), self.dom_of(b, v)); if x != y { dd.push((v, x, y)); if dd.len() > 1 { return None; } } } }
        let cp = a.cons.iter().zip(b.cons.iter()).take_while(|(x, y)| x == y).count();
        let (xa, xb) = (&a.cons[cp..], &b.cons[cp..]);
        let cond;
        let mut dom = a.dom.clone();
        if dd.len() == 1 && xa.is_empty() && xb.is_empty() {
            let (v, x, y) = dd[0];
            if !dom_empty(&dom_and(&x, &y)) { return None; }
            cond = self.ex.from_dom(v, &x);
            let d = Rc::make_mut(&mut dom);
            if d.len() < n { d.resize(n, FULL); }
            d[v as usize] = dom_or(&x, &y);
        } else if dd.is_empty() && xa.len() == 1 && xb.len() == 1 {
            let nx = self.ex.not(xa[0]);
            if nx != xb[0] { return None; }
            cond = xa[0];
        } else { return None; }
        // environment
        let (ea, eb) = (&a.env, &b.env);
        let mut diffs: Vec<(Place, V, V, Ty)> = vec![];
        if !Rc::ptr_eq(ea, eb) {
            if !env_same(ea, eb) { return None; }
            for k in 0..2 { if ea.out[k].len() != eb.out[k].len() { return None; } for i in 0..ea.out[k].len() { let (x, y) = (ea.out[k][i], eb.out[k][i]); if x != y { diffs.push((Place::Out(k, i), outv(x), outv(y), Ty::I(8))); } } }
        }
        // registers
        match at {
            Some((f, m)) => {
                let live = f.live_at(m);
                let lv = &live[m as usize];
                for r in 0..f.nregs {
                    if lv[r as usize / 64] >> (r % 64) & 1 == 0 && !f.blocks[m as usize].phis.contains(&r) { continue; }
                    let (x, y) = (&a.cur.regs[r as usize], &b.cur.regs[r as usize]);
                    if !self.veq(x, y) { let t = &f.regty[r as usize]; if !self.mergeable(x, y, t) { return None; } diffs.push((Place::Reg(r), x.clone(), y.clone(), t.clone())); }
                }
            }
            None => {
                let f = a.cur.f;
                for r in 0..f.nregs {
                    let (x, y) = (&a.cur.regs[r as usize], &b.cur.regs[r as usize]);
                    if !self.veq(x, y) { let t = &f.regty[r as usize]; if !self.mergeable(x, y, t) { return None; } diffs.push((Place::Reg(r), x.clone(), y.clone(), t.clone())); }
                }
            }
        }
        // memory
        let mut base = a.mem.clone();
        let hl = a.mem.heap.len().max(b.mem.heap.len());
        for c in 0..hl {
            match (a.mem.heap.get(c), b.mem.heap.get(c)) {
                (Some(x), Some(y)) => {
                    if Rc::ptr_eq(x, y) { continue; }
                    for i in 0..CH {
                        match (&x[i], &y[i]) {
                            (Some(p), Some(q)) => { if !Rc::ptr_eq(p, q) && !self.obj_diff(a, b, Id::Heap((c * CH + i) as u32), p, q, &mut diffs) { return None; } }
                            (None, Some(q)) => { Rc::make_mut(&mut base.heap[c])[i] = Some(q.clone()); }
                            _ => {}
                        }
                    }
                }
                (None, Some(y)) => base.heap.push(y.clone()),
                _ => {}
            }
        }
        base.next = a.mem.next.max(b.mem.next);
        let d = a.stack.len();
        for i in 0..=d {
            let (x, y) = (a.mem.stack.get(i).cloned().flatten(), b.mem.stack.get(i).cloned().flatten());
            match (x, y) { (Some(p), Some(q)) => { if !Rc::ptr_eq(&p, &q) && !self.obj_diff(a, b, Id::Stack(i as u32), &p, &q, &mut diffs) { return None; } } (None, None) => {} _ => return None }
        }
        for m in 0..a.mem.globals.len() {
            if Rc::ptr_eq(&a.mem.globals[m], &b.mem.globals[m]) { continue; }
            for g in 0..a.mem.globals[m].len() { match (&a.mem.globals[m][g], &b.mem.globals[m][g]) { (Some(p), Some(q)) => if !Rc::ptr_eq(p, q) && !self.obj_diff(a, b, Id::Glob(m as u32, g as u32), p, q, &mut diffs) { return None; }, _ => {} } }
        }
        if diffs.len() > 4096 { return None; }
        // a number that would depend on several bytes is likely a length or a tag: keep the cases apart
        let cs = self.ex.nodes[cond as usize].sup;
        let spread = |e: &Eng, v: &V| -> u128 { match v { V::S(x) => e.ex.nodes[*x as usize].sup, _ => 0 } };
        for (p, x, y, t) in &diffs {
            if let (Place::Reg(_), Ty::I(w)) = (p, t) { if *w > 1 && (cs | spread(self, x) | spread(self, y)).count_ones() > 1 { return None; } }
        }
        // build
        let mut s = a.clone();
        s.mem = base;
        s.dom = dom;
        s.cons = Rc::new(a.cons[..cp].to_vec());
        let ep = a.eqs.iter().zip(b.eqs.iter()).take_while(|(x, y)| x == y).count();
        s.eqs = Rc::new(a.eqs[..ep].to_vec());
        if !a.model_ok && b.model_ok { s.model = b.model.clone(); s.model_ok = true; }
        s.steps = a.steps.max(b.steps); s.run_steps = a.run_steps.min(b.run_steps);
        for (p, x, y, t) in diffs {
            let v = self.mix(cond, &x, &y, &t);
            match p {
                Place::Reg(r) => s.cur.regs[r as usize] = v,
                Place::Out(k, i) => { Rc::make_mut(&mut s.env).out[k][i] = match v { V::C(k) => k as u32, V::S(e) => e | 1 << 31, _ => unreachable!() } }
                Place::Mem(id, off) => {
                    let o = s.mem.get_mut(id).unwrap();
                    match v { V::C(k) => { o.bytes[off as usize] = k as u8; if let Some(q) = &mut o.sym { q[off as usize] = NOSYM; } } V::S(e) => { o.bytes[off as usize] = 0; o.syms()[off as usize] = e; } _ => unreachable!() }
                }
            }
        }
        Some(s)
    }
    fn obj_diff(&mut self, a: &State, _b: &State, id: Id, p: &Obj, q: &Obj, diffs: &mut Vec<(Place, V, V, Ty)>) -> bool {
        if p.bytes.len() != q.bytes.len() { return false; }
        let n = p.bytes.len();
        let mut w = 0;
        while w < n {
            let e = (w + 8).min(n);
            let same = p.bytes[w..e] == q.bytes[w..e] && match (&p.sym, &q.sym) { (None, None) => true, _ => (w..e).all(|i| p.sym_at(i) == q.sym_at(i)) };
            if !same {
                if e - w == 8 && self.clash(a, p, q, w) { self.hot.retain(|h| *h != (id, w)); self.hot.insert(0, (id, w)); self.hot.truncate(16); return false; }
                for i in w..e {
                    let (s, t) = (p.sym_at(i), q.sym_at(i));
                    if s == t && (s != NOSYM || p.bytes[i] == q.bytes[i]) { continue; }
                    let v = |s: Ex, b: u8| if s == NOSYM { V::C(b as u64) } else { V::S(s) };
                    diffs.push((Place::Mem(id, i as u32), v(s, p.bytes[i]), v(t, q.bytes[i]), Ty::I(8)));
                }
                if diffs.len() > 4096 { return false; }
            }
            w = e;
        }
        true
    }
    /// Cheap necessary conditions for merging: output lengths, and the words that stopped recent merges.
    fn alike(&mut self, a: &State, b: &State) -> bool {
        if a.env.out[0].len() != b.env.out[0].len() || a.env.out[1].len() != b.env.out[1].len() { return false; }
        for k in 0..self.hot.len() {
            let (id, w) = self.hot[k];
            if let (Some(p), Some(q)) = (a.mem.get(id), b.mem.get(id)) {
                if !Rc::ptr_eq(p, q) && p.bytes.len() == q.bytes.len() && w + 8 <= p.bytes.len() && self.clash(a, p, q, w) { self.hot.swap(k, k / 2); return false; }
            }
        }
        true
    }
    /// Two different concrete lengths or pointers in the same word cannot be merged.
    fn clash(&self, a: &State, p: &Obj, q: &Obj, w: usize) -> bool {
        if (p.wide[w / 8] | q.wide[w / 8]) == 0 || p.is_sym(w, 8) || q.is_sym(w, 8) || p.bytes[w..w + 8] == q.bytes[w..w + 8] { return false; }
        let x = u64::from_le_bytes(p.bytes[w..w + 8].try_into().unwrap()); let y = u64::from_le_bytes(q.bytes[w..w + 8].try_into().unwrap());
        let small = |v: u64| v < 1 << 32;
        let ptr = |v: u64| v >> 32 != 0 && self.resolve(a, v, 0).is_ok();
        (small(x) && small(y)) || ptr(x) || ptr(y)
    }
    /// The explored path conditions must cover the whole input space.
    pub fn coverage(&mut self) -> Result<bool, String> {
        let paths = std::mem::take(&mut self.paths);
        let z: *const crate::z3::Z3 = &self.z;
        let z = unsafe { &*z };
        let mut negs = vec![];
        for p in &paths {
            let mut cs = vec![];
            for (v, d) in p.dom.iter().enumerate() { if *d != FULL { let x = self.ex.zdom(z, v as u16, d); cs.push(x); } }
            for c in p.cons.iter() { let x = self.ex.zb(z, *c); cs.push(x); }
            let c = z.band(&cs);
            negs.push(z.not(c));
        }
        self.paths = paths;
        let (r, _) = self.zcheck(&negs, &[]);
        match r { crate::z3::Res::Unsat => Ok(true), crate::z3::Res::Sat => Ok(false), _ => Err("coverage query undecided".into()) }
    }
}
/// Where a state stands in its frame: smaller is further behind.
fn place(p: &(State, Vec<(u32, u32)>, u32, bool)) -> Vec<u32> {
    let f = p.0.cur.f;
    let b = f.block_of[p.0.cur.pc as usize];
    let mut k = vec![];
    for h in &f.loops[b as usize] { k.push(f.rpo[*h as usize]); k.push(p.1.iter().find(|e| e.0 == *h).map_or(0, |e| e.1)); }
    k.push(f.rpo[b as usize]);
    k.push(p.0.cur.pc);
    k
}
pub fn outv(x: u32) -> V { if x >> 31 == 1 { V::S(x & 0x7fff_ffff) } else { V::C(x as u64) } }
fn env_same(a: &Env, b: &Env) -> bool {
    a.args == b.args && a.vars == b.vars && a.files == b.files && a.fds == b.fds && a.inp == b.inp && a.errno == b.errno && a.heap_mark == b.heap_mark && a.nsym == b.nsym && a.crash == b.crash && a.notes == b.notes && a.argv_vars == b.argv_vars
}
