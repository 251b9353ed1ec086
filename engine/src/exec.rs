//! Symbolic interpreter.
use crate::env::Env;
use crate::expr::*;
use crate::fx::{FxMap, FxSet};
use crate::ir::{self, Bin, Callee, Cast, Cv, Func, Module, Pred, Ty, FBASE, GBASE, I, O};
use crate::mem::*;
use crate::z3::{Ast, Res, Z3};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { C(u64), S(Ex), W(Rc<u128>), A(Rc<Vec<V>>) }

#[derive(Clone)]
pub struct Frame { pub f: &'static Func, pub pc: u32, pub regs: Vec<V>, pub ret_to: u32, pub boundary: bool }

#[derive(Clone, Debug)]
pub enum Con { Dom(u16, Dom), True(Ex), Eq(Ex, u64) }

/// Why execution of the current instruction stopped.
pub enum X { Fork(Vec<Con>), End(End), Err(String) }
#[derive(Clone, Debug, PartialEq)]
pub enum End { Done, Assume, Infeasible }
pub type R<T> = Result<T, X>;

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub dom: Rc<Vec<Dom>>,
    pub cons: Rc<Vec<Ex>>,
    pub eqs: Rc<Vec<(Ex, u64)>>,
    pub model: Rc<Vec<u8>>,
    pub model_ok: bool,
    pub env: Rc<Env>,
    pub steps: u64,
    pub run_steps: u64,
    pub forks: u32,
}

#[derive(Clone, Copy, Debug)]
pub struct Stop { pub depth: usize, pub join: bool, pub limit: u64 }

pub enum Ev { Fork(Vec<Con>), Stop, End(End), Escape }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub instrs: u64, pub forks: u64, pub merges: u64, pub merge_fail: u64, pub escapes: u64, pub paths: u64, pub z3: u64, pub z3_unknown: u64, pub z3_ns: u64, pub doms: u64, pub asserts: u64, pub assert_sym: u64, pub obligations: u64, pub excluded: u64, pub crash: u64, pub max_depth: u64, pub runs: u64, pub reused: u64, pub searched: u64 }

pub struct Violation { pub model: Vec<u8>, pub msg: String }
pub struct PathRec { pub dom: Rc<Vec<Dom>>, pub cons: Rc<Vec<Ex>>, pub model: Vec<u8>, pub excluded: bool, pub outs: Vec<(Vec<u8>, Vec<u8>)> }

pub struct Eng {
    pub ex: Exprs,
    pub z: Z3,
    pub mods: Vec<&'static Module>,
    pub funcs: Vec<Vec<Option<&'static Func>>>,
    pub kcache: FxMap<usize, V>,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub paths: Vec<PathRec>,
    pub used: FxSet<(usize, u32)>,
    pub truncated: Option<String>,
    pub max_paths: u64,
    pub run_cap: u64,
    pub trace: bool,
    pub forksites: FxMap<(usize, String, u32), u64>,
    pub notes: Vec<String>,
    pub deadline: Option<std::time::Instant>,
    pub want_native: usize,
    pub case: (u32, u32),
    pub keep_outs: bool,
    pub hot: Vec<(Id, usize)>,
    pub recent: Vec<Vec<u8>>,
    pub tick: u32,
    pub norms: FxMap<(Ex, Dom), Ex>,
}

#[inline] fn gv(regs: &[V], o: &O, k: &mut FxMap<usize, V>) -> V {
    match o { O::R(r) => regs[*r as usize].clone(), O::C(v) => V::C(*v), O::K(c) => { let p = Rc::as_ptr(c) as *const u8 as usize; k.entry(p).or_insert_with(|| cv(c)).clone() } }
}
fn cv(c: &Cv) -> V {
    match c { Cv::N(v) => V::C(*v), Cv::W(v) => V::W(Rc::new(*v)), Cv::A(v) => V::A(Rc::new(v.iter().map(cv).collect())), Cv::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())) }
}
pub fn zero(ty: &Ty) -> V {
    match ty {
        Ty::I(n) if *n > 64 => V::W(Rc::new(0)),
        Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => V::A(Rc::new((0..ty.count()).map(|i| match ty { Ty::Struct(v, _) => zero(&v[i]), Ty::Arr(_, t) | Ty::Vec(_, t) => zero(t), _ => unreachable!() }).collect())),
        _ => V::C(0),
    }
}

impl Eng {
    pub fn new(mods: Vec<&'static Module>) -> Eng {
        let mut ex = Exprs::new();
        ex.konst(0, 1);
        let funcs = mods.iter().map(|m| vec![None; m.fdefs.len()]).collect();
        Eng { ex, z: Z3::new(20000), mods, funcs, kcache: FxMap::default(), stats: Stats::default(), violations: vec![], paths: vec![], used: FxSet::default(), truncated: None, max_paths: 200_000, run_cap: 600_000_000, trace: false, forksites: FxMap::default(), notes: vec![], deadline: None, want_native: 0, case: (0, 0), keep_outs: false, hot: vec![], recent: vec![], tick: 0, norms: FxMap::default() }
    }
    pub fn func(&mut self, m: usize, i: usize) -> &'static Func {
        if let Some(f) = self.funcs[m][i] { return f; }
        let f: &'static Func = Box::leak(Box::new(self.mods[m].compile(i)));
        self.funcs[m][i] = Some(f);
        f
    }
    pub fn fname(&self, addr: u64) -> Option<(usize, u32)> {
        let hi = addr >> 32;
        if hi < FBASE || hi >= FBASE + self.mods.len() as u64 { return None; }
        let o = addr & 0xffff_ffff;
        if o == 0 || o % 16 != 0 { return None; }
        Some(((hi - FBASE) as usize, (o / 16 - 1) as u32))
    }
    pub fn initial(&mut self) -> State {
        let mut mem = Mem::new();
        for m in 0..self.mods.len() { mem.globals.push(Rc::new(vec![])); self.reset_globals(&mut mem, m, true); }
        let f = self.func_by_name(1, "sx_entry");
        let mut regs = vec![V::C(0); f.nregs as usize];
        regs[0] = V::C(self.case.0 as u64); regs[1] = V::C(self.case.1 as u64);
        let mut st = State { cur: Frame { f, pc: 0, regs, ret_to: u32::MAX, boundary: false }, stack: vec![], mem, dom: Rc::new(vec![]), cons: Rc::new(vec![]), eqs: Rc::new(vec![]), model: Rc::new(vec![]), model_ok: true, env: Rc::new(Env::default()), steps: 0, run_steps: 0, forks: 0 };
        self.enter(&mut st);
        st
    }
    pub fn func_by_name(&mut self, m: usize, n: &str) -> &'static Func {
        let i = *self.mods[m].fmap.get(n).unwrap_or_else(|| panic!("no function {} in module {}", n, m)) as usize;
        self.func(m, i)
    }
    /// (Re)initialises the globals of a module; constants are shared.
    pub fn reset_globals(&mut self, mem: &mut Mem, m: usize, all: bool) {
        let md = self.mods[m];
        if all {
            let v = (0..md.globals.len()).map(|i| Some(Rc::new(Obj::from(md.init(i), md.globals[i].konst)))).collect();
            mem.globals[m] = Rc::new(v);
        } else {
            let v = Rc::make_mut(&mut mem.globals[m]);
            for (i, g) in md.globals.iter().enumerate() { if !g.konst && !g.external { v[i] = Some(Rc::new(Obj::from(md.init(i), false))); } }
        }
    }
    /// Allocates the stack object of the current frame.
    pub fn enter(&mut self, st: &mut State) {
        let d = st.stack.len();
        if st.mem.stack.len() <= d { st.mem.stack.resize(d + 1, None); }
        let fs = st.cur.f.frame;
        st.mem.stack[d] = if fs > 0 { Some(Rc::new(Obj::new(fs as usize))) } else { None };
        if d as u64 > self.stats.max_depth { self.stats.max_depth = d as u64; }
    }

    // ---------- path condition ----------
    pub fn dom_of(&self, st: &State, v: u16) -> Dom { st.dom.get(v as usize).copied().unwrap_or(FULL) }
    pub fn set_dom(&mut self, st: &mut State, v: u16, d: Dom) {
        let dm = Rc::make_mut(&mut st.dom);
        if dm.len() <= v as usize { dm.resize(v as usize + 1, FULL); }
        dm[v as usize] = d;
        self.fix_model_len(st);
        if !dom_has(&d, st.model[v as usize]) {
            let linked = st.cons.iter().any(|c| self.ex.nodes[*c as usize].sup >> v & 1 == 1);
            if linked { st.model_ok = false; }
            else if let Some(x) = dom_first(&d) { Rc::make_mut(&mut st.model)[v as usize] = x; }
        }
    }
    pub fn fix_model_len(&mut self, st: &mut State) {
        let n = self.ex.nvars as usize;
        if st.model.len() < n { Rc::make_mut(&mut st.model).resize(n, 0); }
    }
    /// Adds a constraint known to be satisfiable with the state.
    pub fn assume(&mut self, st: &mut State, e: Ex) {
        if let Some(k) = self.ex.cval(e) { assert!(k == 1, "assuming false"); return; }
        if let Some((v, _)) = self.ex.single(e) {
            let t = self.ex.truth(e);
            let d = dom_and(&self.dom_of(st, v), &t);
            self.set_dom(st, v, d);
            return;
        }
        if let K::Op(Op::And, a, b, _) = self.ex.nodes[e as usize].k { self.assume(st, a); self.assume(st, b); return; }
        if st.cons.contains(&e) { return; }
        Rc::make_mut(&mut st.cons).push(e);
        if let K::Op(Op::Eq, a, b, _) = self.ex.nodes[e as usize].k { if let Some(k) = self.ex.cval(b) { Rc::make_mut(&mut st.eqs).push((a, k)); } }
        self.fix_model_len(st);
        if st.model_ok { if self.ex.eval(e, &st.model) & 1 == 0 { st.model_ok = false; } }
    }
    /// Satisfiability of the state's constraints together with `extra`; Some(model) if satisfiable.
    pub fn solve(&mut self, st: &State, extra: &[Ex]) -> R<Option<Vec<u8>>> {
        let mut sup = 0u128;
        for e in extra { sup |= self.ex.nodes[*e as usize].sup; }
        let all = extra.is_empty();
        if all { for c in st.cons.iter() { sup |= self.ex.nodes[*c as usize].sup; } }
        let mut take = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() { if !take[i] { let s = self.ex.nodes[*c as usize].sup; if s & sup != 0 || all { take[i] = true; sup |= s; ch = true; } } }
            if !ch { break; }
        }
        let mut fs: Vec<Ast> = vec![];
        for e in extra { fs.push(self.ex.zb(&self.z, *e)); }
        for (i, c) in st.cons.iter().enumerate() { if take[i] { fs.push(self.ex.zb(&self.z, *c)); } }
        let mut vars = vec![];
        for v in 0..self.ex.nvars { if sup >> v & 1 == 1 { vars.push(v); let d = self.dom_of(st, v); if d != FULL { fs.push(self.ex.zdom(&self.z, v, &d)); } } }
        let zv: Vec<Ast> = vars.iter().map(|v| self.ex.zvar(&self.z, *v)).collect();
        let (r, vals) = self.zcheck(&fs, &zv);
        match r {
            Res::Unsat => Ok(None),
            Res::Unknown => Err(X::Err("solver returned unknown".into())),
            Res::Sat => {
                let mut m = (*st.model).clone();
                m.resize(self.ex.nvars as usize, 0);
                for v in 0..m.len() { if sup >> v & 1 == 0 { let d = self.dom_of(st, v as u16); if !dom_has(&d, m[v]) { m[v] = dom_first(&d).unwrap_or(0); } } }
                for (v, x) in vars.iter().zip(vals) { m[*v as usize] = x as u8; }
                Ok(Some(m))
            }
        }
    }
    /// Splits a conjunction into per-variable domains; false if some conjunct spans several variables.
    fn conj(&mut self, e: Ex, out: &mut Vec<(u16, Dom)>) -> bool {
        if let Some(k) = self.ex.cval(e) { if k == 0 { out.push((0, [0; 4])); } return true; }
        if let Some((v, _)) = self.ex.single(e) { let t = self.ex.truth(e); match out.iter_mut().find(|o| o.0 == v) { Some(o) => o.1 = dom_and(&o.1, &t), None => out.push((v, t)) } return true; }
        if let K::Op(Op::And, a, b, _) = self.ex.nodes[e as usize].k { let x = self.conj(a, out); let y = self.conj(b, out); return x && y; }
        false
    }
    /// As `solve`, for steering the exploration: conjunctions of facts about unrelated bytes are decided on
    /// their domains (exactly), everything else by the solver.
    pub fn feasible(&mut self, st: &State, extra: &[Ex]) -> R<Option<Vec<u8>>> {
        let mut ds = vec![]; let mut all = !extra.is_empty();
        for e in extra { if !self.conj(*e, &mut ds) { all = false; } }
        let mut linked = false;
        for (v, d) in ds.iter_mut() {
            *d = dom_and(d, &self.dom_of(st, *v));
            if dom_empty(d) { self.stats.doms += 1; return Ok(None); }
            if st.cons.iter().any(|k| self.ex.nodes[*k as usize].sup >> *v & 1 == 1) { linked = true; }
        }
        if all && !linked && st.model_ok {
            self.stats.doms += 1;
            let mut m = (*st.model).clone();
            m.resize(self.ex.nvars as usize, 0);
            for (v, d) in ds { if !dom_has(&d, m[v as usize]) { m[v as usize] = dom_first(&d).unwrap(); } }
            return Ok(Some(m));
        }
        // the current model, adjusted, or a recently found one may do
        let n = self.ex.nvars as usize;
        if st.model_ok && !ds.is_empty() {
            let mut m = (*st.model).clone();
            m.resize(n, 0);
            for (v, d) in &ds { if !dom_has(d, m[*v as usize]) { m[*v as usize] = dom_first(d).unwrap(); } }
            let ok = extra.iter().chain(st.cons.iter()).all(|c| self.ex.eval(*c, &m) & 1 == 1);
            if ok { self.stats.reused += 1; return Ok(Some(m)); }
            // every byte these facts touch is fixed: a failed evaluation is final
            if all {
                let fixed = ds.iter().filter(|(_, d)| dom_count(d) == 1).fold(0u128, |a, (v, _)| a | 1 << *v);
                let bad = st.cons.iter().any(|c| { let s = self.ex.nodes[*c as usize].sup; s & !fixed == 0 && self.ex.eval(*c, &m) & 1 == 0 });
                    if bad { self.stats.doms += 1; return Ok(None); }
            }
        }
        for k in (0..self.recent.len()).rev() {
            let mut m = self.recent[k].clone();
            if m.len() < n { m.resize(n, 0); }
            for (v, x) in m.iter_mut().enumerate() { let d = self.dom_of(st, v as u16); if !dom_has(&d, *x) { *x = match dom_first(&d) { Some(x) => x, None => return Ok(None) }; } }
            let good = |e: &mut Eng, c: Ex, m: &[u8]| e.ex.eval(c, m) & 1 == 1;
            let ok = extra.iter().all(|c| good(self, *c, &m)) && st.cons.iter().all(|c| good(self, *c, &m));
            if ok { self.stats.reused += 1; return Ok(Some(m)); }
        }
        let r = match self.search(st, extra) { Some(r) => { self.stats.searched += 1; r } None => self.solve(st, extra)? };
        if let Some(m) = &r { if self.recent.len() >= 24 { self.recent.remove(0); } self.recent.push(m.clone()); }
        Ok(r)
    }
    /// Exhaustive search over the domains of the bytes the constraints link, where that is small:
    /// Some(None) = infeasible, Some(model) = feasible, None = too large.
    fn search(&mut self, st: &State, extra: &[Ex]) -> Option<Option<Vec<u8>>> {
        let mut cs: Vec<(Ex, u128)> = extra.iter().map(|e| (*e, self.ex.nodes[*e as usize].sup)).collect();
        let mut sup = cs.iter().fold(0, |a, c| a | c.1);
        let mut take = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() { if !take[i] { let s = self.ex.nodes[*c as usize].sup; if s & sup != 0 { take[i] = true; sup |= s; cs.push((*c, s)); ch = true; } } }
            if !ch { break; }
        }
        let mut left = sup; let mut order: Vec<u16> = vec![]; let mut doms = vec![];
        let mut prod = 1f64;
        for v in 0..self.ex.nvars { if sup >> v & 1 == 1 { prod *= dom_count(&self.dom_of(st, v)) as f64; } }
        if prod > 1e9 { return None; }
        // next: the byte that completes a constraint with the fewest new values
        let mut seen = 0u128;
        while left != 0 {
            let mut best = (f64::MAX, 0u16);
            for (_, s) in &cs {
                let open = s & !seen; if open == 0 { continue; }
                let mut cost = 1f64; let mut first = (u32::MAX, 0u16);
                for v in 0..self.ex.nvars { if open >> v & 1 == 1 { let n = dom_count(&self.dom_of(st, v)); cost *= n as f64; if n < first.0 { first = (n, v); } } }
                if cost < best.0 { best = (cost, first.1); }
            }
            if best.0 == f64::MAX { break; }
            order.push(best.1); seen |= 1 << best.1; left &= !(1u128 << best.1);
            doms.push(dom_iter(&self.dom_of(st, best.1)).collect::<Vec<u8>>());
        }
        let mut at: Vec<Vec<Ex>> = vec![vec![]; order.len()];
        let mut pre = vec![]; let mut acc = 0u128;
        for v in &order { acc |= 1 << *v; pre.push(acc); }
        for (e, s) in &cs { if let Some(i) = pre.iter().position(|p| s & !p == 0) { at[i].push(*e); } }
        let mut m = (*st.model).clone();
        m.resize(self.ex.nvars as usize, 0);
        for v in 0..m.len() { if sup >> v & 1 == 0 { let d = self.dom_of(st, v as u16); if !dom_has(&d, m[v]) { m[v] = dom_first(&d).unwrap_or(0); } } }
        let mut idx = vec![0usize; order.len()];
        let mut k = 0usize; let mut work = 0u32;
        if order.is_empty() { return None; }
        loop {
            if idx[k] == doms[k].len() { if k == 0 { return Some(None); } idx[k] = 0; k -= 1; idx[k] += 1; continue; }
            m[order[k] as usize] = doms[k][idx[k]];
            work += 1 + at[k].len() as u32;
            if work > 12_000 { return None; }
            let mut ok = true;
            for j in 0..at[k].len() { if self.ex.eval(at[k][j], &m) & 1 == 0 { ok = false; break; } }
            if !ok { idx[k] += 1; continue; }
            if k + 1 == order.len() { return Some(Some(m)); }
            k += 1; idx[k] = 0;
        }
    }
    pub fn zcheck(&mut self, fs: &[Ast], vars: &[Ast]) -> (Res, Vec<u64>) {
        let t = std::time::Instant::now();
        if self.late() { return (Res::Unknown, vec![]); }
        let r = self.z.check(fs, vars);
        self.stats.z3 += 1; self.stats.z3_ns += t.elapsed().as_nanos() as u64;
        if r.0 == Res::Unknown { self.stats.z3_unknown += 1; }
        r
    }
    pub fn ensure_model(&mut self, st: &mut State) -> R<()> {
        self.fix_model_len(st);
        if st.model_ok { return Ok(()); }
        // a model outside the linked variables is kept
        match self.solve(st, &[])? { Some(m) => { st.model = Rc::new(m); st.model_ok = true; Ok(()) } None => Err(X::End(End::Infeasible)) }
    }
    /// 1 = always true, 0 = always false, 2 = both possible.
    pub fn decide(&mut self, st: &mut State, c: Ex) -> R<u8> {
        if let Some(k) = self.ex.cval(c) { return Ok(k as u8); }
        if let Some((v, _)) = self.ex.single(c) {
            self.stats.doms += 1;
            let d = self.dom_of(st, v);
            let t = self.ex.truth(c);
            if dom_empty(&dom_and(&d, &t)) { return Ok(0); }
            if dom_empty(&dom_andn(&d, &t)) { return Ok(1); }
            if !st.cons.iter().any(|k| self.ex.nodes[*k as usize].sup >> v & 1 == 1) { return Ok(2); }
        } else {
            if st.cons.contains(&c) { return Ok(1); }
            let n = self.ex.not(c);
            if st.cons.contains(&n) { return Ok(0); }
            // interval / domain quick check is left to the solver
        }
        self.ensure_model(st)?;
        let val = self.ex.eval(c, &st.model) & 1 == 1;
        let other = if val { self.ex.not(c) } else { c };
        Ok(if self.feasible(st, &[other])?.is_some() { 2 } else { val as u8 })
    }
    /// Decides or forks.
    pub fn branch(&mut self, st: &mut State, c: Ex) -> R<bool> {
        match self.decide(st, c)? {
            0 => Ok(false), 1 => Ok(true),
            _ => {
                if let Some((v, _)) = self.ex.single(c) {
                    let d = self.dom_of(st, v); let t = self.ex.truth(c);
                    return Err(X::Fork(vec![Con::Dom(v, dom_and(&d, &t)), Con::Dom(v, dom_andn(&d, &t))]));
                }
                let n = self.ex.not(c);
                Err(X::Fork(vec![Con::True(c), Con::True(n)]))
            }
        }
    }
    pub fn truth_of(&mut self, st: &mut State, v: &V) -> R<bool> { match v { V::C(k) => Ok(k & 1 == 1), V::S(e) => self.branch(st, *e), _ => Err(X::Err("bool value".into())) } }
    /// Concrete value, forking over the possible values.
    pub fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        let e = match v { V::C(k) => return Ok(*k), V::S(e) => *e, _ => return Err(X::Err("aggregate where a number is needed".into())) };
        if let Some(k) = self.ex.cval(e) { return Ok(k); }
        if let Some((var, tab)) = self.ex.single(e) {
            let d = self.dom_of(st, var);
            let mut groups: Vec<(u64, Dom)> = vec![];
            let t = &self.ex.tabs[tab as usize];
            for x in dom_iter(&d) {
                let val = t[x as usize];
                match groups.iter_mut().find(|g| g.0 == val) { Some(g) => g.1[(x >> 6) as usize] |= 1 << (x & 63), None => { let mut dd = [0u64; 4]; dd[(x >> 6) as usize] |= 1 << (x & 63); groups.push((val, dd)); } }
            }
            if groups.is_empty() { return Err(X::End(End::Infeasible)); }
            if groups.len() == 1 { return Ok(groups[0].0); }
            let linked = st.cons.iter().any(|k| self.ex.nodes[*k as usize].sup >> var & 1 == 1);
            let mut out = vec![];
            for (_, d) in groups {
                if linked { let c = self.ex.from_dom(var, &d); if self.feasible(st, &[c])?.is_none() { continue; } }
                out.push(Con::Dom(var, d));
            }
            if out.is_empty() { return Err(X::End(End::Infeasible)); }
            return Err(X::Fork(out));
        }
        if let Some((_, k)) = st.eqs.iter().find(|(x, _)| *x == e) { return Ok(*k); }
        // enumerate with the solver
        let w = self.ex.w(e);
        self.ensure_model(st)?;
        let mut vals = vec![];
        let mut block: Vec<Ex> = vec![];
        let mut m = Some((*st.model).clone());
        while let Some(mm) = m {
            let val = self.ex.eval(e, &mm) as u64;
            vals.push(val);
            if vals.len() > 300 { return Err(X::Err(format!("more than 300 values for {}", self.ex.dump(e, 3)))); }
            let k = self.ex.konst(val, w);
            let q = self.ex.mk(Op::Eq, e, k, 0, 1);
            block.push(self.ex.not(q));
            m = self.feasible(st, &block)?;
        }
        Err(X::Fork(vals.into_iter().map(|v| Con::Eq(e, v)).collect()))
    }
    pub fn apply(&mut self, st: &mut State, c: &Con) -> R<()> {
        match c {
            Con::Dom(v, d) => { let n = dom_and(&self.dom_of(st, *v), d); if dom_empty(&n) { return Err(X::End(End::Infeasible)); } self.set_dom(st, *v, n); }
            Con::True(e) => self.assume(st, *e),
            Con::Eq(e, k) => { let w = self.ex.w(*e); let kk = self.ex.konst(*k, w); let q = self.ex.mk(Op::Eq, *e, kk, 0, 1); Rc::make_mut(&mut st.eqs).push((*e, *k)); if self.ex.cval(q) != Some(1) { self.assume(st, q); } }
        }
        Ok(())
    }

    // ---------- memory ----------
    pub fn resolve(&self, st: &State, a: u64, n: u64) -> R<(Id, usize)> {
        let hi = (a >> 32) as u32; let lo = a & 0xffff_ffff;
        let (id, off) = if hi as u64 >= GBASE {
            let m = (hi as u64 - GBASE) as usize;
            let md = match self.mods.get(m) { Some(m) => m, None => return Err(X::Err(format!("bad address {:#x}", a))) };
            let g = *md.page.get((lo >> 4) as usize).unwrap_or(&u32::MAX);
            if g == u32::MAX { return Err(X::Err(format!("bad global address {:#x}", a))); }
            (Id::Glob(m as u32, g), a.wrapping_sub(md.globals[g as usize].addr))
        } else if hi >= SBASE { (Id::Stack(hi - SBASE), lo) } else { (Id::Heap(hi), lo) };
        match st.mem.get(id) {
            Some(o) if off + n <= o.bytes.len() as u64 => Ok((id, off as usize)),
            Some(o) => Err(X::Err(format!("out of bounds access {:?}+{} ({} bytes) of {}", id, off, n, o.bytes.len()))),
            None => Err(X::Err(format!("access to dead object {:#x}", a))),
        }
    }
    pub fn load_n(&mut self, st: &State, a: u64, n: usize) -> R<V> {
        if n == 0 { return Ok(V::C(0)); }
        let (id, off) = self.resolve(st, a, n as u64)?;
        let o = st.mem.get(id).unwrap();
        if !o.is_sym(off, n) {
            if n <= 8 { let mut b = [0u8; 8]; b[..n].copy_from_slice(&o.bytes[off..off + n]); return Ok(V::C(u64::from_le_bytes(b))); }
            let mut b = [0u8; 16]; b[..n].copy_from_slice(&o.bytes[off..off + n]); return Ok(V::W(Rc::new(u128::from_le_bytes(b))));
        }
        let e = read_sym(o, off, n, &mut self.ex);
        Ok(match self.ex.cval(e) { Some(k) if n <= 8 => V::C(k), _ => V::S(e) })
    }
    pub fn load(&mut self, st: &State, a: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::I(w) => { let v = self.load_n(st, a, ty.store_size() as usize)?; if w % 8 != 0 { return Ok(self.trunc(v, *w)); } Ok(v) }
            Ty::Ptr | Ty::F32 | Ty::F64 => self.load_n(st, a, ty.size() as usize),
            _ => { let mut v = vec![]; for i in 0..ty.count() { let (o, t) = ty.field(i); v.push(self.load(st, a + o, &t)?); } Ok(V::A(Rc::new(v))) }
        }
    }
    pub fn store_n(&mut self, st: &mut State, a: u64, n: usize, v: &V) -> R<()> {
        if n == 0 { return Ok(()); }
        let (id, off) = self.resolve(st, a, n as u64)?;
        let o = st.mem.get_mut(id).unwrap();
        if o.konst { return Err(X::Err("store to constant".into())); }
        match v {
            V::C(k) if n <= 8 => write_c(o, off, n, *k),
            V::C(k) => { write_c(o, off, 8, *k); for i in 8..n { write_c(o, off + i, 1, 0); } }
            V::W(k) => { let k = **k; write_c(o, off, 8.min(n), k as u64); if n > 8 { write_c(o, off + 8, n - 8, (k >> 64) as u64); } }
            V::S(e) => write_sym(o, off, n, *e, &mut self.ex),
            V::A(_) => return Err(X::Err("aggregate store".into())),
        }
        Ok(())
    }
    pub fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::I(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.store_n(st, a, ty.store_size() as usize, v),
            _ => { if let V::A(vs) = v { let vs = vs.clone(); for i in 0..ty.count() { let (o, t) = ty.field(i); self.store(st, a + o, &t, &vs[i])?; } Ok(()) } else { Err(X::Err("store form".into())) } }
        }
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s { return Ok(()); }
        let n = n as usize;
        let (si, so) = self.resolve(st, s, n as u64)?;
        let (di, dof) = self.resolve(st, d, n as u64)?;
        let src = st.mem.get(si).unwrap().clone();
        let o = st.mem.get_mut(di).unwrap();
        if o.konst { return Err(X::Err("copy to constant".into())); }
        o.bytes[dof..dof + n].copy_from_slice(&src.bytes[so..so + n]);
        if src.is_sym(so, n) { let q = src.sym.as_ref().unwrap(); o.syms()[dof..dof + n].copy_from_slice(&q[so..so + n]); }
        else if let Some(q) = &mut o.sym { q[dof..dof + n].fill(NOSYM); }
        let (w0, w1) = (dof / 8, (dof + n - 1) / 8);
        if so % 8 == dof % 8 { for k in w0..=w1 { let (b0, b1) = (k * 8, k * 8 + 8); o.wide[k] = if b0 >= dof && b1 <= dof + n { src.wide[so / 8 + (k - w0)] } else { 0 }; } }
        else { for k in w0..=w1 { o.wide[k] = 0; } }
        Ok(())
    }
    pub fn fill(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (id, off) = self.resolve(st, d, n)?;
        let n = n as usize;
        let o = st.mem.get_mut(id).unwrap();
        match v {
            V::C(k) => { o.bytes[off..off + n].fill(*k as u8); if let Some(s) = &mut o.sym { s[off..off + n].fill(NOSYM); } }
            V::S(e) => { o.syms()[off..off + n].fill(*e); }
            _ => return Err(X::Err("memset value".into())),
        }
        for k in off / 8..=(off + n - 1) / 8 { o.wide[k] = 0; }
        Ok(())
    }
    pub fn byte(&mut self, st: &State, a: u64) -> R<V> { self.load_n(st, a, 1) }
    pub fn cstr(&mut self, st: &mut State, a: u64) -> R<Vec<u8>> {
        let mut o = vec![];
        loop { match self.byte(st, a + o.len() as u64)? { V::C(0) => return Ok(o), V::C(k) => o.push(k as u8), v => { let k = self.conc(st, &v)?; if k == 0 { return Ok(o); } o.push(k as u8); } } }
    }
    pub fn bytes_at(&mut self, st: &State, a: u64, n: u64) -> R<Vec<u32>> {
        // bit 31 set: expression index
        if n == 0 { return Ok(vec![]); }
        let (id, off) = self.resolve(st, a, n)?;
        let o = st.mem.get(id).unwrap();
        Ok((off..off + n as usize).map(|i| { let s = o.sym_at(i); if s == NOSYM { o.bytes[i] as u32 } else { s | 1 << 31 } }).collect())
    }
    pub fn write_bytes(&mut self, st: &mut State, a: u64, b: &[u32]) -> R<()> {
        if b.is_empty() { return Ok(()); }
        let (id, off) = self.resolve(st, a, b.len() as u64)?;
        let o = st.mem.get_mut(id).unwrap();
        for (i, x) in b.iter().enumerate() { if x >> 31 == 1 { write_sym(o, off + i, 1, x & 0x7fff_ffff, &mut self.ex) } else { write_c(o, off + i, 1, *x as u64) } }
        Ok(())
    }
    pub fn new_obj(&mut self, st: &mut State, b: &[u32]) -> u64 {
        let a = st.mem.alloc(Obj::new(b.len()));
        let _ = self.write_bytes(st, a, b);
        a
    }

    // ---------- values ----------
    #[inline] pub fn e(&mut self, v: &V, w: u32) -> R<Ex> {
        match v { V::C(k) => Ok(self.ex.konst(*k, w)), V::S(e) => { debug_assert_eq!(self.ex.w(*e), w); Ok(*e) }
            V::W(k) => { let h = self.ex.konst((**k >> 64) as u64, w - 64); let l = self.ex.konst(**k as u64, 64); Ok(self.ex.mk(Op::Concat, h, l, 0, w)) }
            _ => Err(X::Err("aggregate operand".into())) }
    }
    pub fn wrap(&self, e: Ex) -> V {
        if self.ex.w(e) <= 64 { if let Some(k) = self.ex.cval(e) { return V::C(k); } return V::S(e); }
        match self.wide(e) { Some(v) => V::W(Rc::new(v)), None => V::S(e) }
    }
    fn wide(&self, e: Ex) -> Option<u128> {
        let n = &self.ex.nodes[e as usize];
        match n.k { K::Const(v) => Some(v as u128), K::Op(Op::Concat, a, b, _) if n.tab == NONE => { let (x, y) = (self.wide(a)?, self.wide(b)?); Some(x << self.ex.w(b) | y) } _ => None }
    }
    pub fn trunc(&mut self, v: V, w: u32) -> V {
        match v { V::C(k) => V::C(k & mask(w)), V::S(e) => { if self.ex.w(e) == w { return V::S(e); } let r = self.ex.extract(e, 0, w); self.wrap(r) }
            V::W(k) => if w <= 64 { V::C(*k as u64 & mask(w)) } else { V::W(Rc::new(if w >= 128 { *k } else { *k & ((1 << w) - 1) })) }, v => v }
    }
    pub fn op2(&mut self, op: Op, a: &V, b: &V, w: u32, rw: u32) -> R<V> {
        let x = self.e(a, w)?; let y = self.e(b, w)?;
        let r = self.ex.mk(op, x, y, 0, rw);
        Ok(self.wrap(r))
    }
    fn bin(&mut self, st: &mut State, op: Bin, w: u32, a: &V, b: &V) -> R<V> {
        if w > 64 { return self.bin_wide(st, op, w, a, b); }
        let o = match op { Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor };
        if let (V::C(x), V::C(y)) = (a, b) {
            if *y == 0 && matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) { return Err(X::Err("division by zero".into())); }
            return Ok(V::C(eval_op(o, w, w, *x, *y, 0)));
        }
        if let (V::S(x), V::S(y)) = (a, b) {
            let (sx, sy) = (self.ex.nodes[*x as usize].sup, self.ex.nodes[*y as usize].sup);
            if (sx | sy).count_ones() > 1 { let x = self.within(st, *x); let y = self.within(st, *y); let r = self.ex.mk(o, x, y, 0, w); return Ok(self.wrap(r)); }
        }
        self.op2(o, a, b, w, w)
    }
    /// A single-byte expression, with the values it would have outside the byte's domain forgotten.
    fn within(&mut self, st: &State, e: Ex) -> Ex {
        let (var, tab) = match self.ex.single(e) { Some(x) => x, None => return e };
        let d = self.dom_of(st, var);
        if d == FULL { return e; }
        if let Some(r) = self.norms.get(&(e, d)) { return *r; }
        let f = match dom_first(&d) { Some(f) => f, None => return e };
        let mut t = self.ex.tabs[tab as usize].clone();
        let k = t[f as usize];
        for i in 0..256 { if !dom_has(&d, i as u8) { t[i] = k; } }
        let w = self.ex.w(e);
        let r = self.ex.tab(var, w, t, K::Tab);
        self.norms.insert((e, d), r);
        r
    }
    fn bin_wide(&mut self, _st: &mut State, op: Bin, w: u32, a: &V, b: &V) -> R<V> {
        let c = |v: &V| match v { V::W(k) => Some(**k), V::C(k) => Some(*k as u128), _ => None };
        if let (Some(x), Some(y)) = (c(a), c(b)) {
            let r = match op { Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y), Bin::UDiv => x / y, Bin::URem => x % y, Bin::Shl => if y >= w as u128 { 0 } else { x << y }, Bin::LShr => if y >= w as u128 { 0 } else { x >> y }, Bin::AShr => ((x as i128) >> y) as u128, Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y, _ => return Err(X::Err("wide op".into())) };
            return Ok(V::W(Rc::new(if w >= 128 { r } else { r & ((1 << w) - 1) })));
        }
        let x = self.e(a, w)?;
        match op {
            Bin::LShr => { let k = match c(b) { Some(k) => k as u32, None => return Err(X::Err("wide shift".into())) }; if k == 0 { return Ok(V::S(x)); } let h = self.ex.extract(x, k, w - k); let r = self.ex.mk(Op::Zext, h, 0, 0, w); Ok(self.wrap(r)) }
            Bin::Shl => { let k = match c(b) { Some(k) => k as u32, None => return Err(X::Err("wide shift".into())) }; if k == 0 { return Ok(V::S(x)); } let mut h = self.ex.extract(x, 0, w - k); let mut left = k; while left > 0 { let n = left.min(64); let z = self.ex.konst(0, n); let nw = self.ex.w(h) + n; h = self.ex.mk(Op::Concat, h, z, 0, nw); left -= n; } Ok(self.wrap(h)) }
            Bin::And | Bin::Or | Bin::Xor => { let y = self.e(b, w)?; let o = match op { Bin::And => Op::And, Bin::Or => Op::Or, _ => Op::Xor }; let r = self.ex.mk(o, x, y, 0, w); Ok(self.wrap(r)) }
            _ => Err(X::Err(format!("symbolic {}-bit {:?}", w, op))),
        }
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                Pred::Slt => sx(x, w) < sx(y, w), Pred::Sle => sx(x, w) <= sx(y, w), Pred::Sgt => sx(x, w) > sx(y, w), Pred::Sge => sx(x, w) >= sx(y, w) };
            return Ok(V::C(r as u64));
        }
        if let (V::W(x), V::W(y)) = (a, b) {
            let (x, y) = (**x, **y);
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => (x as i128) < (y as i128), Pred::Sle => (x as i128) <= (y as i128), Pred::Sgt => (x as i128) > (y as i128), Pred::Sge => (x as i128) >= (y as i128) };
            return Ok(V::C(r as u64));
        }
        let x = self.e(a, w)?; let y = self.e(b, w)?;
        let (o, x, y, n) = match p { Pred::Eq => (Op::Eq, x, y, false), Pred::Ne => (Op::Eq, x, y, true), Pred::Ult => (Op::Ult, x, y, false), Pred::Ule => (Op::Ule, x, y, false), Pred::Ugt => (Op::Ult, y, x, false), Pred::Uge => (Op::Ule, y, x, false), Pred::Slt => (Op::Slt, x, y, false), Pred::Sle => (Op::Sle, x, y, false), Pred::Sgt => (Op::Slt, y, x, false), Pred::Sge => (Op::Sle, y, x, false) };
        let mut r = self.ex.mk(o, x, y, 0, 1);
        if n { r = self.ex.not(r); }
        Ok(self.wrap(r))
    }
    pub fn ite(&mut self, c: Ex, a: &V, b: &V, w: u32) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) { if x == y { return Ok(V::C(*x)); } }
        let x = self.e(a, w)?; let y = self.e(b, w)?;
        let r = self.ex.mk(Op::Ite, c, x, y, w);
        Ok(self.wrap(r))
    }

    // ---------- main loop ----------
    /// Runs until something other than straight execution happens.
    pub fn run_straight(&mut self, st: &mut State, stop: &[Stop]) -> Result<Ev, String> {
        let budget_limit = stop.iter().map(|s| s.limit).min().unwrap_or(u64::MAX);
        let top = stop.last().copied().unwrap_or(Stop { depth: 0, join: false, limit: u64::MAX });
        let start = st.steps;
        loop {
            let f = st.cur.f;
            let ins = &f.ins[st.cur.pc as usize];
            st.steps += 1;
            match self.exec(st, f, ins, &top) {
                Ok(false) => {}
                Ok(true) => { self.stats.instrs += st.steps - start; return Ok(Ev::Stop); }
                Err(X::Fork(c)) => { st.steps -= 1; self.stats.instrs += st.steps - start; return Ok(Ev::Fork(c)); }
                Err(X::End(e)) => { self.stats.instrs += st.steps - start; return Ok(Ev::End(e)); }
                Err(X::Err(m)) => { return Err(format!("{} at {}:{} <- {}", m, f.name, self.where_is(f, st.cur.pc), self.backtrace(st, 12))); }
            }
            if st.steps & 0xfff == 0 {
                if st.steps > budget_limit { self.stats.instrs += st.steps - start; return Ok(Ev::Escape); }
                if st.run_steps > 0 && st.steps - st.run_steps > self.run_cap { self.finish_run(st, 1002, "instruction cap reached"); if st.stack.len() < top.depth { self.stats.instrs += st.steps - start; return Ok(Ev::Stop); } }
            }
            self.tick = self.tick.wrapping_add(1);
            if self.tick & 0x3fff == 0 && self.late() { return Err("job time limit".into()); }
        }
    }
    pub fn late(&self) -> bool { self.deadline.map_or(false, |d| std::time::Instant::now() > d) }
    pub fn where_is(&self, f: &Func, pc: u32) -> String {
        let b = f.block_of[pc as usize] as usize;
        format!("{}+{}", f.block_names.get(b).map(|s| s.as_str()).unwrap_or("?"), pc - f.blocks[b].start)
    }
    pub fn backtrace(&self, st: &State, n: usize) -> String {
        st.stack.iter().rev().take(n).map(|f| short(&f.f.name)).collect::<Vec<_>>().join(" <- ")
    }
    #[inline]
    fn take_edge(&mut self, st: &mut State, f: &'static Func, e: u32, top: &Stop) -> bool {
        let ed = &f.edges[e as usize];
        let mv = &ed.moves;
        if mv.len() == 1 { let v = gv(&st.cur.regs, &mv[0].1, &mut self.kcache); st.cur.regs[mv[0].0 as usize] = v; }
        else if !mv.is_empty() {
            let mut tmp: smallvec::SV = smallvec::SV::new();
            for (_, o) in mv { tmp.push(gv(&st.cur.regs, o, &mut self.kcache)); }
            for ((d, _), v) in mv.iter().zip(tmp.into_iter()) { st.cur.regs[*d as usize] = v; }
        }
        st.cur.pc = f.blocks[ed.to as usize].start;
        top.join && top.depth == st.stack.len() && f.join[ed.to as usize]
    }
    fn exec(&mut self, st: &mut State, f: &'static Func, ins: &'static I, top: &Stop) -> R<bool> {
        macro_rules! g { ($o:expr) => { gv(&st.cur.regs, $o, &mut self.kcache) } }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.cur.regs[*$d as usize] = v; }} }
        match ins {
            I::Bin { op, w, d, a, b } => { let x = g!(a); let y = g!(b); let r = self.bin(st, *op, *w, &x, &y)?; set!(d, r); }
            I::Icmp { p, w, d, a, b } => { let x = g!(a); let y = g!(b); let r = self.icmp(*p, *w, &x, &y)?; set!(d, r); }
            I::Load { ty, n, d, p } => {
                let pv = g!(p);
                let a = match pv { V::C(a) => a, V::S(e) => { if let Some(v) = self.load_sym(st, e, ty)? { set!(d, v); st.cur.pc += 1; return Ok(false); } self.conc(st, &pv)? } _ => return Err(X::Err("load address".into())) };
                let v = if ty.scalar() && *n <= 8 { let v = self.load_n(st, a, *n as usize)?; if let Ty::I(w) = ty { if w % 8 != 0 { self.trunc(v, *w) } else { v } } else { v } } else { self.load(st, a, ty)? };
                set!(d, v);
            }
            I::Store { ty, n, v, p } => {
                let pv = g!(p); let a = match pv { V::C(a) => a, _ => self.conc(st, &pv)? };
                let x = g!(v);
                if ty.scalar() { self.store_n(st, a, *n as usize, &x)? } else { self.store(st, a, ty, &x)? }
            }
            I::Gep { d, p, off, idx } => {
                let mut base = g!(p);
                base = match base { V::C(b) => V::C(b.wrapping_add(*off as u64)), b => if *off != 0 { self.op2(Op::Add, &b, &V::C(*off as u64), 64, 64)? } else { b } };
                for (o, sc, w) in idx {
                    let i = g!(o);
                    match (&base, &i) {
                        (V::C(b), V::C(k)) => base = V::C(b.wrapping_add((sx(*k, *w)).wrapping_mul(*sc) as u64)),
                        _ => {
                            let mut k = i; if *w < 64 { let e = self.e(&k, *w)?; let e = self.ex.mk(Op::Sext, e, 0, 0, 64); k = self.wrap(e); }
                            if *sc != 1 { k = self.op2(Op::Mul, &k, &V::C(*sc as u64), 64, 64)?; }
                            base = self.op2(Op::Add, &base, &k, 64, 64)?;
                        }
                    }
                }
                set!(d, base);
            }
            I::Cast { k, from, to, d, a } => { let v = g!(a); let r = self.cast(*k, from, to, v)?; set!(d, r); }
            I::Select { ty, cw, d, c, a, b } => {
                let cvv = g!(c); let x = g!(a); let y = g!(b);
                let r = if *cw {
                    match (&cvv, &x, &y) { (V::A(c), V::A(x), V::A(y)) => { let mut v = vec![]; for i in 0..c.len() { v.push(if self.truth_of(st, &c[i])? { x[i].clone() } else { y[i].clone() }); } V::A(Rc::new(v)) } _ => return Err(X::Err("vector select".into())) }
                } else {
                    match &cvv {
                        V::C(k) => if k & 1 == 1 { x } else { y },
                        V::S(e) => {
                            let same = matches!((&x, &y), (V::C(p), V::C(q)) if p == q);
                            if same { x }
                            else if matches!(ty, Ty::I(n) if *n <= 64) && !(matches!(ty, Ty::I(64)) && self.ptrish(st, &x, &y)) {
                                match self.quick(st, *e) { Some(true) => x, Some(false) => y, None => self.ite(*e, &x, &y, ty.bits())? }
                            } else if self.branch(st, *e)? { x } else { y }
                        }
                        _ => return Err(X::Err("select".into())),
                    }
                };
                set!(d, r);
            }
            I::Alloca { d, off } => set!(d, V::C(((SBASE as u64 + st.stack.len() as u64) << 32) + *off as u64)),
            I::Br(e) => return Ok(self.take_edge(st, f, *e, top)),
            I::CBr(c, a, b) => {
                let cvv = match c { O::R(r) => &st.cur.regs[*r as usize], O::C(k) => { let e = if k & 1 == 1 { *a } else { *b }; return Ok(self.take_edge(st, f, e, top)); } _ => unreachable!() };
                let t = match cvv { V::C(k) => k & 1 == 1, V::S(e) => { let e = *e; self.branch(st, e)? } _ => return Err(X::Err("branch".into())) };
                return Ok(self.take_edge(st, f, if t { *a } else { *b }, top));
            }
            I::Switch { w, v, def, cases } => {
                let x = g!(v);
                let e = match x {
                    V::C(k) => match cases.binary_search_by(|c| c.0.cmp(&k)) { Ok(i) => cases[i].1, Err(_) => *def },
                    V::S(e) => self.switch_sym(st, e, *w, *def, cases)?,
                    _ => return Err(X::Err("switch".into())),
                };
                return Ok(self.take_edge(st, f, e, top));
            }
            I::Call(c) => return self.call(st, c, top),
            I::Ret(v) => { let r = v.as_ref().map(|v| g!(v)); return self.do_ret(st, r, top); }
            I::Unreachable => {
                if st.run_steps > 0 { self.finish_run(st, 1001, "unreachable executed"); return Ok(st.stack.len() < top.depth); }
                return Err(X::Err("unreachable".into()));
            }
            I::Copy { d, a } => { let v = g!(a); set!(d, v); }
            I::Nop => {}
            I::Extract { d, a, path } => { let mut v = g!(a); for p in path { v = match v { V::A(x) => x[*p as usize].clone(), V::C(0) => V::C(0), _ => return Err(X::Err("extractvalue".into())) }; } set!(d, v); }
            I::Insert { d, a, v, path, ty } => { let b = g!(a); let x = g!(v); let r = insert(b, x, path, ty); set!(d, r); }
            I::InsElem { d, a, v, i, ty } => { let b = g!(a); let x = g!(v); let k = { let i = g!(i); self.conc(st, &i)? }; let r = insert(b, x, &[k as u32], ty); set!(d, r); }
            I::ExtElem { d, a, i } => { let b = g!(a); let k = { let i = g!(i); self.conc(st, &i)? }; match b { V::A(x) => set!(d, x[k as usize].clone()), _ => return Err(X::Err("extractelement".into())) } }
            I::Shuffle { d, a, b, n, m } => {
                let x = g!(a); let y = g!(b);
                let (x, y) = match (x, y) { (V::A(x), V::A(y)) => (x, y), _ => return Err(X::Err("shuffle".into())) };
                let v = m.iter().map(|k| if *k < *n { x[*k as usize].clone() } else { y[(*k - *n) as usize].clone() }).collect();
                set!(d, V::A(Rc::new(v)));
            }
            I::VBin { op, ty, d, a, b } => {
                let x = g!(a); let y = g!(b);
                let r = match (&x, &y) {
                    (V::A(p), V::A(q)) => { let w = match ty { Ty::Vec(_, t) => t.bits(), _ => return Err(X::Err("vbin".into())) }; let mut v = vec![]; for i in 0..p.len() { v.push(self.bin(st, *op, w, &p[i], &q[i])?); } V::A(Rc::new(v)) }
                    _ => self.bin(st, *op, ty.bits(), &x, &y)?,
                };
                set!(d, r);
            }
            I::VIcmp { p, ty, d, a, b } => {
                let x = g!(a); let y = g!(b);
                let r = match (&x, &y) {
                    (V::A(s), V::A(q)) => { let w = match ty { Ty::Vec(_, t) => t.bits(), _ => return Err(X::Err("vicmp".into())) }; let mut v = vec![]; for i in 0..s.len() { v.push(self.icmp(*p, w, &s[i], &q[i])?); } V::A(Rc::new(v)) }
                    _ => self.icmp(*p, ty.bits(), &x, &y)?,
                };
                set!(d, r);
            }
            I::FBin { op, ty, d, a, b } => {
                let (x, y) = { let x = g!(a); let y = g!(b); (self.conc(st, &x)?, self.conc(st, &y)?) };
                let r = if *ty == Ty::F32 { let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { 0 => p + q, 1 => p - q, 2 => p * q, 3 => p / q, 4 => p % q, _ => -p }).to_bits() as u64 }
                else { let (p, q) = (f64::from_bits(x), f64::from_bits(y)); (match op { 0 => p + q, 1 => p - q, 2 => p * q, 3 => p / q, 4 => p % q, _ => -p }).to_bits() };
                set!(d, V::C(r));
            }
            I::Fcmp { p, ty, d, a, b } => {
                let (x, y) = { let x = g!(a); let y = g!(b); (self.conc(st, &x)?, self.conc(st, &y)?) };
                let (p1, q1) = if *ty == Ty::F32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                let un = p1.is_nan() || q1.is_nan();
                let r = match &**p { "oeq" => p1 == q1, "one" => !un && p1 != q1, "olt" => p1 < q1, "ole" => p1 <= q1, "ogt" => p1 > q1, "oge" => p1 >= q1, "ord" => !un, "uno" => un, "ueq" => un || p1 == q1, "une" => p1 != q1, "ult" => un || p1 < q1, "ule" => un || p1 <= q1, "ugt" => un || p1 > q1, "uge" => un || p1 >= q1, "true" => true, _ => false };
                set!(d, V::C(r as u64));
            }
            I::FCast { k, from, to, d, a } => {
                let x = { let x = g!(a); self.conc(st, &x)? };
                let r = match &**k {
                    "uitofp" => if *to == Ty::F32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() },
                    "sitofp" => { let s = sx(x, from.bits()); if *to == Ty::F32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() } }
                    "fpext" => (f32::from_bits(x as u32) as f64).to_bits(),
                    "fptrunc" => (f64::from_bits(x) as f32).to_bits() as u64,
                    "fptoui" => (if *from == Ty::F32 { f32::from_bits(x as u32) as u64 } else { f64::from_bits(x) as u64 }) & mask(to.bits()),
                    _ => (if *from == Ty::F32 { f32::from_bits(x as u32) as i64 } else { f64::from_bits(x) as i64 }) as u64 & mask(to.bits()),
                };
                set!(d, V::C(r));
            }
            I::Rmw { d, op, p, v, ty } => {
                let pv = g!(p); let a = self.conc(st, &pv)?; let x = g!(v);
                let old = self.load(st, a, ty)?;
                let w = ty.bits();
                let nv = match &**op { "xchg" => x, "add" => self.bin(st, Bin::Add, w, &old, &x)?, "sub" => self.bin(st, Bin::Sub, w, &old, &x)?, "and" => self.bin(st, Bin::And, w, &old, &x)?, "or" => self.bin(st, Bin::Or, w, &old, &x)?, "xor" => self.bin(st, Bin::Xor, w, &old, &x)?, o => return Err(X::Err(format!("atomicrmw {}", o))) };
                self.store(st, a, ty, &nv)?;
                set!(d, old);
            }
            I::Cx { d, p, c, n, ty } => {
                let pv = g!(p); let a = self.conc(st, &pv)?; let x = g!(c); let y = g!(n);
                let old = self.load(st, a, ty)?;
                let q = self.icmp(Pred::Eq, ty.bits(), &old, &x)?;
                let t = self.truth_of(st, &q)?;
                if t { self.store(st, a, ty, &y)?; }
                set!(d, V::A(Rc::new(vec![old, V::C(t as u64)])));
            }
            I::Bad(m) => return Err(X::Err(m.to_string())),
        }
        st.cur.pc += 1;
        Ok(false)
    }
    fn quick(&mut self, st: &State, e: Ex) -> Option<bool> {
        if let Some((v, _)) = self.ex.single(e) {
            let d = self.dom_of(st, v); let t = self.ex.truth(e);
            if dom_empty(&dom_and(&d, &t)) { return Some(false); }
            if dom_empty(&dom_andn(&d, &t)) { return Some(true); }
        } else if st.cons.contains(&e) { return Some(true); } else { let n = self.ex.not(e); if st.cons.contains(&n) { return Some(false); } }
        None
    }
    fn ptrish(&self, st: &State, x: &V, y: &V) -> bool {
        let p = |v: &V| matches!(v, V::C(a) if (*a >> 32) != 0 && self.resolve(st, *a, 0).is_ok());
        p(x) && p(y)
    }
    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, v: V) -> R<V> {
        match k {
            Cast::Zext | Cast::Sext => {
                if let Ty::Vec(_, ft) = from { let Ty::Vec(_, tt) = to else { return Err(X::Err("vcast".into())) }; if let V::A(x) = v { let mut o = vec![]; for e in x.iter() { o.push(self.cast(k, ft, tt, e.clone())?); } return Ok(V::A(Rc::new(o))); } return Err(X::Err("vcast".into())); }
                let (fw, tw) = (from.bits(), to.bits());
                match v {
                    V::C(x) if tw <= 64 => Ok(V::C(if k == Cast::Zext { x } else { sx(x, fw) as u64 & mask(tw) })),
                    V::C(x) => Ok(V::W(Rc::new(if k == Cast::Zext { x as u128 } else { sx(x, fw) as i128 as u128 }))),
                    V::W(x) => Ok(V::W(x)),
                    V::S(e) => { let r = if k == Cast::Sext && tw > 64 { let s = self.ex.extract(e, fw - 1, 1); let ones = self.ex.konst(u64::MAX, (tw - fw).min(64)); let z = self.ex.konst(0, (tw - fw).min(64)); let hi = self.ex.mk(Op::Ite, s, ones, z, (tw - fw).min(64)); self.ex.mk(Op::Concat, hi, e, 0, tw) } else { self.ex.mk(if k == Cast::Zext { Op::Zext } else { Op::Sext }, e, 0, 0, tw) }; Ok(self.wrap(r)) }
                    _ => Err(X::Err("ext".into())),
                }
            }
            Cast::Trunc => {
                if let Ty::Vec(_, tt) = to { if let V::A(x) = v { let w = tt.bits(); let o = x.iter().map(|e| self.trunc(e.clone(), w)).collect(); return Ok(V::A(Rc::new(o))); } return Err(X::Err("vtrunc".into())); }
                Ok(self.trunc(v, to.bits()))
            }
            Cast::PtrInt => Ok(self.trunc(v, to.bits().max(1))),
            Cast::Bit => {
                match (from, to) {
                    (Ty::Vec(n, t), _) if !matches!(to, Ty::Vec(..)) => {
                        if let V::A(x) = &v {
                            let w = t.bits();
                            let mut r: Option<V> = None; let mut rw = 0;
                            for i in (0..*n as usize).rev() {
                                r = Some(match r { None => { rw = w; x[i].clone() } Some(h) => { let he = self.e(&h, rw)?; let le = self.e(&x[i], w)?; rw += w; let q = self.ex.mk(Op::Concat, he, le, 0, rw); self.wrap(q) } });
                            }
                            return Ok(r.unwrap());
                        }
                        Err(X::Err("bitcast".into()))
                    }
                    (_, Ty::Vec(n, t)) => {
                        let w = t.bits();
                        let flat = if let Ty::Vec(..) = from { let t2 = Ty::I(from.bits()); self.cast(Cast::Bit, from, &t2, v)? } else { v };
                        let fw = from.bits();
                        let e = self.e(&flat, fw)?;
                        let mut o = vec![];
                        for i in 0..*n { let x = self.ex.extract(e, i * w, w); o.push(self.wrap(x)); }
                        Ok(V::A(Rc::new(o)))
                    }
                    _ => Ok(v),
                }
            }
        }
    }
    fn switch_sym(&mut self, st: &mut State, e: Ex, w: u32, def: u32, cases: &[(u64, u32)]) -> R<u32> {
        if let Some((var, tab)) = self.ex.single(e) {
            let d = self.dom_of(st, var);
            let t = &self.ex.tabs[tab as usize];
            let mut groups: Vec<(u32, Dom)> = vec![];
            for x in dom_iter(&d) {
                let k = t[x as usize];
                let to = match cases.binary_search_by(|c| c.0.cmp(&k)) { Ok(i) => cases[i].1, Err(_) => def };
                match groups.iter_mut().find(|g| g.0 == to) { Some(g) => g.1[(x >> 6) as usize] |= 1 << (x & 63), None => { let mut dd = [0u64; 4]; dd[(x >> 6) as usize] |= 1 << (x & 63); groups.push((to, dd)); } }
            }
            if groups.len() == 1 { return Ok(groups[0].0); }
            let linked = st.cons.iter().any(|k| self.ex.nodes[*k as usize].sup >> var & 1 == 1);
            let mut out = vec![]; let mut last = def;
            for (to, d) in groups {
                if linked { let c = self.ex.from_dom(var, &d); if self.feasible(st, &[c])?.is_none() { continue; } }
                last = to;
                out.push(Con::Dom(var, d));
            }
            if out.len() == 1 { return Ok(last); }
            if out.is_empty() { return Err(X::End(End::Infeasible)); }
            return Err(X::Fork(out));
        }
        if let Some((_, k)) = st.eqs.iter().find(|(x, _)| *x == e) { let k = *k; return Ok(match cases.binary_search_by(|c| c.0.cmp(&k)) { Ok(i) => cases[i].1, Err(_) => def }); }
        // by target
        let mut groups: Vec<(u32, Ex)> = vec![];
        let mut any = self.ex.konst(0, 1);
        for (k, to) in cases {
            let kk = self.ex.konst(*k, w); let q = self.ex.mk(Op::Eq, e, kk, 0, 1);
            if self.ex.cval(q) == Some(0) { continue; }
            if *to == def { continue; }
            any = self.ex.mk(Op::Or, any, q, 0, 1);
            match groups.iter_mut().find(|g| g.0 == *to) { Some(g) => g.1 = self.ex.mk(Op::Or, g.1, q, 0, 1), None => groups.push((*to, q)) }
        }
        let nd = self.ex.not(any);
        groups.push((def, nd));
        // known?
        for (to, c) in &groups { if self.ex.cval(*c) == Some(1) || st.cons.contains(c) { return Ok(*to); } }
        let mut out = vec![]; let mut last = def;
        for (to, c) in groups {
            if self.ex.cval(c) == Some(0) { continue; }
            let n = self.ex.not(c);
            if st.cons.contains(&n) { continue; }
            if self.feasible(st, &[c])?.is_none() { continue; }
            last = to; out.push(Con::True(c));
        }
        if out.is_empty() { return Err(X::End(End::Infeasible)); }
        if out.len() == 1 { return Ok(last); }
        Err(X::Fork(out))
    }
    /// Load through a symbolic address with few targets; None = let the caller fork on the address.
    fn load_sym(&mut self, st: &mut State, e: Ex, ty: &Ty) -> R<Option<V>> {
        if !ty.scalar() || ty.size() > 8 { return Ok(None); }
        let (var, tab) = match self.ex.single(e) { Some(x) => x, None => return self.load_sym_multi(st, e, ty) };
        let d = self.dom_of(st, var);
        if dom_count(&d) == 1 { return Ok(None); }
        let n = ty.store_size() as usize;
        let mut t = Box::new([0u64; 256]);
        let mut groups: Vec<(u64, Dom)> = vec![];
        let addrs = self.ex.tabs[tab as usize].clone();
        for x in dom_iter(&d) {
            let v = match self.load_n(st, addrs[x as usize], n) { Ok(v) => v, Err(_) => return Ok(None) };
            let k = match v {
                V::C(k) => k,
                V::S(s) => match self.ex.table(s) { Some((v2, t2)) if v2 == var => t2[x as usize], _ => return Ok(None) },
                _ => return Ok(None),
            };
            let k = if let Ty::I(w) = ty { k & mask(*w) } else { k };
            t[x as usize] = k;
            match groups.iter_mut().find(|g| g.0 == k) { Some(g) => g.1[(x >> 6) as usize] |= 1 << (x & 63), None => { let mut dd = [0u64; 4]; dd[(x >> 6) as usize] |= 1 << (x & 63); groups.push((k, dd)); } }
        }
        if groups.len() == 1 { return Ok(Some(V::C(groups[0].0))); }
        if matches!(ty, Ty::Ptr) || (ty.size() == 8 && groups.iter().any(|g| g.0 >> 32 != 0 && self.resolve(st, g.0, 0).is_ok())) {
            let linked = st.cons.iter().any(|k| self.ex.nodes[*k as usize].sup >> var & 1 == 1);
            let mut out = vec![];
            for (_, d) in groups { if linked { let c = self.ex.from_dom(var, &d); if self.feasible(st, &[c])?.is_none() { continue; } } out.push(Con::Dom(var, d)); }
            if out.len() > 1 { return Err(X::Fork(out)); }
            return Ok(None);
        }
        let w = ty.bits();
        let r = self.ex.tab(var, w, t, K::Tab);
        Ok(Some(self.wrap(r)))
    }
    fn load_sym_multi(&mut self, st: &mut State, e: Ex, ty: &Ty) -> R<Option<V>> {
        // Ite of concrete addresses: distribute
        if let K::Op(Op::Ite, c, a, b) = self.ex.nodes[e as usize].k {
            if let (Some(x), Some(y)) = (self.ex.cval(a), self.ex.cval(b)) {
                if matches!(ty, Ty::I(n) if *n <= 32) {
                    let p = self.load(st, x, ty)?; let q = self.load(st, y, ty)?;
                    return Ok(Some(self.ite(c, &p, &q, ty.bits())?));
                }
            }
        }
        Ok(None)
    }
    pub fn do_ret(&mut self, st: &mut State, v: Option<V>, top: &Stop) -> R<bool> {
        let d = st.stack.len();
        st.mem.stack[d] = None;
        if st.cur.boundary {
            let code = match v { Some(v) => self.conc(st, &v)?, None => 0 };
            self.finish_run(st, code as u32 as u64, "");
            return Ok(st.stack.len() < top.depth);
        }
        let fr = match st.stack.pop() { Some(f) => f, None => return Err(X::End(End::Done)) };
        let ret_to = st.cur.ret_to;
        st.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
        if ret_to != u32::MAX { if let Some(v) = v { st.cur.regs[ret_to as usize] = v; } }
        Ok(top.depth == d)
    }
    /// Unwinds to the harness frame that started the run and hands it the status.
    pub fn finish_run(&mut self, st: &mut State, code: u64, why: &str) {
        if code >= 1000 { self.stats.crash += 1; let bt = format!("{} in {} <- {}", why, short(&st.cur.f.name), self.backtrace(st, 6)); Rc::make_mut(&mut st.env).crash = bt; }
        while !st.cur.boundary {
            let d = st.stack.len();
            st.mem.stack[d] = None;
            let fr = st.stack.pop().expect("boundary");
            st.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
        }
        let d = st.stack.len();
        st.mem.stack[d] = None;
        let fr = st.stack.pop().unwrap();
        let ret_to = st.cur.ret_to;
        st.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
        if ret_to != u32::MAX { st.cur.regs[ret_to as usize] = V::C(code); }
        st.run_steps = 0;
        let from = st.env.heap_mark;
        st.mem.drop_from(from);
        let mut mem = std::mem::replace(&mut st.mem, Mem::new());
        self.reset_globals(&mut mem, 0, false);
        st.mem = mem;
    }
    pub fn push_frame(&mut self, st: &mut State, f: &'static Func, args: Vec<V>, ret_to: u32, boundary: bool) {
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() { if i < f.nparams as usize { regs[i] = a; } }
        let nf = Frame { f, pc: 0, regs, ret_to, boundary };
        let old = std::mem::replace(&mut st.cur, nf);
        st.stack.push(Rc::new(old));
        self.enter(st);
    }
    fn call(&mut self, st: &mut State, c: &'static crate::ir::CallI, top: &Stop) -> R<bool> {
        let mut target = None; let mut name: Option<&str> = None;
        match &c.callee {
            Callee::Direct(a) => target = Some(*a),
            Callee::Name(n) => name = Some(n),
            Callee::Ind(o) => { let v = gv(&st.cur.regs, o, &mut self.kcache); target = Some(self.conc(st, &v)?); }
            Callee::Asm(real) => {
                if *real { let d = c.d.unwrap_or(u32::MAX); if d != u32::MAX { st.cur.regs[d as usize] = V::A(Rc::new(vec![V::C((-25i64) as u64), V::C(0), V::C(0)])); } }
                st.cur.pc += 1;
                return Ok(false);
            }
        }
        if let Some(a) = target {
            let (m, i) = match self.fname(a) { Some(x) => x, None => return Err(X::Err(format!("call to {:#x}", a))) };
            if (i as usize) < self.mods[m].fdefs.len() {
                let f = self.func(m, i as usize);
                if self.used.insert((m, i)) { self.classify(f); }
                let args: Vec<V> = c.args.iter().map(|o| gv(&st.cur.regs, o, &mut self.kcache)).collect();
                if m == 0 || true {
                    match self.intercept(st, f, &args, c)? { Some(true) => return Ok(st.stack.len() < top.depth), Some(false) => { st.cur.pc += 1; return Ok(false); } None => {} }
                }
                if st.stack.len() > 20_000 {
                    if st.run_steps > 0 { self.finish_run(st, 1001, "stack exhausted (20000 frames)"); return Ok(st.stack.len() < top.depth); }
                    return Err(X::Err("stack exhausted".into()));
                }
                st.cur.pc += 1;
                self.push_frame(st, f, args, c.d.unwrap_or(u32::MAX), false);
                return Ok(false);
            }
            let k = i as usize - self.mods[m].fdefs.len();
            let n: &'static str = self.mods[m].fdecl[k];
            name = Some(n);
        }
        let args: Vec<V> = c.args.iter().map(|o| gv(&st.cur.regs, o, &mut self.kcache)).collect();
        self.external(st, name.unwrap(), args, c)?;
        Ok(st.stack.len() < top.depth)
    }
}

pub fn insert(b: V, x: V, path: &[u32], ty: &Ty) -> V {
    if path.is_empty() { return x; }
    let mut v = match b { V::A(v) => v, _ => match zero(ty) { V::A(v) => v, _ => unreachable!() } };
    let t = match ty { Ty::Struct(s, _) => s[path[0] as usize].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => unreachable!() };
    let w = Rc::make_mut(&mut v);
    let old = std::mem::replace(&mut w[path[0] as usize], V::C(0));
    w[path[0] as usize] = insert(old, x, &path[1..], &t);
    V::A(v)
}

pub fn short(n: &str) -> String {
    // last path components of a v0-mangled name: good enough for messages
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![]; let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i; let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { k = k * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if k > 1 && j + k <= b.len() && b[j].is_ascii_alphabetic() { out.push(String::from_utf8_lossy(&b[j..j + k]).into_owned()); i = j + k; continue; }
            i = j.max(i + 1);
        } else { i += 1; }
    }
    if out.is_empty() { n.to_string() } else { let l = out.len(); out[l.saturating_sub(3)..].join("::") }
}

/// A tiny vector for phi moves.
pub mod smallvec {
    use super::V;
    pub struct SV(Vec<V>);
    impl SV { pub fn new() -> SV { SV(Vec::with_capacity(8)) } #[inline] pub fn push(&mut self, v: V) { self.0.push(v) } pub fn into_iter(self) -> std::vec::IntoIter<V> { self.0.into_iter() } }
}
#[allow(unused)] fn _u(_: &dyn Fn(&ir::I)) {}
