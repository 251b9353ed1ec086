//! Minimal bindings to the system libz3 (C API).
#![allow(non_camel_case_types, dead_code)]
use std::os::raw::{c_char, c_int, c_uint, c_void};

pub type Ctx = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: extern "C" fn(Ctx, c_int));
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, so: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, so: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, s: *mut c_void) -> Solver;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_reset(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
}

extern "C" fn on_error(c: Ctx, e: c_int) {
    let msg = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("engine: z3 error {}: {:?}", e, msg);
    std::process::exit(70);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Unsat, Unknown, Sat }

pub struct Z3 { pub c: Ctx, s: Solver, full: Solver, pub second: std::cell::Cell<u64> }

macro_rules! bin { ($($n:ident $f:ident;)*) => { $(pub fn $n(&self, a: Ast, b: Ast) -> Ast { unsafe { $f(self.c, a, b) } })* } }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_error);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = Z3_mk_string_symbol(c, b"timeout\0".as_ptr() as *const c_char);
            Z3_params_set_uint(c, p, k, 150);
            Z3_solver_set_params(c, s, p);
            let full = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, b"QF_BV\0".as_ptr() as *const c_char));
            Z3_solver_inc_ref(c, full);
            let q = Z3_mk_params(c);
            Z3_params_inc_ref(c, q);
            Z3_params_set_uint(c, q, k, timeout_ms);
            Z3_solver_set_params(c, full, q);
            Z3 { c, s, full, second: Default::default() }
        }
    }
    bin! { eq Z3_mk_eq; add Z3_mk_bvadd; sub Z3_mk_bvsub; mul Z3_mk_bvmul; udiv Z3_mk_bvudiv; sdiv Z3_mk_bvsdiv;
        urem Z3_mk_bvurem; srem Z3_mk_bvsrem; shl Z3_mk_bvshl; lshr Z3_mk_bvlshr; ashr Z3_mk_bvashr; and Z3_mk_bvand;
        or Z3_mk_bvor; xor Z3_mk_bvxor; ult Z3_mk_bvult; ule Z3_mk_bvule; slt Z3_mk_bvslt; sle Z3_mk_bvsle; concat Z3_mk_concat; }
    pub fn var(&self, name: &str, w: u32) -> Ast {
        let n = std::ffi::CString::new(name).unwrap();
        unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, w)) }
    }
    pub fn num(&self, v: u64, w: u32) -> Ast { unsafe { Z3_mk_unsigned_int64(self.c, v, Z3_mk_bv_sort(self.c, w)) } }
    pub fn ite(&self, c: Ast, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_ite(self.c, c, a, b) } }
    pub fn not(&self, a: Ast) -> Ast { unsafe { Z3_mk_not(self.c, a) } }
    pub fn bor(&self, v: &[Ast]) -> Ast { unsafe { if v.is_empty() { Z3_mk_false(self.c) } else { Z3_mk_or(self.c, v.len() as u32, v.as_ptr()) } } }
    pub fn band(&self, v: &[Ast]) -> Ast { unsafe { if v.is_empty() { Z3_mk_true(self.c) } else { Z3_mk_and(self.c, v.len() as u32, v.as_ptr()) } } }
    pub fn extract(&self, hi: u32, lo: u32, a: Ast) -> Ast { unsafe { Z3_mk_extract(self.c, hi, lo, a) } }
    pub fn zext(&self, n: u32, a: Ast) -> Ast { if n == 0 { a } else { unsafe { Z3_mk_zero_ext(self.c, n, a) } } }
    pub fn sext(&self, n: u32, a: Ast) -> Ast { if n == 0 { a } else { unsafe { Z3_mk_sign_ext(self.c, n, a) } } }
    /// Checks the conjunction of `fs`; on Sat evaluates `vars` in the model.
    pub fn check(&self, fs: &[Ast], vars: &[Ast]) -> (Res, Vec<u64>) {
        let r = self.check_with(self.s, fs, vars);
        if r.0 != Res::Unknown { return r; }
        self.second.set(self.second.get() + 1);
        self.check_with(self.full, fs, vars)
    }
    fn check_with(&self, s: Solver, fs: &[Ast], vars: &[Ast]) -> (Res, Vec<u64>) {
        unsafe {
            if s == self.full { Z3_solver_reset(self.c, s); } else { Z3_solver_push(self.c, s); }
            for f in fs { Z3_solver_assert(self.c, s, *f); }
            let r = Z3_solver_check(self.c, s);
            let mut out = Vec::new();
            if r == 1 {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                for v in vars {
                    let mut a: Ast = std::ptr::null_mut();
                    let mut u = 0u64;
                    if Z3_model_eval(self.c, m, *v, true, &mut a) { Z3_get_numeral_uint64(self.c, a, &mut u); }
                    out.push(u);
                }
                Z3_model_dec_ref(self.c, m);
            }
            if s != self.full { Z3_solver_pop(self.c, s, 1); }
            (match r { 1 => Res::Sat, -1 => Res::Unsat, _ => Res::Unknown }, out)
        }
    }
}
