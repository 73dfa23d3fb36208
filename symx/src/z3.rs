//! Minimal hand-written bindings to libz3 (C API, 4.8.x).
#![allow(non_camel_case_types)]
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::ffi::CString;
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_int64(c: P, v: i64, ty: P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_int64(c: P, v: P, i: *mut i64) -> bool;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
}
extern "C" fn on_err(_: P, code: c_int) {
    eprintln!("z3 error {code}");
    std::process::exit(2);
}
pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Sat, Unsat, Unknown }
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Ast(P);
pub struct Z3 { c: P, s: P, int: P }
impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 60_000);
            Z3_solver_set_params(c, s, p);
            let int = Z3_mk_int_sort(c);
            Z3_inc_ref(c, int);
            Z3 { c, s, int }
        }
    }
    fn keep(&self, a: P) -> Ast { unsafe { Z3_inc_ref(self.c, a) }; Ast(a) }
    pub fn var(&self, i: u32) -> Ast {
        unsafe { self.keep(Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), self.int)) }
    }
    pub fn int(&self, v: i64) -> Ast { unsafe { self.keep(Z3_mk_int64(self.c, v, self.int)) } }
    pub fn sub(&self, a: Ast, b: Ast) -> Ast { let v = [a.0, b.0]; unsafe { self.keep(Z3_mk_sub(self.c, 2, v.as_ptr())) } }
    pub fn le(&self, a: Ast, b: Ast) -> Ast { unsafe { self.keep(Z3_mk_le(self.c, a.0, b.0)) } }
    pub fn eq(&self, a: Ast, b: Ast) -> Ast { unsafe { self.keep(Z3_mk_eq(self.c, a.0, b.0)) } }
    pub fn not(&self, a: Ast) -> Ast { unsafe { self.keep(Z3_mk_not(self.c, a.0)) } }
    pub fn push(&self) { unsafe { Z3_solver_push(self.c, self.s) } }
    pub fn pop(&self, n: u32) { unsafe { Z3_solver_pop(self.c, self.s, n) } }
    pub fn assert(&self, a: Ast) { unsafe { Z3_solver_assert(self.c, self.s, a.0) } }
    pub fn check(&self) -> Res {
        match unsafe { Z3_solver_check(self.c, self.s) } { 1 => Res::Sat, -1 => Res::Unsat, _ => Res::Unknown }
    }
    /// Values of the given variables in the current model (after Sat).
    pub fn model(&self, vars: &[Ast]) -> Vec<i64> {
        unsafe {
            let m = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, m);
            let r = vars.iter().map(|v| {
                let mut o: P = std::ptr::null_mut();
                let mut n = 0i64;
                if !Z3_model_eval(self.c, m, v.0, true, &mut o) || !Z3_get_numeral_int64(self.c, o, &mut n) {
                    eprintln!("z3: model value not an int64");
                    std::process::exit(2);
                }
                n
            }).collect();
            Z3_model_dec_ref(self.c, m);
            r
        }
    }
    pub fn smt2(&self) -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned() }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) { unsafe { Z3_solver_dec_ref(self.c, self.s); Z3_del_context(self.c) } }
}
