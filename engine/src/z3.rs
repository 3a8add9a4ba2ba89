//! The few pieces of the Z3 C API that are needed.
#![allow(non_camel_case_types, dead_code)]
use std::ffi::c_void;
use std::os::raw::{c_char, c_uint};
pub type Ptr = *mut c_void;
pub type Ast = Ptr;
extern "C" {
    pub fn Z3_mk_config() -> Ptr;
    pub fn Z3_set_param_value(c: Ptr, k: *const c_char, v: *const c_char);
    pub fn Z3_mk_context_rc(c: Ptr) -> Ptr;
    pub fn Z3_set_error_handler(c: Ptr, h: Option<extern "C" fn(Ptr, c_uint)>);
    pub fn Z3_mk_string_symbol(c: Ptr, s: *const c_char) -> Ptr;
    pub fn Z3_mk_solver_for_logic(c: Ptr, s: Ptr) -> Ptr;
    pub fn Z3_mk_simple_solver(c: Ptr) -> Ptr;
    pub fn Z3_solver_inc_ref(c: Ptr, s: Ptr);
    pub fn Z3_solver_push(c: Ptr, s: Ptr);
    pub fn Z3_solver_pop(c: Ptr, s: Ptr, n: c_uint);
    pub fn Z3_solver_assert(c: Ptr, s: Ptr, a: Ast);
    pub fn Z3_solver_check(c: Ptr, s: Ptr) -> i32;
    pub fn Z3_solver_get_model(c: Ptr, s: Ptr) -> Ptr;
    pub fn Z3_model_inc_ref(c: Ptr, m: Ptr);
    pub fn Z3_model_dec_ref(c: Ptr, m: Ptr);
    pub fn Z3_model_eval(c: Ptr, m: Ptr, t: Ast, completion: bool, v: *mut Ast) -> bool;
    pub fn Z3_get_numeral_uint64(c: Ptr, v: Ast, u: *mut u64) -> bool;
    pub fn Z3_inc_ref(c: Ptr, a: Ast);
    pub fn Z3_dec_ref(c: Ptr, a: Ast);
    pub fn Z3_mk_bv_sort(c: Ptr, sz: c_uint) -> Ptr;
    pub fn Z3_mk_const(c: Ptr, s: Ptr, ty: Ptr) -> Ast;
    pub fn Z3_mk_unsigned_int64(c: Ptr, v: u64, ty: Ptr) -> Ast;
    pub fn Z3_mk_true(c: Ptr) -> Ast;
    pub fn Z3_mk_false(c: Ptr) -> Ast;
    pub fn Z3_mk_eq(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_not(c: Ptr, a: Ast) -> Ast;
    pub fn Z3_mk_ite(c: Ptr, i: Ast, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_and(c: Ptr, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_or(c: Ptr, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_bvadd(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsub(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvmul(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvudiv(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsdiv(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvurem(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsrem(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvand(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvor(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvxor(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvshl(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvlshr(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvashr(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvult(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvule(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvslt(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsle(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_ext_rotate_left(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_ext_rotate_right(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_concat(c: Ptr, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_extract(c: Ptr, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_zero_ext(c: Ptr, n: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_sign_ext(c: Ptr, n: c_uint, a: Ast) -> Ast;
    pub fn Z3_get_full_version() -> *const c_char;
}
