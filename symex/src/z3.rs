//! The part of libz3's C API that the executor uses.
#![allow(non_camel_case_types, dead_code)]
use std::os::raw::{c_char, c_int, c_uint};

macro_rules! opaque { ($($n:ident),*) => { $( #[repr(C)] pub struct $n { _p: [u8; 0] } )* } }
opaque!(Cfg, Ctx, Sort_, Ast_, Sym_, Decl_, Solver_, Model_);
pub type Z3_config = *mut Cfg;
pub type Z3_context = *mut Ctx;
pub type Z3_sort = *mut Sort_;
pub type Z3_ast = *mut Ast_;
pub type Z3_symbol = *mut Sym_;
pub type Z3_func_decl = *mut Decl_;
pub type Z3_solver = *mut Solver_;
pub type Z3_model = *mut Model_;
pub type ErrH = extern "C" fn(Z3_context, c_int);

#[link(name = "z3")]
extern "C" {
    pub fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
    pub fn Z3_mk_config() -> Z3_config;
    pub fn Z3_del_config(c: Z3_config);
    pub fn Z3_set_param_value(c: Z3_config, k: *const c_char, v: *const c_char);
    pub fn Z3_mk_context(c: Z3_config) -> Z3_context;
    pub fn Z3_del_context(c: Z3_context);
    pub fn Z3_set_error_handler(c: Z3_context, h: ErrH);
    pub fn Z3_mk_int_sort(c: Z3_context) -> Z3_sort;
    pub fn Z3_mk_bool_sort(c: Z3_context) -> Z3_sort;
    pub fn Z3_mk_string_symbol(c: Z3_context, s: *const c_char) -> Z3_symbol;
    pub fn Z3_mk_const(c: Z3_context, s: Z3_symbol, t: Z3_sort) -> Z3_ast;
    pub fn Z3_mk_func_decl(c: Z3_context, s: Z3_symbol, n: c_uint, dom: *const Z3_sort, rng: Z3_sort) -> Z3_func_decl;
    pub fn Z3_mk_app(c: Z3_context, d: Z3_func_decl, n: c_uint, args: *const Z3_ast) -> Z3_ast;
    pub fn Z3_mk_int64(c: Z3_context, v: i64, t: Z3_sort) -> Z3_ast;
    pub fn Z3_mk_true(c: Z3_context) -> Z3_ast;
    pub fn Z3_mk_false(c: Z3_context) -> Z3_ast;
    pub fn Z3_mk_eq(c: Z3_context, a: Z3_ast, b: Z3_ast) -> Z3_ast;
    pub fn Z3_mk_le(c: Z3_context, a: Z3_ast, b: Z3_ast) -> Z3_ast;
    pub fn Z3_mk_not(c: Z3_context, a: Z3_ast) -> Z3_ast;
    pub fn Z3_mk_and(c: Z3_context, n: c_uint, a: *const Z3_ast) -> Z3_ast;
    pub fn Z3_mk_or(c: Z3_context, n: c_uint, a: *const Z3_ast) -> Z3_ast;
    pub fn Z3_mk_add(c: Z3_context, n: c_uint, a: *const Z3_ast) -> Z3_ast;
    pub fn Z3_mk_simple_solver(c: Z3_context) -> Z3_solver;
    pub fn Z3_solver_inc_ref(c: Z3_context, s: Z3_solver);
    pub fn Z3_solver_dec_ref(c: Z3_context, s: Z3_solver);
    pub fn Z3_solver_assert(c: Z3_context, s: Z3_solver, a: Z3_ast);
    pub fn Z3_solver_push(c: Z3_context, s: Z3_solver);
    pub fn Z3_solver_pop(c: Z3_context, s: Z3_solver, n: c_uint);
    pub fn Z3_solver_reset(c: Z3_context, s: Z3_solver);
    pub fn Z3_solver_check(c: Z3_context, s: Z3_solver) -> c_int;
    pub fn Z3_solver_get_model(c: Z3_context, s: Z3_solver) -> Z3_model;
    pub fn Z3_solver_to_string(c: Z3_context, s: Z3_solver) -> *const c_char;
    pub fn Z3_model_inc_ref(c: Z3_context, m: Z3_model);
    pub fn Z3_model_dec_ref(c: Z3_context, m: Z3_model);
    pub fn Z3_model_eval(c: Z3_context, m: Z3_model, t: Z3_ast, completion: bool, v: *mut Z3_ast) -> bool;
    pub fn Z3_get_numeral_int64(c: Z3_context, v: Z3_ast, i: *mut i64) -> bool;
    pub fn Z3_get_bool_value(c: Z3_context, a: Z3_ast) -> c_int;
    pub fn Z3_get_error_code(c: Z3_context) -> c_int;
}
pub extern "C" fn on_error(_c: Z3_context, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::exit(70);
}
