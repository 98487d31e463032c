//! Minimal hand-written binding to libz3 and translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Sym = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_del_config(c: *mut c_void);
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: Sym, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Sym;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Sym, ty: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, s: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_get_error_code(c: Ctx) -> c_int;
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Sat(Vec<(u32, u64)>), // values of the variables of the query
    Unsat,
    Unknown,
}

pub struct Z3 {
    ctx: Ctx,
    solver: Solver,
    bv: FxMap<E, usize>,   // expression -> bit-vector ast
    bl: FxMap<E, usize>,   // width-1 expression -> Bool ast
    sorts: [usize; 129],
    uses: u32,
    timeout_ms: u32,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let mut z = Z3 { ctx: std::ptr::null_mut(), solver: std::ptr::null_mut(), bv: FxMap::default(), bl: FxMap::default(), sorts: [0; 129], uses: 0, timeout_ms };
        z.open();
        z
    }
    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            self.solver = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, t.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.solver, p);
        }
        self.bv.clear();
        self.bl.clear();
        self.sorts = [0; 129];
        self.uses = 0;
    }
    fn close(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
    }
    /// Forget all translations (the expression arena was cleared, or the context grew too large).
    pub fn reset(&mut self) {
        self.close();
        self.open();
    }
    fn sort(&mut self, w: u32) -> Sort {
        let s = &mut self.sorts[w as usize];
        if *s == 0 {
            *s = unsafe { Z3_mk_bv_sort(self.ctx, w) as usize };
        }
        *s as Sort
    }
    fn num(&mut self, w: u32, v: u64) -> Ast {
        let s = self.sort(w);
        unsafe { Z3_mk_unsigned_int64(self.ctx, v, s) }
    }
    pub fn to_bool(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(&a) = self.bl.get(&e) {
            return a as Ast;
        }
        let k = ar.n[e as usize].key;
        let c = self.ctx;
        let r = unsafe {
            match k.op {
                Op::Const => {
                    if k.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq => {
                    if ar.w(k.a) == 1 {
                        if ar.konst(k.b) == Some(0) {
                            let a = self.to_bool(ar, k.a);
                            Z3_mk_not(c, a)
                        } else {
                            let a = self.to_bool(ar, k.a);
                            let b = self.to_bool(ar, k.b);
                            Z3_mk_eq(c, a, b)
                        }
                    } else {
                        let a = self.to_bv(ar, k.a);
                        let b = self.to_bv(ar, k.b);
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.to_bv(ar, k.a);
                    let b = self.to_bv(ar, k.b);
                    match k.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::And | Op::Or | Op::Xor => {
                    let a = self.to_bool(ar, k.a);
                    let b = self.to_bool(ar, k.b);
                    let ab = [a, b];
                    match k.op {
                        Op::And => Z3_mk_and(c, 2, ab.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, ab.as_ptr()),
                        _ => Z3_mk_xor(c, a, b),
                    }
                }
                Op::Ite => {
                    let a = self.to_bool(ar, k.a);
                    let b = self.to_bool(ar, k.b);
                    let d = self.to_bool(ar, k.c);
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let a = self.to_bv(ar, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        self.bl.insert(e, r as usize);
        r
    }
    pub fn to_bv(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(&a) = self.bv.get(&e) {
            return a as Ast;
        }
        let k = ar.n[e as usize].key;
        let w = k.w as u32;
        let c = self.ctx;
        let r = unsafe {
            match k.op {
                Op::Const => self.num(w, k.k),
                Op::Var => {
                    let s = self.sort(w);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, k.k as c_int), s)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.to_bool(ar, e);
                    let (o, z) = (self.num(1, 1), self.num(1, 0));
                    Z3_mk_ite(c, a, o, z)
                }
                Op::Ite => {
                    let a = self.to_bool(ar, k.a);
                    let b = self.to_bv(ar, k.b);
                    let d = self.to_bv(ar, k.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Zext => {
                    let aw = ar.w(k.a);
                    let a = self.to_bv(ar, k.a);
                    Z3_mk_zero_ext(c, w - aw, a)
                }
                Op::Sext => {
                    let aw = ar.w(k.a);
                    let a = self.to_bv(ar, k.a);
                    Z3_mk_sign_ext(c, w - aw, a)
                }
                Op::Extract => {
                    let a = self.to_bv(ar, k.a);
                    Z3_mk_extract(c, k.k as u32 + w - 1, k.k as u32, a)
                }
                op => {
                    let a = self.to_bv(ar, k.a);
                    let b = self.to_bv(ar, k.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv.insert(e, r as usize);
        r
    }
    /// Is the conjunction of `lits` (width-1 expressions) satisfiable?
    pub fn check(&mut self, ar: &Arena, lits: &[E], vars: &[u32]) -> Verdict {
        self.uses += 1;
        if self.uses > 4000 || self.bv.len() > 400_000 {
            self.reset();
        }
        unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for &l in lits {
                let a = self.to_bool(ar, l);
                Z3_solver_assert(self.ctx, self.solver, a);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            let v = if Z3_get_error_code(self.ctx) != 0 {
                Verdict::Unknown
            } else if r == 1 {
                let m = Z3_solver_get_model(self.ctx, self.solver);
                Z3_model_inc_ref(self.ctx, m);
                let mut out = vec![];
                for &v in vars {
                    let s = self.sort(ar.var_w[v as usize] as u32);
                    let t = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, v as c_int), s);
                    let mut res: Ast = std::ptr::null_mut();
                    let mut val = 0u64;
                    Z3_model_eval(self.ctx, m, t, true, &mut res);
                    Z3_get_numeral_uint64(self.ctx, res, &mut val);
                    out.push((v, val));
                }
                Z3_model_dec_ref(self.ctx, m);
                Verdict::Sat(out)
            } else if r == -1 {
                Verdict::Unsat
            } else {
                Verdict::Unknown
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            v
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        self.close();
    }
}
