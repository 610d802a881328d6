//! Thin wrapper over the Z3 C API: satisfiability of sets of width-1 expressions.
use crate::expr::*;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, s: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        eprintln!("z3 error {}", CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy());
    }
    std::process::exit(3);
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub micros: u64,
    pub max_micros: u64,
}

pub struct Z3 {
    c: P,
    // bit-vector translation and boolean translation (for width 1)
    bv: Vec<P>,
    bl: Vec<P>,
    params: P,
    sorts: Vec<P>,
    one: P,
    zero: P,
    logic: P,
    pub stats: Stats,
}

pub enum Answer {
    Sat(Vec<u64>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let s = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, s.as_ptr()), 400_000_000);
            let mut sorts = vec![];
            for w in 0..=128u32 {
                let p = Z3_mk_bv_sort(c, w.max(1));
                Z3_inc_ref(c, p);
                sorts.push(p);
            }
            let one = Z3_mk_unsigned_int64(c, 1, sorts[1]);
            Z3_inc_ref(c, one);
            let zero = Z3_mk_unsigned_int64(c, 0, sorts[1]);
            Z3_inc_ref(c, zero);
            Z3 {
                c,
                sorts,
                one,
                zero,
                logic: Z3_mk_string_symbol(c, b"QF_BV\0".as_ptr() as *const c_char),
                bv: vec![],
                bl: vec![],
                params,
                stats: Stats::default(),
            }
        }
    }
    fn sort(&self, w: u8) -> P {
        self.sorts[w as usize]
    }
    fn put(v: &mut Vec<P>, i: Id, p: P) {
        if v.len() <= i as usize {
            v.resize(i as usize + 1024, std::ptr::null_mut());
        }
        v[i as usize] = p;
    }
    fn get(v: &Vec<P>, i: Id) -> P {
        v.get(i as usize).copied().unwrap_or(std::ptr::null_mut())
    }
    /// Boolean term for a width-1 expression.
    pub fn boolean(&mut self, i: Id) -> P {
        let r = Self::get(&self.bl, i);
        if !r.is_null() {
            return r;
        }
        let n = node(i);
        let c = self.c;
        if matches!(n.op, Op::And | Op::Or | Op::Ite | Op::Eq | Op::Ult | Op::Xor) {
            if let Some(v) = unary_var(i) {
                let d = dom_expr(v, &truth(i));
                if d != i {
                    let t = self.boolean(d);
                    Self::put(&mut self.bl, i, t);
                    return t;
                }
            }
        }
        unsafe {
            let t = match n.op {
                Op::Const => {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.boolean(n.a);
                    Z3_mk_not(c, a)
                }
                Op::And => {
                    let a = [self.boolean(n.a), self.boolean(n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.boolean(n.a), self.boolean(n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor | Op::Add | Op::Sub => {
                    let (a, b) = (self.boolean(n.a), self.boolean(n.b));
                    Z3_mk_xor(c, a, b)
                }
                Op::Ite => {
                    let (x, y, z) = (self.boolean(n.a), self.boolean(n.b), self.boolean(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    if n.op == Op::Eq && node(n.a).w == 1 {
                        let (a, b) = (self.boolean(n.a), self.boolean(n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.term(n.a), self.term(n.b));
                        match n.op {
                            Op::Eq => Z3_mk_eq(c, a, b),
                            Op::Ult => Z3_mk_bvult(c, a, b),
                            Op::Ule => Z3_mk_bvule(c, a, b),
                            Op::Slt => Z3_mk_bvslt(c, a, b),
                            _ => Z3_mk_bvsle(c, a, b),
                        }
                    }
                }
                _ => {
                    let t = self.term(i);
                    Z3_mk_eq(c, t, self.one)
                }
            };
            Z3_inc_ref(c, t);
            Self::put(&mut self.bl, i, t);
            t
        }
    }
    pub fn term(&mut self, i: Id) -> P {
        let r = Self::get(&self.bv, i);
        if !r.is_null() {
            return r;
        }
        let n = node(i);
        let c = self.c;
        unsafe {
            let t = match n.op {
                Op::Const => {
                    let s = CString::new(format!("{}", n.k)).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), self.sort(n.w))
                }
                Op::Var => {
                    let s = CString::new(format!("v{}", n.k)).unwrap();
                    let y = Z3_mk_string_symbol(c, s.as_ptr());
                    Z3_mk_const(c, y, self.sort(n.w))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(i);
                    Z3_mk_ite(c, b, self.one, self.zero)
                }
                Op::Not => {
                    let a = self.term(n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::ZExt => {
                    let a = self.term(n.a);
                    Z3_mk_zero_ext(c, (n.w - node(n.a).w) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.term(n.a);
                    Z3_mk_sign_ext(c, (n.w - node(n.a).w) as c_uint, a)
                }
                Op::Extract => {
                    let a = self.term(n.a);
                    Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a)
                }
                Op::Ite => {
                    let x = self.boolean(n.a);
                    let (y, z) = (self.term(n.b), self.term(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let (a, b) = (self.term(n.a), self.term(n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            Z3_inc_ref(c, t);
            Self::put(&mut self.bv, i, t);
            t
        }
    }
    /// Check the conjunction; on Sat returns values for all variables in `vars`.
    pub fn check(&mut self, cs: &[Id], vars: u128) -> Answer {
        let t0 = std::time::Instant::now();
        let c = self.c;
        let ans;
        unsafe {
            let terms: Vec<P> = cs.iter().map(|i| self.boolean(*i)).collect();
            let s = Z3_mk_solver_for_logic(c, self.logic);
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, self.params);
            for t in terms {
                Z3_solver_assert(c, s, t);
            }
            let r = Z3_solver_check(c, s);
            ans = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let nv = ar().vars.len();
                    let mut out = vec![0u64; nv];
                    for v in 0..nv {
                        if vars >> v & 1 == 1 {
                            let t = self.term(ar().var_ids[v]);
                            let mut o: P = std::ptr::null_mut();
                            if Z3_model_eval(c, m, t, true, &mut o) {
                                Z3_inc_ref(c, o);
                                let mut u = 0u64;
                                if !Z3_get_numeral_uint64(c, o, &mut u) {
                                    panic!("model value not numeral");
                                }
                                Z3_dec_ref(c, o);
                                out[v] = u;
                            }
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    Answer::Sat(out)
                }
                -1 => Answer::Unsat,
                _ => Answer::Unknown,
            };
            Z3_solver_dec_ref(c, s);
        }
        let us = t0.elapsed().as_micros() as u64;
        if std::env::var("SYMLL_DUMPQ").is_ok() {
            eprintln!("query {}us:", us);
            for c in cs {
                eprintln!("   {}", show(*c, 12));
            }
        }
        self.stats.queries += 1;
        self.stats.micros += us;
        self.stats.max_micros = self.stats.max_micros.max(us);
        match ans {
            Answer::Sat(_) => self.stats.sat += 1,
            Answer::Unsat => self.stats.unsat += 1,
            Answer::Unknown => self.stats.unknown += 1,
        }
        ans
    }
}
