//! Minimal hand-written bindings to libz3 (C API).
use crate::expr::Op;
use std::cell::RefCell;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

pub type P = *mut c_void;
#[derive(Clone, Copy)]
pub struct Ast(P);

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_uint) {
    eprintln!("z3 error {}", e);
    std::process::abort();
}

pub struct Z3 {
    c: P,
    s: P,
    vars: RefCell<Vec<Ast>>,
    pub queries: RefCell<u64>,
    pub time: RefCell<f64>,
    pub dump: RefCell<Option<Vec<(String, bool)>>>,
}
pub enum Res {
    Sat(Vec<u8>),
    Unsat,
    Unknown,
}
impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, vars: RefCell::new(vec![]), queries: RefCell::new(0), time: RefCell::new(0.0), dump: RefCell::new(None) }
        }
    }
    pub fn check(&self, cs: &[Ast], vars: u128) -> Res {
        let t0 = std::time::Instant::now();
        *self.queries.borrow_mut() += 1;
        unsafe {
            Z3_solver_push(self.c, self.s);
            for a in cs {
                Z3_solver_assert(self.c, self.s, a.0);
            }
            let r = Z3_solver_check(self.c, self.s);
            if let Some(d) = self.dump.borrow_mut().as_mut() {
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                d.push((s, r == 1));
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut v = vec![0u8; 128];
                    for i in 0..128 {
                        if vars >> i & 1 == 1 {
                            let a = self.var(i);
                            let mut o: P = std::ptr::null_mut();
                            if Z3_model_eval(self.c, m, a.0, true, &mut o) {
                                let mut x = 0u64;
                                if Z3_get_numeral_uint64(self.c, o, &mut x) {
                                    v[i as usize] = x as u8;
                                }
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(v)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if std::env::var("SYMX_SLOW").is_ok() && t0.elapsed().as_secs_f64() > 0.05 {
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                eprintln!("SLOW {:.2}s r={} len={}\n{}", t0.elapsed().as_secs_f64(), r, s.len(), &s[..s.len().min(6000)]);
            }
            Z3_solver_pop(self.c, self.s, 1);
            *self.time.borrow_mut() += t0.elapsed().as_secs_f64();
            out
        }
    }
    pub fn var(&self, i: u32) -> Ast {
        let mut v = self.vars.borrow_mut();
        while v.len() <= i as usize {
            let k = v.len();
            unsafe {
                let s = Z3_mk_int_symbol(self.c, k as c_int);
                v.push(Ast(Z3_mk_const(self.c, s, Z3_mk_bv_sort(self.c, 8))));
            }
        }
        v[i as usize]
    }
    pub fn konst(&self, k: u128, w: u32) -> Ast {
        unsafe {
            let t = Z3_mk_bv_sort(self.c, w);
            if w <= 64 {
                Ast(Z3_mk_unsigned_int64(self.c, k as u64, t))
            } else {
                let s = CString::new(k.to_string()).unwrap();
                Ast(Z3_mk_numeral(self.c, s.as_ptr(), t))
            }
        }
    }
    pub fn boolc(&self, b: bool) -> Ast {
        unsafe { Ast(if b { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) }) }
    }
    pub fn bool2bv(&self, b: Ast) -> Ast {
        let o = self.konst(1, 1);
        let z = self.konst(0, 1);
        self.ite(b, o, z)
    }
    pub fn ite(&self, c: Ast, a: Ast, b: Ast) -> Ast {
        unsafe { Ast(Z3_mk_ite(self.c, c.0, a.0, b.0)) }
    }
    pub fn not(&self, a: Ast) -> Ast {
        unsafe { Ast(Z3_mk_not(self.c, a.0)) }
    }
    pub fn bvnot(&self, a: Ast) -> Ast {
        unsafe { Ast(Z3_mk_bvnot(self.c, a.0)) }
    }
    pub fn eq(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Ast(Z3_mk_eq(self.c, a.0, b.0)) }
    }
    pub fn zext(&self, n: u32, a: Ast) -> Ast {
        unsafe { Ast(Z3_mk_zero_ext(self.c, n, a.0)) }
    }
    pub fn sext(&self, n: u32, a: Ast) -> Ast {
        unsafe { Ast(Z3_mk_sign_ext(self.c, n, a.0)) }
    }
    pub fn extract(&self, h: u32, l: u32, a: Ast) -> Ast {
        unsafe { Ast(Z3_mk_extract(self.c, h, l, a.0)) }
    }
    pub fn boolbin(&self, op: Op, a: Ast, b: Ast) -> Ast {
        unsafe {
            let v = [a.0, b.0];
            Ast(match op {
                Op::And => Z3_mk_and(self.c, 2, v.as_ptr()),
                Op::Or => Z3_mk_or(self.c, 2, v.as_ptr()),
                _ => Z3_mk_xor(self.c, a.0, b.0),
            })
        }
    }
    pub fn cmp(&self, op: Op, a: Ast, b: Ast) -> Ast {
        unsafe {
            Ast(match op {
                Op::Eq => Z3_mk_eq(self.c, a.0, b.0),
                Op::Ult => Z3_mk_bvult(self.c, a.0, b.0),
                Op::Ule => Z3_mk_bvule(self.c, a.0, b.0),
                Op::Slt => Z3_mk_bvslt(self.c, a.0, b.0),
                _ => Z3_mk_bvsle(self.c, a.0, b.0),
            })
        }
    }
    pub fn bin(&self, op: Op, a: Ast, b: Ast) -> Ast {
        unsafe {
            let f = match op {
                Op::And => Z3_mk_bvand,
                Op::Or => Z3_mk_bvor,
                Op::Xor => Z3_mk_bvxor,
                Op::Add => Z3_mk_bvadd,
                Op::Sub => Z3_mk_bvsub,
                Op::Mul => Z3_mk_bvmul,
                Op::UDiv => Z3_mk_bvudiv,
                Op::SDiv => Z3_mk_bvsdiv,
                Op::URem => Z3_mk_bvurem,
                Op::SRem => Z3_mk_bvsrem,
                Op::Shl => Z3_mk_bvshl,
                Op::LShr => Z3_mk_bvlshr,
                Op::AShr => Z3_mk_bvashr,
                Op::Concat => Z3_mk_concat,
                _ => panic!("z3 bin {:?}", op),
            };
            Ast(f(self.c, a.0, b.0))
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}
