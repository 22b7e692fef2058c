//! Path-condition queries: exact byte-domain decision for one-variable slices, z3 for everything else.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_tactic(c: P, name: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
}

pub fn z3_version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into() }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub z3: u64,
    pub dom: u64,
    pub cached: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub z3_ns: u64,
    pub asserts: u64,
    pub asserts_z3: u64,
    pub max_ns: u64,
}

pub struct Solver {
    c: P,
    s: P,
    params: P,
    qfbv: P,
    ast: HashMap<E, P, BuildFx>,
    bv8: P,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u8)>>, BuildFx>,
    pub st: Stats,
    pub dump: Option<(String, u64, u64)>,
}

pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

impl Solver {
    /// `limit`: what a query may cost, in z3's own unit (2 million are about a second)
    pub fn new(limit: c_uint) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), limit);
            Z3_solver_set_params(c, s, p);
            let k = CString::new("qfbv").unwrap();
            let qfbv = Z3_mk_tactic(c, k.as_ptr());
            Z3_tactic_inc_ref(c, qfbv);
            Solver { c, s, params: p, qfbv, ast: Default::default(), bv8: Z3_mk_bv_sort(c, 8), cache: Default::default(), st: Default::default(), dump: None }
        }
    }

    fn z(&mut self, e: E) -> P {
        if let Some(p) = self.ast.get(&e) {
            return *p;
        }
        let n = node(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let v = is_const(e).unwrap();
                    if n.w == 1 {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else if n.w <= 64 {
                        Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, n.w as c_uint))
                    } else {
                        let hi = Z3_mk_unsigned_int64(c, (v >> 64) as u64, Z3_mk_bv_sort(c, n.w as c_uint - 64));
                        let lo = Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, 64));
                        Z3_mk_concat(c, hi, lo)
                    }
                }
                Op::Var => {
                    let s = Z3_mk_int_symbol(c, n.a as c_int);
                    Z3_mk_const(c, s, self.bv8)
                }
                Op::Ite => {
                    let (a, b, d) = (self.z(n.a), self.z(n.b), self.z(n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Not => {
                    let a = self.z(n.a);
                    if n.w == 1 {
                        Z3_mk_not(c, a)
                    } else {
                        Z3_mk_bvnot(c, a)
                    }
                }
                Op::Extract => {
                    let a = self.z(n.a);
                    let x = Z3_mk_extract(c, n.b, n.c, a);
                    if n.w == 1 {
                        Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                    } else {
                        x
                    }
                }
                Op::SExt => {
                    let a = self.bvz(n.a);
                    Z3_mk_sign_ext(c, (n.w - width(n.a)) as c_uint, a)
                }
                Op::Concat => {
                    let (a, b) = (self.bvz(n.a), self.bvz(n.b));
                    Z3_mk_concat(c, a, b)
                }
                Op::Eq => {
                    let (a, b) = (self.z(n.a), self.z(n.b));
                    Z3_mk_eq(c, a, b)
                }
                _ => {
                    let (a, b) = (self.z(n.a), self.z(n.b));
                    if n.w == 1 && !matches!(n.op, Op::Ult | Op::Slt) {
                        let v = [a, b];
                        match n.op {
                            Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                            Op::Xor => Z3_mk_xor(c, a, b),
                            o => panic!("1-bit {o:?}"),
                        }
                    } else {
                        match n.op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::Ult => Z3_mk_bvult(c, a, b),
                            Op::Slt => Z3_mk_bvslt(c, a, b),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        };
        self.ast.insert(e, r);
        r
    }
    /// as a bit-vector (1-bit values are z3 booleans otherwise)
    fn bvz(&mut self, e: E) -> P {
        let a = self.z(e);
        if width(e) == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, 1);
                Z3_mk_ite(self.c, a, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s))
            }
        } else {
            a
        }
    }

    /// constraints of `pc` that transitively share a variable with `cond`
    fn slice(pc: &[E], cond: E) -> (Vec<E>, VarSet) {
        let mut vs = *vars(cond);
        let mut inn = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut changed = false;
            for (i, &c) in pc.iter().enumerate() {
                if inn[i] {
                    continue;
                }
                let cv = vars(c);
                if cv.iter().zip(vs.iter()).any(|(a, b)| a & b != 0) {
                    inn[i] = true;
                    out.push(c);
                    if cv.iter().zip(vs.iter()).any(|(a, b)| a & !b != 0) {
                        for k in 0..vs.len() {
                            vs[k] |= cv[k];
                        }
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        (out, vs)
    }

    /// Is `pc ∧ cond` satisfiable? On Sat, returns values for the variables of the slice.
    pub fn check(&mut self, pc: &[E], cond: E, assert: bool) -> Res {
        self.st.queries += 1;
        if assert {
            self.st.asserts += 1;
        }
        if let Some(v) = is_const(cond) {
            return if v == 1 { Res::Sat(vec![]) } else { Res::Unsat };
        }
        let (mut sl, vs) = Self::slice(pc, cond);
        let nv: u32 = vs.iter().map(|x| x.count_ones()).sum();
        if nv == 1 && !assert {
            let v = single_var(cond).unwrap();
            let mut m = truth_mask(cond, v);
            for c in &sl {
                let k = truth_mask(*c, v);
                for i in 0..4 {
                    m[i] &= k[i];
                }
            }
            self.st.dom += 1;
            for i in 0..4 {
                if m[i] != 0 {
                    self.st.sat += 1;
                    return Res::Sat(vec![(v, (i * 64) as u8 + m[i].trailing_zeros() as u8)]);
                }
            }
            self.st.unsat += 1;
            return Res::Unsat;
        }
        sl.push(cond);
        sl.sort_unstable();
        sl.dedup();
        if let Some(r) = self.cache.get(&sl) {
            self.st.cached += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let t = Instant::now();
        let r = unsafe {
            let (c, s) = (self.c, self.s);
            let asts: Vec<P> = sl.iter().map(|&e| self.z(e)).collect();
            Z3_solver_push(c, s);
            for a in &asts {
                Z3_solver_assert(c, s, *a);
            }
            let mut query = None;
            if let Some((dir, n, every)) = &mut self.dump {
                *n += 1;
                if *n % *every == 0 && *n / *every < 200 {
                    let mut o = String::from("(set-logic QF_BV)\n");
                    for i in 0..NVARS {
                        if vs[i / 64] >> (i % 64) & 1 == 1 {
                            o += &format!("(declare-const k!{i} (_ BitVec 8))\n");
                        }
                    }
                    for a in &asts {
                        let st = std::ffi::CStr::from_ptr(Z3_ast_to_string(c, *a)).to_string_lossy();
                        o += &format!("(assert {st})\n");
                    }
                    o += "(check-sat)\n";
                    query = Some((format!("{dir}/q{}-{}.smt2", std::process::id(), n), o));
                }
            }
            let mut r = Z3_solver_check(c, s);
            let mut tried = s;
            if r == 0 {
                // too much for the incremental core: bit-blast it
                tried = Z3_mk_solver_from_tactic(c, self.qfbv);
                Z3_solver_inc_ref(c, tried);
                Z3_solver_set_params(c, tried, self.params);
                for a in &asts {
                    Z3_solver_assert(c, tried, *a);
                }
                r = Z3_solver_check(c, tried);
            }
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, tried);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for i in 0..NVARS {
                        if vs[i / 64] >> (i % 64) & 1 == 1 {
                            let v = self.z(var(i as u32));
                            let mut o: P = std::ptr::null_mut();
                            Z3_model_eval(c, m, v, true, &mut o);
                            let mut x = 0u64;
                            Z3_get_numeral_uint64(c, o, &mut x);
                            out.push((i as u32, x as u8));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if let Some((f, o)) = query {
                let said = match r {
                    1 => "sat",
                    -1 => "unsat",
                    _ => "unknown",
                };
                let _ = std::fs::write(f, format!("; {said}\n{o}"));
            }
            if tried != s {
                Z3_solver_dec_ref(c, tried);
            }
            Z3_solver_pop(c, s, 1);
            res
        };
        let dt = t.elapsed().as_nanos() as u64;
        self.st.z3_ns += dt;
        self.st.max_ns = self.st.max_ns.max(dt);
        self.st.z3 += 1;
        if assert {
            self.st.asserts_z3 += 1;
        }
        match &r {
            Res::Sat(m) => {
                self.st.sat += 1;
                self.cache.insert(sl, Some(m.clone()));
            }
            Res::Unsat => {
                self.st.unsat += 1;
                self.cache.insert(sl, None);
            }
            Res::Unknown => self.st.unknown += 1,
        }
        r
    }
}
