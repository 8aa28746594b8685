//! Z3 back end (C API), query cache and constraint slicing.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: i32) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_uint) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    panic!("z3 error: {:?}", m);
}

pub struct Solver {
    c: P,
    s: P,
    asts: Vec<P>,
    sorts: HashMap<u32, P>,
    cache: HashMap<Box<[E]>, Option<Vec<(u32, u64)>>, Fx>,
    recent: Vec<Vec<u64>>,
    pub queries: u64,
    pub z3_queries: u64,
    pub byte_queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_time: f64,
    pub unknown: u64,
    pub dump: Option<(std::fs::File, u64, u64)>, // file, every n-th, seed
}

pub enum R {
    Sat(Vec<u64>),
    Unsat,
    Unknown,
}

impl Solver {
    pub fn version() -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver {
                c,
                s,
                asts: vec![],
                sorts: HashMap::new(),
                cache: HashMap::default(),
                recent: vec![],
                queries: 0,
                z3_queries: 0,
                byte_queries: 0,
                sat: 0,
                unsat: 0,
                time: 0.0,
                max_time: 0.0,
                unknown: 0,
                dump: None,
            }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    /// width-1 nodes are Bool in z3, all others bit-vectors
    fn tr(&mut self, ar: &Arena, e: E) -> P {
        if self.asts.len() <= e as usize {
            self.asts.resize(ar.nodes.len() + 1, std::ptr::null_mut());
        }
        if !self.asts[e as usize].is_null() {
            return self.asts[e as usize];
        }
        let n = ar.n(e);
        let c = self.c;
        let r = unsafe {
            match n.k {
                K::Const => {
                    if n.w == 1 {
                        if n.v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(n.v, n.w)
                    }
                }
                K::Var => {
                    let s = self.sort(n.w.max(1));
                    let x = Z3_mk_const(c, Z3_mk_int_symbol(c, n.v as i32), s);
                    if n.w == 1 {
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, x, one)
                    } else {
                        x
                    }
                }
                K::Ite => {
                    let (x, y, z) = (self.tr(ar, n.a), self.tr(ar, n.b), self.tr(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                K::Not => {
                    let x = self.tr(ar, n.a);
                    if n.w == 1 {
                        Z3_mk_not(c, x)
                    } else {
                        Z3_mk_bvnot(c, x)
                    }
                }
                K::Extract => {
                    let x = self.tr(ar, n.a);
                    let r = Z3_mk_extract(c, n.v as u32 + n.w - 1, n.v as u32, x);
                    if n.w == 1 {
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, r, one)
                    } else {
                        r
                    }
                }
                K::ZExt => {
                    let x = self.trbv(ar, n.a);
                    Z3_mk_zero_ext(c, n.w - ar.w(n.a), x)
                }
                K::SExt => {
                    let x = self.trbv(ar, n.a);
                    Z3_mk_sign_ext(c, n.w - ar.w(n.a), x)
                }
                K::Concat => {
                    let (x, y) = (self.trbv(ar, n.a), self.trbv(ar, n.b));
                    Z3_mk_concat(c, x, y)
                }
                _ => {
                    let aw = ar.w(n.a);
                    if aw == 1 && matches!(n.k, K::And | K::Or | K::Xor | K::Eq) {
                        let (x, y) = (self.tr(ar, n.a), self.tr(ar, n.b));
                        let a = [x, y];
                        match n.k {
                            K::And => Z3_mk_and(c, 2, a.as_ptr()),
                            K::Or => Z3_mk_or(c, 2, a.as_ptr()),
                            K::Xor => Z3_mk_xor(c, x, y),
                            _ => Z3_mk_eq(c, x, y),
                        }
                    } else {
                        let (x, y) = (self.trbv(ar, n.a), self.trbv(ar, n.b));
                        let r = match n.k {
                            K::Add => Z3_mk_bvadd(c, x, y),
                            K::Sub => Z3_mk_bvsub(c, x, y),
                            K::Mul => Z3_mk_bvmul(c, x, y),
                            K::UDiv => Z3_mk_bvudiv(c, x, y),
                            K::SDiv => Z3_mk_bvsdiv(c, x, y),
                            K::URem => Z3_mk_bvurem(c, x, y),
                            K::SRem => Z3_mk_bvsrem(c, x, y),
                            K::And => Z3_mk_bvand(c, x, y),
                            K::Or => Z3_mk_bvor(c, x, y),
                            K::Xor => Z3_mk_bvxor(c, x, y),
                            K::Shl => Z3_mk_bvshl(c, x, y),
                            K::LShr => Z3_mk_bvlshr(c, x, y),
                            K::AShr => Z3_mk_bvashr(c, x, y),
                            K::Eq => Z3_mk_eq(c, x, y),
                            K::Ult => Z3_mk_bvult(c, x, y),
                            K::Ule => Z3_mk_bvule(c, x, y),
                            K::Slt => Z3_mk_bvslt(c, x, y),
                            K::Sle => Z3_mk_bvsle(c, x, y),
                            _ => unreachable!(),
                        };
                        if n.w == 1 && !matches!(n.k, K::Eq | K::Ult | K::Ule | K::Slt | K::Sle) {
                            let one = self.num(1, 1);
                            Z3_mk_eq(c, r, one)
                        } else {
                            r
                        }
                    }
                }
            }
        };
        if self.asts.len() <= e as usize {
            self.asts.resize(ar.nodes.len() + 1, std::ptr::null_mut());
        }
        self.asts[e as usize] = r;
        r
    }
    fn trbv(&mut self, ar: &Arena, e: E) -> P {
        let x = self.tr(ar, e);
        if ar.w(e) == 1 {
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            unsafe { Z3_mk_ite(self.c, x, o, z) }
        } else {
            x
        }
    }

    /// constraints of `pc` transitively sharing variables with `cond`
    pub fn slice(ar: &Arena, pc: &[E], seed: &[u32]) -> Vec<E> {
        let mut vars: std::collections::HashSet<u32, Fx> = seed.iter().copied().collect();
        let mut taken = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut changed = false;
            for (i, e) in pc.iter().enumerate() {
                if taken[i] {
                    continue;
                }
                let s = &ar.sets[ar.sup[*e as usize] as usize];
                if s.iter().any(|v| vars.contains(v)) {
                    taken[i] = true;
                    out.push(*e);
                    for v in s.iter() {
                        if vars.insert(*v) {
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        out
    }

    /// Is `pc ∧ cond` satisfiable?  `base` must satisfy pc.
    pub fn check(&mut self, ar: &mut Arena, pc: &[E], cond: E, base: &[u64]) -> R {
        self.queries += 1;
        let sup = ar.support(cond);
        let mut key = Solver::slice(ar, pc, &sup);
        key.push(cond);
        key.sort_unstable();
        key.dedup();
        let merge = |m: &Vec<(u32, u64)>| {
            let mut out = base.to_vec();
            for (v, x) in m {
                if out.len() <= *v as usize {
                    out.resize(*v as usize + 1, 0);
                }
                out[*v as usize] = *x;
            }
            out
        };
        let key: Box<[E]> = key.into();
        if let Some(r) = self.cache.get(&key) {
            return match r {
                None => R::Unsat,
                Some(m) => R::Sat(merge(m)),
            };
        }
        let mut vars: Vec<u32> = vec![];
        for e in key.iter() {
            vars.extend(ar.support(*e).iter());
        }
        vars.sort_unstable();
        vars.dedup();
        if vars.len() == 1 && ar.var_w[vars[0] as usize] <= 8 {
            // a byte: try all its values
            let v = vars[0] as usize;
            let mut m = vec![0; v + 1];
            let mut r = None;
            for x in 0..1u64 << ar.var_w[v] {
                m[v] = x;
                if ar.eval_all_true(&key, &m) {
                    r = Some(vec![(v as u32, x)]);
                    break;
                }
            }
            self.byte_queries += 1;
            let out = match &r {
                Some(m) => {
                    self.sat += 1;
                    R::Sat(merge(m))
                }
                None => {
                    self.unsat += 1;
                    R::Unsat
                }
            };
            self.cache.insert(key, r);
            return out;
        }
        // reuse recent models
        for i in (0..self.recent.len()).rev() {
            let m = std::mem::take(&mut self.recent[i]);
            let ok = ar.eval_all_true(&key, &m);
            let res = if ok {
                Some(vars.iter().map(|v| (*v, m.get(*v as usize).copied().unwrap_or(0))).collect::<Vec<_>>())
            } else {
                None
            };
            self.recent[i] = m;
            if let Some(r) = res {
                let out = merge(&r);
                self.cache.insert(key, Some(r));
                return R::Sat(out);
            }
        }
        let t0 = Instant::now();
        self.z3_queries += 1;
        let asts: Vec<P> = key.iter().map(|e| self.tr(ar, *e)).collect();
        let res = unsafe {
            Z3_solver_push(self.c, self.s);
            for a in &asts {
                Z3_solver_assert(self.c, self.s, *a);
            }
            let r = Z3_solver_check(self.c, self.s);
            if let Some((f, every, cnt)) = &mut self.dump {
                *cnt += 1;
                if *cnt % *every == 0 {
                    use std::io::Write;
                    let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    let _ = writeln!(f, "; expect {}\n(push 1)\n{}\n(check-sat)\n(pop 1)", r, t);
                }
            }
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut vals = vec![];
                for v in &vars {
                    let w = ar.var_w[*v as usize];
                    let s = self.sort(w);
                    let x = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, *v as i32), s);
                    let mut o: P = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, x, true, &mut o);
                    let mut u = 0u64;
                    Z3_get_numeral_uint64(self.c, o, &mut u);
                    vals.push((*v, u));
                }
                Z3_model_dec_ref(self.c, m);
                Some(Some(vals))
            } else if r == -1 {
                Some(None)
            } else {
                None
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        self.max_time = self.max_time.max(dt);
        match res {
            Some(Some(m)) => {
                self.sat += 1;
                let out = merge(&m);
                // the model must really satisfy the slice (checks the encoding)
                assert!(ar.eval_all_true(&key, &out), "z3 model does not satisfy the expressions: encoding bug");
                if self.recent.len() >= 12 {
                    self.recent.remove(0);
                }
                self.recent.push(out.clone());
                self.cache.insert(key, Some(m));
                R::Sat(out)
            }
            Some(None) => {
                self.unsat += 1;
                self.cache.insert(key, None);
                R::Unsat
            }
            None => {
                self.unknown += 1;
                R::Unknown
            }
        }
    }
}
