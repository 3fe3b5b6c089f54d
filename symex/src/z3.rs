//! Minimal Z3 C API binding: translation of DAG nodes and satisfiability queries.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P; fn Z3_mk_bvsub(c: P, a: P, b: P) -> P; fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvurem(c: P, a: P, b: P) -> P; fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P; fn Z3_mk_bvor(c: P, a: P, b: P) -> P; fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P; fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P; fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P; fn Z3_mk_bvslt(c: P, a: P, b: P) -> P; fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P; fn Z3_mk_ite(c: P, i: P, a: P, b: P) -> P; fn Z3_mk_not(c: P, a: P) -> P; fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P; fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P; fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P; fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P; fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P; fn Z3_mk_fpa_rtz(c: P) -> P; fn Z3_mk_fpa_rtn(c: P) -> P; fn Z3_mk_fpa_rtp(c: P) -> P; fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P; fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P; fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P; fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P; fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P; fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P; fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, n: c_uint) -> P; fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, n: c_uint) -> P; fn Z3_mk_fpa_round_to_integral(c: P, rm: P, t: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P; fn Z3_mk_tactic(c: P, n: *const c_char) -> P; fn Z3_tactic_inc_ref(c: P, t: P); fn Z3_tactic_dec_ref(c: P, t: P); fn Z3_mk_solver_from_tactic(c: P, t: P) -> P; fn Z3_mk_solver(c: P) -> P; fn Z3_solver_inc_ref(c: P, s: P); fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P); fn Z3_solver_pop(c: P, s: P, n: c_uint); fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int; fn Z3_solver_get_model(c: P, s: P) -> P; fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P; fn Z3_params_inc_ref(c: P, p: P); fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P); fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {}", m.to_string_lossy());
    std::process::abort();
}
pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

pub enum Res { Sat(Vec<(u32, u8)>), Unsat, Unknown }

/// the incremental core gets this long, then the same query goes to the default tactic from scratch
const QUICK_MS: u32 = 250;
pub struct Z3 {
    ctx: P, solver: P,
    cache: HashMap<u32, P, BuildFx>,
    vars: HashMap<u32, P, BuildFx>,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub time: f64, pub max: f64,
    timeout_ms: u32,
    pub dump_dir: Option<String>, pub dumped: u32, pub dump_every: u64,
}
impl Drop for Z3 { fn drop(&mut self) { unsafe { Z3_solver_dec_ref(self.ctx, self.solver); Z3_del_context(self.ctx); } } }
impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let mut z = Z3 { ctx: std::ptr::null_mut(), solver: std::ptr::null_mut(), cache: HashMap::default(), vars: HashMap::default(),
            queries: 0, sat: 0, unsat: 0, time: 0.0, max: 0.0, timeout_ms, dump_dir: None, dumped: 0, dump_every: 0 };
        z.fresh();
        z
    }
    fn fresh(&mut self) {
        unsafe {
            if !self.ctx.is_null() { Z3_solver_dec_ref(self.ctx, self.solver); Z3_del_context(self.ctx); }
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
            self.solver = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx); Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), QUICK_MS.min(self.timeout_ms));
            Z3_solver_set_params(self.ctx, self.solver, p);
        }
        self.cache.clear(); self.vars.clear();
    }
    fn num(&mut self, w: u32, v: u128) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w);
            if w <= 64 { Z3_mk_unsigned_int64(self.ctx, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.ctx, t.as_ptr(), s) }
        }
    }
    fn fsort(&self, w: u32) -> P { unsafe { if w == 32 { Z3_mk_fpa_sort_32(self.ctx) } else { Z3_mk_fpa_sort_64(self.ctx) } } }
    /// booleans (w==1) translate to Bool, others to bit-vectors
    pub fn tr(&mut self, d: &Dag, root: u32) -> P {
        let mut st = vec![root];
        while let Some(&x) = st.last() {
            if self.cache.contains_key(&x) { st.pop(); continue; }
            let n = d.n(x);
            let (ch, k) = Dag::children(&n);
            let mut ready = true;
            for c in &ch[..k] { if !self.cache.contains_key(c) { st.push(*c); ready = false; } }
            if !ready { continue; }
            let g = |i: usize| self.cache[&ch[i]];
            let c = self.ctx;
            let w = n.w as u32;
            let wa = if k > 0 { d.w(ch[0]) } else { 0 };
            let bv = |p: P, w1: u32| -> P { unsafe { if w1 == 1 { let s = Z3_mk_bv_sort(c, 1); Z3_mk_ite(c, p, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s)) } else { p } } };
            let unbv = |p: P, w1: u32| -> P { unsafe { if w1 == 1 { let s = Z3_mk_bv_sort(c, 1); Z3_mk_eq(c, p, Z3_mk_unsigned_int64(c, 1, s)) } else { p } } };
            let fp = |p: P, w1: u32, z: &Z3| -> P { unsafe { Z3_mk_fpa_to_fp_bv(c, p, z.fsort(w1)) } };
            let r = unsafe { match n.op {
                Op::Const => { let v = d.kval(x).unwrap(); if w == 1 { if v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(w, v) } }
                Op::Var => { let nm = CString::new(format!("b{}", n.a)).unwrap(); let v = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, 8)); v }
                Op::And if w == 1 => { let a = [g(0), g(1)]; Z3_mk_and(c, 2, a.as_ptr()) }
                Op::Or if w == 1 => { let a = [g(0), g(1)]; Z3_mk_or(c, 2, a.as_ptr()) }
                Op::Xor if w == 1 => if d.is_k(n.b, 1) { Z3_mk_not(c, g(0)) } else { Z3_mk_xor(c, g(0), g(1)) },
                Op::Eq => Z3_mk_eq(c, g(0), g(1)),
                Op::Ult => Z3_mk_bvult(c, bv(g(0), wa), bv(g(1), wa)), Op::Slt => Z3_mk_bvslt(c, bv(g(0), wa), bv(g(1), wa)),
                Op::Ite => Z3_mk_ite(c, g(0), g(1), g(2)),
                Op::ZExt => Z3_mk_zero_ext(c, w - wa, bv(g(0), wa)),
                Op::SExt => Z3_mk_sign_ext(c, w - wa, bv(g(0), wa)),
                Op::Extract => unbv(Z3_mk_extract(c, n.b + w - 1, n.b, g(0)), w),
                Op::Concat => Z3_mk_concat(c, bv(g(0), wa), bv(g(1), d.w(ch[1]))),
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => { let (a, b) = (fp(g(0), wa, self), fp(g(1), wa, self)); let rm = Z3_mk_fpa_rne(c);
                    let t = match n.op { Op::FAdd => Z3_mk_fpa_add(c, rm, a, b), Op::FSub => Z3_mk_fpa_sub(c, rm, a, b), Op::FMul => Z3_mk_fpa_mul(c, rm, a, b), _ => Z3_mk_fpa_div(c, rm, a, b) };
                    Z3_mk_fpa_to_ieee_bv(c, t) }
                Op::FLt => Z3_mk_fpa_lt(c, fp(g(0), wa, self), fp(g(1), wa, self)), Op::FLe => Z3_mk_fpa_leq(c, fp(g(0), wa, self), fp(g(1), wa, self)),
                Op::FEq => Z3_mk_fpa_eq(c, fp(g(0), wa, self), fp(g(1), wa, self)),
                Op::FUno => { let a = [Z3_mk_fpa_is_nan(c, fp(g(0), wa, self)), Z3_mk_fpa_is_nan(c, fp(g(1), wa, self))]; Z3_mk_or(c, 2, a.as_ptr()) }
                Op::UiToFp => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), bv(g(0), wa), self.fsort(w))),
                Op::SiToFp => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), bv(g(0), wa), self.fsort(w))),
                Op::FpToUi | Op::FpToSi => {
                    // saturating
                    let f = fp(g(0), wa, self);
                    let (lo, hi, sgn) = if n.op == Op::FpToUi { (0u128, mask128(w), false) } else { (1u128 << (w - 1), mask128(w - 1), true) };
                    let lof = if sgn { -((1u128 << (w - 1)) as f64) } else { 0.0 };
                    let hif = if sgn { (1u128 << (w - 1)) as f64 } else { 2f64.powi(w as i32) };
                    let fk = |v: f64, z: &mut Z3| { let b = if wa == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }; let t = z.num(wa, b); Z3_mk_fpa_to_fp_bv(c, t, z.fsort(wa)) };
                    let (lk, hk) = (fk(lof, self), fk(hif, self));
                    let conv = if sgn { Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), f, w) } else { Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), f, w) };
                    let (lon, hin, zero) = (self.num(w, lo), self.num(w, hi), self.num(w, 0));
                    let t = Z3_mk_ite(c, Z3_mk_fpa_leq(c, hk, f), hin, conv);
                    let t = Z3_mk_ite(c, Z3_mk_fpa_leq(c, f, lk), lon, t);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), zero, t)
                }
                Op::FpExt | Op::FpTrunc => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), fp(g(0), wa, self), self.fsort(w))),
                Op::FRound => { let rm = match n.b { 0 => Z3_mk_fpa_rtn(c), 1 => Z3_mk_fpa_rtp(c), 2 => Z3_mk_fpa_rtz(c), 3 => Z3_mk_fpa_rna(c), _ => Z3_mk_fpa_rne(c) };
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, fp(g(0), wa, self))) }
                _ => { let (a, b) = (bv(g(0), wa), bv(g(1), wa)); let r = match n.op {
                    Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b), _ => unreachable!("{:?}", n.op) }; unbv(r, w) }
            } };
            if n.op == Op::Var { self.vars.insert(n.a, r); }
            self.cache.insert(x, r);
            st.pop();
        }
        self.cache[&root]
    }
    /// set membership of an input byte as a disjunction of ranges
    fn dom(&mut self, d: &mut Dag, var: u32, set: &[u64; 4]) -> Option<P> {
        if set.iter().all(|x| *x == !0) { return None; }
        let vn = d.var(var);
        let v = self.tr(d, vn);
        let mut parts = vec![];
        let has = |i: u32| i < 256 && set[(i >> 6) as usize] >> (i & 63) & 1 == 1;
        let mut i = 0u32;
        while i < 256 {
            if !has(i) { i += 1; continue; }
            let s = i; while has(i) { i += 1; }
            let e = i - 1;
            unsafe {
                let (ls, le) = (self.num(8, s as u128), self.num(8, e as u128));
                parts.push(if s == e { Z3_mk_eq(self.ctx, v, ls) } else { let a = [Z3_mk_bvule(self.ctx, ls, v), Z3_mk_bvule(self.ctx, v, le)]; Z3_mk_and(self.ctx, 2, a.as_ptr()) });
            }
        }
        unsafe { Some(if parts.is_empty() { Z3_mk_false(self.ctx) } else { Z3_mk_or(self.ctx, parts.len() as u32, parts.as_ptr()) }) }
    }
    pub fn check(&mut self, d: &mut Dag, doms: &[(u32, [u64; 4])], cons: &[u32]) -> Res {
        // the non-refcounted context keeps every term alive: start afresh now and then
        if self.cache.len() > 300_000 || self.queries % 20000 == 19999 { self.fresh(); }
        let t0 = std::time::Instant::now();
        let c = self.ctx;
        unsafe {
            Z3_solver_push(c, self.solver);
            for (v, s) in doms { if let Some(p) = self.dom(d, *v, s) { Z3_solver_assert(c, self.solver, p); } }
            for k in cons { let p = self.tr(d, *k); Z3_solver_assert(c, self.solver, p); }
            let mut r = Z3_solver_check(c, self.solver);
            let mut second: P = std::ptr::null_mut();
            if r == 0 {
                let n = CString::new("default").unwrap();
                let t = Z3_mk_tactic(c, n.as_ptr()); Z3_tactic_inc_ref(c, t);
                second = Z3_mk_solver_from_tactic(c, t); Z3_solver_inc_ref(c, second); Z3_tactic_dec_ref(c, t);
                let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.timeout_ms);
                Z3_solver_set_params(c, second, p);
                for (v, s) in doms { if let Some(p) = self.dom(d, *v, s) { Z3_solver_assert(c, second, p); } }
                for k in cons { let p = self.tr(d, *k); Z3_solver_assert(c, second, p); }
                r = Z3_solver_check(c, second);
            }
            self.queries += 1;
            if let Some(dir) = &self.dump_dir { if (self.dump_every > 1 && self.queries % self.dump_every == 1 || self.dump_every == 1 && t0.elapsed().as_secs_f64() > 0.5) && self.dumped < 50 {
                let s = CStr::from_ptr(Z3_solver_to_string(c, self.solver)).to_string_lossy().into_owned();
                let exp = match r { 1 => "sat", -1 => "unsat", _ => "unknown" };
                let _ = std::fs::write(format!("{}/q{}_{}_{}.smt2", dir, std::process::id(), self.dumped, exp), format!("(set-logic ALL)\n{}\n(check-sat)\n", s));
                self.dumped += 1;
            } }
            let res = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(c, if second.is_null() { self.solver } else { second });
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    let mut sup = 0u128;
                    for k in cons { sup |= d.support[*k as usize]; }
                    for (v, _) in doms { sup |= 1 << *v; }
                    for i in 0..128u32 { if sup >> i & 1 == 1 {
                        let vn = d.var(i); let t = self.tr(d, vn);
                        let mut v: P = std::ptr::null_mut(); let mut u = 0u64;
                        Z3_model_eval(c, m, t, true, &mut v);
                        Z3_get_numeral_uint64(c, v, &mut u);
                        out.push((i, u as u8));
                    } }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => Res::Unknown,
            };
            if !second.is_null() { Z3_solver_dec_ref(c, second); }
            Z3_solver_pop(c, self.solver, 1);
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt; if dt > self.max { self.max = dt; }
            let _ = Z3_mk_solver as usize;
            res
        }
    }
}
