//! Minimal binding to libz3 and the translation of expressions to it.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_min(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_max(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    unsafe { eprintln!("z3 error: {}", std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy()); }
    std::process::exit(97);
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat { Sat, Unsat, Unknown }
#[derive(Clone, Copy)]
enum Z { B(P), V(P) }
pub struct Solver {
    c: P, s: P, sfp: P,
    memo: HashMap<u32, Z>,
    fp: HashMap<u32, bool>,
    cache: HashMap<Vec<u32>, Sat>,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub cached: u64, pub max_time: f64,
}
pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
impl Solver {
    pub fn new(timeout_ms: u32, seed: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let ql = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, ql.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let ql = CString::new("QF_FPBV").unwrap();
            let sfp = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, ql.as_ptr()));
            Z3_solver_inc_ref(c, sfp);
            let _ = Z3_mk_simple_solver as *const ();
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3_solver_set_params(c, sfp, p);
            let _ = seed;
            Solver { c, s, sfp, memo: HashMap::new(), fp: HashMap::new(), cache: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, cached: 0, max_time: 0.0 }
        }
    }
    fn uses_fp(&mut self, e: &Ex) -> bool {
        use Op::*;
        if let Some(b) = self.fp.get(&e.id) { return *b; }
        let b = e.single8().is_none() && (matches!(e.op, FAdd | FSub | FMul | FDiv | FEq | FLt | FLe | FUno | SIToFP | UIToFP | FPToSI | FPToUI | FPToSISat | FPToUISat | FPExt | FPTrunc | FFloor | FCeil | FTrunc | FRoundAway | FRoundEven | FSqrt | FMin | FMax) || e.a.iter().any(|x| self.uses_fp(x)));
        self.fp.insert(e.id, b);
        b
    }
    unsafe fn num(&self, w: u32, v: u128) -> P {
        let s = Z3_mk_bv_sort(self.c, w);
        if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) }
    }
    unsafe fn bv(&mut self, e: &Ex) -> P {
        match self.tr(e) { Z::V(p) => p, Z::B(b) => { let (o, z) = (self.num(1, 1), self.num(1, 0)); Z3_mk_ite(self.c, b, o, z) } }
    }
    unsafe fn bo(&mut self, e: &Ex) -> P {
        match self.tr(e) { Z::B(p) => p, Z::V(v) => { let o = self.num(1, 1); Z3_mk_eq(self.c, v, o) } }
    }
    unsafe fn fsort(&self, w: u32) -> P { if w == 32 { Z3_mk_fpa_sort_single(self.c) } else { Z3_mk_fpa_sort_double(self.c) } }
    unsafe fn f(&mut self, e: &Ex) -> P { let b = self.bv(e); let s = self.fsort(e.w); Z3_mk_fpa_to_fp_bv(self.c, b, s) }
    unsafe fn tr(&mut self, e: &Ex) -> Z {
        if let Some(z) = self.memo.get(&e.id) { return *z; }
        use Op::*;
        let c = self.c;
        // a float operation over one byte is a finite function: encoded as its table
        if matches!(e.op, FAdd | FSub | FMul | FDiv | FEq | FLt | FLe | FUno | SIToFP | UIToFP | FPToSI | FPToUI | FPToSISat | FPToUISat | FPExt | FPTrunc | FFloor | FCeil | FTrunc | FRoundAway | FRoundEven | FSqrt | FMin | FMax) {
            if let (Some(v), Some(t)) = (e.single8(), if e.single8().is_some() { table_of(e) } else { None }) {
                let vw = var_width(v);
                let n = CString::new(format!("v{}", v)).unwrap();
                let x = Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, vw));
                let p = self.mux(x, vw, &t[..(1usize << vw)], e.w);
                let r = if e.w == 1 { let o = self.num(1, 1); Z::B(Z3_mk_eq(c, p, o)) } else { Z::V(p) };
                self.memo.insert(e.id, r);
                return r;
            }
        }
        let r = match e.op {
            Const => if e.w == 1 { let (o, z) = (self.num(1, 1), self.num(1, e.k)); Z::B(Z3_mk_eq(c, o, z)) } else { Z::V(self.num(e.w, e.k)) },
            Var => { let n = CString::new(format!("v{}", e.k)).unwrap(); Z::V(Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, e.w))) }
            And if e.w == 1 => { let v = [self.bo(&e.a[0]), self.bo(&e.a[1])]; Z::B(Z3_mk_and(c, 2, v.as_ptr())) }
            Or if e.w == 1 => { let v = [self.bo(&e.a[0]), self.bo(&e.a[1])]; Z::B(Z3_mk_or(c, 2, v.as_ptr())) }
            Xor if e.w == 1 => { let (x, y) = (self.bo(&e.a[0]), self.bo(&e.a[1])); Z::B(Z3_mk_not(c, Z3_mk_eq(c, x, y))) }
            Eq if e.a[0].w == 1 => { let (x, y) = (self.bo(&e.a[0]), self.bo(&e.a[1])); Z::B(Z3_mk_eq(c, x, y)) }
            Add | Sub | Mul | UDiv | SDiv | URem | SRem | And | Or | Xor | Shl | LShr | AShr | Eq | Ult | Ule | Slt | Sle => {
                let (x, y) = (self.bv(&e.a[0]), self.bv(&e.a[1]));
                match e.op {
                    Add => Z::V(Z3_mk_bvadd(c, x, y)), Sub => Z::V(Z3_mk_bvsub(c, x, y)), Mul => Z::V(Z3_mk_bvmul(c, x, y)),
                    UDiv => Z::V(Z3_mk_bvudiv(c, x, y)), SDiv => Z::V(Z3_mk_bvsdiv(c, x, y)), URem => Z::V(Z3_mk_bvurem(c, x, y)), SRem => Z::V(Z3_mk_bvsrem(c, x, y)),
                    And => Z::V(Z3_mk_bvand(c, x, y)), Or => Z::V(Z3_mk_bvor(c, x, y)), Xor => Z::V(Z3_mk_bvxor(c, x, y)),
                    Shl => Z::V(Z3_mk_bvshl(c, x, y)), LShr => Z::V(Z3_mk_bvlshr(c, x, y)), AShr => Z::V(Z3_mk_bvashr(c, x, y)),
                    Eq => Z::B(Z3_mk_eq(c, x, y)), Ult => Z::B(Z3_mk_bvult(c, x, y)), Ule => Z::B(Z3_mk_bvule(c, x, y)),
                    Slt => Z::B(Z3_mk_bvslt(c, x, y)), _ => Z::B(Z3_mk_bvsle(c, x, y)),
                }
            }
            Concat => { let (x, y) = (self.bv(&e.a[0]), self.bv(&e.a[1])); Z::V(Z3_mk_concat(c, x, y)) }
            Extract => { let x = self.bv(&e.a[0]); Z::V(Z3_mk_extract(c, e.k as u32 + e.w - 1, e.k as u32, x)) }
            ZExt => { let x = self.bv(&e.a[0]); Z::V(Z3_mk_zero_ext(c, e.w - e.a[0].w, x)) }
            SExt => { let x = self.bv(&e.a[0]); Z::V(Z3_mk_sign_ext(c, e.w - e.a[0].w, x)) }
            Ite => { let b = self.bo(&e.a[0]); if e.w == 1 { let (x, y) = (self.bo(&e.a[1]), self.bo(&e.a[2])); Z::B(Z3_mk_ite(c, b, x, y)) } else { let (x, y) = (self.bv(&e.a[1]), self.bv(&e.a[2])); Z::V(Z3_mk_ite(c, b, x, y)) } }
            Table => {
                let x = self.bv(&e.a[0]);
                let vw = e.a[0].w;
                let t = e.tab.clone().unwrap();
                Z::V(self.mux(x, vw, &t[..(1usize << vw)], e.w))
            }
            FAdd | FSub | FMul | FDiv => {
                let (x, y) = (self.f(&e.a[0]), self.f(&e.a[1])); let r = Z3_mk_fpa_rne(c);
                let z = match e.op { FAdd => Z3_mk_fpa_add(c, r, x, y), FSub => Z3_mk_fpa_sub(c, r, x, y), FMul => Z3_mk_fpa_mul(c, r, x, y), _ => Z3_mk_fpa_div(c, r, x, y) };
                Z::V(Z3_mk_fpa_to_ieee_bv(c, z))
            }
            FEq => { let (x, y) = (self.f(&e.a[0]), self.f(&e.a[1])); Z::B(Z3_mk_fpa_eq(c, x, y)) }
            FLt => { let (x, y) = (self.f(&e.a[0]), self.f(&e.a[1])); Z::B(Z3_mk_fpa_lt(c, x, y)) }
            FLe => { let (x, y) = (self.f(&e.a[0]), self.f(&e.a[1])); Z::B(Z3_mk_fpa_leq(c, x, y)) }
            FUno => { let (x, y) = (self.f(&e.a[0]), self.f(&e.a[1])); let v = [Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)]; Z::B(Z3_mk_or(c, 2, v.as_ptr())) }
            FMin | FMax => { let (x, y) = (self.f(&e.a[0]), self.f(&e.a[1])); let z = if e.op == FMin { Z3_mk_fpa_min(c, x, y) } else { Z3_mk_fpa_max(c, x, y) }; Z::V(Z3_mk_fpa_to_ieee_bv(c, z)) }
            SIToFP | UIToFP => { let x = self.bv(&e.a[0]); let s = self.fsort(e.w); let r = Z3_mk_fpa_rne(c); let z = if e.op == SIToFP { Z3_mk_fpa_to_fp_signed(c, r, x, s) } else { Z3_mk_fpa_to_fp_unsigned(c, r, x, s) }; Z::V(Z3_mk_fpa_to_ieee_bv(c, z)) }
            FPExt | FPTrunc => { let x = self.f(&e.a[0]); let s = self.fsort(e.w); let z = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, s); Z::V(Z3_mk_fpa_to_ieee_bv(c, z)) }
            FFloor | FCeil | FTrunc | FRoundAway | FRoundEven => {
                let x = self.f(&e.a[0]);
                let r = match e.op { FFloor => Z3_mk_fpa_rtn(c), FCeil => Z3_mk_fpa_rtp(c), FTrunc => Z3_mk_fpa_rtz(c), FRoundAway => Z3_mk_fpa_rna(c), _ => Z3_mk_fpa_rne(c) };
                Z::V(Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, r, x)))
            }
            FSqrt => { let x = self.f(&e.a[0]); Z::V(Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), x))) }
            FPToUI | FPToUISat => {
                let x = self.f(&e.a[0]); let s = self.fsort(e.a[0].w);
                let conv = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, e.w);
                let hi = Z3_mk_fpa_numeral_double(c, 2f64.powi(e.w as i32), s);
                let zero = Z3_mk_fpa_numeral_double(c, 0.0, s);
                let (z, m) = (self.num(e.w, 0), self.num(e.w, mask(e.w)));
                let pos = Z3_mk_fpa_lt(c, zero, x);
                let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, hi, x), m, conv);
                Z::V(Z3_mk_ite(c, pos, r, z))
            }
            FPToSI | FPToSISat => {
                let x = self.f(&e.a[0]); let s = self.fsort(e.a[0].w);
                let conv = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, e.w);
                let hi = Z3_mk_fpa_numeral_double(c, 2f64.powi(e.w as i32 - 1), s);
                let lo = Z3_mk_fpa_numeral_double(c, -2f64.powi(e.w as i32 - 1), s);
                let z = self.num(e.w, 0);
                let imax = self.num(e.w, mask(e.w) >> 1); let imin = self.num(e.w, 1u128 << (e.w - 1));
                let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, hi, x), imax, conv);
                let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, x, lo), imin, r);
                Z::V(Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), z, r))
            }
        };
        let r = if e.w == 1 { if let Z::V(v) = r { let o = self.num(1, 1); Z::B(Z3_mk_eq(c, v, o)) } else { r } } else { r };
        self.memo.insert(e.id, r);
        r
    }
    /// Balanced multiplexer over the bits of `x` (identical subtrees share).
    unsafe fn mux(&mut self, x: P, bits: u32, vals: &[u64], w: u32) -> P {
        if vals.iter().all(|v| *v == vals[0]) { return self.num(w, vals[0] as u128); }
        let h = vals.len() / 2;
        let lo = self.mux(x, bits - 1, &vals[..h], w);
        let hi = self.mux(x, bits - 1, &vals[h..], w);
        let bit = Z3_mk_extract(self.c, bits - 1, bits - 1, x);
        let one = self.num(1, 1);
        let b = Z3_mk_eq(self.c, bit, one);
        Z3_mk_ite(self.c, b, hi, lo)
    }
    /// Satisfiability of a conjunction.
    pub fn check(&mut self, cs: &[Ex], want: Option<&mut Model>) -> Sat {
        let mut key: Vec<u32> = cs.iter().map(|e| e.id).collect();
        key.sort_unstable();
        key.dedup();
        if want.is_none() { if let Some(s) = self.cache.get(&key) { self.cached += 1; return *s; } }
        let t0 = std::time::Instant::now();
        let r = unsafe {
            let fp = cs.iter().any(|e| self.uses_fp(e));
            let s = if fp { self.sfp } else { self.s };
            Z3_solver_push(self.c, s);
            for e in cs { let b = self.bo(e); Z3_solver_assert(self.c, s, b); }
            let r = match Z3_solver_check(self.c, s) { 1 => Sat::Sat, -1 => Sat::Unsat, _ => Sat::Unknown };
            if r == Sat::Sat { if let Some(m) = want {
                let zm = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, zm);
                let mut vs = VarSet::default();
                for e in cs { vs = vs.union(&e.vars); }
                for v in vs.iter() {
                    let n = CString::new(format!("v{}", v)).unwrap();
                    let k = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, var_width(v)));
                    let mut out: P = std::ptr::null_mut();
                    if Z3_model_eval(self.c, zm, k, true, &mut out) {
                        let mut u = 0u64;
                        let val = if Z3_get_numeral_uint64(self.c, out, &mut u) { u as u128 } else { std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_string_lossy().parse().unwrap_or(0) };
                        m.insert(v, val);
                    }
                }
                Z3_model_dec_ref(self.c, zm);
            } }
            Z3_solver_pop(self.c, s, 1);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        self.queries += 1;
        match r { Sat::Sat => self.sat += 1, Sat::Unsat => self.unsat += 1, Sat::Unknown => self.unknown += 1 }
        self.cache.insert(key, r);
        r
    }
}
