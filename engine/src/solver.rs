//! z3 back end: query slicing, caching, translation of the expression DAG.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::c_void;
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, i32));
    fn Z3_get_error_msg(c: P, e: i32) -> *const i8;
    fn Z3_get_full_version() -> *const i8;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: u32) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const i8) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const i8, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: u32, l: u32, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: u32, a: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: u32, s: u32) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, w: u32) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, w: u32) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: u32);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: u32);
    fn Z3_dec_ref(c: P, a: P);
}
extern "C" fn on_err(c: P, e: i32) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    panic!("z3 error: {:?}", m);
}

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub hard: u64, pub cache_hits: u64, pub tables: u64, pub model_hits: u64, pub time_ns: u64, pub max_ns: u64 }

pub struct Solver {
    ctx: P,
    sol: P,
    fpsol: P,
    hard: P,
    tr: Vec<(P, bool)>, // translated node: ast, is_bool
    cache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u64)>>>>,
    recent: Vec<Rc<Model>>,
    next_model: u64,
    pub stats: Stats,
    pub timeout_ms: u32,
    fp_nodes: FxMap<E, bool>,
    pub slow: u64,
}

pub enum Res { Sat(Rc<Model>), Unsat, Unknown }

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, on_err);
            let sol = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, sol);
            let l = Z3_mk_string_symbol(ctx, b"QF_BVFP\0".as_ptr() as *const i8);
            let fpsol = Z3_mk_solver_for_logic(ctx, l);
            Z3_solver_inc_ref(ctx, fpsol);
            let l = Z3_mk_string_symbol(ctx, b"QF_BV\0".as_ptr() as *const i8);
            let hard = Z3_mk_solver_for_logic(ctx, l);
            Z3_solver_inc_ref(ctx, hard);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = Z3_mk_string_symbol(ctx, b"timeout\0".as_ptr() as *const i8);
            Z3_params_set_uint(ctx, p, k, timeout_ms);
            Z3_solver_set_params(ctx, hard, p);
            Z3_solver_set_params(ctx, fpsol, p);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, k, timeout_ms.min(800));
            Z3_solver_set_params(ctx, sol, p);
            Solver { ctx, sol, fpsol, hard, tr: vec![], cache: HashMap::new(), recent: vec![], next_model: 1, stats: Stats::default(), timeout_ms, fp_nodes: Default::default(), slow: std::env::var("LLSYM_SLOW").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(0) * 1_000_000 }
        }
    }
    pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    fn sort(&self, w: u32) -> P { unsafe { Z3_mk_bv_sort(self.ctx, w) } }
    pub fn fresh_model_id(&mut self) -> u64 { self.next_model += 1; self.next_model }

    fn as_bv(&self, p: (P, bool)) -> P {
        if !p.1 { return p.0; }
        unsafe { let s = self.sort(1); let one = Z3_mk_unsigned_int64(self.ctx, 1, s); let zero = Z3_mk_unsigned_int64(self.ctx, 0, s); Z3_mk_ite(self.ctx, p.0, one, zero) }
    }
    fn as_bool(&self, p: (P, bool)) -> P {
        if p.1 { return p.0; }
        unsafe { let s = self.sort(1); let one = Z3_mk_unsigned_int64(self.ctx, 1, s); Z3_mk_eq(self.ctx, p.0, one) }
    }
    fn fps(&self, w: u32) -> P { unsafe { if w == 32 { Z3_mk_fpa_sort(self.ctx, 8, 24) } else { Z3_mk_fpa_sort(self.ctx, 11, 53) } } }
    fn tofp(&self, b: P, w: u32) -> P { unsafe { Z3_mk_fpa_to_fp_bv(self.ctx, b, self.fps(w)) } }
    fn bvconst(&self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 { Z3_mk_unsigned_int64(self.ctx, v as u64, self.sort(w)) }
            else { let s = format!("{}\0", v); Z3_mk_numeral(self.ctx, s.as_ptr() as *const i8, self.sort(w)) }
        }
    }

    fn translate(&mut self, ar: &Arena, root: E) -> (P, bool) {
        if self.tr.len() < ar.nodes.len() { self.tr.resize(ar.nodes.len(), (std::ptr::null_mut(), false)); }
        let mut stack = vec![root];
        while let Some(&e) = stack.last() {
            if !self.tr[e as usize].0.is_null() { stack.pop(); continue; }
            let n = ar.n(e);
            // children
            let kids: &[u32] = match n.op {
                Op::Const | Op::Var | Op::None => &[],
                Op::Extract | Op::SExt | Op::Not | Op::FSqrt | Op::FRoundNE | Op::FRoundZ | Op::FRoundUp | Op::FRoundDn | Op::FRoundNA | Op::UiToF | Op::SiToF | Op::FToUi | Op::FToSi | Op::FCvt => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for &k in kids { if self.tr[k as usize].0.is_null() { stack.push(k); ready = false; } }
            if !ready { continue; }
            stack.pop();
            let r = self.tr1(ar, e, n);
            unsafe { Z3_inc_ref(self.ctx, r.0); }
            self.tr[e as usize] = r;
        }
        self.tr[root as usize]
    }
    fn tr1(&mut self, ar: &Arena, e: E, n: Node) -> (P, bool) {
        let c = self.ctx;
        let w = n.w as u32;
        let a = self.tr.get(n.a as usize).copied().unwrap_or((std::ptr::null_mut(), false));
        let b = self.tr.get(n.b as usize).copied().unwrap_or((std::ptr::null_mut(), false));
        let d = self.tr.get(n.c as usize).copied().unwrap_or((std::ptr::null_mut(), false));
        unsafe {
            let bool_operands = |s: &Self, x: (P, bool), y: (P, bool)| (s.as_bool(x), s.as_bool(y));
            macro_rules! bv2 { ($f:ident) => { ($f(c, self.as_bv(a), self.as_bv(b)), false) } }
            macro_rules! bvp { ($f:ident) => { ($f(c, self.as_bv(a), self.as_bv(b)), true) } }
            match n.op {
                Op::Const => { if w == 1 { let v = ar.cval(e).unwrap(); let s = self.sort(1); (Z3_mk_eq(c, Z3_mk_unsigned_int64(c, v as u64, s), Z3_mk_unsigned_int64(c, 1, s)), true) } else { (self.bvconst(ar.cval(e).unwrap(), w), false) } }
                Op::Var => { let nm = format!("v{}\0", n.a); let s = Z3_mk_string_symbol(c, nm.as_ptr() as *const i8); (Z3_mk_const(c, s, self.sort(w)), false) }
                Op::Add => bv2!(Z3_mk_bvadd), Op::Sub => bv2!(Z3_mk_bvsub), Op::Mul => bv2!(Z3_mk_bvmul),
                Op::UDiv => bv2!(Z3_mk_bvudiv), Op::SDiv => bv2!(Z3_mk_bvsdiv), Op::URem => bv2!(Z3_mk_bvurem), Op::SRem => bv2!(Z3_mk_bvsrem),
                Op::And => if w == 1 { let (x, y) = bool_operands(self, a, b); (Z3_mk_and(c, 2, [x, y].as_ptr()), true) } else { bv2!(Z3_mk_bvand) },
                Op::Or => if w == 1 { let (x, y) = bool_operands(self, a, b); (Z3_mk_or(c, 2, [x, y].as_ptr()), true) } else { bv2!(Z3_mk_bvor) },
                Op::Xor => if w == 1 { let (x, y) = bool_operands(self, a, b); (Z3_mk_xor(c, x, y), true) } else { bv2!(Z3_mk_bvxor) },
                Op::Shl => bv2!(Z3_mk_bvshl), Op::LShr => bv2!(Z3_mk_bvlshr), Op::AShr => bv2!(Z3_mk_bvashr),
                Op::Not => if w == 1 { (Z3_mk_not(c, self.as_bool(a)), true) } else { (Z3_mk_bvnot(c, a.0), false) },
                Op::Eq => if ar.w(n.a) == 1 { let (x, y) = bool_operands(self, a, b); (Z3_mk_eq(c, x, y), true) } else { bvp!(Z3_mk_eq) },
                Op::Ult => bvp!(Z3_mk_bvult), Op::Ule => bvp!(Z3_mk_bvule), Op::Slt => bvp!(Z3_mk_bvslt), Op::Sle => bvp!(Z3_mk_bvsle),
                Op::Ite => { let cc = self.as_bool(a); if w == 1 { let (x, y) = bool_operands(self, b, d); (Z3_mk_ite(c, cc, x, y), true) } else { (Z3_mk_ite(c, cc, b.0, d.0), false) } }
                Op::Concat => bv2!(Z3_mk_concat),
                Op::Extract => (Z3_mk_extract(c, n.b + w - 1, n.b, self.as_bv(a)), false),
                Op::SExt => (Z3_mk_sign_ext(c, w - ar.w(n.a), self.as_bv(a)), false),
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let x = self.tofp(a.0, w); let y = self.tofp(b.0, w); let rm = Z3_mk_fpa_rne(c);
                    let r = match n.op { Op::FAdd => Z3_mk_fpa_add(c, rm, x, y), Op::FSub => Z3_mk_fpa_sub(c, rm, x, y), Op::FMul => Z3_mk_fpa_mul(c, rm, x, y), _ => Z3_mk_fpa_div(c, rm, x, y) };
                    (Z3_mk_fpa_to_ieee_bv(c, r), false)
                }
                Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
                    let iw = ar.w(n.a); let x = self.tofp(a.0, iw); let y = self.tofp(b.0, iw);
                    (match n.op { Op::FEq => Z3_mk_fpa_eq(c, x, y), Op::FLt => Z3_mk_fpa_lt(c, x, y), Op::FLe => Z3_mk_fpa_leq(c, x, y),
                        _ => { let p = Z3_mk_fpa_is_nan(c, x); let q = Z3_mk_fpa_is_nan(c, y); Z3_mk_or(c, 2, [p, q].as_ptr()) } }, true)
                }
                Op::FSqrt | Op::FRoundNE | Op::FRoundZ | Op::FRoundUp | Op::FRoundDn | Op::FRoundNA => {
                    let x = self.tofp(a.0, w);
                    let r = match n.op { Op::FSqrt => Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), x), Op::FRoundNE => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rne(c), x),
                        Op::FRoundZ => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), x), Op::FRoundUp => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), x),
                        Op::FRoundDn => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), x), _ => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), x) };
                    (Z3_mk_fpa_to_ieee_bv(c, r), false)
                }
                Op::UiToF => (Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), self.as_bv(a), self.fps(w))), false),
                Op::SiToF => (Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), self.as_bv(a), self.fps(w))), false),
                Op::FCvt => (Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), self.tofp(a.0, ar.w(n.a)), self.fps(w))), false),
                Op::FToUi | Op::FToSi => {
                    let iw = ar.w(n.a); let x = self.tofp(a.0, iw);
                    let (lo, hi): (f64, f64) = if n.op == Op::FToUi { (0.0, (2f64).powi(w as i32)) } else { (-(2f64).powi(w as i32 - 1), (2f64).powi(w as i32 - 1)) };
                    let lof = self.tofp(self.bvconst(fromf(iw, lo), iw), iw);
                    let hif = self.tofp(self.bvconst(fromf(iw, hi), iw), iw);
                    let (mn, mx) = if n.op == Op::FToUi { (0u128, mask(w)) } else { (1u128 << (w - 1), mask(w) >> 1) };
                    let conv = if n.op == Op::FToUi { Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, w) } else { Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, w) };
                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, hif, x), self.bvconst(mx, w), conv);
                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, x, lof), self.bvconst(mn, w), r);
                    let r = Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), self.bvconst(0, w), r);
                    (r, false)
                }
                Op::FRem | Op::None => panic!("cannot translate {:?}", n.op),
            }
        }
    }
    fn has_fp(&mut self, ar: &Arena, e: E) -> bool {
        if let Some(&b) = self.fp_nodes.get(&e) { return b; }
        let n = ar.n(e);
        let r = match n.op {
            Op::Const | Op::Var | Op::None => false,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FEq | Op::FLt | Op::FLe | Op::FUno | Op::FSqrt | Op::FRoundNE | Op::FRoundZ | Op::FRoundUp | Op::FRoundDn | Op::FRoundNA | Op::UiToF | Op::SiToF | Op::FToUi | Op::FToSi | Op::FCvt => true,
            Op::Extract | Op::SExt | Op::Not => self.has_fp(ar, n.a),
            Op::Ite => self.has_fp(ar, n.a) || self.has_fp(ar, n.b) || self.has_fp(ar, n.c),
            _ => self.has_fp(ar, n.a) || self.has_fp(ar, n.b),
        };
        self.fp_nodes.insert(e, r);
        r
    }

    /// Constraints of `pc` that share variables (transitively) with `cond`.
    fn slice(&mut self, ar: &mut Arena, pc: &[E], cond: E) -> Vec<E> {
        let mut cur = ar.varset(cond);
        let sets: Vec<u32> = pc.iter().map(|&e| ar.varset(e)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for i in 0..pc.len() {
                if !used[i] && ar.vset_intersects(sets[i], cur) {
                    used[i] = true;
                    let n = ar.vset_union(cur, sets[i]);
                    if n != cur { cur = n; changed = true; }
                }
            }
            if !changed { break; }
        }
        let mut r: Vec<E> = (0..pc.len()).filter(|&i| used[i]).map(|i| pc[i]).collect();
        r.push(cond);
        r.sort_unstable();
        r.dedup();
        r
    }
    /// Is pc /\ cond satisfiable?  `base` is a model of pc; the answer model extends it.
    pub fn check(&mut self, ar: &mut Arena, pc: &[E], cond: E, base: &Rc<Model>) -> Res {
        if let Some(v) = ar.cval(cond) { return if v == 1 { Res::Sat(base.clone()) } else { Res::Unsat }; }
        if ar.eval(cond, base) == 1 { return Res::Sat(base.clone()); }
        let nc = ar.not(cond);
        if pc.contains(&nc) { return Res::Unsat; }
        let key = self.slice(ar, pc, cond);
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return match r { None => Res::Unsat, Some(vals) => { let vals = vals.clone(); Res::Sat(self.extend(base, &vals)) } };
        }
        // recent models
        for i in (0..self.recent.len()).rev() {
            let m = self.recent[i].clone();
            if key.iter().all(|&e| ar.eval(e, &m) == 1) {
                self.stats.model_hits += 1;
                let vs = key.iter().fold(0, |s, &e| { let v = ar.varset(e); ar.vset_union(s, v) });
                let vals: Vec<(u32, u64)> = ar.vset_vars(vs).into_iter().map(|v| (v, m.get(v))).collect();
                let vals = Rc::new(vals);
                self.cache.insert(key, Some(vals.clone()));
                return Res::Sat(self.extend(base, &vals));
            }
        }
        let t0 = Instant::now();
        let fp = key.iter().any(|&e| self.has_fp(ar, e));
        let mut sol = if fp { self.fpsol } else { self.sol };
        let mut r;
        unsafe {
            Z3_solver_push(self.ctx, sol);
            for &e in &key { let t = self.translate(ar, e); let b = self.as_bool(t); Z3_solver_assert(self.ctx, sol, b); }
            r = Z3_solver_check(self.ctx, sol);
            if r == 0 && !fp {
                Z3_solver_pop(self.ctx, sol, 1);
                sol = self.hard;
                Z3_solver_push(self.ctx, sol);
                for &e in &key { let t = self.translate(ar, e); let b = self.as_bool(t); Z3_solver_assert(self.ctx, sol, b); }
                self.stats.hard += 1;
                r = Z3_solver_check(self.ctx, sol);
            }
        }
        self.stats.queries += 1;
        let out = match r {
            -1 => { self.stats.unsat += 1; self.cache.insert(key, None); Res::Unsat }
            1 => {
                self.stats.sat += 1;
                let vs = key.iter().fold(0, |s, &e| { let v = ar.varset(e); ar.vset_union(s, v) });
                let mut vals = vec![];
                unsafe {
                    let m = Z3_solver_get_model(self.ctx, sol);
                    Z3_model_inc_ref(self.ctx, m);
                    for v in ar.vset_vars(vs) {
                        let (nm, w) = (ar.vars[v as usize].0.clone(), ar.vars[v as usize].1);
                        let ve = ar.var(&nm, w as u32);
                        let t = self.translate(ar, ve);
                        let mut out: P = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, t.0, true, &mut out) {
                            Z3_inc_ref(self.ctx, out);
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(self.ctx, out, &mut u);
                            Z3_dec_ref(self.ctx, out);
                            vals.push((v, u));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                }
                let vals = Rc::new(vals);
                let m = self.extend(base, &vals);
                // trust but verify: the model must satisfy the slice under our own evaluator
                for &e in &key { if ar.eval(e, &m) != 1 { panic!("z3 model does not satisfy constraint {}", ar.show(e, 6)); } }
                self.cache.insert(key, Some(vals));
                self.recent.push(m.clone());
                if self.recent.len() > 24 { self.recent.remove(0); }
                Res::Sat(m)
            }
            _ => { self.stats.unknown += 1; Res::Unknown }
        };
        unsafe { Z3_solver_pop(self.ctx, sol, 1); }
        let dt = t0.elapsed().as_nanos() as u64;
        self.stats.time_ns += dt;
        self.stats.max_ns = self.stats.max_ns.max(dt);
        if self.slow > 0 && dt > self.slow { eprintln!("slow {:.2}s {} {}", dt as f64 / 1e9, r, ar.show(cond, 7)); }
        out
    }
    fn extend(&mut self, base: &Rc<Model>, vals: &[(u32, u64)]) -> Rc<Model> {
        let mut v = base.vals.clone();
        for &(i, x) in vals { if v.len() <= i as usize { v.resize(i as usize + 1, 0); } v[i as usize] = x; }
        Rc::new(Model { id: self.fresh_model_id(), vals: v })
    }
    /// Validate a raw expression equivalence (used by the self test): a == b for all values?
    /// 1: differ somewhere, -1: the same, 0: not decided in time
    pub fn differ(&mut self, ar: &mut Arena, a: E, b: E) -> i32 {
        let sol = if self.has_fp(ar, a) || self.has_fp(ar, b) { self.fpsol } else { self.sol };
        unsafe {
            Z3_solver_push(self.ctx, sol);
            let x = self.translate(ar, a); let y = self.translate(ar, b);
            let (x, y) = (self.as_bv(x), self.as_bv(y));
            Z3_solver_assert(self.ctx, sol, Z3_mk_not(self.ctx, Z3_mk_eq(self.ctx, x, y)));
            let r = Z3_solver_check(self.ctx, sol);
            Z3_solver_pop(self.ctx, sol, 1);
            r
        }
    }
    pub fn equiv(&mut self, ar: &mut Arena, a: E, b: E) -> bool { self.differ(ar, a, b) == -1 }
}
