//! Minimal binding to libz3: decides satisfiability of conjunctions of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_uint)>);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: P, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, h: c_uint, l: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, s: P) -> P;
    fn Z3_mk_solver(c: Ctx) -> P;
    fn Z3_solver_to_string(c: Ctx, s: P) -> *const c_char;
    fn Z3_solver_inc_ref(c: Ctx, s: P);
    fn Z3_solver_dec_ref(c: Ctx, s: P);
    fn Z3_solver_assert(c: Ctx, s: P, a: Ast);
    fn Z3_solver_check(c: Ctx, s: P) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: P) -> P;
    fn Z3_solver_set_params(c: Ctx, s: P, p: P);
    fn Z3_model_inc_ref(c: Ctx, m: P);
    fn Z3_model_dec_ref(c: Ctx, m: P);
    fn Z3_model_eval(c: Ctx, m: P, a: Ast, compl: bool, r: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> P;
    fn Z3_params_inc_ref(c: Ctx, p: P);
    fn Z3_params_dec_ref(c: Ctx, p: P);
    fn Z3_params_set_uint(c: Ctx, p: P, k: P, v: c_uint);
    fn Z3_mk_fpa_sort_32(c: Ctx) -> Sort;
    fn Z3_mk_fpa_sort_64(c: Ctx) -> Sort;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_fma(c: Ctx, rm: Ast, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, rm: Ast, a: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, rm: Ast, a: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, rm: Ast, a: Ast) -> Ast;
}
extern "C" fn on_error(_c: Ctx, e: c_uint) {
    // resource-outs surface as "unknown"; anything else is an encoding bug
    if std::env::var("SX_Z3ERR").is_ok() {
        eprintln!("z3 error {}", e);
    }
}

pub enum Answer {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    ctx: Ctx,
    memo: FxMap<Ex, usize>,
    fmemo: FxMap<Ex, usize>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub slowest: f64,
    since: u64,
    pub timeout_ms: u32,
    pub hard_ms: u32,
    pub limit_ms: u32,
    pub second: u64,
    pub tables: u64,
    one: Ast,
    zero: Ast,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let mut z = Z3 {
            ctx: std::ptr::null_mut(),
            memo: FxMap::default(),
            fmemo: FxMap::default(),
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: 0.0,
            slowest: 0.0,
            since: 0,
            timeout_ms: timeout_ms.min(2500),
            hard_ms: timeout_ms,
            limit_ms: timeout_ms,
            second: 0,
            tables: 0,
            one: std::ptr::null_mut(),
            zero: std::ptr::null_mut(),
        };
        z.reset();
        z
    }
    /// never let one query run past the time left
    pub fn clip(&mut self, ms: u32) {
        self.hard_ms = self.limit_ms.min(ms);
        self.timeout_ms = self.hard_ms.min(2500);
    }
    fn reset(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                Z3_del_context(self.ctx);
            }
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
        }
        self.memo.clear();
        self.fmemo.clear();
        self.since = 0;
        self.one = self.num(1, 1);
        self.zero = self.num(0, 1);
    }
    fn num(&self, v: u128, w: u16) -> Ast {
        let s = CString::new(format!("{}", v)).unwrap();
        unsafe { Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_bv_sort(self.ctx, w as c_uint)) }
    }
    fn fsort(&self, w: u16) -> Sort {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort_32(self.ctx)
            } else {
                Z3_mk_fpa_sort_64(self.ctx)
            }
        }
    }
    /// floating point view of a bit pattern
    fn fp(&mut self, ar: &Arena, e: Ex) -> Ast {
        if let Some(a) = self.fmemo.get(&e) {
            return *a as Ast;
        }
        let n = *ar.n(e);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let a = self.fp(ar, n.a);
                    let b = self.fp(ar, n.b);
                    let rm = Z3_mk_fpa_rne(c);
                    match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                        _ => Z3_mk_fpa_div(c, rm, a, b),
                    }
                }
                Op::FSqrt => {
                    let a = self.fp(ar, n.a);
                    Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), a)
                }
                Op::Fma => {
                    let a = self.fp(ar, n.a);
                    let b = self.fp(ar, n.b);
                    let d = self.fp(ar, n.c);
                    Z3_mk_fpa_fma(c, Z3_mk_fpa_rne(c), a, b, d)
                }
                Op::FRound => {
                    let a = self.fp(ar, n.a);
                    let rm = match n.aux {
                        0 => Z3_mk_fpa_rtn(c),
                        1 => Z3_mk_fpa_rtp(c),
                        2 => Z3_mk_fpa_rtz(c),
                        3 => Z3_mk_fpa_rne(c),
                        _ => Z3_mk_fpa_rna(c),
                    };
                    Z3_mk_fpa_round_to_integral(c, rm, a)
                }
                Op::SIToF => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, self.fsort(n.w))
                }
                Op::UIToF => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, self.fsort(n.w))
                }
                Op::FExt | Op::FTrunc => {
                    let a = self.fp(ar, n.a);
                    Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, self.fsort(n.w))
                }
                Op::Ite if false => unreachable!(),
                _ => {
                    let a = self.tr(ar, e);
                    Z3_mk_fpa_to_fp_bv(c, a, self.fsort(n.w))
                }
            }
        };
        self.fmemo.insert(e, r as usize);
        r
    }
    fn tr(&mut self, ar: &Arena, e: Ex) -> Ast {
        if let Some(a) = self.memo.get(&e) {
            return *a as Ast;
        }
        // iterative post-order to keep the native stack shallow
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.memo.contains_key(&x) {
                continue;
            }
            let n = *ar.n(x);
            let fpop = matches!(
                n.op,
                Op::FAdd
                    | Op::FSub
                    | Op::FMul
                    | Op::FDiv
                    | Op::FSqrt
                    | Op::Fma
                    | Op::FRound
                    | Op::SIToF
                    | Op::UIToF
                    | Op::FExt
                    | Op::FTrunc
                    | Op::FEq
                    | Op::FLt
                    | Op::FLe
                    | Op::FNan
                    | Op::FToSI
                    | Op::FToUI
            );
            if !done && !fpop {
                st.push((x, true));
                for k in [n.a, n.b, n.c] {
                    if k != 0 && !self.memo.contains_key(&k) {
                        st.push((k, false));
                    }
                }
                continue;
            }
            let c = self.ctx;
            let g = |s: &Self, k: Ex| s.memo[&k] as Ast;
            let a = unsafe {
                match n.op {
                    Op::Const => self.num(n.aux, n.w),
                    Op::Var => Z3_mk_const(
                        c,
                        Z3_mk_int_symbol(c, n.aux as c_int),
                        Z3_mk_bv_sort(c, n.w as c_uint),
                    ),
                    Op::Add => Z3_mk_bvadd(c, g(self, n.a), g(self, n.b)),
                    Op::Sub => Z3_mk_bvsub(c, g(self, n.a), g(self, n.b)),
                    Op::Mul => Z3_mk_bvmul(c, g(self, n.a), g(self, n.b)),
                    Op::UDiv => Z3_mk_bvudiv(c, g(self, n.a), g(self, n.b)),
                    Op::SDiv => Z3_mk_bvsdiv(c, g(self, n.a), g(self, n.b)),
                    Op::URem => Z3_mk_bvurem(c, g(self, n.a), g(self, n.b)),
                    Op::SRem => Z3_mk_bvsrem(c, g(self, n.a), g(self, n.b)),
                    Op::And => Z3_mk_bvand(c, g(self, n.a), g(self, n.b)),
                    Op::Or => Z3_mk_bvor(c, g(self, n.a), g(self, n.b)),
                    Op::Xor => Z3_mk_bvxor(c, g(self, n.a), g(self, n.b)),
                    Op::Shl => Z3_mk_bvshl(c, g(self, n.a), g(self, n.b)),
                    Op::LShr => Z3_mk_bvlshr(c, g(self, n.a), g(self, n.b)),
                    Op::AShr => Z3_mk_bvashr(c, g(self, n.a), g(self, n.b)),
                    Op::Concat => Z3_mk_concat(c, g(self, n.a), g(self, n.b)),
                    Op::Extract => {
                        Z3_mk_extract(c, (n.aux as u32) + n.w as u32 - 1, n.aux as u32, g(self, n.a))
                    }
                    Op::ZExt => Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, g(self, n.a)),
                    Op::SExt => Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, g(self, n.a)),
                    Op::Ite => {
                        let cc = Z3_mk_eq(c, g(self, n.a), self.one);
                        Z3_mk_ite(c, cc, g(self, n.b), g(self, n.c))
                    }
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                        let (x, y) = (g(self, n.a), g(self, n.b));
                        let b = match n.op {
                            Op::Eq => Z3_mk_eq(c, x, y),
                            Op::Ult => Z3_mk_bvult(c, x, y),
                            Op::Ule => Z3_mk_bvule(c, x, y),
                            Op::Slt => Z3_mk_bvslt(c, x, y),
                            _ => Z3_mk_bvsle(c, x, y),
                        };
                        Z3_mk_ite(c, b, self.one, self.zero)
                    }
                    Op::FEq | Op::FLt | Op::FLe => {
                        let x = self.fp(ar, n.a);
                        let y = self.fp(ar, n.b);
                        let b = match n.op {
                            Op::FEq => Z3_mk_fpa_eq(c, x, y),
                            Op::FLt => Z3_mk_fpa_lt(c, x, y),
                            _ => Z3_mk_fpa_leq(c, x, y),
                        };
                        Z3_mk_ite(c, b, self.one, self.zero)
                    }
                    Op::FNan => {
                        let x = self.fp(ar, n.a);
                        Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), self.one, self.zero)
                    }
                    Op::FToSI | Op::FToUI => {
                        // saturating conversion: clamp explicitly
                        let x = self.fp(ar, n.a);
                        let rtz = Z3_mk_fpa_rtz(c);
                        let fs = self.fsort(ar.w(n.a));
                        let rne = Z3_mk_fpa_rne(c);
                        let (lo, hi, conv) = if n.op == Op::FToSI {
                            let hi = mask(n.w) >> 1;
                            let lo = hi + 1;
                            (
                                self.num(lo, n.w),
                                self.num(hi, n.w),
                                Z3_mk_fpa_to_sbv(c, rtz, x, n.w as c_uint),
                            )
                        } else {
                            (
                                self.num(0, n.w),
                                self.num(mask(n.w), n.w),
                                Z3_mk_fpa_to_ubv(c, rtz, x, n.w as c_uint),
                            )
                        };
                        // bounds as floats, computed in a wider integer
                        let w2 = n.w + 2;
                        let (blo, bhi) = if n.op == Op::FToSI {
                            (
                                self.num((mask(w2) & !mask(n.w - 1)) & mask(w2), w2),
                                self.num(1u128 << (n.w - 1), w2),
                            )
                        } else {
                            (self.num(0, w2), self.num(1u128 << n.w, w2))
                        };
                        let flo = Z3_mk_fpa_to_fp_signed(c, rne, blo, fs);
                        let fhi = Z3_mk_fpa_to_fp_signed(c, rne, bhi, fs);
                        let is_lo = Z3_mk_fpa_leq(c, x, flo);
                        let is_hi = Z3_mk_fpa_leq(c, fhi, x);
                        let isnan = Z3_mk_fpa_is_nan(c, x);
                        let z = self.num(0, n.w);
                        let t = Z3_mk_ite(c, is_hi, hi, conv);
                        let t = Z3_mk_ite(c, is_lo, lo, t);
                        Z3_mk_ite(c, isnan, z, t)
                    }
                    _ => {
                        let x = self.fp(ar, x);
                        Z3_mk_fpa_to_ieee_bv(c, x)
                    }
                }
            };
            if a.is_null() {
                panic!("z3 translation failed for {:?}", n.op);
            }
            self.memo.insert(x, a as usize);
        }
        self.memo[&e] as Ast
    }
    /// Are the constraints unsatisfiable even when large shared subterms with a small range are
    /// replaced by free variables over that range?  A yes carries over to the constraints
    /// themselves; a no says nothing.
    pub fn generalised_unsat(&mut self, ar: &Arena, cons: &[Ex]) -> bool {
        // post-order over the terms, counting parents
        let mut parents: FxMap<Ex, u32> = FxMap::default();
        let mut order: Vec<Ex> = vec![];
        let mut seen: FxMap<Ex, ()> = FxMap::default();
        let mut st: Vec<(Ex, bool)> = vec![(*cons.last().unwrap(), false)];
        while let Some((x, done)) = st.pop() {
            if done {
                order.push(x);
                continue;
            }
            if seen.insert(x, ()).is_some() {
                continue;
            }
            st.push((x, true));
            let n = ar.n(x);
            for k in [n.a, n.b, n.c] {
                if k != 0 && ar.n(k).op != Op::None {
                    *parents.entry(k).or_insert(0) += 1;
                    st.push((k, false));
                }
            }
        }
        if order.len() < 150 {
            return false;
        }
        let mut cost: FxMap<Ex, u32> = FxMap::default();
        let mut cut: Vec<Ex> = vec![];
        for x in &order {
            let n = ar.n(*x);
            let mut c = 1u32;
            for k in [n.a, n.b, n.c] {
                if let Some(d) = cost.get(&k) {
                    c = c.saturating_add(*d);
                }
            }
            let i = &ar.info[*x as usize];
            if c >= 60 && n.w >= 8 && i.hi - i.lo <= 4095 && parents.get(x).copied().unwrap_or(0) >= 2 {
                cut.push(*x);
                c = 1;
            }
            cost.insert(*x, c);
        }
        if cut.is_empty() {
            return false;
        }
        let t0 = Instant::now();
        let saved = std::mem::take(&mut self.memo);
        let c = self.ctx;
        let r = unsafe {
            let n = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, n.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.timeout_ms.min(600));
            Z3_solver_set_params(c, s, p);
            Z3_params_dec_ref(c, p);
            for x in &cut {
                let w = ar.w(*x);
                let name = CString::new(format!("cut{}", x)).unwrap();
                let v = Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), Z3_mk_bv_sort(c, w as c_uint));
                self.memo.insert(*x, v as usize);
                let i = &ar.info[*x as usize];
                let (lo, hi) = (self.num(i.lo, w), self.num(i.hi, w));
                let below = Z3_mk_bvult(c, v, lo);
                let above = Z3_mk_bvult(c, hi, v);
                let (t, f) = (self.one, self.zero);
                for b in [below, above] {
                    let x = Z3_mk_ite(c, b, t, f);
                    Z3_solver_assert(c, s, Z3_mk_eq(c, x, f));
                }
            }
            // the last one is the question, the others are the way there
            let a = self.tr(ar, *cons.last().unwrap());
            Z3_solver_assert(c, s, Z3_mk_eq(c, a, self.one));
            let r = Z3_solver_check(c, s);
            Z3_solver_dec_ref(c, s);
            r
        };
        self.memo = saved;
        self.since += 1;
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        self.queries += 1;
        if std::env::var("SX_CUT").is_ok() {
            eprintln!("cut: order {} cut {} r {} dt {:.4} ranges {:?}", order.len(), cut.len(), r, dt, cut.iter().map(|x| (ar.w(*x), ar.n(*x).op, ar.info[*x as usize].lo, ar.info[*x as usize].hi)).collect::<Vec<_>>());
        }
        match r {
            -1 => self.unsat += 1,
            1 => self.sat += 1,
            _ => self.queries -= 1,
        }
        if dt > self.slowest {
            self.slowest = dt;
        }
        r == -1
    }
    pub fn check(&mut self, ar: &Arena, cons: &[Ex], vars: &[u32], has_fp: bool) -> Answer {
        if self.since > 4000 || self.memo.len() > 2_000_000 {
            self.reset();
        }
        self.since += 1;
        self.queries += 1;
        let t0 = Instant::now();
        let c = self.ctx;
        unsafe {
            let s = if has_fp {
                Z3_mk_solver(c)
            } else {
                let n = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, n.as_ptr()))
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), if has_fp { self.hard_ms } else { self.timeout_ms });
            Z3_solver_set_params(c, s, p);
            Z3_params_dec_ref(c, p);
            for e in cons {
                let a = self.tr(ar, *e);
                Z3_solver_assert(c, s, Z3_mk_eq(c, a, self.one));
            }
            let r = Z3_solver_check(c, s);
            let ans = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for v in vars {
                        let e = ar.var_expr(*v as usize);
                        let a = self.tr(ar, e);
                        let w = ar.w(e);
                        let mut val = 0u128;
                        let mut lo = 0;
                        while lo < w {
                            let n = (w - lo).min(64);
                            let x = Z3_mk_extract(c, (lo + n - 1) as c_uint, lo as c_uint, a);
                            let mut r: Ast = std::ptr::null_mut();
                            Z3_model_eval(c, m, x, true, &mut r);
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(c, r, &mut u);
                            val |= (u as u128) << lo;
                            lo += n;
                        }
                        out.push((*v, val));
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    Answer::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Answer::Unsat
                }
                _ => Answer::Unknown,
            };
            let ans = match ans {
                Answer::Unknown => {
                    self.second += 1;
                    let a = if has_fp {
                        Answer::Unknown
                    } else {
                        crate::blast::Blast::new().solve(ar, cons, vars, (self.hard_ms / 1000).max(1) as u64)
                    };
                    match a {
                        Answer::Sat(_) => self.sat += 1,
                        Answer::Unsat => self.unsat += 1,
                        Answer::Unknown => self.unknown += 1,
                    }
                    a
                }
                a => a,
            };
            let dt = t0.elapsed().as_secs_f64();
            if let Ok(d) = std::env::var("SX_DUMP") {
                let lim: f64 = std::env::var("SX_DUMP_MIN").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
                if dt > lim {
                    let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, s));
                    let p = format!("{}/q{}_{:.1}.smt2", d, self.queries, dt);
                    let _ = std::fs::write(p, format!("{}\n(check-sat)\n", t.to_string_lossy()));
                }
            }
            Z3_solver_dec_ref(c, s);
            self.time += dt;
            if dt > self.slowest {
                self.slowest = dt;
            }
            ans
        }
    }
}
