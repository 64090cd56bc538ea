//! LLVM intrinsics, the few libc entry points std needs, and the harness primitives.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

pub fn is_builtin(n: &str) -> bool {
    n.starts_with("sym_")
        || matches!(
            n,
            "malloc"
                | "calloc"
                | "realloc"
                | "free"
                | "posix_memalign"
                | "aligned_alloc"
                | "bcmp"
                | "memcmp"
                | "memcpy"
                | "memmove"
                | "memset"
                | "memchr"
                | "memrchr"
                | "strlen"
                | "strcpy"
                | "getenv"
                | "write"
                | "syscall"
                | "getrandom"
                | "exit"
                | "_exit"
                | "sysconf"
                | "clock_gettime"
                | "__errno_location"
                | "floorf"
                | "ceilf"
                | "truncf"
                | "roundf"
                | "sqrtf"
                | "powf"
                | "expf"
                | "logf"
                | "log2f"
                | "exp2f"
                | "cosf"
                | "sinf"
                | "cbrtf"
                | "floor"
                | "ceil"
                | "trunc"
                | "round"
                | "sqrt"
                | "pow"
                | "exp"
                | "log"
                | "log2"
                | "exp2"
                | "cos"
                | "sin"
                | "cbrt"
                | "fma"
                | "fmaf"
                | "atan2f"
                | "atan2"
                | "tan"
                | "tanf"
                | "hypotf"
                | "ldexpf"
                | "frexpf"
        )
}
type R<X> = Result<X, Ctl>;

fn elem_w(t: &Ty) -> u16 {
    t.elem().bits()
}

impl<'m> Engine<'m> {
    fn map1(&mut self, a: &V, f: &mut dyn FnMut(&mut Self, &V) -> V) -> V {
        match a {
            V::A(x) => {
                let x = x.clone();
                V::A(Rc::new(x.iter().map(|e| f(self, e)).collect()))
            }
            v => f(self, v),
        }
    }
    fn map2(&mut self, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, &V, &V) -> V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let (x, y) = (x.clone(), y.clone());
                V::A(Rc::new((0..x.len()).map(|i| f(self, &x[i], &y[i])).collect()))
            }
            (x, y) => f(self, x, y),
        }
    }
    fn sel(&mut self, c: &V, w: u16, a: &V, b: &V) -> V {
        match c {
            V::I(1) => a.clone(),
            V::I(_) => b.clone(),
            V::S(e) => {
                let e = *e;
                let x = self.b_ex(a, w);
                let y = self.b_ex(b, w);
                let r = self.ar.ite(e, x, y);
                self.b_val(r)
            }
            _ => panic!("sel"),
        }
    }
    fn minmax(&mut self, p: P, w: u16, a: &V, b: &V) -> V {
        let c = self.icmp1(p, w, a, b);
        self.sel(&c, w, a, b)
    }
    fn k(&self, v: u128, w: u16) -> V {
        V::of(v, w)
    }
    /// saturate a signed value of width fw into a narrower one
    fn sat(&mut self, a: &V, fw: u16, lo: i128, hi: i128, tw: u16) -> V {
        let l = self.k(lo as u128, fw);
        let h = self.k(hi as u128, fw);
        let x = self.minmax(P::Sgt, fw, a, &l);
        let x = self.minmax(P::Slt, fw, &x, &h);
        self.cast1(C::Trunc, fw, tw, &x)
    }
    fn lanes(&self, v: &V) -> Rc<Vec<V>> {
        match v {
            V::A(x) => x.clone(),
            _ => panic!("lanes"),
        }
    }
    fn ctpop(&mut self, w: u16, a: &V) -> V {
        if let Some(x) = a.conc() {
            return self.k(x.count_ones() as u128, w);
        }
        let e = self.b_ex(a, w);
        let mut s = self.ar.konst(0, w);
        for i in 0..w {
            let b = self.ar.extract(e, i, 1);
            let z = if w > 1 { self.ar.zext(b, w) } else { b };
            s = self.ar.add(s, z);
        }
        self.b_val(s)
    }
    fn clz(&mut self, w: u16, a: &V, lead: bool) -> V {
        if let Some(x) = a.conc() {
            let r = if x == 0 {
                w as u32
            } else if lead {
                x.leading_zeros() - (128 - w as u32)
            } else {
                x.trailing_zeros()
            };
            return self.k(r as u128, w);
        }
        let e = self.b_ex(a, w);
        let mut r = self.ar.konst(w as u128, w);
        for i in 0..w {
            // the last write wins, so scan towards the deciding end
            let bit = if lead { i } else { w - 1 - i };
            let cnt = if lead { w - 1 - bit } else { bit };
            let b = self.ar.extract(e, bit, 1);
            let k = self.ar.konst(cnt as u128, w);
            r = self.ar.ite(b, k, r);
        }
        self.b_val(r)
    }
    fn fl1(&mut self, op: Op, w: u16, a: &V, aux: u128) -> V {
        let e = self.b_ex(a, w);
        let r = self.ar.fop(op, w, e, 0, 0, aux);
        self.b_val(r)
    }
    fn fround_to(&mut self, w: u16, a: &V, tw: u16) -> V {
        // cvtps2dq: round to nearest even, then convert (out of range -> 0x80000000)
        let r = self.fl1(Op::FRound, w, a, 3);
        self.cvtt(w, &r, tw)
    }
    fn cvtt(&mut self, w: u16, a: &V, tw: u16) -> V {
        let e = self.b_ex(a, w);
        let v = self.ar.fop(Op::FToSI, tw, e, 0, 0, 0);
        // out of range or NaN gives the indefinite integer
        let lim = if w == 32 { (2f32.powi(tw as i32 - 1)).to_bits() as u128 } else { (2f64.powi(tw as i32 - 1)).to_bits() as u128 };
        let l = self.ar.konst(lim, w);
        let big = self.ar.fop(Op::FLe, 1, l, e, 0, 0);
        let nan = self.ar.fop(Op::FNan, 1, e, 0, 0, 0);
        let bad = self.ar.or(big, nan);
        let ind = self.ar.konst(1u128 << (tw - 1), tw);
        let r = self.ar.ite(bad, ind, v);
        self.b_val(r)
    }
    fn overflow(&mut self, op: &str, signed: bool, w: u16, a: &V, b: &V) -> V {
        let w2 = if op == "mul" { (2 * w).min(128) } else { w + 1 };
        if op == "mul" && w > 64 {
            // 128-bit multiplication with overflow: constants only
            if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
                let (r, o) = if signed {
                    let (r, o) = (x as i128).overflowing_mul(y as i128);
                    (r as u128, o)
                } else {
                    x.overflowing_mul(y)
                };
                return V::A(Rc::new(vec![self.k(r, w), V::I(o as u64)]));
            }
        }
        if let (Some(x), Some(y), true) = (a.conc(), b.conc(), w <= 64) {
            let (r, o) = if signed {
                let (x, y) = (sext(x, w), sext(y, w));
                let r = match op {
                    "add" => x + y,
                    "sub" => x - y,
                    _ => x * y,
                };
                (r as u128, sext(r as u128 & mask(w), w) != r)
            } else {
                match op {
                    "add" => (x + y, x + y > mask(w)),
                    "sub" => (x.wrapping_sub(y), x < y),
                    _ => (x * y, x * y > mask(w)),
                }
            };
            return V::A(Rc::new(vec![self.k(r, w), V::I(o as u64)]));
        }
        let bop = match op {
            "add" => B::Add,
            "sub" => B::Sub,
            _ => B::Mul,
        };
        let r = self.bin1(bop, w, a, b);
        let o = if !signed && op == "sub" {
            self.icmp1(P::Ult, w, a, b)
        } else if !signed && op == "add" {
            // carry out: r < a
            let (ea, eb) = (self.b_ex(a, w), self.b_ex(b, w));
            let (ia, ib) = (self.ar.info[ea as usize], self.ar.info[eb as usize]);
            match ia.hi.checked_add(ib.hi) {
                Some(h) if h <= mask(w) => V::I(0),
                _ => {
                    if let Some(k) = b.conc() {
                        // a + k overflows iff a > max - k
                        let lim = self.k(mask(w) - k, w);
                        self.icmp1(P::Ugt, w, a, &lim)
                    } else {
                        self.icmp1(P::Ult, w, &r, a)
                    }
                }
            }
        } else if signed && w <= 32 && {
            let (ea, eb) = (self.b_ex(a, w), self.b_ex(b, w));
            let (x, y) = (self.ar.srange(ea, 6), self.ar.srange(eb, 6));
            let (lo, hi) = match op {
                "add" => (x.0 + y.0, x.1 + y.1),
                "sub" => (x.0 - y.1, x.1 - y.0),
                _ => {
                    let p = [x.0 * y.0, x.0 * y.1, x.1 * y.0, x.1 * y.1];
                    (*p.iter().min().unwrap(), *p.iter().max().unwrap())
                }
            };
            let top = mask(w - 1) as i128;
            lo >= -top - 1 && hi <= top
        } {
            V::I(0)
        } else {
            let c = if signed { C::SExt } else { C::ZExt };
            let x = self.cast1(c, w, w2, a);
            let y = self.cast1(c, w, w2, b);
            let rr = self.bin1(bop, w2, &x, &y);
            let back = self.cast1(c, w, w2, &r);
            self.icmp1(P::Ne, w2, &rr, &back)
        };
        V::A(Rc::new(vec![r, o]))
    }

    pub(crate) fn builtin(&mut self, st: &mut State, name: &str, a: &[V], tys: &[T], rt: &T) -> R<V> {
        if let Some(rest) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, rest, a, tys, rt);
        }
        match name {
            // ------------------------------------------------ harness primitives
            "sym_bytes" => {
                let n = self.b_conc(st, &a[1])? as usize;
                let mut d = vec![0u8; n];
                let mut s = vec![0; n];
                for i in 0..n {
                    match self.new_input(st, 8) {
                        V::S(e) => s[i] = e,
                        v => d[i] = v.conc().unwrap() as u8,
                    }
                }
                if n > 0 {
                    let s2: &[Ex] = if s.iter().all(|x| *x == 0) { &[] } else { &s };
                    self.b_put(st, &a[0], &d, s2)?;
                }
                Ok(V::I(0))
            }
            "sym_u8" => Ok(self.new_input(st, 8)),
            "sym_u16" => Ok(self.new_input(st, 16)),
            "sym_u32" => Ok(self.new_input(st, 32)),
            "sym_u64" => Ok(self.new_input(st, 64)),
            "sym_bool" => Ok(self.new_input(st, 1)),
            "sym_choice" => {
                let n = self.b_conc(st, &a[0])? as u64;
                Ok(V::I(self.choice(st, n)?))
            }
            "sym_arg" => {
                let i = self.b_conc(st, &a[0])? as usize;
                Ok(V::I(self.cfg.args.get(i).copied().unwrap_or(0)))
            }
            "sym_concrete" => {
                let v = self.b_conc(st, &a[0])?;
                Ok(V::I(v as u64))
            }
            "sym_assume" => {
                self.b_assume(st, &a[0])?;
                Ok(V::I(0))
            }
            "sym_assert" => {
                let id = a.get(1).and_then(|v| v.conc()).unwrap_or(0) as u64;
                self.b_assert(st, &a[0], id)?;
                Ok(V::I(0))
            }
            "sym_assert_eq" => {
                // byte-wise equality of two regions, one query per differing byte expression
                let n = self.b_conc(st, &a[2])? as u64;
                let id = self.b_conc(st, &a[3])? as u64;
                let x = self.b_bytes(st, &a[0], n)?;
                let y = self.b_bytes(st, &a[1], n)?;
                for i in 0..n as usize {
                    let e = self.ar.eq(x[i], y[i]);
                    let v = self.b_val(e);
                    self.b_assert(st, &v, id)?;
                }
                Ok(V::I(0))
            }
            "sym_reach" => {
                let id = self.b_conc(st, &a[0])? as u64;
                *self.reached.entry(id).or_insert(0) += 1;
                st.labels.push(id);
                Ok(V::I(0))
            }
            "sym_out" => {
                let e = self.b_ex(&a[0], 64);
                st.outs.push(e);
                Ok(V::I(0))
            }
            "sym_live" => Ok(V::I(st.live)),
            "sym_end" => Err(Ctl::Exit),
            // ------------------------------------------------ libc
            "malloc" => {
                let n = self.b_conc(st, &a[0])? as u64;
                Ok(V::I(self.malloc(st, n, 16, 0xA5)?))
            }
            "calloc" => {
                let n = self.b_conc(st, &a[0])? as u64;
                let m = self.b_conc(st, &a[1])? as u64;
                match n.checked_mul(m) {
                    Some(t) => Ok(V::I(self.malloc(st, t, 16, 0)?)),
                    None => Ok(V::I(0)),
                }
            }
            "posix_memalign" => {
                let al = self.b_conc(st, &a[1])? as u64;
                let n = self.b_conc(st, &a[2])? as u64;
                let p = self.malloc(st, n, al, 0xA5)?;
                self.b_store(st, &a[0], &Ty::Ptr, &V::I(p))?;
                Ok(V::I(0))
            }
            "aligned_alloc" => {
                let al = self.b_conc(st, &a[0])? as u64;
                let n = self.b_conc(st, &a[1])? as u64;
                Ok(V::I(self.malloc(st, n, al, 0xA5)?))
            }
            "realloc" => {
                let p = self.b_conc(st, &a[0])? as u64;
                let n = self.b_conc(st, &a[1])? as u64;
                if p == 0 {
                    return Ok(V::I(self.malloc(st, n, 16, 0xA5)?));
                }
                let old = match self.b_size(st, p) {
                    Some(s) => s,
                    None => return Err(Ctl::Viol("memory".into(), "realloc of an invalid pointer".into())),
                };
                let q = self.malloc(st, n, 16, 0xA5)?;
                self.b_memcpy(st, &V::I(q), &V::I(p), &V::I(old.min(n)))?;
                self.b_free(st, p)?;
                Ok(V::I(q))
            }
            "free" => {
                let p = self.b_conc(st, &a[0])? as u64;
                self.b_free(st, p)?;
                Ok(V::I(0))
            }
            "memcpy" | "memmove" => {
                self.b_memcpy(st, &a[0], &a[1], &a[2])?;
                Ok(a[0].clone())
            }
            "memset" => {
                let b = self.cast1(C::Trunc, 32, 8, &a[1]);
                self.b_memset(st, &a[0], &b, &a[2])?;
                Ok(a[0].clone())
            }
            "bcmp" | "memcmp" => {
                let n = self.b_conc(st, &a[2])? as u64;
                let x = self.b_bytes(st, &a[0], n)?;
                let y = self.b_bytes(st, &a[1], n)?;
                let mut r = self.ar.konst(0, 32);
                for i in (0..n as usize).rev() {
                    let eq = self.ar.eq(x[i], y[i]);
                    let d = if name == "bcmp" {
                        self.ar.konst(1, 32)
                    } else {
                        let lt = self.ar.ult(x[i], y[i]);
                        let m1 = self.ar.konst(0xffff_ffff, 32);
                        let p1 = self.ar.konst(1, 32);
                        self.ar.ite(lt, m1, p1)
                    };
                    r = self.ar.ite(eq, r, d);
                }
                Ok(self.b_val(r))
            }
            "memchr" | "memrchr" => {
                let n = self.b_conc(st, &a[2])? as u64;
                let p = self.b_conc(st, &a[0])? as u64;
                let x = self.b_bytes(st, &V::I(p), n)?;
                let c = self.cast1(C::Trunc, 32, 8, &a[1]);
                let ce = self.b_ex(&c, 8);
                let idx: Vec<usize> = if name == "memchr" { (0..x.len()).collect() } else { (0..x.len()).rev().collect() };
                for i in idx {
                    let e = self.ar.eq(x[i], ce);
                    if self.b_decide(st, e)? {
                        return Ok(V::I(p + i as u64));
                    }
                }
                Ok(V::I(0))
            }
            "strlen" => {
                let p = self.b_conc(st, &a[0])? as u64;
                let mut i = 0;
                loop {
                    let v = self.b_load(st, &V::I(p + i), &Ty::Int(8))?;
                    if self.b_conc(st, &v)? == 0 {
                        return Ok(V::I(i));
                    }
                    i += 1;
                }
            }
            "strcpy" => {
                let p = self.b_conc(st, &a[1])? as u64;
                let mut n = 0;
                loop {
                    let v = self.b_load(st, &V::I(p + n), &Ty::Int(8))?;
                    n += 1;
                    if self.b_conc(st, &v)? == 0 {
                        break;
                    }
                }
                self.b_memcpy(st, &a[0], &V::I(p), &V::I(n))?;
                Ok(a[0].clone())
            }
            "getenv" => Ok(V::I(0)),
            "write" => Ok(a[2].clone()),
            "sysconf" => Ok(V::I(4096)),
            // time stands still
            "clock_gettime" => {
                self.b_put(st, &a[1], &[0; 16], &[])?;
                Ok(V::I(0))
            }
            "exit" | "_exit" => Err(Ctl::Exit),
            "getrandom" => {
                let n = self.b_conc(st, &a[1])? as usize;
                self.b_put(st, &a[0], &vec![0x5A; n], &[])?;
                Ok(V::I(n as u64))
            }
            "syscall" => {
                let nr = self.b_conc(st, &a[0])?;
                if nr == 318 {
                    let n = self.b_conc(st, &a[2])? as usize;
                    self.b_put(st, &a[1], &vec![0x5A; n], &[])?;
                    return Ok(V::I(n as u64));
                }
                Err(Ctl::Unsupported(format!("syscall {}", nr)))
            }
            _ => {
                // libm
                let (base, w) = match name {
                    "fmaf" => ("fma", 32),
                    _ if rt.bits() == 32 => (name.strip_suffix('f').unwrap_or(name), 32),
                    _ => (name, 64),
                };
                self.math(base, w, a)
            }
        }
    }
    fn math(&mut self, base: &str, w: u16, a: &[V]) -> R<V> {
        Ok(match base {
            "floor" => self.map1(&a[0], &mut |s, x| s.fl1(Op::FRound, w, x, 0)),
            "ceil" => self.map1(&a[0], &mut |s, x| s.fl1(Op::FRound, w, x, 1)),
            "trunc" => self.map1(&a[0], &mut |s, x| s.fl1(Op::FRound, w, x, 2)),
            "rint" | "nearbyint" | "roundeven" => self.map1(&a[0], &mut |s, x| s.fl1(Op::FRound, w, x, 3)),
            "round" => self.map1(&a[0], &mut |s, x| s.fl1(Op::FRound, w, x, 4)),
            "sqrt" => self.map1(&a[0], &mut |s, x| s.fl1(Op::FSqrt, w, x, 0)),
            "fma" => {
                let (x, y, z) = (self.b_ex(&a[0], w), self.b_ex(&a[1], w), self.b_ex(&a[2], w));
                let r = self.ar.fop(Op::Fma, w, x, y, z, 0);
                self.b_val(r)
            }
            _ => {
                let mut xs = vec![];
                for v in a {
                    match v.conc() {
                        Some(x) => xs.push(x),
                        None => return Err(Ctl::Unsupported(format!("symbolic {}", base))),
                    }
                }
                let f = |i: usize| -> f64 {
                    if w == 32 {
                        f32::from_bits(xs[i] as u32) as f64
                    } else {
                        f64::from_bits(xs[i] as u64)
                    }
                };
                if w == 32 {
                    let x = f32::from_bits(xs[0] as u32);
                    let y = if xs.len() > 1 { f32::from_bits(xs[1] as u32) } else { 0.0 };
                    let r = match base {
                        "pow" => x.powf(y),
                        "exp" => x.exp(),
                        "log" => x.ln(),
                        "log2" => x.log2(),
                        "exp2" => x.exp2(),
                        "cos" => x.cos(),
                        "sin" => x.sin(),
                        "tan" => x.tan(),
                        "cbrt" => x.cbrt(),
                        "atan2" => x.atan2(y),
                        "hypot" => x.hypot(y),
                        "ldexp" => x * 2f32.powi(xs[1] as u32 as i32),
                        _ => return Err(Ctl::Unsupported(base.to_string())),
                    };
                    return Ok(V::I(r.to_bits() as u64));
                }
                let x = f(0);
                let y = if xs.len() > 1 { f(1) } else { 0.0 };
                let r = match base {
                    "pow" => x.powf(y),
                    "exp" => x.exp(),
                    "log" => x.ln(),
                    "log2" => x.log2(),
                    "exp2" => x.exp2(),
                    "cos" => x.cos(),
                    "sin" => x.sin(),
                    "tan" => x.tan(),
                    "cbrt" => x.cbrt(),
                    "atan2" => x.atan2(y),
                    _ => return Err(Ctl::Unsupported(base.to_string())),
                };
                V::I(r.to_bits())
            }
        })
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[V], tys: &[T], rt: &T) -> R<V> {
        let w = if tys.is_empty() { 0 } else { elem_w(&tys[0]) };
        let base = name.split('.').next().unwrap();
        let rw = elem_w(rt);
        Ok(match base {
            "lifetime" | "assume" | "experimental" | "dbg" | "donothing" | "invariant" | "prefetch" | "sideeffect"
            | "pseudoprobe" | "va_start" | "va_end" => V::I(0),
            "memcpy" | "memmove" => {
                self.b_memcpy(st, &a[0], &a[1], &a[2])?;
                V::I(0)
            }
            "memset" => {
                self.b_memset(st, &a[0], &a[1], &a[2])?;
                V::I(0)
            }
            "umin" => self.map2(&a[0], &a[1], &mut |s, x, y| s.minmax(P::Ult, w, x, y)),
            "umax" => self.map2(&a[0], &a[1], &mut |s, x, y| s.minmax(P::Ugt, w, x, y)),
            "smin" => self.map2(&a[0], &a[1], &mut |s, x, y| s.minmax(P::Slt, w, x, y)),
            "smax" => self.map2(&a[0], &a[1], &mut |s, x, y| s.minmax(P::Sgt, w, x, y)),
            "abs" => self.map1(&a[0], &mut |s, x| {
                let z = V::of(0, w);
                let n = s.bin1(B::Sub, w, &z, x);
                let c = s.icmp1(P::Slt, w, x, &z);
                s.sel(&c, w, &n, x)
            }),
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let signed = base.starts_with('s');
                let op = &base[1..];
                if name.contains(".sat") {
                    self.map2(&a[0], &a[1], &mut |s, x, y| {
                        let r = s.overflow(op, signed, w, x, y);
                        let r = s.lanes(&r);
                        let lim = if !signed {
                            V::of(if op == "add" { mask(w) } else { 0 }, w)
                        } else {
                            // sign of x decides the bound
                            let z = V::of(0, w);
                            let neg = s.icmp1(P::Slt, w, x, &z);
                            let lo = V::of(1u128 << (w - 1), w);
                            let hi = V::of(mask(w) >> 1, w);
                            s.sel(&neg, w, &lo, &hi)
                        };
                        s.sel(&r[1], w, &lim, &r[0])
                    })
                } else {
                    self.overflow(op, signed, w, &a[0], &a[1])
                }
            }
            "ctpop" => self.map1(&a[0], &mut |s, x| s.ctpop(w, x)),
            "ctlz" => self.map1(&a[0], &mut |s, x| s.clz(w, x, true)),
            "cttz" => self.map1(&a[0], &mut |s, x| s.clz(w, x, false)),
            "bswap" => self.map1(&a[0], &mut |s, x| {
                if let Some(c) = x.conc() {
                    return V::of(c.swap_bytes() >> (128 - w as u32), w);
                }
                let e = s.b_ex(x, w);
                let mut r = s.ar.extract(e, 0, 8);
                for i in 1..w / 8 {
                    let b = s.ar.extract(e, 8 * i, 8);
                    r = s.ar.concat(r, b);
                }
                s.b_val(r)
            }),
            "bitreverse" => self.map1(&a[0], &mut |s, x| {
                if let Some(c) = x.conc() {
                    return V::of(c.reverse_bits() >> (128 - w as u32), w);
                }
                let e = s.b_ex(x, w);
                let mut r = s.ar.extract(e, 0, 1);
                for i in 1..w {
                    let b = s.ar.extract(e, i, 1);
                    r = s.ar.concat(r, b);
                }
                s.b_val(r)
            }),
            "fshl" | "fshr" => {
                let mut f = |s: &mut Self, x: &V, y: &V, z: &V| {
                    if let Some(k) = z.conc() {
                        let k = (k % w as u128) as u16;
                        if k == 0 {
                            return if base == "fshl" { x.clone() } else { y.clone() };
                        }
                        let (p, q) = (s.b_ex(x, w), s.b_ex(y, w));
                        let lo = if base == "fshl" { w - k } else { k };
                        // concat(x, y) >> lo, low w bits
                        let hi_part = s.ar.extract(p, 0, lo);
                        let lo_part = s.ar.extract(q, lo, w - lo);
                        let r = s.ar.concat(hi_part, lo_part);
                        return s.b_val(r);
                    }
                    let wm = V::of(w as u128, w);
                    let k = s.bin1(B::URem, w, z, &wm);
                    let kr = s.bin1(B::Sub, w, &wm, &k);
                    let (l, r) = if base == "fshl" {
                        (s.bin1(B::Shl, w, x, &k), s.bin1(B::LShr, w, y, &kr))
                    } else {
                        (s.bin1(B::Shl, w, x, &kr), s.bin1(B::LShr, w, y, &k))
                    };
                    s.bin1(B::Or, w, &l, &r)
                };
                match (&a[0], &a[1], &a[2]) {
                    (V::A(x), V::A(y), V::A(z)) => {
                        let (x, y, z) = (x.clone(), y.clone(), z.clone());
                        V::A(Rc::new((0..x.len()).map(|i| f(self, &x[i], &y[i], &z[i])).collect()))
                    }
                    (x, y, z) => f(self, x, y, z),
                }
            }
            "ucmp" | "scmp" => self.map2(&a[0], &a[1], &mut |s, x, y| {
                let (l, g) = if base == "ucmp" { (P::Ult, P::Ugt) } else { (P::Slt, P::Sgt) };
                let lt = s.icmp1(l, w, x, y);
                let gt = s.icmp1(g, w, x, y);
                let m1 = V::of(mask(rw), rw);
                let p1 = V::of(1, rw);
                let z = V::of(0, rw);
                let t = s.sel(&gt, rw, &p1, &z);
                s.sel(&lt, rw, &m1, &t)
            }),
            "expect" => a[0].clone(),
            "is" if name.contains("fpclass") => {
                let m = self.b_conc(st, &a[1])? as u64;
                self.map1(&a[0], &mut |s, x| {
                    // the classes as ranges of the bits, in the order of the mask: -inf.. are 2..=5, +zero.. 6..=9
                    let mb: u32 = if w == 64 { 52 } else { 23 };
                    let sb = 1u128 << (w - 1);
                    let inf = (sb - 1) >> mb << mb;
                    let one = 1u128 << mb;
                    let q = inf | (one >> 1);
                    let rs = [
                        (0, inf + 1, q - 1),
                        (0, sb | (inf + 1), sb | (q - 1)),
                        (1, q, sb - 1),
                        (1, sb | q, 2 * sb - 1),
                        (2, sb | inf, sb | inf),
                        (3, sb | one, sb | (inf - 1)),
                        (4, sb | 1, sb | (one - 1)),
                        (5, sb, sb),
                        (6, 0, 0),
                        (7, 1, one - 1),
                        (8, one, inf - 1),
                        (9, inf, inf),
                    ];
                    let mut r = V::of(0, 1);
                    for (bit, lo, hi) in rs {
                        if m >> bit & 1 == 1 {
                            let (lo, hi) = (V::of(lo, w), V::of(hi, w));
                            let a = s.icmp1(P::Uge, w, x, &lo);
                            let b = s.icmp1(P::Ule, w, x, &hi);
                            let c = s.bin1(B::And, 1, &a, &b);
                            r = s.bin1(B::Or, 1, &r, &c);
                        }
                    }
                    r
                })
            }
            "is" => V::I(0), // is.constant
            "trap" | "debugtrap" | "ubsantrap" => return Err(Ctl::Viol("panic".into(), "trap".into())),
            "threadlocal" => a[0].clone(),
            "load" => {
                // load.relative
                let b = self.b_conc(st, &a[0])? as u64;
                let o = match &a[1] {
                    V::I(_) => a[1].clone(),
                    _ => V::I(self.b_conc(st, &a[1])? as u64),
                };
                let o = o.conc().unwrap() as u64;
                let v = self.b_load(st, &V::I(b.wrapping_add(o)), &Ty::Int(32))?;
                let v = self.b_conc(st, &v)?;
                V::I(b.wrapping_add(sext(v, 32) as u64))
            }
            "fabs" => self.map1(&a[0], &mut |s, x| {
                let k = V::of(mask(w) >> 1, w);
                s.bin1(B::And, w, x, &k)
            }),
            "copysign" => self.map2(&a[0], &a[1], &mut |s, x, y| {
                let k = V::of(mask(w) >> 1, w);
                let sb = V::of(1u128 << (w - 1), w);
                let m = s.bin1(B::And, w, x, &k);
                let g = s.bin1(B::And, w, y, &sb);
                s.bin1(B::Or, w, &m, &g)
            }),
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" | "minimum" | "maximum" => {
                self.map2(&a[0], &a[1], &mut |s, x, y| {
                    let less = s.fcmp1("olt", w, x, y);
                    let r = if base.starts_with("min") { s.sel(&less, w, x, y) } else { s.sel(&less, w, y, x) };
                    let nx = s.fcmp1("uno", w, x, x);
                    let ny = s.fcmp1("uno", w, y, y);
                    let r = s.sel(&nx, w, y, &r);
                    let xx = s.sel(&nx, w, y, x);
                    s.sel(&ny, w, &xx, &r)
                })
            }
            "floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "roundeven" | "round" | "sqrt" => self.math(base, w, a)?,
            "fma" => match &a[0] {
                V::A(x) => {
                    let (x, y, z) = (x.clone(), self.lanes(&a[1]), self.lanes(&a[2]));
                    let mut o = vec![];
                    for i in 0..x.len() {
                        o.push(self.math("fma", w, &[x[i].clone(), y[i].clone(), z[i].clone()])?);
                    }
                    V::A(Rc::new(o))
                }
                _ => self.math("fma", w, a)?,
            },
            "fmuladd" => {
                let m = self.fbin1('*', w, &a[0], &a[1]);
                self.fbin1('+', w, &m, &a[2])
            }
            "pow" | "exp" | "log" | "log2" | "exp2" | "cos" | "sin" | "tan" => self.math(base, w, a)?,
            "powi" => match (a[0].conc(), a[1].conc()) {
                (Some(x), Some(n)) => {
                    let n = n as u32 as i32;
                    if w == 32 {
                        V::I(f32::from_bits(x as u32).powi(n).to_bits() as u64)
                    } else {
                        V::I(f64::from_bits(x as u64).powi(n).to_bits())
                    }
                }
                _ => return Err(Ctl::Unsupported("powi".into())),
            },
            "ldexp" => match (a[0].conc(), a[1].conc()) {
                (Some(x), Some(n)) => {
                    let n = n as u32 as i32;
                    if w == 32 {
                        V::I(f32::from_bits(x as u32).mul_add(2f32.powi(n), 0.0).to_bits() as u64)
                    } else {
                        V::I((f64::from_bits(x as u64) * 2f64.powi(n)).to_bits())
                    }
                }
                _ => {
                    // concretise the exponent only
                    let n = sext(self.b_conc(st, &a[1])?, 32) as i32;
                    if !(-126..=127).contains(&n) {
                        return Err(Ctl::Unsupported("ldexp range".into()));
                    }
                    let k = if w == 32 { V::I(2f32.powi(n).to_bits() as u64) } else { V::I(2f64.powi(n).to_bits()) };
                    self.fbin1('*', w, &a[0], &k)
                }
            },
            "fptosi" => self.map1(&a[0], &mut |s, x| s.cast1(C::FpToSi, w, rw, x)),
            "fptoui" => self.map1(&a[0], &mut |s, x| s.cast1(C::FpToUi, w, rw, x)),
            "vector" => {
                let v = self.lanes(&a[a.len() - 1]);
                let kind = name.split('.').nth(2).unwrap_or("");
                let ew = elem_w(&tys[tys.len() - 1]);
                let mut acc = v[0].clone();
                for x in v.iter().skip(1) {
                    acc = match kind {
                        "add" => self.bin1(B::Add, ew, &acc, x),
                        "mul" => self.bin1(B::Mul, ew, &acc, x),
                        "and" => self.bin1(B::And, ew, &acc, x),
                        "or" => self.bin1(B::Or, ew, &acc, x),
                        "xor" => self.bin1(B::Xor, ew, &acc, x),
                        "umin" => self.minmax(P::Ult, ew, &acc, x),
                        "umax" => self.minmax(P::Ugt, ew, &acc, x),
                        "smin" => self.minmax(P::Slt, ew, &acc, x),
                        "smax" => self.minmax(P::Sgt, ew, &acc, x),
                        _ => return Err(Ctl::Unsupported(name.to_string())),
                    };
                }
                acc
            }
            "x86" => self.x86(st, &name[4..], a, tys, rt)?,
            "umul_fix" | _ => return Err(Ctl::Unsupported(format!("llvm.{}", name))),
        })
    }

    fn x86(&mut self, _st: &mut State, name: &str, a: &[V], tys: &[T], rt: &T) -> R<V> {
        let rw = elem_w(rt);
        let op = name.splitn(2, '.').nth(1).unwrap_or(name);
        // per 128-bit lane helper bounds
        let per_lane = |n: usize, w: u16| -> usize { n.min(128 / w as usize) };
        if name == "xgetbv" {
            return Ok(V::I(if self.cfg.simd > 1 { 7 } else { 0 }));
        }
        if name == "pclmulqdq" {
            let (x, y) = (self.lanes(&a[0]), self.lanes(&a[1]));
            let imm = a[2].conc().unwrap();
            let p = &x[(imm & 1) as usize];
            let q = &y[(imm >> 4 & 1) as usize];
            let mut acc = V::of(0, 128);
            let p2 = self.cast1(C::ZExt, 64, 128, p);
            for i in 0..64u16 {
                let sh = self.bin1(B::Shl, 128, &p2, &V::of(i as u128, 128));
                let bit = match q {
                    V::I(v) => V::I(v >> i & 1),
                    v => {
                        let e = self.b_ex(v, 64);
                        let b = self.ar.extract(e, i, 1);
                        self.b_val(b)
                    }
                };
                let z = V::of(0, 128);
                let t = self.sel(&bit, 128, &sh, &z);
                acc = self.bin1(B::Xor, 128, &acc, &t);
            }
            return Ok(self.bitcast(&acc, &Ty::Int(128), rt));
        }
        let s = op;
        // packs: two sources, narrowing with saturation, per 128-bit lane
        let pack = |n: &str| -> Option<(i128, i128, u16, u16)> {
            Some(match n {
                n if n.starts_with("packsswb") => (-128, 127, 16, 8),
                n if n.starts_with("packuswb") => (0, 255, 16, 8),
                n if n.starts_with("packssdw") => (-32768, 32767, 32, 16),
                n if n.starts_with("packusdw") => (0, 65535, 32, 16),
                _ => return None,
            })
        };
        if let Some((lo, hi, fw, tw)) = pack(s) {
            let (x, y) = (self.lanes(&a[0]), self.lanes(&a[1]));
            let k = per_lane(x.len(), fw);
            let mut out = vec![];
            let mut i = 0;
            while i < x.len() {
                for v in [&x, &y] {
                    for j in 0..k {
                        let t = self.sat(&v[i + j], fw, lo, hi, tw);
                        out.push(t);
                    }
                }
                i += k;
            }
            return Ok(V::A(Rc::new(out)));
        }
        if s.starts_with("pshuf.b") {
            let (x, m) = (self.lanes(&a[0]), self.lanes(&a[1]));
            let mut out = vec![];
            for i in 0..x.len() {
                let lane = i / 16 * 16;
                match m[i].conc() {
                    Some(k) => out.push(if k & 0x80 != 0 { V::I(0) } else { x[lane + (k & 15) as usize].clone() }),
                    None => {
                        let mut r = V::I(0);
                        for k in 0..16 {
                            let lowm = V::I(0x8f);
                            let mk = self.bin1(B::And, 8, &m[i], &lowm);
                            let c = self.icmp1(P::Eq, 8, &mk, &V::I(k as u64));
                            r = self.sel(&c, 8, &x[lane + k], &r);
                        }
                        out.push(r);
                    }
                }
            }
            return Ok(V::A(Rc::new(out)));
        }
        if s.starts_with("psad.bw") {
            let (x, y) = (self.lanes(&a[0]), self.lanes(&a[1]));
            let mut out = vec![];
            for c in 0..x.len() / 8 {
                let mut acc = V::of(0, 64);
                for j in 0..8 {
                    let (p, q) = (&x[8 * c + j], &y[8 * c + j]);
                    let p = self.cast1(C::ZExt, 8, 64, p);
                    let q = self.cast1(C::ZExt, 8, 64, q);
                    let lt = self.icmp1(P::Ult, 64, &p, &q);
                    let d1 = self.bin1(B::Sub, 64, &p, &q);
                    let d2 = self.bin1(B::Sub, 64, &q, &p);
                    let d = self.sel(&lt, 64, &d2, &d1);
                    acc = self.bin1(B::Add, 64, &acc, &d);
                }
                out.push(acc);
            }
            return Ok(V::A(Rc::new(out)));
        }
        if s.starts_with("pmadd.wd") {
            let (x, y) = (self.lanes(&a[0]), self.lanes(&a[1]));
            let mut out = vec![];
            for c in 0..x.len() / 2 {
                let mut acc = V::of(0, 32);
                for j in 0..2 {
                    let p = self.cast1(C::SExt, 16, 32, &x[2 * c + j]);
                    let q = self.cast1(C::SExt, 16, 32, &y[2 * c + j]);
                    let m = self.bin1(B::Mul, 32, &p, &q);
                    acc = self.bin1(B::Add, 32, &acc, &m);
                }
                out.push(acc);
            }
            return Ok(V::A(Rc::new(out)));
        }
        if s.starts_with("pmadd.ub.sw") {
            let (x, y) = (self.lanes(&a[0]), self.lanes(&a[1]));
            let mut out = vec![];
            for c in 0..x.len() / 2 {
                let mut acc = V::of(0, 32);
                for j in 0..2 {
                    let p = self.cast1(C::ZExt, 8, 32, &x[2 * c + j]);
                    let q = self.cast1(C::SExt, 8, 32, &y[2 * c + j]);
                    let m = self.bin1(B::Mul, 32, &p, &q);
                    acc = self.bin1(B::Add, 32, &acc, &m);
                }
                let t = self.sat(&acc, 32, -32768, 32767, 16);
                out.push(t);
            }
            return Ok(V::A(Rc::new(out)));
        }
        if s.starts_with("pmul.hr.sw") || s.starts_with("pmulh") {
            let hr = s.starts_with("pmul.hr");
            let c = if s.starts_with("pmulhu") { C::ZExt } else { C::SExt };
            return Ok(self.map2(&a[0], &a[1], &mut |e, x, y| {
                let p = e.cast1(c, 16, 32, x);
                let q = e.cast1(c, 16, 32, y);
                let mut m = e.bin1(B::Mul, 32, &p, &q);
                if hr {
                    m = e.bin1(B::AShr, 32, &m, &V::I(14));
                    m = e.bin1(B::Add, 32, &m, &V::I(1));
                    m = e.bin1(B::AShr, 32, &m, &V::I(1));
                } else {
                    m = e.bin1(B::LShr, 32, &m, &V::I(16));
                }
                e.cast1(C::Trunc, 32, 16, &m)
            }));
        }
        // immediate / uniform shifts
        for (pre, bop) in [("psll", B::Shl), ("psrl", B::LShr), ("psra", B::AShr)] {
            if s.starts_with(pre) && !s.contains("v.") && !s.contains("dq") {
                let imm = s[pre.len()..].starts_with("i.");
                let cnt = if imm {
                    a[1].conc()
                } else {
                    // low 64 bits of the count vector
                    let v = self.lanes(&a[1]);
                    let cw = elem_w(&tys[1]);
                    let k = (64 / cw) as usize;
                    let mut t = 0u128;
                    let mut ok = true;
                    for i in 0..k {
                        match v[i].conc() {
                            Some(x) => t |= x << (i as u16 * cw),
                            None => ok = false,
                        }
                    }
                    if ok {
                        Some(t)
                    } else {
                        None
                    }
                };
                let cnt = match cnt {
                    Some(c) => c.min(rw as u128),
                    None => return Err(Ctl::Unsupported(format!("x86.{} symbolic count", name))),
                };
                let k = V::of(cnt, rw);
                return Ok(self.map1(&a[0], &mut |e, x| e.bin1(bop, rw, x, &k)));
            }
        }
        if s.starts_with("pmovmskb") || s.starts_with("movmsk") {
            let x = self.lanes(&a[0]);
            let ew = elem_w(&tys[0]);
            let mut acc = V::of(0, 32);
            for (i, v) in x.iter().enumerate() {
                let t = self.bin1(B::LShr, ew, v, &V::of(ew as u128 - 1, ew));
                let t = if ew <= 32 { self.cast1(C::ZExt, ew, 32, &t) } else { self.cast1(C::Trunc, ew, 32, &t) };
                let t = self.bin1(B::Shl, 32, &t, &V::I(i as u64));
                acc = self.bin1(B::Or, 32, &acc, &t);
            }
            return Ok(acc);
        }
        if s.starts_with("pblendvb") {
            let (x, y, m) = (self.lanes(&a[0]), self.lanes(&a[1]), self.lanes(&a[2]));
            let mut out = vec![];
            for i in 0..x.len() {
                let c = self.icmp1(P::Slt, 8, &m[i], &V::I(0));
                let r = self.sel(&c, 8, &y[i], &x[i]);
                out.push(r);
            }
            return Ok(V::A(Rc::new(out)));
        }
        if s.starts_with("permd") || s.starts_with("permps") {
            let (x, m) = (self.lanes(&a[0]), self.lanes(&a[1]));
            let mut out = vec![];
            for i in 0..x.len() {
                match m[i].conc() {
                    Some(k) => out.push(x[(k & 7) as usize].clone()),
                    None => return Err(Ctl::Unsupported("permd".into())),
                }
            }
            return Ok(V::A(Rc::new(out)));
        }
        if s.starts_with("cvtps2dq") {
            return Ok(self.map1(&a[0], &mut |e, x| e.fround_to(32, x, 32)));
        }
        if s.starts_with("cvttps2dq") || s == "cvttss2si" {
            return Ok(self.map1(&a[0], &mut |e, x| e.cvtt(32, x, 32)));
        }
        if s.starts_with("min.ps") || s.starts_with("max.ps") {
            let mn = s.starts_with("min");
            return Ok(self.map2(&a[0], &a[1], &mut |e, x, y| {
                let c = if mn { e.fcmp1("olt", 32, x, y) } else { e.fcmp1("ogt", 32, x, y) };
                e.sel(&c, 32, x, y)
            }));
        }
        if s.starts_with("ptest") {
            let (x, y) = (self.lanes(&a[0]), self.lanes(&a[1]));
            let mut z = V::I(1);
            let mut c = V::I(1);
            for i in 0..x.len() {
                let p = self.bin1(B::And, 64, &x[i], &y[i]);
                let e = self.icmp1(P::Eq, 64, &p, &V::I(0));
                z = self.bin1(B::And, 1, &z, &e);
                let nx = self.bin1(B::Xor, 64, &x[i], &V::I(u64::MAX));
                let p = self.bin1(B::And, 64, &nx, &y[i]);
                let e = self.icmp1(P::Eq, 64, &p, &V::I(0));
                c = self.bin1(B::And, 1, &c, &e);
            }
            let r = if s.starts_with("ptestz") { z } else if s.starts_with("ptestc") { c } else { return Err(Ctl::Unsupported(s.into())) };
            return Ok(self.cast1(C::ZExt, 1, 32, &r));
        }
        if s == "pause" {
            return Ok(V::I(0));
        }
        Err(Ctl::Unsupported(format!("llvm.x86.{}", name)))
    }
}
