//! Hash-consed bit-vector / IEEE-754 expression DAG with constant folding,
//! known-bits and unsigned-interval analysis.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Ex = u32; // 0 == none

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    None,
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,  // a = high, b = low
    Extract, // aux = low bit
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    // floating point on the raw bits, format from the width (32 / 64)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FSqrt,
    Fma,
    FEq,
    FLt,
    FLe,
    FNan,   // isnan
    FToSI,  // aux: 0 plain, 1 saturating
    FToUI,
    SIToF,
    UIToF,
    FExt,
    FTrunc,
    FRound, // aux: 0 floor 1 ceil 2 trunc 3 rint(ties even) 4 round (away)
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    pub aux: u128,
}

#[derive(Clone, Copy)]
pub struct Info {
    pub lo: u128,
    pub hi: u128,
    pub kz: u128, // known zero
    pub ko: u128, // known one
    pub vars: u32,
    pub fp: bool, // contains floating-point operations
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    cons: FxMap<Node, Ex>,
    pub var_names: Vec<(String, u16)>,
    var_ex: Vec<Ex>,
    var_ids: FxMap<(usize, u16), usize>,
    // var sets
    pub sets: Vec<Vec<u32>>,
    set_ids: HashMap<Vec<u32>, u32>,
    union_cache: FxMap<(u32, u32), u32>,
    // eval memo
    stamp: Vec<u32>,
    memo: Vec<u128>,
    gen: u32,
}

impl Arena {
    pub fn new() -> Self {
        let none = Node { op: None, w: 0, a: 0, b: 0, c: 0, aux: 0 };
        let mut set_ids = HashMap::new();
        set_ids.insert(vec![], 0);
        Arena {
            nodes: vec![none],
            info: vec![Info { lo: 0, hi: 0, kz: 0, ko: 0, vars: 0, fp: false }],
            cons: FxMap::default(),
            var_names: vec![],
            var_ex: vec![],
            var_ids: FxMap::default(),
            sets: vec![vec![]],
            set_ids,
            union_cache: FxMap::default(),
            stamp: vec![],
            memo: vec![],
            gen: 0,
        }
    }
    #[inline]
    pub fn n(&self, e: Ex) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    /// readable form of an expression down to some depth (tracing)
    pub fn show(&self, e: Ex, d: usize) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}", n.aux),
            Op::Var => format!("v{}:{}", n.aux, n.w),
            _ if d == 0 => format!("#{}:{}", e, n.w),
            _ => {
                let mut s = format!("({:?}.{}", n.op, n.w);
                if n.aux != 0 {
                    s += &format!("@{}", n.aux);
                }
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s += " ";
                        s += &self.show(x, d - 1);
                    }
                }
                s + ")"
            }
        }
    }
    pub fn w(&self, e: Ex) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn cval(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Const {
            Some(n.aux)
        } else {
            Option::None
        }
    }
    pub fn is_true(&self, e: Ex) -> bool {
        self.cval(e) == Some(1)
    }
    pub fn is_false(&self, e: Ex) -> bool {
        self.cval(e) == Some(0)
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.union_cache.get(&k) {
            return r;
        }
        let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                v.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j] < x[i] {
                v.push(y[j]);
                j += 1;
            } else {
                v.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let id = match self.set_ids.get(&v) {
            Some(&i) => i,
            Option::None => {
                let i = self.sets.len() as u32;
                self.sets.push(v.clone());
                self.set_ids.insert(v, i);
                i
            }
        };
        self.union_cache.insert(k, id);
        id
    }
    fn mk(&mut self, op: Op, w: u16, a: Ex, b: Ex, c: Ex, aux: u128) -> Ex {
        let n = Node { op, w, a, b, c, aux };
        if let Some(&e) = self.cons.get(&n) {
            return e;
        }
        let info = self.analyse(&n);
        // a value pinned by the analysis is a constant
        if op != Const && info.lo == info.hi {
            let v = info.lo;
            return self.konst(v, w);
        }
        let m = mask(w);
        if op != Const && (info.kz | info.ko) & m == m {
            return self.konst(info.ko, w);
        }
        let e = self.nodes.len() as Ex;
        self.nodes.push(n);
        self.info.push(info);
        self.cons.insert(n, e);
        e
    }
    pub fn konst(&mut self, v: u128, w: u16) -> Ex {
        self.mk(Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn tru(&mut self) -> Ex {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> Ex {
        self.konst(0, 1)
    }
    pub fn var_expr(&self, id: usize) -> Ex {
        self.var_ex[id]
    }
    pub fn var_count(&self) -> usize {
        self.var_ex.len()
    }
    /// n-th symbolic input (index = creation order along the path); re-used across paths.
    pub fn var(&mut self, idx: usize, w: u16) -> Ex {
        if let Some(p) = self.var_ids.get(&(idx, w)) {
            return self.var_ex[*p];
        }
        let id = self.var_names.len();
        self.var_ids.insert((idx, w), id);
        self.var_names.push((format!("v{}_{}", idx, w), w));
        let e = self.mk(Var, w, 0, 0, 0, id as u128);
        self.var_ex.push(e);
        e
    }

    fn analyse(&mut self, n: &Node) -> Info {
        let m = mask(n.w);
        let vars = match n.op {
            Const => 0,
            Var => {
                let v = vec![n.aux as u32];
                match self.set_ids.get(&v) {
                    Some(&i) => i,
                    Option::None => {
                        let i = self.sets.len() as u32;
                        self.sets.push(v.clone());
                        self.set_ids.insert(v, i);
                        i
                    }
                }
            }
            _ => {
                let mut s = self.info[n.a as usize].vars;
                if n.b != 0 {
                    s = self.union(s, self.info[n.b as usize].vars);
                }
                if n.c != 0 {
                    s = self.union(s, self.info[n.c as usize].vars);
                }
                s
            }
        };
        let (mut lo, mut hi, mut kz, mut ko) = (0u128, m, 0u128, 0u128);
        let ia = self.info[n.a as usize];
        let ib = self.info[n.b as usize];
        let ic = self.info[n.c as usize];
        match n.op {
            Const => {
                lo = n.aux;
                hi = n.aux;
                ko = n.aux;
                kz = !n.aux & m;
            }
            And => {
                kz = (ia.kz | ib.kz) & m;
                ko = ia.ko & ib.ko;
                hi = ia.hi.min(ib.hi);
            }
            Or => {
                kz = ia.kz & ib.kz;
                ko = ia.ko | ib.ko;
                lo = ia.lo.max(ib.lo);
            }
            Xor => {
                kz = (ia.kz & ib.kz) | (ia.ko & ib.ko);
                ko = (ia.kz & ib.ko) | (ia.ko & ib.kz);
            }
            Add => {
                let (l, o1) = ia.lo.overflowing_add(ib.lo);
                let (h, o2) = ia.hi.overflowing_add(ib.hi);
                if !o1 && !o2 && h <= m {
                    lo = l;
                    hi = h;
                } else if n.w < 128 && !o1 && !o2 && l > m {
                    // both wrap
                    lo = l & m;
                    hi = h & m;
                    if lo > hi {
                        lo = 0;
                        hi = m;
                    }
                }
                let tz = (!(ia.kz)).trailing_zeros().min((!(ib.kz)).trailing_zeros());
                if tz > 0 && tz < 128 {
                    kz |= mask(tz as u16) & m;
                }
            }
            Sub => {
                if ia.lo >= ib.hi {
                    lo = ia.lo - ib.hi;
                    hi = ia.hi - ib.lo;
                }
                let tz = (!(ia.kz)).trailing_zeros().min((!(ib.kz)).trailing_zeros());
                if tz > 0 && tz < 128 {
                    kz |= mask(tz as u16) & m;
                }
            }
            Mul => {
                if let (Some(l), Some(h)) = (ia.lo.checked_mul(ib.lo), ia.hi.checked_mul(ib.hi)) {
                    if h <= m {
                        lo = l;
                        hi = h;
                    }
                }
                let tz = (!(ia.kz)).trailing_zeros() + (!(ib.kz)).trailing_zeros();
                if tz > 0 {
                    kz |= mask(tz.min(127) as u16) & m;
                }
            }
            UDiv => {
                if ib.lo > 0 {
                    lo = ia.lo / ib.hi;
                    hi = ia.hi / ib.lo;
                }
            }
            URem => {
                if ib.lo > 0 {
                    hi = ia.hi.min(ib.hi - 1);
                }
            }
            Shl => {
                if let Some(s) = self.cval(n.b) {
                    let s = s as u32;
                    if s < n.w as u32 {
                        kz = ((ia.kz << s) | mask(s as u16)) & m;
                        ko = (ia.ko << s) & m;
                    }
                } else {
                    let tz = (!(ia.kz)).trailing_zeros();
                    kz = mask(tz.min(127) as u16) & m;
                }
            }
            LShr => {
                hi = ia.hi;
                if ib.lo < 128 {
                    hi = ia.hi >> ib.lo;
                }
            }
            Concat => {
                let wb = self.w(n.b);
                kz = (ia.kz << wb) | ib.kz;
                ko = (ia.ko << wb) | ib.ko;
                lo = (ia.lo << wb) | ib.lo;
                hi = (ia.hi << wb) | ib.hi;
            }
            Extract => {
                let l = n.aux as u32;
                kz = (ia.kz >> l) & m;
                ko = (ia.ko >> l) & m;
                if ia.hi >> l <= m {
                    hi = ia.hi >> l;
                    lo = ia.lo >> l;
                }
            }
            ZExt => {
                kz = (ia.kz | !mask(self.w(n.a))) & m;
                ko = ia.ko;
                lo = ia.lo;
                hi = ia.hi;
            }
            SExt => {
                let wa = self.w(n.a);
                let sb = 1u128 << (wa - 1);
                kz = ia.kz & mask(wa - 1);
                ko = ia.ko & mask(wa - 1);
                if ia.kz & sb != 0 {
                    kz |= m & !mask(wa - 1);
                    lo = ia.lo;
                    hi = ia.hi;
                } else if ia.ko & sb != 0 {
                    ko |= m & !mask(wa - 1);
                }
            }
            Ite => {
                kz = ib.kz & ic.kz;
                ko = ib.ko & ic.ko;
                let (bl, bh) = self.under(n.b, n.a, true);
                let (cl, ch) = self.under(n.c, n.a, false);
                lo = bl.min(cl);
                hi = bh.max(ch);
            }
            _ => {}
        }
        // combine
        kz &= m;
        ko &= m;
        lo = lo.max(ko);
        hi = hi.min(m & !kz);
        if lo > hi {
            // only for infeasible combinations: fall back
            lo = 0;
            hi = m;
        }
        // leading zeros from hi
        if hi < m {
            let bits = 128 - hi.leading_zeros();
            kz |= m & !mask(bits as u16);
        }
        let fp = ia.fp
            || ib.fp
            || ic.fp
            || matches!(
                n.op,
                FAdd | FSub | FMul | FDiv | FRem | FSqrt | Fma | FEq | FLt | FLe | FNan | FToSI | FToUI | SIToF | UIToF
                    | FExt | FTrunc | FRound
            );
        Info { lo, hi, kz, ko, vars, fp }
    }

    /// bounds of the signed value
    pub fn srange(&self, e: Ex, d: u32) -> (i128, i128) {
        let w = self.w(e);
        if w > 64 {
            return (i128::MIN, i128::MAX);
        }
        let i = &self.info[e as usize];
        let top = mask(w - 1);
        let full = (-(top as i128) - 1, top as i128);
        if i.hi <= top || i.lo > top {
            return (sext(i.lo, w), sext(i.hi, w));
        }
        if d == 0 {
            return full;
        }
        let n = self.n(e);
        let r = match n.op {
            SExt => self.srange(n.a, d - 1),
            Add => {
                let (a, b) = (self.srange(n.a, d - 1), self.srange(n.b, d - 1));
                (a.0 + b.0, a.1 + b.1)
            }
            Sub => {
                let (a, b) = (self.srange(n.a, d - 1), self.srange(n.b, d - 1));
                (a.0 - b.1, a.1 - b.0)
            }
            Mul if self.cval(n.b).is_some() => {
                let k = sext(self.cval(n.b).unwrap(), w);
                let a = self.srange(n.a, d - 1);
                let (x, y) = (a.0 * k, a.1 * k);
                (x.min(y), x.max(y))
            }
            Ite => {
                let (a, b) = (self.srange(n.b, d - 1), self.srange(n.c, d - 1));
                (a.0.min(b.0), a.1.max(b.1))
            }
            AShr if self.cval(n.b).map_or(false, |k| k < w as u128) => {
                let k = self.cval(n.b).unwrap();
                let a = self.srange(n.a, d - 1);
                (a.0 >> k, a.1 >> k)
            }
            _ => full,
        };
        if r.0 < full.0 || r.1 > full.1 {
            full
        } else {
            r
        }
    }
    /// do the two hold the same signed value, whatever their widths?
    fn same_value(&self, a: Ex, b: Ex, d: u32) -> bool {
        if a == b {
            return true;
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Const && nb.op == Const {
            return sext(na.aux, na.w) == sext(nb.aux, nb.w);
        }
        let sa = if na.op == SExt { na.a } else { a };
        let sb = if nb.op == SExt { nb.a } else { b };
        if sa == sb {
            return true;
        }
        if na.op == ZExt && nb.op == ZExt {
            return na.a == nb.a;
        }
        d > 0
            && na.op == Ite
            && nb.op == Ite
            && na.a == nb.a
            && self.same_value(na.b, nb.b, d - 1)
            && self.same_value(na.c, nb.c, d - 1)
    }
    /// unsigned range of x given that condition c has the value pol
    fn under(&self, x: Ex, c: Ex, pol: bool) -> (u128, u128) {
        let i = &self.info[x as usize];
        let (mut lo, mut hi) = (i.lo, i.hi);
        let w = self.w(x);
        if w < 2 || lo == hi {
            return (lo, hi);
        }
        let top = mask(w - 1);
        // signed bounds, when the value is known to lie in one half
        let mut slo = if hi <= top { lo as i128 } else { -(top as i128) - 1 };
        let mut shi = if hi <= top { hi as i128 } else { top as i128 };
        let mut todo = [(c, pol); 8];
        let mut n = 1;
        let mut fuel = 12;
        while n > 0 && fuel > 0 {
            fuel -= 1;
            n -= 1;
            let (c, pol) = todo[n];
            let k = self.n(c);
            match k.op {
                Xor if self.cval(k.b) == Some(1) => {
                    todo[n] = (k.a, !pol);
                    n += 1;
                }
                And | Or if (k.op == And) == pol => {
                    for e in [k.a, k.b] {
                        if n < 8 {
                            todo[n] = (e, pol);
                            n += 1;
                        }
                    }
                }
                Ult | Ule | Slt | Sle => {
                    let left = self.same_value(k.a, x, 4);
                    if !left && !self.same_value(k.b, x, 4) {
                        continue;
                    }
                    let exact = k.a == x || k.b == x;
                    let o = &self.info[if left { k.b } else { k.a } as usize];
                    let cw = self.w(k.a);
                    // x < o, x <= o, or their mirror images after negation
                    let strict = matches!(k.op, Ult | Slt);
                    let (less, strict) = if pol { (left, strict) } else { (!left, !strict) };
                    if matches!(k.op, Ult | Ule) {
                        if exact && less {
                            hi = hi.min(if strict { o.hi.saturating_sub(1) } else { o.hi });
                        } else if exact {
                            lo = lo.max(if strict { o.lo.saturating_add(1) } else { o.lo });
                        } else if less && o.hi <= mask(cw - 1) {
                            slo = slo.max(0);
                            shi = shi.min(if strict { o.hi.saturating_sub(1) } else { o.hi } as i128);
                        }
                    } else if o.lo == o.hi {
                        let v = sext(o.lo, cw);
                        if less {
                            shi = shi.min(if strict { v - 1 } else { v });
                        } else {
                            slo = slo.max(if strict { v + 1 } else { v });
                        }
                    }
                }
                _ => {}
            }
        }
        if slo >= 0 && shi >= slo {
            lo = lo.max(slo as u128);
            hi = hi.min(shi as u128);
        }
        if lo > hi {
            // the branch cannot be taken: keep the plain range
            return (i.lo, i.hi);
        }
        (lo, hi)
    }

    // ---------------------------------------------------------------- builders
    pub fn not(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let m = self.konst(mask(w), w);
        self.xor(a, m)
    }
    /// linear decomposition of a sum (bounded)
    fn lin(&self, e: Ex, k: u128, t: &mut Vec<(Ex, u128)>, c: &mut u128) -> bool {
        let n = self.n(e);
        match n.op {
            Const => {
                *c = c.wrapping_add(n.aux.wrapping_mul(k));
                true
            }
            Add => self.lin(n.a, k, t, c) && self.lin(n.b, k, t, c),
            Sub => self.lin(n.a, k, t, c) && self.lin(n.b, k.wrapping_neg(), t, c),
            Mul if self.cval(n.b).is_some() => {
                let z = self.cval(n.b).unwrap();
                self.lin(n.a, k.wrapping_mul(z), t, c)
            }
            _ => {
                match t.iter_mut().find(|x| x.0 == e) {
                    Some(x) => x.1 = x.1.wrapping_add(k),
                    Option::None => t.push((e, k)),
                }
                t.len() <= 12
            }
        }
    }
    /// a + b (or a - b) when the two share a term: rebuild from the linear form
    fn lin_merge(&mut self, a: Ex, b: Ex, neg: bool) -> Option<Ex> {
        let w = self.w(a);
        if !matches!(self.n(a).op, Add | Sub | Mul) && !matches!(self.n(b).op, Add | Sub | Mul) {
            return Option::None;
        }
        let m = mask(w);
        let (mut ta, mut tb) = (vec![], vec![]);
        let mut c = 0;
        let one = 1u128;
        if !self.lin(a, one, &mut ta, &mut c) || !self.lin(b, if neg { one.wrapping_neg() } else { one }, &mut tb, &mut c) {
            return Option::None;
        }
        if !ta.iter().any(|x| tb.iter().any(|y| y.0 == x.0)) {
            return Option::None;
        }
        for (e, k) in tb {
            match ta.iter_mut().find(|x| x.0 == e) {
                Some(x) => x.1 = x.1.wrapping_add(k),
                Option::None => ta.push((e, k)),
            }
        }
        let mut pos = vec![];
        let mut negs = vec![];
        for (e, k) in ta {
            let k = k & m;
            if k == 0 {
                continue;
            }
            if k > m / 2 {
                negs.push((e, k.wrapping_neg() & m));
            } else {
                pos.push((e, k));
            }
        }
        pos.sort_unstable();
        negs.sort_unstable();
        let mut r = 0;
        for (e, k) in pos {
            let kk = self.konst(k, w);
            let t = self.mul(e, kk);
            r = if r == 0 { t } else { self.mk_add(r, t) };
        }
        let cc = self.konst(c, w);
        let mut c_used = false;
        if r == 0 {
            r = cc;
            c_used = true;
        }
        for (e, k) in negs {
            let kk = self.konst(k, w);
            let t = self.mul(e, kk);
            r = if self.cval(r) == Some(0) && false { t } else if r == t { self.konst(0, w) } else { self.mk(Sub, w, r, t, 0, 0) };
        }
        if !c_used && self.cval(cc) != Some(0) {
            r = self.mk_add(r, cc);
        }
        Some(r)
    }
    fn mk_add(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(x.wrapping_add(y), w);
        }
        if self.cval(a) == Some(0) {
            return b;
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        let (a, b) = if self.cval(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Add, w, a, b, 0, 0)
    }
    pub fn add(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => return self.konst(x.wrapping_add(y), w),
            (Some(_), Option::None) => return self.add(b, a),
            (Option::None, Some(0)) => return a,
            (Option::None, Some(y)) => {
                let n = *self.n(a);
                if n.op == Add {
                    if let Some(z) = self.cval(n.b) {
                        let k = self.konst(y.wrapping_add(z), w);
                        return self.add(n.a, k);
                    }
                }
                if n.op == Sub {
                    if let Some(z) = self.cval(n.a) {
                        let k = self.konst(y.wrapping_add(z), w);
                        return self.sub(k, n.b);
                    }
                }
                if n.op == Ite {
                    if let (Some(p), Some(q)) = (self.cval(n.b), self.cval(n.c)) {
                        let p = self.konst(p.wrapping_add(y), w);
                        let q = self.konst(q.wrapping_add(y), w);
                        return self.ite(n.a, p, q);
                    }
                }
                // zext(x + k1) + y  kept as is
            }
            _ => {
                if w == 1 {
                    return self.xor(a, b);
                }
                if let Some(r) = self.lin_merge(a, b, false) {
                    return r;
                }
                let (na, nb) = (*self.n(a), *self.n(b));
                if na.op == Sub && na.b == b {
                    return na.a;
                }
                if nb.op == Sub && nb.b == a {
                    return nb.a;
                }
                if na.op == Add && self.cval(na.b).is_some() {
                    let s = self.add(na.a, b);
                    return self.add(s, na.b);
                }
                if nb.op == Add && self.cval(nb.b).is_some() {
                    let s = self.add(a, nb.a);
                    return self.add(s, nb.b);
                }
            }
        }
        // disjoint bits -> or
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        let m = mask(w);
        if (!ia.kz & !ib.kz & m) == 0 {
            return self.or(a, b);
        }
        let (a, b) = if self.cval(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        if let Some(y) = self.cval(b) {
            let k = self.konst((!y).wrapping_add(1), w);
            return self.add(a, k);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(r) = self.lin_merge(a, b, true) {
            return r;
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if na.op == Add && self.cval(na.b).is_some() {
            let s = self.sub(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Add {
            if let Some(k) = self.cval(nb.b) {
                let s = self.sub(a, nb.a);
                let k = self.konst((!k).wrapping_add(1), w);
                return self.add(s, k);
            }
        }
        if nb.op == Sub && nb.a == a {
            return nb.b;
        }
        self.mk(Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => return self.konst(x.wrapping_mul(y), w),
            (Some(_), Option::None) => return self.mul(b, a),
            (Option::None, Some(0)) => return b,
            (Option::None, Some(1)) => return a,
            (Option::None, Some(y)) => {
                if y.is_power_of_two() {
                    let k = self.konst(y.trailing_zeros() as u128, w);
                    return self.shl(a, k);
                }
                let n = *self.n(a);
                if n.op == Mul {
                    if let Some(z) = self.cval(n.b) {
                        let k = self.konst(y.wrapping_mul(z), w);
                        return self.mul(n.a, k);
                    }
                }
                if n.op == Add {
                    if let Some(z) = self.cval(n.b) {
                        let k2 = self.konst(y.wrapping_mul(z), w);
                        let p = self.mul(n.a, b);
                        return self.add(p, k2);
                    }
                }
            }
            _ => {
                if w == 1 {
                    return self.and(a, b);
                }
            }
        }
        let (a, b) = if self.cval(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Mul, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y == 0 {
                return self.konst(mask(w), w);
            }
            if let Some(x) = self.cval(a) {
                return self.konst(x / y, w);
            }
            if y.is_power_of_two() {
                let k = self.konst(y.trailing_zeros() as u128, w);
                return self.lshr(a, k);
            }
        }
        self.mk(UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(y) = self.cval(b) {
            if y == 0 {
                return a;
            }
            if let Some(x) = self.cval(a) {
                return self.konst(x % y, w);
            }
            if y.is_power_of_two() {
                let k = self.konst(y - 1, w);
                return self.and(a, k);
            }
            if self.info[a as usize].hi < y {
                return a;
            }
        }
        self.mk(URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                let r = sext(x, w).wrapping_div(sext(y, w));
                return self.konst(r as u128, w);
            }
        }
        let sb = 1u128 << (w - 1);
        if self.info[a as usize].kz & sb != 0 && self.info[b as usize].kz & sb != 0 {
            return self.udiv(a, b);
        }
        self.mk(SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                let r = sext(x, w).wrapping_rem(sext(y, w));
                return self.konst(r as u128, w);
            }
        }
        let sb = 1u128 << (w - 1);
        if self.info[a as usize].kz & sb != 0 && self.info[b as usize].kz & sb != 0 {
            return self.urem(a, b);
        }
        self.mk(SRem, w, a, b, 0, 0)
    }
    pub fn and(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => return self.konst(x & y, w),
            (Some(_), Option::None) => return self.and(b, a),
            (Option::None, Some(y)) => {
                let m = mask(w);
                if y == 0 {
                    return b;
                }
                let ia = self.info[a as usize];
                // mask keeps every possibly-set bit
                if (!ia.kz & m) & !y == 0 {
                    return a;
                }
                let y2 = y & !ia.kz & m;
                if y2 == 0 {
                    return self.konst(0, w);
                }
                let n = *self.n(a);
                if n.op == And {
                    if let Some(z) = self.cval(n.b) {
                        let k = self.konst(y & z, w);
                        return self.and(n.a, k);
                    }
                }
                if w > 1 {
                    // contiguous mask -> zext(extract) << lo
                    let lo = y2.trailing_zeros() as u16;
                    let hib = 128 - y2.leading_zeros() as u16;
                    // widen the mask over known-zero bits
                    let cont = mask(hib) & !mask(lo);
                    if (y2 | (ia.kz & cont)) & cont == cont {
                        let x = self.extract(a, lo, hib - lo);
                        let mut r = x;
                        if lo > 0 {
                            let z = self.konst(0, lo);
                            r = self.concat(r, z);
                        }
                        return self.zext(r, w);
                    }
                    // non contiguous: split on halves when structured
                    if matches!(n.op, Concat | ZExt) && self.split_ok(a, b) {
                        return self.bitwise_split(And, a, b);
                    }
                }
            }
            _ => {
                if w == 1 {
                    // and(a, not a)
                    if self.is_not_of(a, b) {
                        return self.fls();
                    }
                    // absorb
                    let (na, nb) = (*self.n(a), *self.n(b));
                    if na.op == And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                }
                let (na, nb) = (self.n(a).op, self.n(b).op);
                if w > 8 && matches!(na, Concat | ZExt) && matches!(nb, Concat | ZExt) && self.split_ok(a, b) {
                    return self.bitwise_split(And, a, b);
                }
            }
        }
        let (a, b) = if self.cval(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(And, w, a, b, 0, 0)
    }
    fn is_not_of(&self, a: Ex, b: Ex) -> bool {
        let (na, nb) = (self.n(a), self.n(b));
        (na.op == Xor && na.a == b && self.cval(na.b) == Some(mask(na.w)))
            || (nb.op == Xor && nb.a == a && self.cval(nb.b) == Some(mask(nb.w)))
    }
    /// boundary at which splitting a bitwise operation pays off
    fn split_ok(&self, a: Ex, b: Ex) -> bool {
        let (na, nb) = (*self.n(a), *self.n(b));
        let piece = |s: &Self, n: &Node| -> Option<(u16, bool)> {
            match n.op {
                Concat => Some((s.w(n.b), s.cval(n.a).is_some() || s.cval(n.b).is_some())),
                ZExt => Some((s.w(n.a), true)),
                _ => Option::None,
            }
        };
        let (k, c) = match piece(self, &na) {
            Some(x) => x,
            Option::None => match piece(self, &nb) {
                Some(x) => x,
                Option::None => return false,
            },
        };
        if c || (k % 8 == 0 && na.w % 8 == 0) {
            return true;
        }
        // constant on the other side in one of the halves
        let i = self.info[b as usize];
        let kn = i.kz | i.ko;
        let lo = mask(k);
        let hi = mask(na.w) & !lo;
        kn & lo == lo || kn & hi == hi
    }
    fn bitwise_split(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        // split at a's (or b's) concat/zext boundary
        let (na, nb) = (*self.n(a), *self.n(b));
        let k = match na.op {
            Concat => self.w(na.b),
            ZExt => self.w(na.a),
            _ => match nb.op {
                Concat => self.w(nb.b),
                ZExt => self.w(nb.a),
                _ => unreachable!(),
            },
        };
        let w = na.w;
        let (al, ah) = (self.extract(a, 0, k), self.extract(a, k, w - k));
        let (bl, bh) = (self.extract(b, 0, k), self.extract(b, k, w - k));
        let (l, h) = match op {
            And => (self.and(al, bl), self.and(ah, bh)),
            Or => (self.or(al, bl), self.or(ah, bh)),
            _ => (self.xor(al, bl), self.xor(ah, bh)),
        };
        self.concat(h, l)
    }
    pub fn or(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => return self.konst(x | y, w),
            (Some(_), Option::None) => return self.or(b, a),
            (Option::None, Some(0)) => return a,
            (Option::None, Some(y)) if y == mask(w) => return b,
            _ => {}
        }
        if w == 1 {
            if self.is_not_of(a, b) {
                return self.tru();
            }
        } else {
            let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
            let m = mask(w);
            let (pa, pb) = (!ia.kz & m, !ib.kz & m);
            if pa & pb == 0 && pa != 0 && pb != 0 {
                // low part a, high part b (or the other way round)
                let (l, h, pl, ph) =
                    if pa.trailing_zeros() < pb.trailing_zeros() { (a, b, pa, pb) } else { (b, a, pb, pa) };
                let top = 128 - pl.leading_zeros() as u16;
                if ph.trailing_zeros() as u16 >= top {
                    let k = ph.trailing_zeros() as u16;
                    let lo = self.extract(l, 0, k);
                    let hi = self.extract(h, k, w - k);
                    return self.concat(hi, lo);
                }
            }
            let (na, nb) = (self.n(a).op, self.n(b).op);
            if matches!(na, Concat | ZExt) && (matches!(nb, Concat | ZExt) || self.cval(b).is_some()) && self.split_ok(a, b) {
                return self.bitwise_split(Or, a, b);
            }
        }
        let (a, b) = if self.cval(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => return self.konst(x ^ y, w),
            (Some(_), Option::None) => return self.xor(b, a),
            (Option::None, Some(0)) => return a,
            (Option::None, Some(y)) => {
                let n = *self.n(a);
                if n.op == Xor {
                    if let Some(z) = self.cval(n.b) {
                        let k = self.konst(y ^ z, w);
                        return self.xor(n.a, k);
                    }
                }
                if w == 1 {
                    // not
                    match n.op {
                        Ult => return self.ule(n.b, n.a),
                        Ule => return self.ult(n.b, n.a),
                        Slt => return self.sle(n.b, n.a),
                        Sle => return self.slt(n.b, n.a),
                        _ => {}
                    }
                }
                if matches!(n.op, Concat | ZExt) && self.split_ok(a, b) {
                    return self.bitwise_split(Xor, a, b);
                }
            }
            _ => {
                let (na, nb) = (self.n(a).op, self.n(b).op);
                if w > 1 && matches!(na, Concat | ZExt) && matches!(nb, Concat | ZExt) && self.split_ok(a, b) {
                    return self.bitwise_split(Xor, a, b);
                }
            }
        }
        let (a, b) = if self.cval(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Xor, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.konst(0, w);
            }
            let s = s as u16;
            let x = self.extract(a, 0, w - s);
            let z = self.konst(0, s);
            return self.concat(x, z);
        }
        if self.cval(a) == Some(0) {
            return a;
        }
        self.mk(Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.konst(0, w);
            }
            let s = s as u16;
            let x = self.extract(a, s, w - s);
            return self.zext(x, w);
        }
        if self.cval(a) == Some(0) {
            return a;
        }
        self.mk(LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s == 0 {
                return a;
            }
            let s = s.min(w as u128 - 1) as u16;
            let x = self.extract(a, s, w - s);
            return self.sext(x, w);
        }
        if self.info[a as usize].kz >> (w - 1) & 1 == 1 {
            return self.lshr(a, b);
        }
        self.mk(AShr, w, a, b, 0, 0)
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cval(h), self.cval(l)) {
            return self.konst((x << wl) | y, w);
        }
        if self.cval(h) == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (*self.n(h), *self.n(l));
        if nh.op == ZExt {
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        if nh.op == SExt {
            let x = self.concat(nh.a, l);
            return self.sext(x, w);
        }
        // extract adjacency
        let (hb, hlo) = if nh.op == Extract { (nh.a, nh.aux as u16) } else { (h, 0) };
        if nl.op == Extract && nl.a == hb && nl.aux as u16 + wl == hlo {
            return self.extract(hb, nl.aux as u16, w);
        }
        // l = concat(x, y): try merging h with x
        if nl.op == Concat {
            let nx = *self.n(nl.a);
            if nx.op == Extract && nx.a == hb && nx.aux as u16 + nx.w == hlo {
                let m = self.extract(hb, nx.aux as u16, wh + nx.w);
                return self.concat(m, nl.b);
            }
            if self.cval(h).is_some() && nx.op == Const {
                let m = self.concat(h, nl.a);
                return self.concat(m, nl.b);
            }
        }
        if nh.op == Concat {
            // right-associate for canonical form
            let x = self.concat(nh.b, l);
            return self.concat(nh.a, x);
        }
        self.mk(Concat, w, h, l, 0, 0)
    }
    pub fn extract(&mut self, a: Ex, lo: u16, w: u16) -> Ex {
        let n = *self.n(a);
        debug_assert!(lo + w <= n.w, "extract {} {} of {}", lo, w, n.w);
        if lo == 0 && w == n.w {
            return a;
        }
        let m = mask(w);
        let ia = self.info[a as usize];
        if ((ia.kz | ia.ko) >> lo) & m == m {
            return self.konst(ia.ko >> lo, w);
        }
        match n.op {
            Const => return self.konst(n.aux >> lo, w),
            Extract => return self.extract(n.a, n.aux as u16 + lo, w),
            Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, lo + w - wb);
                return self.concat(h, l);
            }
            ZExt => {
                let wa = self.w(n.a);
                if lo >= wa {
                    return self.konst(0, w);
                }
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wa - lo);
                return self.zext(x, w);
            }
            SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                if lo < wa {
                    let x = self.extract(n.a, lo, wa - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, wa - 1, 1);
                return self.sext(x, w);
            }
            And | Or | Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    And => self.and(x, y),
                    Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Add | Sub | Mul if lo == 0 && (w >= 8 || w == 1) => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Add => self.add(x, y),
                    Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Extract, w, a, 0, 0, lo as u128)
    }
    pub fn zext(&mut self, a: Ex, w: u16) -> Ex {
        let n = *self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Const => return self.konst(n.aux, w),
            ZExt => return self.zext(n.a, w),
            Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.zext(n.b, w);
                    let y = self.zext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: Ex, w: u16) -> Ex {
        let n = *self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Const => return self.konst(sext(n.aux, n.w) as u128, w),
            SExt => return self.sext(n.a, w),
            ZExt => return self.zext(n.a, w),
            Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.sext(n.b, w);
                    let y = self.sext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        if self.info[a as usize].kz >> (n.w - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        self.mk(SExt, w, a, 0, 0, 0)
    }
    pub fn trunc(&mut self, a: Ex, w: u16) -> Ex {
        self.extract(a, 0, w)
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if a == b {
            return a;
        }
        match self.cval(c) {
            Some(1) => return a,
            Some(_) => return b,
            Option::None => {}
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = *self.n(c);
        if nc.op == Xor && self.cval(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let x = self.not(c);
                    return self.and(x, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let x = self.not(c);
                    return self.or(x, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Ite && nb.b == a {
            let d = self.or(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        if na.op == Ite && na.c == b {
            let d = self.and(c, na.a);
            return self.ite(d, na.b, b);
        }
        self.mk(Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => return self.konst((x == y) as u128, 1),
            (Some(_), Option::None) => return self.eq(b, a),
            (Option::None, Some(y)) => {
                if w == 1 {
                    return if y == 1 { a } else { self.not(a) };
                }
                let ia = self.info[a as usize];
                if y < ia.lo || y > ia.hi || (y & ia.kz) != 0 || (!y & ia.ko) != 0 {
                    return self.fls();
                }
                let n = *self.n(a);
                match n.op {
                    ZExt => {
                        let k = self.konst(y, self.w(n.a));
                        return self.eq(n.a, k);
                    }
                    SExt => {
                        let wa = self.w(n.a);
                        if sext(y & mask(wa), wa) as u128 & mask(w) != y {
                            return self.fls();
                        }
                        let k = self.konst(y, wa);
                        return self.eq(n.a, k);
                    }
                    Concat => {
                        let wb = self.w(n.b);
                        let kh = self.konst(y >> wb, w - wb);
                        let kl = self.konst(y, wb);
                        let e1 = self.eq(n.a, kh);
                        let e2 = self.eq(n.b, kl);
                        return self.and(e1, e2);
                    }
                    Add => {
                        if let Some(z) = self.cval(n.b) {
                            let k = self.konst(y.wrapping_sub(z), w);
                            return self.eq(n.a, k);
                        }
                    }
                    Sub => {
                        if let Some(z) = self.cval(n.a) {
                            let k = self.konst(z.wrapping_sub(y), w);
                            return self.eq(n.b, k);
                        }
                    }
                    Xor => {
                        if let Some(z) = self.cval(n.b) {
                            let k = self.konst(y ^ z, w);
                            return self.eq(n.a, k);
                        }
                    }
                    Ite => {
                        // push into ite when a leaf is constant
                        if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                            let x = self.eq(n.b, b);
                            let z = self.eq(n.c, b);
                            return self.ite(n.a, x, z);
                        }
                    }
                    _ => {}
                }
            }
            _ => {
                let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
                if ia.hi < ib.lo || ib.hi < ia.lo || (ia.ko & ib.kz) != 0 || (ia.kz & ib.ko) != 0 {
                    return self.fls();
                }
                let (na, nb) = (*self.n(a), *self.n(b));
                if na.op == ZExt && nb.op == ZExt {
                    let wm = self.w(na.a).max(self.w(nb.a));
                    let x = self.zext(na.a, wm);
                    let y = self.zext(nb.a, wm);
                    if wm < w {
                        return self.eq(x, y);
                    }
                }
                if na.op == SExt && nb.op == SExt && self.w(na.a) == self.w(nb.a) {
                    return self.eq(na.a, nb.a);
                }
                if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                    let e1 = self.eq(na.a, nb.a);
                    let e2 = self.eq(na.b, nb.b);
                    return self.and(e1, e2);
                }
                if na.op == Add && nb.op == Add && na.b == nb.b {
                    return self.eq(na.a, nb.a);
                }
            }
        }
        let (a, b) = if self.cval(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Eq, 1, a, b, 0, 0)
    }
    pub fn ne(&mut self, a: Ex, b: Ex) -> Ex {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.fls();
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.hi < ib.lo {
            return self.tru();
        }
        if ia.lo >= ib.hi {
            return self.fls();
        }
        if let Some(1) = self.cval(b) {
            let z = self.konst(0, self.w(a));
            return self.eq(a, z);
        }
        if let (Some(y), true) = (self.cval(b), ia.hi == self.cval(b).unwrap_or(0)) {
            // a < max(a)  <=> a != max
            let k = self.konst(y, self.w(a));
            return self.ne(a, k);
        }
        if self.cval(a) == Some(0) {
            return self.ne(b, a);
        }
        if let Some((x, y)) = self.cancel(a, b) {
            return self.ult(x, y);
        }
        if let Some(r) = self.cmp_narrow(Ult, a, b) {
            return r;
        }
        self.mk(Ult, 1, a, b, 0, 0)
    }
    /// a sum that cannot wrap: coefficients of its zero-extended terms, and its constant
    fn summands(&self, e: Ex) -> Option<(std::collections::BTreeMap<Ex, u128>, u128)> {
        let w = self.w(e);
        if w >= 100 {
            return Option::None;
        }
        let mut ls = std::collections::BTreeMap::new();
        let (mut k, mut fuel) = (0u128, 4000);
        let mut todo = vec![(e, 1u128)];
        while let Some((x, c)) = todo.pop() {
            fuel -= 1;
            if fuel == 0 {
                return Option::None;
            }
            let n = *self.n(x);
            let m = mask(n.w);
            let hi = |y: Ex| self.info[y as usize].hi;
            if let Some(v) = self.cval(x) {
                k = k.checked_add(v.checked_mul(c)?)?;
                continue;
            }
            match n.op {
                Add if hi(n.a) + hi(n.b) <= m => {
                    todo.push((n.a, c));
                    todo.push((n.b, c));
                    continue;
                }
                ZExt => {
                    todo.push((n.a, c));
                    continue;
                }
                Mul => {
                    if let Some(v) = self.cval(n.b) {
                        if hi(n.a).checked_mul(v)? <= m {
                            todo.push((n.a, c.checked_mul(v)?));
                            continue;
                        }
                    }
                }
                Shl => {
                    if let Some(v) = self.cval(n.b) {
                        if v < 64 && hi(n.a).checked_mul(1 << v)? <= m {
                            todo.push((n.a, c.checked_mul(1 << v)?));
                            continue;
                        }
                    }
                }
                Concat => {
                    if self.cval(n.b) == Some(0) && self.w(n.b) < 64 {
                        todo.push((n.a, c.checked_mul(1 << self.w(n.b))?));
                        continue;
                    }
                    if self.cval(n.a) == Some(0) {
                        todo.push((n.b, c));
                        continue;
                    }
                }
                _ => {}
            }
            let t = ls.entry(x).or_insert(0u128);
            *t = t.checked_add(c)?;
            if ls.len() > 300 {
                return Option::None;
            }
        }
        let mut top = k;
        for (x, c) in &ls {
            top = top.checked_add(self.info[*x as usize].hi.checked_mul(*c)?)?;
        }
        if top > mask(w) {
            return Option::None;
        }
        Some((ls, k))
    }
    /// drop what two compared sums share
    fn cancel(&mut self, a: Ex, b: Ex) -> Option<(Ex, Ex)> {
        if self.n(a).op != Add && self.n(b).op != Add {
            return Option::None;
        }
        let (la, ka) = self.summands(a)?;
        let (lb, kb) = self.summands(b)?;
        let k = ka.min(kb);
        let mut shared = k > 0;
        let (mut ra, mut rb) = (vec![], vec![]);
        for (x, c) in &la {
            let d = lb.get(x).copied().unwrap_or(0);
            shared |= d > 0;
            if *c > d {
                ra.push((*x, c - d));
            }
        }
        for (x, c) in &lb {
            let d = la.get(x).copied().unwrap_or(0);
            if *c > d {
                rb.push((*x, c - d));
            }
        }
        if !shared {
            return Option::None;
        }
        let w = self.w(a);
        let mut sum = |v: Vec<(Ex, u128)>, c: u128| {
            let mut r = self.konst(c, w);
            for (x, c) in v {
                let x = self.zext(x, w);
                let c = self.konst(c, w);
                let t = self.mul(x, c);
                r = self.add(r, t);
            }
            r
        };
        let x = sum(ra, ka - k);
        let y = sum(rb, kb - k);
        if x == a && y == b {
            return Option::None;
        }
        Some((x, y))
    }
    fn cmp_narrow(&mut self, op: Op, a: Ex, b: Ex) -> Option<Ex> {
        let w = self.w(a);
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        let need = |h: u128| (128 - h.leading_zeros() as u16).max(1);
        let k = need(ia.hi).max(need(ib.hi));
        let z = |s: &Self, e: Ex| s.n(e).op == ZExt || s.n(e).op == Const;
        if k < w && z(self, a) && z(self, b) {
            let k = {
                let f = |s: &Self, e: Ex| if s.n(e).op == ZExt { s.w(s.n(e).a) } else { k };
                f(self, a).max(f(self, b))
            };
            if k < w {
                let x = self.extract(a, 0, k);
                let y = self.extract(b, 0, k);
                return Some(if op == Ult { self.ult(x, y) } else { self.ule(x, y) });
            }
        }
        // ite with constant leaves against a constant
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Ite && self.cval(b).is_some() && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
            let (x, y) = if op == Ult {
                (self.ult(na.b, b), self.ult(na.c, b))
            } else {
                (self.ule(na.b, b), self.ule(na.c, b))
            };
            return Some(self.ite(na.a, x, y));
        }
        if nb.op == Ite && self.cval(a).is_some() && self.cval(nb.b).is_some() && self.cval(nb.c).is_some() {
            let (x, y) = if op == Ult {
                (self.ult(a, nb.b), self.ult(a, nb.c))
            } else {
                (self.ule(a, nb.b), self.ule(a, nb.c))
            };
            return Some(self.ite(nb.a, x, y));
        }
        Option::None
    }
    pub fn ule(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.tru();
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.hi <= ib.lo {
            return self.tru();
        }
        if ia.lo > ib.hi {
            return self.fls();
        }
        // canonicalise against constants: a <= k  ->  a < k+1
        if let Some(k) = self.cval(b) {
            let w = self.w(a);
            if k < mask(w) {
                let k1 = self.konst(k + 1, w);
                return self.ult(a, k1);
            }
        }
        if let Some(k) = self.cval(a) {
            if k > 0 {
                let w = self.w(a);
                let k1 = self.konst(k - 1, w);
                return self.ult(k1, b);
            }
        }
        if let Some((x, y)) = self.cancel(a, b) {
            return self.ule(x, y);
        }
        if let Some(r) = self.cmp_narrow(Ule, a, b) {
            return r;
        }
        self.mk(Ule, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst((sext(x, w) < sext(y, w)) as u128, 1);
        }
        let sb = 1u128 << (w - 1);
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if (ia.kz & sb != 0 && ib.kz & sb != 0) || (ia.ko & sb != 0 && ib.ko & sb != 0) {
            return self.ult(a, b);
        }
        if ia.ko & sb != 0 && ib.kz & sb != 0 {
            return self.tru();
        }
        if ia.kz & sb != 0 && ib.ko & sb != 0 {
            return self.fls();
        }
        if let Some(r) = self.scmp_narrow(Slt, a, b) {
            return r;
        }
        self.mk(Slt, 1, a, b, 0, 0)
    }
    fn scmp_narrow(&mut self, op: Op, a: Ex, b: Ex) -> Option<Ex> {
        // x <s 0 -> sign bit
        let w = self.w(a);
        if op == Slt && self.cval(b) == Some(0) {
            return Some(self.extract(a, w - 1, 1));
        }
        if op == Sle && self.cval(a) == Some(0) {
            let s = self.extract(b, w - 1, 1);
            return Some(self.not(s));
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Ite && self.cval(b).is_some() && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
            let (x, y) = if op == Slt {
                (self.slt(na.b, b), self.slt(na.c, b))
            } else {
                (self.sle(na.b, b), self.sle(na.c, b))
            };
            return Some(self.ite(na.a, x, y));
        }
        // both sign extended (or small constants)
        let src = |s: &Self, n: &Node, e: Ex| -> Option<u16> {
            match n.op {
                SExt => Some(s.w(n.a)),
                ZExt => Some(s.w(n.a) + 1),
                Const => {
                    let v = sext(n.aux, n.w);
                    let mut k = 1;
                    while k < n.w && sext(n.aux & mask(k), k) != v {
                        k += 1;
                    }
                    let _ = e;
                    Some(k)
                }
                _ => Option::None,
            }
        };
        if let (Some(p), Some(q)) = (src(self, &na, a), src(self, &nb, b)) {
            let k = p.max(q);
            if k < w {
                let x = self.extract(a, 0, k);
                let y = self.extract(b, 0, k);
                return Some(if op == Slt { self.slt(x, y) } else { self.sle(x, y) });
            }
        }
        Option::None
    }
    pub fn sle(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst((sext(x, w) <= sext(y, w)) as u128, 1);
        }
        let sb = 1u128 << (w - 1);
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if (ia.kz & sb != 0 && ib.kz & sb != 0) || (ia.ko & sb != 0 && ib.ko & sb != 0) {
            return self.ule(a, b);
        }
        if ia.ko & sb != 0 && ib.kz & sb != 0 {
            return self.tru();
        }
        if ia.kz & sb != 0 && ib.ko & sb != 0 {
            return self.fls();
        }
        if let Some(r) = self.scmp_narrow(Sle, a, b) {
            return r;
        }
        self.mk(Sle, 1, a, b, 0, 0)
    }
    // ------------------------------------------------------------- floating point
    pub fn fop(&mut self, op: Op, w: u16, a: Ex, b: Ex, c: Ex, aux: u128) -> Ex {
        let ca = self.cval(a);
        let cb = if b == 0 { Some(0) } else { self.cval(b) };
        let cc = if c == 0 { Some(0) } else { self.cval(c) };
        if let (Some(x), Some(y), Some(z)) = (ca, cb, cc) {
            let wa = self.w(a);
            let r = feval(op, w, wa, x, y, z, aux);
            return self.konst(r, w);
        }
        let (mut a, mut b) = (a, b);
        if matches!(op, FAdd | FMul | FEq) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(op, w, a, b, c, aux)
    }

    // ------------------------------------------------------------- evaluation
    pub fn eval_begin(&mut self) {
        self.gen = self.gen.wrapping_add(1);
        if self.stamp.len() < self.nodes.len() {
            self.stamp.resize(self.nodes.len() + 1024, 0);
            self.memo.resize(self.nodes.len() + 1024, 0);
        }
        if self.gen == 0 {
            self.stamp.iter_mut().for_each(|x| *x = 0);
            self.gen = 1;
        }
    }
    /// evaluate under a model (value per var id); must be called after eval_begin with no new nodes created
    pub fn eval(&mut self, e: Ex, model: &[u128]) -> u128 {
        let i = e as usize;
        if self.stamp[i] == self.gen {
            return self.memo[i];
        }
        let n = self.nodes[i];
        let m = mask(n.w);
        let v = match n.op {
            None => 0,
            Const => n.aux,
            Var => model.get(n.aux as usize).copied().unwrap_or(0) & m,
            Ite => {
                if self.eval(n.a, model) & 1 == 1 {
                    self.eval(n.b, model)
                } else {
                    self.eval(n.c, model)
                }
            }
            _ => {
                let a = self.eval(n.a, model);
                let b = if n.b != 0 { self.eval(n.b, model) } else { 0 };
                let wa = self.nodes[n.a as usize].w;
                match n.op {
                    Add => a.wrapping_add(b) & m,
                    Sub => a.wrapping_sub(b) & m,
                    Mul => a.wrapping_mul(b) & m,
                    UDiv => {
                        if b == 0 {
                            m
                        } else {
                            a / b
                        }
                    }
                    URem => {
                        if b == 0 {
                            a
                        } else {
                            a % b
                        }
                    }
                    SDiv => {
                        let (x, y) = (sext(a, n.w), sext(b, n.w));
                        (if y == 0 {
                            if x < 0 {
                                1
                            } else {
                                -1
                            }
                        } else {
                            x.wrapping_div(y)
                        }) as u128
                            & m
                    }
                    SRem => {
                        let (x, y) = (sext(a, n.w), sext(b, n.w));
                        (if y == 0 { x } else { x.wrapping_rem(y) }) as u128 & m
                    }
                    And => a & b,
                    Or => a | b,
                    Xor => a ^ b,
                    Shl => {
                        if b >= n.w as u128 {
                            0
                        } else {
                            (a << b) & m
                        }
                    }
                    LShr => {
                        if b >= n.w as u128 {
                            0
                        } else {
                            a >> b
                        }
                    }
                    AShr => (sext(a, n.w) >> b.min(n.w as u128 - 1)) as u128 & m,
                    Concat => (a << self.nodes[n.b as usize].w) | b,
                    Extract => (a >> n.aux) & m,
                    ZExt => a,
                    SExt => sext(a, wa) as u128 & m,
                    Eq => (a == b) as u128,
                    Ult => (a < b) as u128,
                    Ule => (a <= b) as u128,
                    Slt => (sext(a, wa) < sext(b, wa)) as u128,
                    Sle => (sext(a, wa) <= sext(b, wa)) as u128,
                    op => {
                        let c = if n.c != 0 { self.eval(n.c, model) } else { 0 };
                        feval(op, n.w, wa, a, b, c, n.aux)
                    }
                }
            }
        };
        self.stamp[i] = self.gen;
        self.memo[i] = v;
        v
    }
    pub fn vars_of(&self, e: Ex) -> &[u32] {
        &self.sets[self.info[e as usize].vars as usize]
    }
}

/// canonical NaN so that z3's fp.to_ieee_bv abstraction and the host agree
fn f32b(x: f32) -> u128 {
    if x.is_nan() {
        0x7fc00000
    } else {
        x.to_bits() as u128
    }
}
fn f64b(x: f64) -> u128 {
    if x.is_nan() {
        0x7ff8000000000000
    } else {
        x.to_bits() as u128
    }
}

pub fn feval(op: Op, w: u16, wa: u16, a: u128, b: u128, c: u128, aux: u128) -> u128 {
    let f = |x: u128| f32::from_bits(x as u32);
    let d = |x: u128| f64::from_bits(x as u64);
    let m = mask(w);
    macro_rules! bin {
        ($o:tt) => {
            if wa == 32 { f32b(f(a) $o f(b)) } else { f64b(d(a) $o d(b)) }
        };
    }
    match op {
        FAdd => bin!(+),
        FSub => bin!(-),
        FMul => bin!(*),
        FDiv => bin!(/),
        FRem => bin!(%),
        FSqrt => {
            if wa == 32 {
                f32b(f(a).sqrt())
            } else {
                f64b(d(a).sqrt())
            }
        }
        Fma => {
            if wa == 32 {
                f32b(f(a).mul_add(f(b), f(c)))
            } else {
                f64b(d(a).mul_add(d(b), d(c)))
            }
        }
        FEq => (if wa == 32 { f(a) == f(b) } else { d(a) == d(b) }) as u128,
        FLt => (if wa == 32 { f(a) < f(b) } else { d(a) < d(b) }) as u128,
        FLe => (if wa == 32 { f(a) <= f(b) } else { d(a) <= d(b) }) as u128,
        FNan => (if wa == 32 { f(a).is_nan() } else { d(a).is_nan() }) as u128,
        FToSI => {
            let x = if wa == 32 { f(a) as f64 } else { d(a) };
            let v: i128 = if x.is_nan() { 0 } else { x as i128 };
            let hi = (mask(w) >> 1) as i128;
            (v.clamp(-hi - 1, hi) as u128) & m
        }
        FToUI => {
            let x = if wa == 32 { f(a) as f64 } else { d(a) };
            let v: u128 = if x.is_nan() { 0 } else { x as u128 };
            v.min(m)
        }
        SIToF => {
            let x = sext(a, wa);
            if w == 32 {
                f32b(x as f32)
            } else {
                f64b(x as f64)
            }
        }
        UIToF => {
            if w == 32 {
                f32b(a as f32)
            } else {
                f64b(a as f64)
            }
        }
        FExt => f64b(f(a) as f64),
        FTrunc => f32b(d(a) as f32),
        FRound => {
            if wa == 32 {
                let x = f(a);
                f32b(match aux {
                    0 => x.floor(),
                    1 => x.ceil(),
                    2 => x.trunc(),
                    3 => x.round_ties_even(),
                    _ => x.round(),
                })
            } else {
                let x = d(a);
                f64b(match aux {
                    0 => x.floor(),
                    1 => x.ceil(),
                    2 => x.trunc(),
                    3 => x.round_ties_even(),
                    _ => x.round(),
                })
            }
        }
        _ => unreachable!("feval {:?}", op),
    }
}
