//! Bit-blasting of arena expressions to CNF and a kissat back end, used for
//! bit-vector queries which z3 does not answer quickly.
use crate::expr::*;
use crate::z3::Answer;
use std::io::Write;

type L = i32; // literal; 1 is "true"
const T: L = 1;
const F: L = -1;

pub struct Blast {
    nv: i32,
    nc: usize,
    out: Vec<u8>,
    and: FxMap<(L, L), L>,
    xor: FxMap<(L, L), L>,
    mux: FxMap<(L, L, L), L>,
    maj: FxMap<(L, L, L), L>,
    memo: FxMap<Ex, Vec<L>>,
}

impl Blast {
    pub fn new() -> Blast {
        let mut b = Blast {
            nv: 1,
            nc: 0,
            out: vec![],
            and: FxMap::default(),
            xor: FxMap::default(),
            mux: FxMap::default(),
            maj: FxMap::default(),
            memo: FxMap::default(),
        };
        b.clause(&[T]);
        b
    }
    fn fresh(&mut self) -> L {
        self.nv += 1;
        self.nv
    }
    fn clause(&mut self, c: &[L]) {
        self.nc += 1;
        for l in c {
            let _ = write!(self.out, "{} ", l);
        }
        self.out.extend_from_slice(b"0\n");
    }
    fn and(&mut self, a: L, b: L) -> L {
        if a == F || b == F || a == -b {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        let k = (a.min(b), a.max(b));
        if let Some(x) = self.and.get(&k) {
            return *x;
        }
        let r = self.fresh();
        self.clause(&[-r, a]);
        self.clause(&[-r, b]);
        self.clause(&[r, -a, -b]);
        self.and.insert(k, r);
        r
    }
    fn or(&mut self, a: L, b: L) -> L {
        -self.and(-a, -b)
    }
    fn xor(&mut self, a: L, b: L) -> L {
        if a == F {
            return b;
        }
        if b == F {
            return a;
        }
        if a == T {
            return -b;
        }
        if b == T {
            return -a;
        }
        if a == b {
            return F;
        }
        if a == -b {
            return T;
        }
        let neg = (a < 0) != (b < 0);
        let (a, b) = (a.abs().min(b.abs()), a.abs().max(b.abs()));
        let r = if let Some(x) = self.xor.get(&(a, b)) {
            *x
        } else {
            let r = self.fresh();
            self.clause(&[-r, a, b]);
            self.clause(&[-r, -a, -b]);
            self.clause(&[r, -a, b]);
            self.clause(&[r, a, -b]);
            self.xor.insert((a, b), r);
            r
        };
        if neg {
            -r
        } else {
            r
        }
    }
    fn ite(&mut self, c: L, a: L, b: L) -> L {
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        if a == T || a == c {
            return self.or(c, b);
        }
        if a == F || a == -c {
            return self.and(-c, b);
        }
        if b == T || b == -c {
            return self.or(-c, a);
        }
        if b == F || b == c {
            return self.and(c, a);
        }
        if a == -b {
            return -self.xor(c, a);
        }
        let (c, a, b) = if c < 0 { (-c, b, a) } else { (c, a, b) };
        if let Some(x) = self.mux.get(&(c, a, b)) {
            return *x;
        }
        let r = self.fresh();
        self.clause(&[-c, -a, r]);
        self.clause(&[-c, a, -r]);
        self.clause(&[c, -b, r]);
        self.clause(&[c, b, -r]);
        self.clause(&[-a, -b, r]);
        self.clause(&[a, b, -r]);
        self.mux.insert((c, a, b), r);
        r
    }
    fn majority(&mut self, a: L, b: L, c: L) -> L {
        let mut v = [a, b, c];
        v.sort_unstable();
        let [a, b, c] = v;
        for (x, y, z) in [(a, b, c), (b, a, c), (c, a, b)] {
            if x == T {
                return self.or(y, z);
            }
            if x == F {
                return self.and(y, z);
            }
        }
        if a == b {
            return a;
        }
        if b == c {
            return b;
        }
        if a == -b {
            return c;
        }
        if b == -c {
            return a;
        }
        if a == -c {
            return b;
        }
        if let Some(x) = self.maj.get(&(a, b, c)) {
            return *x;
        }
        let r = self.fresh();
        self.clause(&[-a, -b, r]);
        self.clause(&[-a, -c, r]);
        self.clause(&[-b, -c, r]);
        self.clause(&[a, b, -r]);
        self.clause(&[a, c, -r]);
        self.clause(&[b, c, -r]);
        self.maj.insert((a, b, c), r);
        r
    }
    fn add(&mut self, a: &[L], b: &[L], mut c: L) -> Vec<L> {
        let mut o = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let t = self.xor(a[i], b[i]);
            o.push(self.xor(t, c));
            if i + 1 < a.len() {
                c = self.majority(a[i], b[i], c);
            }
        }
        o
    }
    fn neg(v: &[L]) -> Vec<L> {
        v.iter().map(|x| -x).collect()
    }
    /// a < b (or <= when `eq`), unsigned
    fn less(&mut self, a: &[L], b: &[L], eq: bool) -> L {
        // carry out of b + !a + eq
        let mut c = if eq { T } else { F };
        for i in 0..a.len() {
            c = self.majority(b[i], -a[i], c);
        }
        c
    }
    fn mul(&mut self, a: &[L], b: &[L]) -> Vec<L> {
        let w = a.len();
        let isc = |v: &[L]| v.iter().filter(|x| **x != T && **x != F).count();
        let (a, b) = if isc(a) < isc(b) { (a, b) } else { (b, a) };
        let mut acc = vec![F; w];
        if a.iter().all(|x| *x == T || *x == F) {
            // canonical signed digits
            let mut v = a.iter().enumerate().fold(0u128, |s, (i, x)| if *x == T { s | 1 << i } else { s });
            let mut i = 0;
            while v != 0 && i < w {
                if v & 1 == 1 {
                    let mut s = vec![F; i];
                    s.extend_from_slice(&b[..w - i]);
                    if v & 3 == 3 && (v >> 2) & 1 == 1 {
                        acc = self.add(&acc.clone(), &Self::neg(&s), T);
                        v = v.wrapping_add(1);
                    } else {
                        acc = self.add(&acc.clone(), &s, F);
                    }
                }
                v >>= 1;
                i += 1;
            }
            return acc;
        }
        for i in 0..w {
            if a[i] == F {
                continue;
            }
            let mut s = vec![F; i];
            for j in 0..w - i {
                s.push(self.and(a[i], b[j]));
            }
            acc = self.add(&acc.clone(), &s, F);
        }
        acc
    }
    fn divrem(&mut self, a: &[L], b: &[L]) -> (Vec<L>, Vec<L>) {
        let w = a.len();
        let mut r = vec![F; w];
        let mut q = vec![F; w];
        for i in (0..w).rev() {
            let top = r[w - 1];
            r.rotate_right(1);
            r[0] = a[i];
            // top:r >= b
            let ge = self.less(b, &r.clone(), true);
            let ge = self.or(top, ge);
            let d = self.add(&r.clone(), &Self::neg(b), T);
            for k in 0..w {
                r[k] = self.ite(ge, d[k], r[k]);
            }
            q[i] = ge;
        }
        (q, r)
    }
    fn abs(&mut self, a: &[L]) -> (Vec<L>, L) {
        let s = *a.last().unwrap();
        let x: Vec<L> = a.iter().map(|l| self.xor(*l, s)).collect();
        let z = vec![F; a.len()];
        (self.add(&x, &z, s), s)
    }
    fn cneg(&mut self, a: &[L], s: L) -> Vec<L> {
        let x: Vec<L> = a.iter().map(|l| self.xor(*l, s)).collect();
        let z = vec![F; a.len()];
        self.add(&x, &z, s)
    }
    fn shift(&mut self, a: &[L], b: &[L], left: bool, fill: L) -> Vec<L> {
        let w = a.len();
        let mut r = a.to_vec();
        let mut big = F;
        for (k, s) in b.iter().enumerate() {
            if k < 31 && (1usize << k) < w {
                let d = 1usize << k;
                let p = r.clone();
                for i in 0..w {
                    let m = if left {
                        if i >= d {
                            p[i - d]
                        } else {
                            fill
                        }
                    } else if i + d < w {
                        p[i + d]
                    } else {
                        fill
                    };
                    r[i] = self.ite(*s, m, p[i]);
                }
            } else {
                big = self.or(big, *s);
            }
        }
        for x in r.iter_mut() {
            *x = self.ite(big, fill, *x);
        }
        r
    }
    fn tr(&mut self, ar: &Arena, e: Ex) {
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.memo.contains_key(&x) {
                continue;
            }
            let n = *ar.n(x);
            if !done {
                st.push((x, true));
                for k in [n.a, n.b, n.c] {
                    if k != 0 && !self.memo.contains_key(&k) {
                        st.push((k, false));
                    }
                }
                continue;
            }
            let w = n.w as usize;
            let g = |s: &Self, k: Ex| if k == 0 { vec![] } else { s.memo[&k].clone() };
            let (a, b, c) = (g(self, n.a), g(self, n.b), g(self, n.c));
            let r: Vec<L> = match n.op {
                Op::Const => (0..w).map(|i| if n.aux >> i & 1 == 1 { T } else { F }).collect(),
                Op::Var => (0..w).map(|_| self.fresh()).collect(),
                Op::Add => self.add(&a, &b, F),
                Op::Sub => self.add(&a, &Self::neg(&b), T),
                Op::Mul => self.mul(&a, &b),
                Op::UDiv | Op::URem => {
                    let (q, r) = self.divrem(&a, &b);
                    if n.op == Op::UDiv {
                        q
                    } else {
                        r
                    }
                }
                Op::SDiv | Op::SRem => {
                    let (x, sx) = self.abs(&a);
                    let (y, sy) = self.abs(&b);
                    let (q, r) = self.divrem(&x, &y);
                    if n.op == Op::SDiv {
                        let s = self.xor(sx, sy);
                        self.cneg(&q, s)
                    } else {
                        self.cneg(&r, sx)
                    }
                }
                Op::And => (0..w).map(|i| self.and(a[i], b[i])).collect(),
                Op::Or => (0..w).map(|i| self.or(a[i], b[i])).collect(),
                Op::Xor => (0..w).map(|i| self.xor(a[i], b[i])).collect(),
                Op::Shl => self.shift(&a, &b, true, F),
                Op::LShr => self.shift(&a, &b, false, F),
                Op::AShr => self.shift(&a, &b, false, a[w - 1]),
                Op::Concat => {
                    let mut r = b.clone();
                    r.extend_from_slice(&a);
                    r
                }
                Op::Extract => a[n.aux as usize..n.aux as usize + w].to_vec(),
                Op::ZExt => {
                    let mut r = a;
                    r.resize(w, F);
                    r
                }
                Op::SExt => {
                    let s = *a.last().unwrap();
                    let mut r = a;
                    r.resize(w, s);
                    r
                }
                Op::Ite => (0..w).map(|i| self.ite(a[0], b[i], c[i])).collect(),
                Op::Eq => {
                    let mut r = T;
                    for i in 0..a.len() {
                        let x = self.xor(a[i], b[i]);
                        r = self.and(r, -x);
                    }
                    vec![r]
                }
                Op::Ult => vec![self.less(&a, &b, false)],
                Op::Ule => vec![self.less(&a, &b, true)],
                Op::Slt | Op::Sle => {
                    let (mut a, mut b) = (a, b);
                    let k = a.len() - 1;
                    a[k] = -a[k];
                    b[k] = -b[k];
                    vec![self.less(&a, &b, n.op == Op::Sle)]
                }
                o => panic!("cannot bit-blast {:?}", o),
            };
            self.memo.insert(x, r);
        }
    }
    pub fn solve(mut self, ar: &Arena, cons: &[Ex], vars: &[u32], secs: u64) -> Answer {
        for c in cons {
            self.tr(ar, *c);
            let l = self.memo[c][0];
            self.clause(&[l]);
        }
        let exe = ["/usr/local/bin/kissat", "/root/.kani/kani-0.68.0/bin/kissat"]
            .iter()
            .find(|p| std::path::Path::new(p).exists());
        let exe = match exe {
            Some(e) => e,
            None => return Answer::Unknown,
        };
        let mut ch = match std::process::Command::new(exe)
            .arg("-q")
            .arg(format!("--time={}", secs))
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(_) => return Answer::Unknown,
        };
        let mut sin = ch.stdin.take().unwrap();
        let head = format!("p cnf {} {}\n", self.nv, self.nc);
        if sin.write_all(head.as_bytes()).is_err() || sin.write_all(&self.out).is_err() {
            let _ = ch.kill();
        }
        drop(sin);
        let o = match ch.wait_with_output() {
            Ok(o) => o,
            Err(_) => return Answer::Unknown,
        };
        match o.status.code() {
            Some(20) => Answer::Unsat,
            Some(10) => {
                let mut val = vec![false; self.nv as usize + 1];
                for l in String::from_utf8_lossy(&o.stdout).lines() {
                    if let Some(r) = l.strip_prefix("v ") {
                        for x in r.split_whitespace() {
                            if let Ok(i) = x.parse::<i32>() {
                                if i > 0 {
                                    val[i as usize] = true;
                                }
                            }
                        }
                    }
                }
                let mut out = vec![];
                for v in vars {
                    let e = ar.var_expr(*v as usize);
                    let mut x = 0u128;
                    if let Some(ls) = self.memo.get(&e) {
                        for (i, l) in ls.iter().enumerate() {
                            if val[l.unsigned_abs() as usize] == (*l > 0) {
                                x |= 1 << i;
                            }
                        }
                    }
                    out.push((*v, x));
                }
                Answer::Sat(out)
            }
            _ => Answer::Unknown,
        }
    }
}
