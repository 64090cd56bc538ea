//! Symbolic execution of LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub const HEAP: u64 = 0x10_0000_0000;
pub const STACK: u64 = 0x7f00_0000_0000;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<Ex>, // empty, or one entry per byte (0 = concrete)
}
impl Obj {
    fn new(n: usize, fill: u8) -> Obj {
        Obj { data: vec![fill; n], sym: vec![] }
    }
    fn is_concrete(&self, o: usize, n: usize) -> bool {
        self.sym.is_empty() || self.sym[o..o + n].iter().all(|e| *e == 0)
    }
}
#[derive(Clone)]
pub struct Ent {
    pub base: u64,
    pub size: u64,
    pub obj: Rc<Obj>,
    pub freed: bool,
}
#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub ret: Option<u32>,
    pub normal: Option<u32>,
    pub smark: usize,
    pub sp: u64,
}
#[derive(Clone)]
pub enum Inp {
    Var(Ex),
    Choice(u64),
}
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub heap: Vec<Ent>,
    pub stack: Vec<Ent>,
    pub globs: FxMap<usize, Rc<Obj>>,
    pub hp: u64,
    pub sp: u64,
    pub pc: Vec<Ex>,
    pub pins: FxMap<Ex, u128>,
    /// bits of variables fixed by the path condition (mask, value)
    pub kb: FxMap<u32, (u128, u128)>,
    pub model: Rc<Vec<u128>>,
    pub inputs: Vec<Inp>,
    pub nvars: usize,
    pub pending: Option<u64>, // value handed to a re-executed sym_choice
    pub nofork: u32,
    pub live: u64,
    pub allocs: u64,
    pub forks: u32,
    pub outs: Vec<Ex>,
    pub labels: Vec<u64>,
}

pub struct Witness {
    pub inputs: Vec<u64>,
    pub outs: Vec<u64>,
    pub labels: Vec<u64>,
}
#[derive(Debug)]
pub struct Stop(pub String, pub String); // kind, detail
type R<X> = Result<X, Ctl>;
pub enum Ctl {
    Dead,               // path ends quietly (infeasible / assumption)
    Exit,               // program finished
    Viol(String, String), // violation kind, detail
    Unsupported(String),
}

#[derive(Clone, Copy)]
enum Loc {
    Heap(usize, u64),
    Stack(usize, u64),
    Glob(usize, u64),
}

pub struct Violation {
    pub kind: String,
    pub detail: String,
    pub stack: Vec<String>,
    pub inputs: Vec<u64>,
}

pub struct Config {
    pub args: Vec<u64>,
    pub max_time: f64,
    pub max_paths: u64,
    pub max_alloc: u64,
    pub simd: u32,
    pub witness: u64,
    pub max_viol: usize,
    pub trace: bool,
    /// fork on the entries of constant tables and track known bits
    pub split: bool,
    pub conc: Option<Vec<u64>>, // concrete inputs (differential / replay mode)
    pub max_conc: u32,
    pub nopanic_ok: Vec<String>,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub z3: Z3,
    pub cfg: Config,
    pub work: Vec<State>,
    pub models: Vec<Rc<Vec<u128>>>,
    pub qcache: HashMap<Vec<Ex>, Option<Vec<(u32, u128)>>>,
    pub qhits: u64,
    pub mhits: u64,
    pub instrs: u64,
    pub paths: u64,
    pub exits: u64,
    pub dead: u64,
    pub forks: u64,
    pub asserts_c: u64,
    pub asserts_s: u64,
    pub reached: BTreeMap<u64, u64>,
    pub fns_used: BTreeSet<u32>,
    pub viols: Vec<Violation>,
    pub incomplete: BTreeMap<String, u64>,
    pub t0: Instant,
    fkind: HashMap<u32, (u8, String)>,
    pub wits: Vec<Witness>,
    zobj: Rc<Obj>,
    pub fork_at: HashMap<String, u64>,
    pub slots: *mut AtomicI64,
    pub is_child: bool,
    pub kids: Vec<i32>,
}
extern "C" {
    fn fork() -> i32;
}

fn fits(size: u64, off: u64, n: u64) -> bool {
    off <= size && n <= size - off
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, cfg: Config, timeout_ms: u32) -> Self {
        Engine {
            m,
            ar: Arena::new(),
            z3: Z3::new(timeout_ms),
            cfg,
            work: vec![],
            models: vec![],
            qcache: HashMap::new(),
            qhits: 0,
            mhits: 0,
            instrs: 0,
            paths: 0,
            exits: 0,
            dead: 0,
            forks: 0,
            asserts_c: 0,
            asserts_s: 0,
            reached: BTreeMap::new(),
            fns_used: BTreeSet::new(),
            viols: vec![],
            incomplete: BTreeMap::new(),
            t0: Instant::now(),
            fkind: HashMap::new(),
            wits: vec![],
            zobj: Rc::new(Obj::new(0, 0)),
            fork_at: HashMap::new(),
            slots: std::ptr::null_mut(),
            is_child: false,
            kids: vec![],
        }
    }
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let id = self.m.fn_id(entry).ok_or_else(|| format!("no function {}", entry))?;
        let f = self.m.func(id).ok_or_else(|| format!("no body for {}", entry))?;
        self.fns_used.insert(id);
        let mut st = State {
            frames: vec![],
            heap: vec![],
            stack: vec![],
            globs: FxMap::default(),
            hp: HEAP,
            sp: STACK,
            pc: vec![],
            pins: FxMap::default(),
            kb: FxMap::default(),
            model: Rc::new(vec![]),
            inputs: vec![],
            nvars: 0,
            pending: None,
            nofork: 0,
            live: 0,
            allocs: 0,
            forks: 0,
            outs: vec![],
            labels: vec![],
        };
        let regs = vec![V::I(0); f.nregs as usize];
        st.frames.push(Frame { f, blk: 0, ip: 0, regs, ret: None, normal: None, smark: 0, sp: STACK });
        self.work.push(st);
        loop {
            self.share();
            let mut st = match self.work.pop() {
                Some(s) => s,
                None => break,
            };
            self.paths += 1;
            if self.paths > self.cfg.max_paths {
                *self.incomplete.entry("path limit".into()).or_insert(0) += 1;
                break;
            }
            if self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
                *self.incomplete.entry("time limit".into()).or_insert(0) += 1 + self.work.len() as u64;
                break;
            }
            match self.run_path(&mut st) {
                Ctl::Exit => {
                    self.exits += 1;
                    self.witness(&st);
                }
                Ctl::Dead => self.dead += 1,
                Ctl::Unsupported(s) => {
                    if self.cfg.trace {
                        eprintln!("unsupported: {} in {:?}", s, self.stack_of(&st));
                    }
                    *self.incomplete.entry(s).or_insert(0) += 1;
                }
                Ctl::Viol(kind, detail) => {
                    self.violation(&st, kind, detail);
                    if self.viols.len() >= self.cfg.max_viol {
                        *self.incomplete.entry("stopped after violations".into()).or_insert(0) += 1;
                        break;
                    }
                }
            }
        }
        Ok(())
    }
    /// Hand half of the pending states to a new process when a slot is free.
    fn share(&mut self) {
        if self.slots.is_null() || self.work.len() < 2 {
            return;
        }
        let slots = unsafe { &*self.slots };
        if slots.load(SeqCst) <= 0 {
            return;
        }
        if slots.fetch_sub(1, SeqCst) <= 0 {
            slots.fetch_add(1, SeqCst);
            return;
        }
        let pid = unsafe { fork() };
        let n = self.work.len() / 2;
        if pid < 0 {
            slots.fetch_add(1, SeqCst);
        } else if pid == 0 {
            self.work.truncate(n);
            self.is_child = true;
            self.kids.clear();
            self.paths = 0;
            self.exits = 0;
            self.dead = 0;
            self.forks = 0;
            self.instrs = 0;
            self.asserts_c = 0;
            self.asserts_s = 0;
            self.qhits = 0;
            self.mhits = 0;
            self.z3.queries = 0;
            self.z3.sat = 0;
            self.z3.unsat = 0;
            self.z3.unknown = 0;
            self.z3.second = 0;
            self.z3.tables = 0;
            self.z3.time = 0.0;
            self.reached.clear();
            self.viols.clear();
            self.wits.clear();
            self.incomplete.clear();
            self.fork_at.clear();
        } else {
            self.kids.push(pid);
            self.work.drain(..n);
        }
    }
    fn stack_of(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| f.f.name.clone()).take(12).collect()
    }
    fn violation(&mut self, st: &State, kind: String, detail: String) {
        let stack = self.stack_of(st);
        let inputs = self.input_values(st);
        if self.viols.iter().any(|v| v.kind == kind && v.detail == detail && v.stack == stack) {
            return;
        }
        self.viols.push(Violation { kind, detail, stack, inputs });
    }
    /// keep the inputs of a few finished paths, to be replayed against the native build
    fn witness(&mut self, st: &State) {
        if (self.wits.len() as u64) < self.cfg.witness {
            let inputs = self.input_values(st);
            let outs = st.outs.iter().map(|e| self.ar.eval(*e, &st.model) as u64).collect();
            self.wits.push(Witness { inputs, outs, labels: st.labels.clone() });
        }
    }
    fn input_values(&mut self, st: &State) -> Vec<u64> {
        self.ar.eval_begin();
        let mut v = vec![];
        for i in &st.inputs {
            v.push(match i {
                Inp::Var(e) => self.ar.eval(*e, &st.model) as u64,
                Inp::Choice(c) => *c,
            });
        }
        v
    }
    fn run_path(&mut self, st: &mut State) -> Ctl {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
                return Ctl::Unsupported("time limit".into());
            }
            self.instrs += 1;
            if let Err(c) = self.step(st) {
                return c;
            }
        }
    }

    // ------------------------------------------------------------ values
    #[inline]
    fn get(&self, st: &State, o: &O) -> V {
        match o {
            O::K(v) => v.clone(),
            O::R(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                if let V::S(e) = v {
                    if let Some(p) = st.pins.get(e) {
                        return V::of(*p, self.ar.w(*e));
                    }
                }
                v.clone()
            }
        }
    }
    fn pin(&self, st: &State, v: V) -> V {
        if let V::S(e) = &v {
            if let Some(p) = st.pins.get(e) {
                return V::of(*p, self.ar.w(*e));
            }
        }
        v
    }
    fn ex(&mut self, v: &V, w: u16) -> Ex {
        match v {
            V::I(x) => self.ar.konst(*x as u128, w),
            V::W(x) => self.ar.konst(**x, w),
            V::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate where a scalar was expected"),
        }
    }
    fn val(&self, e: Ex) -> V {
        match self.ar.cval(e) {
            Some(c) => V::of(c, self.ar.w(e)),
            None => V::S(e),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: V) {
        if let V::S(e) = &v {
            if let Some(k) = self.fixed(st, *e) {
                st.frames.last_mut().unwrap().regs[d as usize] = V::of(k, self.ar.w(*e));
                return;
            }
        }
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }

    // ------------------------------------------------------------ solving
    fn slice(&mut self, st: &State, extra: Ex) -> (Vec<Ex>, Vec<u32>) {
        let nv = self.ar.var_count();
        let mut bits = vec![0u64; nv / 64 + 1];
        let mut any = |s: &[u32], bits: &mut Vec<u64>| {
            for v in s {
                bits[*v as usize / 64] |= 1 << (v % 64);
            }
        };
        any(self.ar.vars_of(extra), &mut bits);
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = self.ar.vars_of(*c);
                if vs.iter().any(|v| bits[*v as usize / 64] >> (v % 64) & 1 == 1) {
                    used[i] = true;
                    ch = true;
                    out.push(*c);
                    any(vs, &mut bits);
                }
            }
            if !ch {
                break;
            }
        }
        let mut vars = vec![];
        for v in 0..nv {
            if bits[v / 64] >> (v % 64) & 1 == 1 {
                vars.push(v as u32);
            }
        }
        (out, vars)
    }
    /// Is pc && extra satisfiable?  Ok(None): no.  Ok(Some(model)): yes.
    fn feasible(&mut self, st: &State, extra: Ex) -> Result<Option<Rc<Vec<u128>>>, String> {
        if self.ar.is_false(extra) {
            return Ok(None);
        }
        let (mut cs, vars) = self.slice(st, extra);
        cs.push(extra);
        // recently found models first
        for k in (0..self.models.len()).rev() {
            let m = self.models[k].clone();
            self.ar.eval_begin();
            if cs.iter().rev().all(|c| self.ar.eval(*c, &m) == 1) {
                self.mhits += 1;
                let mut nm = (*st.model).clone();
                for v in &vars {
                    let i = *v as usize;
                    if nm.len() <= i {
                        nm.resize(i + 1, 0);
                    }
                    nm[i] = m.get(i).copied().unwrap_or(0);
                }
                return Ok(Some(Rc::new(nm)));
            }
        }
        let mut key = cs.clone();
        key.sort_unstable();
        key.dedup();
        let ans = if let Some(a) = self.qcache.get(&key) {
            self.qhits += 1;
            a.clone()
        } else {
            let fp = cs.iter().any(|c| self.ar.info[*c as usize].fp);
            let left = (self.cfg.max_time - self.t0.elapsed().as_secs_f64()).max(0.5);
            // few input bits: a short try, then the formula's whole truth table
            let bits: u32 = vars.iter().map(|v| self.ar.w(self.ar.var_expr(*v as usize)) as u32).sum();
            let small = bits <= 16;
            self.z3.clip(((left * 1000.0) as u32).min(if !small { u32::MAX } else if fp { 120 } else { 300 }));
            let mut a = if !fp && self.z3.generalised_unsat(&self.ar, &cs) {
                Answer::Unsat
            } else {
                self.z3.check(&self.ar, &cs, &vars, fp)
            };
            if small && matches!(a, Answer::Unknown) {
                a = self.tabulate(&cs, &vars, left);
            }
            match a {
                Answer::Unsat => {
                    self.qcache.insert(key, None);
                    None
                }
                Answer::Sat(m) => {
                    self.qcache.insert(key, Some(m.clone()));
                    Some(m)
                }
                Answer::Unknown => return Err("solver gave no answer".into()),
            }
        };
        match ans {
            None => Ok(None),
            Some(m) => {
                let mut nm = (*st.model).clone();
                for (v, x) in m {
                    let i = v as usize;
                    if nm.len() <= i {
                        nm.resize(i + 1, 0);
                    }
                    nm[i] = x;
                }
                // the solver's model must satisfy the constraints under our own evaluator
                self.ar.eval_begin();
                for c in &cs {
                    if self.ar.eval(*c, &nm) != 1 {
                        return Err("model check failed (encoding disagreement)".into());
                    }
                }
                let nm = Rc::new(nm);
                if self.models.len() >= 24 {
                    self.models.remove(0);
                }
                self.models.push(nm.clone());
                Ok(Some(nm))
            }
        }
    }
    /// decide a formula over few input bits from its truth table
    fn tabulate(&mut self, cs: &[Ex], vars: &[u32], left: f64) -> Answer {
        let t0 = std::time::Instant::now();
        let ws: Vec<u32> = vars.iter().map(|v| self.ar.w(self.ar.var_expr(*v as usize)) as u32).collect();
        let bits: u32 = ws.iter().sum();
        let mut m = vec![0u128; vars.iter().max().map_or(0, |v| *v as usize + 1)];
        let lim = left.min(self.z3.limit_ms as f64 / 1000.0);
        let mut ans = Answer::Unsat;
        for x in 0u64..1 << bits {
            let mut r = x;
            for (v, w) in vars.iter().zip(&ws) {
                m[*v as usize] = (r & ((1u64 << w) - 1)) as u128;
                r >>= w;
            }
            self.ar.eval_begin();
            if cs.iter().rev().all(|c| self.ar.eval(*c, &m) == 1) {
                ans = Answer::Sat(vars.iter().map(|v| (*v, m[*v as usize])).collect());
                break;
            }
            if x % 512 == 511 && t0.elapsed().as_secs_f64() > lim {
                ans = Answer::Unknown;
                break;
            }
        }
        match ans {
            Answer::Sat(_) => self.z3.sat += 1,
            Answer::Unsat => self.z3.unsat += 1,
            Answer::Unknown => {}
        }
        if !matches!(ans, Answer::Unknown) {
            self.z3.unknown -= 1;
            self.z3.tables += 1;
        }
        self.z3.time += t0.elapsed().as_secs_f64();
        ans
    }
    /// value of an expression whose bits are all fixed by the path condition
    fn fixed(&self, st: &State, e: Ex) -> Option<u128> {
        if !self.cfg.split || st.kb.is_empty() {
            return None;
        }
        let mut fuel = 400;
        let (m, v) = self.known(st, e, 40, &mut fuel);
        if m == mask(self.ar.w(e)) {
            Some(v)
        } else {
            None
        }
    }
    fn known(&self, st: &State, e: Ex, d: u32, fuel: &mut u32) -> (u128, u128) {
        let n = *self.ar.n(e);
        let full = mask(n.w);
        if n.op == Op::Const {
            return (full, n.aux & full);
        }
        if let Some(p) = st.pins.get(&e) {
            return (full, *p);
        }
        let inf = &self.ar.info[e as usize];
        let (zm, om) = (inf.kz & full, inf.ko & full);
        let stat = (zm | om, om);
        if d == 0 || *fuel == 0 {
            return stat;
        }
        *fuel -= 1;
        let mut k = |s: &Self, x: Ex| s.known(st, x, d - 1, fuel);
        let low = |m: u128| -> u128 {
            let t = (!m).trailing_zeros();
            if t >= 128 { u128::MAX } else { (1u128 << t) - 1 }
        };
        let (m, v) = match n.op {
            Op::Var => st.kb.get(&(n.aux as u32)).copied().unwrap_or((0, 0)),
            Op::Extract => {
                let (m, v) = k(self, n.a);
                (m >> n.aux, v >> n.aux)
            }
            Op::Concat => {
                let wb = self.ar.w(n.b);
                let (m, v) = k(self, n.a);
                let (m2, v2) = k(self, n.b);
                (m << wb | m2, v << wb | v2)
            }
            Op::ZExt => {
                let (m, v) = k(self, n.a);
                (m | !mask(self.ar.w(n.a)), v)
            }
            Op::And => {
                let (m, v) = k(self, n.a);
                let (m2, v2) = k(self, n.b);
                let z = (m & !v) | (m2 & !v2);
                let o = m & v & m2 & v2;
                (z | o, o)
            }
            Op::Or => {
                let (m, v) = k(self, n.a);
                let (m2, v2) = k(self, n.b);
                let o = (m & v) | (m2 & v2);
                let z = m & !v & m2 & !v2;
                (z | o, o)
            }
            Op::Xor => {
                let (m, v) = k(self, n.a);
                let (m2, v2) = k(self, n.b);
                (m & m2, (v ^ v2) & m & m2)
            }
            Op::Add | Op::Sub => {
                let (m, v) = k(self, n.a);
                let (m2, v2) = k(self, n.b);
                let l = low(m & m2);
                let r = if n.op == Op::Add { v.wrapping_add(v2) } else { v.wrapping_sub(v2) };
                (l, r & l)
            }
            Op::Shl | Op::LShr => {
                let (m2, v2) = k(self, n.b);
                if m2 & full == full {
                    let (m, v) = k(self, n.a);
                    let s = v2 as u32;
                    if v2 >= n.w as u128 {
                        (full, 0)
                    } else if n.op == Op::Shl {
                        (m << s | ((1u128 << s) - 1), v << s)
                    } else {
                        let hi = full & !(full >> s);
                        ((m & full) >> s | hi, (v & full) >> s)
                    }
                } else {
                    (0, 0)
                }
            }
            Op::Ite => {
                let (m, v) = k(self, n.a);
                if m & 1 == 1 {
                    if v & 1 == 1 { k(self, n.b) } else { k(self, n.c) }
                } else {
                    (0, 0)
                }
            }
            Op::Eq | Op::Ult | Op::Ule => {
                let f = mask(self.ar.w(n.a));
                let (m, v) = k(self, n.a);
                let (m2, v2) = k(self, n.b);
                if m & f == f && m2 & f == f {
                    let (x, y) = (v & f, v2 & f);
                    let r = match n.op {
                        Op::Eq => x == y,
                        Op::Ult => x < y,
                        _ => x <= y,
                    };
                    (1, r as u128)
                } else if n.op == Op::Eq && (v ^ v2) & m & m2 & f != 0 {
                    (1, 0)
                } else {
                    (0, 0)
                }
            }
            _ => (0, 0),
        };
        let m = m & full;
        let v = v & m;
        (m | stat.0, v | stat.1)
    }
    /// the bits `m` of `e` have the value `v` on this path
    fn learn_bits(&self, st: &mut State, e: Ex, m: u128, v: u128) {
        let n = *self.ar.n(e);
        let m = m & mask(n.w);
        if m == 0 {
            return;
        }
        match n.op {
            Op::Var => {
                let k = st.kb.entry(n.aux as u32).or_insert((0, 0));
                k.0 |= m;
                k.1 = (k.1 & !m) | (v & m);
            }
            Op::Extract => self.learn_bits(st, n.a, m << n.aux, v << n.aux),
            Op::Concat => {
                let wb = self.ar.w(n.b);
                self.learn_bits(st, n.a, m >> wb, v >> wb);
                self.learn_bits(st, n.b, m & mask(wb), v);
            }
            Op::ZExt => self.learn_bits(st, n.a, m & mask(self.ar.w(n.a)), v),
            Op::Xor => {
                if let Some(z) = self.ar.cval(n.b) {
                    self.learn_bits(st, n.a, m, v ^ z);
                }
            }
            Op::And => {
                if let Some(z) = self.ar.cval(n.b) {
                    self.learn_bits(st, n.a, m & z, v);
                }
            }
            Op::Or => {
                if let Some(z) = self.ar.cval(n.b) {
                    self.learn_bits(st, n.a, m & !z, v);
                } else if n.w <= 64 {
                    // parts that do not overlap
                    for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                        let zy = self.ar.info[y as usize].kz;
                        if m & zy != 0 {
                            self.learn_bits(st, x, m & zy, v);
                        }
                    }
                }
            }
            Op::Shl | Op::LShr => {
                if let Some(s) = self.ar.cval(n.b) {
                    if s < n.w as u128 {
                        let s = s as u32;
                        if n.op == Op::Shl {
                            self.learn_bits(st, n.a, m >> s, v >> s);
                        } else {
                            self.learn_bits(st, n.a, m << s, v << s);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn learn(&self, st: &mut State, c: Ex, val: bool) {
        // record what c == val tells about sub-expressions
        st.pins.insert(c, val as u128);
        if self.cfg.split {
            self.learn_bits(st, c, 1, val as u128);
        }
        let n = *self.ar.n(c);
        match n.op {
            Op::Eq if val => {
                if let Some(k) = self.ar.cval(n.b) {
                    self.learn_eq(st, n.a, k);
                }
            }
            Op::And if n.w == 1 && val => {
                self.learn(st, n.a, true);
                self.learn(st, n.b, true);
            }
            Op::Or if n.w == 1 && !val => {
                self.learn(st, n.a, false);
                self.learn(st, n.b, false);
            }
            Op::Xor if n.w == 1 => {
                if self.ar.cval(n.b) == Some(1) {
                    self.learn(st, n.a, !val);
                }
            }
            _ => {}
        }
    }
    fn learn_eq(&self, st: &mut State, e: Ex, k: u128) {
        if self.ar.cval(e).is_some() {
            return;
        }
        st.pins.insert(e, k);
        if self.cfg.split {
            self.learn_bits(st, e, u128::MAX, k);
        }
        let n = *self.ar.n(e);
        match n.op {
            Op::Concat => {
                let wb = self.ar.w(n.b);
                self.learn_eq(st, n.a, k >> wb);
                self.learn_eq(st, n.b, k & mask(wb));
            }
            Op::Or if k == 0 => {
                self.learn_eq(st, n.a, 0);
                self.learn_eq(st, n.b, 0);
            }
            Op::And if k == mask(n.w) => {
                self.learn_eq(st, n.a, k);
                self.learn_eq(st, n.b, k);
            }
            Op::ZExt => self.learn_eq(st, n.a, k & mask(self.ar.w(n.a))),
            Op::SExt => self.learn_eq(st, n.a, k & mask(self.ar.w(n.a))),
            Op::Xor | Op::Add => {
                if let Some(z) = self.ar.cval(n.b) {
                    let v = if n.op == Op::Xor { k ^ z } else { k.wrapping_sub(z) };
                    self.learn_eq(st, n.a, v & mask(n.w));
                }
            }
            _ => {}
        }
    }
    fn assume_true(&mut self, st: &mut State, c: Ex) {
        if self.ar.is_true(c) {
            return;
        }
        let mut todo = vec![c];
        while let Some(x) = todo.pop() {
            let n = *self.ar.n(x);
            if n.op == Op::And && n.w == 1 {
                todo.push(n.a);
                todo.push(n.b);
            } else {
                st.pc.push(x);
            }
        }
        self.learn(st, c, true);
    }
    /// Truth value of a condition on this path; the other outcome, when
    /// feasible, is queued as a separate state that re-executes the instruction.
    fn decide(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(v) = self.ar.cval(c) {
            return Ok(v == 1);
        }
        if let Some(v) = st.pins.get(&c) {
            return Ok(*v == 1);
        }
        let nc = self.ar.not(c);
        if let Some(v) = st.pins.get(&nc) {
            return Ok(*v == 0);
        }
        if let Some(v) = self.fixed(st, c) {
            return Ok(v == 1);
        }
        self.ar.eval_begin();
        let b = self.ar.eval(c, &st.model) == 1;
        if st.nofork > 0 {
            return Ok(b);
        }
        let other = if b { nc } else { c };
        let same = if b { c } else { nc };
        if self.cfg.trace {
            let fr = st.frames.last().unwrap();
            let k = format!("q {} b{} i{}", fr.f.name, fr.blk, fr.ip);
            let e = self.fork_at.entry(k).or_insert(0);
            *e += 1;
            if *e == 1 {
                eprintln!("q {} b{} i{}: {}", fr.f.name, fr.blk, fr.ip, self.ar.show(c, 12));
            }
        }
        match self.feasible(st, other) {
            Err(e) => {
                return Err(Ctl::Unsupported(e));
            }
            Ok(None) => {
                self.learn(st, same, true);
                if same != c {
                    st.pins.insert(c, b as u128);
                }
            }
            Ok(Some(m)) => {
                self.forks += 1;
                if self.cfg.trace {
                    let fr = st.frames.last().unwrap();
                    let k = format!("{} b{} i{}", fr.f.name, fr.blk, fr.ip);
                    *self.fork_at.entry(k).or_insert(0) += 1;
                }
                let mut o = st.clone();
                o.model = m;
                o.forks += 1;
                self.assume_true(&mut o, other);
                o.pins.insert(c, !b as u128);
                self.work.push(o);
                self.assume_true(st, same);
                st.pins.insert(c, b as u128);
            }
        }
        Ok(b)
    }
    fn concretise(&mut self, st: &mut State, e: Ex) -> R<u128> {
        if let Some(v) = self.ar.cval(e) {
            return Ok(v);
        }
        if let Some(v) = st.pins.get(&e) {
            return Ok(*v);
        }
        if let Some(v) = self.fixed(st, e) {
            return Ok(v);
        }
        self.ar.eval_begin();
        let v = self.ar.eval(e, &st.model);
        if st.nofork > 0 {
            return Ok(v);
        }
        let w = self.ar.w(e);
        let k = self.ar.konst(v, w);
        let c = self.ar.eq(e, k);
        if self.ar.is_true(c) {
            return Ok(v);
        }
        if !self.decide(st, c)? {
            return Err(Ctl::Unsupported("concretise".into()));
        }
        st.pins.insert(e, v);
        Ok(v)
    }
    fn conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::I(x) => Ok(*x as u128),
            V::W(x) => Ok(**x),
            V::S(e) => self.concretise(st, *e),
            V::A(_) => panic!("aggregate"),
        }
    }

    // ------------------------------------------------------------ memory
    fn find(&self, st: &State, addr: u64, n: u64) -> Result<Loc, String> {
        let locate = |v: &Vec<Ent>| -> Option<usize> {
            let i = v.partition_point(|e| e.base <= addr);
            if i == 0 {
                None
            } else {
                Some(i - 1)
            }
        };
        if addr >= STACK {
            if let Some(i) = locate(&st.stack) {
                let e = &st.stack[i];
                if fits(e.size, addr - e.base, n) {
                    return Ok(Loc::Stack(i, addr - e.base));
                }
            }
            return Err(format!("stack address outside every live object ({} bytes)", n));
        }
        if addr >= HEAP {
            if let Some(i) = locate(&st.heap) {
                let e = &st.heap[i];
                if fits(e.size, addr - e.base, n) {
                    if e.freed {
                        return Err("use of freed heap memory".into());
                    }
                    return Ok(Loc::Heap(i, addr - e.base));
                }
                return Err(format!(
                    "heap access of {} bytes at offset {} of a {} byte allocation",
                    n,
                    addr - e.base,
                    e.size
                ));
            }
        } else if addr >= GLOB {
            let p = self.m.placed.borrow();
            let i = p.partition_point(|e| e.0 <= addr);
            if i > 0 {
                let (base, id) = p[i - 1];
                let size = self.m.globs.borrow()[id].size;
                if fits(size, addr - base, n) {
                    return Ok(Loc::Glob(id, addr - base));
                }
                return Err(format!("static access of {} bytes at offset {} of {}", n, addr - base, size));
            }
        }
        Err(format!("access of {} bytes at invalid address {:#x}", n, addr))
    }
    fn obj(&self, st: &State, l: Loc) -> (Rc<Obj>, u64) {
        match l {
            Loc::Heap(i, o) => (st.heap[i].obj.clone(), o),
            Loc::Stack(i, o) => (st.stack[i].obj.clone(), o),
            Loc::Glob(i, o) => {
                if let Some(x) = st.globs.get(&i) {
                    return (x.clone(), o);
                }
                let d = self.m.global_data(i);
                (Rc::new(Obj { data: (*d).clone(), sym: vec![] }), o)
            }
        }
    }
    fn glob_obj(&self, st: &mut State, i: usize) -> Rc<Obj> {
        if let Some(x) = st.globs.get(&i) {
            return x.clone();
        }
        let d = self.m.global_data(i);
        let o = Rc::new(Obj { data: (*d).clone(), sym: vec![] });
        st.globs.insert(i, o.clone());
        o
    }
    fn with_obj<X>(&self, st: &mut State, l: Loc, f: impl FnOnce(&Obj, usize) -> X) -> X {
        match l {
            Loc::Heap(i, o) => f(&st.heap[i].obj, o as usize),
            Loc::Stack(i, o) => f(&st.stack[i].obj, o as usize),
            Loc::Glob(i, o) => {
                let g = self.glob_obj(st, i);
                f(&g, o as usize)
            }
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, l: Loc) -> R<(&'a mut Obj, usize)> {
        match l {
            Loc::Heap(i, o) => Ok((Rc::make_mut(&mut st.heap[i].obj), o as usize)),
            Loc::Stack(i, o) => Ok((Rc::make_mut(&mut st.stack[i].obj), o as usize)),
            Loc::Glob(i, o) => {
                if self.m.globs.borrow()[i].konst {
                    return Err(Ctl::Viol("memory".into(), "write to constant data".into()));
                }
                self.glob_obj(st, i);
                Ok((Rc::make_mut(st.globs.get_mut(&i).unwrap()), o as usize))
            }
        }
    }
    /// raw little-endian read of n (<= 16) bytes as one value of width 8n
    fn rd(&mut self, ob: &Obj, o: usize, n: usize) -> V {
        if ob.sym.is_empty() || ob.sym[o..o + n].iter().all(|x| *x == 0) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&ob.data[o..o + n]);
            return V::of(u128::from_le_bytes(b), (8 * n) as u16);
        }
        let mut e = 0;
        for i in 0..n {
            let x = if ob.sym[o + i] != 0 { ob.sym[o + i] } else { self.ar.konst(ob.data[o + i] as u128, 8) };
            e = if i == 0 { x } else { self.ar.concat(x, e) };
        }
        self.val(e)
    }
    fn wr(&mut self, ob: &mut Obj, o: usize, n: usize, v: &V) {
        match v {
            V::S(e) => {
                if ob.sym.is_empty() {
                    ob.sym = vec![0; ob.data.len()];
                }
                for i in 0..n {
                    let b = self.ar.extract(*e, (8 * i) as u16, 8);
                    match self.ar.cval(b) {
                        Some(c) => {
                            ob.data[o + i] = c as u8;
                            ob.sym[o + i] = 0;
                        }
                        None => ob.sym[o + i] = b,
                    }
                }
            }
            _ => {
                let x = v.conc().expect("scalar");
                ob.data[o..o + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !ob.sym.is_empty() {
                    for s in &mut ob.sym[o..o + n] {
                        *s = 0;
                    }
                }
            }
        }
    }
    fn load_ty(&mut self, ob: &Obj, o: usize, ty: &Ty) -> V {
        match ty {
            Ty::Int(w) => {
                let n = (*w as usize + 7) / 8;
                let v = self.rd(ob, o, n);
                if *w as usize == 8 * n {
                    return v;
                }
                match v {
                    V::S(e) => {
                        let t = self.ar.trunc(e, *w);
                        self.val(t)
                    }
                    v => V::of(v.conc().unwrap(), *w),
                }
            }
            Ty::F32 => self.rd(ob, o, 4),
            Ty::F64 | Ty::Ptr => self.rd(ob, o, 8),
            Ty::Arr(n, e) => {
                let es = e.size() as usize;
                V::A(Rc::new((0..*n as usize).map(|i| self.load_ty(ob, o + i * es, e)).collect()))
            }
            Ty::Vec(n, e) => {
                if e.bits() % 8 != 0 {
                    let total = *n as usize * e.bits() as usize;
                    let v = self.rd(ob, o, (total + 7) / 8);
                    return self.split_bits(&v, *n, e.bits());
                }
                let es = e.bits() as usize / 8;
                V::A(Rc::new((0..*n as usize).map(|i| self.load_ty(ob, o + i * es, e)).collect()))
            }
            Ty::Struct(fs, _) => V::A(Rc::new(
                fs.iter().enumerate().map(|(i, f)| self.load_ty(ob, o + ty.field_off(i) as usize, f)).collect(),
            )),
            Ty::Void | Ty::Other => V::I(0),
        }
    }
    fn split_bits(&mut self, v: &V, n: u32, w: u16) -> V {
        let tot = match v {
            V::S(e) => self.ar.w(*e),
            _ => 0,
        };
        let _ = tot;
        let mut out = vec![];
        for i in 0..n as u16 {
            out.push(match v {
                V::S(e) => {
                    let x = self.ar.extract(*e, i * w, w);
                    self.val(x)
                }
                v => V::of(v.conc().unwrap() >> (i * w), w),
            });
        }
        V::A(Rc::new(out))
    }
    fn join_bits(&mut self, vs: &[V], w: u16) -> V {
        let tot = w * vs.len() as u16;
        if vs.iter().all(|v| v.conc().is_some()) && tot <= 128 {
            let mut x = 0u128;
            for (i, v) in vs.iter().enumerate() {
                x |= v.conc().unwrap() << (i as u16 * w);
            }
            return V::of(x, tot);
        }
        let mut e = self.ex(&vs[0], w);
        for v in &vs[1..] {
            let h = self.ex(v, w);
            e = self.ar.concat(h, e);
        }
        self.val(e)
    }
    fn store_ty(&mut self, ob: &mut Obj, o: usize, ty: &Ty, v: &V) {
        match ty {
            Ty::Int(w) => {
                let n = (*w as usize + 7) / 8;
                if *w as usize == 8 * n {
                    self.wr(ob, o, n, v);
                } else {
                    let v2 = match v {
                        V::S(e) => {
                            let z = self.ar.zext(*e, (8 * n) as u16);
                            V::S(z)
                        }
                        v => v.clone(),
                    };
                    self.wr(ob, o, n, &v2);
                }
            }
            Ty::F32 => self.wr(ob, o, 4, v),
            Ty::F64 | Ty::Ptr => self.wr(ob, o, 8, v),
            Ty::Arr(_, e) => {
                let es = e.size() as usize;
                if let V::A(a) = v {
                    for (i, x) in a.iter().enumerate() {
                        self.store_ty(ob, o + i * es, e, x);
                    }
                }
            }
            Ty::Vec(_, e) => {
                if let V::A(a) = v {
                    if e.bits() % 8 != 0 {
                        let j = self.join_bits(a, e.bits());
                        let tot = a.len() * e.bits() as usize;
                        self.store_ty(ob, o, &Ty::Int(tot as u16), &j);
                        return;
                    }
                    let es = e.bits() as usize / 8;
                    for (i, x) in a.iter().enumerate() {
                        self.store_ty(ob, o + i * es, e, x);
                    }
                }
            }
            Ty::Struct(fs, _) => {
                if let V::A(a) = v {
                    for (i, x) in a.iter().enumerate() {
                        self.store_ty(ob, o + ty.field_off(i) as usize, &fs[i], x);
                    }
                }
            }
            Ty::Void | Ty::Other => {}
        }
    }
    fn oob(&self, what: &str, s: String) -> Ctl {
        Ctl::Viol("memory".into(), format!("{}: {}", what, s))
    }
    /// candidate offsets of a symbolic address inside the object it points to under the path's model
    fn resolve(&mut self, st: &mut State, e: Ex, n: u64, what: &str) -> R<(Loc, Ex, u64, u64, u32)> {
        self.ar.eval_begin();
        let a0 = self.ar.eval(e, &st.model) as u64;
        let l = match self.find(st, a0, n) {
            Ok(l) => l,
            Err(s) => return Err(self.oob(what, s)),
        };
        let (base, size) = match l {
            Loc::Heap(i, _) => (st.heap[i].base, st.heap[i].size),
            Loc::Stack(i, _) => (st.stack[i].base, st.stack[i].size),
            Loc::Glob(i, _) => {
                let g = self.m.globs.borrow();
                (g[i].base, g[i].size)
            }
        };
        let kb = self.ar.konst(base as u128, 64);
        let off = self.ar.sub(e, kb);
        let inf = self.ar.info[off as usize];
        let top = size - n;
        if inf.hi > top as u128 {
            let kt = self.ar.konst(top as u128, 64);
            let inb = self.ar.ule(off, kt);
            if !self.decide(st, inb)? {
                return Err(Ctl::Unsupported("resolve".into()));
            }
        }
        let lo = inf.lo.min(top as u128) as u64;
        let hi = inf.hi.min(top as u128) as u64;
        let tz = (!inf.kz).trailing_zeros().min(12);
        let base_loc = match l {
            Loc::Heap(i, _) => Loc::Heap(i, 0),
            Loc::Stack(i, _) => Loc::Stack(i, 0),
            Loc::Glob(i, _) => Loc::Glob(i, 0),
        };
        Ok((base_loc, off, lo, hi, tz))
    }
    fn leaves(&self, e: Ex, out: &mut Vec<u64>) -> bool {
        if let Some(c) = self.ar.cval(e) {
            out.push(c as u64);
            return out.len() <= 16;
        }
        let n = self.ar.n(e);
        if n.op == Op::Ite {
            return self.leaves(n.b, out) && self.leaves(n.c, out);
        }
        false
    }
    fn ite_val(&mut self, c: Ex, ty: &Ty, a: &V, b: &V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut out = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    let et: Ty = match ty {
                        Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                        Ty::Struct(f, _) => (*f[i]).clone(),
                        _ => unreachable!(),
                    };
                    out.push(self.ite_val(c, &et, &x[i], &y[i]));
                }
                V::A(Rc::new(out))
            }
            _ => {
                let w = ty.bits();
                if w == 0 {
                    return a.clone();
                }
                if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
                    if x == y {
                        return a.clone();
                    }
                }
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let r = self.ar.ite(c, x, y);
                self.val(r)
            }
        }
    }
    fn load_leaf(&mut self, st: &mut State, e: Ex, ty: &Ty) -> V {
        if let Some(c) = self.ar.cval(e) {
            let l = self.find(st, c as u64, ty.size().max(1)).unwrap();
            let (ob, o) = self.obj(st, l);
            return self.load_ty(&ob, o as usize, ty);
        }
        let n = *self.ar.n(e);
        let a = self.load_leaf(st, n.b, ty);
        let b = self.load_leaf(st, n.c, ty);
        self.ite_val(n.a, ty, &a, &b)
    }
    fn store_size(ty: &Ty) -> u64 {
        match ty {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, e) => (*n as u64 * e.bits() as u64 + 7) / 8,
            t => t.size(),
        }
    }
    fn load(&mut self, st: &mut State, p: &V, ty: &Ty) -> R<V> {
        let n = Self::store_size(ty);
        match p {
            V::I(a) => {
                let l = match self.find(st, *a, n) {
                    Ok(l) => l,
                    Err(s) => return Err(self.oob("read", s)),
                };
                let r = match l {
                    Loc::Heap(i, o) => {
                        let ob = st.heap[i].obj.clone();
                        self.load_ty(&ob, o as usize, ty)
                    }
                    Loc::Stack(i, o) => {
                        let ob = st.stack[i].obj.clone();
                        self.load_ty(&ob, o as usize, ty)
                    }
                    Loc::Glob(i, o) => {
                        let ob = self.glob_obj(st, i);
                        self.load_ty(&ob, o as usize, ty)
                    }
                };
                Ok(self.pin(st, r))
            }
            V::S(e) => {
                let e = *e;
                if self.ar.n(e).op == Op::Ite {
                    let mut ls = vec![];
                    if self.leaves(e, &mut ls) && ls.iter().all(|a| self.find(st, *a, n).is_ok()) {
                        return Ok(self.load_leaf(st, e, ty));
                    }
                    let c = self.ar.n(e).a;
                    let (x, y) = (self.ar.n(e).b, self.ar.n(e).c);
                    let t = self.decide(st, c)?;
                    let p2 = self.val(if t { x } else { y });
                    let p2 = self.pin(st, p2);
                    return self.load(st, &p2, ty);
                }
                let (l, off, lo, hi, tz) = self.resolve(st, e, n, "read")?;
                let cnt = ((hi >> tz) - (lo >> tz)) as usize + 1;
                let (ob, _) = self.obj(st, l);
                if cnt > 70000 || (cnt > 64 && ty.bits() == 0) {
                    let a = self.concretise(st, e)?;
                    return self.load(st, &V::I(a as u64), ty);
                }
                let (klo, khi) = (lo >> tz, hi >> tz);
                let low = lo & ((1 << tz) - 1);
                let bits = 64 - khi.leading_zeros();
                if self.cfg.split && self.table(&ob, lo, hi, n) {
                    if let Some(v) = self.split(st, &ob, off, lo, hi, ty)? {
                        return Ok(v);
                    }
                }
                let r = self.mux(&st.pins, &ob, off, tz, bits, 0, klo, khi, low, ty);
                Ok(self.pin(st, r))
            }
            _ => panic!("pointer"),
        }
    }
    /// every byte of this part of the object is a constant
    fn table(&self, ob: &Obj, lo: u64, hi: u64, n: u64) -> bool {
        ob.is_concrete(lo as usize, (hi + n - lo) as usize)
    }
    /// Look-up in a constant table: follow the index bits, lowest first, until the
    /// entries that are left agree (what a prefix code table is built for).
    fn split(&mut self, st: &mut State, ob: &Obj, off: Ex, lo: u64, hi: u64, ty: &Ty) -> R<Option<V>> {
        // off = x + base, x = k << tz
        let n = *self.ar.n(off);
        let (mut x, mut base) = (off, 0u64);
        if n.op == Op::Add {
            if let Some(c) = self.ar.cval(n.b) {
                x = n.a;
                base = c as u64;
            }
        }
        let inf = &self.ar.info[x as usize];
        let tz = (!inf.kz as u64).trailing_zeros().min(12);
        let (xlo, xhi) = (lo.wrapping_sub(base), hi.wrapping_sub(base));
        let (xlo, xhi) = (xlo.max(inf.lo as u64), xhi.min(inf.hi as u64));
        if xlo > xhi || xhi - xlo > 1 << 20 {
            return Ok(None);
        }
        let off = x;
        let (klo, khi) = ((xlo + (1 << tz) - 1) >> tz, xhi >> tz);
        let bits = 64 - khi.leading_zeros();
        if klo > khi || bits > 12 {
            return Ok(None);
        }
        let mut fuel = 400;
        let (m, v) = self.known(st, off, 40, &mut fuel);
        let (mut m, mut v) = ((m >> tz) as u64, (v >> tz) as u64);
        // what each index selects
        let mut ids: Vec<u32> = vec![];
        let mut vals: Vec<V> = vec![];
        let mut seen: HashMap<u128, u32> = HashMap::new();
        for k in klo..=khi {
            if (k ^ v) & m != 0 {
                ids.push(u32::MAX);
                continue;
            }
            let x = self.load_ty(ob, (k << tz).wrapping_add(base) as usize, ty);
            let Some(c) = x.conc() else { return Ok(None) };
            let id = *seen.entry(c).or_insert_with(|| {
                vals.push(x);
                vals.len() as u32 - 1
            });
            ids.push(id);
        }
        loop {
            let at = |k: u64| -> u32 {
                if k < klo || k > khi || (k ^ v) & m != 0 { u32::MAX } else { ids[(k - klo) as usize] }
            };
            // the bit on which most entries depend
            let mut best = (0, 0);
            let mut any = u32::MAX;
            for b in 0..bits {
                if m >> b & 1 == 1 {
                    continue;
                }
                let mut n = 0;
                for k in klo..=khi {
                    if k >> b & 1 == 0 {
                        let (x, y) = (at(k), at(k | 1 << b));
                        n += (x != y && x != u32::MAX && y != u32::MAX) as u32;
                    }
                }
                if n > best.0 {
                    best = (n, b);
                }
            }
            let mut same = true;
            for k in klo..=khi {
                let x = at(k);
                if x != u32::MAX {
                    if any != u32::MAX && any != x {
                        same = false;
                        break;
                    }
                    any = x;
                }
            }
            if same {
                return Ok(if any == u32::MAX { None } else { Some(vals[any as usize].clone()) });
            }
            if best.0 == 0 {
                return Ok(None);
            }
            let b = best.1;
            let c = self.ar.extract(off, (tz + b) as u16, 1);
            let t = self.decide(st, c)?;
            m |= 1 << b;
            v = (v & !(1 << b)) | (t as u64) << b;
        }
    }
    fn mux(
        &mut self,
        pins: &FxMap<Ex, u128>,
        ob: &Obj,
        off: Ex,
        tz: u32,
        bit: u32,
        pre: u64,
        klo: u64,
        khi: u64,
        low: u64,
        ty: &Ty,
    ) -> V {
        // pre: value of the index bits at and above `bit`
        let first = pre;
        let last = pre | if bit >= 64 { u64::MAX } else { (1u64 << bit) - 1 };
        if bit == 0 || last <= klo || first >= khi {
            let k = first.max(klo).min(khi);
            // clamp: anything outside the range cannot happen
            let k = if last <= klo { klo } else { k };
            return self.load_ty(ob, ((k << tz) + low) as usize, ty);
        }
        let b = bit - 1;
        let c = self.ar.extract(off, (tz + b) as u16, 1);
        let known = self.ar.cval(c).or_else(|| pins.get(&c).copied());
        if known == Some(0) || (pre | (1 << b)) > khi {
            return self.mux(pins, ob, off, tz, b, pre, klo, khi, low, ty);
        }
        if known == Some(1) {
            return self.mux(pins, ob, off, tz, b, pre | (1 << b), klo, khi, low, ty);
        }
        let l = self.mux(pins, ob, off, tz, b, pre, klo, khi, low, ty);
        let h = self.mux(pins, ob, off, tz, b, pre | (1 << b), klo, khi, low, ty);
        self.ite_val(c, ty, &h, &l)
    }
    fn store(&mut self, st: &mut State, p: &V, ty: &Ty, v: &V) -> R<()> {
        let n = Self::store_size(ty);
        match p {
            V::I(a) => {
                let l = match self.find(st, *a, n) {
                    Ok(l) => l,
                    Err(s) => return Err(self.oob("write", s)),
                };
                // take the object out to keep the borrow checker content
                self.store_at(st, l, ty, v)
            }
            V::S(e) => {
                let e = *e;
                if self.ar.n(e).op == Op::Ite {
                    let c = self.ar.n(e).a;
                    let (x, y) = (self.ar.n(e).b, self.ar.n(e).c);
                    let mut ls = vec![];
                    if self.ar.cval(x).is_some()
                        && self.ar.cval(y).is_some()
                        && self.leaves(e, &mut ls)
                        && ls.iter().all(|a| self.find(st, *a, n).is_ok())
                        && ty.bits() != 0
                    {
                        for (leaf, pos) in [(x, true), (y, false)] {
                            let pa = self.val(leaf);
                            let old = self.load(st, &pa, ty)?;
                            let nv = if pos {
                                self.ite_val(c, ty, v, &old)
                            } else {
                                self.ite_val(c, ty, &old, v)
                            };
                            self.store(st, &pa, ty, &nv)?;
                        }
                        return Ok(());
                    }
                    let t = self.decide(st, c)?;
                    let p2 = self.val(if t { x } else { y });
                    let p2 = self.pin(st, p2);
                    return self.store(st, &p2, ty, v);
                }
                let (l, off, lo, hi, tz) = self.resolve(st, e, n, "write")?;
                let cnt = ((hi >> tz) - (lo >> tz)) as usize + 1;
                if self.cfg.split || cnt > 1100 || ty.bits() == 0 {
                    let a = self.concretise(st, e)?;
                    return self.store(st, &V::I(a as u64), ty, v);
                }
                let w = ty.bits();
                let mut k = lo;
                while k <= hi {
                    let lk = match l {
                        Loc::Heap(i, _) => Loc::Heap(i, k),
                        Loc::Stack(i, _) => Loc::Stack(i, k),
                        Loc::Glob(i, _) => Loc::Glob(i, k),
                    };
                    let kk = self.ar.konst(k as u128, 64);
                    let c = self.ar.eq(off, kk);
                    if !self.ar.is_false(c) {
                        let (ob, o) = self.obj(st, lk);
                        let old = self.load_ty(&ob, o as usize, ty);
                        let nv = {
                            let a = self.ex(v, w);
                            let b = self.ex(&old, w);
                            let r = self.ar.ite(c, a, b);
                            self.val(r)
                        };
                        drop(ob);
                        self.store_at(st, lk, ty, &nv)?;
                    }
                    k += 1 << tz;
                }
                Ok(())
            }
            _ => panic!("pointer"),
        }
    }
    fn store_at(&mut self, st: &mut State, l: Loc, ty: &Ty, v: &V) -> R<()> {
        let mut tmp;
        let o;
        {
            let z = self.zobj.clone();
            match l {
                Loc::Heap(i, k) => {
                    tmp = std::mem::replace(&mut st.heap[i].obj, z);
                    o = k;
                }
                Loc::Stack(i, k) => {
                    tmp = std::mem::replace(&mut st.stack[i].obj, z);
                    o = k;
                }
                Loc::Glob(i, k) => {
                    if self.m.globs.borrow()[i].konst {
                        return Err(Ctl::Viol("memory".into(), "write to constant data".into()));
                    }
                    self.glob_obj(st, i);
                    tmp = std::mem::replace(st.globs.get_mut(&i).unwrap(), z);
                    o = k;
                }
            }
        }
        self.store_ty(Rc::make_mut(&mut tmp), o as usize, ty, v);
        match l {
            Loc::Heap(i, _) => st.heap[i].obj = tmp,
            Loc::Stack(i, _) => st.stack[i].obj = tmp,
            Loc::Glob(i, _) => {
                st.globs.insert(i, tmp);
            }
        }
        Ok(())
    }
    fn loc(&mut self, st: &mut State, p: &V, n: u64, what: &str) -> R<Loc> {
        let a = self.conc_ptr(st, p)?;
        match self.find(st, a, n) {
            Ok(l) => Ok(l),
            Err(s) => Err(self.oob(what, s)),
        }
    }
    fn conc_ptr(&mut self, st: &mut State, p: &V) -> R<u64> {
        Ok(match p {
            V::I(a) => *a,
            V::S(e) => self.concretise(st, *e)? as u64,
            _ => panic!("pointer"),
        })
    }
    fn read_raw(&mut self, st: &mut State, l: Loc, n: usize) -> (Vec<u8>, Vec<Ex>) {
        self.with_obj(st, l, |ob, o| {
            (
                ob.data[o..o + n].to_vec(),
                if ob.sym.is_empty() || ob.sym[o..o + n].iter().all(|x| *x == 0) {
                    vec![]
                } else {
                    ob.sym[o..o + n].to_vec()
                },
            )
        })
    }
    fn write_raw(&mut self, st: &mut State, l: Loc, d: &[u8], s: &[Ex]) -> R<()> {
        let (ob, o) = self.obj_mut(st, l)?;
        ob.data[o..o + d.len()].copy_from_slice(d);
        if !s.is_empty() {
            if ob.sym.is_empty() {
                ob.sym = vec![0; ob.data.len()];
            }
            ob.sym[o..o + d.len()].copy_from_slice(s);
        } else if !ob.sym.is_empty() {
            for x in &mut ob.sym[o..o + d.len()] {
                *x = 0;
            }
        }
        Ok(())
    }
    fn byte_ex(&mut self, d: &[u8], s: &[Ex], i: usize) -> Ex {
        if !s.is_empty() && s[i] != 0 {
            s[i]
        } else {
            self.ar.konst(d[i] as u128, 8)
        }
    }
    fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: &V) -> R<()> {
        let n = self.conc(st, n)? as u64;
        if n == 0 {
            return Ok(());
        }
        // small copies through symbolic pointers become typed loads / stores
        if matches!(s, V::S(_)) && n <= 16 {
            let ty = Ty::Int((8 * n) as u16);
            let v = self.load(st, s, &ty)?;
            return self.store(st, d, &ty, &v);
        }
        if matches!(d, V::S(_)) && n <= 16 {
            let ty = Ty::Int((8 * n) as u16);
            let v = self.load(st, s, &ty)?;
            return self.store(st, d, &ty, &v);
        }
        let ls = self.loc(st, s, n, "read")?;
        let ld = self.loc(st, d, n, "write")?;
        let (b, e) = self.read_raw(st, ls, n as usize);
        self.write_raw(st, ld, &b, &e)
    }
    pub fn malloc(&mut self, st: &mut State, n: u64, align: u64, fill: u8) -> R<u64> {
        if n > self.cfg.max_alloc {
            return Err(Ctl::Viol("alloc".into(), format!("allocation request above {} bytes", self.cfg.max_alloc)));
        }
        let a = align.max(16);
        let base = (st.hp + 32 + a - 1) / a * a;
        st.hp = base + n.max(1) + 32;
        st.live += n;
        st.allocs += 1;
        st.heap.push(Ent { base, size: n, obj: Rc::new(Obj::new(n as usize, fill)), freed: false });
        Ok(base)
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let i = st.heap.partition_point(|e| e.base <= a);
        if i == 0 || st.heap[i - 1].base != a || st.heap[i - 1].freed {
            return Err(Ctl::Viol("memory".into(), "free of an invalid pointer".into()));
        }
        let e = &mut st.heap[i - 1];
        e.freed = true;
        st.live -= e.size;
        e.obj = self.zobj.clone();
        Ok(())
    }

    // ------------------------------------------------------------ scalar operations
    pub fn bin1(&mut self, op: B, w: u16, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                let r = match op {
                    B::Add => x.wrapping_add(y),
                    B::Sub => x.wrapping_sub(y),
                    B::Mul => x.wrapping_mul(y),
                    B::And => x & y,
                    B::Or => x | y,
                    B::Xor => x ^ y,
                    B::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    B::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    B::AShr => (sx(x) >> y.min(w as u64 - 1)) as u64,
                    B::UDiv => x.checked_div(y).unwrap_or(m),
                    B::URem => x.checked_rem(y).unwrap_or(x),
                    B::SDiv => {
                        if y == 0 {
                            0
                        } else {
                            sx(x).wrapping_div(sx(y)) as u64
                        }
                    }
                    B::SRem => {
                        if y == 0 {
                            x
                        } else {
                            sx(x).wrapping_rem(sx(y)) as u64
                        }
                    }
                };
                return V::I(r & m);
            }
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = match op {
            B::Add => self.ar.add(x, y),
            B::Sub => self.ar.sub(x, y),
            B::Mul => self.ar.mul(x, y),
            B::And => self.ar.and(x, y),
            B::Or => self.ar.or(x, y),
            B::Xor => self.ar.xor(x, y),
            B::Shl => self.ar.shl(x, y),
            B::LShr => self.ar.lshr(x, y),
            B::AShr => self.ar.ashr(x, y),
            B::UDiv => self.ar.udiv(x, y),
            B::URem => self.ar.urem(x, y),
            B::SDiv => self.ar.sdiv(x, y),
            B::SRem => self.ar.srem(x, y),
        };
        self.val(r)
    }
    pub fn icmp1(&mut self, p: P, w: u16, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sx = |v: u64| if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) };
            let r = match p {
                P::Eq => x == y,
                P::Ne => x != y,
                P::Ugt => x > y,
                P::Uge => x >= y,
                P::Ult => x < y,
                P::Ule => x <= y,
                P::Sgt => sx(x) > sx(y),
                P::Sge => sx(x) >= sx(y),
                P::Slt => sx(x) < sx(y),
                P::Sle => sx(x) <= sx(y),
            };
            return V::I(r as u64);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = match p {
            P::Eq => self.ar.eq(x, y),
            P::Ne => self.ar.ne(x, y),
            P::Ugt => self.ar.ult(y, x),
            P::Uge => self.ar.ule(y, x),
            P::Ult => self.ar.ult(x, y),
            P::Ule => self.ar.ule(x, y),
            P::Sgt => self.ar.slt(y, x),
            P::Sge => self.ar.sle(y, x),
            P::Slt => self.ar.slt(x, y),
            P::Sle => self.ar.sle(x, y),
        };
        self.val(r)
    }
    pub fn fbin1(&mut self, op: char, w: u16, a: &V, b: &V) -> V {
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let o = match op {
            '+' => Op::FAdd,
            '-' => Op::FSub,
            '*' => Op::FMul,
            '/' => Op::FDiv,
            _ => Op::FRem,
        };
        let r = self.ar.fop(o, w, x, y, 0, 0);
        self.val(r)
    }
    pub fn fcmp1(&mut self, p: &str, w: u16, a: &V, b: &V) -> V {
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let ar = &mut self.ar;
        let nan = {
            let p1 = ar.fop(Op::FNan, 1, x, 0, 0, 0);
            let p2 = ar.fop(Op::FNan, 1, y, 0, 0, 0);
            ar.or(p1, p2)
        };
        let base = match &p[1..] {
            "eq" => ar.fop(Op::FEq, 1, x, y, 0, 0),
            "ne" => {
                let e = ar.fop(Op::FEq, 1, x, y, 0, 0);
                let ne = ar.not(e);
                if p.starts_with('u') {
                    return self.val(ne);
                }
                let nn = ar.not(nan);
                ar.and(ne, nn)
            }
            "lt" => ar.fop(Op::FLt, 1, x, y, 0, 0),
            "le" => ar.fop(Op::FLe, 1, x, y, 0, 0),
            "gt" => ar.fop(Op::FLt, 1, y, x, 0, 0),
            "ge" => ar.fop(Op::FLe, 1, y, x, 0, 0),
            "no" => nan, // uno
            "rd" => ar.not(nan), // ord
            "rue" => ar.tru(),
            _ => ar.fls(),
        };
        let r = if p.starts_with('u') && p != "uno" && p != "une" { ar.or(base, nan) } else { base };
        self.val(r)
    }
    pub fn cast1(&mut self, op: C, fw: u16, tw: u16, a: &V) -> V {
        match op {
            C::Same => a.clone(),
            C::Trunc | C::ZExt => {
                if let Some(x) = a.conc() {
                    return V::of(x, tw);
                }
                let e = self.ex(a, fw);
                let r = if tw < fw { self.ar.trunc(e, tw) } else { self.ar.zext(e, tw) };
                self.val(r)
            }
            C::SExt => {
                if let Some(x) = a.conc() {
                    return V::of(sext(x, fw) as u128, tw);
                }
                let e = self.ex(a, fw);
                let r = self.ar.sext(e, tw);
                self.val(r)
            }
            _ => {
                let e = self.ex(a, fw);
                let o = match op {
                    C::FpTrunc => Op::FTrunc,
                    C::FpExt => Op::FExt,
                    C::FpToUi => Op::FToUI,
                    C::FpToSi => Op::FToSI,
                    C::UiToFp => Op::UIToF,
                    _ => Op::SIToF,
                };
                let r = self.ar.fop(o, tw, e, 0, 0, 0);
                self.val(r)
            }
        }
    }
    fn lanes2(&mut self, a: &V, b: &V, mut f: impl FnMut(&mut Self, &V, &V) -> V) -> V {
        if let (V::A(x), V::A(y)) = (a, b) {
            let out = (0..x.len()).map(|i| f(self, &x[i], &y[i])).collect();
            V::A(Rc::new(out))
        } else {
            panic!("vector operands")
        }
    }
    fn lanes1(&mut self, a: &V, mut f: impl FnMut(&mut Self, &V) -> V) -> V {
        if let V::A(x) = a {
            let out = (0..x.len()).map(|i| f(self, &x[i])).collect();
            V::A(Rc::new(out))
        } else {
            panic!("vector operand")
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let phis = &f.blocks[to as usize].phis;
        if !phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(phis.len());
            for ph in phis {
                let mut found = false;
                for (b, o) in &ph.src {
                    if *b == from {
                        vals.push((ph.d, self.get(st, o)));
                        found = true;
                        break;
                    }
                }
                if !found {
                    panic!("phi without predecessor in {}", f.name);
                }
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.blk as usize].ins[fr.ip as usize];
        match ins {
            Ins::Bin { op, w, n, d, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = if *n == 0 {
                    self.bin1(*op, *w, &x, &y)
                } else {
                    self.lanes2(&x, &y, |s, p, q| s.bin1(*op, *w, p, q))
                };
                self.set(st, *d, r);
            }
            Ins::ICmp { p, w, n, d, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = if *n == 0 {
                    self.icmp1(*p, *w, &x, &y)
                } else {
                    self.lanes2(&x, &y, |s, u, v| s.icmp1(*p, *w, u, v))
                };
                self.set(st, *d, r);
            }
            Ins::FBin { op, w, n, d, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = if *n == 0 {
                    self.fbin1(*op, *w, &x, &y)
                } else {
                    self.lanes2(&x, &y, |s, u, v| s.fbin1(*op, *w, u, v))
                };
                self.set(st, *d, r);
            }
            Ins::FNeg { w, n, d, a } => {
                let x = self.get(st, a);
                let sb = V::of(1u128 << (*w - 1), *w);
                let r = if *n == 0 {
                    self.bin1(B::Xor, *w, &x, &sb)
                } else {
                    self.lanes1(&x, |s, u| s.bin1(B::Xor, *w, u, &sb))
                };
                self.set(st, *d, r);
            }
            Ins::FCmp { p, w, n, d, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = if *n == 0 {
                    self.fcmp1(p, *w, &x, &y)
                } else {
                    self.lanes2(&x, &y, |s, u, v| s.fcmp1(p, *w, u, v))
                };
                self.set(st, *d, r);
            }
            Ins::Cast { op, ft, tt, d, a } => {
                let x = self.get(st, a);
                let r = if *op == C::Bitcast {
                    self.bitcast(&x, ft, tt)
                } else if ft.lanes() == 0 {
                    self.cast1(*op, ft.bits(), tt.bits(), &x)
                } else {
                    let (fw, tw) = (ft.elem().bits(), tt.elem().bits());
                    self.lanes1(&x, |s, u| s.cast1(*op, fw, tw, u))
                };
                self.set(st, *d, r);
            }
            Ins::Alloca { d, size, align, n } => {
                let nv = self.get(st, n);
                let n = self.conc(st, &nv)? as u64;
                let al = (*align).max(16);
                let base = (st.sp + 16 + al - 1) / al * al;
                st.sp = base + size * n + 16;
                st.stack.push(Ent { base, size: size * n, obj: Rc::new(Obj::new((size * n) as usize, 0)), freed: false });
                self.set(st, *d, V::I(base));
            }
            Ins::Load { d, ty, p } => {
                let pv = self.get(st, p);
                let v = self.load(st, &pv, ty)?;
                self.set(st, *d, v);
            }
            Ins::Store { ty, v, p } => {
                let vv = self.get(st, v);
                let pv = self.get(st, p);
                self.store(st, &pv, ty, &vv)?;
            }
            Ins::Gep { d, base, off, terms } => {
                let b = self.get(st, base);
                let mut conc = *off;
                let mut sym = 0;
                for (o, w, scale) in terms {
                    match self.get(st, o) {
                        V::I(x) => conc = conc.wrapping_add((sext(x as u128, *w) as i64).wrapping_mul(*scale)),
                        V::S(e) => {
                            let e = if *w < 64 { self.ar.sext(e, 64) } else { e };
                            let k = self.ar.konst(*scale as u64 as u128, 64);
                            let t = self.ar.mul(e, k);
                            sym = if sym == 0 { t } else { self.ar.add(sym, t) };
                        }
                        V::A(_) => return Err(Ctl::Unsupported("vector gep".into())),
                        V::W(_) => unreachable!(),
                    }
                }
                let r = match b {
                    V::I(x) if sym == 0 => V::I(x.wrapping_add(conc as u64)),
                    b => {
                        let be = self.ex(&b, 64);
                        let k = self.ar.konst(conc as u64 as u128, 64);
                        let mut r = self.ar.add(be, k);
                        if sym != 0 {
                            r = self.ar.add(r, sym);
                        }
                        self.val(r)
                    }
                };
                self.set(st, *d, r);
            }
            Ins::Select { d, lanes, ty, c, a, b } => {
                let cv = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = if *lanes == 0 {
                    match cv {
                        V::I(1) => x,
                        V::I(_) => y,
                        V::S(e) => {
                            if st.nofork > 0 {
                                if self.decide(st, e)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.ite_val(e, ty, &x, &y)
                            }
                        }
                        _ => panic!("select"),
                    }
                } else if let (V::A(cv), V::A(x), V::A(y)) = (&cv, &x, &y) {
                    let et = ty.elem().clone();
                    let mut out = vec![];
                    for i in 0..cv.len() {
                        out.push(match &cv[i] {
                            V::I(1) => x[i].clone(),
                            V::I(_) => y[i].clone(),
                            V::S(e) => self.ite_val(*e, &et, &x[i], &y[i]),
                            _ => panic!("select"),
                        });
                    }
                    V::A(Rc::new(out))
                } else {
                    panic!("select")
                };
                self.set(st, *d, r);
            }
            Ins::ExtractV { d, a, idx } => {
                let mut v = self.get(st, a);
                for i in idx {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                self.set(st, *d, v);
            }
            Ins::InsertV { d, a, v, idx } => {
                let mut agg = self.get(st, a);
                let nv = self.get(st, v);
                fn ins(a: &mut V, idx: &[u32], v: V) {
                    if idx.is_empty() {
                        *a = v;
                        return;
                    }
                    if let V::A(x) = a {
                        let x = Rc::make_mut(x);
                        ins(&mut x[idx[0] as usize], &idx[1..], v);
                    }
                }
                ins(&mut agg, idx, nv);
                self.set(st, *d, agg);
            }
            Ins::ExtractE { d, a, i } => {
                let v = self.get(st, a);
                let iv = self.get(st, i);
                let k = self.conc(st, &iv)? as usize;
                if let V::A(x) = v {
                    self.set(st, *d, x[k].clone());
                }
            }
            Ins::InsertE { d, a, v, i } => {
                let mut agg = self.get(st, a);
                let nv = self.get(st, v);
                let iv = self.get(st, i);
                let k = self.conc(st, &iv)? as usize;
                if let V::A(x) = &mut agg {
                    Rc::make_mut(x)[k] = nv;
                }
                self.set(st, *d, agg);
            }
            Ins::Shuffle { d, a, b, m, n } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if let (V::A(x), V::A(y)) = (x, y) {
                    let out = m
                        .iter()
                        .map(|k| {
                            if *k < 0 {
                                V::I(0)
                            } else if (*k as u32) < *n {
                                x[*k as usize].clone()
                            } else {
                                y[(*k as u32 - n) as usize].clone()
                            }
                        })
                        .collect();
                    self.set(st, *d, V::A(Rc::new(out)));
                }
            }
            Ins::Br(t) => return self.jump(st, *t),
            Ins::CondBr(c, t, e) => {
                let v = self.get(st, c);
                let b = match v {
                    V::I(x) => x & 1 == 1,
                    V::S(x) => self.decide(st, x)?,
                    _ => panic!("br"),
                };
                return self.jump(st, if b { *t } else { *e });
            }
            Ins::Switch { v, w, def, cases } => {
                let x = self.get(st, v);
                if let Some(k) = x.conc() {
                    let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                    return self.jump(st, t);
                }
                let e = self.ex(&x, *w);
                // group by target
                let mut targets: Vec<(u32, Ex)> = vec![];
                for (k, t) in cases {
                    let kk = self.ar.konst(*k, *w);
                    let c = self.ar.eq(e, kk);
                    if self.ar.is_false(c) {
                        continue;
                    }
                    match targets.iter_mut().find(|x| x.0 == *t) {
                        Some(y) => y.1 = self.ar.or(y.1, c),
                        None => targets.push((*t, c)),
                    }
                }
                // the model's own target first keeps the number of queries low
                self.ar.eval_begin();
                let mv = self.ar.eval(e, &st.model);
                let mt = cases.iter().find(|c| c.0 == mv).map(|c| c.1);
                if let Some(mt) = mt {
                    if let Some(p) = targets.iter().position(|x| x.0 == mt) {
                        let x = targets.remove(p);
                        targets.insert(0, x);
                    }
                }
                for (t, c) in targets {
                    if t == *def {
                        continue;
                    }
                    if self.decide(st, c)? {
                        return self.jump(st, t);
                    }
                }
                return self.jump(st, *def);
            }
            Ins::Ret(o) => {
                let v = o.as_ref().map(|o| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                if fr.f.nofork {
                    st.nofork -= 1;
                }
                st.stack.truncate(fr.smark);
                st.sp = fr.sp;
                if st.frames.is_empty() {
                    return Err(Ctl::Exit);
                }
                if let (Some(d), Some(v)) = (fr.ret, v) {
                    self.set(st, d, v);
                }
                if let Some(n) = fr.normal {
                    return self.jump(st, n);
                }
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
            Ins::Unreachable => {
                return Err(Ctl::Viol("unreachable".into(), "execution reached `unreachable`".into()));
            }
            Ins::Freeze { d, a } => {
                let v = self.get(st, a);
                self.set(st, *d, v);
            }
            Ins::Rmw { op, d, p, v, ty } => {
                let pv = self.get(st, p);
                let vv = self.get(st, v);
                let old = self.load(st, &pv, ty)?;
                let w = ty.bits();
                let nv = match op.as_str() {
                    "xchg" => vv,
                    "add" => self.bin1(B::Add, w, &old, &vv),
                    "sub" => self.bin1(B::Sub, w, &old, &vv),
                    "and" => self.bin1(B::And, w, &old, &vv),
                    "or" => self.bin1(B::Or, w, &old, &vv),
                    "xor" => self.bin1(B::Xor, w, &old, &vv),
                    o => return Err(Ctl::Unsupported(format!("atomicrmw {}", o))),
                };
                self.store(st, &pv, ty, &nv)?;
                self.set(st, *d, old);
            }
            Ins::CmpXchg { d, p, c, n, ty } => {
                let pv = self.get(st, p);
                let cv = self.get(st, c);
                let nv = self.get(st, n);
                let old = self.load(st, &pv, ty)?;
                let (o, k) = (self.conc(st, &old)?, self.conc(st, &cv)?);
                let ok = o == k;
                if ok {
                    self.store(st, &pv, ty, &nv)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::I(ok as u64)])));
            }
            Ins::Call { d, f: callee, args, tys, rt, normal } => {
                let id = match callee {
                    Callee::Fn(id) => *id,
                    Callee::Ind(o) => {
                        let v = self.get(st, o);
                        let a = self.conc_ptr(st, &v)?;
                        if a < CODE || a >= GLOB || (a - CODE) % 16 != 0 || a == CODE {
                            return Err(Ctl::Viol("memory".into(), "call through an invalid pointer".into()));
                        }
                        ((a - CODE) / 16 - 1) as u32
                    }
                    Callee::Asm(t, c) => {
                        let vs: Vec<V> = args.iter().map(|a| self.get(st, a)).collect();
                        let r = self.asm(st, t, c, &vs, rt)?;
                        if let Some(d) = d {
                            self.set(st, *d, r);
                        }
                        return self.after(st, *normal);
                    }
                };
                return self.call(st, id, args, tys, rt, *d, *normal);
            }
            Ins::Bad(s) => return Err(Ctl::Unsupported(s.clone())),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }
    fn after(&mut self, st: &mut State, normal: Option<u32>) -> R<()> {
        if let Some(n) = normal {
            return self.jump(st, n);
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }
    pub fn bitcast(&mut self, v: &V, ft: &Ty, tt: &Ty) -> V {
        let (fl, tl) = (ft.lanes(), tt.lanes());
        if fl == 0 && tl == 0 {
            return v.clone();
        }
        let (fw, tw) = (ft.elem().bits(), tt.elem().bits());
        if fl == tl {
            return v.clone();
        }
        if fl == 0 {
            return self.split_bits(v, tl, tw);
        }
        if let V::A(a) = v {
            let a = a.clone();
            if tl == 0 {
                return self.join_bits(&a, fw);
            }
            let mut out = vec![];
            if tw > fw {
                let k = (tw / fw) as usize;
                for c in a.chunks(k) {
                    out.push(self.join_bits(c, fw));
                }
            } else {
                let k = fw / tw;
                for x in a.iter() {
                    if let V::A(p) = self.split_bits(x, k as u32, tw) {
                        out.extend(p.iter().cloned());
                    }
                }
            }
            return V::A(Rc::new(out));
        }
        panic!("bitcast")
    }
    fn asm(&mut self, _st: &mut State, t: &str, _c: &str, args: &[V], rt: &Ty) -> R<V> {
        if t.contains("cpuid") {
            // inputs: eax leaf, ecx sub-leaf (in whatever order the constraint list gives them)
            let nums: Vec<u64> = args.iter().map(|v| v.conc().unwrap_or(0) as u64).collect();
            let leaf = nums.first().copied().unwrap_or(0);
            let (a, b, c, d): (u64, u64, u64, u64) = if self.cfg.simd == 0 {
                (0, 0, 0, 0)
            } else {
                match leaf {
                    0 => (7, 0x756e6547, 0x6c65746e, 0x49656e69),
                    1 if self.cfg.simd == 1 => (0, 0, 1 | 1 << 1 | 1 << 9 | 1 << 19 | 1 << 20 | 1 << 23, 1 << 23 | 1 << 24 | 1 << 25 | 1 << 26),
                    7 if self.cfg.simd == 1 => (0, 0, 0, 0),
                    1 => (0, 0, 1 | 1 << 1 | 1 << 9 | 1 << 19 | 1 << 20 | 1 << 26 | 1 << 27 | 1 << 28 | 1 << 23, 1 << 23 | 1 << 24 | 1 << 25 | 1 << 26),
                    7 => (0, 1 << 5, 0, 0),
                    0x8000_0000 => (0x8000_0000, 0, 0, 0),
                    _ => (0, 0, 0, 0),
                }
            };
            if let Ty::Struct(fs, _) = rt {
                // {eax, ebx(reg), ecx, edx}
                let all = [a, b, c, d];
                return Ok(V::A(Rc::new((0..fs.len()).map(|i| V::I(all[i.min(3)])).collect())));
            }
            return Err(Ctl::Unsupported("cpuid shape".into()));
        }
        if t.trim().is_empty() {
            if matches!(rt, Ty::Void) {
                return Ok(V::I(0));
            }
            return Ok(args.first().cloned().unwrap_or(V::I(0)));
        }
        Err(Ctl::Unsupported(format!("inline asm {}", t)))
    }

    // ------------------------------------------------------------ calls
    fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<V>, d: Option<u32>, normal: Option<u32>) -> R<()> {
        if st.frames.len() > 400 {
            return Err(Ctl::Viol("stack".into(), "call depth above 400".into()));
        }
        self.fns_used.insert(f.id);
        let mut regs = vec![V::I(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() {
            if i < args.len() {
                regs[*p as usize] = args[i].clone();
            }
        }
        if f.nofork {
            st.nofork += 1;
        }
        let smark = st.stack.len();
        let sp = st.sp;
        st.frames.push(Frame { f, blk: 0, ip: 0, regs, ret: d, normal, smark, sp });
        Ok(())
    }
    fn call(
        &mut self,
        st: &mut State,
        id: u32,
        args: &[O],
        tys: &[T],
        rt: &T,
        d: Option<u32>,
        normal: Option<u32>,
    ) -> R<()> {
        let kind = match self.fkind.get(&id) {
            Some(k) => k.0,
            None => {
                let n = self.m.fn_name(id);
                let k = if n.starts_with("llvm.") || crate::builtins::is_builtin(&n) {
                    1
                } else if n.contains("4core9panicking") || n == "abort" || n.contains("rust_panic") {
                    2
                } else {
                    0
                };
                self.fkind.insert(id, (k, n));
                k
            }
        };
        let vs: Vec<V> = args.iter().map(|a| self.get(st, a)).collect();
        match kind {
            0 => {
                let f = match self.m.func(id) {
                    Some(f) => f,
                    None => return Err(Ctl::Unsupported(format!("call of external {}", self.m.fn_name(id)))),
                };
                self.push_frame(st, f, vs, d, normal)
            }
            1 => {
                let name = self.fkind[&id].1.clone();
                let r = self.builtin(st, &name, &vs, tys, rt)?;
                if let Some(d) = d {
                    self.set(st, d, r);
                }
                self.after(st, normal)
            }
            _ => {
                let name = self.fkind[&id].1.clone();
                let det = self.panic_detail(st, &name, &vs);
                Err(Ctl::Viol("panic".into(), det))
            }
        }
    }
    fn panic_detail(&mut self, st: &mut State, name: &str, vs: &[V]) -> String {
        let short = name.rsplit(|c: char| c.is_ascii_digit()).next().unwrap_or(name).to_string();
        // look for a Location argument: {ptr, len, line, col}
        for v in vs.iter().rev() {
            if let V::I(a) = v {
                if *a >= GLOB && *a < HEAP {
                    let p = self.load(st, &V::I(*a), &Ty::Ptr).ok();
                    let n = self.load(st, &V::I(*a + 8), &Ty::Int(64)).ok();
                    let l = self.load(st, &V::I(*a + 16), &Ty::Int(32)).ok();
                    if let (Some(V::I(p)), Some(V::I(n)), Some(V::I(l))) = (p, n, l) {
                        if n > 3 && n < 300 {
                            if let Ok(loc) = self.find(st, p, n) {
                                let (d, _) = self.read_raw(st, loc, n as usize);
                                if let Ok(s) = String::from_utf8(d) {
                                    if s.ends_with(".rs") {
                                        return format!("{} at {}:{}", short, s, l);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        short
    }
    // accessors for builtins.rs
    pub(crate) fn b_decide(&mut self, st: &mut State, c: Ex) -> R<bool> {
        self.decide(st, c)
    }
    pub(crate) fn b_conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        self.conc(st, v)
    }
    pub(crate) fn b_ex(&mut self, v: &V, w: u16) -> Ex {
        self.ex(v, w)
    }
    pub(crate) fn b_val(&self, e: Ex) -> V {
        self.val(e)
    }
    pub(crate) fn b_load(&mut self, st: &mut State, p: &V, ty: &Ty) -> R<V> {
        self.load(st, p, ty)
    }
    pub(crate) fn b_store(&mut self, st: &mut State, p: &V, ty: &Ty, v: &V) -> R<()> {
        self.store(st, p, ty, v)
    }
    pub(crate) fn b_memcpy(&mut self, st: &mut State, d: &V, s: &V, n: &V) -> R<()> {
        self.memcpy(st, d, s, n)
    }
    pub(crate) fn b_free(&mut self, st: &mut State, a: u64) -> R<()> {
        self.free(st, a)
    }
    pub(crate) fn b_memset(&mut self, st: &mut State, d: &V, v: &V, n: &V) -> R<()> {
        let n = self.conc(st, n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let l = self.loc(st, d, n, "write")?;
        match v {
            V::I(x) => self.write_raw(st, l, &vec![*x as u8; n as usize], &[]),
            V::S(e) => self.write_raw(st, l, &vec![0; n as usize], &vec![*e; n as usize]),
            _ => panic!("memset"),
        }
    }
    pub(crate) fn b_bytes(&mut self, st: &mut State, p: &V, n: u64) -> R<Vec<Ex>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let l = self.loc(st, p, n, "read")?;
        let (d, s) = self.read_raw(st, l, n as usize);
        Ok((0..n as usize).map(|i| self.byte_ex(&d, &s, i)).collect())
    }
    pub(crate) fn b_put(&mut self, st: &mut State, p: &V, d: &[u8], s: &[Ex]) -> R<()> {
        let l = self.loc(st, p, d.len() as u64, "write")?;
        self.write_raw(st, l, d, s)
    }
    pub(crate) fn b_size(&self, st: &State, a: u64) -> Option<u64> {
        let i = st.heap.partition_point(|e| e.base <= a);
        if i == 0 || st.heap[i - 1].base != a || st.heap[i - 1].freed {
            None
        } else {
            Some(st.heap[i - 1].size)
        }
    }
    pub(crate) fn new_input(&mut self, st: &mut State, w: u16) -> V {
        if let Some(c) = &self.cfg.conc {
            let k = st.inputs.len();
            let v = c.get(k).copied().unwrap_or(0);
            st.inputs.push(Inp::Choice(v));
            return V::of(v as u128, w);
        }
        let e = self.ar.var(st.nvars, w);
        st.nvars += 1;
        st.inputs.push(Inp::Var(e));
        V::S(e)
    }
    pub(crate) fn choice(&mut self, st: &mut State, n: u64) -> R<u64> {
        if let Some(c) = &self.cfg.conc {
            let k = st.inputs.len();
            let v = c.get(k).copied().unwrap_or(0);
            st.inputs.push(Inp::Choice(v));
            return Ok(v);
        }
        let v = match st.pending.take() {
            Some(v) => v,
            None => {
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    o.pending = Some(k);
                    self.work.push(o);
                }
                0
            }
        };
        st.inputs.push(Inp::Choice(v));
        Ok(v)
    }
    pub(crate) fn b_assert(&mut self, st: &mut State, c: &V, id: u64) -> R<()> {
        match c {
            V::I(x) => {
                self.asserts_c += 1;
                if *x & 1 == 0 {
                    return Err(Ctl::Viol("assert".into(), format!("assertion {}", id)));
                }
            }
            V::S(e) => {
                self.asserts_s += 1;
                let e = *e;
                self.ar.eval_begin();
                if self.ar.eval(e, &st.model) != 1 {
                    return Err(Ctl::Viol("assert".into(), format!("assertion {}", id)));
                }
                let n = self.ar.not(e);
                match self.feasible(st, n) {
                    Err(s) => return Err(Ctl::Unsupported(s)),
                    Ok(None) => {}
                    Ok(Some(m)) => {
                        let mut v = st.clone();
                        v.model = m;
                        self.violation(&v, "assert".into(), format!("assertion {}", id));
                        // go on with the inputs that satisfy it
                        self.assume_true(st, e);
                    }
                }
            }
            _ => panic!("assert"),
        }
        Ok(())
    }
    pub(crate) fn b_assume(&mut self, st: &mut State, c: &V) -> R<()> {
        match c {
            V::I(x) => {
                if *x & 1 == 0 {
                    return Err(Ctl::Dead);
                }
            }
            V::S(e) => {
                let e = *e;
                self.ar.eval_begin();
                if self.ar.eval(e, &st.model) == 1 {
                    self.assume_true(st, e);
                } else {
                    match self.feasible(st, e) {
                        Err(s) => return Err(Ctl::Unsupported(s)),
                        Ok(None) => return Err(Ctl::Dead),
                        Ok(Some(m)) => {
                            st.model = m;
                            self.assume_true(st, e);
                        }
                    }
                }
            }
            _ => panic!("assume"),
        }
        Ok(())
    }
}
