//! Textual LLVM IR reader (opaque pointers).  Function bodies and global
//! initialisers are parsed lazily, when execution first reaches them.
use crate::expr::{mask, sext};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub type T = Rc<Ty>;
#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F32,
    F64,
    Ptr,
    Arr(u64, T),
    Vec(u32, T),
    Struct(Vec<T>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(_, _) => self.size().next_power_of_two(),
            Ty::Struct(v, p) => {
                if *p {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                (b + self.align() - 1) / self.align() * self.align()
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                let bits = *n as u64 * t.bits() as u64;
                ((bits + 7) / 8).next_power_of_two()
            }
            Ty::Struct(_, _) => {
                let (o, a) = self.layout_end();
                (o + a - 1) / a * a
            }
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }
    fn layout_end(&self) -> (u64, u64) {
        if let Ty::Struct(v, p) = self {
            let mut o = 0;
            let mut al = 1;
            for t in v {
                let a = if *p { 1 } else { t.align() };
                al = al.max(a);
                o = (o + a - 1) / a * a + t.size();
            }
            (o, al)
        } else {
            unreachable!()
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        if let Ty::Struct(v, p) = self {
            let mut o = 0;
            for (k, t) in v.iter().enumerate() {
                let a = if *p { 1 } else { t.align() };
                o = (o + a - 1) / a * a;
                if k == i {
                    return o;
                }
                o += t.size();
            }
        }
        unreachable!()
    }
    pub fn lanes(&self) -> u32 {
        if let Ty::Vec(n, _) = self {
            *n
        } else {
            0
        }
    }
    pub fn elem(&self) -> &Ty {
        match self {
            Ty::Vec(_, t) | Ty::Arr(_, t) => t,
            t => t,
        }
    }
}

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}
impl V {
    pub fn of(v: u128, w: u16) -> V {
        if w <= 64 {
            V::I((v & mask(w)) as u64)
        } else {
            V::W(Rc::new(v & mask(w)))
        }
    }
    pub fn conc(&self) -> Option<u128> {
        match self {
            V::I(x) => Some(*x as u128),
            V::W(x) => Some(**x),
            _ => None,
        }
    }
}

pub fn zero(t: &Ty) -> V {
    match t {
        Ty::Arr(n, e) => V::A(Rc::new((0..*n).map(|_| zero(e)).collect())),
        Ty::Vec(n, e) => V::A(Rc::new((0..*n).map(|_| zero(e)).collect())),
        Ty::Struct(v, _) => V::A(Rc::new(v.iter().map(|e| zero(e)).collect())),
        Ty::Int(w) if *w > 64 => V::W(Rc::new(0)),
        _ => V::I(0),
    }
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum C {
    Trunc,
    ZExt,
    SExt,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    Same,
    Bitcast,
}
pub enum Callee {
    Fn(u32),
    Ind(O),
    Asm(String, String),
}
pub enum Ins {
    Bin { op: B, w: u16, n: u32, d: u32, a: O, b: O },
    ICmp { p: P, w: u16, n: u32, d: u32, a: O, b: O },
    FBin { op: char, w: u16, n: u32, d: u32, a: O, b: O },
    FNeg { w: u16, n: u32, d: u32, a: O },
    FCmp { p: String, w: u16, n: u32, d: u32, a: O, b: O },
    Cast { op: C, ft: T, tt: T, d: u32, a: O },
    Alloca { d: u32, size: u64, align: u64, n: O },
    Load { d: u32, ty: T, p: O },
    Store { ty: T, v: O, p: O },
    Gep { d: u32, base: O, off: i64, terms: Vec<(O, u16, i64)> },
    Select { d: u32, lanes: u32, ty: T, c: O, a: O, b: O },
    Call { d: Option<u32>, f: Callee, args: Vec<O>, tys: Vec<T>, rt: T, normal: Option<u32> },
    ExtractV { d: u32, a: O, idx: Vec<u32> },
    InsertV { d: u32, a: O, v: O, idx: Vec<u32> },
    ExtractE { d: u32, a: O, i: O },
    InsertE { d: u32, a: O, v: O, i: O },
    Shuffle { d: u32, a: O, b: O, m: Vec<i32>, n: u32 },
    Br(u32),
    CondBr(O, u32, u32),
    Switch { v: O, w: u16, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<O>),
    Unreachable,
    Rmw { op: String, d: u32, p: O, v: O, ty: T },
    CmpXchg { d: u32, p: O, c: O, n: O, ty: T },
    Freeze { d: u32, a: O },
    Bad(String),
}
pub struct Phi {
    pub d: u32,
    pub src: Vec<(u32, O)>,
}
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
}
pub struct Func {
    pub name: String,
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub nofork: bool,
}

pub struct FnSlot {
    pub name: String,
    pub range: Option<(usize, usize)>, // body
    pub parsed: Option<Rc<Func>>,
}
pub struct Glob {
    pub name: String,
    pub pos: Option<usize>, // position after '='
    pub base: u64,
    pub size: u64,
    pub ty: T,
    pub konst: bool,
    pub init_pos: Option<usize>,
    pub data: Option<Rc<Vec<u8>>>,
}

pub const CODE: u64 = 0x1_0000_0000;
pub const GLOB: u64 = 0x2_0000_0000;

pub struct Module {
    pub src: Vec<u8>,
    pub fns: RefCell<Vec<FnSlot>>,
    pub fn_ids: RefCell<HashMap<String, u32>>,
    pub globs: RefCell<Vec<Glob>>,
    pub glob_ids: RefCell<HashMap<String, usize>>,
    pub placed: RefCell<Vec<(u64, usize)>>, // sorted by base
    next: Cell<u64>,
    types: RefCell<HashMap<String, usize>>,
    tcache: RefCell<HashMap<String, T>>,
}

#[derive(Clone, PartialEq, Debug)]
enum K<'a> {
    W(&'a str),    // word / number
    G(String),     // @name
    L(String),     // %name
    S(&'a [u8]),   // string body
    C(&'a [u8]),   // c"..."
    M(&'a str),    // metadata / attribute group
    P(u8),         // punctuation
    E,
}

struct Lx<'a> {
    s: &'a [u8],
    p: usize,
    end: usize,
    peek: Option<(K<'a>, usize)>,
    nl: bool, // a newline was crossed before the last token read
}
fn wordc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+'
}
impl<'a> Lx<'a> {
    fn new(s: &'a [u8], p: usize, end: usize) -> Self {
        Lx { s, p, end, peek: None, nl: false }
    }
    fn name(&mut self) -> String {
        if self.p < self.end && self.s[self.p] == b'"' {
            let st = self.p + 1;
            let mut e = st;
            while self.s[e] != b'"' {
                e += 1;
            }
            self.p = e + 1;
            return unescape_name(&self.s[st..e]);
        }
        let st = self.p;
        while self.p < self.end && wordc(self.s[self.p]) {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn lex(&mut self) -> K<'a> {
        loop {
            if self.p >= self.end {
                return K::E;
            }
            let c = self.s[self.p];
            match c {
                b'\n' => {
                    self.nl = true;
                    self.p += 1;
                }
                b' ' | b'\t' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.end && self.s[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                b'/' if self.p + 1 < self.end && self.s[self.p + 1] == b'*' => {
                    self.p += 2;
                    while self.p + 1 < self.end && !(self.s[self.p] == b'*' && self.s[self.p + 1] == b'/') {
                        self.p += 1;
                    }
                    self.p += 2;
                }
                b'@' => {
                    self.p += 1;
                    return K::G(self.name());
                }
                b'%' => {
                    self.p += 1;
                    return K::L(self.name());
                }
                b'!' | b'#' => {
                    let st = self.p;
                    self.p += 1;
                    while self.p < self.end && wordc(self.s[self.p]) {
                        self.p += 1;
                    }
                    return K::M(std::str::from_utf8(&self.s[st..self.p]).unwrap());
                }
                b'"' => {
                    let st = self.p + 1;
                    let mut e = st;
                    while self.s[e] != b'"' {
                        e += 1;
                    }
                    self.p = e + 1;
                    return K::S(&self.s[st..e]);
                }
                b'c' if self.p + 1 < self.end && self.s[self.p + 1] == b'"' => {
                    let st = self.p + 2;
                    let mut e = st;
                    while self.s[e] != b'"' {
                        e += 1;
                    }
                    self.p = e + 1;
                    return K::C(&self.s[st..e]);
                }
                _ if wordc(c) => {
                    let st = self.p;
                    while self.p < self.end && wordc(self.s[self.p]) {
                        self.p += 1;
                    }
                    return K::W(std::str::from_utf8(&self.s[st..self.p]).unwrap());
                }
                _ => {
                    self.p += 1;
                    return K::P(c);
                }
            }
        }
    }
    fn next(&mut self) -> K<'a> {
        if let Some((k, _)) = self.peek.take() {
            return k;
        }
        self.nl = false;
        self.lex()
    }
    fn pk(&mut self) -> &K<'a> {
        if self.peek.is_none() {
            self.nl = false;
            let st = self.p;
            let k = self.lex();
            self.peek = Some((k, st));
        }
        &self.peek.as_ref().unwrap().0
    }
    fn is_p(&mut self, c: u8) -> bool {
        *self.pk() == K::P(c)
    }
    fn is_w(&mut self, w: &str) -> bool {
        matches!(self.pk(), K::W(x) if *x == w)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) {
        let k = self.next();
        if k != K::P(c) {
            let lo = self.p.saturating_sub(200);
            panic!(
                "IR parse: expected '{}' got {:?} near {}",
                c as char,
                k,
                String::from_utf8_lossy(&self.s[lo..self.p])
            );
        }
    }
    fn pos(&self) -> usize {
        match &self.peek {
            Some((_, p)) => *p,
            None => self.p,
        }
    }
    /// skip a balanced parenthesis group (the opening one is the next token)
    fn skip_paren(&mut self) {
        self.exp(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                K::P(b'(') => d += 1,
                K::P(b')') => d -= 1,
                K::E => panic!("IR parse: eof in paren"),
                _ => {}
            }
        }
    }
}
fn unescape_name(b: &[u8]) -> String {
    String::from_utf8_lossy(&unescape(b)).into_owned()
}
fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
fn is_int_ty(w: &str) -> Option<u16> {
    let b = w.as_bytes();
    if b.len() > 1 && b[0] == b'i' && b[1..].iter().all(|c| c.is_ascii_digit()) {
        w[1..].parse().ok()
    } else {
        None
    }
}

impl Module {
    pub fn load(src: Vec<u8>) -> Module {
        let mut fns = vec![];
        let mut fn_ids = HashMap::new();
        let mut globs: Vec<Glob> = vec![];
        let mut glob_ids = HashMap::new();
        let mut types = HashMap::new();
        let n = src.len();
        let mut p = 0;
        while p < n {
            let mut e = p;
            while e < n && src[e] != b'\n' {
                e += 1;
            }
            let line = &src[p..e];
            if line.starts_with(b"@") {
                let mut lx = Lx::new(&src, p, e);
                if let K::G(name) = lx.next() {
                    lx.exp(b'=');
                    glob_ids.insert(name.clone(), globs.len());
                    globs.push(Glob {
                        name,
                        pos: Some(lx.pos()),
                        base: 0,
                        size: 0,
                        ty: Rc::new(Ty::Other),
                        konst: false,
                        init_pos: None,
                        data: None,
                    });
                }
            } else if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                // the function name is the first @name on the line
                let q = line.iter().position(|c| *c == b'@').unwrap();
                let mut lx = Lx::new(&src, p + q, e);
                if let K::G(name) = lx.next() {
                    let mut range = None;
                    if line.starts_with(b"define ") {
                        let st = p;
                        // body ends at a line that is exactly "}"
                        let mut q = e;
                        loop {
                            let mut r = q + 1;
                            while r < n && src[r] != b'\n' {
                                r += 1;
                            }
                            if &src[q + 1..r] == b"}" {
                                e = r;
                                break;
                            }
                            q = r;
                            if q >= n {
                                break;
                            }
                        }
                        range = Some((st, e));
                    }
                    fn_ids.insert(name.clone(), fns.len() as u32);
                    fns.push(FnSlot { name, range, parsed: None });
                }
            } else if line.starts_with(b"%") {
                let mut lx = Lx::new(&src, p, e);
                if let K::L(name) = lx.next() {
                    lx.exp(b'=');
                    if lx.eat_w("type") {
                        types.insert(name, lx.pos());
                    }
                }
            }
            p = e + 1;
        }
        Module {
            src,
            fns: RefCell::new(fns),
            fn_ids: RefCell::new(fn_ids),
            globs: RefCell::new(globs),
            glob_ids: RefCell::new(glob_ids),
            placed: RefCell::new(vec![]),
            next: Cell::new(GLOB),
            types: RefCell::new(types),
            tcache: RefCell::new(HashMap::new()),
        }
    }
    pub fn fn_name(&self, id: u32) -> String {
        self.fns.borrow()[id as usize].name.clone()
    }
    pub fn fn_id(&self, name: &str) -> Option<u32> {
        self.fn_ids.borrow().get(name).copied()
    }
    fn ty(&self, lx: &mut Lx) -> T {
        let base = match lx.next() {
            K::W(w) => {
                if let Some(n) = is_int_ty(w) {
                    Ty::Int(n)
                } else {
                    match w {
                        "ptr" => {
                            if lx.eat_w("addrspace") {
                                lx.skip_paren();
                            }
                            Ty::Ptr
                        }
                        "void" => Ty::Void,
                        "float" => Ty::F32,
                        "double" => Ty::F64,
                        "half" | "bfloat" => Ty::Int(16),
                        "label" | "metadata" | "token" | "x86_amx" | "opaque" => Ty::Other,
                        _ => panic!(
                            "IR parse: type {} near {}",
                            w,
                            String::from_utf8_lossy(&lx.s[lx.p.saturating_sub(300)..lx.p])
                        ),
                    }
                }
            }
            K::L(n) => {
                if let Some(t) = self.tcache.borrow().get(&n) {
                    return t.clone();
                }
                let pos = *self.types.borrow().get(&n).unwrap_or_else(|| panic!("type %{}", n));
                let mut l2 = Lx::new(&self.src, pos, self.src.len());
                let t = self.ty(&mut l2);
                self.tcache.borrow_mut().insert(n, t.clone());
                return t;
            }
            K::P(b'[') => {
                let n: u64 = self.word(lx).parse().unwrap();
                assert_eq!(self.word(lx), "x");
                let t = self.ty(lx);
                lx.exp(b']');
                Ty::Arr(n, t)
            }
            K::P(b'{') => {
                let v = self.tylist(lx);
                lx.exp(b'}');
                Ty::Struct(v, false)
            }
            K::P(b'<') => {
                if lx.eat_p(b'{') {
                    let v = self.tylist(lx);
                    lx.exp(b'}');
                    lx.exp(b'>');
                    Ty::Struct(v, true)
                } else {
                    let n: u32 = self.word(lx).parse().unwrap();
                    assert_eq!(self.word(lx), "x");
                    let t = self.ty(lx);
                    lx.exp(b'>');
                    Ty::Vec(n, t)
                }
            }
            k => panic!(
                "IR parse: type token {:?} near {}",
                k,
                String::from_utf8_lossy(&lx.s[lx.p.saturating_sub(300)..lx.p])
            ),
        };
        Rc::new(base)
    }
    fn tylist(&self, lx: &mut Lx) -> Vec<T> {
        let mut v = vec![];
        if lx.is_p(b'}') {
            return v;
        }
        loop {
            v.push(self.ty(lx));
            if !lx.eat_p(b',') {
                break;
            }
        }
        v
    }
    fn word<'a>(&self, lx: &mut Lx<'a>) -> &'a str {
        match lx.next() {
            K::W(w) => w,
            k => panic!("IR parse: word expected, got {:?}", k),
        }
    }

    // ------------------------------------------------------------- globals
    pub fn global_addr(&self, name: &str) -> u64 {
        if let Some(id) = self.fn_ids.borrow().get(name) {
            return CODE + 16 * (*id as u64 + 1);
        }
        let id = match self.glob_ids.borrow().get(name) {
            Some(i) => *i,
            None => panic!("unknown global @{}", name),
        };
        if self.globs.borrow()[id].base != 0 {
            return self.globs.borrow()[id].base;
        }
        // parse the header
        let pos = self.globs.borrow()[id].pos.unwrap();
        let mut end = pos;
        while end < self.src.len() && self.src[end] != b'\n' {
            end += 1;
        }
        let mut lx = Lx::new(&self.src, pos, end);
        let mut external = false;
        let mut konst = false;
        loop {
            match lx.next() {
                K::W("external") | K::W("extern_weak") => external = true,
                K::W("constant") => {
                    konst = true;
                    break;
                }
                K::W("global") => break,
                K::W("alias") => {
                    let _t = self.ty(&mut lx);
                    lx.exp(b',');
                    let t2 = self.ty(&mut lx);
                    let v = self.konst(&mut lx, &t2);
                    let a = v.conc().unwrap() as u64;
                    self.globs.borrow_mut()[id].base = a;
                    return a;
                }
                K::W("thread_local") | K::W("addrspace") => {
                    if lx.is_p(b'(') {
                        lx.skip_paren();
                    }
                }
                K::W(_) => {}
                k => panic!("global header {:?} @{}", k, name),
            }
        }
        let ty = self.ty(&mut lx);
        let init = if external { None } else { Some(lx.pos()) };
        let size = ty.size();
        let base = (self.next.get() + 63) & !63;
        self.next.set(base + size.max(1) + 64);
        let mut g = self.globs.borrow_mut();
        g[id].base = base;
        g[id].size = size;
        g[id].ty = ty;
        g[id].konst = konst;
        g[id].init_pos = init;
        self.placed.borrow_mut().push((base, id));
        base
    }
    pub fn global_data(&self, id: usize) -> Rc<Vec<u8>> {
        if let Some(d) = &self.globs.borrow()[id].data {
            return d.clone();
        }
        let (ty, init) = {
            let g = self.globs.borrow();
            (g[id].ty.clone(), g[id].init_pos)
        };
        let mut out = vec![0u8; ty.size() as usize];
        if let Some(pos) = init {
            let mut end = pos;
            while end < self.src.len() && self.src[end] != b'\n' {
                end += 1;
            }
            let mut lx = Lx::new(&self.src, pos, end);
            self.kbytes(&mut lx, &ty, &mut out);
        }
        let r = Rc::new(out);
        self.globs.borrow_mut()[id].data = Some(r.clone());
        r
    }
    /// write a constant initialiser straight into a byte buffer
    fn kbytes(&self, lx: &mut Lx, ty: &T, out: &mut [u8]) {
        match (&**ty, lx.pk().clone()) {
            (Ty::Arr(_, _), K::C(b)) => {
                lx.next();
                let v = unescape(b);
                out[..v.len()].copy_from_slice(&v);
            }
            (Ty::Arr(_, e), K::P(b'[')) => {
                lx.next();
                let es = e.size() as usize;
                let mut i = 0;
                if !lx.eat_p(b']') {
                    loop {
                        let t = self.ty(lx);
                        self.kbytes(lx, &t, &mut out[i * es..(i + 1) * es]);
                        i += 1;
                        if !lx.eat_p(b',') {
                            break;
                        }
                    }
                    lx.exp(b']');
                }
            }
            (Ty::Struct(fs, packed), K::P(c)) if c == b'{' || c == b'<' => {
                lx.next();
                if *packed {
                    lx.exp(b'{');
                }
                for i in 0..fs.len() {
                    let t = self.ty(lx);
                    let o = ty.field_off(i) as usize;
                    let sz = t.size() as usize;
                    self.kbytes(lx, &t, &mut out[o..o + sz]);
                    if !lx.eat_p(b',') {
                        break;
                    }
                }
                lx.exp(b'}');
                if *packed {
                    lx.exp(b'>');
                }
            }
            (_, K::W("zeroinitializer")) | (_, K::W("undef")) | (_, K::W("poison")) => {
                lx.next();
            }
            _ => {
                let v = self.konst(lx, ty);
                store_const(ty, &v, out);
            }
        }
    }
    /// constant of a given type (registers not allowed)
    fn konst(&self, lx: &mut Lx, ty: &T) -> V {
        match lx.next() {
            K::G(n) => V::I(self.global_addr(&n)),
            K::W(w) => match w {
                "null" | "zeroinitializer" | "undef" | "poison" | "none" => zero(ty),
                "true" => V::I(1),
                "false" => V::I(0),
                "splat" => {
                    lx.exp(b'(');
                    let t = self.ty(lx);
                    let v = self.konst(lx, &t);
                    lx.exp(b')');
                    V::A(Rc::new((0..ty.lanes()).map(|_| v.clone()).collect()))
                }
                "getelementptr" => {
                    while let K::W(w) = lx.pk().clone() {
                        if w == "inrange" {
                            lx.next();
                            lx.skip_paren();
                        } else if matches!(w, "inbounds" | "nuw" | "nusw") {
                            lx.next();
                        } else {
                            break;
                        }
                    }
                    lx.exp(b'(');
                    let et = self.ty(lx);
                    lx.exp(b',');
                    let pt = self.ty(lx);
                    let base = self.konst(lx, &pt).conc().unwrap() as u64;
                    let mut idx = vec![];
                    while lx.eat_p(b',') {
                        let t = self.ty(lx);
                        let v = self.konst(lx, &t).conc().unwrap();
                        idx.push(sext(v, t.bits()) as i64);
                    }
                    lx.exp(b')');
                    let mut off = 0i64;
                    let mut cur = et.clone();
                    for (i, k) in idx.iter().enumerate() {
                        if i == 0 {
                            off += k * cur.size() as i64;
                        } else {
                            let nt = match &*cur {
                                Ty::Struct(f, _) => {
                                    off += cur.field_off(*k as usize) as i64;
                                    f[*k as usize].clone()
                                }
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    off += k * e.size() as i64;
                                    e.clone()
                                }
                                _ => panic!("gep"),
                            };
                            cur = nt;
                        }
                    }
                    V::I(base.wrapping_add(off as u64))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "ptrtoaddr" | "addrspacecast" => {
                    lx.exp(b'(');
                    let t = self.ty(lx);
                    let v = self.konst(lx, &t);
                    assert_eq!(self.word(lx), "to");
                    let t2 = self.ty(lx);
                    lx.exp(b')');
                    let x = v.conc().unwrap();
                    match w {
                        "sext" => V::of(sext(x, t.bits()) as u128, t2.bits()),
                        _ => V::of(x, t2.bits()),
                    }
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                    while let K::W(_) = lx.pk() {
                        lx.next();
                    }
                    lx.exp(b'(');
                    let t = self.ty(lx);
                    let a = self.konst(lx, &t).conc().unwrap();
                    lx.exp(b',');
                    let t2 = self.ty(lx);
                    let b = self.konst(lx, &t2).conc().unwrap();
                    lx.exp(b')');
                    let r = match w {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        "shl" => a << b,
                        _ => a >> b,
                    };
                    V::of(r, t.bits())
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(lx, ty),
                _ => self.number(w, ty),
            },
            K::C(b) => V::A(Rc::new(unescape(b).iter().map(|x| V::I(*x as u64)).collect())),
            K::P(b'[') => {
                let mut v = vec![];
                if !lx.eat_p(b']') {
                    loop {
                        let t = self.ty(lx);
                        v.push(self.konst(lx, &t));
                        if !lx.eat_p(b',') {
                            break;
                        }
                    }
                    lx.exp(b']');
                }
                V::A(Rc::new(v))
            }
            K::P(b'{') => {
                let mut v = vec![];
                if !lx.eat_p(b'}') {
                    loop {
                        let t = self.ty(lx);
                        v.push(self.konst(lx, &t));
                        if !lx.eat_p(b',') {
                            break;
                        }
                    }
                    lx.exp(b'}');
                }
                V::A(Rc::new(v))
            }
            K::P(b'<') => {
                let st = lx.eat_p(b'{');
                let mut v = vec![];
                loop {
                    let t = self.ty(lx);
                    v.push(self.konst(lx, &t));
                    if !lx.eat_p(b',') {
                        break;
                    }
                }
                if st {
                    lx.exp(b'}');
                }
                lx.exp(b'>');
                V::A(Rc::new(v))
            }
            k => panic!(
                "IR parse: const {:?} near {}",
                k,
                String::from_utf8_lossy(&lx.s[lx.p.saturating_sub(200)..lx.p])
            ),
        }
    }
    fn number(&self, w: &str, ty: &T) -> V {
        match &**ty {
            Ty::Int(n) => {
                if let Some(h) = w.strip_prefix("u0x").or_else(|| w.strip_prefix("s0x")) {
                    return V::of(u128::from_str_radix(h, 16).unwrap(), *n);
                }
                let x: u128 = if let Some(d) = w.strip_prefix('-') {
                    (d.parse::<u128>().unwrap()).wrapping_neg()
                } else {
                    w.parse().unwrap_or_else(|_| panic!("number {}", w))
                };
                V::of(x, *n)
            }
            Ty::F32 | Ty::F64 => {
                let d = if let Some(h) = w.strip_prefix("0x").or_else(|| w.strip_prefix("f0x")) {
                    if w.starts_with('f') {
                        // raw bits of the type itself
                        return V::I(u64::from_str_radix(h, 16).unwrap());
                    }
                    f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                } else {
                    match w {
                        "+inf" | "inf" => f64::INFINITY,
                        "-inf" => f64::NEG_INFINITY,
                        "+nan" | "nan" => f64::NAN,
                        "-nan" => -f64::NAN,
                        "+qnan" | "qnan" => f64::NAN,
                        "-qnan" => -f64::NAN,
                        _ => w.parse().unwrap_or_else(|_| panic!("fp const {}", w)),
                    }
                };
                if matches!(**ty, Ty::F32) {
                    V::I((d as f32).to_bits() as u64)
                } else {
                    V::I(d.to_bits())
                }
            }
            t => panic!("number {} of type {:?}", w, t),
        }
    }

    // ------------------------------------------------------------- functions
    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.fns.borrow()[id as usize].parsed {
            return Some(f.clone());
        }
        let (name, range) = {
            let s = self.fns.borrow();
            (s[id as usize].name.clone(), s[id as usize].range)
        };
        let (st, e) = range?;
        let f = Rc::new(FnParser::new(self, &name, id).parse(st, e));
        self.fns.borrow_mut()[id as usize].parsed = Some(f.clone());
        Some(f)
    }
}

pub fn store_const(ty: &Ty, v: &V, out: &mut [u8]) {
    match (ty, v) {
        (Ty::Arr(_, e), V::A(a)) => {
            let es = e.size() as usize;
            for (i, x) in a.iter().enumerate() {
                store_const(e, x, &mut out[i * es..(i + 1) * es]);
            }
        }
        (Ty::Vec(_, e), V::A(a)) => {
            let es = e.size() as usize;
            for (i, x) in a.iter().enumerate() {
                store_const(e, x, &mut out[i * es..(i + 1) * es]);
            }
        }
        (Ty::Struct(f, _), V::A(a)) => {
            for (i, x) in a.iter().enumerate() {
                let o = ty.field_off(i) as usize;
                store_const(&f[i], x, &mut out[o..o + f[i].size() as usize]);
            }
        }
        (_, v) => {
            let x = v.conc().unwrap();
            let n = ((ty.bits() as usize) + 7) / 8;
            for i in 0..n {
                out[i] = (x >> (8 * i)) as u8;
            }
        }
    }
}

struct FnParser<'m> {
    m: &'m Module,
    name: String,
    id: u32,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    auto: u32,
}
const NOFORK: &[&str] = &["12format_inner"];

impl<'m> FnParser<'m> {
    fn new(m: &'m Module, name: &str, id: u32) -> Self {
        FnParser { m, name: name.to_string(), id, regs: HashMap::new(), blocks: HashMap::new(), auto: 0 }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn blk(&mut self, n: &str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(k)
    }
    /// skip parameter / return attributes until a type starts
    fn skip_attrs(&self, lx: &mut Lx) {
        loop {
            match lx.pk().clone() {
                K::W(w) => {
                    if is_int_ty(w).is_some()
                        || matches!(w, "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "token")
                    {
                        return;
                    }
                    lx.next();
                    if lx.is_p(b'(') {
                        lx.skip_paren();
                    } else if w == "align" {
                        lx.next();
                    }
                }
                K::S(_) => {
                    lx.next();
                    if lx.eat_p(b'=') {
                        lx.next();
                    }
                }
                K::M(_) => {
                    lx.next();
                }
                _ => return,
            }
        }
    }
    /// attributes following a type and preceding a value
    fn skip_val_attrs(&self, lx: &mut Lx) {
        loop {
            match lx.pk().clone() {
                K::W(w) => {
                    let is_attr = matches!(
                        w,
                        "noundef"
                            | "nonnull"
                            | "noalias"
                            | "nocapture"
                            | "readonly"
                            | "readnone"
                            | "writeonly"
                            | "signext"
                            | "zeroext"
                            | "inreg"
                            | "returned"
                            | "immarg"
                            | "nofree"
                            | "nest"
                            | "swiftself"
                            | "allocptr"
                            | "allocalign"
                            | "writable"
                            | "dead_on_unwind"
                            | "dead_on_return"
                            | "noext"
                    );
                    let is_pattr = matches!(
                        w,
                        "dereferenceable"
                            | "dereferenceable_or_null"
                            | "captures"
                            | "range"
                            | "nofpclass"
                            | "initializes"
                            | "sret"
                            | "byval"
                            | "byref"
                            | "elementtype"
                            | "preallocated"
                            | "inalloca"
                            | "dead_on_return"
                            | "alignstack"
                    );
                    if w == "align" {
                        lx.next();
                        if lx.is_p(b'(') {
                            lx.skip_paren();
                        } else {
                            lx.next();
                        }
                    } else if is_pattr || is_attr {
                        lx.next();
                        if lx.is_p(b'(') {
                            lx.skip_paren();
                        }
                    } else {
                        return;
                    }
                }
                K::S(_) => {
                    lx.next();
                    if lx.eat_p(b'=') {
                        lx.next();
                    }
                }
                _ => return,
            }
        }
    }
    fn val(&mut self, lx: &mut Lx, ty: &T) -> O {
        if let K::L(n) = lx.pk().clone() {
            lx.next();
            return O::R(self.reg(&n));
        }
        if matches!(**ty, Ty::Other) {
            // metadata operand: skip it
            let mut d = 0;
            loop {
                match lx.pk() {
                    K::P(b'(') | K::P(b'{') => d += 1,
                    K::P(b')') | K::P(b'}') | K::P(b',') if d == 0 => break,
                    K::P(b')') | K::P(b'}') => d -= 1,
                    K::E => break,
                    _ => {}
                }
                lx.next();
            }
            return O::K(V::I(0));
        }
        O::K(self.m.konst(lx, ty))
    }
    fn tval(&mut self, lx: &mut Lx) -> (T, O) {
        let t = self.m.ty(lx);
        self.skip_val_attrs(lx);
        let v = self.val(lx, &t);
        (t, v)
    }
    fn label(&mut self, lx: &mut Lx) -> u32 {
        assert_eq!(self.m.word(lx), "label");
        match lx.next() {
            K::L(n) => self.blk(&n),
            k => panic!("label {:?}", k),
        }
    }
    fn parse(mut self, st: usize, e: usize) -> Func {
        let m = self.m;
        let src: &[u8] = &m.src;
        // header line
        let mut he = st;
        while src[he] != b'\n' {
            he += 1;
        }
        let mut lx = Lx::new(src, st, he);
        let mut params = vec![];
        loop {
            if let K::G(_) = lx.pk() {
                lx.next();
                break;
            }
            lx.next();
        }
        lx.exp(b'(');
        while !lx.eat_p(b')') {
            if lx.is_p(b'.') || lx.is_w("...") {
                lx.next();
                continue;
            }
            let _t = m.ty(&mut lx);
            self.skip_val_attrs(&mut lx);
            match lx.pk().clone() {
                K::L(n) => {
                    lx.next();
                    let r = self.reg(&n);
                    params.push(r);
                }
                _ => {
                    let n = format!("{}", self.auto);
                    self.auto += 1;
                    let r = self.reg(&n);
                    params.push(r);
                }
            }
            lx.eat_p(b',');
        }
        let mut nparam_named_auto = 0;
        for k in self.regs.keys() {
            if k.bytes().all(|c| c.is_ascii_digit()) {
                nparam_named_auto += 1;
            }
        }
        // body: line by line
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur: Option<u32> = None;
        let mut p = he + 1;
        while p < e {
            let mut le = p;
            while le < e && src[le] != b'\n' {
                le += 1;
            }
            let line = &src[p..le];
            let first = line.iter().position(|c| *c != b' ');
            match first {
                None => {}
                Some(0) => {
                    // label or '}'
                    if line[0] == b'}' {
                        break;
                    }
                    if line[0] != b';' {
                        let mut lx = Lx::new(src, p, le);
                        let n = lx.name();
                        let b = self.blk(&n);
                        blocks.insert(b, Block { phis: vec![], ins: vec![] });
                        cur = Some(b);
                    }
                }
                Some(k) => {
                    if line[k] == b'#' || line[k] == b';' {
                        // debug record / comment
                    } else {
                        // extend the statement over continuation lines
                        let is_sw = line[k..].starts_with(b"switch ");
                        let mut se = le;
                        if is_sw {
                            loop {
                                let mut r = se + 1;
                                while src[r] != b'\n' {
                                    r += 1;
                                }
                                let l2 = &src[se + 1..r];
                                se = r;
                                if l2.iter().find(|c| **c != b' ') == Some(&b']') {
                                    break;
                                }
                            }
                        } else {
                            // invoke continues on the next line
                            let r0 = se + 1;
                            if r0 < e {
                                let mut r = r0;
                                while src[r] != b'\n' {
                                    r += 1;
                                }
                                let l2 = &src[r0..r];
                                let t = l2.iter().position(|c| *c != b' ').unwrap_or(0);
                                if l2[t..].starts_with(b"to label ") {
                                    se = r;
                                }
                                // landingpad clauses are skipped with the landing pad
                            }
                        }
                        if cur.is_none() {
                            // the entry block's implicit name
                            let n = format!("{}", nparam_named_auto);
                            let b = self.blk(&n);
                            blocks.insert(b, Block { phis: vec![], ins: vec![] });
                            cur = Some(b);
                        }
                        let b = cur.unwrap();
                        let mut lx = Lx::new(src, p, se);
                        self.stmt(&mut lx, blocks.get_mut(&b).unwrap());
                        le = se;
                    }
                }
            }
            p = le + 1;
        }
        // entry is the first block met: remember numbering
        let n = self.blocks.len();
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            out.push(blocks.remove(&(i as u32)).unwrap_or(Block { phis: vec![], ins: vec![Ins::Bad("missing block".into())] }));
        }
        let nofork = NOFORK.iter().any(|s| self.name.contains(s));
        Func { name: self.name, id: self.id, nregs: self.regs.len() as u32, params, blocks: out, nofork }
    }
    fn stmt(&mut self, lx: &mut Lx, b: &mut Block) {
        let mut d = None;
        if let K::L(n) = lx.pk().clone() {
            lx.next();
            lx.exp(b'=');
            d = Some(self.reg(&n));
        }
        let m = self.m;
        let mut op = m.word(lx);
        if matches!(op, "tail" | "musttail" | "notail") {
            op = m.word(lx);
        }
        let dd = d.unwrap_or(u32::MAX);
        macro_rules! flags {
            () => {
                while let K::W(w) = lx.pk().clone() {
                    if matches!(
                        w,
                        "nuw"
                            | "nsw"
                            | "exact"
                            | "disjoint"
                            | "nneg"
                            | "samesign"
                            | "inbounds"
                            | "nusw"
                            | "fast"
                            | "nnan"
                            | "ninf"
                            | "nsz"
                            | "arcp"
                            | "contract"
                            | "afn"
                            | "reassoc"
                            | "volatile"
                            | "atomic"
                            | "weak"
                    ) {
                        lx.next();
                    } else if w == "inrange" {
                        lx.next();
                        lx.skip_paren();
                    } else {
                        break;
                    }
                }
            };
        }
        let ins = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or"
            | "xor" => {
                flags!();
                let t = m.ty(lx);
                let a = self.val(lx, &t);
                lx.exp(b',');
                let c = self.val(lx, &t);
                let o = match op {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    "ashr" => B::AShr,
                    "and" => B::And,
                    "or" => B::Or,
                    _ => B::Xor,
                };
                Ins::Bin { op: o, w: t.elem().bits(), n: t.lanes(), d: dd, a, b: c }
            }
            "icmp" => {
                flags!();
                let p = match m.word(lx) {
                    "eq" => P::Eq,
                    "ne" => P::Ne,
                    "ugt" => P::Ugt,
                    "uge" => P::Uge,
                    "ult" => P::Ult,
                    "ule" => P::Ule,
                    "sgt" => P::Sgt,
                    "sge" => P::Sge,
                    "slt" => P::Slt,
                    "sle" => P::Sle,
                    x => panic!("icmp {}", x),
                };
                let t = m.ty(lx);
                let a = self.val(lx, &t);
                lx.exp(b',');
                let c = self.val(lx, &t);
                Ins::ICmp { p, w: t.elem().bits(), n: t.lanes(), d: dd, a, b: c }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags!();
                let t = m.ty(lx);
                let a = self.val(lx, &t);
                lx.exp(b',');
                let c = self.val(lx, &t);
                let o = match op {
                    "fadd" => '+',
                    "fsub" => '-',
                    "fmul" => '*',
                    "fdiv" => '/',
                    _ => '%',
                };
                Ins::FBin { op: o, w: t.elem().bits(), n: t.lanes(), d: dd, a, b: c }
            }
            "fneg" => {
                flags!();
                let t = m.ty(lx);
                let a = self.val(lx, &t);
                Ins::FNeg { w: t.elem().bits(), n: t.lanes(), d: dd, a }
            }
            "fcmp" => {
                flags!();
                let p = m.word(lx).to_string();
                let t = m.ty(lx);
                let a = self.val(lx, &t);
                lx.exp(b',');
                let c = self.val(lx, &t);
                Ins::FCmp { p, w: t.elem().bits(), n: t.lanes(), d: dd, a, b: c }
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp"
            | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                flags!();
                let ft = m.ty(lx);
                let a = self.val(lx, &ft);
                assert_eq!(m.word(lx), "to");
                let tt = m.ty(lx);
                let (fb, tb) = (ft.elem().bits(), tt.elem().bits());
                let o = match op {
                    "trunc" => C::Trunc,
                    "zext" => C::ZExt,
                    "sext" => C::SExt,
                    "fptrunc" => C::FpTrunc,
                    "fpext" => C::FpExt,
                    "fptoui" => C::FpToUi,
                    "fptosi" => C::FpToSi,
                    "uitofp" => C::UiToFp,
                    "sitofp" => C::SiToFp,
                    "bitcast" => C::Bitcast,
                    _ => {
                        if fb == tb {
                            C::Same
                        } else if fb < tb {
                            C::ZExt
                        } else {
                            C::Trunc
                        }
                    }
                };
                Ins::Cast { op: o, ft, tt, d: dd, a }
            }
            "freeze" => {
                let (_, a) = self.tval(lx);
                Ins::Freeze { d: dd, a }
            }
            "alloca" => {
                let t = m.ty(lx);
                let mut n = O::K(V::I(1));
                let mut al = t.align();
                while lx.eat_p(b',') {
                    if lx.eat_w("align") {
                        al = m.word(lx).parse().unwrap();
                    } else if let K::M(_) = lx.pk() {
                        break;
                    } else {
                        let (_, v) = self.tval(lx);
                        n = v;
                    }
                }
                Ins::Alloca { d: dd, size: t.size(), align: al, n }
            }
            "load" => {
                flags!();
                let t = m.ty(lx);
                lx.exp(b',');
                let (_, p) = self.tval(lx);
                Ins::Load { d: dd, ty: t, p }
            }
            "store" => {
                flags!();
                let (t, v) = self.tval(lx);
                lx.exp(b',');
                let (_, p) = self.tval(lx);
                Ins::Store { ty: t, v, p }
            }
            "getelementptr" => {
                flags!();
                let et = m.ty(lx);
                lx.exp(b',');
                let (_, base) = self.tval(lx);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = et;
                let mut first = true;
                while lx.eat_p(b',') {
                    if let K::M(_) = lx.pk() {
                        break;
                    }
                    let (t, v) = self.tval(lx);
                    let (scale, nt) = if first {
                        (cur.size() as i64, cur.clone())
                    } else {
                        match &*cur {
                            Ty::Struct(f, _) => {
                                let k = match &v {
                                    O::K(x) => x.conc().unwrap() as usize,
                                    _ => panic!("gep struct"),
                                };
                                off += cur.field_off(k) as i64;
                                cur = f[k].clone();
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size() as i64, e.clone()),
                            _ => panic!("gep ty"),
                        }
                    };
                    first = false;
                    cur = nt;
                    match &v {
                        O::K(x) if x.conc().is_some() => off += sext(x.conc().unwrap(), t.bits()) as i64 * scale,
                        _ => terms.push((v, t.bits(), scale)),
                    }
                }
                Ins::Gep { d: dd, base, off, terms }
            }
            "phi" => {
                flags!();
                let t = m.ty(lx);
                let mut src = vec![];
                loop {
                    lx.exp(b'[');
                    let v = self.val(lx, &t);
                    lx.exp(b',');
                    let bb = match lx.next() {
                        K::L(n) => self.blk(&n),
                        k => panic!("phi {:?}", k),
                    };
                    lx.exp(b']');
                    src.push((bb, v));
                    if !lx.eat_p(b',') {
                        break;
                    }
                    if let K::M(_) = lx.pk() {
                        break;
                    }
                }
                b.phis.push(Phi { d: dd, src });
                return;
            }
            "select" => {
                flags!();
                let (ct, c) = self.tval(lx);
                lx.exp(b',');
                let (t, a) = self.tval(lx);
                lx.exp(b',');
                let (_, e) = self.tval(lx);
                Ins::Select { d: dd, lanes: ct.lanes(), ty: t, c, a, b: e }
            }
            "extractvalue" => {
                let (_, a) = self.tval(lx);
                let mut idx = vec![];
                while lx.eat_p(b',') {
                    if let K::M(_) = lx.pk() {
                        break;
                    }
                    idx.push(m.word(lx).parse().unwrap());
                }
                Ins::ExtractV { d: dd, a, idx }
            }
            "insertvalue" => {
                let (_, a) = self.tval(lx);
                lx.exp(b',');
                let (_, v) = self.tval(lx);
                let mut idx = vec![];
                while lx.eat_p(b',') {
                    if let K::M(_) = lx.pk() {
                        break;
                    }
                    idx.push(m.word(lx).parse().unwrap());
                }
                Ins::InsertV { d: dd, a, v, idx }
            }
            "extractelement" => {
                let (_, a) = self.tval(lx);
                lx.exp(b',');
                let (_, i) = self.tval(lx);
                Ins::ExtractE { d: dd, a, i }
            }
            "insertelement" => {
                let (_, a) = self.tval(lx);
                lx.exp(b',');
                let (_, v) = self.tval(lx);
                lx.exp(b',');
                let (_, i) = self.tval(lx);
                Ins::InsertE { d: dd, a, v, i }
            }
            "shufflevector" => {
                let (t, a) = self.tval(lx);
                lx.exp(b',');
                let (_, c) = self.tval(lx);
                lx.exp(b',');
                let mt = m.ty(lx);
                let mut mk = vec![];
                match lx.pk().clone() {
                    K::W("zeroinitializer") | K::W("poison") | K::W("undef") => {
                        mk = vec![0; mt.lanes() as usize];
                    }
                    K::W("splat") => {
                        let v = m.konst(lx, &mt);
                        if let V::A(a) = v {
                            mk = a.iter().map(|x| x.conc().unwrap() as i32).collect();
                        }
                    }
                    _ => {
                        lx.exp(b'<');
                        loop {
                            let _ = m.ty(lx);
                            let w = m.word(lx);
                            mk.push(w.parse().unwrap_or(-1));
                            if !lx.eat_p(b',') {
                                break;
                            }
                        }
                    }
                }
                Ins::Shuffle { d: dd, a, b: c, m: mk, n: t.lanes() }
            }
            "br" => {
                if lx.is_w("label") {
                    Ins::Br(self.label(lx))
                } else {
                    let (_, c) = self.tval(lx);
                    lx.exp(b',');
                    let t = self.label(lx);
                    lx.exp(b',');
                    let f = self.label(lx);
                    Ins::CondBr(c, t, f)
                }
            }
            "switch" => {
                let (t, v) = self.tval(lx);
                lx.exp(b',');
                let def = self.label(lx);
                lx.exp(b'[');
                let mut cases = vec![];
                while !lx.eat_p(b']') {
                    let t2 = m.ty(lx);
                    let k = m.konst(lx, &t2).conc().unwrap();
                    lx.exp(b',');
                    cases.push((k, self.label(lx)));
                }
                Ins::Switch { v, w: t.bits(), def, cases }
            }
            "ret" => {
                if lx.is_w("void") {
                    Ins::Ret(None)
                } else {
                    let (_, v) = self.tval(lx);
                    Ins::Ret(Some(v))
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" | "landingpad" | "cleanup" | "catch" | "filter" => Ins::Bad(op.to_string()),
            "fence" => return,
            "atomicrmw" => {
                flags!();
                let o = m.word(lx).to_string();
                let (_, p) = self.tval(lx);
                lx.exp(b',');
                let (t, v) = self.tval(lx);
                Ins::Rmw { op: o, d: dd, p, v, ty: t }
            }
            "cmpxchg" => {
                flags!();
                let (_, p) = self.tval(lx);
                lx.exp(b',');
                let (t, c) = self.tval(lx);
                lx.exp(b',');
                let (_, n) = self.tval(lx);
                Ins::CmpXchg { d: dd, p, c, n, ty: t }
            }
            "call" | "invoke" => {
                // calling convention, return attributes
                self.skip_attrs(lx);
                let rt = m.ty(lx);
                // optional full function type
                if lx.is_p(b'(') {
                    lx.skip_paren();
                }
                let f = match lx.next() {
                    K::G(n) => match m.fn_id(&n) {
                        Some(id) => Callee::Fn(id),
                        None => Callee::Ind(O::K(V::I(m.global_addr(&n)))),
                    },
                    K::L(n) => Callee::Ind(O::R(self.reg(&n))),
                    K::W("asm") => {
                        let mut strs = vec![];
                        while strs.len() < 2 {
                            match lx.next() {
                                K::S(s) => strs.push(unescape_name(s)),
                                K::W(_) | K::P(b',') => {}
                                k => panic!("asm {:?}", k),
                            }
                        }
                        Callee::Asm(strs[0].clone(), strs[1].clone())
                    }
                    K::W("inttoptr") => {
                        b.ins.push(Ins::Bad("call inttoptr".into()));
                        return;
                    }
                    k => panic!("callee {:?} in {}", k, self.name),
                };
                lx.exp(b'(');
                let mut args = vec![];
                let mut tys = vec![];
                while !lx.eat_p(b')') {
                    let (t, v) = self.tval(lx);
                    args.push(v);
                    tys.push(t);
                    lx.eat_p(b',');
                }
                let mut normal = None;
                if op == "invoke" {
                    loop {
                        match lx.next() {
                            K::W("to") => break,
                            K::E => panic!("invoke"),
                            K::P(b'[') => {
                                // operand bundle
                                while !lx.eat_p(b']') {
                                    lx.next();
                                }
                            }
                            _ => {}
                        }
                    }
                    normal = Some(self.label(lx));
                }
                let d2 = if matches!(*rt, Ty::Void) { None } else { d };
                Ins::Call { d: d2, f, args, tys, rt, normal }
            }
            x => Ins::Bad(format!("{} in {}", x, self.name)),
        };
        b.ins.push(ins);
    }
}
