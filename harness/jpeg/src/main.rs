//! JPEG: streams built from coefficients, decoded and compared with independent references.
use symrt::*;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_jpeg::JpegDecoder;
mod basis;
use basis::BASIS;

// ---------------------------------------------------------------- writing streams
/// code of table entry i: i ones and a zero
const DC: [u8; 12] = [6, 0, 3, 11, 8, 1, 2, 4, 5, 7, 9, 10];
const AC: [u8; 8] = [0x06, 0x00, 0x01, 0xF0, 0x31, 0x02, 0x0A, 0x16];

#[derive(Clone)]
struct Bits {
    b: Vec<u8>,
    /// 0 or 1 when known, 2 otherwise
    z: Vec<u8>,
    stuff: bool,
    ac: Vec<u8>,
}
impl Bits {
    fn new() -> Bits {
        Bits { b: vec![], z: vec![], stuff: false, ac: AC.to_vec() }
    }
    fn put(&mut self, v: u32, n: usize) {
        for i in (0..n).rev() {
            let b = (v >> i & 1) as u8;
            self.b.push(b);
            self.z.push(b);
        }
    }
    /// the low n bits of a symbolic value
    fn sym(&mut self, v: u16, n: usize) {
        for i in (0..n).rev() {
            self.b.push((v >> i & 1) as u8);
            self.z.push(2);
        }
    }
    fn dc(&mut self, cat: u8) {
        let i = DC.iter().position(|x| *x == cat).unwrap();
        self.put((1 << (i + 1)) - 2, i + 1);
    }
    fn ac(&mut self, s: u8) {
        let i = self.ac.iter().position(|x| *x == s).unwrap();
        if self.ac.len() > 16 {
            self.put(i as u32, 5);
            return;
        }
        self.put((1 << (i + 1)) - 2, i + 1);
    }
    /// whole bytes, filled up with ones
    fn bytes(mut self) -> Vec<u8> {
        let mut o = vec![];
        while self.b.len() % 8 != 0 {
            self.b.push(1);
            self.z.push(1);
        }
        for (c, z) in self.b.chunks(8).zip(self.z.chunks(8)) {
            let v = c.iter().fold(0u8, |a, x| a << 1 | *x);
            o.push(v);
            if !z.contains(&0) {
                if self.stuff || !z.contains(&2) {
                    if v == 0xFF {
                        o.push(0);
                    }
                } else {
                    assume(v != 0xFF);
                }
            }
        }
        o
    }
}

/// n-bit magnitude to value
fn extend(v: u16, n: usize) -> i32 {
    if n == 0 {
        return 0;
    }
    let v = v as i32;
    let neg = (v >> (n - 1) & 1) ^ 1;
    v - neg * ((1 << n) - 1)
}
fn mag(n: usize) -> u16 {
    let v = if n <= 8 { u8v() as u16 } else { u16v() };
    v & ((1u32 << n) - 1) as u16
}

#[derive(Clone)]
struct Comp {
    id: u8,
    h: usize,
    v: usize,
    tq: u8,
}
/// one block: size and magnitude of the DC difference, then (zig-zag position, size, magnitude)
#[derive(Clone)]
struct Block {
    dc: (u8, u16),
    ac: Vec<(usize, u8, u16)>,
    zrl: usize,
}
impl Block {
    fn flat(cat: u8) -> Block {
        Block { dc: (cat, mag(cat as usize)), ac: vec![], zrl: 0 }
    }
    fn write(&self, o: &mut Bits) {
        o.dc(self.dc.0);
        o.sym(self.dc.1, self.dc.0 as usize);
        let mut at = 0;
        for &(pos, size, m) in &self.ac {
            let mut run = pos - at - 1;
            while run > 15 {
                o.ac(0xF0);
                run -= 16;
            }
            o.ac((run as u8) << 4 | size);
            o.sym(m, size as usize);
            at = pos;
        }
        for _ in 0..self.zrl {
            o.ac(0xF0);
            at += 16;
        }
        if at < 63 {
            o.ac(0);
        }
    }
}
fn seg(o: &mut Vec<u8>, m: u8, body: &[u8]) {
    o.extend_from_slice(&[0xFF, m]);
    o.extend_from_slice(&(body.len() as u16 + 2).to_be_bytes());
    o.extend_from_slice(body);
}
fn dht(o: &mut Vec<u8>, class: u8, sym: &[u8]) {
    let mut b = vec![class];
    if sym.len() > 16 {
        b.extend((1..=16).map(|i| if i == 5 { sym.len() as u8 } else { 0 }));
    } else {
        b.extend((0..16).map(|i| if i < sym.len() { 1 } else { 0 }));
    }
    b.extend_from_slice(sym);
    seg(o, 0xC4, &b);
}
fn dqt8(o: &mut Vec<u8>, id: u8, q: &[u8]) {
    let mut b = vec![id];
    b.extend_from_slice(q);
    seg(o, 0xDB, &b);
}
fn head(w: usize, h: usize, comps: &[Comp], sof: u8) -> Vec<u8> {
    let mut o = vec![0xFF, 0xD8];
    dqt8(&mut o, 0, &[1; 64]);
    dht(&mut o, 0x00, &DC);
    dht(&mut o, 0x10, &AC);
    frame(&mut o, w, h, comps, sof);
    o
}
fn frame(o: &mut Vec<u8>, w: usize, h: usize, comps: &[Comp], sof: u8) {
    let mut b = vec![8, (h >> 8) as u8, h as u8, (w >> 8) as u8, w as u8, comps.len() as u8];
    for c in comps {
        b.extend_from_slice(&[c.id, (c.h << 4 | c.v) as u8, c.tq]);
    }
    seg(o, sof, &b);
}
fn sos(o: &mut Vec<u8>, ids: &[u8], ss: u8, se: u8, a: u8) {
    let mut b = vec![ids.len() as u8];
    for i in ids {
        b.extend_from_slice(&[*i, 0]);
    }
    b.extend_from_slice(&[ss, se, a]);
    seg(o, 0xDA, &b);
}
fn one() -> Vec<Comp> {
    vec![Comp { id: 1, h: 1, v: 1, tq: 0 }]
}
fn opts(out: ColorSpace, simd: bool) -> DecoderOptions {
    DecoderOptions::default().jpeg_set_out_colorspace(out).set_use_unsafe(simd)
}
fn decode(data: &[u8], o: DecoderOptions) -> Option<Vec<u8>> {
    JpegDecoder::new_with_options(ZCursor::new(data), o).decode().ok()
}
fn gray(q: &[u8; 64], b: &Block) -> Vec<u8> {
    gray_with(q, b, &AC)
}
fn gray_with(q: &[u8; 64], b: &Block, ac: &[u8]) -> Vec<u8> {
    let mut o = vec![0xFF, 0xD8];
    dqt8(&mut o, 0, q);
    dht(&mut o, 0x00, &DC);
    dht(&mut o, 0x10, ac);
    frame(&mut o, 8, 8, &one(), 0xC0);
    sos(&mut o, &[1], 0, 63, 0);
    let mut s = Bits::new();
    s.ac = ac.to_vec();
    b.write(&mut s);
    o.extend(s.bytes());
    o.extend_from_slice(&[0xFF, 0xD9]);
    o
}

// ---------------------------------------------------------------- blocks
/// a lone DC coefficient is the mean of its block
#[no_mangle]
pub extern "C" fn dc() {
    let (cat, q) = (arg(0), arg(1));
    let b = Block::flat(cat as u8);
    let mut t = [1; 64];
    t[0] = q as u8;
    let d = decode(&gray(&t, &b), opts(ColorSpace::Luma, arg(2) != 0));
    check(d.is_some(), 1);
    let d = d.unwrap();
    check(d.len() == 64, 2);
    let x = extend(b.dc.1, cat) * q as i32 + 1024;
    for p in d {
        let e = 8 * p as i32 - x;
        check(((e <= 4) & (e >= -4)) | ((p == 0) & (x < 4)) | ((p == 255) & (x >= 2036)), 3);
    }
    reach(1);
}
/// one AC coefficient (and a DC coefficient): the basis function within one step
#[no_mangle]
pub extern "C" fn ac1() {
    let (k, size, q, fill) = (arg(0), arg(1), arg(2), arg(3));
    let mut b = Block::flat(0);
    let m = mag(size);
    b.ac.push((k, size as u8, m));
    b.zrl = fill;
    let mut t = [1; 64];
    t[k] = q as u8;
    // the symbol at place arg(5) of the table
    let sym = ((k - 1) % 16) as u8 * 16 + size as u8;
    let mut ac = vec![0xF0, 0x00];
    for i in 0..arg(5) as u8 {
        ac.insert(0, (1 + (sym >> 4) + i) << 4 | (1 + size as u8 % 10));
    }
    ac.insert(arg(5).min(2), sym);
    let d = decode(&gray_with(&t, &b, &ac), opts(ColorSpace::Luma, arg(4) != 0));
    check(d.is_some(), 1);
    let d = d.unwrap();
    check(d.len() == 64, 2);
    let v = extend(m, size) as i64 * q as i64;
    for (p, c) in d.iter().zip(BASIS[k].iter()) {
        let x = v * *c as i64 + (128 << 20);
        let x = if x < 0 { 0 } else { x };
        let x = if x > 255 << 20 { 255 << 20 } else { x };
        let e = ((*p as i64) << 20) - x;
        check((e <= 1 << 20) & (e >= -(1 << 20)), 3);
    }
    reach(1);
}
/// the platform specific transform gives what the portable one does
#[no_mangle]
pub extern "C" fn simd() {
    let (n, q, fill) = (arg(0), arg(1), arg(2));
    let mut b = Block::flat(6);
    for k in 1..n {
        b.ac.push((k, 6, mag(6)));
    }
    b.zrl = fill;
    let t = [q as u8; 64];
    let data = gray(&t, &b);
    let x = decode(&data, opts(ColorSpace::Luma, true));
    let y = decode(&data, opts(ColorSpace::Luma, false));
    check(x.is_some() && y.is_some(), 1);
    check_eq(&x.unwrap(), &y.unwrap(), 2);
    reach(1);
}

// ---------------------------------------------------------------- whole images
#[derive(Clone)]
struct Coef {
    pos: usize,
    size: usize,
    m: u16,
}
impl Coef {
    fn positive(&self) -> u8 {
        (self.m >> (self.size - 1) & 1) as u8
    }
    /// bit al of the absolute value
    fn bit(&self, al: usize) -> u8 {
        (self.m >> al & 1) as u8 ^ 1 ^ self.positive()
    }
}
#[derive(Clone)]
struct Blk {
    dc: i32,
    ac: Vec<Coef>,
}
struct Plane {
    h: usize,
    v: usize,
    /// blocks of the padded and of the real component
    bw: usize,
    bh: usize,
    rw: usize,
    rh: usize,
    b: Vec<Blk>,
}
impl Bits {
    fn raw(&mut self, b: u8) {
        self.b.push(b);
        self.z.push(2);
    }
    fn dc_diff(&mut self, d: i32) {
        let cat = 32 - d.unsigned_abs().leading_zeros();
        self.dc(cat as u8);
        let v = if d < 0 { d - 1 } else { d };
        self.put(v as u32 & ((1 << cat) - 1), cat as usize);
    }
    fn block(&mut self, b: &Blk, pred: &mut i32) {
        self.dc_diff(b.dc - *pred);
        *pred = b.dc;
        let mut at = 0;
        for c in &b.ac {
            let mut run = c.pos - at - 1;
            while run > 15 {
                self.ac(0xF0);
                run -= 16;
            }
            self.ac((run << 4 | c.size) as u8);
            self.sym(c.m, c.size);
            at = c.pos;
        }
        if at < 63 {
            self.ac(0);
        }
    }
    fn eob(&mut self, run: &mut usize, be: &mut Vec<u8>) {
        if *run > 0 {
            let r = (usize::BITS - 1 - run.leading_zeros()) as usize;
            self.ac((r << 4) as u8);
            self.put((*run - (1 << r)) as u32, r);
            *run = 0;
            for b in be.drain(..) {
                self.raw(b);
            }
        }
    }
    fn ac_first(&mut self, b: &Blk, ss: usize, se: usize, al: usize, run: &mut usize) {
        let mut at = ss - 1;
        let mut none = vec![];
        for c in b.ac.iter().filter(|c| c.pos >= ss && c.pos <= se && c.size > al) {
            self.eob(run, &mut none);
            let mut r = c.pos - at - 1;
            while r > 15 {
                self.ac(0xF0);
                r -= 16;
            }
            self.ac((r << 4 | (c.size - al)) as u8);
            self.sym(c.m >> al, c.size - al);
            at = c.pos;
        }
        if at < se {
            *run += 1;
        }
    }
    fn ac_refine(&mut self, b: &Blk, ss: usize, se: usize, al: usize, run: &mut usize, be: &mut Vec<u8>) {
        let last = b.ac.iter().filter(|c| c.pos >= ss && c.pos <= se && c.size == al + 1).map(|c| c.pos).max().unwrap_or(0);
        let mut r = 0;
        let mut br = vec![];
        for k in ss..=se {
            let c = b.ac.iter().find(|c| c.pos == k && c.size > al);
            if let Some(c) = c {
                while r > 15 && k <= last {
                    self.eob(run, be);
                    self.ac(0xF0);
                    r -= 16;
                    for x in br.drain(..) {
                        self.raw(x);
                    }
                }
                if c.size > al + 1 {
                    br.push(c.bit(al));
                } else {
                    self.eob(run, be);
                    self.ac((r << 4 | 1) as u8);
                    self.raw(c.positive());
                    for x in br.drain(..) {
                        self.raw(x);
                    }
                    r = 0;
                }
            } else {
                r += 1;
            }
        }
        if r > 0 || !br.is_empty() {
            *run += 1;
            be.extend(br);
        }
    }
}
struct Img {
    w: usize,
    h: usize,
    p: Vec<Plane>,
    ids: Vec<u8>,
    q: u8,
    ri: usize,
    app14: Option<u8>,
    stuff: bool,
}
/// codes of five bits
const ACP: [u8; 31] = [
    0x06, 0x00, 0xF0, 0x26, 0x05, 0x25, 0x10, 0x20, 0x01, 0x30, 0x04, 0xE1, 0x21, 0x24, 0x31, 0x51, 0x40, 0x50, 0xE4,
    0xE5, 0x15, 0x11, 0x41, 0x61, 0x16, 0x14, 0x0A, 0x09, 0x08, 0x07, 0x02,
];
impl Img {
    fn new(w: usize, h: usize, sampling: &[(usize, usize)]) -> Img {
        let hm = sampling.iter().map(|x| x.0).max().unwrap();
        let vm = sampling.iter().map(|x| x.1).max().unwrap();
        let (mx, my) = (w.div_ceil(8 * hm), h.div_ceil(8 * vm));
        let p = sampling
            .iter()
            .map(|&(h_, v_)| Plane {
                h: h_,
                v: v_,
                bw: mx * h_,
                bh: my * v_,
                rw: (w * h_).div_ceil(hm).div_ceil(8),
                rh: (h * v_).div_ceil(vm).div_ceil(8),
                b: vec![],
            })
            .collect();
        Img { w, h, p, ids: (1..=sampling.len() as u8).collect(), q: 4, ri: 0, app14: None, stuff: false }
    }
    /// blocks with a known mean and up to two unknown coefficients
    fn fill(&mut self, kinds: usize, limit: usize) {
        self.fill_to(kinds, limit, 6);
    }
    /// the same with a first coefficient of so many bits
    fn fill_to(&mut self, kinds: usize, mut limit: usize, first: usize) {
        for (c, p) in self.p.iter_mut().enumerate() {
            for i in 0..p.bw * p.bh {
                let (x, y) = (i % p.bw, i / p.bw);
                let real = x < p.rw && y < p.rh;
                let mut b = Blk { dc: ((i * 7 + c * 5) % 23) as i32 - 11, ac: vec![] };
                let kind = if real { (i + c) % 3 } else { 0 };
                if kind > 0 && kinds >> kind & 1 == 1 {
                    // beyond the limit the coefficients are known too
                    let n = (i * 37 + c * 11) as u16;
                    let free = limit > 0;
                    limit -= free as usize;
                    let mag = |s: usize| if free { mag(s) } else { n & ((1 << s) - 1) };
                    b.ac.push(Coef { pos: 1, size: first, m: mag(first) });
                    let at = if kind == 1 { 2 } else { 20 };
                    b.ac.push(Coef { pos: at, size: if at == 2 { 6 } else { 5 }, m: mag(5) });
                    if at == 2 {
                        let l = b.ac.last_mut().unwrap();
                        l.m |= 32;
                    } else {
                        b.ac.push(Coef { pos: 40, size: 1, m: mag(1) });
                    }
                }
                p.b.push(b);
            }
        }
    }
    fn start(&self, sof: u8) -> Vec<u8> {
        let mut o = vec![0xFF, 0xD8];
        if let Some(t) = self.app14 {
            seg(&mut o, 0xEE, &[b'A', b'd', b'o', b'b', b'e', 0, 100, 0, 0, 0, 0, t]);
        }
        dqt8(&mut o, 0, &[self.q; 64]);
        dht(&mut o, 0x00, &DC);
        dht(&mut o, 0x10, &ACP);
        let c: Vec<Comp> = self.p.iter().zip(&self.ids).map(|(p, id)| Comp { id: *id, h: p.h, v: p.v, tq: 0 }).collect();
        frame(&mut o, self.w, self.h, &c, sof);
        if self.ri > 0 {
            seg(&mut o, 0xDD, &(self.ri as u16).to_be_bytes());
        }
        o
    }
    fn bits(&self) -> Bits {
        let mut b = Bits::new();
        b.ac = ACP.to_vec();
        b.stuff = self.stuff;
        b
    }
    /// block numbers of each coding unit of a scan
    fn units(&self, comps: &[usize]) -> Vec<Vec<(usize, usize)>> {
        let mut u = vec![];
        if comps.len() == 1 {
            let p = &self.p[comps[0]];
            for y in 0..p.rh {
                for x in 0..p.rw {
                    u.push(vec![(comps[0], y * p.bw + x)]);
                }
            }
        } else {
            let p0 = &self.p[0];
            for my in 0..p0.bh / p0.v {
                for mx in 0..p0.bw / p0.h {
                    let mut m = vec![];
                    for &c in comps {
                        let p = &self.p[c];
                        for y in 0..p.v {
                            for x in 0..p.h {
                                m.push((c, (my * p.v + y) * p.bw + mx * p.h + x));
                            }
                        }
                    }
                    u.push(m);
                }
            }
        }
        u
    }
    fn scan(&self, o: &mut Vec<u8>, comps: &[usize], ss: usize, se: usize, ah: usize, al: usize, prog: bool) {
        let ids: Vec<u8> = comps.iter().map(|c| self.ids[*c]).collect();
        sos(o, &ids, ss as u8, se as u8, (ah << 4 | al) as u8);
        let units = self.units(comps);
        let n = if self.ri == 0 { units.len() } else { self.ri };
        for (k, part) in units.chunks(n).enumerate() {
            if k > 0 {
                o.extend_from_slice(&[0xFF, 0xD0 + (k as u8 - 1) % 8]);
            }
            let mut s = self.bits();
            let mut pred = [0; 4];
            let (mut run, mut be) = (0, vec![]);
            for &(c, b) in part.iter().flatten() {
                let b = &self.p[c].b[b];
                if !prog {
                    s.block(b, &mut pred[c]);
                } else if ss == 0 {
                    if ah == 0 {
                        s.dc_diff((b.dc >> al) - pred[c]);
                        pred[c] = b.dc >> al;
                    } else {
                        s.put((b.dc >> al & 1) as u32, 1);
                    }
                } else if ah == 0 {
                    s.ac_first(b, ss, se, al, &mut run);
                } else {
                    s.ac_refine(b, ss, se, al, &mut run, &mut be);
                }
            }
            s.eob(&mut run, &mut be);
            o.extend(s.bytes());
        }
    }
    fn build(&self, mode: usize) -> Vec<u8> {
        let all: Vec<usize> = (0..self.p.len()).collect();
        let mut o = self.start(if mode < 2 || mode == 4 { 0xC0 } else { 0xC2 });
        match mode {
            0 => self.scan(&mut o, &all, 0, 63, 0, 0, false),
            1 => {
                for c in &all {
                    self.scan(&mut o, &[*c], 0, 63, 0, 0, false);
                }
            }
            2 => {
                self.scan(&mut o, &all, 0, 0, 0, 0, true);
                for c in &all {
                    self.scan(&mut o, &[*c], 1, 63, 0, 0, true);
                }
            }
            4 => {
                self.scan(&mut o, &all[1..], 0, 63, 0, 0, false);
                self.scan(&mut o, &all[..1], 0, 63, 0, 0, false);
            }
            5 => {
                for c in all.iter().rev() {
                    self.scan(&mut o, &[*c], 0, 0, 0, 0, true);
                    self.scan(&mut o, &[*c], 1, 20, 0, 0, true);
                }
                for c in &all {
                    self.scan(&mut o, &[*c], 21, 63, 0, 0, true);
                }
            }
            _ => {
                self.scan(&mut o, &all, 0, 0, 0, 1, true);
                for c in &all {
                    self.scan(&mut o, &[*c], 1, 5, 0, 1, true);
                    self.scan(&mut o, &[*c], 6, 63, 0, 1, true);
                }
                for c in all.iter().rev() {
                    self.scan(&mut o, &[*c], 1, 63, 1, 0, true);
                }
                self.scan(&mut o, &all, 0, 0, 1, 0, true);
            }
        }
        o.extend_from_slice(&[0xFF, 0xD9]);
        o
    }
    /// samples of a component, decoded on its own
    fn plane(&self, c: usize, mode: usize) -> Vec<u8> {
        let p = &self.p[c];
        let mut i = Img::new(p.bw * 8, p.bh * 8, &[(1, 1)]);
        i.q = self.q;
        i.stuff = self.stuff;
        i.p[0].b = p.b.clone();
        let d = decode(&i.build(mode), opts(ColorSpace::Luma, false));
        check(d.is_some(), 90);
        let d = d.unwrap();
        check(d.len() == p.bw * p.bh * 64, 91);
        d
    }
    /// the component at the size of the image
    fn full(&self, c: usize, mode: usize) -> Vec<u8> {
        let p = &self.p[c];
        let hm = self.p.iter().map(|x| x.h).max().unwrap();
        let vm = self.p.iter().map(|x| x.v).max().unwrap();
        let (w, h) = (p.bw * 8, p.bh * 8);
        let d = self.plane(c, mode);
        let (fh, fv) = (hm / p.h, vm / p.v);
        // smooth between samples for halves, copy for other ratios
        let smooth = fh <= 2 && fv <= 2;
        let near = |a: i32, b: i32| (3 * a + b + 2) >> 2;
        let mut o = vec![];
        for y in 0..self.h {
            for x in 0..self.w {
                let row = |x: usize| -> i32 {
                    let sy = y / fv;
                    let a = d[sy * w + x] as i32;
                    if fv != 2 || !smooth {
                        return a;
                    }
                    let ny = if y % 2 == 0 { sy.max(1) - 1 } else { (sy + 1).min(h - 1) };
                    near(a, d[ny * w + x] as i32)
                };
                let sx = x / fh;
                let v = if fh != 2 || !smooth {
                    row(sx)
                } else {
                    let nx = if x % 2 == 0 { sx.max(1) - 1 } else { (sx + 1).min(w - 1) };
                    near(row(sx), row(nx))
                };
                o.push(v as u8);
            }
        }
        o
    }
}
fn sampling(k: usize) -> Vec<(usize, usize)> {
    match k {
        0 => vec![(1, 1); 3],
        1 => vec![(2, 1), (1, 1), (1, 1)],
        2 => vec![(1, 2), (1, 1), (1, 1)],
        3 => vec![(2, 2), (1, 1), (1, 1)],
        4 => vec![(1, 1)],
        5 => vec![(2, 2)],
        6 => vec![(1, 1); 4],
        7 => vec![(2, 2), (2, 1), (2, 1)],
        8 => vec![(4, 1), (1, 1), (1, 1)],
        9 => vec![(2, 2), (1, 2), (1, 2)],
        10 => vec![(2, 2), (1, 1), (1, 2)],
        11 => vec![(2, 1), (1, 1), (1, 1), (2, 1)],
        12 => vec![(2, 2), (1, 1), (1, 1), (2, 2)],
        13 => vec![(4, 2), (1, 1), (1, 1)],
        14 => vec![(1, 4), (1, 1), (1, 1)],
        15 => vec![(1, 1), (2, 1), (2, 1)],
        16 => vec![(2, 2), (2, 2), (2, 2)],
        _ => vec![(2, 1), (2, 1), (1, 1)],
    }
}
/// every pixel comes from its own block, whatever the order the blocks are stored in
#[no_mangle]
pub extern "C" fn layout() {
    let (w, h, mode, ri) = (arg(0), arg(1), arg(3), arg(4));
    let mut i = Img::new(w, h, &sampling(arg(2)));
    i.ri = ri;
    i.stuff = arg(9) != 0;
    let limit = if arg(9) == 0 { 1000 } else { arg(9) };
    if arg(10) > 0 {
        i.q = 1;
        i.fill_to(arg(6), limit, arg(10));
    } else {
        i.fill(arg(6), limit);
    }
    let data = i.build(mode);
    let n = i.p.len();
    let out = if n == 1 || arg(7) == 1 { ColorSpace::Luma } else if n == 4 { ColorSpace::CMYK } else { ColorSpace::YCbCr };
    let m = if out == ColorSpace::Luma { 1 } else { n };
    let d = decode(&data, opts(out, arg(5) != 0));
    check(d.is_some(), 1);
    let d = d.unwrap();
    check(d.len() == w * h * m, 2);
    for c in 0..m {
        let want = i.full(c, arg(8) % 4);
        for (k, v) in want.iter().enumerate() {
            check(d[k * m + c] == *v, 3);
        }
    }
    reach(1);
}
/// the colour of a pixel is that of its samples
#[no_mangle]
pub extern "C" fn colour() {
    let (w, h, n, simd) = (arg(0), arg(1), arg(2), arg(5) != 0);
    let samp = match n {
        1 => vec![(1, 1)],
        3 => vec![(2, 1), (1, 1), (1, 1)],
        13 => vec![(1, 1); 3],
        14 => vec![(2, 2), (1, 1), (1, 1), (2, 2)],
        _ => vec![(1, 1); 4],
    };
    let n = n % 10;
    let mut i = Img::new(w, h, &samp);
    i.stuff = true;
    i.q = 10;
    i.fill(63, arg(6));
    let raw_space = match n {
        1 => ColorSpace::Luma,
        3 => ColorSpace::YCbCr,
        _ => ColorSpace::CMYK,
    };
    let raw = decode(&i.build(0), opts(raw_space, simd));
    check(raw.is_some(), 1);
    let raw = raw.unwrap();
    check(raw.len() == w * h * n, 2);
    // the colour model the file states
    i.app14 = [None, Some(0), Some(1), Some(2)][arg(3)];
    let out = [ColorSpace::Luma, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::BGR, ColorSpace::BGRA][arg(4)];
    let m = out.num_components();
    let d = decode(&i.build(0), opts(out, simd));
    check(d.is_some(), 3);
    let d = d.unwrap();
    check(d.len() == w * h * m, 4);
    // the first three components of an image of four
    let mut rgb = vec![];
    if n == 4 && arg(3) == 3 {
        let mut j = Img::new(w, h, &samp[..3]);
        j.stuff = true;
        j.q = i.q;
        for c in 0..3 {
            j.p[c].b = i.p[c].b.clone();
        }
        rgb = decode(&j.build(0), opts(ColorSpace::RGB, simd)).unwrap();
        check(rgb.len() == w * h * 3, 5);
    }
    for k in 0..w * h {
        let s = &raw[k * n..][..n];
        let p = &d[k * m..][..m];
        if m == 1 {
            check(p[0] == s[0], 10);
            continue;
        }
        let at = if arg(4) > 2 { [2, 1, 0] } else { [0, 1, 2] };
        if m == 4 {
            check(p[3] == 255, 11);
        }
        for c in 0..3 {
            let v = p[at[c]] as i32;
            if n == 1 {
                check(v == s[0] as i32, 12);
            } else if n == 3 && arg(3) == 1 {
                check(v == s[c] as i32, 13);
            } else if n == 3 {
                let (y, cb, cr) = (s[0] as i32, s[1] as i32 - 128, s[2] as i32 - 128);
                let x = (y << 16)
                    + match c {
                        0 => 91881 * cr,
                        1 => -22554 * cb - 46802 * cr,
                        _ => 116130 * cb,
                    };
                let x = if x < 0 { 0 } else { x };
                let x = if x > 255 << 16 { 255 << 16 } else { x };
                let e = (v << 16) - x;
                check((e <= 1 << 16) & (e >= -(1 << 16)), 14);
            } else {
                let a = if arg(3) == 3 { 255 - rgb[k * 3 + c] as i32 } else { s[c] as i32 };
                let e = 255 * v - a * s[3] as i32;
                check((e <= 128) & (e >= -128), 15);
            }
        }
    }
    reach(1);
}
/// tables, restarts and segments to be skipped, in all the ways a file may hold them
#[no_mangle]
pub extern "C" fn segments() {
    let (kind, ri, cat) = (arg(0), arg(1), arg(2));
    let n = if kind == 9 { 1 } else { 3 };
    let (w, h) = (24, 8);
    // two quantisation tables and two pairs of code tables
    // of 16 bits: any value that keeps the samples' sums small
    let q = if kind == 0 {
        [1 + (u16v() & 1023), 1 + (u16v() & 1023)]
    } else {
        [1 + u16::from(u8v() & 15), 1 + u16::from(u8v() & 15)]
    };
    let mut t = [[1u8; 64]; 2];
    for i in 0..2 {
        t[i][0] = q[i] as u8;
    }
    let other: Vec<u8> = [1, 2, 0, 3, 4].to_vec();
    let mut o = vec![0xFF, 0xD8];
    let skipped = |o: &mut Vec<u8>, m: u8, l: usize| {
        let b = vec(l);
        seg(o, m, &b);
    };
    if kind == 0 {
        // 16 bits
        for i in 0..2 {
            let mut b = vec![0x10 | i as u8];
            b.extend_from_slice(&q[i].to_be_bytes());
            for _ in 1..64 {
                b.extend_from_slice(&[0, 1]);
            }
            seg(&mut o, 0xDB, &b);
        }
    } else if kind == 1 {
        let mut b = vec![];
        for i in 0..2 {
            b.push(3 - i as u8);
            b.extend_from_slice(&t[i]);
        }
        seg(&mut o, 0xDB, &b);
    } else {
        if kind == 2 {
            // replaced later
            dqt8(&mut o, 0, &[7; 64]);
        }
        dqt8(&mut o, 0, &t[0]);
        dqt8(&mut o, 1, &t[1]);
    }
    if kind == 3 {
        for m in [0xE3, 0xE5, 0xEF, 0xFE] {
            skipped(&mut o, m, 5);
        }
        skipped(&mut o, 0xE4, 0);
    }
    let c: Vec<Comp> = (0..n)
        .map(|i| {
            let second = (i > 0) as u8;
            let tq = if kind == 1 { 3 - second } else { second };
            Comp { id: if kind == 4 { 200 - 7 * i as u8 } else { 1 + i as u8 }, h: 1, v: 1, tq }
        })
        .collect();
    let tables = |o: &mut Vec<u8>| {
        if kind == 5 {
            // all in one segment
            let mut b = vec![];
            for (id, s) in [(0u8, &DC[..]), (0x13, &AC[..]), (3, &other[..]), (0x10, &AC[..])] {
                b.push(id);
                b.extend((0..16).map(|i| if i < s.len() { 1 } else { 0 }));
                b.extend_from_slice(s);
            }
            seg(o, 0xC4, &b);
        } else {
            dht(o, 0x03, &DC);
            dht(o, 0x00, &DC);
            dht(o, 0x10, &AC);
            dht(o, 0x03, &other);
            dht(o, 0x13, &AC);
        }
    };
    if kind != 6 {
        tables(&mut o);
    }
    frame(&mut o, w, h, &c, 0xC0);
    if kind == 6 {
        tables(&mut o);
    }
    if ri > 0 {
        seg(&mut o, 0xDD, &(ri as u16).to_be_bytes());
    }
    if kind == 7 {
        // bytes to fill up before markers
        skipped(&mut o, 0xFE, 3);
        o.extend_from_slice(&[0xFF, 0xFF, 0xFF]);
    }
    let mut want: Vec<Vec<i32>> = vec![vec![]; n];
    let block = |s: &mut Bits, c: usize, pred: &mut [i32; 4], want: &mut Vec<Vec<i32>>| {
        let m = mag(cat);
        let t: &[u8] = if c == 0 { &DC } else { &other };
        let i = t.iter().position(|x| *x == cat as u8).unwrap();
        s.put((1 << (i + 1)) - 2, i + 1);
        s.sym(m, cat);
        s.ac(0);
        pred[c] += extend(m, cat);
        want[c].push(pred[c]);
    };
    let step = if ri == 0 { 3 } else { ri };
    let scans: Vec<Vec<usize>> = if kind == 8 { (0..n).map(|c| vec![c]).collect() } else { vec![(0..n).collect()] };
    for (k, sc) in scans.iter().enumerate() {
        if kind == 8 && k > 0 {
            skipped(&mut o, 0xFE, 2);
        }
        let mut b: Vec<u8> = vec![sc.len() as u8];
        for i in sc {
            b.extend_from_slice(&[c[*i].id, if *i > 0 { 0x33 } else { 0 }]);
        }
        b.extend_from_slice(&[0, 63, 0]);
        seg(&mut o, 0xDA, &b);
        for (r, part) in [0u8, 1, 2].chunks(step).enumerate() {
            if r > 0 {
                if kind == 7 {
                    o.push(0xFF);
                }
                o.extend_from_slice(&[0xFF, 0xD0 + r as u8 - 1]);
            }
            let mut s = Bits::new();
            s.stuff = true;
            let mut pred = [0; 4];
            for _ in part {
                for i in sc {
                    block(&mut s, *i, &mut pred, &mut want);
                }
            }
            o.extend(s.bytes());
        }
    }
    o.extend_from_slice(&[0xFF, 0xD9]);
    let d = decode(&o, opts(if n == 1 { ColorSpace::Luma } else { ColorSpace::YCbCr }, arg(3) != 0));
    check(d.is_some(), 1);
    let d = d.unwrap();
    check(d.len() == w * h * n, 2);
    for y in 0..h {
        for x in 0..w {
            for c in 0..n {
                let v = want[c][x / 8] * q[(c > 0) as usize] as i32 + 1024;
                let p = d[(y * w + x) * n + c];
                let e = 8 * p as i32 - v;
                check(((e <= 4) & (e >= -4)) | ((p == 0) & (v < 4)) | ((p == 255) & (v >= 2036)), 3);
            }
        }
    }
    reach(1);
}

// ---------------------------------------------------------------- headers
/// size, colours and limits
#[no_mangle]
pub extern "C" fn header() {
    let (n, prog) = (arg(0), arg(1));
    let i = Img::new(8, 8, &vec![(1, 1); n]);
    let mut o = i.start(if prog != 0 { 0xC2 } else { 0xC0 });
    let at = o.iter().rposition(|x| *x == if prog != 0 { 0xC2 } else { 0xC0 }).unwrap();
    let (p, w, h) = (u8v(), u16v(), u16v());
    o[at + 3] = p;
    o[at + 4..at + 6].copy_from_slice(&h.to_be_bytes());
    o[at + 6..at + 8].copy_from_slice(&w.to_be_bytes());
    let c: Vec<u8> = (1..=n as u8).collect();
    sos(&mut o, &c, 0, if prog != 0 { 0 } else { 63 }, 0);
    let (mw, mh) = (u16v(), u16v());
    let out = if n == 1 { ColorSpace::Luma } else { ColorSpace::RGBA };
    let opt = opts(out, false).set_max_width(usize::from(mw)).set_max_height(usize::from(mh));
    let mut d = JpegDecoder::new_with_options(ZCursor::new(&o), opt);
    check(d.dimensions().is_none() && d.info().is_none() && d.output_buffer_size().is_none(), 1);
    let ok = d.decode_headers().is_ok();
    check(ok == ((p == 8) & (w > 0) & (h > 0) & (w <= mw) & (h <= mh)), 2);
    if ok {
        let (w, h) = (usize::from(w), usize::from(h));
        check(d.dimensions() == Some((w, h)), 3);
        let x = d.info().unwrap();
        check(x.width as usize == w && x.height as usize == h && x.components as usize == n, 4);
        check(d.output_buffer_size() == Some(w * h * out.num_components()), 5);
        check(d.output_colorspace() == Some(out), 6);
        let s = if n == 1 { ColorSpace::Luma } else if n == 3 { ColorSpace::YCbCr } else { ColorSpace::CMYK };
        check(d.input_colorspace() == Some(s), 7);
        reach(1);
    } else {
        check(d.dimensions().is_none(), 8);
        reach(2);
    }
}
/// Exif, XMP, IPTC and ICC data come out as they are stored
#[no_mangle]
pub extern "C" fn meta() {
    let (kind, n) = (arg(0), arg(1));
    let i = Img::new(8, 8, &[(1, 1)]);
    let mut o = i.start(0xC0);
    let put = |o: &mut Vec<u8>, m: u8, head: &[u8], x: &[u8]| {
        let mut b = head.to_vec();
        b.extend_from_slice(x);
        seg(o, m, &b);
    };
    let exif = vec(n);
    let xmp = vec(n + 1);
    let iptc = vec(n + 2);
    let mut icc: Vec<Vec<u8>> = vec![];
    if kind & 1 != 0 {
        put(&mut o, 0xE1, b"Exif\0\0", &exif);
    }
    if kind & 2 != 0 {
        put(&mut o, 0xE1, b"http://ns.adobe.com/xap/1.0/\0", &xmp);
    }
    if kind & 4 != 0 {
        put(&mut o, 0xED, b"Photoshop 3.0\0", &iptc);
    }
    // parts of the profile, in any order
    let order: &[usize] = match kind >> 3 {
        0 => &[],
        1 => &[1],
        2 => &[1, 2, 3],
        3 => &[3, 1, 2],
        4 => &[2, 1],
        // with one missing or twice
        5 => &[1, 3],
        _ => &[2, 2],
    };
    for k in 0..order.len() {
        icc.push(vec(n + k % 2));
    }
    for (k, x) in order.iter().zip(&icc) {
        let mut h = b"ICC_PROFILE\0".to_vec();
        h.extend_from_slice(&[*k as u8, order.len() as u8]);
        put(&mut o, 0xE2, &h, x);
    }
    sos(&mut o, &[1], 0, 63, 0);
    o.extend_from_slice(&[0x75, 0xFF, 0xFF, 0xD9]);
    let mut d = JpegDecoder::new_with_options(ZCursor::new(&o), opts(ColorSpace::Luma, false));
    check(d.icc_profile().is_none() && d.exif().is_none(), 1);
    check(d.decode_headers().is_ok(), 2);
    let some = |b: bool, v: Option<&Vec<u8>>, x: &[u8], id: u64| {
        check(v.is_some() == b, id);
        if let Some(v) = v {
            check_eq(v, x, id);
        }
    };
    some(kind & 1 != 0, d.exif(), &exif, 3);
    some(kind & 2 != 0, d.xmp(), &xmp, 4);
    some(kind & 4 != 0, d.iptc(), &iptc, 5);
    let mut want = vec![];
    for k in 1..=order.len() {
        if let Some(i) = order.iter().position(|x| *x == k) {
            want.extend_from_slice(&icc[i]);
        }
    }
    some(kind >> 3 > 0 && kind >> 3 < 5, d.icc_profile().as_ref(), &want, 6);
    reach(1);
}

// ---------------------------------------------------------------- anything at all
/// arbitrary bytes in one place of a file: an error or a picture of the announced size
#[no_mangle]
pub extern "C" fn any() {
    let (kind, n, strict) = (arg(0), arg(1), arg(2) != 0);
    let x = vec(n);
    let (w, h) = if kind < 4 || arg(7) != 0 { (8, 8) } else { (16, 12) };
    let samp: Vec<(usize, usize)> = match arg(3) {
        0 => vec![(1, 1)],
        1 => vec![(1, 1); 3],
        2 => vec![(2, 1), (1, 1), (1, 1)],
        3 => vec![(2, 2), (1, 1), (1, 1)],
        _ => vec![(1, 1); 4],
    };
    let c = samp.len();
    let mut i = Img::new(w, h, &samp);
    i.ri = arg(4);
    i.fill(0, 0);
    let all: Vec<usize> = (0..c).collect();
    let ids: Vec<u8> = (1..=c as u8).collect();
    let mut o;
    match kind {
        // a baseline scan
        0 => {
            o = i.start(0xC0);
            sos(&mut o, &ids, 0, 63, 0);
            o.extend_from_slice(&x);
        }
        // the DC scan of a progressive image
        1 => {
            o = i.start(0xC2);
            sos(&mut o, &ids, 0, 0, 1);
            o.extend_from_slice(&x);
        }
        // a first and a later AC scan
        2 | 3 => {
            o = i.start(0xC2);
            i.scan(&mut o, &all, 0, 0, 0, 0, true);
            if kind == 3 {
                i.scan(&mut o, &[0], 1, 63, 0, 1, true);
            }
            sos(&mut o, &[1], 1, 63, if kind == 3 { 0x10 } else { 0 });
            o.extend_from_slice(&x);
        }
        // after a scan
        4 | 5 => {
            o = i.start(if kind == 4 { 0xC0 } else { 0xC2 });
            i.scan(&mut o, &all, 0, if kind == 4 { 63 } else { 0 }, 0, 0, kind == 5);
            o.extend_from_slice(&x);
        }
        // the contents of tables
        6 | 7 | 8 => {
            o = i.start(0xC0);
            let m = [0xDB, 0xC4, 0xDD][kind - 6];
            seg(&mut o, m, &x);
            i.scan(&mut o, &all, 0, 63, 0, 0, false);
        }
        // the start of a scan
        9 | 10 => {
            o = i.start(if kind == 9 { 0xC0 } else { 0xC2 });
            seg(&mut o, 0xDA, &x);
            o.extend_from_slice(&[0x75, 0x13, 0x55, 0xAA]);
        }
        // the start of the frame
        11 | 12 => {
            o = vec![0xFF, 0xD8];
            dqt8(&mut o, 0, &[1; 64]);
            dht(&mut o, 0x00, &DC);
            dht(&mut o, 0x10, &ACP);
            let mut b = vec![8, 0, h as u8, 0, w as u8];
            b.extend_from_slice(&x);
            seg(&mut o, if kind == 11 { 0xC0 } else { 0xC2 }, &b);
            sos(&mut o, &ids, 0, if kind == 11 { 63 } else { 0 }, 0);
            o.extend_from_slice(&[0x75, 0x13, 0x55, 0xAA]);
        }
        // a segment with its length
        _ => {
            o = i.start(0xC0);
            o.extend_from_slice(&[0xFF, arg(5) as u8]);
            o.extend_from_slice(&x);
            i.scan(&mut o, &all, 0, 63, 0, 0, false);
        }
    }
    if kind < 4 || kind > 5 {
        o.extend_from_slice(&[0xFF, 0xD9]);
    }
    let out = [ColorSpace::Luma, ColorSpace::YCbCr, ColorSpace::RGB][if c == 1 { 0 } else { 1 + arg(6) }];
    let mut d = JpegDecoder::new_with_options(ZCursor::new(&o), opts(out, false).set_strict_mode(strict));
    reach(0);
    if let Ok(v) = d.decode() {
        check(v.len() == w * h * out.num_components(), 1);
        reach(1);
    }
}
harnesses!(dc, ac1, simd, layout, colour, segments, header, meta, any);
