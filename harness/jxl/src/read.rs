//! JPEG XL files: an independent reading of the codestream (ISO/IEC 18181-1), as far as the encoder uses it
use symrt::*;
use zune_core::colorspace::ColorSpace;

struct Bits<'a> {
    d: &'a [u8],
    p: usize,
}
impl Bits<'_> {
    fn u(&mut self, n: usize) -> usize {
        let mut v = 0;
        for i in 0..n {
            let at = self.p + i;
            check(at / 8 < self.d.len(), 90);
            v |= ((self.d[at / 8] as usize >> (at % 8)) & 1) << i;
        }
        self.p += n;
        v
    }
    fn b(&mut self) -> bool {
        concrete(self.u(1) as u64) == 1
    }
    /// a field: known once read
    fn f(&mut self, n: usize) -> usize {
        concrete(self.u(n) as u64) as usize
    }
    fn u32(&mut self, d: [(usize, usize); 4]) -> usize {
        let (add, n) = d[self.f(2)];
        add + self.f(n)
    }
    fn en(&mut self) -> usize {
        self.u32([(0, 0), (1, 0), (2, 4), (18, 6)])
    }
    /// zeros up to the byte
    fn pad(&mut self) {
        while self.p % 8 != 0 {
            check(!self.b(), 91);
        }
    }
}
/// prefix code: (length, symbol) in the order of the codes
struct Code {
    one: Option<usize>,
    syms: Vec<(usize, usize)>,
}
impl Code {
    fn of(lens: &[usize]) -> Code {
        let mut syms: Vec<(usize, usize)> = (0..lens.len()).filter(|s| lens[*s] != 0).map(|s| (lens[s], s)).collect();
        syms.sort();
        let kraft: usize = syms.iter().map(|s| 1 << (15 - s.0)).sum();
        check(kraft == 1 << 15, 92);
        Code { one: None, syms }
    }
    fn read(r: &mut Bits, alphabet: usize) -> Code {
        if alphabet == 1 {
            return Code { one: Some(0), syms: vec![] };
        }
        let skip = r.f(2);
        if skip == 1 {
            let n = r.f(2) + 1;
            let mut bits = 0;
            while 1 << bits < alphabet {
                bits += 1;
            }
            let s: Vec<usize> = (0..n).map(|_| r.f(bits)).collect();
            check(s.iter().all(|x| *x < alphabet), 93);
            let lens: &[usize] = match n {
                1 => return Code { one: Some(s[0]), syms: vec![] },
                2 => &[1, 1],
                3 => &[1, 2, 2],
                _ if r.b() => &[1, 2, 3, 3],
                _ => &[2, 2, 2, 2],
            };
            let mut syms: Vec<(usize, usize)> = (0..n).map(|i| (lens[i], s[i])).collect();
            syms.sort();
            return Code { one: None, syms };
        }
        let order = [1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15];
        let (mut cl, mut space) = ([0usize; 18], 0);
        for i in skip..18 {
            let l = match r.f(2) {
                0 => 0,
                1 => 4,
                2 => 3,
                _ if !r.b() => 2,
                _ if !r.b() => 1,
                _ => 5,
            };
            cl[order[i]] = l;
            if l != 0 {
                space += 32 >> l;
            }
            if space >= 32 {
                break;
            }
        }
        let used = cl.iter().filter(|x| **x != 0).count();
        check(space == 32 || used == 1, 94);
        let c = if used == 1 { Code { one: cl.iter().position(|x| *x != 0), syms: vec![] } } else { Code::of(&cl.map(|x| x)) };
        let mut lens = vec![];
        let (mut space, mut prev, mut last, mut rep) = (0, 8, 0, 0);
        while lens.len() < alphabet && space < 32768 {
            let s = c.sym(r);
            if s < 16 {
                lens.push(s);
                if s != 0 {
                    prev = s;
                    space += 32768 >> s;
                }
                rep = 0;
            } else {
                let bits = s - 14;
                let v = if s == 16 { prev } else { 0 };
                if s != last {
                    rep = 0;
                }
                let old = rep;
                if rep > 0 {
                    rep = (rep - 2) << bits;
                }
                rep += r.f(bits) + 3;
                for _ in old..rep {
                    lens.push(v);
                    if v != 0 {
                        space += 32768 >> v;
                    }
                }
            }
            last = s;
        }
        check(lens.len() <= alphabet && space == 32768, 95);
        Code::of(&lens)
    }
    fn sym(&self, r: &mut Bits) -> usize {
        if let Some(s) = self.one {
            return s;
        }
        let (mut code, mut len, mut at) = (0, 0, 0);
        for (l, s) in &self.syms {
            while len < *l {
                code = code << 1 | r.f(1);
                at <<= 1;
                len += 1;
            }
            if code == at {
                return *s;
            }
            at += 1;
        }
        check(false, 96);
        0
    }
}
/// integer of a token: configuration with `e` and no other bits in the token; `free`: of a sample
fn hybrid(t: usize, e: usize, r: &mut Bits) -> usize {
    if t < 1 << e {
        t
    } else {
        let n = e + t - (1 << e);
        check(n <= 31, 97);
        (1 << n) + r.u(n)
    }
}
fn ceil_log2(x: usize) -> usize {
    let mut n = 0;
    while 1 << n < x {
        n += 1;
    }
    n
}
fn config(r: &mut Bits, log_alphabet: usize) -> usize {
    let e = r.f(ceil_log2(log_alphabet + 1));
    if e != log_alphabet {
        let msb = r.f(ceil_log2(e + 1));
        check(msb == 0, 98);
        check(r.f(ceil_log2(e + 1)) == 0, 98);
    }
    e
}
/// entropy coded integers of several contexts
struct Ints {
    lz: Option<(usize, usize, usize)>,
    map: Vec<usize>,
    codes: Vec<(usize, Code)>,
}
impl Ints {
    fn read(r: &mut Bits, contexts: usize) -> Ints {
        let mut n = contexts;
        let lz = if r.b() {
            n += 1;
            let first = r.u32([(224, 0), (512, 0), (4096, 0), (8, 15)]);
            let len = r.u32([(3, 0), (4, 0), (5, 2), (9, 8)]);
            Some((first, len, config(r, 8)))
        } else {
            None
        };
        let map: Vec<usize> = if n == 1 {
            vec![0]
        } else {
            check(r.b(), 99);
            let bits = r.f(2);
            (0..n).map(|_| r.f(bits)).collect()
        };
        let clusters = map.iter().max().unwrap() + 1;
        check((0..clusters).all(|c| map.contains(&c)), 100);
        check(r.b(), 101);
        let configs: Vec<usize> = (0..clusters).map(|_| config(r, 15)).collect();
        let sizes: Vec<usize> = (0..clusters)
            .map(|_| {
                if r.b() {
                    let k = r.f(4);
                    1 + (1 << k) + r.f(k)
                } else {
                    1
                }
            })
            .collect();
        let codes = (0..clusters).map(|i| (configs[i], Code::read(r, sizes[i]))).collect();
        Ints { lz, map, codes }
    }
    /// (first token, symbol) of the context's code
    fn raw(&self, c: usize, r: &mut Bits) -> usize {
        self.codes[self.map[c]].1.sym(r)
    }
}
/// the integers of one section
struct Stream<'a> {
    ints: &'a Ints,
    last: Option<usize>,
    copies: usize,
}
impl Stream<'_> {
    fn next(&mut self, c: usize, r: &mut Bits) -> usize {
        if self.copies > 0 {
            self.copies -= 1;
            return self.last.unwrap();
        }
        let t = self.ints.raw(c, r);
        if let Some((first, min, e)) = self.ints.lz {
            if t >= first {
                let len = concrete((hybrid(t - first, e, r) + min) as u64) as usize;
                let dc = self.ints.map.len() - 1;
                let d = self.ints.raw(dc, r);
                let d = hybrid(d, self.ints.codes[self.ints.map[dc]].0, r);
                // the second of the special distances: one to the left
                check(d == 1 && self.last.is_some(), 102);
                self.copies = len - 1;
                return self.last.unwrap_or(0);
            }
        }
        let v = hybrid(t, self.ints.codes[self.ints.map[c]].0, r);
        self.last = Some(v);
        v
    }
}
fn signed(v: usize) -> i32 {
    ((v as u32 >> 1) as i32) ^ -((v & 1) as i32)
}
/// decision tree: only channel numbers are asked for
enum Node {
    Split(i32, usize, usize),
    Leaf(usize),
}
fn tree(r: &mut Bits) -> Vec<Node> {
    let ints = Ints::read(r, 6);
    let mut s = Stream { ints: &ints, last: None, copies: 0 };
    let mut get = |c: usize| concrete(s.next(c, r) as u64) as usize;
    let (mut nodes, mut open, mut leaves) = (vec![], 1, 0);
    while open > 0 {
        check(nodes.len() < 20, 103);
        open -= 1;
        let p = get(1);
        if p == 0 {
            // the gradient predictor, nothing added, times one
            check(get(2) == 5 && get(3) == 0 && get(4) == 0 && get(5) == 0, 104);
            nodes.push(Node::Leaf(leaves));
            leaves += 1;
        } else {
            check(p == 1, 105);
            let v = signed(get(0));
            let l = nodes.len() + open + 1;
            nodes.push(Node::Split(v, l, l + 1));
            open += 2;
        }
    }
    nodes
}
fn leaf(t: &[Node], channel: usize) -> usize {
    let mut i = 0;
    loop {
        match t[i] {
            Node::Leaf(l) => return l,
            Node::Split(v, a, b) => i = if channel as i32 > v { a } else { b },
        }
    }
}
/// transforms of a modular group: with YCoCg or none
fn group_header(r: &mut Bits) -> bool {
    check(r.b(), 106); // the global tree
    check(r.b(), 107); // weighted predictor as usual
    match r.u32([(0, 0), (1, 0), (2, 4), (18, 8)]) {
        0 => false,
        n => {
            check(n == 1 && r.f(2) == 0, 108);
            check(r.u32([(0, 3), (8, 6), (72, 10), (1096, 13)]) == 0, 109);
            check(r.u32([(6, 0), (0, 2), (2, 4), (10, 6)]) == 6, 110);
            true
        }
    }
}
fn channel(s: &mut Stream, t: &[Node], c: usize, w: usize, h: usize, r: &mut Bits) -> Vec<i32> {
    let ctx = leaf(t, c);
    let mut v: Vec<i32> = Vec::with_capacity(w * h);
    for y in 0..h {
        for x in 0..w {
            let i = y * w + x;
            let left = if x > 0 {
                v[i - 1]
            } else if y > 0 {
                v[i - w]
            } else {
                0
            };
            let top = if y > 0 { v[i - w] } else { left };
            let corner = if x > 0 && y > 0 { v[i - w - 1] } else { left };
            let (lo, hi) = if left < top { (left, top) } else { (top, left) };
            let g = left + top - corner;
            let g = if g < lo { lo } else { g };
            let g = if g > hi { hi } else { g };
            v.push(g + signed(s.next(ctx, r)));
        }
    }
    v
}
/// the samples, interleaved, and bits of colour and alpha samples
pub fn decode(d: &[u8], w: usize, h: usize, cs: ColorSpace) -> (Vec<i32>, usize, usize) {
    let r = &mut Bits { d, p: 0 };
    let n = cs.num_components();
    check(r.f(16) == 0x0aff, 60);
    // size
    check(!r.b(), 61);
    let size = [(1, 9), (1, 13), (1, 18), (1, 30)];
    check(r.u32(size) == h && r.f(3) == 0 && r.u32(size) == w, 62);
    // image metadata
    check(!r.b() && !r.b(), 63);
    let depth = |r: &mut Bits| {
        check(!r.b(), 64);
        r.u32([(8, 0), (10, 0), (12, 0), (1, 6)])
    };
    let bits = depth(r);
    let sixteen = r.b();
    check(!sixteen || bits <= 14, 65);
    let extra = r.u32([(0, 0), (1, 0), (2, 4), (1, 12)]);
    check(extra == cs.has_alpha() as usize, 66);
    let mut alpha = 8;
    if extra == 1 && !r.b() {
        check(r.en() == 0, 67);
        alpha = depth(r);
        // as large as the image, without a name, not premultiplied
        check(r.u32([(0, 0), (3, 0), (4, 0), (1, 3)]) == 0, 68);
        check(r.u32([(0, 0), (0, 4), (16, 5), (48, 10)]) == 0, 69);
        check(!r.b(), 70);
    }
    check(!r.b(), 71); // not XYB
    if r.b() {
        check(n > 2, 72); // sRGB
    } else {
        check(!r.b(), 73);
        check(r.en() == 1 && n < 3, 74); // gray
        check(r.en() == 1 && !r.b() && r.en() == 13 && r.en() < 4, 75); // D65, sRGB transfer
    }
    check(r.f(2) == 0 && r.b(), 76);
    r.pad();
    // frame header
    check(!r.b() && r.f(2) == 0 && r.b() && r.f(2) == 0 && !r.b() && r.f(2) == 0, 77);
    check(extra == 0 || r.f(2) == 0, 78);
    check(r.f(2) == 1 && r.f(2) == 0 && !r.b(), 79);
    check(r.f(2) == 0 && (extra == 0 || r.f(2) == 0), 80);
    check(r.b() && r.f(2) == 0, 81);
    check(!r.b() && !r.b() && r.f(2) == 0 && r.f(2) == 0 && r.f(2) == 0, 82);
    // table of contents
    let (gx, gy) = (w.div_ceil(256), h.div_ceil(256));
    let one = gx * gy == 1;
    let sections = if one { 1 } else { 2 + w.div_ceil(2048) * h.div_ceil(2048) + gx * gy };
    check(!r.b(), 83);
    r.pad();
    let mut lens = vec![];
    for _ in 0..sections {
        lens.push(r.u32([(0, 10), (1024, 14), (17408, 22), (4211712, 30)]));
    }
    r.pad();
    check(r.p / 8 + lens.iter().sum::<usize>() == d.len(), 84);
    let starts: Vec<usize> = (0..sections).map(|i| r.p / 8 + lens[..i].iter().sum::<usize>()).collect();
    // the part that all have in common
    check(r.b() && r.b(), 85);
    let t = tree(r);
    let leaves = t.iter().filter(|n| matches!(n, Node::Leaf(_))).count();
    let ints = Ints::read(r, leaves);
    let ycocg = group_header(r);
    check(ycocg == (n > 2), 86);
    let mut planes = vec![vec![0i32; w * h]; n];
    if one {
        let mut s = Stream { ints: &ints, last: None, copies: 0 };
        for c in 0..n {
            planes[c] = channel(&mut s, &t, c, w, h, r);
        }
        check(s.copies == 0, 87);
        r.pad();
        check(r.p / 8 == d.len(), 88);
    } else {
        r.pad();
        check(r.p / 8 == starts[1], 89);
        for g in 0..gx * gy {
            let at = sections - gx * gy + g;
            r.p = 8 * starts[at];
            check(!group_header(r), 86);
            let mut s = Stream { ints: &ints, last: None, copies: 0 };
            let (x0, y0) = (g % gx * 256, g / gx * 256);
            let (gw, gh) = ((w - x0).min(256), (h - y0).min(256));
            for c in 0..n {
                let p = channel(&mut s, &t, c, gw, gh, r);
                for y in 0..gh {
                    planes[c][(y0 + y) * w + x0..][..gw].copy_from_slice(&p[y * gw..][..gw]);
                }
            }
            check(s.copies == 0, 87);
            r.pad();
            check(r.p / 8 == starts[at] + lens[at], 88);
        }
    }
    let mut v = vec![];
    for i in 0..w * h {
        if ycocg {
            let (y, co, cg) = (planes[0][i], planes[1][i], planes[2][i]);
            let tmp = y - (cg >> 1);
            let g = cg + tmp;
            let b = tmp - (co >> 1);
            v.extend([b + co, g, b]);
        } else {
            v.push(planes[0][i]);
        }
        if n % 2 == 0 {
            v.push(planes[n - 1][i]);
        }
    }
    (v, bits, alpha)
}
