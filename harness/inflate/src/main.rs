use symrt::*;
use zune_inflate::{DeflateDecoder, DeflateEncoder, DeflateOptions};

// ---------------------------------------------------------------- reference
struct Bits<'a> {
    d: &'a [u8],
    at: usize,
    bit: usize,
    /// met something the format leaves undefined (a code point that is never used):
    /// nothing is said about the result, but the decoder still has to behave
    undef: bool,
}
impl Bits<'_> {
    fn one(&mut self) -> Option<u32> {
        let b = *self.d.get(self.at)?;
        let v = concrete((b >> self.bit & 1) as u64) as u8;
        self.bit += 1;
        if self.bit == 8 {
            self.bit = 0;
            self.at += 1;
        }
        Some(v as u32)
    }
    fn get(&mut self, n: u32) -> Option<u32> {
        let mut v = 0;
        for i in 0..n {
            v |= self.one()? << i;
        }
        Some(v)
    }
    /// canonical code, one bit at a time; lens[i] is the code length of symbol i
    fn symbol(&mut self, lens: &[u8]) -> Option<usize> {
        if lens.iter().map(|x| (*x > 0) as usize).sum::<usize>() == 1 {
            // a code of a single symbol has one unused bit pattern: nothing is said about it
            if self.one()? != 0 {
                self.undef = true;
                return None;
            }
            return lens.iter().position(|x| *x > 0);
        }
        let mut code = 0i32;
        let mut first = 0i32;
        for l in 1..16 {
            code |= self.one()? as i32;
            let n = lens.iter().filter(|x| **x == l).count() as i32;
            if code - first < n {
                let mut k = (code - first) as u64;
                k = concrete(k);
                return lens.iter().enumerate().filter(|x| *x.1 == l).nth(k as usize).map(|x| x.0);
            }
            first = (first + n) << 1;
            code <<= 1;
        }
        None
    }
}
const LB: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
const LE: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
const DB: [u16; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577,
];
const DE: [u8; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
fn fixed() -> (Vec<u8>, Vec<u8>) {
    let mut l = vec![8u8; 144];
    l.extend([9; 112]);
    l.extend([7; 24]);
    l.extend([8; 8]);
    (l, vec![5; 30])
}
/// decode the symbols of one compressed block
fn codes(b: &mut Bits, out: &mut Vec<u8>, ll: &[u8], dl: &[u8], max: usize) -> Option<()> {
    loop {
        let s = b.symbol(ll)?;
        if s < 256 {
            out.push(s as u8);
        } else if s == 256 {
            return Some(());
        } else {
            if s > 285 {
                b.undef = true;
                return None;
            }
            let len = LB[s - 257] as usize + concrete(b.get(LE[s - 257] as u32)? as u64) as usize;
            let d = b.symbol(dl)?;
            if d > 29 {
                b.undef = true;
                return None;
            }
            let dist = DB[d] as usize + concrete(b.get(DE[d] as u32)? as u64) as usize;
            if dist > out.len() {
                return None;
            }
            for _ in 0..len {
                out.push(out[out.len() - dist]);
            }
        }
        if out.len() > max {
            return None;
        }
    }
}
// ---------------------------------------------------------------- writing streams
struct W {
    v: Vec<u8>,
    n: usize,
}
impl W {
    fn new() -> W {
        W { v: vec![], n: 0 }
    }
    fn bit(&mut self, b: u8) {
        if self.n % 8 == 0 {
            self.v.push(0);
        }
        let k = self.v.len() - 1;
        self.v[k] |= (b & 1) << (self.n % 8);
        self.n += 1;
    }
    fn bits(&mut self, v: u32, n: u32) {
        for i in 0..n {
            self.bit((v as u64 >> i) as u8);
        }
    }
    /// Huffman code of a symbol, most significant bit first
    fn sym(&mut self, lens: &[u8], s: usize) {
        let mut code = 0u32;
        for l in 1..=lens[s] {
            code <<= 1;
            if l == lens[s] {
                code += lens[..s].iter().filter(|x| **x == l).count() as u32;
            } else {
                code += lens.iter().filter(|x| **x == l).count() as u32;
            }
        }
        for i in (0..lens[s]).rev() {
            self.bit((code >> i) as u8);
        }
    }
    fn matchc(&mut self, ll: &[u8], dl: &[u8], len: usize, dist: usize) {
        let i = (0..29).rev().find(|i| LB[*i] as usize <= len && (*i != 28 || len == 258)).unwrap();
        self.sym(ll, 257 + i);
        self.bits((len - LB[i] as usize) as u32, LE[i] as u32);
        let j = (0..30).rev().find(|j| DB[*j] as usize <= dist).unwrap();
        self.sym(dl, j);
        self.bits((dist - DB[j] as usize) as u32, DE[j] as u32);
    }
}
fn adler(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
fn crc(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in d {
        c ^= *x as u32;
        for _ in 0..8 {
            c = (c >> 1) ^ (0xedb88320 & (0u32.wrapping_sub(c & 1)));
        }
    }
    !c
}
fn decode(d: &[u8]) -> Result<Vec<u8>, ()> {
    DeflateDecoder::new_with_options(d, DeflateOptions::default().set_size_hint(64)).decode_deflate().map_err(|_| ())
}
fn agree(f: &[u8], want: Option<Vec<u8>>) {
    match (decode(f), want) {
        (Ok(a), Some(b)) => {
            check_eq(&a, &b, 1);
            reach(1);
        }
        (Err(_), None) => reach(2),
        (Ok(_), None) => check(false, 2),
        (Err(_), Some(_)) => check(false, 3),
    }
}
// ---------------------------------------------------------------- harnesses
/// stored blocks of any content, followed by anything
#[no_mangle]
#[inline(never)]
pub extern "C" fn stored() {
    let (n, m, tail) = (arg(0), arg(1), arg(2));
    let (a, b) = (vec(n), vec(m));
    let mut f = vec![];
    // unused header bits are free
    for (d, last) in [(&a, 0u8), (&b, 1)] {
        let junk = u8v();
        f.push(last | junk << 3);
        f.extend((d.len() as u16).to_le_bytes());
        f.extend((!(d.len() as u16)).to_le_bytes());
        f.extend(d);
    }
    f.extend(vec![0x5a; tail]);
    let mut want = a.clone();
    want.extend(&b);
    agree(&f, Some(want));
    // one byte short: refused
    if tail == 0 {
        let k = f.len() - 1;
        check(decode(&f[..k]).is_err(), 9);
    }
}
/// length and its complement must agree
#[no_mangle]
#[inline(never)]
pub extern "C" fn stored_len() {
    let mut f = vec![1];
    let l = [u8v(), 0];
    assume(l[0] < 9);
    let nl = vec(2);
    f.extend(l);
    f.extend(&nl);
    f.extend([1, 2, 3, 4, 5, 6, 7, 8]);
    let n = concrete(l[0] as u64) as usize;
    let good = nl[0] == !l[0] && nl[1] == 0xff;
    agree(&f, if good { Some(f[5..5 + n].to_vec()) } else { None });
}
/// zlib framing of what the encoder writes, checksum and header checks
#[no_mangle]
#[inline(never)]
pub extern "C" fn zlib_roundtrip() {
    let d = vec(arg(0));
    let f = DeflateEncoder::new(&d).encode_zlib();
    match DeflateDecoder::new(&f).decode_zlib() {
        Ok(o) => {
            check_eq(&o, &d, 1);
            reach(1);
        }
        Err(_) => check(false, 2),
    }
    let k = f.len();
    check_eq(&f[k - 4..], &adler(&d).to_be_bytes(), 3);
}
/// long inputs are split over several stored blocks
#[no_mangle]
#[inline(never)]
pub extern "C" fn zlib_long() {
    let n = arg(0);
    let mut d: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    let s = vec(4);
    for i in 0..4 {
        let k = [0, n / 2, n - 2, n - 1][i];
        d[k] = s[i];
    }
    let f = DeflateEncoder::new(&d).encode_zlib();
    match DeflateDecoder::new_with_options(&f, DeflateOptions::default().set_confirm_checksum(false)).decode_zlib() {
        Ok(o) => {
            check_eq(&o, &d, 1);
            reach(1);
        }
        Err(_) => check(false, 2),
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn zlib_check() {
    let d = vec(arg(0));
    let h = vec(2);
    let c = vec(4);
    let mut f = h.clone();
    f.push(1);
    f.extend((d.len() as u16).to_le_bytes());
    f.extend((!(d.len() as u16)).to_le_bytes());
    f.extend(&d);
    f.extend(&c);
    let head = h[0] & 15 == 8 && h[0] >> 4 <= 7 && (h[0] as u16 * 256 + h[1] as u16) % 31 == 0;
    let sum = adler(&d) == u32::from_be_bytes([c[0], c[1], c[2], c[3]]);
    match DeflateDecoder::new(&f).decode_zlib() {
        Ok(o) => {
            check(head && sum, 1);
            check_eq(&o, &d, 2);
            reach(1);
        }
        Err(_) => {
            // preset dictionaries may be refused
            check(!(head && sum) || h[1] & 32 != 0, 3);
            reach(2);
        }
    }
}
/// gzip: optional fields, checksum and size
#[no_mangle]
#[inline(never)]
pub extern "C" fn gzip() {
    let d = vec(arg(0));
    let flags = choice(32) as u8;
    let mut f = vec![31, 139, 8, flags];
    f.extend(vec(6));
    if flags & 4 != 0 {
        let k = choice(3);
        f.extend([k as u8, 0]);
        f.extend(vec(k));
    }
    for b in [8, 16] {
        if flags & b != 0 {
            let s = vec(choice(3));
            for x in &s {
                assume(*x != 0);
            }
            f.extend(s);
            f.push(0);
        }
    }
    if flags & 2 != 0 {
        let c = crc(&f) as u16;
        f.extend(c.to_le_bytes());
    }
    f.push(1);
    f.extend((d.len() as u16).to_le_bytes());
    f.extend((!(d.len() as u16)).to_le_bytes());
    f.extend(&d);
    let bad = choice(3);
    let c = crc(&d);
    let flip = u8v();
    f.extend((if bad == 1 { c ^ (flip as u32) << 8 } else { c }).to_le_bytes());
    let l = d.len() as u32;
    f.extend((if bad == 2 { l ^ (flip as u32) << 24 } else { l }).to_le_bytes());
    let ok = bad == 0 || flip == 0;
    match DeflateDecoder::new(&f).decode_gzip() {
        Ok(o) => {
            check(ok, 1);
            check_eq(&o, &d, 2);
            reach(1);
        }
        Err(_) => {
            check(!ok, 3);
            reach(2);
        }
    }
}
/// a block with the fixed codes, free bits in the middle
#[no_mangle]
#[inline(never)]
pub extern "C" fn fixed_block() {
    let (lead, n, tail) = (arg(0), arg(1), arg(2));
    let (ll, dl) = fixed();
    let mut w = W::new();
    w.bits(3, 3);
    for i in 0..lead {
        w.sym(&ll, 65 + i % 26);
    }
    let start = w.n;
    for x in vec(n) {
        w.bits(x as u32, 8);
    }
    // a way out whatever the phase: literal zeros then plenty of zero bits (end of block)
    w.bits(0, 40);
    let mut f = w.v;
    let mut b = Bits { d: &f.clone(), at: start / 8, bit: start % 8, undef: false };
    f.extend(vec![0; tail]);
    let mut out: Vec<u8> = (0..lead).map(|i| (65 + i % 26) as u8).collect();
    let r = codes(&mut b, &mut out, &ll, &dl, 4000);
    if b.undef {
        let _ = decode(&f);
        return;
    }
    agree(&f, r.map(|_| out));
}
/// lens -> bits of a dynamic block header, code lengths sent plainly (no repeats)
fn dynamic_header(w: &mut W, ll: &[u8], dl: &[u8], rep: bool) {
    w.bits(1, 1);
    w.bits(2, 2);
    w.bits(ll.len() as u32 - 257, 5);
    w.bits(dl.len() as u32 - 1, 5);
    let order = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
    // code length code: 4 bits for 0..=12, 5 bits for 13, 14, 15, 16, 17, 18: complete
    let cl: Vec<u8> = (0..19).map(|i| if i < 13 { 4 } else { 5 }).collect();
    w.bits(15, 4);
    for o in order {
        w.bits(cl[o] as u32, 3);
    }
    let all: Vec<u8> = ll.iter().chain(dl).cloned().collect();
    let mut i = 0;
    while i < all.len() {
        let mut n = 1;
        while i + n < all.len() && all[i + n] == all[i] {
            n += 1;
        }
        if rep && all[i] == 0 && n >= 11 {
            let k = n.min(138);
            w.sym(&cl, 18);
            w.bits(k as u32 - 11, 7);
            i += k;
        } else if rep && all[i] == 0 && n >= 3 {
            w.sym(&cl, 17);
            w.bits(n as u32 - 3, 3);
            i += n;
        } else if rep && n >= 4 {
            let k = (n - 1).min(6);
            w.sym(&cl, all[i] as usize);
            w.sym(&cl, 16);
            w.bits(k as u32 - 3, 2);
            i += k + 1;
        } else {
            w.sym(&cl, all[i] as usize);
            i += 1;
        }
    }
}
/// code tables of different shapes; (litlen, dist)
fn shape(k: usize) -> (Vec<u8>, Vec<u8>) {
    let mut l = vec![0u8; 286];
    let mut d = vec![0u8; 30];
    match k {
        // few symbols, one distance code of one bit
        0 => {
            l[97] = 1;
            l[256] = 2;
            l[257] = 3;
            l[284] = 3;
            d[0] = 1;
            d.truncate(1);
            l.truncate(285);
        }
        // a ladder: lengths 1..15, needs sub tables
        1 => {
            for i in 0..15 {
                l[[98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 256, 257, 260, 285][i]] = i as u8 + 1;
            }
            l[255] = 15;
            for i in 0..14 {
                d[i] = i as u8 + 1;
            }
            d[14] = 15;
            d[15] = 15;
        }
        // flat: 16 symbols of 4 bits, 4 distances of 2
        2 => {
            for (i, s) in [0usize, 1, 2, 3, 250, 251, 252, 253, 256, 257, 258, 259, 260, 265, 269, 285].iter().enumerate() {
                let _ = i;
                l[*s] = 4;
            }
            for s in [0, 1, 3, 4] {
                d[s] = 2;
            }
        }
        // over-subscribed literal code
        3 => {
            l[0] = 1;
            l[1] = 1;
            l[256] = 1;
            d[0] = 1;
            d[1] = 1;
        }
        // only literals, no distance code
        4 => {
            l[65] = 1;
            l[256] = 1;
            l.truncate(257);
            d.truncate(1);
        }
        // incomplete literal code
        _ => {
            l[65] = 2;
            l[256] = 2;
            d[0] = 1;
            d[1] = 1;
        }
    }
    (l, d)
}
/// dynamic codes, free bits in the body
#[no_mangle]
#[inline(never)]
pub extern "C" fn dynamic_block() {
    let (k, lead, n, tail) = (arg(0), arg(1), arg(2), arg(3));
    let (ll, dl) = shape(k);
    let mut w = W::new();
    dynamic_header(&mut w, &ll, &dl, choice(2) == 1);
    let lit = ll.iter().position(|x| *x > 0).unwrap();
    for _ in 0..lead {
        w.sym(&ll, lit);
    }
    let start = w.n;
    for x in vec(n) {
        w.bits(x as u32, 8);
    }
    w.sym(&ll, 256);
    w.sym(&ll, 256);
    w.bits(0, 24);
    let mut f = w.v;
    let mut b = Bits { d: &f.clone(), at: start / 8, bit: start % 8, undef: false };
    f.extend(vec![0; tail]);
    let mut out: Vec<u8> = vec![lit as u8; lead];
    let r = if k == 3 || k == 5 { None } else { codes(&mut b, &mut out, &ll, &dl, 4000) };
    if b.undef {
        let _ = decode(&f);
        return;
    }
    agree(&f, r.map(|_| out));
}
/// matches of every length and many distances over known and unknown history
#[no_mangle]
#[inline(never)]
pub extern "C" fn matches() {
    let (hist, len0, span, tail) = (arg(0), arg(1), arg(2), arg(3));
    let (ll, dl) = fixed();
    let mut w = W::new();
    w.bits(0, 3);
    // history in a stored block, so that it is free
    let h = vec(hist);
    w.n = 8;
    w.v.extend((hist as u16).to_le_bytes());
    w.v.extend((!(hist as u16)).to_le_bytes());
    w.v.extend(&h);
    w.n = w.v.len() * 8;
    w.bits(3, 3);
    let len = len0 + choice(span);
    let dist = 1 + choice(hist);
    w.sym(&ll, 200);
    w.matchc(&ll, &dl, len, dist);
    w.sym(&ll, 7);
    w.matchc(&ll, &dl, 3, 2);
    w.sym(&ll, 256);
    let mut f = w.v;
    f.extend(vec![0; tail]);
    let mut want = h.clone();
    want.push(200);
    for _ in 0..len {
        want.push(want[want.len() - dist]);
    }
    want.push(7);
    for _ in 0..3 {
        want.push(want[want.len() - 2]);
    }
    agree(&f, Some(want));
}
/// large distances
#[no_mangle]
#[inline(never)]
pub extern "C" fn far() {
    let (hist, len, dist) = (arg(0), arg(1), arg(2));
    let (ll, dl) = fixed();
    let mut w = W::new();
    let mut h: Vec<u8> = (0..hist).map(|i| (i * 31 + i / 256) as u8).collect();
    let s = vec(4);
    let n = hist - dist;
    h[n..n + 4].copy_from_slice(&s);
    w.v.push(0);
    w.v.extend((hist as u16).to_le_bytes());
    w.v.extend((!(hist as u16)).to_le_bytes());
    w.v.extend(&h);
    w.n = w.v.len() * 8;
    w.bits(3, 3);
    w.matchc(&ll, &dl, len, dist);
    w.sym(&ll, 256);
    w.bits(0, 64);
    let mut want = h.clone();
    for _ in 0..len {
        want.push(want[want.len() - dist]);
    }
    agree(&w.v, Some(want));
}
/// the output limit: more is refused, as much is accepted
#[no_mangle]
#[inline(never)]
pub extern "C" fn limit() {
    let (kind, n, lim, tail) = (arg(0), arg(1), arg(2), arg(3));
    let (ll, dl) = fixed();
    let mut w = W::new();
    let mut want = vec![];
    match kind {
        0 => {
            // literals
            w.bits(3, 3);
            for i in 0..n {
                w.sym(&ll, i % 256);
                want.push(i as u8);
            }
            w.sym(&ll, 256);
        }
        1 => {
            // one literal and matches
            w.bits(3, 3);
            w.sym(&ll, 77);
            let mut k = n - 1;
            while k >= 3 {
                let m = if k > 258 && k < 261 { 200 } else { k.min(258) };
                w.matchc(&ll, &dl, m, 1);
                k -= m;
            }
            for _ in 0..k {
                w.sym(&ll, 77);
            }
            w.sym(&ll, 256);
            want = vec![77; n];
        }
        _ => {
            let d = vec(n);
            w.v.push(1);
            w.v.extend((n as u16).to_le_bytes());
            w.v.extend((!(n as u16)).to_le_bytes());
            w.v.extend(&d);
            want = d;
        }
    }
    let mut f = w.v;
    f.extend(vec![0; tail]);
    let o = DeflateOptions::default().set_limit(lim).set_size_hint(16);
    match DeflateDecoder::new_with_options(&f, o).decode_deflate() {
        Ok(x) => {
            check(n <= lim, 1);
            check_eq(&x, &want, 2);
            reach(1);
        }
        Err(_) => {
            check(n > lim, 3);
            reach(1);
        }
    }
}
/// arbitrary bytes to each entry point
#[no_mangle]
#[inline(never)]
pub extern "C" fn any() {
    let (kind, n, pre) = (arg(0), arg(1), arg(2));
    let mut f: Vec<u8> = match pre {
        0 => vec![],
        1 => vec![0x78, 0x9c],
        2 => vec![31, 139, 8],
        _ => vec![0x05], // last block, dynamic codes
    };
    f.extend(vec(n));
    let mut d = DeflateDecoder::new_with_options(&f, DeflateOptions::default().set_size_hint(64).set_limit(1000));
    let r = match kind {
        0 => d.decode_deflate(),
        1 => d.decode_zlib(),
        _ => d.decode_gzip(),
    };
    reach(if r.is_ok() { 1 } else { 2 });
}
/// a fixed block of any literals, cut inside its last code or earlier: refused
#[no_mangle]
#[inline(never)]
pub extern "C" fn truncated() {
    let (lead, n) = (arg(0), arg(1));
    let (ll, _) = fixed();
    let mut w = W::new();
    w.bits(3, 3);
    for i in 0..lead {
        w.sym(&ll, if i % 3 == 1 { 200 } else { 65 + i % 26 });
    }
    for _ in 0..n {
        // any literal or length that needs 8 bits: a literal below 144
        let x = u8v();
        assume(x < 144);
        let c = 0x30 + x;
        w.bits(c.reverse_bits() as u32, 8);
    }
    w.sym(&ll, 256);
    let f = w.v;
    let r = decode(&f);
    check(r.is_ok(), 1);
    for cut in 1..=2.min(f.len() - 1) {
        check(decode(&f[..f.len() - cut]).is_err(), 2);
    }
    reach(1);
}
harnesses!(truncated, stored, stored_len, zlib_roundtrip, zlib_long, zlib_check, gzip, fixed_block, dynamic_block, matches, far, limit, any);
