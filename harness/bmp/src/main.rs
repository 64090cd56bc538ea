//! BMP: independent reference for decoding.
use symrt::*;
use zune_bmp::BmpDecoder;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;

fn pick(n: usize) -> usize {
    choice(n)
}

#[derive(Clone)]
struct Bmp {
    ih: usize,
    w: usize,
    /// negative: top-down
    h: i32,
    bpp: u16,
    comp: u32,
    used: u32,
    masks: [u32; 4],
    pal: Vec<u8>,
    gap: usize,
    body: Vec<u8>,
}
impl Bmp {
    fn new(ih: usize, w: usize, h: i32, bpp: u16) -> Bmp {
        Bmp { ih, w, h, bpp, comp: 0, used: 0, masks: [0; 4], pal: vec![], gap: 0, body: vec![] }
    }
    fn build(&self) -> Vec<u8> {
        let mut head: Vec<u8> = vec![];
        head.extend_from_slice(&(self.ih as u32).to_le_bytes());
        if self.ih == 12 {
            head.extend_from_slice(&(self.w as u16).to_le_bytes());
            head.extend_from_slice(&(self.h as u16).to_le_bytes());
            head.extend_from_slice(&1u16.to_le_bytes());
            head.extend_from_slice(&self.bpp.to_le_bytes());
        } else {
            head.extend_from_slice(&(self.w as u32).to_le_bytes());
            head.extend_from_slice(&self.h.to_le_bytes());
            head.extend_from_slice(&1u16.to_le_bytes());
            head.extend_from_slice(&self.bpp.to_le_bytes());
            if self.ih >= 40 {
                for v in [self.comp, 0, 2835, 2835, self.used, 0] {
                    head.extend_from_slice(&v.to_le_bytes());
                }
            }
            if self.ih > 40 && self.ih != 64 {
                for m in self.masks.iter().take(if self.ih == 52 { 3 } else { 4 }) {
                    head.extend_from_slice(&m.to_le_bytes());
                }
            }
            while head.len() < self.ih {
                head.push(0);
            }
            if self.ih == 40 && self.comp == 3 {
                for m in self.masks.iter().take(3) {
                    head.extend_from_slice(&m.to_le_bytes());
                }
            }
        }
        head.extend_from_slice(&self.pal);
        for _ in 0..self.gap {
            head.push(0xA5);
        }
        let off = (14 + head.len()) as u32;
        let mut f = b"BM".to_vec();
        f.extend_from_slice(&(off + self.body.len() as u32).to_le_bytes());
        f.extend_from_slice(&[0; 4]);
        f.extend_from_slice(&off.to_le_bytes());
        f.extend_from_slice(&head);
        f.extend_from_slice(&self.body);
        f
    }
    fn rows(&self) -> usize {
        self.h.unsigned_abs() as usize
    }
    fn stride(&self) -> usize {
        (self.w * usize::from(self.bpp) + 31) / 32 * 4
    }
    /// stored row for output row y
    fn stored(&self, y: usize) -> usize {
        if self.h > 0 {
            self.rows() - 1 - y
        } else {
            y
        }
    }
}
/// scale the bits of v selected by a contiguous mask to 8 bits by bit replication
fn field(v: u32, m: u32) -> u8 {
    let n = m.count_ones();
    if n == 0 {
        return 0;
    }
    let mut x = (v & m) >> m.trailing_zeros();
    if n >= 8 {
        return (x >> (n - 8)) as u8;
    }
    let mut have = n;
    while have < 8 {
        x = (x << have) | x;
        have *= 2;
    }
    (x >> (have - 8)) as u8
}
fn palette(n: usize, entry: usize, symbolic: bool) -> Vec<u8> {
    if symbolic {
        return vec(n * entry);
    }
    (0..n * entry).map(|i| (i as u32).wrapping_mul(0x9E37_79B1).rotate_left(13) as u8).collect()
}
fn run(f: &[u8], bgr: bool) -> Option<(Vec<u8>, usize, usize, ColorSpace)> {
    let mut d = BmpDecoder::new(ZCursor::new(f));
    d.preserve_bgra(bgr);
    let px = d.decode().ok()?;
    let (w, h) = d.dimensions()?;
    check(d.output_buf_size() == Some(px.len()), 90);
    Some((px, w, h, d.colorspace()?))
}
/// uncompressed images of every depth: args bpp, w, h, top-down, header size,
/// palette entries (0: none), BGR output
#[no_mangle]
pub extern "C" fn plain() {
    let (bpp, w, h) = (arg(0) as u16, arg(1), arg(2));
    let h = if arg(3) == 1 { -(h as i32) } else { h as i32 };
    let mut b = Bmp::new(arg(4), w, h, bpp);
    let ncol = arg(5);
    let bgr = arg(6) == 1;
    let es = if b.ih == 12 { 3 } else { 4 };
    if ncol > 0 {
        b.pal = palette(ncol, es, ncol <= 4);
        if ncol < 1 << bpp {
            b.used = ncol as u32;
        }
        // an unused gap between the palette and the rows
        b.gap = arg(7);
    }
    let st = b.stride();
    b.body = vec(st * b.rows());
    let body = b.body.clone();
    let f = b.build();
    let r = run(&f, bgr);
    check(r.is_some(), 1);
    let Some((px, ow, oh, cs)) = r else { return };
    check(ow == w && oh == b.rows(), 2);
    let pal = |i: usize, c: usize| -> u8 {
        // c in B, G, R order
        let mut v = 0;
        for k in 0..ncol {
            let m = 0u8.wrapping_sub(u8::from(k == i));
            v |= b.pal[k * es + c] & m;
        }
        v
    };
    let nc = match bpp {
        32 => 4,
        8 if ncol == 0 => 1,
        _ => 3,
    };
    let want_cs = match (nc, bgr) {
        (1, _) => ColorSpace::Luma,
        (3, false) => ColorSpace::RGB,
        (3, true) => ColorSpace::BGR,
        (_, false) => ColorSpace::RGBA,
        _ => ColorSpace::BGRA,
    };
    check(cs == want_cs, 3);
    check(px.len() == w * b.rows() * nc, 4);
    let mut want = Vec::with_capacity(px.len());
    for y in 0..b.rows() {
        let row = &body[b.stored(y) * st..];
        for x in 0..w {
            let mut bgrp = [0u8; 3];
            match bpp {
                32 | 24 => {
                    let k = usize::from(bpp) / 8;
                    bgrp.copy_from_slice(&row[x * k..x * k + 3]);
                }
                16 => {
                    let v = u32::from(u16::from_le_bytes([row[2 * x], row[2 * x + 1]]));
                    bgrp = [field(v, 31), field(v, 31 << 5), field(v, 31 << 10)];
                }
                8 if ncol == 0 => {
                    want.push(row[x]);
                    continue;
                }
                _ => {
                    let bit = x * usize::from(bpp);
                    let sh = 8 - usize::from(bpp) - bit % 8;
                    let i = usize::from((row[bit / 8] >> sh) & ((1u16 << bpp) - 1) as u8);
                    bgrp = [pal(i, 0), pal(i, 1), pal(i, 2)];
                }
            }
            if !bgr {
                bgrp.swap(0, 2);
            }
            want.extend_from_slice(&bgrp);
            if bpp == 32 {
                want.push(255);
            }
        }
    }
    check_eq(&px, &want, 5);
    reach(1);
}
const MASKS: [[u32; 4]; 14] = [
    [0xFF, 0xFF00, 0xFF_0000, 0xFF00_0000],
    [0xFF_0000, 0xFF00, 0xFF, 0],
    [0xFF00_0000, 0xFF_0000, 0xFF00, 0xFF],
    [0x3FF0_0000, 0xFFC00, 0x3FF, 0xC000_0000],
    [0xFFE0_0000, 0x1F_FC00, 0x3FF, 0],
    [0xFE00_0000, 0x1FF_0000, 0x1, 0x0000_0FFE],
    [0x7F, 0x1F80, 0x3E000, 0x3C_0000],
    [0x7000_0000, 0x0C00_0000, 0x0200_0000, 0x1],
    // 16 bits
    [0xF800, 0x7E0, 0x1F, 0],
    [0x7C00, 0x3E0, 0x1F, 0x8000],
    [0xF00, 0xF0, 0xF, 0xF000],
    [0x1FF, 0xE00, 0x1000, 0xC000],
    [0x1, 0x6, 0x3F8, 0xFC00],
    [0xFF, 0xFF00, 0, 0],
];
/// bit-field images: args bpp, mask set, w, h, top-down, header size, BGR output
#[no_mangle]
pub extern "C" fn fields() {
    let (bpp, w) = (arg(0) as u16, arg(2));
    let m = MASKS[arg(1)];
    let h = if arg(4) == 1 { -(arg(3) as i32) } else { arg(3) as i32 };
    let mut b = Bmp::new(arg(5), w, h, bpp);
    let bgr = arg(6) == 1;
    b.comp = 3;
    b.masks = m;
    let st = b.stride();
    b.body = vec(st * b.rows());
    let body = b.body.clone();
    let r = run(&b.build(), bgr);
    check(r.is_some(), 1);
    let Some((px, ow, oh, cs)) = r else { return };
    check(ow == w && oh == b.rows(), 2);
    check(cs == if bgr { ColorSpace::BGRA } else { ColorSpace::RGBA }, 3);
    let ma = if b.ih <= 52 || b.ih == 64 { 0 } else { m[3] };
    let mut want = Vec::with_capacity(px.len());
    for y in 0..b.rows() {
        let row = &body[b.stored(y) * st..];
        for x in 0..w {
            let v = if bpp == 16 {
                u32::from(u16::from_le_bytes([row[2 * x], row[2 * x + 1]]))
            } else {
                u32::from_le_bytes([row[4 * x], row[4 * x + 1], row[4 * x + 2], row[4 * x + 3]])
            };
            let mut p = [field(v, m[0]), field(v, m[1]), field(v, m[2])];
            if bgr {
                p.swap(0, 2);
            }
            want.extend_from_slice(&p);
            want.push(if ma == 0 { 255 } else { field(v, ma) });
        }
    }
    check_eq(&px, &want, 5);
    reach(1);
}
/// run-length coded images: every sequence of n operations that stays inside the picture.
/// args bpp, w, h, ops, BGR output, whether an end-of-line precedes the end of picture
#[no_mangle]
pub extern "C" fn rle() {
    let (bpp, w, h, n) = (arg(0) as u16, arg(1), arg(2), arg(3));
    let bgr = arg(4) == 1;
    let mut b = Bmp::new(40, w, h as i32, bpp);
    b.comp = if bpp == 8 { 1 } else { 2 };
    let ncol = 16usize;
    b.used = if bpp == 8 { 16 } else { 0 };
    b.pal = palette(ncol, 4, false);
    let mut s: Vec<u8> = vec![];
    // canvas of palette indices, stored rows (bottom first)
    let mut canvas = vec![0u8; w * h];
    let (mut x, mut y) = (0usize, 0usize);
    let idx = || -> u8 {
        let v = u8v();
        if bpp == 8 {
            v & 15
        } else {
            v
        }
    };
    let mut ended = false;
    for _ in 0..n {
        match pick(5) {
            0 => {
                // run
                let left = w - x;
                if left == 0 {
                    return;
                }
                let k = 1 + pick(left);
                let v = idx();
                s.extend_from_slice(&[k as u8, v]);
                for i in 0..k {
                    canvas[y * w + x + i] = if bpp == 8 {
                        v
                    } else if i % 2 == 0 {
                        v >> 4
                    } else {
                        v & 15
                    };
                }
                x += k;
            }
            1 => {
                // absolute
                let left = w - x;
                if left < 3 {
                    return;
                }
                let k = 3 + pick(left - 2);
                s.extend_from_slice(&[0, k as u8]);
                let nb = if bpp == 8 { k } else { (k + 1) / 2 };
                let start = s.len();
                for _ in 0..nb {
                    s.push(idx());
                }
                for i in 0..k {
                    canvas[y * w + x + i] = if bpp == 8 {
                        s[start + i]
                    } else if i % 2 == 0 {
                        s[start + i / 2] >> 4
                    } else {
                        s[start + i / 2] & 15
                    };
                }
                if nb % 2 == 1 {
                    s.push(u8v());
                }
                x += k;
            }
            2 => {
                // end of line
                if y + 1 >= h {
                    return;
                }
                s.extend_from_slice(&[0, 0]);
                x = 0;
                y += 1;
            }
            3 => {
                // delta
                if x >= w {
                    return;
                }
                let dx = pick(w - x);
                let dy = pick(h - y);
                s.extend_from_slice(&[0, 2, dx as u8, dy as u8]);
                x += dx;
                y += dy;
            }
            _ => {
                ended = true;
                break;
            }
        }
    }
    if !ended && n > 0 && arg(5) == 2 {
        return;
    }
    if arg(5) == 1 {
        // many encoders close the last row too
        while y < h {
            s.extend_from_slice(&[0, 0]);
            y += 1;
        }
    }
    s.extend_from_slice(&[0, 1]);
    b.body = s;
    let r = run(&b.build(), bgr);
    check(r.is_some(), 1);
    let Some((px, ow, oh, cs)) = r else { return };
    check(ow == w && oh == h, 2);
    check(cs == if bgr { ColorSpace::BGR } else { ColorSpace::RGB }, 3);
    let mut want = Vec::with_capacity(px.len());
    for oy in 0..h {
        for ox in 0..w {
            let i = usize::from(canvas[(h - 1 - oy) * w + ox]);
            for c in 0..3 {
                let c = if bgr { c } else { 2 - c };
                let mut v = 0u8;
                for k in 0..ncol {
                    v |= b.pal[k * 4 + c] & 0u8.wrapping_sub(u8::from(k == i));
                }
                want.push(v);
            }
        }
    }
    check_eq(&px, &want, 5);
    reach(1);
}
/// header: dimensions, limits; args: header size, bpp
#[no_mangle]
pub extern "C" fn header() {
    let ih = arg(0);
    let bpp = arg(1) as u16;
    let mut b = Bmp::new(ih, 1, 1, bpp);
    b.pal = if bpp <= 8 { palette(1 << bpp, if ih == 12 { 3 } else { 4 }, false) } else { vec![] };
    let mut f = b.build();
    // the size is checked for limits below 64, the rest for all 16-bit limits
    let small = arg(2) == 1;
    let mask = if small { 63 } else { 0xFFFF };
    let (mw, mh) = (usize::from(u16v() & mask), usize::from(u16v() & mask));
    let k = if ih == 12 { 2 } else { 4 };
    let dims = vec(2 * k);
    f[18..18 + 2 * k].copy_from_slice(&dims);
    let (w, h) = if ih == 12 {
        (u32::from(u16::from_le_bytes([dims[0], dims[1]])), u32::from(u16::from_le_bytes([dims[2], dims[3]])))
    } else {
        let g = |i: usize| u32::from_le_bytes([dims[i], dims[i + 1], dims[i + 2], dims[i + 3]]);
        (g(0), (g(4) as i32).unsigned_abs())
    };
    let opt = DecoderOptions::default().set_max_width(mw).set_max_height(mh);
    let mut d = BmpDecoder::new_with_options(ZCursor::new(&f), opt);
    check(d.dimensions().is_none() && d.output_buf_size().is_none() && d.colorspace().is_none(), 1);
    let ok = d.decode_headers().is_ok();
    let good = w != 0 && h != 0 && w as usize <= mw && h as usize <= mh;
    check(ok == good, 2);
    if ok {
        check(d.dimensions() == Some((w as usize, h as usize)), 3);
        let nc = match bpp {
            32 => 4,
            _ => 3,
        };
        if small {
            check(d.output_buf_size() == Some((w as usize).wrapping_mul(h as usize).wrapping_mul(nc)), 4);
        }
        reach(1);
    } else {
        check(d.dimensions().is_none() && d.output_buf_size().is_none(), 5);
        reach(2);
    }
}
/// arbitrary header bytes never panic and keep to the limits; args: n bytes, header size
#[no_mangle]
pub extern "C" fn any_header() {
    let (n, ih) = (arg(0), arg(1));
    let mut f = b"BM".to_vec();
    f.extend_from_slice(&vec(n));
    if ih > 0 {
        f[14..18].copy_from_slice(&(ih as u32).to_le_bytes());
    }
    let mut d = BmpDecoder::new_with_options(ZCursor::new(&f), DecoderOptions::default().set_max_width(4).set_max_height(3));
    if d.decode_headers().is_ok() {
        let (w, h) = d.dimensions().unwrap();
        check(w > 0 && h > 0 && w <= 4 && h <= 3, 1);
        reach(1);
    }
}
/// arbitrary pixel data of n bytes: never panics, right size; args bpp, w, h, n, compression
#[no_mangle]
pub extern "C" fn any_body() {
    let (bpp, w, h, n) = (arg(0) as u16, arg(1), arg(2), arg(3));
    let mut b = Bmp::new(40, w, h as i32, bpp);
    b.comp = arg(4) as u32;
    if bpp <= 8 {
        b.pal = palette(2, 4, false);
        b.used = 2;
    }
    b.masks = [u32v(), 0xFF00, 0x1F, 0];
    if b.comp == 3 {
        b.masks[0] = MASKS[pick(14)][pick(3)];
    }
    b.body = vec(n);
    let f = b.build();
    let mut d = BmpDecoder::new(ZCursor::new(&f));
    let mut out = vec![7u8; w * h * 4];
    let r = d.decode_into(&mut out);
    reach(0);
    if r.is_ok() {
        let k = w * h * d.colorspace().unwrap().num_components();
        check(d.output_buf_size() == Some(k), 1);
        // nothing past the picture is written
        check(out[k..].iter().all(|x| *x == 7), 2);
        reach(1);
    }
}
/// a buffer of the wrong size: an error when short, and only the picture written when long
#[no_mangle]
pub extern "C" fn into_size() {
    let (bpp, w, h, len) = (arg(0) as u16, arg(1), arg(2), arg(3));
    let mut b = Bmp::new(40, w, h as i32, bpp);
    if bpp <= 8 {
        b.pal = palette(1 << bpp, 4, false);
    }
    b.body = vec(b.stride() * h);
    let f = b.build();
    let px = run(&f, false);
    check(px.is_some(), 1);
    let Some((px, ..)) = px else { return };
    let mut d = BmpDecoder::new(ZCursor::new(&f));
    let mut out = vec(len);
    let before = out.clone();
    let r = d.decode_into(&mut out);
    check(r.is_ok() == (len >= px.len()), 2);
    if len >= px.len() {
        check_eq(&out[..px.len()], &px, 3);
        check_eq(&out[px.len()..], &before[px.len()..], 4);
        reach(1);
    } else {
        check_eq(&out, &before, 5);
        reach(2);
    }
}

/// colour management data of the long headers; args: header size, profile bytes, gap before
#[no_mangle]
pub extern "C" fn profile() {
    let (ih, n, gap) = (arg(0), arg(1), arg(2));
    let mut b = Bmp::new(ih, 1, 1, 24);
    b.body = vec(4 + gap);
    let mut f = b.build();
    let prim = vec(36);
    let icc = vec(n);
    let linked = pick(2) == 1;
    f[14 + 60 - 4..14 + 60].copy_from_slice(&if linked { 0x4C49_4E4Bu32 } else { 0x4D42_4544 }.to_le_bytes());
    f[14 + 60..14 + 96].copy_from_slice(&prim);
    if ih == 124 {
        let at = (f.len() - 14) as u32;
        f[14 + 112..14 + 116].copy_from_slice(&at.to_le_bytes());
        f[14 + 116..14 + 120].copy_from_slice(&(n as u32).to_le_bytes());
        f.extend_from_slice(&icc);
        f.extend_from_slice(&[1, 2, 3]);
    }
    let mut d = BmpDecoder::new(ZCursor::new(&f));
    let px = d.decode();
    check(px.is_ok(), 1);
    let Ok(px) = px else { return };
    check(px == [f[14 + ih + 2], f[14 + ih + 1], f[14 + ih]], 2);
    let c = d.color_primaries();
    check(c.is_some(), 3);
    if let Some(c) = c {
        let got = [c.red.x, c.red.y, c.red.z, c.green.x, c.green.y, c.green.z, c.blue.x, c.blue.y, c.blue.z];
        for i in 0..9 {
            let v = u32::from_le_bytes([prim[4 * i], prim[4 * i + 1], prim[4 * i + 2], prim[4 * i + 3]]);
            check(got[i].to_bits() == (f64::from(v) / 1073741824.0).to_bits(), 4);
        }
    }
    if ih == 124 && !linked {
        let got = d.icc_profile();
        check(got.is_some(), 5);
        if let Some(g) = got {
            check_eq(g, &icc, 6);
        }
        reach(1);
    } else {
        check(d.icc_profile().is_none(), 7);
        reach(2);
    }
}

harnesses!(plain, fields, rle, header, any_header, any_body, into_size, profile);
