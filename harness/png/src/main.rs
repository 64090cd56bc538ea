//! PNG: independent reference for decoding; encoder round trips.
use symrt::*;
use zune_core::bit_depth::{BitDepth, ByteEndian};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_core::result::DecodingResult;
use zune_png::{PngDecoder, PngEncoder};

/// plain bit-at-a-time CRC-32
fn crc(parts: &[&[u8]]) -> u32 {
    let mut c = !0u32;
    for p in parts {
        for b in p.iter() {
            c ^= u32::from(*b);
            for _ in 0..8 {
                c = (c >> 1) ^ (0xEDB8_8320 & (0u32.wrapping_sub(c & 1)));
            }
        }
    }
    !c
}
fn chunk(f: &mut Vec<u8>, name: &[u8; 4], data: &[u8], with_crc: bool) {
    f.extend_from_slice(&(data.len() as u32).to_be_bytes());
    f.extend_from_slice(name);
    f.extend_from_slice(data);
    let c = if with_crc { crc(&[name, data]) } else { 0 };
    f.extend_from_slice(&c.to_be_bytes());
}
fn zlib(raw: &[u8]) -> Vec<u8> {
    let mut z = vec![0x78, 1, 1];
    let n = raw.len() as u16;
    z.extend_from_slice(&n.to_le_bytes());
    z.extend_from_slice(&(!n).to_le_bytes());
    z.extend_from_slice(raw);
    z.extend_from_slice(&[0; 4]);
    z
}
const SIG: [u8; 8] = [137, 80, 78, 71, 13, 10, 26, 10];
struct Png {
    w: usize,
    h: usize,
    color: u8,
    depth: u8,
    adam7: bool,
    plte: Vec<u8>,
    trns: Vec<u8>,
}
impl Png {
    fn channels(&self) -> usize {
        match self.color {
            0 | 3 => 1,
            2 => 3,
            4 => 2,
            _ => 4,
        }
    }
    fn ihdr(&self) -> Vec<u8> {
        let mut i = vec![];
        i.extend_from_slice(&(self.w as u32).to_be_bytes());
        i.extend_from_slice(&(self.h as u32).to_be_bytes());
        i.extend_from_slice(&[self.depth, self.color, 0, 0, self.adam7 as u8]);
        i
    }
    fn passes(&self) -> Vec<(usize, usize, usize, usize)> {
        if !self.adam7 {
            return vec![(0, 0, 1, 1)];
        }
        vec![(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]
    }
    /// (pass, columns, rows)
    fn layout(&self) -> Vec<((usize, usize, usize, usize), usize, usize)> {
        let mut v = vec![];
        for p in self.passes() {
            let c = (0..self.w).filter(|x| *x >= p.0 && (*x - p.0) % p.2 == 0).count();
            let r = (0..self.h).filter(|y| *y >= p.1 && (*y - p.1) % p.3 == 0).count();
            if c > 0 && r > 0 {
                v.push((p, c, r));
            }
        }
        v
    }
    fn row_bytes(&self, cols: usize) -> usize {
        (cols * self.channels() * self.depth as usize + 7) / 8
    }
    fn file(&self, filtered: &[u8], pieces: usize) -> Vec<u8> {
        let mut f = SIG.to_vec();
        chunk(&mut f, b"IHDR", &self.ihdr(), false);
        if !self.plte.is_empty() {
            chunk(&mut f, b"PLTE", &self.plte, false);
        }
        if !self.trns.is_empty() {
            chunk(&mut f, b"tRNS", &self.trns, false);
        }
        let z = zlib(filtered);
        let n = (z.len() + pieces - 1) / pieces;
        for c in z.chunks(n) {
            chunk(&mut f, b"IDAT", c, false);
        }
        chunk(&mut f, b"IEND", &[], false);
        f
    }
    /// unfilter, unpack and place: raw samples (16 bit) per pixel and channel
    fn samples(&self, filtered: &[u8]) -> Vec<u16> {
        let ch = self.channels();
        let mut out = vec![0u16; self.w * self.h * ch];
        let bpp = (ch * self.depth as usize + 7) / 8;
        let mut pos = 0;
        for (p, cols, rows) in self.layout() {
            let n = self.row_bytes(cols);
            let mut prev = vec![0u8; n];
            for r in 0..rows {
                let ft = filtered[pos];
                let mut cur = filtered[pos + 1..pos + 1 + n].to_vec();
                pos += 1 + n;
                for i in 0..n {
                    let a = if i >= bpp { cur[i - bpp] } else { 0 };
                    let b = prev[i];
                    let c = if i >= bpp { prev[i - bpp] } else { 0 };
                    cur[i] = cur[i].wrapping_add(predict(ft, a, b, c));
                }
                for x in 0..cols {
                    for k in 0..ch {
                        let s = x * ch + k;
                        let v = match self.depth {
                            16 => u16::from_be_bytes([cur[2 * s], cur[2 * s + 1]]),
                            8 => u16::from(cur[s]),
                            d => {
                                let d = d as usize;
                                let bit = s * d;
                                let b = cur[bit / 8] >> (8 - d - bit % 8);
                                u16::from(b & ((1u8 << d) - 1))
                            }
                        };
                        out[((p.1 + r * p.3) * self.w + p.0 + x * p.2) * ch + k] = v;
                    }
                }
                prev = cur;
            }
        }
        out
    }
    /// what the decoder should deliver: channels and samples at full range
    fn expected(&self, s: &[u16], add_alpha: bool) -> (usize, Vec<u16>) {
        let ch = self.channels();
        let max = if self.depth == 16 { 65535 } else { 255 };
        let scale = match self.depth {
            1 => 255,
            2 => 85,
            4 => 17,
            _ => 1,
        };
        let mut out = vec![];
        let mut n = ch;
        let mut alpha = self.trns.clone();
        alpha.resize(256, 255);
        for px in s.chunks(ch) {
            match self.color {
                3 => {
                    let i = px[0] as usize;
                    for k in 0..3 {
                        out.push(u16::from(self.plte[3 * i + k]));
                    }
                    n = 3;
                    if add_alpha || !self.trns.is_empty() {
                        out.push(u16::from(alpha[i]));
                        n = 4;
                    }
                }
                0 | 2 => {
                    for v in px {
                        out.push(*v * scale);
                    }
                    if add_alpha || !self.trns.is_empty() {
                        let mut same = !self.trns.is_empty();
                        if same {
                            for k in 0..ch {
                                same &= px[k] == u16::from_be_bytes([self.trns[2 * k], self.trns[2 * k + 1]]);
                            }
                        }
                        out.push(if same { 0 } else { max });
                        n = ch + 1;
                    }
                }
                _ => out.extend_from_slice(px),
            }
        }
        (n, out)
    }
}
fn predict(ft: u8, a: u8, b: u8, c: u8) -> u8 {
    match ft {
        1 => a,
        2 => b,
        3 => ((u16::from(a) + u16::from(b)) / 2) as u8,
        4 => {
            let (ia, ib, ic) = (i16::from(a), i16::from(b), i16::from(c));
            let p = ia + ib - ic;
            let (pa, pb, pc) = ((p - ia).abs(), (p - ib).abs(), (p - ic).abs());
            // a, then b, then c on ties; written without branches
            let ma = u8::from((pa <= pb) & (pa <= pc)).wrapping_neg();
            let mb = u8::from(pb <= pc).wrapping_neg() & !ma;
            (a & ma) | (b & mb) | (c & !ma & !mb)
        }
        _ => 0,
    }
}
fn space(n: usize) -> ColorSpace {
    [ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA][n - 1]
}
fn options(unsafe_simd: bool) -> DecoderOptions {
    DecoderOptions::default().inflate_set_confirm_adler(false).png_set_confirm_crc(false).set_use_unsafe(unsafe_simd)
}
/// digits of `f` base 10 are the filter types, one per row and cycling; 5 = any
fn scanlines(p: &Png, f: usize) -> Vec<u8> {
    let digits: Vec<u8> = f.to_string().bytes().map(|b| b - b'0').collect();
    let mut v = vec![];
    let mut r = 0;
    for (_, cols, rows) in p.layout() {
        for _ in 0..rows {
            let d = digits[r % digits.len()];
            v.push(if d == 5 { choice(5) as u8 } else { d });
            bytes_onto(&mut v, p.row_bytes(cols));
            r += 1;
        }
    }
    v
}
fn bytes_onto(v: &mut Vec<u8>, n: usize) {
    let x = vec(n);
    v.extend_from_slice(&x);
}
/// filters on 8 and 16 bit images: every output byte obeys the filter equation
#[no_mangle]
#[inline(never)]
pub extern "C" fn filters() {
    let (w, h, color, depth, f) = (arg(0), arg(1), arg(2) as u8, arg(3) as u8, arg(4));
    let p = Png { w, h, color, depth, adam7: false, plte: vec![], trns: vec![] };
    let raw = scanlines(&p, f);
    let mut d = PngDecoder::new_with_options(ZCursor::new(p.file(&raw, 1)), options(true));
    let r = d.decode_raw();
    check(r.is_ok(), 1);
    if let Ok(px) = r {
        let n = p.row_bytes(w);
        let bpp = p.channels() * depth as usize / 8;
        check(px.len() == n * h, 2);
        check(d.dimensions() == Some((w, h)), 3);
        check(d.colorspace() == Some(space(p.channels())), 4);
        let mut want = vec![];
        for y in 0..h {
            let row = &raw[y * (n + 1)..];
            for i in 0..n {
                let a = if i >= bpp { px[y * n + i - bpp] } else { 0 };
                let b = if y > 0 { px[(y - 1) * n + i] } else { 0 };
                let c = if y > 0 && i >= bpp { px[(y - 1) * n + i - bpp] } else { 0 };
                want.push(row[1 + i].wrapping_add(predict(row[0], a, b, c)));
            }
        }
        check_eq(&px, &want, 5);
        reach(1);
    }
}
/// everything after filtering: packing, palettes, transparency, interlacing, output options
/// mode bits: 1 strip to 8 bit, 2 add alpha, 4 tRNS, 8 decode_into, 16 little endian,
/// 32 Adam7, 64 several IDAT chunks, 128 decode_raw, 256 without unsafe code
#[no_mangle]
#[inline(never)]
pub extern "C" fn expand() {
    let (w, h, color, depth, f, mode) = (arg(0), arg(1), arg(2) as u8, arg(3) as u8, arg(4), arg(5));
    let bit = |b: usize| mode & b != 0;
    let mut p = Png { w, h, color, depth, adam7: bit(32), plte: vec![], trns: vec![] };
    if color == 3 {
        for i in 0..1usize << depth {
            p.plte.extend_from_slice(&[(7 * i + 3) as u8, (200 - 5 * i as i32) as u8, (i * i + 1) as u8]);
        }
        if depth < 8 {
            let n = p.plte.len();
            bytes(&mut p.plte[..n.min(6)]);
        }
    }
    if bit(4) {
        p.trns = match color {
            0 => vec(2),
            2 => vec(6),
            _ => (0..(1usize << depth) / 2 + 1).map(|i| (i * 31 + 5) as u8).collect(),
        };
        // only values the sample depth can hold are legal
        if depth < 16 && color != 3 {
            for k in 0..p.trns.len() / 2 {
                assume(p.trns[2 * k] == 0);
                assume(depth == 8 || p.trns[2 * k + 1] < 1 << (depth % 8));
            }
        }
    }
    let raw = scanlines(&p, f);
    let o = options(!bit(256)).png_set_strip_to_8bit(bit(1)).png_set_add_alpha_channel(bit(2));
    let o = o.set_byte_endian(if bit(16) { ByteEndian::LE } else { ByteEndian::BE });
    let mut d = PngDecoder::new_with_options(ZCursor::new(p.file(&raw, if bit(64) { 3 } else { 1 })), o);
    let s = p.samples(&raw);
    let (n, want) = p.expected(&s, bit(2));
    let wide = depth == 16 && !bit(1);
    let want8: Vec<u8> = if depth == 16 {
        if wide {
            want.iter().flat_map(|v| if bit(16) { v.to_le_bytes() } else { v.to_be_bytes() }).collect()
        } else {
            want.iter().map(|v| (*v >> 8) as u8).collect()
        }
    } else {
        want.iter().map(|v| *v as u8).collect()
    };
    if bit(8) {
        let ok = d.decode_headers().is_ok();
        check(ok, 1);
        let size = d.output_buffer_size();
        check(size == Some(want8.len()), 2);
        let mut out = vec![0x5a; want8.len() + 3];
        let r = d.decode_into(&mut out);
        check(r.is_ok(), 3);
        check_eq(&out[..want8.len()], &want8, 4);
        check(out[want8.len()..] == [0x5a; 3], 5);
    } else if bit(128) {
        let r = d.decode_raw();
        check(r.is_ok(), 6);
        if let Ok(px) = r {
            check_eq(&px, &want8, 7);
        }
    } else {
        match d.decode() {
            Ok(DecodingResult::U8(px)) => {
                check(!wide, 8);
                check_eq(&px, &want8, 9);
            }
            Ok(DecodingResult::U16(px)) => {
                check(wide, 10);
                check_eq16(&px, &want, 11);
            }
            _ => check(false, 12),
        }
    }
    check(d.dimensions() == Some((w, h)), 13);
    check(d.colorspace() == Some(space(n)), 14);
    reach(1);
}
/// checksums: with verification on, a chunk is accepted exactly when its CRC is right
#[no_mangle]
#[inline(never)]
pub extern "C" fn crc_check() {
    let (n, at) = (arg(0), arg(1));
    let p = Png { w: n, h: 1, color: 0, depth: 8, adam7: false, plte: vec![], trns: vec![] };
    let mut raw: Vec<u8> = (0..n + 1).map(|i| (i * 91) as u8).collect();
    raw[0] = 0;
    raw[at] = u8v();
    let mut f = SIG.to_vec();
    chunk(&mut f, b"IHDR", &p.ihdr(), true);
    chunk(&mut f, b"IDAT", &zlib(&raw), true);
    chunk(&mut f, b"IEND", &[], true);
    let k = f.len() - 16 + arg(2);
    let x = u8v();
    f[k] ^= x;
    let mut d = PngDecoder::new_with_options(ZCursor::new(f), options(true).png_set_confirm_crc(true));
    let r = d.decode_raw();
    check(r.is_ok() == (x == 0), 1);
    if r.is_ok() {
        reach(1);
    } else {
        reach(2);
    }
}
/// encoder then decoder (checksums verified)
#[no_mangle]
#[inline(never)]
pub extern "C" fn roundtrip() {
    let (w, h, c, bytes_per, free) = (arg(0), arg(1), arg(2), arg(3), arg(4));
    let n = w * h * c * bytes_per;
    let mut px: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
    for k in 0..free.min(n) {
        px[if free >= n { k } else { n - 1 - (k * 7) % n }] = u8v();
    }
    let confirm = arg(5) == 1;
    let depth = if bytes_per == 1 { BitDepth::Eight } else { BitDepth::Sixteen };
    let mut out = Vec::new();
    let r = PngEncoder::new(&px, EncoderOptions::new(w, h, space(c), depth)).encode(&mut out);
    check(r.is_ok(), 1);
    check(matches!(r, Ok(k) if k == out.len()), 2);
    let o = DecoderOptions::default().png_set_confirm_crc(confirm).inflate_set_confirm_adler(confirm);
    let mut d = PngDecoder::new_with_options(ZCursor::new(&out[..]), o);
    let r = d.decode_raw();
    check(r.is_ok(), 3);
    if let Ok(got) = r {
        check_eq(&got, &px, 4);
        check(d.dimensions() == Some((w, h)), 5);
        check(d.colorspace() == Some(space(c)), 6);
        check(d.depth() == Some(depth), 7);
        reach(1);
    }
}
/// the encoder's file against the format itself (own chunk walker, own CRC)
#[no_mangle]
#[inline(never)]
pub extern "C" fn encode_ref() {
    let (w, h, c, bytes_per) = (arg(0), arg(1), arg(2), arg(3));
    let px = vec(w * h * c * bytes_per);
    let depth = if bytes_per == 1 { BitDepth::Eight } else { BitDepth::Sixteen };
    let mut out = Vec::new();
    let r = PngEncoder::new(&px, EncoderOptions::new(w, h, space(c), depth)).encode(&mut out);
    check(r.is_ok(), 1);
    check_eq(&out[..8], &SIG, 2);
    let p = Png { w, h, color: [0, 4, 2, 6][c - 1], depth: 8 * bytes_per as u8, adam7: false, plte: vec![], trns: vec![] };
    let mut f = vec![];
    chunk(&mut f, b"IHDR", &p.ihdr(), true);
    check_eq(&out[8..33], &f, 3);
    let mut pos = 33;
    let mut z = vec![];
    let mut ended = false;
    while pos + 12 <= out.len() && !ended {
        let n = u32::from_be_bytes([out[pos], out[pos + 1], out[pos + 2], out[pos + 3]]) as usize;
        if pos + 12 + n > out.len() {
            break;
        }
        if &out[pos + 4..pos + 8] == b"IDAT" {
            z.extend_from_slice(&out[pos + 8..pos + 8 + n]);
        } else {
            ended = &out[pos + 4..pos + 8] == b"IEND";
        }
        pos += 12 + n;
    }
    check(ended && pos == out.len(), 4);
    let o = zune_png::PngDecoder::new(ZCursor::new(&out[..])).decode_raw();
    check(o.is_ok(), 5);
    // stored or not, the decoded scanlines undo to the pixels
    let d = zune_inflate::DeflateDecoder::new_with_options(&z, zune_inflate::DeflateOptions::default().set_confirm_checksum(false)).decode_zlib();
    check(d.is_ok(), 6);
    if let Ok(raw) = d {
        check(raw.len() == h * (1 + w * c * bytes_per), 7);
        let s = p.samples(&raw);
        let got: Vec<u8> = if bytes_per == 2 { s.iter().flat_map(|v| v.to_be_bytes()).collect() } else { s.iter().map(|v| *v as u8).collect() };
        check_eq(&got, &px, 8);
        reach(1);
    }
}
/// animation: each frame is delivered with its own control data and its own pixels
#[no_mangle]
#[inline(never)]
pub extern "C" fn frames() {
    let (w, h, color, depth, mode) = (arg(0), arg(1), arg(2) as u8, 8u8, arg(3));
    // default image, then two frames of smaller size
    let mut png = Png { w, h, color, depth, adam7: mode & 32 != 0, plte: vec![], trns: vec![] };
    let mut f = SIG.to_vec();
    chunk(&mut f, b"IHDR", &png.ihdr(), false);
    chunk(&mut f, b"acTL", &[0, 0, 0, 3, 0, 0, 0, 2], false);
    let mut want = vec![];
    let mut ctl = vec![];
    let dims = [(w, h), (w - 1, h), (1, h - 1)];
    for (k, (fw, fh)) in dims.iter().enumerate() {
        png.w = *fw;
        png.h = *fh;
        let mut c = vec![0, 0, 0, 2 * k as u8];
        for v in [*fw, *fh, w - fw, h - fh] {
            c.extend_from_slice(&(v as u32).to_be_bytes());
        }
        let (num, den) = (u16v(), u16v());
        c.extend_from_slice(&num.to_be_bytes());
        c.extend_from_slice(&den.to_be_bytes());
        let dispose = choice(3) as u8;
        let blend = choice(2) as u8;
        c.extend_from_slice(&[dispose, blend]);
        chunk(&mut f, b"fcTL", &c, false);
        ctl.push((num, den, dispose, blend));
        let raw = scanlines(&png, 120);
        let z = zlib(&raw);
        if k == 0 {
            chunk(&mut f, b"IDAT", &z, false);
        } else {
            let cut = if mode & 1 != 0 { z.len() / 2 } else { z.len() };
            for part in [&z[..cut], &z[cut..]] {
                if !part.is_empty() {
                    let mut d = vec![0, 0, 0, 9];
                    d.extend_from_slice(part);
                    chunk(&mut f, b"fdAT", &d, false);
                }
            }
        }
        want.push(png.samples(&raw).iter().map(|v| *v as u8).collect::<Vec<u8>>());
    }
    chunk(&mut f, b"IEND", &[], false);
    let mut d = PngDecoder::new_with_options(ZCursor::new(f), options(true));
    for k in 0..3 {
        let ok = d.decode_headers().is_ok();
        check(ok, 1);
        check(d.is_animated() && d.more_frames(), 2);
        let i = d.frame_info();
        check(i.is_some(), 3);
        if let Some(i) = i {
            let (fw, fh) = dims[k];
            check((i.width, i.height, i.x_offset, i.y_offset) == (fw, fh, w - fw, h - fh), 4);
            check((i.delay_num, i.delay_denom) == (ctl[k].0, ctl[k].1), 5);
            check(i.dispose_op as u8 == ctl[k].2 && i.blend_op as u8 == ctl[k].3, 6);
            check(i.seq_number == 2 * k as i32, 7);
        }
        let r = d.decode_raw();
        check(r.is_ok(), 8);
        if let Ok(px) = r {
            check_eq(&px, &want[k], 9);
        }
    }
    check(!d.more_frames(), 10);
    reach(1);
}
/// the header chunks for images of any size, without their pixels
#[no_mangle]
#[inline(never)]
pub extern "C" fn encode_head() {
    use zune_core::bytestream::ZWriter;
    let (c, bytes_per) = (arg(0), arg(1));
    let (w, h) = (u32v() as usize, u32v() as usize);
    assume(w > 0 && h > 0);
    let exif = vec(arg(2));
    let depth = if bytes_per == 1 { BitDepth::Eight } else { BitDepth::Sixteen };
    let mut e = PngEncoder::new(&[], EncoderOptions::new(w, h, space(c), depth));
    if !exif.is_empty() {
        e.add_exif_segment(&exif);
    }
    let mut out = Vec::new();
    let r = e.encode_headers(&mut ZWriter::new(&mut out));
    check(r.is_ok(), 1);
    let p = Png { w, h, color: [0, 4, 2, 6][c - 1], depth: 8 * bytes_per as u8, adam7: false, plte: vec![], trns: vec![] };
    let mut f = SIG.to_vec();
    chunk(&mut f, b"IHDR", &p.ihdr(), false);
    if !exif.is_empty() {
        chunk(&mut f, b"eXIf", &exif, false);
    }
    check(out.len() == f.len(), 2);
    // checksums are compared elsewhere
    check_eq(&out[..29], &f[..29], 3);
    if !exif.is_empty() {
        check_eq(&out[33..f.len() - 4], &f[33..f.len() - 4], 4);
    }
    reach(1);
}
mod meta;
use meta::*;
harnesses!(encode_head, frames, filters, expand, crc_check, roundtrip, encode_ref, header, any_chunk, meta, suggested, palettes, frame_control, cut);
