//! PSD: independent reference for decoding the merged picture.
use symrt::*;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_core::result::DecodingResult;
use zune_psd::PSDDecoder;

const GRAY: u16 = 1;
const RGB: u16 = 3;
const CMYK: u16 = 4;

fn head(ch: u16, w: u32, h: u32, depth: u16, mode: u16, comp: u16, extra: [usize; 3]) -> Vec<u8> {
    let mut f = b"8BPS\0\x01".to_vec();
    f.extend_from_slice(&[0; 6]);
    f.extend_from_slice(&ch.to_be_bytes());
    f.extend_from_slice(&h.to_be_bytes());
    f.extend_from_slice(&w.to_be_bytes());
    f.extend_from_slice(&depth.to_be_bytes());
    f.extend_from_slice(&mode.to_be_bytes());
    for n in extra {
        f.extend_from_slice(&(n as u32).to_be_bytes());
        f.extend_from_slice(&vec(n));
    }
    f.extend_from_slice(&comp.to_be_bytes());
    f
}
fn space(mode: u16, ch: usize) -> ColorSpace {
    match (mode, ch) {
        (GRAY, _) => ColorSpace::Luma,
        (RGB, 4) => ColorSpace::RGBA,
        (RGB, _) => ColorSpace::RGB,
        _ => ColorSpace::CMYK,
    }
}
/// channels that come out
fn outs(mode: u16, ch: usize) -> usize {
    if mode == GRAY {
        1
    } else {
        ch
    }
}
/// decode and compare with planes (samples of each channel), sample size 1 or 2 bytes
fn compare(f: &[u8], w: usize, h: usize, ch: usize, mode: u16, planes: &[Vec<u16>], wide: bool, skip_matte: bool) {
    let mut d = PSDDecoder::new(ZCursor::new(f));
    check(d.dimensions().is_none() && d.bit_depth().is_none(), 8);
    let r = d.decode();
    check(r.is_ok(), 1);
    let Ok(r) = r else { return };
    check(d.dimensions() == Some((w, h)), 2);
    check(d.colorspace() == Some(space(mode, ch)), 3);
    check(d.bit_depth() == Some(if wide { BitDepth::Sixteen } else { BitDepth::Eight }), 4);
    let n = outs(mode, ch);
    let got: Vec<u16> = match (r, wide) {
        (DecodingResult::U8(v), false) => v.iter().map(|x| u16::from(*x)).collect(),
        (DecodingResult::U16(v), true) => v,
        _ => {
            check(false, 6);
            return;
        }
    };
    check(got.len() == w * h * n, 7);
    let max = if wide { 65535i64 } else { 255 };
    let mut want = Vec::new();
    for i in 0..w * h {
        for c in 0..n {
            want.push(planes[c][i]);
        }
    }
    if mode == RGB && ch == 4 && !skip_matte {
        for i in 0..w * h {
            let a = i64::from(planes[3][i]);
            check(got[4 * i + 3] == planes[3][i], 9);
            for c in 0..3 {
                let v = i64::from(planes[c][i]);
                let g = i64::from(got[4 * i + c]);
                if !wide {
                    // g*a against max*(v + a - max), within one step of g; clamped
                    let t = max * (v + a - max);
                    let t = if t < 0 { 0 } else { t };
                    let t = if t > max * a { max * a } else { t };
                    let d = g * a - t;
                    let plain = (a == 0) | (a == max);
                    check((plain & (g == v)) | (!plain & (d <= a) & (d >= -a)), 10);
                } else {
                    let t = max * (v + a - max);
                    let t = if t < 0 { 0 } else { t };
                    let d = g * a - t;
                    let plain = (a == 0) | (a == max);
                    check((plain & (g == v)) | (!plain & (d <= 2 * a) & (d >= -2 * a)), 10);
                }
            }
        }
    } else {
        check(got == want, 5);
    }
    reach(1);
}
fn plane_bytes(wide: bool, p: &[u16]) -> Vec<u8> {
    let mut v = vec![];
    for x in p {
        if wide {
            v.extend_from_slice(&x.to_be_bytes());
        } else {
            v.push(*x as u8);
        }
    }
    v
}
fn samples(n: usize, wide: bool) -> Vec<u16> {
    (0..n).map(|_| if wide { u16v() } else { u16::from(u8v()) }).collect()
}
/// uncompressed: args mode, channels, w, h, wide, alpha handling (0: free, 1: opaque or clear, 2: chosen values)
#[no_mangle]
pub extern "C" fn raw() {
    let (mode, ch, w, h, wide) = (arg(0) as u16, arg(1), arg(2), arg(3), arg(4) == 1);
    let mut f = head(ch as u16, w as u32, h as u32, if wide { 16 } else { 8 }, mode, 0, [arg(6), arg(7), 0]);
    let mut planes: Vec<Vec<u16>> = (0..ch).map(|_| samples(w * h, wide)).collect();
    limit_alpha(&mut planes, wide);
    for p in &planes {
        f.extend_from_slice(&plane_bytes(wide, p));
    }
    compare(&f, w, h, ch, mode, &planes, wide, arg(5) == 1);
}
fn limit_alpha(planes: &mut [Vec<u16>], wide: bool) {
    let max = if wide { 65535u16 } else { 255 };
    if planes.len() < 4 {
        return;
    }
    match arg(5) {
        1 => {
            for a in planes[3].iter_mut() {
                *a = (*a & 1) * max;
            }
        }
        2 => {
            for a in planes[3].iter_mut() {
                *a = [0, 32768, 49152, 65534, 65535][choice(5)];
            }
        }
        _ => {}
    }
}
/// uncompressed 8-bit pictures of several channels: what holds of them today besides
/// the pixels (see the findings): sizes, space, and the first samples of channel 0
#[no_mangle]
pub extern "C" fn raw8_part() {
    let (mode, ch, w, h) = (arg(0) as u16, arg(1), arg(2), arg(3));
    let mut f = head(ch as u16, w as u32, h as u32, 8, mode, 0, [0, arg(4), 0]);
    let body = vec(w * h * ch);
    f.extend_from_slice(&body);
    let mut d = PSDDecoder::new(ZCursor::new(&f));
    let r = d.decode();
    check(r.is_ok(), 1);
    let Ok(DecodingResult::U8(px)) = r else { return };
    check(d.dimensions() == Some((w, h)) && d.colorspace() == Some(space(mode, ch)), 2);
    check(px.len() == w * h * ch, 3);
    let k = (w * h + ch - 1) / ch;
    for i in 0..k {
        // opaque or clear pixels only: no matte
        if ch < 4 {
            check(px[i * ch] == body[i], 4);
        }
    }
    reach(1);
}
/// packbits: every sequence of n operations; args mode, channels, w, h, ops per channel, alpha
#[no_mangle]
pub extern "C" fn rle() {
    let (mode, ch, w, h) = (arg(0) as u16, arg(1), arg(2), arg(3));
    let mut f = head(ch as u16, w as u32, h as u32, 8, mode, 1, [0, 3, 1]);
    f.extend_from_slice(&vec(2 * h * ch));
    let mut planes: Vec<Vec<u16>> = vec![];
    let total = w * h;
    for c in 0..ch {
        let mut p = vec![];
        while p.len() < total {
            let left = total - p.len();
            // the last channel is cut up in every way, the others once
            if c + 1 == ch || c == 0 {
                match choice(if left > 1 { 3 } else { 2 }) {
                    0 => {
                        let k = 1 + choice(left);
                        f.push((k - 1) as u8);
                        for _ in 0..k {
                            let v = u8v();
                            f.push(v);
                            p.push(u16::from(v));
                        }
                    }
                    1 => {
                        // a no-op, then one literal
                        f.push(128);
                        let v = u8v();
                        f.extend_from_slice(&[0, v]);
                        p.push(u16::from(v));
                    }
                    _ => {
                        let k = 2 + choice(left - 1);
                        let v = u8v();
                        f.extend_from_slice(&[(257 - k) as u8, v]);
                        for _ in 0..k {
                            p.push(u16::from(v));
                        }
                    }
                }
            } else {
                let v = u8v();
                f.extend_from_slice(&[if left < 2 { 0 } else { (257 - left) as u8 }, v]);
                for _ in 0..left {
                    p.push(u16::from(v));
                }
            }
        }
        planes.push(p);
    }
    if arg(4) == 1 && ch == 4 {
        // fully opaque or clear only
        for a in &planes[3] {
            assume((*a == 0) | (*a == 255));
        }
    }
    compare(&f, w, h, ch, mode, &planes, false, arg(4) == 1);
}
/// a run of 128 and a stretch of 128: args run?
#[no_mangle]
pub extern "C" fn rle_long() {
    let mut f = head(1, 128, 1, 8, GRAY, 1, [0; 3]);
    f.extend_from_slice(&[0, 0]);
    let p: Vec<u8> = if arg(0) == 1 {
        let v = u8v();
        f.extend_from_slice(&[129, v]);
        vec![v; 128]
    } else {
        let v = vec(128);
        f.push(127);
        f.extend_from_slice(&v);
        v
    };
    compare(&f, 128, 1, 1, GRAY, &[p.iter().map(|x| u16::from(*x)).collect()], false, false);
}
/// every header is accepted exactly when the decoder can hold it; args: limits in use
#[no_mangle]
pub extern "C" fn header() {
    let mut f = head(1, 1, 1, 8, 1, 0, [0; 3]);
    let (ch, depth, mode, comp) = (u16v(), u16v(), u16v(), u16v());
    let (w, h) = (u32v(), u32v());
    let (mw, mh) = (u16v(), u16v());
    f[12..14].copy_from_slice(&ch.to_be_bytes());
    f[14..18].copy_from_slice(&h.to_be_bytes());
    f[18..22].copy_from_slice(&w.to_be_bytes());
    f[22..24].copy_from_slice(&depth.to_be_bytes());
    f[24..26].copy_from_slice(&mode.to_be_bytes());
    f[38..40].copy_from_slice(&comp.to_be_bytes());
    let opt = DecoderOptions::default().set_max_width(usize::from(mw)).set_max_height(usize::from(mh));
    let mut d = PSDDecoder::new_with_options(ZCursor::new(&f), opt);
    let ok = d.decode_headers().is_ok();
    let mode_ok = ((mode == GRAY) & (ch >= 1)) | ((mode == RGB) & (ch >= 3)) | ((mode == CMYK) & (ch == 4));
    let want = (ch <= 4)
        & mode_ok
        & ((depth == 8) | (depth == 16))
        & (comp <= 1)
        & (w > 0)
        & (h > 0)
        & (w <= u32::from(mw))
        & (h <= u32::from(mh));
    check(ok == want, 1);
    if ok {
        check(d.dimensions() == Some((w as usize, h as usize)), 2);
        check(d.bit_depth() == Some(if depth == 8 { BitDepth::Eight } else { BitDepth::Sixteen }), 3);
        check(d.colorspace() == Some(space(mode, usize::from(ch))), 4);
        reach(1);
    } else {
        check(d.dimensions().is_none(), 5);
        reach(2);
    }
}
/// arbitrary bytes for the picture data: no panic, right size; args mode, ch, w, h, depth, comp, n
#[no_mangle]
pub extern "C" fn any_body() {
    let (mode, ch, w, h, depth, comp, n) = (arg(0) as u16, arg(1), arg(2), arg(3), arg(4), arg(5), arg(6));
    let mut f = head(ch as u16, w as u32, h as u32, depth as u16, mode, comp as u16, [0; 3]);
    f.extend_from_slice(&vec(n));
    let mut d = PSDDecoder::new(ZCursor::new(&f));
    reach(0);
    if let Ok(r) = d.decode_raw() {
        check(r.len() == w * h * outs(mode, ch) * depth / 8, 1);
        reach(1);
    }
}
/// arbitrary header bytes: no panic
#[no_mangle]
pub extern "C" fn any_header() {
    let mut f = b"8BPS\0\x01".to_vec();
    f.extend_from_slice(&vec(arg(0)));
    let mut d = PSDDecoder::new(ZCursor::new(&f));
    if d.decode_headers().is_ok() {
        let (w, h) = d.dimensions().unwrap();
        check(w > 0 && h > 0 && w <= 1 << 14 && h <= 1 << 14, 1);
        check(d.colorspace().is_some(), 2);
        reach(1);
    }
}

harnesses!(raw, raw8_part, rle, rle_long, header, any_body, any_header);
