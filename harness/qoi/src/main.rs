use symrt::*;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_qoi::{QoiDecoder, QoiEncoder};

fn cs(c: usize) -> ColorSpace {
    if c == 3 {
        ColorSpace::RGB
    } else {
        ColorSpace::RGBA
    }
}
fn check_roundtrip(px: &[u8], w: usize, h: usize, c: usize) {
    let opts = EncoderOptions::new(w, h, cs(c), BitDepth::Eight);
    let mut enc = QoiEncoder::new(px, opts);
    let mut out = Vec::new();
    let n = enc.encode(&mut out);
    check(n.is_ok(), 1);
    check(matches!(n, Ok(k) if k == out.len()), 4);
    let mut d = QoiDecoder::new(ZCursor::new(&out[..]));
    let r = d.decode();
    check(r.is_ok(), 2);
    if let Ok(p) = r {
        check_eq(&p, px, 3);
        check(d.dimensions() == Some((w, h)), 5);
        check(d.colorspace() == Some(cs(c)), 6);
        reach(1);
    }
}
/// encode any image of the given size, decode it again: identical
#[no_mangle]
#[inline(never)]
pub extern "C" fn roundtrip() {
    let (w, h, c) = (arg(0), arg(1), arg(2));
    let px = vec(w * h * c);
    check_roundtrip(&px, w, h, c);
}
/// longer pixel histories: each pixel repeats an earlier one or is fresh/near the previous
#[no_mangle]
#[inline(never)]
pub extern "C" fn roundtrip_hist() {
    let (n, c) = (arg(0), arg(1));
    let mut px = vec(c);
    for i in 1..n {
        match choice(5) {
            0 => px.extend_from_within((i - 1) * c..i * c),
            1 => px.extend_from_within(0..c),
            2 => {
                // every channel moved by the same unknown amount
                let d = u8v();
                for k in 0..c {
                    let v = px[(i - 1) * c + k];
                    px.push(if k < 3 { v.wrapping_add(d) } else { v });
                }
            }
            3 => {
                // one channel replaced
                for k in 0..c {
                    let v = px[(i - 1) * c + k];
                    px.push(if k == i % c { u8v() } else { v });
                }
            }
            _ => px.extend((0..c).map(|k| [10, 11, 12, 255][k])),
        }
    }
    check_roundtrip(&px, 1, n, c);
}
/// a run of k equal pixels, one free pixel, then the first colour again
#[no_mangle]
#[inline(never)]
pub extern "C" fn roundtrip_run() {
    let (k, c, start) = (arg(0), arg(1), arg(2));
    let first: Vec<u8> = if start == 0 { vec![0, 0, 0, 255][..c].to_vec() } else { vec![200, 3, 77, 9][..c].to_vec() };
    let mut px = vec![];
    for _ in 0..k {
        px.extend_from_slice(&first);
    }
    px.extend(vec(c));
    px.extend_from_slice(&first);
    check_roundtrip(&px, k + 2, 1, c);
}

/// decoder written from the format description
fn reference(body: &[u8], npx: usize, c: usize) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut idx = [[0u8; 4]; 64];
    let mut p = [0u8, 0, 0, 255];
    let mut at = 0;
    while out.len() < npx * c {
        let b = body[at];
        at += 1;
        let mut n = 1;
        if b == 0xfe || b == 0xff {
            p[0] = body[at];
            p[1] = body[at + 1];
            p[2] = body[at + 2];
            at += 3;
            if b == 0xff {
                p[3] = body[at];
                at += 1;
            }
        } else if b < 64 {
            p = idx[b as usize];
        } else if b < 128 {
            p[0] = p[0].wrapping_add((b >> 4 & 3).wrapping_sub(2));
            p[1] = p[1].wrapping_add((b >> 2 & 3).wrapping_sub(2));
            p[2] = p[2].wrapping_add((b & 3).wrapping_sub(2));
        } else if b < 192 {
            let g = (b & 63) as i32 - 32;
            let x = body[at] as i32;
            at += 1;
            p[0] = (p[0] as i32 + g - 8 + (x >> 4)) as u8;
            p[1] = (p[1] as i32 + g) as u8;
            p[2] = (p[2] as i32 + g - 8 + (x & 15)) as u8;
        } else {
            n = (b & 63) as usize + 1;
        }
        let h = (p[0] as usize * 3 + p[1] as usize * 5 + p[2] as usize * 7 + p[3] as usize * 11) % 64;
        idx[h] = p;
        for _ in 0..n {
            if out.len() < npx * c {
                out.extend_from_slice(&p[..c]);
            }
        }
    }
    Some(out)
}
/// any chunk stream decodes to what the format description says
#[no_mangle]
#[inline(never)]
pub extern "C" fn decode_ref() {
    let (w, h, c, pre) = (arg(0), arg(1), arg(2), arg(3));
    let mut f = b"qoif".to_vec();
    f.extend((w as u32).to_be_bytes());
    f.extend((h as u32).to_be_bytes());
    f.push(c as u8);
    f.push(choice(2) as u8);
    // known prefix pixels, so that index chunks have something to hit
    let pool: [&[u8]; 3] = [&[0xff, 1, 2, 3, 4], &[0xfe, 130, 2, 250], &[0xc1]];
    for i in 0..pre {
        f.extend(pool[i % 3]);
    }
    // enough bytes for the largest chunk per remaining pixel
    let rest = w * h - [0, 1, 2, 4][pre];
    f.extend(vec(rest * 5));
    let want = reference(&f[14..], w * h, c).unwrap();
    f.extend([0; 8]);
    let mut d = QoiDecoder::new(ZCursor::new(&f[..]));
    let r = d.decode();
    check(r.is_ok(), 1);
    if let Ok(p) = r {
        check_eq(&p, &want, 2);
        check(d.dimensions() == Some((w, h)) && d.colorspace() == Some(cs(c)), 3);
        reach(1);
    }
}
/// headers: what they say is what is reported; limits and invalid values are refused
#[no_mangle]
#[inline(never)]
pub extern "C" fn header() {
    let mut f = b"qoif".to_vec();
    f.extend(vec(10));
    let w = u32::from_be_bytes([f[4], f[5], f[6], f[7]]) as usize;
    let h = u32::from_be_bytes([f[8], f[9], f[10], f[11]]) as usize;
    let o = DecoderOptions::default().set_max_width(1000).set_max_height(500);
    let mut d = QoiDecoder::new_with_options(ZCursor::new(&f[..]), o);
    let ok = d.decode_headers().is_ok();
    let good = w >= 1 && w <= 1000 && h >= 1 && h <= 500 && (f[12] == 3 || f[12] == 4);
    if ok {
        check(good, 1);
        check(d.dimensions() == Some((w, h)), 2);
        check(d.output_buffer_size() == Some(w * h * f[12] as usize), 3);
        reach(1);
    } else {
        check(!good, 4);
        check(d.dimensions().is_none(), 5);
        reach(2);
    }
}
/// arbitrary bytes
#[no_mangle]
#[inline(never)]
pub extern "C" fn nopanic() {
    let b = vec(arg(0));
    let o = DecoderOptions::default().set_max_width(4).set_max_height(4);
    let mut d = QoiDecoder::new_with_options(ZCursor::new(&b[..]), o);
    if d.decode().is_ok() {
        reach(1);
    } else {
        reach(2);
    }
}
harnesses!(roundtrip, roundtrip_hist, roundtrip_run, decode_ref, header, nopanic);
