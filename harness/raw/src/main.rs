use symrt::*;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_core::result::DecodingResult;
use zune_farbfeld::{FarbFeldDecoder, FarbFeldEncoder};
use zune_ppm::{PPMDecoder, PPMEncoder};

fn words(b: &[u8]) -> Vec<u16> {
    b.chunks_exact(2).map(|x| u16::from_ne_bytes([x[0], x[1]])).collect()
}
/// farbfeld: any image survives, whether or not the header was read first
#[no_mangle]
#[inline(never)]
pub extern "C" fn ff_roundtrip() {
    let (w, h) = (arg(0), arg(1));
    let px = vec(w * h * 8);
    let o = EncoderOptions::new(w, h, ColorSpace::RGBA, BitDepth::Sixteen);
    let mut out = vec![];
    let n = FarbFeldEncoder::new(&px, o).encode(&mut out);
    check(matches!(n, Ok(k) if k == out.len()), 1);
    // the file itself: magic, big endian size, big endian samples
    check(out.len() == 16 + px.len(), 2);
    if out.len() == 16 + px.len() {
        check_eq(&out[..8], b"farbfeld", 3);
        check_eq(&out[8..12], &(w as u32).to_be_bytes(), 4);
        check_eq(&out[12..16], &(h as u32).to_be_bytes(), 5);
        let mut be = vec![];
        for v in words(&px) {
            be.extend(v.to_be_bytes());
        }
        check_eq(&out[16..], &be, 6);
    }
    let mut d = FarbFeldDecoder::new(ZCursor::new(&out[..]));
    if choice(2) == 1 {
        check(d.decode_headers().is_ok(), 7);
    }
    match d.decode() {
        Ok(p) => {
            check_eq16(&p, &words(&px), 8);
            check(d.dimensions() == Some((w, h)), 9);
            reach(1);
        }
        Err(_) => check(false, 10),
    }
}
/// farbfeld: a file that ends early is refused, a longer one decodes the same
#[no_mangle]
#[inline(never)]
pub extern "C" fn ff_length() {
    let (w, h, n) = (arg(0), arg(1), arg(2));
    let mut f = b"farbfeld".to_vec();
    f.extend((w as u32).to_be_bytes());
    f.extend((h as u32).to_be_bytes());
    f.extend(vec(n));
    let mut d = FarbFeldDecoder::new(ZCursor::new(&f[..]));
    let r = d.decode();
    if n < w * h * 8 {
        check(r.is_err(), 1);
        reach(1);
    } else if let Ok(p) = r {
        for (i, v) in p.iter().enumerate() {
            check(*v == u16::from_be_bytes([f[16 + 2 * i], f[17 + 2 * i]]), 2);
        }
        check(p.len() == w * h * 4, 3);
        reach(1);
    } else {
        check(false, 4);
    }
}
/// every 24 bytes as a farbfeld file
#[no_mangle]
#[inline(never)]
pub extern "C" fn ff_any() {
    let f = vec(arg(0));
    let o = DecoderOptions::default().set_max_width(2).set_max_height(2);
    let mut d = FarbFeldDecoder::new_with_options(ZCursor::new(&f[..]), o);
    match d.decode() {
        Ok(p) => {
            let (w, h) = d.dimensions().unwrap();
            check(w <= 2 && h <= 2 && p.len() == w * h * 4, 1);
            check(&f[..8] == b"farbfeld", 2);
            reach(1);
        }
        Err(_) => reach(2),
    }
}
const CS: [ColorSpace; 4] = [ColorSpace::Luma, ColorSpace::RGB, ColorSpace::LumaA, ColorSpace::RGBA];
/// ppm family, what the encoder writes is read back unchanged
#[no_mangle]
#[inline(never)]
pub extern "C" fn ppm_roundtrip() {
    let (w, h, c, depth) = (arg(0), arg(1), arg(2), arg(3));
    let cs = CS[c];
    let px = vec(w * h * cs.num_components() * depth);
    let bd = if depth == 1 { BitDepth::Eight } else { BitDepth::Sixteen };
    let o = EncoderOptions::new(w, h, cs, bd);
    let mut out = vec![];
    let n = PPMEncoder::new(&px, o).encode(&mut out);
    check(matches!(n, Ok(k) if k == out.len()), 1);
    let mut d = PPMDecoder::new(ZCursor::new(&out[..]));
    if choice(2) == 1 {
        check(d.decode_headers().is_ok(), 2);
    }
    match d.decode() {
        Ok(DecodingResult::U8(p)) => {
            check(depth == 1, 3);
            check_eq(&p, &px, 4);
            reach(1);
        }
        Ok(DecodingResult::U16(p)) => {
            check(depth == 2, 5);
            check_eq16(&p, &words(&px), 6);
            reach(1);
        }
        _ => check(false, 7),
    }
    check(d.dimensions() == Some((w, h)) && d.colorspace() == Some(cs) && d.bit_depth() == Some(bd), 8);
}
/// hand written headers: separators, comments, order, both depths
#[no_mangle]
#[inline(never)]
pub extern "C" fn ppm_text() {
    let kind = arg(0);
    let (w, h) = (2usize, 1usize);
    let sep: [&[u8]; 4] = [b" ", b"\n", b"\t \r\n", b"\n# a comment 9 9\n"];
    let s = sep[choice(4)];
    let deep = choice(2);
    let max: &[u8] = [&b"255"[..], b"65535"][deep];
    let mut f: Vec<u8> = vec![];
    let cs;
    if kind < 2 {
        cs = CS[kind];
        f.extend([&b"P5"[..], b"P6"][kind]);
        f.extend(s);
        f.extend(b"2");
        f.extend(s);
        f.extend(b"1");
        f.extend(s);
        f.extend(max);
        // a single separator, then pixels
        f.extend([&b" "[..], b"\n"][choice(2)]);
    } else {
        let k = choice(4);
        cs = CS[k];
        let lines: [Vec<u8>; 5] = [
            b"WIDTH 2".to_vec(),
            b"HEIGHT 1".to_vec(),
            format!("DEPTH {}", [1, 3, 2, 4][k]).into_bytes(),
            [b"MAXVAL ", max].concat(),
            [&b"TUPLTYPE "[..], [&b"GRAYSCALE"[..], b"RGB", b"GRAYSCALE_ALPHA", b"RGB_ALPHA"][k]].concat(),
        ];
        f.extend(b"P7");
        let rot = choice(5);
        for i in 0..5 {
            f.extend(if s[0] == b'\n' { s } else { b"\n" });
            f.extend(&lines[(i + rot) % 5]);
        }
        f.extend(b"\nENDHDR\n");
    }
    let n = w * h * cs.num_components() * (deep + 1);
    let px = vec(n);
    f.extend(&px);
    let mut d = PPMDecoder::new(ZCursor::new(&f[..]));
    match d.decode() {
        Ok(DecodingResult::U8(p)) => {
            check(deep == 0, 1);
            check_eq(&p, &px, 2);
            reach(1);
        }
        Ok(DecodingResult::U16(p)) => {
            check(deep == 1, 3);
            check(p.len() == n / 2, 4);
            for i in 0..p.len() {
                check(p[i] == u16::from_be_bytes([px[2 * i], px[2 * i + 1]]), 5);
            }
            reach(2);
        }
        _ => check(false, 6),
    }
    check(d.dimensions() == Some((w, h)) && d.colorspace() == Some(cs), 7);
    // cut short: refused
    let cut = f.len() - 1;
    let mut d = PPMDecoder::new(ZCursor::new(&f[..cut]));
    check(d.decode().is_err(), 8);
}
/// portable float maps: bottom row first, either byte order
#[no_mangle]
#[inline(never)]
pub extern "C" fn pfm() {
    let (w, h, c) = (arg(0), arg(1), arg(2));
    let le = choice(2) == 1;
    let mut f = format!("P{}\n{} {}\n{}1.0\n", if c == 1 { 'f' } else { 'F' }, w, h, if le { "-" } else { "" }).into_bytes();
    let px = vec(w * h * c * 4);
    f.extend(&px);
    let mut d = PPMDecoder::new(ZCursor::new(&f[..]));
    match d.decode() {
        Ok(DecodingResult::F32(p)) => {
            check(p.len() == w * h * c, 1);
            for y in 0..h {
                for x in 0..w * c {
                    let at = ((h - 1 - y) * w * c + x) * 4;
                    let b = [px[at], px[at + 1], px[at + 2], px[at + 3]];
                    let v = if le { u32::from_le_bytes(b) } else { u32::from_be_bytes(b) };
                    check(p[y * w * c + x].to_bits() == v, 2);
                }
            }
            reach(1);
        }
        _ => check(false, 3),
    }
    check(d.dimensions() == Some((w, h)), 4);
}
/// arbitrary text after the magic
#[no_mangle]
#[inline(never)]
pub extern "C" fn ppm_any() {
    let mut f = vec![b'P', [b'5', b'6', b'7', b'f', b'F'][choice(5)]];
    f.extend(vec(arg(0)));
    let o = DecoderOptions::default().set_max_width(4).set_max_height(3);
    let mut d = PPMDecoder::new_with_options(ZCursor::new(&f[..]), o);
    if d.decode().is_ok() {
        let (w, h) = d.dimensions().unwrap();
        check(w >= 1 && w <= 4 && h >= 1 && h <= 3, 1);
        reach(1);
    } else {
        reach(2);
    }
}
/// every maximum value of up to five digits selects the sample size (and is refused above 65535)
#[no_mangle]
#[inline(never)]
pub extern "C" fn ppm_maxval() {
    let (kind, digits) = (arg(0), arg(1));
    let mut m = 0usize;
    let mut t = vec![];
    for i in 0..digits {
        let x = u8v();
        assume(x.is_ascii_digit() && (i > 0 || x != b'0'));
        m = m * 10 + (x - b'0') as usize;
        t.push(x);
    }
    assume(m > 0);
    let mut f: Vec<u8> = match kind {
        0 => b"P5\n2 1\n".to_vec(),
        1 => b"P6\n2 1\n".to_vec(),
        _ => b"P7\nWIDTH 2\nHEIGHT 1\nDEPTH 1\nTUPLTYPE GRAYSCALE\nMAXVAL ".to_vec(),
    };
    f.extend(&t);
    f.extend(&b"\nENDHDR\n"[..if kind == 2 { 8 } else { 1 }]);
    let n = if kind == 1 { 6 } else { 2 };
    let px = vec(2 * n);
    f.extend(&px);
    match PPMDecoder::new(ZCursor::new(&f[..])).decode() {
        Ok(DecodingResult::U8(p)) => {
            check(m < 256, 1);
            check_eq(&p, &px[..n], 2);
            reach(1);
        }
        Ok(DecodingResult::U16(p)) => {
            check(m >= 256 && m < 65536, 3);
            for i in 0..p.len() {
                check(p[i] == u16::from_be_bytes([px[2 * i], px[2 * i + 1]]), 4);
            }
            check(p.len() == n, 7);
            reach(2);
        }
        Ok(_) => check(false, 5),
        Err(_) => {
            check(m > 65535, 6);
            reach(3);
        }
    }
}
harnesses!(ppm_maxval, ff_roundtrip, ff_length, ff_any, ppm_roundtrip, ppm_text, pfm, ppm_any);
