use symrt::*;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_hdr::{HdrDecoder, HdrEncoder};

fn head(w: usize, h: usize) -> Vec<u8> {
    format!("#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y {} +X {}\n", h, w).into_bytes()
}
/// what an RGBE quadruple stands for
fn value(m: u8, e: u8) -> f32 {
    if e == 0 {
        return 0.0;
    }
    let x = e as i32 - 128;
    let v = m as f32 / 256.0;
    if x > 0 {
        v * f32::from_bits((127 + x as u32) << 23)
    } else {
        v / f32::from_bits((127 + (-x) as u32) << 23)
    }
}
fn compare(out: &[f32], rgbe: &[[u8; 4]], id: u64) {
    check(out.len() == rgbe.len() * 3, id);
    for (o, q) in out.chunks_exact(3).zip(rgbe) {
        for k in 0..3 {
            check(o[k].to_bits() == value(q[k], q[3]).to_bits(), id + 1);
        }
    }
}
/// the value of one pixel, every mantissa and exponent
#[no_mangle]
#[inline(never)]
pub extern "C" fn value_one() {
    let mut f = head(1, 1);
    let m = u8v();
    let e = [0u8, 1, 2, 90, 96, 97, 127, 128, 129, 140, 159, 160, 161, 200, 254, 255][choice(16)];
    f.extend([m, 77, 200, e]);
    let mut d = HdrDecoder::new(ZCursor::new(&f[..]));
    match d.decode() {
        Ok(p) => {
            check(p.len() == 3, 1);
            // exact value: m * 2^(e-136)
            let want = if e == 0 { 0.0 } else { m as f64 * f64::from_bits(((1023 + e as i64 - 136) as u64) << 52) };
            check(p[0] as f64 == want, 2);
            reach(1);
        }
        Err(_) => check(false, 3),
    }
}
/// narrow images are stored flat, with old style runs
#[no_mangle]
#[inline(never)]
pub extern "C" fn flat() {
    let (w, h, n) = (arg(0), arg(1), arg(2));
    let mut f = head(w, h);
    let mut q: Vec<[u8; 4]> = vec![];
    // items: literal pixel or run marker
    for _ in 0..h {
        let mut left = w;
        let mut shift = 0u32;
        let start = q.len();
        for i in 0..n {
            if left == 0 {
                break;
            }
            let run = if i > 0 && i + 1 < n { choice(4) } else { 0 };
            if run > 0 && q.len() > start {
                f.extend([1, 1, 1, run as u8]);
                let mut k = (run as usize) << shift;
                shift += 8;
                assume(shift <= 16);
                let last = *q.last().unwrap();
                while k > 0 && left > 0 {
                    q.push(last);
                    left -= 1;
                    k -= 1;
                }
            } else {
                let p = vec(3);
                assume(!(p[0] == 1 && p[1] == 1 && p[2] == 1));
                let e = 120 + q.len() as u8;
                f.extend([p[0], p[1], p[2], e]);
                q.push([p[0], p[1], p[2], e]);
                left -= 1;
                shift = 0;
            }
        }
        while left > 0 {
            let p = [9, 8, 7, 129];
            f.extend(p);
            q.push(p);
            left -= 1;
        }
    }
    let mut d = HdrDecoder::new(ZCursor::new(&f[..]));
    match d.decode() {
        Ok(p) => {
            compare(&p, &q, 10);
            reach(1);
        }
        Err(_) => check(false, 1),
    }
}
/// wide images whose rows are stored without new style runs
#[no_mangle]
#[inline(never)]
pub extern "C" fn flat_wide() {
    let w = arg(0);
    let mut f = head(w, 1);
    let mut q: Vec<[u8; 4]> = vec![];
    let p = vec(3);
    if arg(1) == 1 {
        // starts like a run marker but is a pixel
        assume(p[0] == 2 && (p[1] != 2 || p[2] & 128 != 0));
    } else {
        assume(p[0] != 2 && !(p[0] == 1 && p[1] == 1 && p[2] == 1));
    }
    q.push([p[0], p[1], p[2], 130]);
    if choice(2) == 1 {
        let run = 1 + choice(3);
        f.extend(q[0]);
        f.extend([1, 1, 1, run as u8]);
        for _ in 0..run {
            q.push(q[0]);
        }
    } else {
        f.extend(q[0]);
    }
    while q.len() < w {
        let v = [u8v(), 3, 5, 126];
        f.extend(v);
        q.push(v);
    }
    let mut d = HdrDecoder::new(ZCursor::new(&f[..]));
    match d.decode() {
        Ok(p) => {
            compare(&p, &q, 10);
            reach(1);
        }
        Err(_) => check(false, 1),
    }
}
/// a row too wide for one marker, whose second one counts by 256
#[no_mangle]
#[inline(never)]
pub extern "C" fn flat_runs() {
    let w = arg(0);
    let mut f = head(w, 2);
    let mut q: Vec<[u8; 4]> = vec![];
    for _ in 0..2 {
        let p = vec(3);
        assume(p[0] != 2 && !(p[0] == 1 && p[1] == 1 && p[2] == 1));
        let p = [p[0], p[1], p[2], 131];
        f.extend(p);
        let end = q.len() + w;
        q.push(p);
        let mut left = w - 1;
        let mut step = 1;
        while left > 0 {
            // the first one counts what is left over
            let n = if step == 1 { left % 256 } else { left / step };
            f.extend([1, 1, 1, n as u8]);
            left -= n * step;
            step *= 256;
        }
        q.resize(end, p);
    }
    let mut d = HdrDecoder::new(ZCursor::new(&f[..]));
    match d.decode() {
        Ok(p) => {
            compare(&p, &q, 10);
            reach(1);
        }
        Err(_) => check(false, 1),
    }
}
/// run length coded rows: any mix of runs and literals in each plane
#[no_mangle]
#[inline(never)]
pub extern "C" fn rle() {
    let (w, h, sym) = (arg(0), arg(1), arg(2));
    let mut f = head(w, h);
    let mut q = vec![[0u8; 4]; w * h];
    for y in 0..h {
        f.extend([2, 2, (w >> 8) as u8, w as u8]);
        for plane in 0..4 {
            let mut x = 0;
            while x < w {
                let left = w - x;
                if plane == sym && y == h - 1 {
                    // lengths chosen freely
                    let n = 1 + choice(left);
                    let run = choice(2) == 1;
                    if run {
                        let v = if plane == 3 { 125 + x as u8 } else { u8v() };
                        f.extend([128 + n as u8, v]);
                        for k in 0..n {
                            q[y * w + x + k][plane] = v;
                        }
                    } else {
                        f.push(n as u8);
                        for k in 0..n {
                            let v = if plane == 3 { 120 + (x + k) as u8 } else { u8v() };
                            f.push(v);
                            q[y * w + x + k][plane] = v;
                        }
                    }
                    x += n;
                } else {
                    let n = left.min(127);
                    let v = if plane == 3 { 131 } else { u8v() };
                    f.extend([128 + n as u8, v]);
                    for k in 0..n {
                        q[y * w + x + k][plane] = v;
                    }
                    x += n;
                }
            }
        }
    }
    let mut d = HdrDecoder::new(ZCursor::new(&f[..]));
    match d.decode() {
        Ok(p) => {
            compare(&p, &q, 10);
            check(d.dimensions() == Some((w, h)), 2);
            reach(1);
        }
        Err(_) => check(false, 1),
    }
}
/// header forms
#[no_mangle]
#[inline(never)]
pub extern "C" fn header() {
    let (w, h) = (choice(12), choice(4));
    let swap = choice(2) == 1;
    let mut f: Vec<u8> = [&b"#?RADIANCE\n"[..], b"#?RGBE\n"][choice(2)].to_vec();
    for _ in 0..choice(2) {
        f.extend(b"# a comment = here\n");
    }
    f.extend(b"EXPOSURE=1.5\nFORMAT=32-bit_rle_rgbe\n\n");
    f.extend(if swap { format!("+X {} -Y {}\n", w, h) } else { format!("-Y {} +X {}\n", h, w) }.into_bytes());
    let o = DecoderOptions::default().set_max_width(10).set_max_height(2);
    let mut d = HdrDecoder::new_with_options(ZCursor::new(&f[..]), o);
    let ok = d.decode_headers().is_ok();
    check(ok == (w <= 10 && h <= 2), 1);
    if ok {
        check(d.dimensions() == Some((w, h)), 2);
        check(d.metadata().get("EXPOSURE").map(|x| x.as_str()) == Some("1.5"), 3);
        check(d.metadata().len() == 2, 4);
        check(d.output_buffer_size() == Some(w * h * 3), 5);
        reach(1);
    } else {
        reach(2);
    }
}
/// encode then decode: run structure over free patterns of a few colours
#[no_mangle]
#[inline(never)]
pub extern "C" fn roundtrip() {
    let (w, h, lead, free) = (arg(0), arg(1), arg(2), arg(3));
    let pal = [[1.0f32, 0.5, 0.25], [0.5, 0.5, 0.25], [4.0, 2.0, 96.0]];
    let mut px: Vec<f32> = vec![];
    for i in 0..w * h {
        let x = i % w;
        let c = if x < lead || x >= lead + free { 0 } else { choice(2) + (i / w > 0) as usize };
        px.extend(pal[c]);
    }
    let o = EncoderOptions::new(w, h, ColorSpace::RGB, BitDepth::Float32);
    let mut out = vec![];
    let n = HdrEncoder::new(&px, o).encode(&mut out);
    check(matches!(n, Ok(k) if k == out.len()), 1);
    let mut d = HdrDecoder::new(ZCursor::new(&out[..]));
    match d.decode() {
        Ok(p) => {
            check(p.len() == px.len(), 2);
            for (a, b) in p.chunks_exact(3).zip(px.chunks_exact(3)) {
                let m = b[0].max(b[1]).max(b[2]);
                for k in 0..3 {
                    check((a[k] - b[k]).abs() <= m / 64.0, 3);
                }
            }
            check(d.dimensions() == Some((w, h)), 4);
            reach(1);
        }
        Err(_) => check(false, 5),
    }
}
/// encode then decode one pixel, two channels free, the largest fixed
#[no_mangle]
#[inline(never)]
pub extern "C" fn roundtrip_value() {
    let big = [1.0f32, 0.75, 0.3, 1000.0, 1.0e-6, 3.0e9, 2.0e-20][choice(7)];
    let pos = arg(0);
    let a = choice(129) * 2 ;
    let f = a.min(255) as f32 * (big / 256.0);
    let mut px = [f; 3];
    px[pos] = big;
    let o = EncoderOptions::new(1, 1, ColorSpace::RGB, BitDepth::Float32);
    let mut out = vec![];
    check(HdrEncoder::new(&px, o).encode(&mut out).is_ok(), 1);
    let mut d = HdrDecoder::new(ZCursor::new(&out[..]));
    match d.decode() {
        Ok(p) => {
            for k in 0..3 {
                check((p[k] - px[k]).abs() <= big / 64.0, 2);
            }
            reach(1);
        }
        Err(_) => check(false, 3),
    }
}
/// arbitrary bytes
#[no_mangle]
#[inline(never)]
pub extern "C" fn any_body() {
    let mut f = head(arg(0), 1);
    f.extend(vec(arg(1)));
    let mut d = HdrDecoder::new(ZCursor::new(&f[..]));
    match d.decode() {
        Ok(p) => {
            check(p.len() == arg(0) * 3, 1);
            reach(1)
        }
        Err(_) => reach(2),
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn any_head() {
    let mut f = b"#?RGBE\n".to_vec();
    if arg(1) == 1 {
        f.extend(b"\n-Y ");
    }
    f.extend(vec(arg(0)));
    let o = DecoderOptions::default().set_max_width(4).set_max_height(3);
    let mut d = HdrDecoder::new_with_options(ZCursor::new(&f[..]), o);
    match d.decode() {
        Ok(_) => reach(1),
        Err(_) => reach(2),
    }
}
harnesses!(value_one, flat, flat_wide, flat_runs, rle, header, roundtrip, roundtrip_value, any_body, any_head);
