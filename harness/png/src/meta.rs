//! PNG chunks other than the pixels: which headers are accepted, what the other chunks mean, and that none of
//! them makes the decoder lose its place
use crate::*;

fn idx(p: &Png, raw: &[u8]) {
    if p.color == 3 {
        for v in p.samples(raw) {
            assume(usize::from(v) < p.plte.len() / 3);
        }
    }
}
/// files are made of chunks: IHDR, then the given ones, IDAT and IEND
fn with(p: &Png, before: &[(&[u8; 4], Vec<u8>)], raw: &[u8], after: &[(&[u8; 4], Vec<u8>)]) -> Vec<u8> {
    let mut f = SIG.to_vec();
    chunk(&mut f, b"IHDR", &p.ihdr(), false);
    for (n, d) in before {
        chunk(&mut f, n, d, false);
    }
    chunk(&mut f, b"IDAT", &zlib(raw), false);
    for (n, d) in after {
        chunk(&mut f, n, d, false);
    }
    chunk(&mut f, b"IEND", &[], false);
    f
}
/// with its checksum, which is always verified here
fn checked_zlib(t: &[u8]) -> Vec<u8> {
    let mut z = zlib(t);
    let (mut a, mut b) = (1u32, 0u32);
    for x in t {
        a += u32::from(*x);
        b += a;
    }
    let n = z.len();
    z[n - 4..].copy_from_slice(&((b % 65521) << 16 | a % 65521).to_be_bytes());
    z
}
fn pixels_are(got: &[u8], p: &Png, raw: &[u8]) -> bool {
    let (_, want) = p.expected(&p.samples(raw), false);
    if p.depth == 16 {
        // native order
        got.len() == 2 * want.len() && want.iter().enumerate().all(|(i, v)| u16::from_be_bytes([got[2 * i], got[2 * i + 1]]) == *v)
    } else {
        got.len() == want.len() && got.iter().zip(&want).fold(true, |a, (x, y)| a & (u16::from(*x) == *y))
    }
}
/// IHDR: accepted exactly when the standard allows it and the limits do
#[no_mangle]
#[inline(never)]
pub extern "C" fn header() {
    let (w, h) = (u32v(), u32v());
    let (depth, color, comp, filter, lace) = (u8v(), u8v(), u8v(), u8v(), u8v());
    let (mw, mh) = (1 + u16v() as usize, 1 + u16v() as usize);
    let mut i = w.to_be_bytes().to_vec();
    i.extend_from_slice(&h.to_be_bytes());
    i.extend_from_slice(&[depth, color, comp, filter, lace]);
    let mut f = SIG.to_vec();
    chunk(&mut f, b"IHDR", &i, false);
    if arg(0) == 1 {
        chunk(&mut f, b"PLTE", &[1, 2, 3], false);
    }
    chunk(&mut f, b"IEND", &[], false);
    let mut d = PngDecoder::new_with_options(ZCursor::new(f), options(true).set_max_width(mw).set_max_height(mh));
    let r = d.decode_headers();
    let sizes = (w > 0) & (h > 0) & (w as usize <= mw) & (h as usize <= mh);
    let kinds = match color {
        0 => (depth == 1) | (depth == 2) | (depth == 4) | (depth == 8) | (depth == 16),
        3 => (depth == 1) | (depth == 2) | (depth == 4) | (depth == 8),
        2 | 4 | 6 => (depth == 8) | (depth == 16),
        _ => false,
    };
    let legal = sizes & kinds & (comp == 0) & (filter == 0) & (lace < 2);
    check(r.is_ok() == legal, 1);
    if r.is_ok() {
        check(d.dimensions() == Some((w as usize, h as usize)), 2);
        check(d.depth() == Some(if depth == 16 { BitDepth::Sixteen } else { BitDepth::Eight }), 3);
        let n = [1, 0, 3, 3, 2, 0, 4][color as usize];
        check(d.colorspace() == Some(space(n)), 4);
        check(d.output_buffer_size() == Some(w as usize * h as usize * n * if depth == 16 { 2 } else { 1 }), 5);
        check(!d.is_animated() && !d.more_frames(), 6);
        reach(1);
    } else {
        check(d.info().is_none(), 7);
        reach(2);
    }
}
/// args: colour type, depth, body length, before (0) or after (1) the pixels. A chunk of any type and content: either the
/// file is refused or the pixels are those of the IDAT chunk
#[no_mangle]
#[inline(never)]
pub extern "C" fn any_chunk() {
    let (color, depth, n) = (arg(0) as u8, arg(1) as u8, arg(2));
    let mut p = Png { w: 2, h: 1, color, depth, adam7: false, plte: vec![], trns: vec![] };
    let mut extra = vec![];
    if color == 3 {
        p.plte = (20..32).collect();
        extra.push((b"PLTE", p.plte.clone()));
    }
    let mut raw = vec![0];
    bytes_onto(&mut raw, p.row_bytes(2));
    idx(&p, &raw);
    let ty = [u8v(), u8v(), u8v(), u8v()];
    let body = vec(n);
    assume(ty != *b"IDAT" && ty != *b"IEND");
    if n > 4 {
        // the compressed ones: shorter, and in meta()
        assume(ty != *b"zTXt" && ty != *b"iTXt" && ty != *b"iCCP");
    }
    let f = if arg(3) == 0 {
        extra.push((&ty, body.clone()));
        with(&p, &extra, &raw, &[])
    } else {
        with(&p, &extra, &raw, &[(&ty, body.clone())])
    };
    let mut d = PngDecoder::new_with_options(ZCursor::new(f), options(true).set_byte_endian(ByteEndian::BE));
    let r = d.decode_raw();
    let known = [b"IHDR", b"PLTE", b"tRNS", b"gAMA", b"acTL", b"fcTL", b"fdAT", b"tIME", b"eXIf", b"iCCP", b"iTXt", b"tEXt", b"zTXt"].contains(&&ty);
    match r {
        Ok(px) => {
            if &ty == b"tRNS" && pixels_are(&px, &p, &raw) == false {
                p.trns = body.clone();
                let lawful = match color {
                    0 => n == 2,
                    2 => n == 6,
                    // more than there are entries is harmless
                    3 => n <= 256,
                    _ => false,
                };
                check(lawful, 1);
                // values the samples cannot have are unlawful, and what becomes of them is not said
                let wild = color != 3 && depth < 16 && p.trns.chunks(2).any(|c| c[0] > 0 || u16::from(c[1]) >> depth > 0);
                if !lawful || n == 0 || wild {
                    return;
                }
            }
            // a second palette counts or does not
            if !(&ty == b"PLTE" && color == 3) {
                check(pixels_are(&px, &p, &raw), 2);
            }
            check(&ty != b"IHDR", 3);
            if !known {
                check(ty[0] & 0x20 != 0, 4);
            }
            reach(1);
        }
        Err(_) => {
            // unknown chunks which are not critical can be skipped
            if !known {
                check(ty[0] & 0x20 == 0, 5);
            }
            // and the texts, times and profiles are no reason to refuse the picture
            check(![b"gAMA", b"acTL", b"tIME", b"eXIf", b"iCCP", b"iTXt", b"tEXt", b"zTXt", b"pHYs"].contains(&&ty), 6);
            reach(2);
        }
    }
}
/// args: kind, keyword length, text length. What a chunk says is what info() says
#[no_mangle]
#[inline(never)]
pub extern "C" fn meta() {
    let (kind, k, t) = (arg(0), arg(1), arg(2));
    let p = Png { w: 2, h: 1, color: 0, depth: 8, adam7: false, plte: vec![], trns: vec![] };
    let mut raw = vec![0];
    bytes_onto(&mut raw, 2);
    let mut key: Vec<u8> = (0..k).map(|i| b'a' + (i % 26) as u8).collect();
    for i in 0..k.min(2) {
        key[k - 1 - i] = u8v();
        assume(key[k - 1 - i] != 0);
    }
    let text = vec(t);
    let mut b = key.clone();
    b.push(0);
    let name = match kind {
        0 => {
            b.extend_from_slice(&text);
            b"tEXt"
        }
        1 => {
            b.push(0);
            b.extend_from_slice(&checked_zlib(&text));
            b"zTXt"
        }
        2 => {
            b.push(0);
            b.extend_from_slice(&checked_zlib(&text));
            b"iCCP"
        }
        // international text: flag, method, language, translated keyword
        3 | 4 | 5 | 6 => {
            b.extend_from_slice(&[kind as u8 & 1 ^ 1, 0]);
            if kind >= 5 {
                b.extend_from_slice(b"en-GB\0");
                let tr = [u8v(), u8v()];
                assume(tr[0] != 0 && tr[1] != 0);
                b.extend_from_slice(&tr);
                b.push(0);
            } else {
                b.extend_from_slice(&[0, 0]);
            }
            if kind & 1 == 0 {
                b.extend_from_slice(&checked_zlib(&text));
            } else {
                b.extend_from_slice(&text);
            }
            b"iTXt"
        }
        7 => {
            b = vec(4);
            b"gAMA"
        }
        8 => {
            b = vec(7);
            assume(b[2] >= 1 && b[2] <= 12 && b[3] >= 1 && b[3] <= 31 && b[4] < 24 && b[5] < 60 && b[6] <= 60);
            b"tIME"
        }
        _ => {
            b = if kind == 9 { b"II\x2a\0".to_vec() } else { b"MM\0\x2a".to_vec() };
            b.extend_from_slice(&text);
            b"eXIf"
        }
    };
    let f = if arg(3) == 0 { with(&p, &[(name, b.clone())], &raw, &[]) } else { with(&p, &[], &raw, &[(name, b.clone())]) };
    let mut d = PngDecoder::new_with_options(ZCursor::new(f), options(true).set_strict_mode(arg(4) == 1).png_set_confirm_crc(false).inflate_set_confirm_adler(false));
    match d.decode_raw() {
        Ok(px) => check(pixels_are(&px, &p, &raw), 1),
        Err(_) => {
            check(false, 2);
            return;
        }
    }
    let i = d.info().unwrap();
    let mut seen = 0;
    for c in &i.text_chunk {
        check(kind == 0 && c.keyword == key, 3);
        check_eq(&c.text, &text, 4);
        seen += 1;
    }
    for c in &i.ztxt_chunk {
        check(kind == 1 && c.keyword == key, 5);
        check_eq(&c.text, &text, 6);
        seen += 1;
    }
    if let Some(c) = &i.icc_profile {
        check(kind == 2, 7);
        check_eq(c, &text, 8);
        seen += 1;
    }
    for c in &i.itxt_chunk {
        check((3..7).contains(&kind) && c.keyword == key, 9);
        check_eq(&c.text, &text, 10);
        seen += 1;
    }
    if let Some(g) = i.gamma {
        check(kind == 7, 11);
        let v = u32::from_be_bytes([b[0], b[1], b[2], b[3]]);
        let want = (v as f64 / 100000.0) as f32;
        check(v == 0 || g.to_bits() == want.to_bits(), 12);
        seen += 1;
    }
    if let Some(g) = i.time_info {
        check(kind == 8, 13);
        check(g.year == u16::from_be_bytes([b[0], b[1]]), 14);
        check([g.month, g.day, g.hour, g.minute, g.second] == b[2..7], 15);
        seen += 1;
    }
    if let Some(e) = &i.exif {
        check(kind >= 9, 16);
        check_eq(e, &b, 17);
        seen += 1;
    }
    check(seen == 1, 18);
    reach(1);
}
/// args: colour type, depth, palette entries. A palette suggested for, or wrongly given to, other kinds changes nothing
#[no_mangle]
#[inline(never)]
pub extern "C" fn suggested() {
    let (color, depth, n) = (arg(0) as u8, arg(1) as u8, arg(2));
    let p = Png { w: 3, h: 2, color, depth, adam7: arg(3) == 1, plte: vec![], trns: vec![] };
    let raw = scanlines(&p, 0);
    let f = with(&p, &[(b"PLTE", vec(3 * n))], &raw, &[]);
    let mut d = PngDecoder::new_with_options(ZCursor::new(f), options(true).set_byte_endian(ByteEndian::BE));
    match d.decode_raw() {
        Ok(px) => check(pixels_are(&px, &p, &raw), 1),
        // forbidden for gray
        Err(_) => check(color == 0 || color == 4, 2),
    }
    reach(1);
}
/// args: depth, palette bytes, transparency bytes. Palettes which are missing, too long or cut are refused
#[no_mangle]
#[inline(never)]
pub extern "C" fn palettes() {
    let (depth, n, t) = (arg(0) as u8, arg(1), arg(2));
    let mut p = Png { w: 2, h: 1, color: 3, depth, adam7: false, plte: (0..n).map(|i| (i * 7 % 251) as u8).collect(), trns: vec![] };
    for i in 0..n.min(3) {
        p.plte[i] = u8v();
    }
    p.trns = vec(t);
    let mut raw = vec![0];
    bytes_onto(&mut raw, p.row_bytes(2));
    let mut chunks = vec![];
    if n > 0 {
        chunks.push((b"PLTE", p.plte.clone()));
    }
    if t > 0 {
        chunks.push((b"tRNS", p.trns.clone()));
    }
    let f = with(&p, &chunks, &raw, &[]);
    let mut d = PngDecoder::new_with_options(ZCursor::new(f), options(true));
    let r = d.decode_raw();
    if n == 0 || n % 3 != 0 || n > 768 {
        check(r.is_err(), 1);
        reach(2);
    } else if let Ok(px) = r {
        // what an index past the palette looks like is not said anywhere
        let s = p.samples(&raw);
        p.plte.resize(768, 0);
        let (c, want) = p.expected(&s, false);
        check(px.len() == want.len(), 2);
        for (i, v) in s.iter().enumerate() {
            if usize::from(*v) < n / 3 {
                for k in 0..c {
                    check(u16::from(px[c * i + k]) == want[c * i + k], 3);
                }
            }
        }
        reach(1);
    } else {
        // transparency for more entries than there are
        check(t > n / 3, 4);
        reach(3);
    }
}
/// args: colour type, image width, height. Frame control: frames inside the picture are accepted and no others
#[no_mangle]
#[inline(never)]
pub extern "C" fn frame_control() {
    let p = Png { w: arg(1), h: arg(2), color: arg(0) as u8, depth: 8, adam7: false, plte: vec![], trns: vec![] };
    let (fw, fh, x, y) = (u32v(), u32v(), u32v(), u32v());
    let (dispose, blend) = (u8v(), u8v());
    let mut c = vec![0, 0, 0, 0];
    for v in [fw, fh, x, y] {
        c.extend_from_slice(&v.to_be_bytes());
    }
    c.extend_from_slice(&[0, 1, 0, 2, dispose, blend]);
    let mut f = SIG.to_vec();
    chunk(&mut f, b"IHDR", &p.ihdr(), false);
    chunk(&mut f, b"acTL", &[0, 0, 0, 1, 0, 0, 0, 0], false);
    let mut raw = scanlines(&p, 0);
    if arg(3) == 1 {
        // the picture itself is not part of the animation
        chunk(&mut f, b"IDAT", &zlib(&raw), false);
    }
    chunk(&mut f, b"fcTL", &c, false);
    let q = Png { w: p.w - 1, h: p.h - 1, color: p.color, depth: 8, adam7: false, plte: vec![], trns: vec![] };
    raw = scanlines(&q, 0);
    let mut z = vec![0, 0, 0, 1];
    z.extend_from_slice(&zlib(&raw));
    chunk(&mut f, b"fdAT", &z, false);
    chunk(&mut f, b"IEND", &[], false);
    let mut d = PngDecoder::new_with_options(ZCursor::new(f), options(true));
    let r = d.decode_headers();
    let inside = (u64::from(x) + u64::from(fw) <= p.w as u64) & (u64::from(y) + u64::from(fh) <= p.h as u64);
    let lawful = inside & (fw > 0) & (fh > 0) & (dispose < 3) & (blend < 2);
    check(r.is_ok() == lawful, 1);
    if r.is_ok() {
        reach(1);
    } else {
        reach(2);
    }
}
/// args: animated. A file cut anywhere gives an error or the picture
#[no_mangle]
#[inline(never)]
pub extern "C" fn cut() {
    let p = Png { w: 3, h: 1, color: 3, depth: 8, adam7: false, plte: (0..9).collect(), trns: vec![9] };
    let mut raw = vec![0];
    bytes_onto(&mut raw, 3);
    idx(&p, &raw);
    let text = vec![b'k', 0, 4, 5, 6];
    let mut before = vec![(b"tEXt", text.clone()), (b"gAMA", vec![0, 0, 0, 9]), (b"PLTE", p.plte.clone()), (b"tRNS", p.trns.clone())];
    let mut after = vec![(b"tIME", vec![7, 1, 1, 1, 1, 1, 1]), (b"eXIf", b"MM\0\x2a".to_vec())];
    if arg(0) == 1 {
        let mut c = vec![0, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 2, 0, 0];
        before.push((b"acTL", vec![0, 0, 0, 2, 0, 0, 0, 0]));
        before.push((b"fcTL", c.clone()));
        c[3] = 1;
        after.push((b"fcTL", c));
        let mut z = vec![0, 0, 0, 2];
        z.extend_from_slice(&zlib(&raw));
        after.push((b"fdAT", z));
    }
    let mut f = with(&p, &before, &raw, &after);
    let full = f.len();
    let n = choice(full + 1);
    f.truncate(n);
    let mut d = PngDecoder::new_with_options(ZCursor::new(f), options(true));
    let (_, want) = p.expected(&p.samples(&raw), false);
    let want: Vec<u8> = want.iter().map(|v| *v as u8).collect();
    match d.decode_raw() {
        Ok(px) => {
            check_eq(&px, &want, 1);
            reach(1);
        }
        Err(_) => {
            check(n < full, 2);
            reach(2);
        }
    }
    while d.more_frames() {
        match d.decode_headers().and_then(|_| d.decode_raw()) {
            Ok(px) => check_eq(&px, &want, 3),
            Err(_) => {
                check(n < full, 4);
                break;
            }
        }
    }
}
