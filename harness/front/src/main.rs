//! Reading and saving whole images through zune-image, operations and pipelines, options
use symrt::*;
use zune_core::bit_depth::{BitDepth, BitType, ByteEndian};
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::{DecoderOptions, EncoderOptions};
use zune_core::result::DecodingResult;
use zune_image::codecs::ImageFormat;
use zune_image::errors::ImageErrors;
use zune_image::image::Image;
use zune_image::traits::{DecoderTrait, EncoderTrait, IntoImage, OperationsTrait};

mod exif;
mod ops;
mod opts;
mod save;
pub use exif::*;
pub use ops::*;
pub use opts::*;
pub use save::*;

/// a free choice that the solver enumerates
fn pick(n: usize) -> usize {
    let x = u8v() as usize;
    assume(x < n);
    x
}

// ---------------------------------------------------------------- format detection

/// the format of a file that starts with these bytes; 16 at least are there
fn format_of(b: &[u8]) -> Option<ImageFormat> {
    use ImageFormat::*;
    let is = |m: &[u8]| {
        let mut ok = true;
        for i in 0..m.len() {
            ok &= b[i] == m[i];
        }
        ok
    };
    if is(&[0x89, b'P', b'N', b'G', 13, 10, 26, 10]) {
        return Some(PNG);
    }
    if is(&[0xFF, 0xD8]) {
        return Some(JPEG);
    }
    if (b[0] == b'P') & ((b[1] == b'5') | (b[1] == b'6') | (b[1] == b'7') | (b[1] == b'f') | (b[1] == b'F')) {
        return Some(PPM);
    }
    if is(b"8BPS") {
        return Some(PSD);
    }
    if is(b"farbfeld") {
        return Some(Farbfeld);
    }
    if is(b"qoif") {
        return Some(QOI);
    }
    if is(b"#?RADIANCE\n") | is(b"#?RGBE\n") {
        return Some(HDR);
    }
    if is(&[0, 0, 0, 12, b'J', b'X', b'L', b' ', 13, 10, 0x87, 10]) | is(&[0xFF, 0x0A]) {
        return Some(JPEG_XL);
    }
    let z = b[14];
    if is(b"BM") & ((z == 12) | (z == 16) | (z == 40) | (z == 52) | (z == 56) | (z == 64) | (z == 108) | (z == 124)) {
        return Some(BMP);
    }
    None
}
/// args: number of bytes. Every start of a file is recognised as its format, and the data comes back whole
#[no_mangle]
pub extern "C" fn guess() {
    let n = arg(0);
    let v = vec(n);
    let got = ImageFormat::guess_format(ZCursor::new(&v[..]));
    if n >= 16 {
        let want = format_of(&v);
        check(got.as_ref().map(|x| x.0) == want, 1);
        if want.is_some() {
            reach(1);
        }
    } else if let Some((f, _)) = &got {
        let mut w = v.clone();
        w.resize(16, 0);
        check(format_of(&w) == Some(*f), 2);
    }
    if let Some((_, mut c)) = got {
        check(zune_core::bytestream::ZByteReaderTrait::z_position(&mut c).ok() == Some(0), 3);
        let mut back = vec![0; n];
        let r = zune_core::bytestream::ZByteReaderTrait::read_exact_bytes(&mut c, &mut back);
        check(r.is_ok(), 5);
        check_eq(&back, &v, 6);
    }
}

// ---------------------------------------------------------------- reading

fn be32(x: usize) -> [u8; 4] {
    (x as u32).to_be_bytes()
}
/// a PNG of one IDAT with stored data; checksums left zero
fn png(w: usize, h: usize, depth: u8, color: u8, extra: &[(&[u8; 4], Vec<u8>)], rows: &[u8]) -> Vec<u8> {
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut chunk = |k: &[u8], d: &[u8]| {
        o.extend_from_slice(&be32(d.len()));
        o.extend_from_slice(k);
        o.extend_from_slice(d);
        o.extend_from_slice(&[0; 4]);
    };
    let mut d = be32(w).to_vec();
    d.extend_from_slice(&be32(h));
    d.extend_from_slice(&[depth, color, 0, 0, 0]);
    chunk(b"IHDR", &d);
    for (k, d) in extra {
        chunk(&k[..], d);
    }
    let stored = |rows: &[u8]| {
        let mut z = vec![0x78, 1, 1];
        let n = rows.len() as u16;
        z.extend_from_slice(&n.to_le_bytes());
        z.extend_from_slice(&(!n).to_le_bytes());
        z.extend_from_slice(rows);
        z.extend_from_slice(&[0; 4]);
        z
    };
    chunk(b"IDAT", &stored(rows));
    chunk(b"IEND", &[]);
    o
}
fn le16(v: &[u16]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn jpeg_seg(o: &mut Vec<u8>, m: u8, b: &[u8]) {
    o.extend_from_slice(&[0xFF, m]);
    o.extend_from_slice(&(b.len() as u16 + 2).to_be_bytes());
    o.extend_from_slice(b);
}
/// 8x8 gray JPEG: a DC difference of three free bits
fn jpeg(icc: &[u8]) -> Vec<u8> {
    jpeg_exif(icc, &[])
}
fn jpeg_exif(icc: &[u8], exif: &[u8]) -> Vec<u8> {
    let mut o = vec![0xFF, 0xD8];
    if !exif.is_empty() {
        let mut b = b"Exif\0\0".to_vec();
        b.extend_from_slice(exif);
        jpeg_seg(&mut o, 0xE1, &b);
    }
    if !icc.is_empty() {
        let mut b = b"ICC_PROFILE\0\x01\x01".to_vec();
        b.extend_from_slice(icc);
        jpeg_seg(&mut o, 0xE2, &b);
    }
    let mut q = vec![0];
    q.extend_from_slice(&[8; 64]);
    jpeg_seg(&mut o, 0xDB, &q);
    let mut t = vec![0, 1];
    t.extend_from_slice(&[0; 15]);
    t.push(3);
    jpeg_seg(&mut o, 0xC4, &t);
    t[0] = 0x10;
    t[17] = 0;
    jpeg_seg(&mut o, 0xC4, &t);
    jpeg_seg(&mut o, 0xC0, &[8, 0, 8, 0, 8, 1, 1, 0x11, 0]);
    jpeg_seg(&mut o, 0xDA, &[1, 1, 0, 0, 63, 0]);
    o.push(u8v() & 0x70 | 7);
    o.extend_from_slice(&[0xFF, 0xD9]);
    o
}
/// icc profile as iCCP chunk: name, stored zlib
fn iccp(icc: &[u8]) -> Vec<u8> {
    let mut z = b"n\0\0".to_vec();
    z.extend_from_slice(&[0x78, 1, 1]);
    let n = icc.len() as u16;
    z.extend_from_slice(&n.to_le_bytes());
    z.extend_from_slice(&(!n).to_le_bytes());
    z.extend_from_slice(icc);
    let (mut a, mut b) = (1u32, 0u32);
    for x in icc {
        a += u32::from(*x);
        b += a;
    }
    // far below 65521 for these few bytes
    z.extend_from_slice(&(b << 16 | a).to_be_bytes());
    z
}
fn bmp(bits: u16, w: usize, h: usize) -> Vec<u8> {
    let pal = if bits == 8 { 8 } else { 0 };
    let row = (w * usize::from(bits) / 8 + 3) & !3;
    let off = 54 + pal;
    let mut o = b"BM".to_vec();
    o.extend_from_slice(&((off + row * h) as u32).to_le_bytes());
    o.extend_from_slice(&[0; 4]);
    o.extend_from_slice(&(off as u32).to_le_bytes());
    o.extend_from_slice(&40u32.to_le_bytes());
    o.extend_from_slice(&(w as u32).to_le_bytes());
    o.extend_from_slice(&(h as u32).to_le_bytes());
    o.extend_from_slice(&[1, 0, bits as u8, 0]);
    o.extend_from_slice(&[0; 16]);
    o.extend_from_slice(&(if bits == 8 { 2u32 } else { 0 }).to_le_bytes());
    o.extend_from_slice(&[0; 4]);
    if pal > 0 {
        o.extend_from_slice(&vec(8));
        for _ in 0..row * h {
            o.push(u8v() & 1);
        }
    } else {
        o.extend_from_slice(&vec(row * h));
    }
    o
}
/// the file of kind k: its bytes and the format it is in
fn sample(k: usize, icc: &[u8]) -> (Vec<u8>, ImageFormat) {
    use ImageFormat::*;
    let text = |s: &str, n: usize| {
        let mut o = s.as_bytes().to_vec();
        o.extend_from_slice(&vec(n));
        o
    };
    match k {
        0 => (text("P5\n3 2\n255\n", 6), PPM),
        1 => (text("P6\n2 2\n65535\n", 24), PPM),
        2 => (text("P7\nWIDTH 2\nHEIGHT 1\nDEPTH 2\nMAXVAL 255\nTUPLTYPE GRAYSCALE_ALPHA\nENDHDR\n", 4), PPM),
        3 => (text("PF\n1 2\n-1.0\n", 24), PPM),
        4 => {
            let mut o = b"qoif".to_vec();
            o.extend_from_slice(&be32(2));
            o.extend_from_slice(&be32(1));
            o.extend_from_slice(&[4, 0]);
            for _ in 0..2 {
                o.push(0xFF);
                o.extend_from_slice(&vec(4));
            }
            o.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 1]);
            (o, QOI)
        }
        5 => {
            let mut o = b"farbfeld".to_vec();
            o.extend_from_slice(&be32(2));
            o.extend_from_slice(&be32(2));
            o.extend_from_slice(&vec(32));
            (o, Farbfeld)
        }
        6 => {
            let mut o = b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y 1 +X 2\n".to_vec();
            for _ in 0..2 {
                o.extend_from_slice(&[2 + (u8v() & 127), u8v(), u8v(), 100 + u8v() % 60]);
            }
            (o, HDR)
        }
        7 => {
            let mut rows = vec(2 * 4);
            rows[0] = 0;
            rows[4] = 0;
            (png(1, 2, 8, 2, &[], &rows), PNG)
        }
        8 => {
            let mut rows = vec(2 * 9);
            rows[0] = 0;
            rows[9] = 0;
            (png(1, 2, 16, 6, &[], &rows), PNG)
        }
        9 => {
            let mut rows = vec(7);
            rows[0] = 0;
            let c = iccp(icc);
            (png(6, 1, 8, 0, &[(b"iCCP", c)], &rows), PNG)
        }
        10 => (bmp(24, 2, 2), BMP),
        11 => (bmp(32, 2, 1), BMP),
        12 => (bmp(8, 3, 2), BMP),
        13 | 14 => {
            let mut f = b"8BPS\0\x01".to_vec();
            f.extend_from_slice(&[0; 6]);
            f.extend_from_slice(&3u16.to_be_bytes());
            f.extend_from_slice(&be32(2));
            f.extend_from_slice(&be32(1));
            f.extend_from_slice(&[0, if k == 13 { 8 } else { 16 }, 0, 3]);
            f.extend_from_slice(&[0; 12]);
            f.extend_from_slice(&[0; 2]);
            f.extend_from_slice(&vec(6 * (k - 12)));
            (f, PSD)
        }
        _ => (jpeg(icc), JPEG),
    }
}
/// samples of an image as bytes, interleaved
fn flat(im: &Image) -> Vec<Vec<u8>> {
    match im.depth() {
        BitDepth::Eight => im.flatten_frames::<u8>(),
        BitDepth::Sixteen => im.flatten_frames::<u16>().iter().map(|x| x.iter().flat_map(|y| y.to_ne_bytes()).collect()).collect(),
        _ => im.flatten_frames::<f32>().iter().map(|x| x.iter().flat_map(|y| y.to_ne_bytes()).collect()).collect(),
    }
}
struct Direct {
    dims: (usize, usize),
    depth: BitDepth,
    space: ColorSpace,
    data: Vec<u8>,
}
fn result(r: DecodingResult) -> (BitDepth, Vec<u8>) {
    match r {
        DecodingResult::U8(v) => (BitDepth::Eight, v),
        DecodingResult::U16(v) => (BitDepth::Sixteen, v.iter().flat_map(|y| y.to_ne_bytes()).collect()),
        DecodingResult::F32(v) => (BitDepth::Float32, v.iter().flat_map(|y| y.to_ne_bytes()).collect()),
        _ => {
            check(false, 90);
            (BitDepth::Eight, vec![])
        }
    }
}
/// what the decoder itself gives
fn direct(f: &[u8], format: ImageFormat, o: DecoderOptions) -> Option<Direct> {
    use zune_image::codecs as c;
    let s = ZCursor::new(f);
    let (dims, space, (depth, data)) = match format {
        ImageFormat::PPM => {
            let mut d = c::ppm::PPMDecoder::new_with_options(s, o);
            let r = result(d.decode().ok()?);
            (d.dimensions()?, d.colorspace()?, r)
        }
        ImageFormat::QOI => {
            let mut d = c::qoi::QoiDecoder::new_with_options(s, o);
            let r = (BitDepth::Eight, d.decode().ok()?);
            (d.dimensions()?, d.colorspace()?, r)
        }
        ImageFormat::Farbfeld => {
            let mut d = c::farbfeld::FarbFeldDecoder::new_with_options(s, o);
            let r = result(DecodingResult::U16(d.decode().ok()?));
            (d.dimensions()?, d.colorspace(), r)
        }
        ImageFormat::HDR => {
            let mut d = c::hdr::HdrDecoder::new_with_options(s, o);
            let r = result(DecodingResult::F32(d.decode().ok()?));
            (d.dimensions()?, d.get_colorspace()?, r)
        }
        ImageFormat::PNG => {
            let mut d = c::png::PngDecoder::new_with_options(s, o);
            let r = result(d.decode().ok()?);
            (d.dimensions()?, d.colorspace()?, r)
        }
        ImageFormat::BMP => {
            let mut d = c::bmp::BmpDecoder::new_with_options(s, o);
            let r = (BitDepth::Eight, d.decode().ok()?);
            (d.dimensions()?, d.colorspace()?, r)
        }
        ImageFormat::PSD => {
            let mut d = c::psd::PSDDecoder::new_with_options(s, o);
            let r = result(d.decode().ok()?);
            (d.dimensions()?, d.colorspace()?, r)
        }
        _ => {
            let mut d = c::jpeg::JpegDecoder::new_with_options(s, o);
            let r = (BitDepth::Eight, d.decode().ok()?);
            (d.dimensions()?, d.output_colorspace()?, r)
        }
    };
    Some(Direct { dims, depth, space, data })
}
fn same_as(im: &Image, want: &Direct, id: u64) {
    check(im.dimensions() == want.dims, id);
    check(im.depth() == want.depth, id + 1);
    check(im.colorspace() == want.space, id + 2);
    check(im.frames_len() == 1, id + 3);
    let mut ok = true;
    for c in im.channels_ref(false) {
        ok &= c.len() == want.dims.0 * want.dims.1 * want.depth.size_of();
    }
    check(ok, id + 4);
    check(im.channels_ref(false).len() == want.space.num_components(), id + 5);
    if im.depth() == want.depth && ok {
        check_eq(&flat(im)[0], &want.data, id + 6);
    }
}
/// args: file kind, options (1: strip to 8 bit, 2: add alpha, 4: luma out, 8: strict)
#[no_mangle]
pub extern "C" fn load() {
    let (k, flags) = (arg(0), arg(1));
    let icc = vec(3);
    let (f, format) = sample(k, &icc);
    let o = DecoderOptions::default()
        .png_set_strip_to_8bit(flags & 1 != 0)
        .png_set_add_alpha_channel(flags & 2 != 0)
        .jpeg_set_out_colorspace(if flags & 4 != 0 { ColorSpace::Luma } else { ColorSpace::RGB })
        .set_byte_endian(ByteEndian::LE);
    let want = direct(&f, format, o);
    check(want.is_some(), 1);
    let Some(want) = want else { return };
    let has_icc = k == 9 || k >= 15;
    let meta = |im: &Image, id: u64| {
        check(im.metadata().image_format() == Some(format), id);
        if has_icc {
            check(im.metadata().icc_chunk() == Some(&icc), id + 1);
        } else {
            check(im.metadata().icc_chunk().is_none(), id + 1);
        }
    };
    match arg(2) {
        // through Image::read
        0 => match Image::read(ZCursor::new(&f[..]), o) {
            Ok(im) => {
                same_as(&im, &want, 10);
                meta(&im, 20);
                // and it is fit for operations
                check(Keep.clone_and_execute(&im).is_ok(), 22);
            }
            Err(_) => check(false, 3),
        },
        // from a decoder chosen by hand
        1 => {
            let mut d = match format.decoder_with_options(ZCursor::new(&f[..]), o) {
                Ok(d) => d,
                Err(_) => {
                    check(false, 4);
                    return;
                }
            };
            match d.decode() {
                Ok(im) => {
                    same_as(&im, &want, 30);
                    meta(&im, 40);
                    check(d.dimensions() == Some(want.dims), 42);
                    check(d.out_colorspace() == want.space, 43);
                }
                Err(_) => check(false, 5),
            }
        }
        // headers only, then the picture
        _ => {
            let Ok(mut d) = format.decoder_with_options(ZCursor::new(&f[..]), o) else {
                check(false, 6);
                return;
            };
            match d.read_headers() {
                Ok(Some(m)) => {
                    check(m.dimensions() == want.dims, 50);
                    check(m.image_format() == Some(format), 51);
                    check(m.depth() == want.depth, 52);
                    if format != ImageFormat::JPEG {
                        check(m.colorspace() == want.space, 53);
                    }
                    check(m.icc_chunk().is_some() == has_icc, 54);
                }
                _ => check(false, 7),
            }
            match d.decode() {
                Ok(im) => same_as(&im, &want, 60),
                Err(_) => check(false, 8),
            }
        }
    }
    reach(1);
}
/// a frame of an animation: x, y, w, h, disposal, blending
struct Part(usize, usize, usize, usize, u8, u8);
/// animations of a 3x2 canvas; args: which, colour type, default image apart; pixels blended over are opaque or clear
#[no_mangle]
pub extern "C" fn animation() {
    let (w, h) = (3, 2);
    let all: [&[Part]; 8] = [
        &[Part(0, 0, 3, 2, 0, 0), Part(1, 1, 2, 1, 0, 0), Part(0, 0, 1, 1, 0, 0)],
        &[Part(0, 0, 3, 2, 0, 0), Part(1, 0, 2, 1, 1, 0), Part(0, 1, 1, 1, 0, 0)],
        &[Part(0, 0, 3, 2, 0, 0), Part(1, 0, 1, 2, 2, 0), Part(0, 1, 3, 1, 0, 0)],
        &[Part(0, 0, 3, 2, 1, 0), Part(1, 0, 2, 2, 0, 1), Part(0, 1, 2, 1, 0, 1)],
        &[Part(0, 0, 3, 2, 2, 0), Part(2, 0, 1, 2, 0, 0)],
        &[Part(0, 0, 3, 2, 0, 0), Part(0, 0, 2, 2, 2, 1), Part(1, 1, 2, 1, 1, 1), Part(0, 0, 1, 2, 0, 1)],
        &[Part(0, 0, 3, 2, 0, 1)],
        &[Part(0, 0, 3, 2, 1, 1), Part(0, 0, 3, 2, 1, 1)],
    ];
    let parts = all[arg(0)];
    let color = arg(1) as u8;
    let nc = [1, 0, 3, 0, 2, 0, 4][arg(1)];
    let has_alpha = color >= 4;
    // the default image is not part of the animation
    let apart = arg(2) == 1;
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut chunk = |k: &[u8], d: &[u8]| {
        o.extend_from_slice(&be32(d.len()));
        o.extend_from_slice(k);
        o.extend_from_slice(d);
        o.extend_from_slice(&[0; 4]);
    };
    let mut d = be32(w).to_vec();
    d.extend_from_slice(&be32(h));
    d.extend_from_slice(&[8, color, 0, 0, 0]);
    chunk(b"IHDR", &d);
    let mut d = be32(parts.len()).to_vec();
    d.extend_from_slice(&be32(0));
    chunk(b"acTL", &d);
    let mut seq = 0;
    // the canvas, and what is shown
    let mut canvas = vec![0u8; w * h * nc];
    let mut shown = vec![];
    if apart {
        let mut z = vec![0x78, 1, 1, (h * (w * nc + 1)) as u8, 0, !((h * (w * nc + 1)) as u8), 255];
        z.extend_from_slice(&vec![0; h * (w * nc + 1)]);
        z.extend_from_slice(&[0; 4]);
        chunk(b"IDAT", &z);
    }
    for (i, p) in parts.iter().enumerate() {
        let mut d = be32(seq).to_vec();
        seq += 1;
        for v in [p.2, p.3, p.0, p.1] {
            d.extend_from_slice(&be32(v));
        }
        d.extend_from_slice(&[0, 7, 0, 3, p.4, p.5]);
        chunk(b"fcTL", &d);
        let before = canvas.clone();
        let n = p.3 * (p.2 * nc + 1);
        let mut z = vec![0x78, 1, 1, n as u8, 0, !(n as u8), 255];
        for y in 0..p.3 {
            z.push(0);
            for x in 0..p.2 {
                let mut px = vec(nc);
                if has_alpha && p.5 == 1 {
                    px[nc - 1] = (choice(2) * 255) as u8;
                }
                let at = ((p.1 + y) * w + p.0 + x) * nc;
                if p.5 == 0 || !has_alpha || px[nc - 1] == 255 {
                    canvas[at..at + nc].copy_from_slice(&px);
                }
                z.extend_from_slice(&px);
            }
        }
        z.extend_from_slice(&[0; 4]);
        if i == 0 && !apart {
            chunk(b"IDAT", &z);
        } else {
            let mut d = be32(seq).to_vec();
            seq += 1;
            d.extend_from_slice(&z);
            chunk(b"fdAT", &d);
        }
        shown.push(canvas.clone());
        match p.4 {
            0 => {}
            2 if i > 0 => canvas = before,
            _ => {
                for y in 0..p.3 {
                    let at = ((p.1 + y) * w + p.0) * nc;
                    canvas[at..at + p.2 * nc].fill(0);
                }
            }
        }
    }
    chunk(b"IEND", &[]);
    match Image::read(ZCursor::new(&o[..]), DecoderOptions::default()) {
        Ok(im) => {
            check(im.frames_len() == shown.len(), 1);
            check(im.dimensions() == (w, h), 2);
            let got = flat(&im);
            for (i, s) in shown.iter().enumerate() {
                if i < got.len() {
                    check_eq(&got[i], s, 10 + i as u64);
                }
            }
            reach(1);
        }
        Err(_) => check(false, 3),
    }
}
/// an operation that changes nothing
struct Keep;
impl OperationsTrait for Keep {
    fn name(&self) -> &'static str {
        "keep"
    }
    fn execute_impl(&self, _: &mut Image) -> Result<(), ImageErrors> {
        Ok(())
    }
    fn supported_types(&self) -> &'static [BitType] {
        &[BitType::U8, BitType::U16, BitType::F32]
    }
}
/// a picture is read exactly if it is within the limits of width and height
#[no_mangle]
pub extern "C" fn limits() {
    let (f, format) = sample(arg(0), &[1, 2, 3][..]);
    let plain = DecoderOptions::default();
    let Some(want) = direct(&f, format, plain) else {
        check(false, 1);
        return;
    };
    let (mw, mh) = (u64v() as usize, u64v() as usize);
    let o = plain.set_max_width(mw).set_max_height(mh);
    let fits = (want.dims.0 <= mw) & (want.dims.1 <= mh);
    match Image::read(ZCursor::new(&f[..]), o) {
        Ok(im) => {
            check(fits, 2);
            check(im.dimensions() == want.dims, 3);
            reach(1);
        }
        Err(_) => {
            check(!fits, 4);
            reach(2);
        }
    }
}
/// every file of kind arg(0) cut off anywhere (arg(2) 1), or with one of the 16 bytes from arg(1) on free (arg(2) 0), never panics in Image::read
#[no_mangle]
pub extern "C" fn damaged() {
    let (mut f, _) = sample(arg(0), &[1, 2, 3][..]);
    // every place at once, or the sixteen from arg(1) on
    let at = match arg(2) {
        1 => choice(f.len()),
        _ => (arg(1) + choice(16)).min(f.len() - 1),
    };
    if arg(2) == 1 {
        f.truncate(at);
    } else {
        f[at] = u8v();
    }
    let o = DecoderOptions::default().set_max_width(16).set_max_height(16);
    match Image::read(ZCursor::new(&f[..]), o) {
        Ok(im) => {
            let (w, h) = im.dimensions();
            check(w <= 16 && h <= 16, 1);
            let mut ok = true;
            for c in im.channels_ref(false) {
                ok &= c.len() == w * h * im.depth().size_of();
            }
            check(ok, 2);
            reach(1);
        }
        Err(_) => reach(2),
    }
}

harnesses!(guess, load, animation, limits, damaged, save, save_jpeg, encoded, extension, encoder_opts, decoder_opts, execute, pipeline, orient, keep_exif);
