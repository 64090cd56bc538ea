use crate::*;

const SPACES: [ColorSpace; 6] = [
    ColorSpace::Luma,
    ColorSpace::LumaA,
    ColorSpace::RGB,
    ColorSpace::RGBA,
    ColorSpace::BGR,
    ColorSpace::CMYK,
];
const FORMATS: [ImageFormat; 5] =
    [ImageFormat::PPM, ImageFormat::QOI, ImageFormat::Farbfeld, ImageFormat::PNG, ImageFormat::HDR];

/// what the format stores for an image of this colour space and depth
fn stored(f: ImageFormat, cs: ColorSpace, d: BitDepth) -> (ColorSpace, BitDepth) {
    let alpha = cs == ColorSpace::LumaA || cs == ColorSpace::RGBA;
    let plain = cs == ColorSpace::Luma || cs == ColorSpace::LumaA || cs == ColorSpace::RGB || cs == ColorSpace::RGBA;
    let d16 = if d == BitDepth::Eight { BitDepth::Eight } else { BitDepth::Sixteen };
    match f {
        ImageFormat::PPM | ImageFormat::PNG => (if plain { cs } else { ColorSpace::RGB }, d16),
        ImageFormat::QOI => (if alpha { ColorSpace::RGBA } else { ColorSpace::RGB }, BitDepth::Eight),
        ImageFormat::Farbfeld => (ColorSpace::RGBA, BitDepth::Sixteen),
        _ => (ColorSpace::RGB, BitDepth::Float32),
    }
}
fn image(w: usize, h: usize, cs: ColorSpace, d: usize, frames: usize) -> Image {
    let n = w * h * cs.num_components();
    let one = || match d {
        0 => Image::from_u8(&(0..n).map(|_| u8v()).collect::<Vec<_>>(), w, h, cs),
        1 => Image::from_u16(&(0..n).map(|_| u16v()).collect::<Vec<_>>(), w, h, cs),
        // the HDR encoder takes powers of its samples: fixed ones
        3 => Image::from_f32(&(0..n).map(|i| [0.25, 1.0, 0.0, 0.75][(i + choice(2)) % 4]).collect::<Vec<_>>(), w, h, cs),
        // sixteenths, exact in every depth's arithmetic
        _ => Image::from_f32(&(0..n).map(|_| f32::from(u8v() & 15) / 16.0).collect::<Vec<_>>(), w, h, cs),
    };
    if frames == 1 {
        return one();
    }
    let all: Vec<Image> = (0..frames).map(|_| one()).collect();
    let f = all.iter().map(|x| x.frames_ref()[0].clone()).collect();
    Image::new_frames(f, all[0].depth(), w, h, cs)
}
/// args: format, colour space, depth, w, h, frames. Saved and read back, an image has the samples the format can hold
#[no_mangle]
pub extern "C" fn save() {
    let (format, cs, d) = (FORMATS[arg(0)], SPACES[arg(1)], arg(2));
    let (w, h) = (arg(3), arg(4));
    let im = image(w, h, cs, d, arg(5));
    let depth = im.depth();
    let before = flat(&im);
    check(format.has_encoder(), 1);
    let Ok(out) = im.write_to_vec(format) else {
        check(false, 2);
        return;
    };
    // the image itself is not touched
    check(im.colorspace() == cs && im.depth() == depth && im.dimensions() == (w, h), 3);
    let after = flat(&im);
    check(after.len() == before.len(), 4);
    check_eq(&after.concat(), &before.concat(), 5);
    // the count is the length
    let mut sink = vec![];
    match im.encode(format, &mut sink) {
        Ok(n) => {
            check(n == sink.len(), 6);
            check_eq(&sink, &out, 7);
        }
        Err(_) => check(false, 8),
    }
    // options that describe another image are corrected, those of other formats do not matter
    let o = EncoderOptions::new(9, 7, ColorSpace::BGR, BitDepth::Float32)
        .set_quality(3)
        .set_effort(1)
        .set_num_threads(1)
        .set_jpeg_encode_progressive(true)
        .set_strip_metadata(true);
    let mut sink = vec![];
    match format.encode(&im, o, &mut sink) {
        Ok(n) => {
            check(n == sink.len(), 20);
            check_eq(&sink, &out, 21);
        }
        Err(_) => check(false, 22),
    }
    let (ws, wd) = stored(format, cs, depth);
    let mut want = Image::new(im.frames_ref()[0].channels_vec_ref().to_vec(), depth, w, h, cs);
    check(ws == cs || want.convert_color(ws).is_ok(), 9);
    check(wd == depth || want.convert_depth(wd).is_ok(), 10);
    let want = flat(&want);
    if format == ImageFormat::HDR {
        let v: Vec<f32> = want[0].chunks(4).map(|b| f32::from_ne_bytes([b[0], b[1], b[2], b[3]])).collect();
        let o = EncoderOptions::new(w, h, ws, wd);
        let mut plain = vec![];
        check(zune_hdr::HdrEncoder::new(&v, o).encode(&mut plain).is_ok(), 11);
        check_eq(&out, &plain, 12);
        reach(1);
        return;
    }
    match Image::read(ZCursor::new(&out[..]), DecoderOptions::default()) {
        Ok(back) => {
            check(back.dimensions() == (w, h), 13);
            check(back.colorspace() == ws, 14);
            check(back.depth() == wd, 15);
            check(back.metadata().image_format() == Some(format), 16);
            if back.colorspace() == ws && back.depth() == wd {
                check_eq(&flat(&back)[0], &want[0], 17);
            }
            reach(1);
        }
        Err(_) => check(false, 18),
    }
}

fn has_sof(f: &[u8], kind: u8) -> bool {
    let mut i = 2;
    while i + 4 <= f.len() {
        if f[i] != 0xFF || f[i + 1] == 0xDA {
            return false;
        }
        if f[i + 1] == kind {
            return true;
        }
        i += 2 + usize::from(f[i + 2]) * 256 + usize::from(f[i + 3]);
    }
    false
}
/// args: colour space, depth, progressive, w, h. A JPEG of one colour keeps that colour
#[no_mangle]
pub extern "C" fn save_jpeg() {
    let cs = [ColorSpace::Luma, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::LumaA, ColorSpace::BGR, ColorSpace::CMYK][arg(0)];
    let (w, h) = (arg(3), arg(4));
    let v: Vec<u8> = (0..cs.num_components()).map(|i| if i == arg(5) { u8v() } else { 200 - 50 * i as u8 }).collect();
    let n = w * h;
    let im = match arg(1) {
        0 => Image::from_u8(&(0..n).flat_map(|_| v.clone()).collect::<Vec<_>>(), w, h, cs),
        1 => Image::from_u16(&(0..n).flat_map(|_| v.iter().map(|x| u16::from(*x) * 257).collect::<Vec<_>>()).collect::<Vec<_>>(), w, h, cs),
        _ => Image::from_f32(&(0..n).flat_map(|_| v.iter().map(|x| f32::from(*x) / 255.0).collect::<Vec<_>>()).collect::<Vec<_>>(), w, h, cs),
    };
    let o = EncoderOptions::default().set_quality(100).set_jpeg_encode_progressive(arg(2) == 1);
    let mut e = zune_image::codecs::jpeg::JpegEncoder::new_with_options(o);
    let mut f = vec![];
    match e.encode(&im, &mut f) {
        Ok(k) => check(k == f.len(), 1),
        Err(_) => {
            check(false, 2);
            return;
        }
    }
    check(has_sof(&f, if arg(2) == 1 { 0xC2 } else { 0xC0 }), 3);
    match e.encode_to_result(&im) {
        Ok(r) => {
            check(r.format() == ImageFormat::JPEG, 4);
            check_eq(r.data(), &f, 5);
        }
        Err(_) => check(false, 6),
    }
    let mut sink = vec![];
    match ImageFormat::JPEG.encode(&im, o, &mut sink) {
        Ok(n) => {
            check(n == sink.len(), 11);
            check_eq(&sink, &f, 12);
        }
        Err(_) => check(false, 13),
    }
    let out = if cs == ColorSpace::Luma { ColorSpace::Luma } else if cs == ColorSpace::CMYK { ColorSpace::CMYK } else { ColorSpace::RGB };
    let mut want: Vec<i32> = v.iter().map(|x| i32::from(*x)).collect();
    match cs {
        ColorSpace::BGR => want.reverse(),
        ColorSpace::LumaA => want = vec![want[0]; 3],
        _ => want.truncate(out.num_components()),
    }
    match Image::read(ZCursor::new(&f[..]), DecoderOptions::default().jpeg_set_out_colorspace(out)) {
        Ok(b) => {
            check(b.dimensions() == (w, h) && b.colorspace() == out, 7);
            let p = b.flatten_frames::<u8>();
            let mut ok = p[0].len() == n * out.num_components();
            check(ok, 8);
            for (i, x) in p[0].iter().enumerate() {
                let d = i32::from(*x) - want[i % want.len()];
                ok &= (d <= 3) & (d >= -3);
            }
            check(ok, 9);
            reach(1);
        }
        Err(_) => check(false, 10),
    }
}
/// args: format. The encoder object gives the same bytes as writing to a sink
#[no_mangle]
pub extern "C" fn encoded() {
    use zune_image::codecs as c;
    let im = image(2, 1, ColorSpace::RGBA, 1, arg(1));
    let f = FORMATS[arg(0)];
    let r = match f {
        ImageFormat::PPM => c::ppm::PPMEncoder::new().encode_to_result(&im),
        ImageFormat::QOI => c::qoi::QoiEncoder::new().encode_to_result(&im),
        ImageFormat::Farbfeld => c::farbfeld::FarbFeldEncoder::new().encode_to_result(&im),
        ImageFormat::PNG => c::png::PngEncoder::new().encode_to_result(&im),
        _ => c::hdr::HdrEncoder::new().encode_to_result(&im),
    };
    let (Ok(r), Ok(v)) = (r, im.write_to_vec(f)) else {
        check(false, 1);
        return;
    };
    check(r.format() == f, 2);
    check_eq(r.data(), &v, 3);
    reach(1);
}

/// names of files to formats
#[no_mangle]
pub extern "C" fn extension() {
    let names = [
        ("qoi", ImageFormat::QOI), ("ppm", ImageFormat::PPM), ("pam", ImageFormat::PPM), ("pgm", ImageFormat::PPM),
        ("pbm", ImageFormat::PPM), ("pfm", ImageFormat::PPM), ("jpeg", ImageFormat::JPEG), ("jpg", ImageFormat::JPEG),
        ("ff", ImageFormat::Farbfeld), ("hdr", ImageFormat::HDR), ("png", ImageFormat::PNG),
    ];
    let n = arg(0);
    let v = vec(n);
    let mut ascii = true;
    for x in &v {
        ascii &= *x < 128;
    }
    assume(ascii);
    let mut want = None;
    for (k, f) in names {
        let mut same = k.len() == n;
        for (a, b) in k.bytes().zip(&v) {
            same &= a == *b;
        }
        if same {
            want = Some(f);
        }
    }
    let got = ImageFormat::encoder_for_extension(std::str::from_utf8(&v).unwrap());
    let jxl = n == 3 && v[0] == b'j' && v[1] == b'x' && v[2] == b'l';
    check(got == want || jxl, 1);
    if let Some(f) = got {
        check(f.has_encoder(), 2);
        reach(1);
    }
}
