//! images saved as JPEG XL
#[path = "../../jxl/src/read.rs"]
mod read;
use symrt::*;
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_core::options::EncoderOptions;
use zune_image::codecs::ImageFormat;
use zune_image::image::Image;

const SPACES: [ColorSpace; 6] =
    [ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::BGR, ColorSpace::BGRA];

fn image(w: usize, h: usize, cs: ColorSpace, d: usize, frames: usize, free: usize) -> Image {
    let n = w * h * cs.num_components();
    let one = |f: usize| {
        let known = |i: usize| ((i + 13 * f) as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        match d {
            0 => Image::from_u8(&(0..n).map(|i| (known(i) >> 56) as u8 ^ if n - 1 - i < free { u8v() & 9 } else { 0 }).collect::<Vec<_>>(), w, h, cs),
            1 => Image::from_u16(&(0..n).map(|i| (known(i) >> 48) as u16 ^ if n - 1 - i < free { u16v() & 0x401 } else { 0 }).collect::<Vec<_>>(), w, h, cs),
            // sixteenths, exact in every depth's arithmetic
            _ => {
                let v = |i: usize| if n - 1 - i < free { f32::from(u8v() & 3) / 16.0 } else { (known(i) >> 60) as f32 / 16.0 };
                Image::from_f32(&(0..n).map(v).collect::<Vec<_>>(), w, h, cs)
            }
        }
    };
    let all: Vec<Image> = (0..frames).map(|f| one(f)).collect();
    let f = all.iter().map(|x| x.frames_ref()[0].clone()).collect();
    Image::new_frames(f, all[0].depth(), w, h, cs)
}
/// args: colour space, depth, w, h, frames, samples with free bits. A saved image has the samples the format can hold
#[no_mangle]
#[inline(never)]
pub extern "C" fn saved() {
    let (cs, w, h) = (SPACES[arg(0)], arg(2), arg(3));
    let im = image(w, h, cs, arg(1), arg(4), arg(5));
    let depth = im.depth();
    let Ok(out) = im.write_to_vec(ImageFormat::JPEG_XL) else {
        check(false, 1);
        return;
    };
    check(im.colorspace() == cs && im.depth() == depth && im.dimensions() == (w, h), 2);
    let plain = match cs {
        ColorSpace::BGR => ColorSpace::RGB,
        ColorSpace::BGRA => ColorSpace::RGB,
        x => x,
    };
    let kept = if depth == BitDepth::Eight { BitDepth::Eight } else { BitDepth::Sixteen };
    let mut want = Image::new(im.frames_ref()[0].channels_vec_ref().to_vec(), depth, w, h, cs);
    check(plain == cs || want.convert_color(plain).is_ok(), 3);
    check(kept == depth || want.convert_depth(kept).is_ok(), 4);
    let bits = if kept == BitDepth::Eight { 8 } else { 16 };
    let px: Vec<u16> = if bits == 8 {
        want.flatten_frames::<u8>().concat().iter().map(|x| *x as u16).collect()
    } else {
        want.flatten_frames::<u16>().concat()
    };
    let (v, colour, alpha) = read::decode(&out, w, h, plain);
    check(colour == bits, 5);
    check(!plain.has_alpha() || alpha == bits, 6);
    check(v.len() == px.len(), 7);
    for (v, x) in v.iter().zip(&px) {
        check(*v == *x as i32, 7);
    }
    if arg(5) > 0 {
        reach(1);
        return;
    }
    // the count is the length, and options of another image are corrected
    let o = EncoderOptions::new(9, 7, ColorSpace::BGR, BitDepth::Float32);
    let mut sink = vec![];
    match ImageFormat::JPEG_XL.encode(&im, o, &mut sink) {
        Ok(n) => {
            check(n == sink.len(), 8);
            check_eq(&sink, &out, 9);
        }
        Err(_) => check(false, 10),
    }
    reach(1);
}
/// args: w, h. What the format's encoder does not take is an error
#[no_mangle]
#[inline(never)]
pub extern "C" fn too_small() {
    let im = image(arg(0), arg(1), SPACES[choice(6)], choice(3), 1, 0);
    check(im.write_to_vec(ImageFormat::JPEG_XL).is_err(), 1);
    reach(1);
}
harnesses!(saved, too_small);
