//! the C interface against the Rust one. Its crate builds no Rust library, so its sources are modules here
#![allow(dead_code)]
#[path = "/repo/crates/zune-capi/src/enums.rs"]
mod enums;
#[path = "/repo/crates/zune-capi/src/errno.rs"]
mod errno;
#[path = "/repo/crates/zune-capi/src/image.rs"]
mod image;
#[path = "/repo/crates/zune-capi/src/improc.rs"]
mod improc;
#[path = "/repo/crates/zune-capi/src/imread.rs"]
mod imread;
#[path = "/repo/crates/zune-capi/src/structs.rs"]
mod structs;
#[path = "/repo/crates/zune-capi/src/utils.rs"]
mod utils;
pub type ZImage = zune_image::image::Image;

use enums::*;
use errno::*;
use std::ptr::{null, null_mut};
use symrt::*;
use zune_core::bit_depth::BitDepth;
use zune_core::bytestream::ZCursor;
use zune_core::colorspace::ColorSpace;
use zune_core::options::DecoderOptions;
use zune_image::codecs::ImageFormat;
use zune_image::core_filters::colorspace::ColorspaceConv;
use zune_image::core_filters::depth::Depth;
use zune_image::traits::OperationsTrait;
use zune_imageprocs as p;

extern "C" {
    fn zil_zimg_width(image: *mut ZImage, status: *mut ZStatus) -> usize;
    fn zil_zimg_height(image: *mut ZImage, status: *mut ZStatus) -> usize;
    fn zil_zimg_depth(image: *mut ZImage, status: *mut ZStatus) -> ZImageDepth;
    fn zil_zimg_colorspace(image: *mut ZImage, status: *mut ZStatus) -> ZImageColorspace;
    fn zil_zimg_get_out_buffer_size(image: *mut ZImage, status: *mut ZStatus) -> usize;
    fn zil_zimg_clone(image: *const ZImage) -> *mut ZImage;
}
const SPACES: [ColorSpace; 8] = [
    ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA,
    ColorSpace::BGR, ColorSpace::BGRA, ColorSpace::ARGB, ColorSpace::YCbCr,
];
const DEPTHS: [BitDepth; 3] = [BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32];

fn native(im: &ZImage) -> Vec<u8> {
    match im.depth() {
        BitDepth::Eight => im.flatten_frames::<u8>()[0].clone(),
        BitDepth::Sixteen => im.flatten_frames::<u16>()[0].iter().flat_map(|x| x.to_ne_bytes()).collect(),
        _ => im.flatten_frames::<f32>()[0].iter().flat_map(|x| x.to_ne_bytes()).collect(),
    }
}
fn code(s: *mut ZStatus) -> i32 {
    zil_status_code(s) as i32
}
/// samples as a C caller has them: n of them, aligned
fn samples(d: usize, n: usize) -> (Vec<u8>, Vec<u16>, Vec<f32>) {
    match d {
        0 => ((0..n).map(|_| u8v()).collect(), vec![], vec![]),
        1 => (vec![], (0..n).map(|_| u16v()).collect(), vec![]),
        _ => (vec![], vec![], (0..n).map(|_| f32::from(u8v()) / 256.0).collect()),
    }
}
fn make(s: &(Vec<u8>, Vec<u16>, Vec<f32>), d: usize, len: usize, w: usize, h: usize, cs: ColorSpace) -> *mut ZImage {
    let c = ZImageColorspace::from(cs);
    match d {
        0 => image::zil_zimg_from_u8(s.0.as_ptr(), len, w, h, c),
        1 => image::zil_zimg_from_u16(s.1.as_ptr(), len, w, h, c),
        _ => image::zil_zimg_from_f32(s.2.as_ptr(), len, w, h, c),
    }
}
/// args: colour space, depth, w, h, samples beyond the picture's, is the buffer larger. Samples in are samples out
#[no_mangle]
#[inline(never)]
pub extern "C" fn c_images() {
    let (cs, d, w, h, extra) = (SPACES[arg(0)], arg(1), arg(2), arg(3), arg(4));
    let n = w * h * cs.num_components();
    let s = samples(d, n + extra);
    let before = live();
    let im = make(&s, d, n + extra, w, h, cs);
    check(!im.is_null(), 1);
    unsafe {
        let st = zil_status_new();
        check(!st.is_null() && zil_status_ok(st), 2);
        check(zil_zimg_width(im, st) == w && zil_zimg_height(im, st) == h, 3);
        check(zil_zimg_depth(im, st).to_depth() == DEPTHS[d], 4);
        check(zil_zimg_colorspace(im, st).to_colorspace() == cs, 5);
        let size = n * DEPTHS[d].size_of();
        check(zil_zimg_get_out_buffer_size(im, st) == size, 6);
        let want: Vec<u8> = match d {
            0 => s.0[..n].to_vec(),
            1 => s.1[..n].iter().flat_map(|x| x.to_ne_bytes()).collect(),
            _ => s.2[..n].iter().flat_map(|x| x.to_ne_bytes()).collect(),
        };
        let copy = zil_zimg_clone(im);
        check(!copy.is_null(), 7);
        // the copy does not change with the picture
        let other = zil_status_new();
        improc::zil_imgproc_transpose(im, other);
        improc::zil_imgproc_invert(im, other);
        zil_status_free(other);
        let mut out = vec![0u32; size / 4 + 4];
        let bytes = std::slice::from_raw_parts_mut(out.as_mut_ptr().cast::<u8>(), size + 8);
        bytes.fill(0xA5);
        check(image::zil_zimg_write_to_output(copy, bytes.as_mut_ptr(), size + 8 * arg(5), st) == size, 9);
        check(zil_status_ok(st), 10);
        check_eq(&bytes[..size], &want, 11);
        check(bytes[size..].iter().all(|x| *x == 0xA5), 12);
        // a buffer that does not hold it
        bytes.fill(0xA5);
        let small = choice(size);
        check(image::zil_zimg_write_to_output(copy, bytes.as_mut_ptr(), small, st) == 0, 13);
        check(!zil_status_ok(st), 14);
        check(bytes.iter().all(|x| *x == 0xA5), 18);
        // no picture in it
        let none = image::zil_zimg_new();
        check(zil_zimg_get_out_buffer_size(none, st) == 0, 8);
        check(image::zil_zimg_write_to_output(none, bytes.as_mut_ptr(), size, st) == 0, 19);
        check(!zil_status_ok(st), 20);
        image::zil_zimg_free(none);
        drop(out);
        image::zil_zimg_free(copy);
        image::zil_zimg_free(im);
        zil_status_free(st);
        drop(want);
    }
    // everything is given back
    check(live() == before, 21);
    // fewer samples than the picture has, or more than memory
    check(make(&s, d, n - 1, w, h, cs).is_null(), 15);
    check(make(&s, d, n, usize::MAX / 2 + 1, h + 1, cs).is_null(), 16);
    check(make(&s, d, n, w, h, ColorSpace::Unknown).is_null(), 17);
    reach(1);
}
/// no image, and no status
#[no_mangle]
#[inline(never)]
pub extern "C" fn c_null() {
    unsafe {
        check(!zil_status_ok(null()) && zil_status_message(null()).is_null(), 1);
        check(zil_status_code(null()) == ZStatusType::ZilNullStatus, 2);
        zil_status_free(null_mut());
        image::zil_zimg_free(null_mut());
        check(zil_zimg_clone(null()).is_null(), 3);
        let n: *mut ZImage = null_mut();
        let which = choice(10);
        for st in [null_mut(), zil_status_new()] {
            let mut out = [0xA5u8; 8];
            match which {
                0 => check(zil_zimg_width(n, st) == 0, 4),
                1 => check(zil_zimg_height(n, st) == 0, 5),
                2 => check(zil_zimg_depth(n, st).to_depth() == BitDepth::Unknown, 6),
                3 => check(zil_zimg_colorspace(n, st).to_colorspace() == ColorSpace::Unknown, 7),
                4 => check(zil_zimg_get_out_buffer_size(n, st) == 0, 8),
                5 => check(image::zil_zimg_write_to_output(n, out.as_mut_ptr(), 8, st) == 0, 9),
                6 => image::zil_zimg_read_from_memory(out.as_ptr(), 8, n, st),
                7 => improc::zil_imgproc_invert(n, st),
                8 => improc::zil_imgproc_blend(n, n, 0.5, st),
                _ => improc::zil_imgproc_crop(n, 1, 1, 0, 0, st),
            }
            check(out == [0xA5; 8], 10);
            if !st.is_null() {
                check(code(st) == ZStatusType::ZilImageIsNull as i32, 11);
                check(!zil_status_message(st).is_null(), 12);
                zil_status_free(st);
            }
        }
    }
    reach(1);
}
/// every space, depth and format survives the way to C and back
#[no_mangle]
#[inline(never)]
pub extern "C" fn c_enums() {
    let all = [
        ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::BGR, ColorSpace::BGRA,
        ColorSpace::ARGB, ColorSpace::YCbCr, ColorSpace::YCCK, ColorSpace::CMYK, ColorSpace::HSL, ColorSpace::HSV, ColorSpace::Unknown,
    ];
    let c = all[choice(13)];
    check(ZImageColorspace::from(c).to_colorspace() == c, 1);
    let d = [BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32, BitDepth::Unknown][choice(4)];
    check(ZImageDepth::from(d).to_depth() == d, 2);
    let f = [
        ImageFormat::JPEG, ImageFormat::PNG, ImageFormat::PPM, ImageFormat::PSD, ImageFormat::Farbfeld,
        ImageFormat::QOI, ImageFormat::JPEG_XL, ImageFormat::HDR, ImageFormat::BMP, ImageFormat::Unknown,
    ][choice(10)];
    check(ZImageFormat::from(f).to_format() == f, 3);
    reach(1);
}
/// args: operation, colour space, depth, w, h. An operation does what it does in Rust
#[no_mangle]
#[inline(never)]
pub extern "C" fn c_ops() {
    let (op, cs, d, w, h) = (arg(0), SPACES[arg(1)], arg(2), arg(3), arg(4));
    let n = w * h * cs.num_components();
    let s = samples(d, n);
    let im = make(&s, d, n, w, h, cs);
    check(!im.is_null(), 1);
    unsafe {
        let mut want = (*im).clone();
        let st = zil_status_new();
        use improc::*;
        let r = match op {
            0 => {
                zil_imgproc_adjust_contrast(im, 40.0, st);
                p::contrast::Contrast::new(40.0).execute(&mut want)
            }
            1 => {
                zil_imgproc_exposure(im, 2.0, 0.25, st);
                p::exposure::Exposure::new(2.0, 0.25).execute(&mut want)
            }
            2 => {
                let to = choice(3);
                zil_imgproc_change_depth(im, ZImageDepth::from(DEPTHS[to]), st);
                Depth::new(DEPTHS[to]).execute(&mut want)
            }
            3 => {
                let to = SPACES[choice(7)];
                zil_imgproc_convert_colorspace(im, ZImageColorspace::from(to), st);
                ColorspaceConv::new(to).execute(&mut want)
            }
            4 => {
                let (a, b, c, e) = (choice(w + 1), choice(h + 1), choice(w), choice(h));
                zil_imgproc_crop(im, a, b, c, e, st);
                p::crop::Crop::new(a, b, c, e).execute(&mut want)
            }
            5 => {
                zil_imgproc_flip_mirror_x_axis(im, st);
                p::flip::Flip::new(p::flip::FlipDirection::MirrorXAxis).execute(&mut want)
            }
            6 => {
                zil_imgproc_flip_horizontal(im, st);
                p::flip::Flip::new(p::flip::FlipDirection::Horizontal).execute(&mut want)
            }
            7 => {
                zil_imgproc_invert(im, st);
                p::invert::Invert.execute(&mut want)
            }
            8 => {
                zil_imgproc_brighten(im, 17.0, st);
                p::brighten::Brighten::new(17.0).execute(&mut want)
            }
            9 => {
                zil_imgproc_stretch_contrast(im, 10.0, 200.0, st);
                p::stretch_contrast::StretchContrast::new(10.0, 200.0).execute(&mut want)
            }
            10 => {
                zil_imgproc_transpose(im, st);
                p::transpose::Transpose::new().execute(&mut want)
            }
            11 => {
                zil_imgproc_sobel(im, st);
                p::sobel::Sobel::new().execute(&mut want)
            }
            12 => {
                zil_imgproc_scharr(im, st);
                p::scharr::Scharr::new().execute(&mut want)
            }
            13 => {
                zil_imgproc_median_blur(im, 1, st);
                p::median::Median::new(1).execute(&mut want)
            }
            14 => {
                let other = make(&samples(d, n), d, n, w, h, cs);
                zil_imgproc_blend(im, other, 0.5, st);
                let r = p::blend::Blend::new(&*other, 0.5).execute(&mut want);
                image::zil_zimg_free(other);
                r
            }
            15 => {
                zil_imgproc_auto_orient(im, st);
                p::auto_orient::AutoOrient.execute(&mut want)
            }
            16 => {
                zil_imgproc_gamma(im, 1.0, st);
                p::gamma::Gamma::new(1.0).execute(&mut want)
            }
            17 => {
                zil_imgproc_gaussian_blur(im, 1.0, st);
                p::gaussian_blur::GaussianBlur::new(1.0).execute(&mut want)
            }
            _ => {
                zil_imgproc_bilateral_filter(im, 3, 40.0, 2.0, st);
                p::bilateral_filter::BilateralFilter::new(3, 40.0, 2.0).execute(&mut want)
            }
        };
        check(zil_status_ok(st) == r.is_ok(), 2);
        check(r.is_ok() || code(st) == ZStatusType::ZilImageOperationError as i32, 3);
        let im2 = &*im;
        check(im2.dimensions() == want.dimensions() && im2.colorspace() == want.colorspace() && im2.depth() == want.depth(), 4);
        check_eq(&native(im2), &native(&want), 5);
        if r.is_ok() {
            reach(1);
        } else {
            reach(2);
        }
        image::zil_zimg_free(im);
        zil_status_free(st);
    }
}
/// a 24 bit bitmap of RGB samples
fn bitmap(px: &[u8], w: usize, h: usize) -> Vec<u8> {
    let row = (3 * w + 3) / 4 * 4;
    let mut f = b"BM".to_vec();
    for x in [54 + row * h, 0, 54, 40, w, h, 1 | 24 << 16, 0, row * h, 2835, 2835, 0, 0] {
        f.extend_from_slice(&(x as u32).to_le_bytes());
    }
    for r in px.chunks_exact(3 * w).rev() {
        for p in r.chunks_exact(3) {
            f.extend_from_slice(&[p[2], p[1], p[0]]);
        }
        f.resize(f.len() + row - 3 * w, 0);
    }
    f
}
/// a raw RGB document of 8 or 16 bits
fn photoshop(im: &ZImage, w: usize, h: usize) -> Vec<u8> {
    let d = im.depth().size_of();
    let mut f = b"8BPS\0\x01\0\0\0\0\0\0\0\x03".to_vec();
    f.extend_from_slice(&(h as u32).to_be_bytes());
    f.extend_from_slice(&(w as u32).to_be_bytes());
    f.extend_from_slice(&[0, 8 * d as u8, 0, 3]);
    f.resize(f.len() + 12 + 2, 0);
    let px = native(im);
    for c in 0..3 {
        for p in px.chunks_exact(3 * d) {
            f.extend(p[c * d..][..d].iter().rev());
        }
    }
    f
}
const FORMATS: [ImageFormat; 8] = [
    ImageFormat::PPM, ImageFormat::Farbfeld, ImageFormat::QOI, ImageFormat::BMP,
    ImageFormat::PNG, ImageFormat::HDR, ImageFormat::JPEG, ImageFormat::PSD,
];
/// args: format, colour space, depth, w, h, symbolic samples, bytes missing at the end. Decoding is what it is in Rust
#[no_mangle]
#[inline(never)]
pub extern "C" fn c_decode() {
    let (f, cs, d, w, h, free, cut) = (FORMATS[arg(0)], SPACES[arg(1)], arg(2), arg(3), arg(4), arg(5), arg(6));
    let n = w * h * cs.num_components();
    let known = |i: usize| (i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    let s = |i: usize| n - 1 - i < free;
    let im = match d {
        0 => ZImage::from_u8(&(0..n).map(|i| if s(i) { u8v() } else { (known(i) >> 56) as u8 }).collect::<Vec<_>>(), w, h, cs),
        1 => ZImage::from_u16(&(0..n).map(|i| if s(i) { u16v() } else { (known(i) >> 48) as u16 }).collect::<Vec<_>>(), w, h, cs),
        _ => ZImage::from_f32(&(0..n).map(|i| (known(i) >> 60) as f32 / 16.0).collect::<Vec<_>>(), w, h, cs),
    };
    let mut file = if f == ImageFormat::BMP {
        bitmap(&native(&im), w, h)
    } else if f == ImageFormat::PSD {
        photoshop(&im, w, h)
    } else {
        let Ok(x) = im.write_to_vec(f) else {
            check(false, 1);
            return;
        };
        x
    };
    file.truncate(file.len() - cut);
    let info = zune_image::utils::decode_info(ZCursor::new(&file));
    let read = ZImage::read(ZCursor::new(&file), DecoderOptions::new_fast());
    unsafe {
        let st = zil_status_new();
        let guess = zune_image::codecs::guess_format(ZCursor::new(&file)).map_or(ImageFormat::Unknown, |x| x.0);
        check(utils::zil_guess_format(file.as_ptr(), file.len()).to_format() == guess, 2);
        check(cut > 0 || guess == f, 21);
        let m = imread::zil_read_headers_from_memory(file.as_ptr(), file.len(), st);
        check(zil_status_ok(st) == info.is_some(), 3);
        if let Some(info) = &info {
            check((m.width as usize, m.height as usize) == info.dimensions() && m.depth.to_depth() == info.depth(), 4);
            check(m.colorspace.to_colorspace() == info.colorspace() && m.format.to_format() == f, 5);
        }
        zil_status_free(st);

        let st = zil_status_new();
        let z = image::zil_zimg_new();
        image::zil_zimg_read_from_memory(file.as_ptr(), file.len(), z, st);
        check(zil_status_ok(st) == read.is_ok(), 6);
        if let Ok(read) = &read {
            check((*z).dimensions() == read.dimensions() && (*z).colorspace() == read.colorspace() && (*z).depth() == read.depth(), 7);
            check_eq(&native(&*z), &native(read), 8);
        } else {
            check((*z).depth() == BitDepth::Unknown, 9);
        }
        image::zil_zimg_free(z);
        zil_status_free(st);

        // a gray JPEG has one channel in C, as its headers say
        let read = if f == ImageFormat::JPEG && cs == ColorSpace::Luma {
            ZImage::read(ZCursor::new(&file), DecoderOptions::new_fast().jpeg_set_out_colorspace(cs))
        } else {
            read
        };
        let before = live();
        let st = zil_status_new();
        let (mut cw, mut ch, mut cd, mut cc) = (77usize, 77usize, ZImageDepth::ZilUnknownDepth, 77usize);
        let px = imread::zil_imdecode(file.as_ptr(), file.len(), &mut cw, &mut ch, &mut cd, &mut cc, st);
        check(zil_status_ok(st) == read.is_ok(), 10);
        check(px.is_null() == read.is_err(), 11);
        if let Ok(read) = &read {
            check((cw, ch) == read.dimensions() && cd.to_depth() == read.depth() && cc == read.colorspace().num_components(), 12);
            let want = native(read);
            check_eq(std::slice::from_raw_parts(px.cast::<u8>(), want.len()), &want, 13);
            utils::zil_free(px as *mut _);
            // a buffer of the caller's, with room behind it
            let size = want.len();
            let mut out = vec![0xA5A5_A5A5u32; size / 4 + 4];
            let room = size.next_multiple_of(4);
            let bytes = std::slice::from_raw_parts_mut(out.as_mut_ptr().cast::<u8>(), room + 8);
            imread::zil_imdecode_into(file.as_ptr(), file.len(), bytes.as_mut_ptr(), room, null_mut(), null_mut(), null_mut(), null_mut(), st);
            check(zil_status_ok(st), 14);
            check_eq(&bytes[..size], &want, 15);
            check(bytes[size..].iter().all(|x| *x == 0xA5), 16);
            bytes.fill(0xA5);
            imread::zil_imdecode_into(file.as_ptr(), file.len(), bytes.as_mut_ptr(), size - 1, null_mut(), null_mut(), null_mut(), null_mut(), st);
            check(code(st) == ZStatusType::ZilNotEnoughSpaceInDest as i32, 17);
            check(bytes.iter().all(|x| *x == 0xA5), 18);
        } else {
            check((cw, ch, cc) == (77, 77, 77), 19);
        }
        zil_status_free(st);
        // everything is given back
        check(live() == before, 20);
    }
    reach(1);
}
harnesses!(c_images, c_null, c_enums, c_ops, c_decode);
