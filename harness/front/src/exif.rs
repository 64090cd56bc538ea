use crate::*;
use zune_imageprocs::auto_orient::AutoOrient;

/// Exif data: an entry before (image description "ab"), the orientation, an entry after (x resolution 72/1)
fn tiff(big: bool, orientation: u16, others: bool) -> Vec<u8> {
    let b2 = |v: u16| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    let b4 = |v: u32| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    let mut o = if big { b"MM".to_vec() } else { b"II".to_vec() };
    o.extend_from_slice(&b2(42));
    o.extend_from_slice(&b4(8));
    let n = if others { 3 } else { 1 };
    o.extend_from_slice(&b2(n));
    if others {
        o.extend_from_slice(&b2(0x010E));
        o.extend_from_slice(&b2(2));
        o.extend_from_slice(&b4(3));
        o.extend_from_slice(b"ab\0\0");
    }
    o.extend_from_slice(&b2(0x0112));
    o.extend_from_slice(&b2(3));
    o.extend_from_slice(&b4(1));
    o.extend_from_slice(&b2(orientation));
    o.extend_from_slice(&[0, 0]);
    if others {
        o.extend_from_slice(&b2(0x011A));
        o.extend_from_slice(&b2(5));
        o.extend_from_slice(&b4(1));
        o.extend_from_slice(&b4(8 + 2 + 36 + 4));
    }
    o.extend_from_slice(&b4(0));
    if others {
        o.extend_from_slice(&b4(72));
        o.extend_from_slice(&b4(1));
    }
    o
}
fn orientation_of(im: &Image) -> Option<u32> {
    im.metadata().exif()?.iter().find(|f| f.tag == ::exif::Tag::Orientation)?.value.get_uint(0)
}
/// args: JPEG (1) or PNG, byte order, other entries, width, height, 16 bit. The picture is turned as the orientation says, once
#[no_mangle]
pub extern "C" fn orient() {
    let is_jpeg = arg(0) == 1;
    let (w, h, two) = (arg(3), arg(4), arg(5) == 1);
    let o = u16v();
    let t = tiff(arg(1) == 1, o, arg(2) == 1);
    let f = if is_jpeg {
        jpeg_exif(&[], &t)
    } else {
        let b = 1 + two as usize;
        let mut rows = vec(h * (w * b + 1));
        for y in 0..h {
            rows[y * (w * b + 1)] = 0;
        }
        png(w, h, 8 * b as u8, 0, &[(b"eXIf", t)], &rows)
    };
    let Ok(im) = Image::read(ZCursor::new(&f[..]), DecoderOptions::default().jpeg_set_out_colorspace(ColorSpace::Luma)) else {
        check(false, 1);
        return;
    };
    check(orientation_of(&im) == Some(u32::from(o)), 2);
    let (w, h) = im.dimensions();
    let b = im.depth().size_of();
    let src = flat(&im)[0].clone();
    let mut out = im.clone();
    check(AutoOrient.execute(&mut out).is_ok(), 3);
    let turned = o >= 5 && o <= 8;
    let (ow, oh) = if turned { (h, w) } else { (w, h) };
    check(out.dimensions() == (ow, oh), 4);
    let mut want = vec![];
    for y in 0..oh {
        for x in 0..ow {
            // row 0 and column 0 of what is stored, by the table of the Exif standard
            let (sx, sy) = match o {
                2 => (w - 1 - x, y),
                3 => (w - 1 - x, h - 1 - y),
                4 => (x, h - 1 - y),
                5 => (y, x),
                6 => (y, h - 1 - x),
                7 => (w - 1 - y, h - 1 - x),
                8 => (w - 1 - y, x),
                _ => (x, y),
            };
            want.extend_from_slice(&src[(sy * w + sx) * b..][..b]);
        }
    }
    check_eq(&flat(&out)[0], &want, 5);
    check(orientation_of(&out) == Some(1), 6);
    // once only
    let mut again = out.clone();
    check(AutoOrient.execute(&mut again).is_ok(), 7);
    check_eq(&flat(&again)[0], &want, 8);
    // saved and read it is the same picture, upright
    if let Ok(v) = out.write_to_vec(ImageFormat::PNG) {
        match Image::read(ZCursor::new(&v[..]), DecoderOptions::default()) {
            Ok(back) => {
                check_eq(&flat(&back)[0], &want, 9);
                let f = back.metadata().exif().and_then(|x| x.iter().find(|f| f.tag == ::exif::Tag::Orientation));
                check(matches!(f.map(|f| &f.value), Some(::exif::Value::Short(v)) if v[..] == [1]), 10);
            }
            Err(_) => check(false, 11),
        }
    } else {
        check(false, 12);
    }
    reach(1);
}
/// args: read JPEG (1) or PNG, save as JPEG (1) or PNG, strip, byte order. Exif data is kept or stripped as asked
#[no_mangle]
pub extern "C" fn keep_exif() {
    let t = tiff(arg(3) == 1, u16v(), true);
    let f = if arg(0) == 1 {
        jpeg_exif(&[], &t)
    } else {
        png(2, 1, 8, 0, &[(b"eXIf", t)], &[0, 3, 200])
    };
    let o = DecoderOptions::default().jpeg_set_out_colorspace(ColorSpace::Luma);
    let Ok(im) = Image::read(ZCursor::new(&f[..]), o) else {
        check(false, 1);
        return;
    };
    let strip = arg(2) == 1;
    let mut v = vec![];
    let to = if arg(1) == 1 { ImageFormat::JPEG } else { ImageFormat::PNG };
    check(to.encode(&im, EncoderOptions::default().set_strip_metadata(strip), &mut v).is_ok(), 2);
    let Ok(back) = Image::read(ZCursor::new(&v[..]), o) else {
        check(false, 3);
        return;
    };
    if strip {
        check(back.metadata().exif().is_none(), 4);
    } else {
        let (a, b) = (im.metadata().exif(), back.metadata().exif());
        check(a.is_some() && b.is_some(), 5);
        let (a, b) = (a.unwrap(), b.unwrap());
        check(a.len() == 3 && b.len() == 3, 6);
        check(orientation_of(&back) == orientation_of(&im), 7);
        for (x, y) in a.iter().zip(b) {
            check(x.tag == y.tag, 8);
            match (&x.value, &y.value) {
                (::exif::Value::Ascii(p), ::exif::Value::Ascii(q)) => check(p == q && p[0] == b"ab", 9),
                (::exif::Value::Rational(p), ::exif::Value::Rational(q)) => check(p[0].num == 72 && q[0].num == 72 && q[0].denom == 1, 10),
                (::exif::Value::Short(p), ::exif::Value::Short(q)) => check(p == q, 11),
                _ => check(false, 12),
            }
        }
    }
    reach(1);
}
