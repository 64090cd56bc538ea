//! Channels, interleaving, colour space and depth conversion of zune-image
use symrt::*;
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::channel::Channel;
use zune_image::frame::Frame;
use zune_image::image::Image;

trait Px: Copy + Default + bytemuck_like::P {
    const DEPTH: BitDepth;
    const MAX: Self;
    fn sym() -> Self;
    fn bits(self) -> u64;
}
mod bytemuck_like {
    pub trait P {}
}
macro_rules! px {
    ($t:ty, $d:ident, $m:expr, $s:expr, $b:expr) => {
        impl bytemuck_like::P for $t {}
        impl Px for $t {
            const DEPTH: BitDepth = BitDepth::$d;
            const MAX: Self = $m;
            fn sym() -> Self {
                $s
            }
            fn bits(self) -> u64 {
                $b(self)
            }
        }
    };
}
px!(u8, Eight, 255, u8v(), |x| x as u64);
px!(u16, Sixteen, 65535, u16v(), |x| x as u64);
px!(f32, Float32, 1.0, f32::from_bits(u32v()), |x: f32| x.to_bits() as u64);

fn syms<T: Px>(n: usize) -> Vec<T> {
    (0..n).map(|_| T::sym()).collect()
}
fn same<T: Px>(a: &[T], b: &[T], id: u64) {
    check(a.len() == b.len(), id + 1000);
    for i in 0..a.len().min(b.len()) {
        check(a[i].bits() == b[i].bits(), id);
    }
}

/// a free choice that the solver enumerates
fn pick(n: usize) -> usize {
    let x = u8v() as usize;
    assume(x < n);
    x
}
macro_rules! channel_ops {
    ($t:ty, $wide:ty) => {{
        let (steps, cap) = (arg(1), arg(2));
        let mut ch = match pick(2) {
            0 => Channel::new_with_capacity::<$t>(cap),
            _ => Channel::new_with_length::<$t>(cap / std::mem::size_of::<$t>() * std::mem::size_of::<$t>()),
        };
        let mut want: Vec<$t> = vec![<$t>::default(); ch.len() / std::mem::size_of::<$t>()];
        for _ in 0..steps {
            match pick(5) {
                0 => {
                    let x = <$t as Px>::sym();
                    ch.push(x);
                    want.push(x);
                }
                1 => {
                    let x = syms::<$t>([0, 1, 3, 21][pick(4)]);
                    ch.extend(&x);
                    want.extend(&x);
                }
                2 => {
                    let other = ch.clone();
                    check(other == ch && other.len() == ch.len() && other.type_id() == ch.type_id(), 1);
                    // the original must not be affected by its copy
                    let old = std::mem::replace(&mut ch, other);
                    same(old.reinterpret_as::<$t>().unwrap(), &want, 2);
                }
                3 => {
                    let x = <$t as Px>::sym();
                    check(ch.fill(x).is_ok(), 3);
                    want.fill(x);
                }
                _ => {
                    let i = u8v() as usize;
                    let x = <$t as Px>::sym();
                    let v = ch.reinterpret_as_mut::<$t>().unwrap();
                    if i < v.len() {
                        v[i] = x;
                        want[i] = x;
                    }
                }
            }
            check(ch.len() == want.len() * std::mem::size_of::<$t>(), 4);
            check(ch.capacity() >= ch.len(), 5);
            check(ch.is_empty() == want.is_empty(), 6);
            match ch.reinterpret_as::<$t>() {
                Ok(v) => same(v, &want, 7),
                Err(_) => check(false, 8),
            }
            check(ch.reinterpret_as::<$wide>().is_err(), 9);
        }
        reach(1);
    }};
}
/// any sequence of operations gives what a Vec gives
#[no_mangle]
#[inline(never)]
pub extern "C" fn channel() {
    let before = live();
    match arg(0) {
        0 => channel_ops!(u8, u16),
        1 => channel_ops!(u16, u8),
        _ => channel_ops!(f32, u16),
    }
    check(live() == before, 10);
}
/// equality: type, length and contents
#[no_mangle]
#[inline(never)]
pub extern "C" fn channel_eq() {
    let n = arg(0);
    let (a, b) = (vec(n), vec(n));
    let mut x = Channel::new::<u8>();
    let mut y = Channel::new::<u8>();
    x.extend(&a);
    y.extend(&b);
    let mut all = true;
    for i in 0..n {
        all &= a[i] == b[i];
    }
    check((x == y) == all, 1);
    y.push(0u8);
    check(x != y, 2);
    check(Channel::new::<u8>() != Channel::new::<u16>(), 3);
    let z = Channel::from_elm(n, 7u16);
    check(z.len() == 2 * n && z.reinterpret_as::<u16>().unwrap().iter().all(|v| *v == 7), 4);
    check(Channel::from_elm(n, 7.5f32).reinterpret_as::<f32>().unwrap().len() == n, 5);
    reach(1);
}

fn space(k: usize) -> ColorSpace {
    match k {
        0 => ColorSpace::Luma,
        1 => ColorSpace::LumaA,
        2 => ColorSpace::RGB,
        3 => ColorSpace::RGBA,
        4 => ColorSpace::ARGB,
        5 => ColorSpace::BGRA,
        6 => ColorSpace::BGR,
        7 => ColorSpace::CMYK,
        8 => ColorSpace::HSV,
        9 => ColorSpace::HSL,
        _ => ColorSpace::MultiBand(std::num::NonZeroU32::new(k as u32 - 4).unwrap()),
    }
}
macro_rules! layout {
    ($t:ty, $from:ident) => {{
        let (cs, w, h) = (space(arg(1)), arg(2), arg(3));
        let n = cs.num_components();
        let px = syms::<$t>(w * h * n);
        let im = Image::$from(&px, w, h, cs);
        check(im.dimensions() == (w, h) && im.colorspace() == cs && im.depth() == <$t as Px>::DEPTH && im.frames_len() == 1, 1);
        let ch = im.channels_ref(false);
        check(ch.len() == n, 2);
        for c in 0..n {
            let v = ch[c].reinterpret_as::<$t>().unwrap();
            check(v.len() == w * h, 3);
            for i in 0..v.len() {
                check(v[i].bits() == px[i * n + c].bits(), 4);
            }
        }
        let f = im.flatten_frames::<$t>();
        check(f.len() == 1, 5);
        same(&f[0], &px, 6);
        let mut into = vec![<$t>::default(); px.len()];
        check(matches!(im.frames_ref()[0].flatten_into(&mut into), Ok(k) if k == px.len()), 7);
        same(&into, &px, 8);
        check(im.clone() == im, 9);
        let fr = Frame::$from(&px, cs, 3, 7);
        check(fr.numerator() == 3 && fr.denominator() == 7, 10);
        let f2 = fr.clone();
        check(f2.numerator() == 3 && f2.denominator() == 7 && f2 == fr, 11);
        // colour and alpha channels told apart
        let fr = &im.frames_ref()[0];
        match (fr.separate_color_and_alpha_ref(cs), cs.alpha_position()) {
            (None, None) => check(im.channels_ref(true).len() == n, 12),
            (Some((col, al)), Some(p)) => {
                check(col.len() == n - 1 && im.channels_ref(true).len() == n - 1, 13);
                let v = al.reinterpret_as::<$t>().unwrap();
                for i in 0..v.len() {
                    check(v[i].bits() == px[i * n + p].bits(), 14);
                }
                let mut k = 0;
                for c in 0..n {
                    if c != p {
                        let (v, u) = (col[k].reinterpret_as::<$t>().unwrap(), im.channels_ref(true)[k].reinterpret_as::<$t>().unwrap());
                        for i in 0..w * h {
                            check(v[i].bits() == px[i * n + c].bits() && u[i].bits() == v[i].bits(), 15);
                        }
                        k += 1;
                    }
                }
                let mut g = Frame::$from(&px, cs, 1, 1);
                let (col, al) = g.separate_color_and_alpha_mut(cs).unwrap();
                check(col.len() == n - 1, 16);
                al.fill(<$t as Px>::MAX).unwrap();
                let out = g.flatten::<$t>();
                for i in 0..w * h {
                    for c in 0..n {
                        check(out[i * n + c].bits() == if c == p { <$t as Px>::MAX.bits() } else { px[i * n + c].bits() }, 17);
                    }
                }
            }
            _ => check(false, 18),
        }
        if n <= 4 {
            let im2 = Image::from_fn::<$t, _>(w, h, cs, |y, x, o| {
                for c in 0..n {
                    o[c] = px[(y * w + x) * n + c];
                }
            });
            same(&im2.flatten_frames::<$t>()[0], &px, 19);
            let mut im3 = Image::fill(<$t>::default(), cs, w, h);
            check(im3
                .modify_pixels_mut::<$t, _>(|y, x, o| {
                    for (c, v) in o.into_iter().enumerate().take(n) {
                        *v = px[(y * w + x) * n + c];
                    }
                })
                .is_ok(), 20);
            same(&im3.flatten_frames::<$t>()[0], &px, 21);
            check(im3 == im2, 22);
        }
        reach(1);
        px
    }};
}
/// interleaved pixels and planes hold the same samples, in every colour space
#[no_mangle]
#[inline(never)]
pub extern "C" fn layout() {
    match arg(0) {
        0 => {
            layout!(u8, from_u8);
        }
        1 => {
            let px = layout!(u16, from_u16);
            let cs = space(arg(1));
            let f = Frame::from_u16(&px, cs, 1, 1);
            let (ne, be) = (f.u16_to_native_endian(), f.u16_to_big_endian(cs));
            check(ne.len() == 2 * px.len() && be.len() == ne.len(), 30);
            for i in 0..px.len() {
                check(u16::from_ne_bytes([ne[2 * i], ne[2 * i + 1]]) == px[i], 31);
                check(u16::from_be_bytes([be[2 * i], be[2 * i + 1]]) == px[i], 32);
            }
        }
        _ => {
            layout!(f32, from_f32);
        }
    }
}
/// adding and subtracting images: saturating, alpha untouched
#[no_mangle]
#[inline(never)]
pub extern "C" fn arith() {
    let (cs, n) = (space(arg(0)), arg(1));
    let c = cs.num_components();
    macro_rules! go {
        ($t:ty, $from:ident) => {{
            let (a, b) = (syms::<$t>(n * c), syms::<$t>(n * c));
            let (x, y) = (Image::$from(&a, n, 1, cs), Image::$from(&b, n, 1, cs));
            let s = (x.clone() + y.clone()).flatten_frames::<$t>().remove(0);
            let d = (x - y).flatten_frames::<$t>().remove(0);
            for i in 0..n * c {
                let keep = cs.alpha_position() == Some(i % c);
                check(s[i] == if keep { a[i] } else { a[i].saturating_add(b[i]) }, 1);
                check(d[i] == if keep { a[i] } else { a[i].saturating_sub(b[i]) }, 2);
            }
        }};
    }
    if arg(2) == 0 {
        go!(u8, from_u8)
    } else {
        go!(u16, from_u16)
    }
    reach(1);
}

/// where red, green, blue and alpha live
fn rgb_pos(cs: ColorSpace) -> ([usize; 3], Option<usize>) {
    match cs {
        ColorSpace::RGB => ([0, 1, 2], None),
        ColorSpace::BGR => ([2, 1, 0], None),
        ColorSpace::RGBA => ([0, 1, 2], Some(3)),
        ColorSpace::BGRA => ([2, 1, 0], Some(3)),
        ColorSpace::ARGB => ([1, 2, 3], Some(0)),
        ColorSpace::Luma => ([0, 0, 0], None),
        _ => ([0, 0, 0], Some(1)),
    }
}
macro_rules! reorder {
    ($t:ty, $from:ident) => {{
        let (a, b, w) = (space(arg(1)), space(arg(2)), arg(3));
        let n = a.num_components();
        let px = syms::<$t>(w * n);
        let mut im = Image::$from(&px, w, 1, a);
        check(to_color(&mut im, b), 1);
        check(im.colorspace() == b && im.dimensions() == (w, 1) && im.depth() == <$t as Px>::DEPTH, 2);
        let o = im.flatten_frames::<$t>().remove(0);
        let m = b.num_components();
        check(o.len() == w * m, 3);
        let ((p, pa), (q, qa)) = (rgb_pos(a), rgb_pos(b));
        for i in 0..w {
            for c in 0..3 {
                check(o[i * m + q[c]].bits() == px[i * n + p[c]].bits(), 4);
            }
            if let Some(k) = qa {
                let want = match pa {
                    Some(j) => px[i * n + j],
                    None => <$t as Px>::MAX,
                };
                check(o[i * m + k].bits() == want.bits(), 5);
            }
        }
        reach(1);
    }};
}
/// conversions that only move samples, from any to any
#[no_mangle]
#[inline(never)]
pub extern "C" fn reorder() {
    match arg(0) {
        0 => reorder!(u8, from_u8),
        1 => reorder!(u16, from_u16),
        _ => reorder!(f32, from_f32),
    }
}
/// colour to gray: weights 0.2989, 0.587, 0.114 within a step, at every place of the row; alpha kept
#[no_mangle]
#[inline(never)]
pub extern "C" fn gray() {
    let (a, b, w, live) = (space(arg(1)), space(arg(2)), arg(3), arg(4));
    let n = a.num_components();
    macro_rules! go {
        ($t:ty, $from:ident) => {{
            // all samples differ; `live` consecutive pixels are symbolic
            let one = live.max(1);
            let at = match w - one {
                0 => 0,
                k if std::mem::size_of::<$t>() == 1 => choice(k + 1),
                k => [0, 1, k / 2, k][choice(4)],
            };
            let top = w == one && choice(2) == 1;
            // (one free sample of it, so that a query has few free bits; `live` 0: all of a single pixel)
            let only = if live == 0 { None } else { Some(choice(3)) };
            let px: Vec<$t> = (0..w * n)
                .map(|i| if i / n >= at && i / n < at + one && only.map_or(true, |o| o == i % n) { <$t as Px>::sym() } else if top { <$t>::MAX } else { ((i * 37 % 251) << (8 * (std::mem::size_of::<$t>() - 1))) as $t })
                .collect();
            let mut im = Image::$from(&px, w, 1, a);
            check(to_color(&mut im, b), 1);
            check(im.colorspace() == b, 2);
            let o = im.flatten_frames::<$t>().remove(0);
            let m = b.num_components();
            check(o.len() == w * m, 3);
            let (p, pa) = rgb_pos(a);
            for i in 0..w {
                let (r, g, bl) = (px[i * n + p[0]] as u64, px[i * n + p[1]] as u64, px[i * n + p[2]] as u64);
                let exact = 2989 * r + 5870 * g + 1140 * bl;
                let got = o[i * m] as u64 * 10000;
                // two steps of the 8-bit scale, four at 16 bits, whatever the rounding
                let tol = 20000;
                check(got + tol >= exact && got <= exact + tol, 4);
                if m == 2 {
                    let want = match pa {
                        Some(j) => px[i * n + j],
                        None => <$t as Px>::MAX,
                    };
                    check(o[i * m + 1] == want, 5);
                }
            }
            reach(1);
        }};
    }
    if arg(0) == 0 {
        go!(u8, from_u8)
    } else {
        go!(u16, from_u16)
    }
}
/// colour to gray in floats: the weighted sum
#[no_mangle]
#[inline(never)]
pub extern "C" fn gray_f32() {
    let (a, b, w) = (space(arg(0)), space(arg(1)), arg(2));
    let n = a.num_components();
    let px: Vec<f32> = (0..w * n).map(|_| u8v() as f32).collect();
    let mut im = Image::from_f32(&px, w, 1, a);
    check(to_color(&mut im, b), 1);
    let o = im.flatten_frames::<f32>().remove(0);
    let m = b.num_components();
    let (p, pa) = rgb_pos(a);
    for i in 0..w {
        let want = 0.2989 * px[i * n + p[0]] + 0.5870 * px[i * n + p[1]] + 0.1140 * px[i * n + p[2]];
        check(o[i * m] == want, 2);
        if m == 2 {
            check(o[i * m + 1] == pa.map_or(1.0, |j| px[i * n + j]), 3);
        }
    }
    reach(1);
}
/// RGB to CMYK and back: within a step; white and black exact, whatever the depth
#[no_mangle]
#[inline(never)]
pub extern "C" fn cmyk() {
    let (depth, fixed, lo) = (arg(0), arg(1), arg(2));
    let near = |a: f32, b: f32, t: f32| a - b <= t && b - a <= t;
    // one free sample, the others from a table
    let pat: [[u8; 2]; 8] = [[0, 0], [255, 255], [255, 0], [128, 7], [1, 254], [200, 200], [3, 64], [90, 91]];
    let f = pat[fixed];
    let x = u8v();
    let c = choice(3);
    let mut v = [f[0], f[1], f[1]];
    v[c] = x;
    assume(x >= lo as u8);
    match depth {
        0 => {
            let mut im = Image::from_u8(&v, 1, 1, ColorSpace::RGB);
            check(to_color(&mut im, ColorSpace::CMYK) && im.colorspace() == ColorSpace::CMYK, 1);
            check(im.channels_ref(false).len() == 4, 2);
            check(to_color(&mut im, ColorSpace::RGB) && im.colorspace() == ColorSpace::RGB, 3);
            let o = im.flatten_frames::<u8>().remove(0);
            for i in 0..3 {
                check((o[i] as i32 - v[i] as i32).abs() <= 1, 4);
            }
        }
        1 => {
            let w: Vec<u16> = v.iter().map(|x| *x as u16 * 257).collect();
            let mut im = Image::from_u16(&w, 1, 1, ColorSpace::RGB);
            check(to_color(&mut im, ColorSpace::CMYK), 1);
            check(to_color(&mut im, ColorSpace::RGB), 3);
            let o = im.flatten_frames::<u16>().remove(0);
            for i in 0..3 {
                check((o[i] as i32 - w[i] as i32).abs() <= 3, 4);
            }
        }
        _ => {
            let w: Vec<f32> = v.iter().map(|x| *x as f32 / 255.0).collect();
            let mut im = Image::from_f32(&w, 1, 1, ColorSpace::RGB);
            check(to_color(&mut im, ColorSpace::CMYK), 1);
            for ch in im.flatten_frames::<f32>().remove(0) {
                check((0.0..=1.0).contains(&ch), 5);
            }
            check(to_color(&mut im, ColorSpace::RGB), 3);
            let o = im.flatten_frames::<f32>().remove(0);
            for i in 0..3 {
                check(near(o[i], w[i], 0.0001), 4);
            }
        }
    }
    reach(1);
}
/// RGB to HSL or HSV and back
#[no_mangle]
#[inline(never)]
pub extern "C" fn hue() {
    let (to, fixed) = (space(arg(0)), arg(1));
    let pat: [[f32; 2]; 6] = [[0.0, 0.0], [1.0, 1.0], [1.0, 0.0], [0.5, 0.25], [0.25, 0.75], [0.75, 0.75]];
    let f = pat[fixed];
    let x = u8v();
    let c = choice(3);
    let mut v = [f[0], f[1], f[1]];
    v[c] = x as f32 / 256.0;
    let mut im = Image::from_f32(&v, 1, 1, ColorSpace::RGB);
    check(to_color(&mut im, to) && im.colorspace() == to, 1);
    for ch in im.flatten_frames::<f32>().remove(0) {
        check((0.0..=1.0).contains(&ch), 2);
    }
    check(to_color(&mut im, ColorSpace::RGB), 3);
    let o = im.flatten_frames::<f32>().remove(0);
    for i in 0..3 {
        check(o[i] - v[i] <= 0.001 && v[i] - o[i] <= 0.001, 4);
    }
    reach(1);
}

fn bd(k: usize) -> BitDepth {
    [BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32][k]
}
/// any image -> samples scaled to 0..1 as f64
fn unit(im: &Image) -> Vec<f64> {
    match im.depth() {
        BitDepth::Eight => im.flatten_frames::<u8>()[0].iter().map(|x| *x as f64 / 255.0).collect(),
        BitDepth::Sixteen => im.flatten_frames::<u16>()[0].iter().map(|x| *x as f64 / 65535.0).collect(),
        _ => im.flatten_frames::<f32>()[0].iter().map(|x| *x as f64).collect(),
    }
}
/// depth conversion: widening and coming back is lossless, the ends of the range stay the ends,
/// no sample moves by more than a step of the coarser depth
#[no_mangle]
#[inline(never)]
pub extern "C" fn depth() {
    let (from, to, k) = (arg(0), arg(1), arg(2));
    let n = space(k).num_components();
    let im = match from {
        0 => Image::from_u8(&syms::<u8>(n), 1, 1, space(k)),
        1 => Image::from_u16(&syms::<u16>(n), 1, 1, space(k)),
        _ => {
            let v: Vec<f32> = (0..n).map(|_| u16v() as f32 / 65536.0).collect();
            Image::from_f32(&v, 1, 1, space(k))
        }
    };
    let mut o = im.clone();
    check(to_depth(&mut o, bd(to)), 1);
    check(o.depth() == bd(to) && o.colorspace() == im.colorspace() && o.dimensions() == (1, 1), 2);
    let (a, b) = (unit(&im), unit(&o));
    let step = if from == 0 || to == 0 { 1.0 / 255.0 } else { 1.0 / 65535.0 };
    check(a.len() == b.len(), 3);
    for i in 0..a.len() {
        check(b[i] - a[i] <= step && a[i] - b[i] <= step, 4);
        check(a[i] != 1.0 || b[i] == 1.0, 5);
        check(a[i] != 0.0 || b[i] == 0.0, 6);
    }
    if from < to {
        check(to_depth(&mut o, bd(from)), 7);
        check(o == im, 8);
    }
    reach(1);
}
/// floats outside the range, infinities and NaN clamp
#[no_mangle]
#[inline(never)]
pub extern "C" fn depth_clamp() {
    let x = f32::from_bits(u32v());
    let mut im = Image::from_f32(&[x], 1, 1, ColorSpace::Luma);
    if arg(0) == 0 {
        check(to_depth(&mut im, BitDepth::Eight), 1);
        let v = im.flatten_frames::<u8>()[0][0];
        check(!(x >= 1.0) || v == 255, 2);
        check(!(x <= 0.0) || v == 0, 3);
    } else {
        check(to_depth(&mut im, BitDepth::Sixteen), 1);
        let v = im.flatten_frames::<u16>()[0][0];
        check(!(x >= 1.0) || v == 65535, 2);
        check(!(x <= 0.0) || v == 0, 3);
    }
    reach(1);
}
/// does the same to an animation of that picture twice: every frame has to come out as the picture does
pub fn frames_too(im: &Image, after: impl FnOnce(&mut Image) -> bool) -> impl FnOnce(&Image) {
    let f = im.frames_ref()[0].clone();
    let (w, h) = im.dimensions();
    let mut two = Image::new_frames(vec![f.clone(), f], im.depth(), w, h, im.colorspace());
    *two.metadata_mut() = im.metadata().clone();
    check(after(&mut two), 900);
    move |one: &Image| {
        check(two.frames_len() == 2 && two.dimensions() == one.dimensions() && two.colorspace() == one.colorspace() && two.depth() == one.depth(), 901);
        macro_rules! cmp {
            ($t:ty) => {{
                let a = one.flatten_frames::<$t>().remove(0);
                for b in two.flatten_frames::<$t>() {
                    check(a.len() == b.len(), 902);
                    for i in 0..a.len().min(b.len()) {
                        check(a[i].bits() == b[i].bits(), 903);
                    }
                }
            }};
        }
        match one.depth() {
            BitDepth::Eight => cmp!(u8),
            BitDepth::Sixteen => cmp!(u16),
            _ => cmp!(f32),
        }
    }
}
fn to_color(im: &mut Image, to: ColorSpace) -> bool {
    let same = frames_too(im, |x| x.convert_color(to).is_ok());
    let ok = im.convert_color(to).is_ok();
    same(im);
    ok
}
fn to_depth(im: &mut Image, to: BitDepth) -> bool {
    let same = frames_too(im, |x| x.convert_depth(to).is_ok());
    let ok = im.convert_depth(to).is_ok();
    same(im);
    ok
}
harnesses!(channel, channel_eq, layout, arith, reorder, gray, gray_f32, cmyk, hue, depth, depth_clamp);
