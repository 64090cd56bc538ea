//! operations that treat every sample on its own
use crate::*;
use zune_image::metadata::AlphaState;
use zune_imageprocs::blend::Blend;
use zune_imageprocs::brighten::Brighten;
use zune_imageprocs::color_matrix::ColorMatrix;
use zune_imageprocs::composite::{Composite, CompositeMethod};
use zune_imageprocs::contrast::Contrast;
use zune_imageprocs::exposure::Exposure;
use zune_imageprocs::gamma::Gamma;
use zune_imageprocs::invert::Invert;
use zune_imageprocs::premul_alpha::PremultiplyAlpha;
use zune_imageprocs::stretch_contrast::StretchContrast;
use zune_imageprocs::threshold::{Threshold, ThresholdMethod};

/// one pixel of every colour space; sample `at` is x, the others are from a table
fn probe<T: Px>(k: usize, at: usize, x: T) -> Vec<T> {
    let mut v: Vec<T> = (0..space(k).num_components()).map(|i| T::of([13, 0, 255, 128, 77][i % 5])).collect();
    v[at] = x;
    v
}
/// runs an operation on one pixel: (input, output); `at` is the free sample
fn one<T: Px>(op: &dyn OperationsTrait, k: usize, at: usize, x: T) -> (Vec<T>, Vec<T>) {
    let v = probe(k, at, x);
    let mut im = T::img(&v, 1, 1, space(k));
    run(op, &mut im, 1);
    check(im.dimensions() == (1, 1) && im.colorspace() == space(k) && im.depth() == T::DEPTH, 2);
    let o = flat::<T>(&im);
    check(o.len() == v.len(), 3);
    (v, o)
}
fn is_alpha(k: usize, i: usize) -> bool {
    space(k).alpha_position() == Some(i)
}

fn go_invert<T: Px>() {
    let k = choice(4);
    let at = choice(space(k).num_components());
    let (v, o) = one::<T>(&Invert::new(), k, at, T::sym());
    for i in 0..v.len() {
        if is_alpha(k, i) {
            check(o[i].bits() == v[i].bits(), 4);
        } else if T::INT {
            check(o[i].bits() == T::MAX.bits() - v[i].bits(), 5);
        } else {
            check(o[i].bits() == (1.0f32 - v[i].f()).to_bits() as u64 || v[i].f().is_nan(), 5);
        }
    }
    reach(1);
}
/// invert(depth): the distance to white, twice gives the original
#[no_mangle]
#[inline(never)]
pub extern "C" fn invert() {
    by_depth!(arg(0), go_invert)
}

fn go_threshold<T: Px>() {
    let (m, t) = (arg(1), [-5.0f32, 0.0, 1.0, 127.0, 254.5, 255.0, 300.0, 65535.0, 70000.0, 0.5][arg(2)]);
    let method = [ThresholdMethod::Binary, ThresholdMethod::BinaryInv, ThresholdMethod::ThreshTrunc, ThresholdMethod::ThreshToZero][m];
    let x = T::sym();
    assume(x == x);
    let k = choice(4);
    let at = choice(space(k).num_components());
    let (v, o) = one::<T>(&Threshold::new(t, method), k, at, x);
    // the threshold as a sample
    let th = T::of_f32(t);
    for i in 0..v.len() {
        if is_alpha(k, i) {
            check(o[i].bits() == v[i].bits(), 4);
            continue;
        }
        let above = v[i] > th;
        let zero = T::default();
        let want = match m {
            0 => if above { T::MAX } else { zero },
            1 => if above { zero } else { T::MAX },
            2 => if above { th } else { v[i] },
            _ => if above { v[i] } else { zero },
        };
        check(o[i] == want, 5);
    }
    reach(1);
}
/// threshold(depth, method, threshold): as documented (the definitions of OpenCV)
#[no_mangle]
#[inline(never)]
pub extern "C" fn threshold() {
    by_depth!(arg(0), go_threshold)
}

/// the operations that scale samples, by number; `p` selects the parameter
fn tone(op: usize, p: usize) -> (Box<dyn OperationsTrait>, bool) {
    // the flag: does nothing
    match op {
        0 => {
            let v = [0.0f32, 0.25, -0.25, 1.0, -1.0, 3.0][p];
            (Box::new(Brighten::new(v)), v == 0.0)
        }
        1 => {
            let v = [0.0f32, 40.0, -40.0, 255.0, -255.0, 100.0][p];
            (Box::new(Contrast::new(v)), v == 0.0)
        }
        2 => {
            let (e, b) = [(1.0f32, 0.0f32), (2.0, 0.0), (0.5, 0.25), (3.0, 1.0), (0.0, 0.0), (1.0, 0.1)][p];
            (Box::new(Exposure::new(e, b)), e == 1.0 && b == 0.0)
        }
        _ => {
            let v = [1.0f32, 2.0, 0.5, 2.2, 0.1, 10.0][p];
            (Box::new(Gamma::new(v)), v == 1.0)
        }
    }
}
fn go_tones<T: Px>() {
    let (op, p, k) = (arg(1), arg(2), arg(3));
    let (o, nothing) = tone(op, p);
    let (x, y) = (T::sym_unit(), if arg(4) == 1 { T::sym_unit() } else { T::of([0, 1, 127, 200, 255][choice(5)]) });
    let at = (0..space(k).num_components()).find(|i| !is_alpha(k, *i)).unwrap();
    let (v, a) = one::<T>(&*o, k, at, x);
    let (_, b) = one::<T>(&*o, k, at, y);
    for i in 0..v.len() {
        if is_alpha(k, i) {
            check(a[i].bits() == v[i].bits(), 4);
        } else if nothing && T::INT {
            // (a table of 16 bit floats may round the wrong way)
            let slack = if op == 3 && T::MAX.bits() == 65535 { 1 } else { 0 };
            check(a[i].bits() + slack >= v[i].bits() && a[i].bits() <= v[i].bits() + slack, 5);
        }
        check(T::INT || op == 2 || op == 3 || a[i].f() >= 0.0 && a[i].f() <= 1.0, 8);
    }
    // never turns the order of two samples around
    check(!(x <= y) || a[at] <= b[at], 6);
    check(!(y <= x) || b[at] <= a[at], 7);
    reach(1);
}
/// tones(depth, op, parameter, space, both): brighten, contrast, exposure, gamma
#[no_mangle]
#[inline(never)]
pub extern "C" fn tones() {
    by_depth!(arg(0), go_tones)
}
/// brightness moves a sample by the given part of the range, and clamps
fn go_brighten<T: Px>() {
    let v = [0.25f32, -0.25, 1.0, -1.0, 2.0, 0.1][arg(1)];
    let x = T::sym_unit();
    let (_, o) = one::<T>(&Brighten::new(v), 0, 0, x);
    let (got, x, max) = (o[0].f(), x.f(), T::MAX.f());
    let want = (x + v.clamp(-1.0, 1.0) * max).clamp(0.0, max);
    let step = max / 255.0;
    check(got - want <= step && want - got <= step, 4);
    check(v < 1.0 || o[0] == T::MAX, 5);
    check(v > -1.0 || o[0] == T::default(), 6);
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn brighten() {
    by_depth!(arg(0), go_brighten)
}
/// stretching: the limits become the ends of the range, in between linear
#[no_mangle]
#[inline(never)]
pub extern "C" fn stretch() {
    let (lo, hi) = [(0u16, 255u16), (10, 200), (100, 101), (77, 77), (0, 1), (254, 255)][arg(1)];
    if arg(0) == 2 {
        use zune_imageprocs::stretch_contrast::stretch_contrast_f32;
        let (l, h) = (lo as f32 / 256.0, hi as f32 / 256.0);
        let x = f32::sym_unit();
        let mut v = [x];
        check(stretch_contrast_f32(&mut v, l, h).is_ok(), 1);
        if x > h {
            check(v[0] == 1.0, 2);
        } else if x <= l {
            check(v[0] == 0.0, 3);
        } else {
            let want = (x - l) / (h - l);
            check(v[0] - want <= 0.001 && want - v[0] <= 0.001, 4);
        }
        check(stretch_contrast_f32(&mut v, h + 0.5, l).is_err(), 8);
        return reach(1);
    }
    let (x, got, max, lo, hi) = if arg(0) == 0 {
        let x = u8v();
        let (_, o) = one::<u8>(&StretchContrast::new(lo as f32, hi as f32), 0, 0, x);
        (x as u64, o[0] as u64, 255u64, lo as u64, hi as u64)
    } else {
        let (lo, hi) = (lo as u64 * 257, hi as u64 * 257);
        let x = u16v();
        let (_, o) = one::<u16>(&StretchContrast::new(lo as f32, hi as f32), 0, 0, x);
        (x as u64, o[0] as u64, 65535, lo, hi)
    };
    if x >= hi {
        check(got == max, 2);
    } else if x <= lo {
        check(got == 0, 3);
    } else {
        // max*(x-lo)/(hi-lo) within a step of the input scale
        let (a, b) = (got * (hi - lo), max * (x - lo));
        check(a <= b + (hi - lo) && b <= a + max + (hi - lo), 4);
    }
    reach(1);
}
fn go_blend<T: Px>() {
    let (al, k) = ([-1.0f32, 0.0, 0.25, 0.5, 0.9, 1.0, 1.1, 7.0, 0.9995, 0.0004, 1e-30, 0.0625][arg(1)], arg(2));
    let at = choice(space(k).num_components());
    let (x, y) = (T::sym_unit(), T::of([0, 1, 127, 200, 255][choice(5)]));
    let (d, s) = (probe::<T>(k, at, x), probe::<T>(k, at, y));
    let (d, s) = if choice(2) == 0 { (d, s) } else { (s, d) };
    let src = T::img(&s, 1, 1, space(k));
    let mut im = T::img(&d, 1, 1, space(k));
    run1(&Blend::new(&src, al), &mut im, 1);
    let o = flat::<T>(&im);
    for i in 0..o.len() {
        if is_alpha(k, i) || al <= 0.0 {
            check(o[i].bits() == d[i].bits(), 4);
        } else if al >= 1.0 {
            check(o[i].bits() == s[i].bits(), 5);
        } else {
            let want = al * s[i].f() + (1.0 - al) * d[i].f();
            let step = if T::INT { 1.01 } else { 0.0001 };
            check(o[i].f() - want <= step && want - o[i].f() <= step, 6);
        }
    }
    // images that do not fit are refused
    let mut other = T::img(&[d.clone(), d.clone()].concat(), 2, 1, space(k));
    check(Blend::new(&src, al).execute(&mut other).is_err(), 7);
    reach(1);
}
/// blend(depth, alpha, space): the weighted mean
#[no_mangle]
#[inline(never)]
pub extern "C" fn blend() {
    by_depth!(arg(0), go_blend)
}
/// premul(depth, space, alpha number): never above alpha, opaque is untouched, coming back is exact
/// to what the product can still tell
#[no_mangle]
#[inline(never)]
pub extern "C" fn premul() {
    let k = if arg(1) == 0 { 1 } else { 3 };
    let n = space(k).num_components();
    macro_rules! go {
        ($t:ty, $max:expr, $al:expr, $half:expr) => {{
            let (c, al): ($t, $t) = (<$t as Px>::sym(), $al);
            let v: Vec<$t> = (0..n).map(|i| if i == n - 1 { al } else if i == choice(n - 1) { c } else { ($max / 3) as $t }).collect();
            let mut im = <$t as Px>::img(&v, 1, 1, space(k));
            run(&PremultiplyAlpha::new(AlphaState::PreMultiplied), &mut im, 1);
            check(im.metadata().alpha() == AlphaState::PreMultiplied, 2);
            let o = flat::<$t>(&im);
            check(o[n - 1] == al, 3);
            for i in 0..n - 1 {
                // c*alpha/max, rounded to nearest
                let (p, m) = (v[i] as u64 * al as u64, $max as u64);
                check(o[i] as u64 * 2 * m <= 2 * p + m && (o[i] as u64 * 2 * m + m) >= 2 * p, 4);
                check(o[i] <= al && o[i] <= v[i], 5);
                check(al as u64 != m || o[i] == v[i], 6);
            }
            run(&PremultiplyAlpha::new(AlphaState::NonPreMultiplied), &mut im, 7);
            check(im.metadata().alpha() == AlphaState::NonPreMultiplied, 8);
            let b = flat::<$t>(&im);
            check(b[n - 1] == al, 9);
            for i in 0..n - 1 {
                let (x, y, m, a) = (b[i] as i64, v[i] as i64, $max as i64, al as i64);
                if a == 0 {
                    check(x == 0, 10);
                } else {
                    // the product is off by a half, times max/alpha; and the rounding back
                    let slack = m / (2 * a) + 2;
                    check(x - y <= slack && y - x <= slack, 11);
                    check(a != m || x == y, 12);
                }
            }
            // samples that no premultiplication gives (brighter than alpha) saturate
            let v: Vec<$t> = (0..n).map(|i| if i == n - 1 { al } else { c }).collect();
            let mut im = <$t as Px>::img(&v, 1, 1, space(k));
            im.metadata_mut().set_alpha(AlphaState::PreMultiplied);
            run(&PremultiplyAlpha::new(AlphaState::NonPreMultiplied), &mut im, 13);
            let b = flat::<$t>(&im);
            for i in 0..n - 1 {
                let (x, y, m, a) = (b[i] as u64, v[i] as u64, $max as u64, al as u64);
                if a != 0 {
                    check(if y >= a { x == m } else { 2 * x * a <= 2 * y * m + a && 2 * x * a + a + 1 >= 2 * y * m }, 14);
                }
            }
            reach(1);
        }};
    }
    if arg(0) == 0 {
        go!(u8, 255, u8v(), 127)
    } else {
        go!(u16, 65535, [0u16, 1, 2, 255, 256, 32767, 65534, 65535][arg(2)], 32767)
    }
}
/// premultiplying floats, and back
#[no_mangle]
#[inline(never)]
pub extern "C" fn premul_f32() {
    let (c, al) = (u8v() as f32 / 255.0, u8v() as f32 / 255.0);
    let v = [c, 0.5, 1.0, al];
    let mut im = Image::from_f32(&v, 1, 1, ColorSpace::RGBA);
    run(&PremultiplyAlpha::new(AlphaState::PreMultiplied), &mut im, 1);
    let o = flat::<f32>(&im);
    check(o[0] == c * al && o[1] == 0.5 * al && o[2] == al && o[3] == al, 2);
    run(&PremultiplyAlpha::new(AlphaState::NonPreMultiplied), &mut im, 3);
    let b = flat::<f32>(&im);
    if al == 0.0 {
        check(b == [0.0, 0.0, 0.0, 0.0], 4);
    } else {
        check(b[0] - c <= 0.00001 && c - b[0] <= 0.00001 && b[2] == 1.0 && b[3] == al, 5);
    }
    reach(1);
}
fn go_matrix<T: Px>() {
    let p = arg(1);
    let k = 2 + choice(2);
    let n = space(k).num_components();
    // out channel i takes channel from[i] (4: the constant one)
    let from = [[0usize, 1, 2, 3], [2, 0, 1, 3], [1, 1, 4, 3], [2, 1, 0, 4]][p];
    let mut m = [[0.0f32; 5]; 4];
    for i in 0..4 {
        m[i][from[i]] = 1.0;
    }
    let (x, at) = (T::sym_unit(), choice(n));
    let (v, o) = one::<T>(&ColorMatrix::new(m), k, at, x);
    for i in 0..n {
        let want = match from[i] {
            4 => T::MAX,
            j if j < n => v[j],
            _ => T::MAX,
        };
        check(o[i] == want, 4);
    }
    reach(1);
}
/// matrix(depth, which): identity, permutations and constants
#[no_mangle]
#[inline(never)]
pub extern "C" fn matrix() {
    by_depth!(arg(0), go_matrix)
}
fn go_composite<T: Px>() {
    let (k, m, al) = (arg(1), arg(2), arg(3));
    let method = [CompositeMethod::Over, CompositeMethod::Src, CompositeMethod::Dst][m];
    let n = space(k).num_components();
    let has = space(k).has_alpha();
    let ((sw, sh), (dw, dh)) = ((2usize, 2usize), (3usize, 3usize));
    let alpha = [T::default(), T::MAX][al];
    let mut s: Vec<T> = (0..sw * sh * n).map(|_| T::sym_unit()).collect();
    let d: Vec<T> = (0..dw * dh * n).map(|i| T::of([9, 250, 100, 255][(i % n) & 3])).collect();
    if has {
        for p in s.chunks_exact_mut(n) {
            p[n - 1] = alpha;
        }
    }
    let (x0, y0) = (pick(5), pick(5));
    let src = T::img(&s, sw, sh, space(k));
    let mut im = T::img(&d, dw, dh, space(k));
    run1(&Composite::new(&src, method, (x0, y0)), &mut im, 1);
    let o = flat::<T>(&im);
    check(o.len() == d.len(), 2);
    for y in 0..dh {
        for x in 0..dw {
            for c in 0..n {
                let i = (y * dw + x) * n + c;
                let inside = x >= x0 && x < x0 + sw && y >= y0 && y < y0 + sh;
                match m {
                    0 if inside && (!has || al == 1) => check(o[i] == s[((y - y0) * sw + x - x0) * n + c], 3),
                    1 if inside => check(o[i] == s[((y - y0) * sw + x - x0) * n + c], 4),
                    1 => (),
                    _ => check(o[i] == d[i], 5),
                }
            }
        }
    }
    reach(1);
}
/// composite(depth, space, method, 0 transparent / 1 opaque): at every position, also past the edge
#[no_mangle]
#[inline(never)]
pub extern "C" fn composite() {
    by_depth!(arg(0), go_composite)
}
/// over with any source alpha on an opaque image: the weighted mean, and the result is opaque
#[no_mangle]
#[inline(never)]
pub extern "C" fn over() {
    let k = if arg(0) == 0 { 1 } else { 3 };
    let n = space(k).num_components();
    let (al, c, d) = (u8v(), [0u8, 255, 100][choice(3)], [0u8, 255, 40][choice(3)]);
    let mut s = vec![c; n];
    s[n - 1] = al;
    let mut t = vec![d; n];
    t[n - 1] = 255;
    let src = Image::from_u8(&s, 1, 1, space(k));
    let mut im = Image::from_u8(&t, 1, 1, space(k));
    run1(&Composite::new(&src, CompositeMethod::Over, (0, 0)), &mut im, 1);
    let o = flat::<u8>(&im);
    for i in 0..n - 1 {
        let want = al as i32 * c as i32 + (255 - al as i32) * d as i32;
        let got = o[i] as i32 * 255;
        check(got - want <= 255 && want - got <= 258, 2);
    }
    check(o[n - 1] >= 254, 3);
    reach(1);
}

fn go_over_alpha<T: Px>() {
    let which = arg(1);
    let x = T::sym_unit();
    let y = T::of([0, 1, 60, 128, 250, 255][choice(6)]);
    let (a, b) = if which == 0 { (x, y) } else { (y, x) };
    let src = T::img(&[T::of(70), a], 1, 1, ColorSpace::LumaA);
    let mut im = T::img(&[T::of(70), b], 1, 1, ColorSpace::LumaA);
    run1(&Composite::new(&src, CompositeMethod::Over, (0, 0)), &mut im, 1);
    let o = flat::<T>(&im);
    // a + b - ab, between opaque and transparent
    let (a, b, m) = (a.f(), b.f(), T::MAX.f());
    let want = a + b - a * b / m;
    let t = if T::INT { 1.01 } else { 1e-4 };
    let got = o[1].f();
    check((got - want <= t) & (want - got <= t), 2);
    let same = o[0].f() - T::of(70).f();
    check((same <= t) & (same >= -t), 3);
    reach(1);
}
/// over_alpha(depth, 0 any source / 1 any target): how opaque one picture over another is
#[no_mangle]
#[inline(never)]
pub extern "C" fn over_alpha() {
    by_depth!(arg(0), go_over_alpha)
}
