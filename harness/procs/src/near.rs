//! operations that look at the neighbours of a sample
use crate::*;
use zune_core::colorspace::ColorCharacteristics;
use zune_imageprocs::affine::AffineTransform;
use zune_imageprocs::bilateral_filter::BilateralFilter;
use zune_imageprocs::box_blur::BoxBlur;
use zune_imageprocs::convolve::Convolve;
use zune_imageprocs::gaussian_blur::GaussianBlur;
use zune_imageprocs::median::Median;
use zune_imageprocs::resize::{Resize, ResizeMethod};
use zune_imageprocs::scharr::Scharr;
use zune_imageprocs::sobel::Sobel;
use zune_imageprocs::spatial::SpatialOps;
use zune_imageprocs::spatial_ops::SpatialOperations;
use zune_imageprocs::unsharpen::Unsharpen;

/// a picture of table values with the sample at `at` replaced
fn table<T: Px>(w: usize, h: usize, at: usize, x: T) -> Vec<T> {
    let mut v: Vec<T> = (0..w * h).map(|i| T::of(((i * 71 + 13 * (i / w)) % 256) as u8)).collect();
    v[at] = x;
    v
}
/// the sample at (x, y), those outside are those of the edge
fn edge<T: Px>(v: &[T], w: usize, h: usize, x: isize, y: isize) -> T {
    v[y.clamp(0, h as isize - 1) as usize * w + x.clamp(0, w as isize - 1) as usize]
}
fn gray<T: Px>(op: &dyn OperationsTrait, v: &[T], w: usize, h: usize) -> Vec<T> {
    let mut im = T::img(v, w, h, ColorSpace::Luma);
    run(op, &mut im, 101);
    check(im.dimensions() == (w, h) && im.colorspace() == ColorSpace::Luma && im.depth() == T::DEPTH, 102);
    let o = flat::<T>(&im);
    check(o.len() == v.len(), 103);
    o
}
/// |a - b| <= t
fn close<T: Px>(a: T, b: f64, t: f64) -> bool {
    let a = a.f() as f64;
    a - b <= t && b - a <= t
}

fn go_spatial<T: Px>() {
    let (op, r, w, h) = (arg(1), arg(2), arg(3), arg(4));
    let v = syms::<T>(w * h);
    let o = gray(&SpatialOps::new(r, [SpatialOperations::Maximum, SpatialOperations::Minimum, SpatialOperations::Gradient, SpatialOperations::Mean, SpatialOperations::Contrast][op]), &v, w, h);
    let r = r as isize;
    for y in 0..h {
        for x in 0..w {
            let (mut hi, mut lo, mut sum) = (0u64, T::MAX.bits(), 0);
            for dy in -r..=r {
                for dx in -r..=r {
                    let s = edge(&v, w, h, x as isize + dx, y as isize + dy).bits();
                    hi = if s > hi { s } else { hi };
                    lo = if s < lo { s } else { lo };
                    sum += s as u32;
                }
            }
            let n = ((2 * r + 1) * (2 * r + 1)) as u32;
            let got = o[y * w + x].bits();
            match op {
                0 => check(got == hi, 1),
                1 => check(got == lo, 2),
                2 => check(got == hi - lo, 3),
                3 => check(got == (sum / n) as u64, 4),
                _ => check(got <= 1, 5),
            }
        }
    }
    reach(1);
}
/// spatial(depth, op, radius, w, h): maximum, minimum, range and mean of the window
#[no_mangle]
#[inline(never)]
pub extern "C" fn spatial() {
    if arg(0) == 0 {
        go_spatial::<u8>()
    } else {
        go_spatial::<u16>()
    }
}

fn go_median<T: Px>() {
    let (r, w, h, levels) = (arg(1), arg(2), arg(3), arg(4));
    let lv = [T::of(7), T::of(200), T::of(90), T::of(0), T::MAX];
    let v: Vec<T> = (0..w * h).map(|_| lv[pick(levels)]).collect();
    let o = gray(&Median::new(r), &v, w, h);
    let r = r as isize;
    for y in 0..h {
        for x in 0..w {
            let (mut below, mut upto) = (0, 0);
            let m = o[y * w + x];
            for dy in -r..=r {
                for dx in -r..=r {
                    let s = edge(&v, w, h, x as isize + dx, y as isize + dy);
                    below += (s < m) as isize;
                    upto += (s <= m) as isize;
                }
            }
            // half of the window is below, half above
            let n = (2 * r + 1) * (2 * r + 1);
            check(below <= n / 2 && upto > n / 2, 1);
        }
    }
    reach(1);
}
/// median(depth, radius, w, h, levels)
#[no_mangle]
#[inline(never)]
pub extern "C" fn median() {
    if arg(0) == 0 {
        go_median::<u8>()
    } else {
        go_median::<u16>()
    }
}

fn go_convolve<T: Px>() {
    let (n, kernel, w, h) = (arg(1), arg(2), arg(3), arg(4));
    let half = n as isize / 2;
    let (weights, scale): (Vec<f32>, f32) = match kernel {
        0 => (vec![1.0; n * n], 1.0 / (n * n) as f32),
        1 => ((0..n * n).map(|i| if i == n * n / 2 { 2.0 * (n * n) as f32 - 1.0 } else { -1.0 }).collect(), 0.5),
        2 => ((0..n * n).map(|i| (i as f32) - 3.0).collect(), 0.125),
        // moves the picture
        _ => {
            let k = arg(6);
            ((0..n * n).map(|i| if i == k { 1.0 } else { 0.0 }).collect(), 1.0)
        }
    };
    let v = table::<T>(w, h, arg(5), T::sym_unit());
    let o = gray(&Convolve::new(weights.clone(), scale), &v, w, h);
    for y in 0..h {
        for x in 0..w {
            let mut sum = 0.0f64;
            for i in 0..n * n {
                let (dx, dy) = ((i % n) as isize - half, (i / n) as isize - half);
                sum += edge(&v, w, h, x as isize + dx, y as isize + dy).f() as f64 * weights[i] as f64;
            }
            sum *= scale as f64;
            let sum = if sum < 0.0 { 0.0 } else if sum > T::MAX.f() as f64 { T::MAX.f() as f64 } else { sum };
            let moved = kernel == 3 && T::INT;
            check(close(o[y * w + x], sum, if moved { 0.0 } else if T::INT { 1.01 } else { 1e-4 }), 1);
        }
    }
    reach(1);
}
/// convolve(depth, size, kernel, w, h, at, k): the weighted sum of the window
#[no_mangle]
#[inline(never)]
pub extern "C" fn convolve() {
    by_depth!(arg(0), go_convolve)
}

fn go_edges<T: Px>() {
    let (op, w, h) = (arg(1), arg(2), arg(3));
    let v = table::<T>(w, h, choice(w * h), T::sym_unit());
    let f: Box<dyn OperationsTrait> = match op {
        0 => Box::new(Sobel::new()),
        _ => Box::new(Scharr::new()),
    };
    // corner and middle weights of the kernels
    let (c, m) = [(1.0f64, 2.0f64), (3.0, 10.0)][op];
    let o = gray(&*f, &v, w, h);
    for y in 0..h {
        for x in 0..w {
            let at = |dx: isize, dy: isize| edge(&v, w, h, x as isize + dx, y as isize + dy).f() as f64;
            let gx = c * (at(1, -1) - at(-1, -1)) + m * (at(1, 0) - at(-1, 0)) + c * (at(1, 1) - at(-1, 1));
            let gy = c * (at(-1, 1) - at(-1, -1)) + m * (at(0, 1) - at(0, -1)) + c * (at(1, 1) - at(1, -1));
            let want = (gx * gx + gy * gy).sqrt();
            if T::INT {
                let top = T::MAX.f() as f64;
                check(close(o[y * w + x], if want > top { top } else { want }, 1.01), 1);
            } else {
                check(close(o[y * w + x], want, 1e-3), 1);
            }
        }
    }
    reach(1);
}
/// edges(depth, op, w, h): the magnitude of the documented gradients
#[no_mangle]
#[inline(never)]
pub extern "C" fn edges() {
    by_depth!(arg(0), go_edges)
}

fn blur(op: usize, p: usize) -> Box<dyn OperationsTrait> {
    match op {
        0 => Box::new(BoxBlur::new([0, 1, 2, 3, 5, 20][p])),
        1 => Box::new(GaussianBlur::new([0.0, 0.3, 1.0, 1.7, 3.0, 8.0][p])),
        _ => {
            let (d, c, s) = [(0, 10.0, 10.0), (1, 25.0, 25.0), (2, 25.0, 3.0), (3, 75.0, 75.0), (5, 10.0, 2.0), (4, 500.0, 1.0)][p];
            Box::new(BilateralFilter::new(d, c, s))
        }
    }
}
fn go_flat<T: Px>() {
    let (op, p, w, h) = (arg(1), arg(2), arg(3), arg(4));
    let x = T::sym_unit();
    let v = vec![x; w * h];
    let o = gray(&*blur(op, p), &v, w, h);
    for s in o {
        check(close(s, x.f() as f64, if T::INT { 0.0 } else { 1e-4 }), 1);
    }
    reach(1);
}
/// flat(depth, op, parameter, w, h): blurring one colour gives that colour
#[no_mangle]
#[inline(never)]
pub extern "C" fn flat_blur() {
    by_depth!(arg(0), go_flat)
}
fn go_bilateral<T: Px>() {
    let (p, w, h) = (arg(1), arg(2), arg(3));
    let (d, sc, ss) = [(3, 4.0f32, 2.0f32), (4, 3000.0, 1.0), (5, 60.0, 1.5)][p];
    // 65536 weights take a while
    let at = if T::DEPTH == zune_core::bit_depth::BitDepth::Eight { choice(w * h) } else { 2 };
    // the colours may be far apart
    let x = T::of([0, 1, 90, 127, 128, 129, 254, 255][choice(8)]);
    let mut v: Vec<T> = (0..w * h).map(|i| T::of([0, 255, 3, 130][(i * 7 + i / w) % 4])).collect();
    v[at] = x;
    let o = gray(&BilateralFilter::new(d, sc, ss), &v, w, h);
    let r = d as isize / 2;
    for y in 0..h as isize {
        for x in 0..w as isize {
            let mid = edge(&v, w, h, x, y).f() as f64;
            let (mut sum, mut all) = (0.0, 0.0);
            for dy in -r..=r {
                for dx in -r..=r {
                    let far = (dx * dx + dy * dy) as f64;
                    if far.sqrt() > r as f64 {
                        continue;
                    }
                    let s = edge(&v, w, h, x + dx, y + dy).f() as f64;
                    let e = |x: f64, s: f32| (-x / (2.0 * s as f64 * s as f64)).exp();
                    let weight = e((s - mid) * (s - mid), sc) * e(far, ss);
                    sum += s * weight;
                    all += weight;
                }
            }
            check(close(o[y as usize * w + x as usize], sum / all, 0.51), 1);
        }
    }
    reach(1);
}
/// bilateral(depth, parameters, w, h): the mean weighted by distance in place and in value
#[no_mangle]
#[inline(never)]
pub extern "C" fn bilateral() {
    by_depth!(arg(0), go_bilateral)
}
/// the mean of the samples around each in a row, `len` samples `step` apart
fn box_rows(v: &mut [u64], len: usize, rows: usize, r: usize, step: usize, stride: usize) {
    let d = (2 * r + 1).min(len);
    let d = if d % 2 == 0 { d - 1 } else { d };
    let half = (d / 2) as isize;
    for k in 0..rows {
        let row: Vec<u64> = (0..len).map(|i| v[k * stride + i * step]).collect();
        for i in 0..len {
            let mut sum = 0u64;
            for x in -half..=half {
                sum += row[(i as isize + x).clamp(0, len as isize - 1) as usize];
            }
            v[k * stride + i * step] = sum / d as u64;
        }
    }
}
fn go_blur<T: Px>() {
    let (op, p, w, h) = (arg(1), arg(2), arg(3), arg(4));
    let at = choice(w * h);
    let x = T::sym_unit();
    let v = table::<T>(w, h, at, x);
    let o = gray(&*blur(op, p), &v, w, h);
    // an average is between the smallest and the largest
    let (mut lo, mut hi) = (v[0], v[0]);
    for s in &v {
        lo = if *s < lo { *s } else { lo };
        hi = if *s > hi { *s } else { hi };
    }
    for s in &o {
        if T::INT {
            check(*s >= lo && *s <= hi, 1);
        } else {
            check(s.f() >= lo.f() - 1e-4 && s.f() <= hi.f() + 1e-4, 1);
        }
    }
    if op == 0 && T::INT {
        let r = [0, 1, 2, 3, 5, 20][p];
        let mut want: Vec<u64> = v.iter().map(|s| s.bits()).collect();
        if r > 1 {
            box_rows(&mut want, w, h, r | 1, 1, w);
            box_rows(&mut want, h, w, r | 1, w, 1);
        }
        for i in 0..w * h {
            check(o[i].bits() == want[i], 2);
        }
    }
    // the mirror image of the blurred is the blurred mirror image
    let mut back: Vec<T> = v.clone();
    back.reverse();
    let mut other = gray(&*blur(op, p), &back, w, h);
    other.reverse();
    for i in 0..w * h {
        check(close(o[i], other[i].f() as f64, if T::INT { if op == 2 { 1.0 } else { 0.0 } } else { 1e-4 }), 4);
    }
    if op == 2 {
        let (d, c, s) = [(0, 10.0, 10.0), (1, 25.0, 25.0), (2, 25.0, 3.0), (3, 75.0, 75.0), (5, 10.0, 2.0), (4, 500.0, 1.0)][p];
        let r = d / 2;
        let color: Vec<f64> = (0..256).map(|i| ((i * i) as f64 * -0.5 / (c * c)).exp()).collect();
        for y in 0..h {
            for x in 0..w {
                let mid = v[y * w + x].bits() as i64;
                let (mut sum, mut n) = (0.0f64, 0.0f64);
                for dy in -r..=r {
                    for dx in -r..=r {
                        if dx * dx + dy * dy <= r * r {
                            let q = edge(&v, w, h, x as isize + dx, y as isize + dy).bits() as i64;
                            let wt = color[(q - mid).unsigned_abs() as usize] * (((dx * dx + dy * dy) as f64) * -0.5 / (s * s)).exp();
                            sum += wt * q as f64;
                            n += wt;
                        }
                    }
                }
                check(close(o[y * w + x], sum / n, 1.01), 3);
            }
        }
    }
    reach(1);
}
/// blurred(depth, op, parameter, w, h): an average of samples nearby
#[no_mangle]
#[inline(never)]
pub extern "C" fn blurred() {
    by_depth!(arg(0), go_blur)
}

fn go_unsharpen<T: Px>() {
    let (p, w, h) = (arg(1), arg(2), arg(3));
    let (sigma, t) = [(1.0, 0), (1.0, 10), (3.0, 40), (0.3, 1000)][p];
    let v = table::<T>(w, h, choice(w * h), T::sym_unit());
    let mut blurred = T::img(&v, w, h, ColorSpace::Luma);
    run(&GaussianBlur::new(sigma), &mut blurred, 1);
    let b = flat::<T>(&blurred);
    let o = gray(&Unsharpen::new(sigma, t, 100), &v, w, h);
    let t = if T::MAX.bits() == 255 && t > 255 { (t as u64) & 255 } else { t as u64 };
    for i in 0..w * h {
        let (x, y, z) = (v[i].bits(), b[i].bits(), o[i].bits());
        let diff = if x > y { x - y } else { 0 };
        let want = if diff > t { if x + diff > T::MAX.bits() { T::MAX.bits() } else { x + diff } } else { x };
        check(z == want, 2);
    }
    reach(1);
}
/// unsharpen(depth, parameter, w, h): the sample plus what it exceeds its blur by
#[no_mangle]
#[inline(never)]
pub extern "C" fn unsharpen() {
    if arg(0) == 0 {
        go_unsharpen::<u8>()
    } else {
        go_unsharpen::<u16>()
    }
}

fn go_affine<T: Px>() {
    let (p, w, h) = (arg(1), arg(2), arg(3));
    let v = table::<T>(w, h, choice(w * h), T::sym_unit());
    let t = match p {
        0 => AffineTransform::identity(),
        1 => AffineTransform::translation(2.0, -1.0),
        2 => AffineTransform::scale(2.0, 2.0),
        3 => AffineTransform::scale(1.0, 3.0),
        _ => AffineTransform::identity().then(&AffineTransform::translation(1.0, 1.0)),
    };
    let (fx, fy) = [(1, 1), (1, 1), (2, 2), (1, 3), (1, 1)][p];
    let mut im = T::img(&v, w, h, ColorSpace::Luma);
    run(&t, &mut im, 1);
    check(im.dimensions() == (w * fx, h * fy), 2);
    let o = flat::<T>(&im);
    check(o.len() == w * fx * h * fy, 3);
    for y in 0..h {
        for x in 0..w {
            check(close(o[y * fy * w * fx + x * fx], v[y * w + x].f() as f64, if T::INT { 0.0 } else { 1e-6 }), 4);
        }
    }
    reach(1);
}
/// affine(depth, transform, w, h): identity, translation and whole scales keep the samples
#[no_mangle]
#[inline(never)]
pub extern "C" fn affine() {
    by_depth!(arg(0), go_affine)
}

fn go_resize<T: Px>() {
    let (m, w, h, nw, nh) = (arg(1), arg(2), arg(3), arg(4), arg(5));
    let method = [ResizeMethod::Bilinear, ResizeMethod::Lanczos3, ResizeMethod::Lanczos2, ResizeMethod::Bicubic, ResizeMethod::CatmullRom, ResizeMethod::BSpline, ResizeMethod::Hermite, ResizeMethod::Sinc, ResizeMethod::Mitchell][m];
    let x = T::sym_unit();
    let go = |v: &[T]| {
        let mut im = T::img(v, w, h, ColorSpace::Luma);
        // linear by its transfer function, or marked as such
        if arg(6) == 0 {
            im.metadata_mut().set_color_trc(ColorCharacteristics::Linear);
        } else {
            im.metadata_mut().set_linear(true);
        }
        run(&Resize::new(nw, nh, method), &mut im, 1);
        check(im.metadata().is_linear() == (arg(6) == 1), 7);
        check(im.dimensions() == (nw, nh) && im.colorspace() == ColorSpace::Luma && im.depth() == T::DEPTH, 2);
        let o = flat::<T>(&im);
        check(o.len() == nw * nh, 3);
        o
    };
    // one colour stays
    for s in go(&vec![x; w * h]) {
        check(close(s, x.f() as f64, if T::INT { 1.0 } else { 1e-4 }), 4);
    }
    let v = table::<T>(w, h, choice(w * h), x);
    let o = go(&v);
    if (w, h) == (nw, nh) {
        for i in 0..w * h {
            check(close(o[i], v[i].f() as f64, if T::INT { 0.0 } else { 1e-6 }), 5);
        }
    }
    if matches!(m, 0 | 5 | 6) {
        // averages
        let (mut lo, mut hi) = (v[0], v[0]);
        for s in &v {
            lo = if *s < lo { *s } else { lo };
            hi = if *s > hi { *s } else { hi };
        }
        for s in &o {
            let t = if T::INT { 1.0 } else { 1e-4 };
            check(s.f() >= lo.f() - t && s.f() <= hi.f() + t, 6);
        }
    }
    reach(1);
}
/// resize(depth, method, w, h, new w, new h, 1: marked linear)
#[no_mangle]
#[inline(never)]
pub extern "C" fn resize() {
    by_depth!(arg(0), go_resize)
}
