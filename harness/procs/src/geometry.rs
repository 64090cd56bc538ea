//! operations that only move samples
use crate::*;
use zune_imageprocs::crop::Crop;
use zune_imageprocs::flip::{Flip, FlipDirection};
use zune_imageprocs::mirror::{Mirror, MirrorMode};
use zune_imageprocs::rotate::Rotate;
use zune_imageprocs::transpose::Transpose;

fn go<T: Px>() {
    let (op, mut w, mut h, k) = (arg(1), arg(2), arg(3), arg(4));
    if w == 0 {
        // every size up to `h`
        w = 1 + pick(h);
        h = 1 + pick(h);
    }
    let cs = space(k);
    let n = cs.num_components();
    let px = syms::<T>(w * h * n);
    let mut im = T::img(&px, w, h, cs);
    let o: Box<dyn OperationsTrait> = match op {
        0 => Box::new(Flip::new(FlipDirection::Horizontal)),
        1 => Box::new(Flip::new(FlipDirection::Vertical)),
        2 => Box::new(Flip::new(FlipDirection::MirrorXAxis)),
        3 => Box::new(Transpose::new()),
        4 => Box::new(Rotate::new(90.0)),
        5 => Box::new(Rotate::new(180.0)),
        6 => Box::new(Rotate::new(270.0)),
        7 => Box::new(Rotate::new(0.0)),
        8 => Box::new(Mirror::new(MirrorMode::East)),
        9 => Box::new(Mirror::new(MirrorMode::West)),
        10 => Box::new(Mirror::new(MirrorMode::North)),
        11 => Box::new(Mirror::new(MirrorMode::South)),
        12 => Box::new(Rotate::new(360.0)),
        _ => Box::new(Rotate::new(450.0)),
    };
    run(&*o, &mut im, 1);
    let (nw, nh) = if matches!(op, 3 | 4 | 6 | 13) { (h, w) } else { (w, h) };
    check(im.dimensions() == (nw, nh) && im.colorspace() == cs && im.depth() == T::DEPTH, 2);
    let got = flat::<T>(&im);
    check(got.len() == px.len(), 3);
    for y in 0..nh {
        for x in 0..nw {
            // where this sample comes from
            let (sx, sy) = match op {
                0 => (w - 1 - x, y),
                1 => (x, h - 1 - y),
                2 | 5 => (w - 1 - x, h - 1 - y),
                3 => (y, x),
                4 | 13 => (y, h - 1 - x),
                6 => (w - 1 - y, x),
                // the part before the middle is kept, the rest is its reflection (or the other way round)
                8 => (x.min(w - 1 - x), y),
                9 => (x.max(w - 1 - x), y),
                10 => (x, y.min(h - 1 - y)),
                11 => (x, y.max(h - 1 - y)),
                _ => (x, y),
            };
            for c in 0..n {
                check(got[(y * nw + x) * n + c].bits() == px[(sy * w + sx) * n + c].bits(), 4);
            }
        }
    }
    // what undoes it
    let back: Option<Box<dyn OperationsTrait>> = match op {
        0 => Some(Box::new(Flip::new(FlipDirection::Horizontal))),
        1 => Some(Box::new(Flip::new(FlipDirection::Vertical))),
        2 => Some(Box::new(Rotate::new(180.0))),
        3 => Some(Box::new(Transpose::new())),
        4 => Some(Box::new(Rotate::new(270.0))),
        5 => Some(Box::new(Flip::new(FlipDirection::MirrorXAxis))),
        6 => Some(Box::new(Rotate::new(90.0))),
        _ => None,
    };
    if let Some(b) = back {
        run(&*b, &mut im, 5);
        check(im.dimensions() == (w, h), 6);
        same(&flat::<T>(&im), &px, 7);
    }
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn geometry() {
    by_depth!(arg(0), go)
}
fn go_crop<T: Px>() {
    let (w, h, k) = (arg(1), arg(2), arg(3));
    let cs = space(k);
    let n = cs.num_components();
    let px = syms::<T>(w * h * n);
    let mut im = T::img(&px, w, h, cs);
    let (cw, ch) = (pick(w + 1), pick(h + 1));
    let (x0, y0) = (pick(w - cw + 1), pick(h - ch + 1));
    if cw == 0 || ch == 0 {
        return;
    }
    run(&Crop::new(cw, ch, x0, y0), &mut im, 1);
    check(im.dimensions() == (cw, ch), 2);
    let got = flat::<T>(&im);
    check(got.len() == cw * ch * n, 3);
    for y in 0..ch {
        for x in 0..cw {
            for c in 0..n {
                check(got[(y * cw + x) * n + c].bits() == px[((y + y0) * w + x + x0) * n + c].bits(), 4);
            }
        }
    }
    reach(1);
}
/// every rectangle inside the image
#[no_mangle]
#[inline(never)]
pub extern "C" fn crop() {
    by_depth!(arg(0), go_crop)
}
fn go_pad<T: Px>() {
    use zune_imageprocs::pad::*;
    let (w, h, a, b) = (arg(1), arg(2), pick(arg(3)), pick(arg(3)));
    let px = syms::<T>(w * h);
    for m in [PadMethod::Constant, PadMethod::Replicate] {
        let o = zune_imageprocs::pad::pad(&px, w, h, a, b, m);
        check(o.len() == (w + 2 * a) * (h + 2 * b), 1);
        for y in 0..h + 2 * b {
            for x in 0..w + 2 * a {
                let (sx, sy) = (x.saturating_sub(a).min(w - 1), y.saturating_sub(b).min(h - 1));
                let inside = x >= a && x < w + a && y >= b && y < h + b;
                let want = if inside || matches!(m, PadMethod::Replicate) { px[sy * w + sx] } else { T::default() };
                check(o[y * (w + 2 * a) + x].bits() == want.bits(), 2);
            }
        }
    }
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn pad() {
    by_depth!(arg(0), go_pad)
}
/// the transpose of any width and height up to a bound, in one call per type
#[no_mangle]
#[inline(never)]
pub extern "C" fn transpose_all() {
    use zune_imageprocs::transpose::*;
    let (lo, hi) = (arg(1), arg(2));
    macro_rules! t {
        ($t:ty, $f:ident) => {{
            let (w, h) = (lo + pick(hi - lo + 1), lo + pick(hi - lo + 1));
            let px = syms::<$t>(w * h);
            let mut o = vec![<$t>::default(); w * h];
            $f(&px, &mut o, w, h);
            for y in 0..h {
                for x in 0..w {
                    check(o[x * h + y].bits() == px[y * w + x].bits(), 1);
                }
            }
        }};
    }
    match arg(0) {
        0 => t!(u8, transpose_u8),
        1 => t!(u16, transpose_u16),
        2 => t!(f32, transpose_float),
        _ => t!(u8, transpose_generic),
    }
    reach(1);
}
