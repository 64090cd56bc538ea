//! hue, saturation and lightness
use crate::*;
use zune_imageprocs::hsv_adjust::HsvAdjust;

fn go_hsv<T: Px>() {
    let k = arg(1);
    let c = space(k);
    let n = c.num_components();
    let mut v: Vec<T> = (0..n).map(|i| T::of([13, 200, 77, 128][i])).collect();
    for x in v.iter_mut().take(arg(3)) {
        *x = T::sym_unit();
    }
    if let Some(a) = c.alpha_position() {
        v[a] = T::sym_unit();
    }
    let (h, s, l) = [(0.0f32, 1.0f32, 1.0f32), (0.0, 0.0, 1.0), (90.0, 0.0, 1.0), (33.0, 1.0, 0.0), (120.0, 1.0, 1.0), (360.0, 1.0, 1.0), (0.0, 2.0, 1.0), (0.0, 1.0, 3.0)][arg(2)];
    let mut im = T::img(&v, 1, 1, c);
    check(HsvAdjust::new(h, s, l).execute(&mut im).is_ok(), 1);
    check(im.colorspace() == c && im.depth() == T::DEPTH && im.dimensions() == (1, 1), 2);
    let o = flat::<T>(&im);
    check(o.len() == n, 3);
    if let Some(a) = c.alpha_position() {
        check(o[a].bits() == v[a].bits(), 4);
    }
    // gray pictures go there and back with weights of 0.9999 in all
    let step = if !T::INT { 0.0002 } else if n < 3 { 1.0 + T::MAX.f() / 9000.0 } else { 1.0 };
    let near = |a: T, b: f32| a.f() - b <= step && b - a.f() <= step;
    let color = if n < 3 { 1 } else { 3 };
    match arg(2) {
        // nothing
        0 if color == 3 && T::INT => (0..3).for_each(|i| check(o[i] == v[i], 5)),
        0 => (0..color).for_each(|i| check(near(o[i], v[i].f()), 5)),
        5 => (0..color).for_each(|i| check(near(o[i], v[i].f()), 6)),
        // gray
        1 | 2 => {
            if color == 3 {
                let y = 0.299 * v[0].f() + 0.587 * v[1].f() + 0.114 * v[2].f();
                (0..3).for_each(|i| check(near(o[i], y), 7));
            } else {
                check(near(o[0], v[0].f()), 8);
            }
        }
        // black
        3 => (0..color).for_each(|i| check(o[i] == T::default(), 9)),
        _ => (0..color).for_each(|i| check(o[i].f() >= 0.0 && o[i].f() <= T::MAX.f(), 10)),
    }
    reach(1);
}
/// args: depth, colour space, adjustment, free samples
#[no_mangle]
#[inline(never)]
pub extern "C" fn hsv() {
    by_depth!(arg(0), go_hsv)
}
