//! Image operations of zune-imageprocs
use symrt::*;
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_image::image::Image;
use zune_image::traits::OperationsTrait;

mod geometry;
mod point;
mod near;
mod tone2;
pub use tone2::*;
pub use geometry::*;
pub use near::*;
pub use point::*;

/// a sample type
pub trait Px: Copy + Default + PartialEq + PartialOrd + 'static + bytemuck::Pod {
    const DEPTH: BitDepth;
    const MAX: Self;
    const INT: bool = true;
    /// a sample between black and white; floats: one of 65537 steps
    fn sym_unit() -> Self {
        Self::sym()
    }
    /// an 8 bit value scaled to the depth
    fn of(x: u8) -> Self;
    /// a number as a sample, clamped to the range (floats: as it is)
    fn of_f32(x: f32) -> Self;
    fn sym() -> Self;
    fn bits(self) -> u64;
    fn img(v: &[Self], w: usize, h: usize, c: ColorSpace) -> Image;
    fn f(self) -> f32;
}
macro_rules! px {
    ($t:ty, $d:ident, $m:expr, $s:expr, $b:expr, $f:ident, $($extra:tt)*) => {
        impl Px for $t {
            const DEPTH: BitDepth = BitDepth::$d;
            const MAX: Self = $m;
            fn sym() -> Self {
                $s
            }
            fn bits(self) -> u64 {
                $b(self)
            }
            fn img(v: &[Self], w: usize, h: usize, c: ColorSpace) -> Image {
                Image::$f(v, w, h, c)
            }
            fn f(self) -> f32 {
                self as f32
            }
            $($extra)*
        }
    };
}
px!(u8, Eight, 255, u8v(), |x| x as u64, from_u8,
    fn of(x: u8) -> Self { x }
    fn of_f32(x: f32) -> Self { if x <= 0.0 { 0 } else if x >= 255.0 { 255 } else { x as u8 } });
px!(u16, Sixteen, 65535, u16v(), |x| x as u64, from_u16,
    fn of(x: u8) -> Self { x as u16 * 257 }
    fn of_f32(x: f32) -> Self { if x <= 0.0 { 0 } else if x >= 65535.0 { 65535 } else { x as u16 } });
px!(f32, Float32, 1.0, f32::from_bits(u32v()), |x: f32| x.to_bits() as u64, from_f32,
    const INT: bool = false;
    fn sym_unit() -> Self { u16v() as f32 / 65535.0 }
    fn of(x: u8) -> Self { x as f32 / 255.0 }
    fn of_f32(x: f32) -> Self { x });

pub fn syms<T: Px>(n: usize) -> Vec<T> {
    (0..n).map(|_| T::sym()).collect()
}
pub fn flat<T: Px>(im: &Image) -> Vec<T> {
    im.flatten_frames::<T>().remove(0)
}
pub fn same<T: Px>(a: &[T], b: &[T], id: u64) {
    check(a.len() == b.len(), id + 1000);
    for i in 0..a.len().min(b.len()) {
        check(a[i].bits() == b[i].bits(), id);
    }
}
pub fn space(k: usize) -> ColorSpace {
    [ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA][k]
}
/// does the same to an animation of that picture twice: every frame has to come out as the picture does
pub fn frames_too(im: &Image, after: impl FnOnce(&mut Image) -> bool) -> impl FnOnce(&Image) {
    let f = im.frames_ref()[0].clone();
    let (w, h) = im.dimensions();
    let mut two = Image::new_frames(vec![f.clone(), f], im.depth(), w, h, im.colorspace());
    *two.metadata_mut() = im.metadata().clone();
    check(after(&mut two), 900);
    move |one: &Image| {
        check(two.frames_len() == 2 && two.dimensions() == one.dimensions() && two.colorspace() == one.colorspace() && two.depth() == one.depth(), 901);
        macro_rules! cmp {
            ($t:ty) => {{
                let a = one.flatten_frames::<$t>().remove(0);
                for b in two.flatten_frames::<$t>() {
                    check(a.len() == b.len(), 902);
                    for i in 0..a.len().min(b.len()) {
                        check(a[i].bits() == b[i].bits(), 903);
                    }
                }
            }};
        }
        match one.depth() {
            BitDepth::Eight => cmp!(u8),
            BitDepth::Sixteen => cmp!(u16),
            _ => cmp!(f32),
        }
    }
}
pub fn run(op: &dyn OperationsTrait, im: &mut Image, id: u64) {
    let same = frames_too(im, |x| op.execute(x).is_ok());
    run1(op, im, id);
    same(im);
}
/// the same for operations that only take single pictures
pub fn run1(op: &dyn OperationsTrait, im: &mut Image, id: u64) {
    check(op.execute(im).is_ok(), id);
}
/// a free choice that the solver enumerates
pub fn pick(n: usize) -> usize {
    let x = u8v() as usize;
    assume(x < n);
    concrete(x as u64) as usize
}
#[macro_export]
macro_rules! by_depth {
    ($d:expr, $f:ident) => {
        match $d {
            0 => $f::<u8>(),
            1 => $f::<u16>(),
            _ => $f::<f32>(),
        }
    };
}
harnesses!(
    geometry, crop, pad, transpose_all, invert, threshold, tones, brighten, stretch, blend, premul, premul_f32, matrix, composite, over, over_alpha, bilateral, spatial, median, convolve, edges, flat_blur, blurred, unsharpen, affine, resize, hsv
);
