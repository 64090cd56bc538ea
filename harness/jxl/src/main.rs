//! JPEG XL files: what the encoder writes, read back by the reader in read.rs
mod read;
use read::decode;
use symrt::*;
use zune_core::bit_depth::BitDepth;
use zune_core::colorspace::ColorSpace;
use zune_core::options::EncoderOptions;
use zune_jpegxl::JxlSimpleEncoder;

fn space(k: usize) -> ColorSpace {
    [ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::RGB, ColorSpace::RGBA][k]
}
/// args: depth (8, 16), colour space, width, height, free samples, background, effort, pixels after the free samples
#[no_mangle]
#[inline(never)]
pub extern "C" fn lossless() {
    let (bits, k, w, h, free, back, effort) = (arg(0), arg(1), arg(2), arg(3), arg(4), arg(5), arg(6));
    let n = space(k).num_components();
    let len = w * h * n;
    let max = (1usize << bits) - 1;
    let mut px: Vec<u16> = (0..len)
        .map(|i| match back {
            0 => 0,
            1 => max as u16,
            2 => (i * 7 % (max + 1)) as u16,
            // steep
            3 => ((i / n + i / n / w) % 2 * max) as u16,
            // noise
            5 => ((i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (64 - bits)) as u16,
            // one colour with a dot far away
            _ => if i == len - 1 { 1 } else { (max / 3) as u16 },
        })
        .collect();
    let at = len - free - arg(7) * n;
    for p in &mut px[at..at + free] {
        *p = if bits == 8 { u8v() as u16 } else { u16v() };
    }
    let raw: Vec<u8> = if bits == 8 { px.iter().map(|p| *p as u8).collect() } else { px.iter().flat_map(|p| p.to_ne_bytes()).collect() };
    let depth = if bits == 8 { BitDepth::Eight } else { BitDepth::Sixteen };
    let mut o = EncoderOptions::new(w, h, space(k), depth).set_num_threads(0);
    if effort != 0 {
        o = o.set_effort(effort as u8);
    }
    let mut out = vec![];
    let r = JxlSimpleEncoder::new(&raw, o).encode(&mut out);
    check(matches!(r, Ok(n) if n == out.len()), 1);
    let (v, colour, alpha) = decode(&out, w, h, space(k));
    check(colour == bits, 2);
    check(!space(k).has_alpha() || alpha == bits, 3);
    check(v.len() == len, 4);
    for i in 0..len {
        check(v[i] == px[i] as i32, 5);
    }
    reach(1);
}
/// what cannot be encoded is refused
#[no_mangle]
#[inline(never)]
pub extern "C" fn refused() {
    let (w, h, k) = (1 + choice(3), 1 + choice(3), choice(4));
    let full = w * h * space(k).num_components();
    let len = [full, full + 1, full - 1, 0][choice(4)];
    let depth = [BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32][choice(3)];
    let raw = vec(len);
    if w < 2 || h < 2 || len != full * depth.size_of() || depth == BitDepth::Float32 {
        let mut out = vec![];
        let r = JxlSimpleEncoder::new(&raw, EncoderOptions::new(w, h, space(k), depth)).encode(&mut out);
        check(r.is_err() && out.is_empty(), 1);
        reach(1);
    }
}
harnesses!(lossless, refused);
