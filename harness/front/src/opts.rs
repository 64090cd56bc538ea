use crate::*;

const CS: [ColorSpace; 5] = [ColorSpace::RGB, ColorSpace::RGBA, ColorSpace::Luma, ColorSpace::LumaA, ColorSpace::CMYK];
const BD: [BitDepth; 3] = [BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32];

fn flag() -> bool {
    u8v() & 1 == 1
}
/// every setting of the encoder keeps its own value, whatever else is set and in whatever order
#[no_mangle]
pub extern "C" fn encoder_opts() {
    let d = EncoderOptions::default();
    check((d.quality() == 80) & (d.effort() == 4) & (d.num_threads() == 4) & (d.depth() == BitDepth::Eight), 1);
    check((d.colorspace() == ColorSpace::RGB) & !d.jpeg_encode_progressive() & !d.strip_metadata(), 2);
    let (w, h, q, e, t, p, s) = (u64v() as usize, u64v() as usize, u8v(), u8v(), u8v(), flag(), flag());
    assume(h != 0);
    let (c, b) = (CS[pick(5)], BD[pick(3)]);
    let set = |o: EncoderOptions, i: usize| match i {
        0 => o.set_width(w),
        1 => o.set_height(h),
        2 => o.set_quality(q),
        3 => o.set_effort(e),
        4 => o.set_num_threads(t),
        5 => o.set_jpeg_encode_progressive(p),
        6 => o.set_strip_metadata(s),
        7 => o.set_colorspace(c),
        _ => o.set_depth(b),
    };
    // start anywhere, set each once
    let mut o = EncoderOptions::new(u64v() as usize, u64v() as usize, CS[pick(5)], BD[pick(3)]);
    o = o.set_jpeg_encode_progressive(flag()).set_strip_metadata(flag()).set_quality(u8v()).set_effort(u8v()).set_num_threads(u8v());
    let huffman = o.jpeg_optimized_huffman_tables();
    let first = arg(0);
    for i in 0..9 {
        o = set(o, (i + first) % 9);
    }
    check((o.width() == w) & (o.height() == h), 3);
    check(o.quality() == if q > 100 { 100 } else { q }, 4);
    check((o.effort() == e) & (o.num_threads() == t), 5);
    check(o.jpeg_encode_progressive() == p, 6);
    check(o.strip_metadata() == s, 7);
    check((o.colorspace() == c) & (o.depth() == b), 8);
    check(o.jpeg_optimized_huffman_tables() == huffman, 9);
    reach(1);
}
/// the same for decoders
#[no_mangle]
pub extern "C" fn decoder_opts() {
    let d = DecoderOptions::default();
    check((d.max_width() == 1 << 14) & (d.max_height() == 1 << 14), 1);
    check(!d.strict_mode() & d.use_unsafe() & !d.png_get_strip_to_8bit() & !d.png_get_add_alpha_channel(), 2);
    check(d.jpeg_get_out_colorspace() == ColorSpace::RGB, 3);
    let base = match arg(1) {
        0 => DecoderOptions::default(),
        1 => DecoderOptions::new_safe(),
        2 => DecoderOptions::new_fast(),
        _ => DecoderOptions::new_cmd(),
    };
    let (w, h, lim, scans) = (u64v() as usize, u64v() as usize, u64v() as usize, u64v() as usize);
    let (strict, uns, adler, crc, alpha, strip, anim, jxl, le) =
        (flag(), flag(), flag(), flag(), flag(), flag(), flag(), flag(), flag());
    let c = CS[pick(5)];
    let set = |o: DecoderOptions, i: usize| match i {
        0 => o.set_max_width(w),
        1 => o.set_max_height(h),
        2 => o.inflate_set_limit(lim),
        3 => o.jpeg_set_max_scans(scans),
        4 => o.set_use_unsafe(uns),
        5 => o.png_set_add_alpha_channel(alpha),
        6 => o.png_set_strip_to_8bit(strip),
        7 => o.png_set_decode_animated(anim),
        8 => o.jxl_set_decode_animated(jxl),
        9 => o.set_byte_endian(if le { ByteEndian::LE } else { ByteEndian::BE }),
        _ => o.jpeg_set_out_colorspace(c),
    };
    // whatever was set before
    let mut o = base
        .set_strict_mode(flag())
        .png_set_strip_to_8bit(flag())
        .png_set_add_alpha_channel(flag())
        .set_use_unsafe(flag())
        .png_set_decode_animated(flag())
        .jxl_set_decode_animated(flag())
        .inflate_set_limit(u64v() as usize)
        .jpeg_set_max_scans(u64v() as usize)
        .set_max_width(u64v() as usize)
        .set_max_height(u64v() as usize)
        .jpeg_set_out_colorspace(CS[pick(5)])
        .set_byte_endian(if flag() { ByteEndian::LE } else { ByteEndian::BE });
    let first = arg(0);
    for i in 0..11 {
        o = set(o, (i + first) % 11);
        if i == 5 {
            // strict mode, then single checks
            o = o.set_strict_mode(strict);
            check(o.strict_mode() == strict, 4);
            check((o.inflate_get_confirm_adler() == strict) & (o.png_get_confirm_crc() == strict), 5);
            o = o.inflate_set_confirm_adler(adler).png_set_confirm_crc(crc);
        }
    }
    check((o.max_width() == w) & (o.max_height() == h), 6);
    check((o.inflate_get_limit() == lim) & (o.jpeg_get_max_scans() == scans), 7);
    check((o.use_unsafe() == uns) & (o.png_get_add_alpha_channel() == alpha), 8);
    check((o.png_get_strip_to_8bit() == strip) & (o.png_decode_animated() == anim), 9);
    check((o.jxl_decode_animated() == jxl) & (o.jpeg_get_out_colorspace() == c), 10);
    check(o.byte_endian() == if le { ByteEndian::LE } else { ByteEndian::BE }, 11);
    check((o.inflate_get_confirm_adler() == adler) & (o.png_get_confirm_crc() == crc), 12);
    // without unsafe code no SIMD, with it what the machine has
    let simd = [o.use_sse2(), o.use_sse3(), o.use_sse41(), o.use_avx(), o.use_avx2()];
    let all = DecoderOptions::default();
    let have = [all.use_sse2(), all.use_sse3(), all.use_sse41(), all.use_avx(), all.use_avx2()];
    for i in 0..5 {
        check(simd[i] == (uns & have[i]), 13);
    }
    check(!o.use_neon(), 14);
    reach(1);
}
