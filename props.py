"""What is run for each property: harness entry, bounds, limits."""


class Case:
    def __init__(self, crate, entry, args=(), time=60, simd=2, jobs=1, reach=(), tier="quick", witness=2, qtimeout=30, must=False, note="", split=False):
        self.crate, self.entry, self.args, self.time, self.simd, self.jobs = crate, entry, list(args), time, simd, jobs
        self.reach, self.tier, self.witness, self.qtimeout, self.must, self.note = list(reach), tier, witness, qtimeout, must, note
        self.split = split


class Prop:
    def __init__(self, cases, assumptions=()):
        self.cases, self.assumptions = cases, list(assumptions) + COMMON


COMMON = [
    "rustc's optimised LLVM IR (lto, panic=abort, overflow checks on, auto-vectorisation off) stands for the release build",
    "allocation succeeds; memory contents and threads: single-threaded execution; std feature detection is modelled for the SIMD level of each case",
    "nothing is claimed beyond the stated sizes of each case",
]
PROPS = {}


def prop(pid, cases, assumptions=()):
    PROPS[pid] = Prop(cases, assumptions)


C = Case
prop("C01", [
    C("qoi", "roundtrip", (2, 1, 3), jobs=3, time=40, reach=[1], note="every 2x1 RGB image"),
    C("qoi", "roundtrip", (1, 2, 4), jobs=3, time=40, reach=[1], note="every 1x2 RGBA image"),
    C("qoi", "roundtrip_hist", (3, 3), jobs=3, time=40, reach=[1], note=""),
    C("qoi", "roundtrip_hist", (3, 4), jobs=3, time=40, reach=[1], note=""),
    C("qoi", "roundtrip_run", (61, 3, 0), jobs=1, reach=[1], note=""),
    C("qoi", "roundtrip_run", (62, 3, 1), jobs=1, reach=[1], note=""),
    C("qoi", "roundtrip_run", (63, 4, 0), jobs=1, reach=[1], note=""),
    C("qoi", "roundtrip_run", (64, 4, 1), jobs=1, reach=[1], note=""),
    C("qoi", "roundtrip_run", (125, 3, 1), jobs=1, reach=[1], note=""),
    C("qoi", "decode_ref", (2, 1, 3, 0), jobs=2, time=40, reach=[1], note=""),
    C("qoi", "decode_ref", (4, 1, 4, 2), jobs=2, time=40, reach=[1], note=""),
    C("qoi", "decode_ref", (5, 1, 3, 3), jobs=2, reach=[1], note=""),
    C("qoi", "header", (), jobs=1, reach=[1, 2], note=""),
    C("qoi", "nopanic", (17,), reach=[2], note="every 17-byte file"),
])
prop("C02", [
    C("raw", "ff_roundtrip", (2, 2), reach=[1]),
    C("raw", "ff_roundtrip", (3, 1), reach=[1]),
    C("raw", "ff_length", (1, 2, 15), reach=[1]),
    C("raw", "ff_length", (1, 2, 17), reach=[1]),
    C("raw", "ff_any", (32,), reach=[1, 2]),
    *[C("raw", "ppm_roundtrip", (3, 2, c, d), reach=[1]) for c in range(4) for d in (1, 2)],
    *[C("raw", "ppm_roundtrip", (11, 1, c, 1), reach=[1]) for c in range(4)],
    *[C("raw", "ppm_text", (k,), reach=[1, 2]) for k in range(3)],
    *[C("raw", "pfm", (2, h, c), reach=[1]) for h in (1, 2, 3, 4) for c in (1, 3)],
    *[C("raw", "ppm_maxval", (k, d), reach=[1 if d < 3 else 2]) for k in range(3) for d in (1, 2, 3, 4, 5)],
    C("raw", "ppm_any", (6,), reach=[2], jobs=4),
])
prop("C03", [
    C("hdr", "value_one", (), reach=[1], jobs=2),
    C("hdr", "flat", (7, 1, 4), reach=[1]),
    C("hdr", "flat", (3, 2, 3), reach=[1]),
    C("hdr", "flat_wide", (9, 0), reach=[1]),
    C("hdr", "flat_wide", (8, 1), reach=[1]),
    *[C("hdr", "flat_runs", (w,), reach=[1]) for w in (257, 260, 300, 770)],
    *[C("hdr", "rle", (8, 1, p), reach=[1], jobs=2) for p in range(4)],
    C("hdr", "rle", (8, 2, 1), reach=[1], jobs=2),
    C("hdr", "rle", (300, 1, 4), reach=[1]),
    C("hdr", "header", (), reach=[1, 2]),
    C("hdr", "roundtrip", (9, 1, 0, 9), reach=[1]),
    C("hdr", "roundtrip", (5, 2, 0, 5), reach=[1]),
    C("hdr", "roundtrip", (8, 2, 2, 4), reach=[1]),
    C("hdr", "roundtrip", (140, 1, 125, 6), reach=[1]),
    C("hdr", "roundtrip", (262, 1, 252, 5), reach=[1]),
    *[C("hdr", "roundtrip_value", (k,), reach=[1]) for k in range(3)],
    C("hdr", "any_body", (2, 10), reach=[1, 2], jobs=2),
    C("hdr", "any_body", (8, 10), reach=[2], jobs=2),
    C("hdr", "any_head", (4, 0), reach=[2], jobs=2),
    C("hdr", "any_head", (5, 1), reach=[2], jobs=2),
])
prop("C04", [
    C("inflate", "stored", (3, 4, 0), reach=[1]),
    C("inflate", "stored", (40, 2, 100), reach=[1]),
    C("inflate", "stored", (0, 9, 0), reach=[1]),
    C("inflate", "stored_len", (), reach=[1, 2]),
    C("inflate", "zlib_roundtrip", (6,), reach=[1]),
    C("inflate", "zlib_roundtrip", (0,), reach=[1]),
    C("inflate", "zlib_long", (65536,), reach=[1]),
    C("inflate", "zlib_long", (65535,), reach=[1]),
    C("inflate", "zlib_long", (66000,), reach=[1], tier="thorough"),
    C("inflate", "zlib_check", (3,), reach=[1, 2]),
    C("inflate", "gzip", (2,), reach=[1, 2]),
    C("inflate", "fixed_block", (0, 1, 0), reach=[1, 2], split=True),
    C("inflate", "fixed_block", (3, 1, 80), reach=[1, 2], split=True),
    C("inflate", "fixed_block", (3, 2, 80), reach=[1, 2], split=True, jobs=4, tier="thorough"),
    C("inflate", "fixed_block", (30, 1, 80), reach=[1, 2], split=True),
    *[C("inflate", "dynamic_block", (k, 3, 1, t), reach=[2 if k in (3, 5) else 1], split=True) for k in range(6) for t in (0, 80)],
    *[C("inflate", "dynamic_block", (k, 3, 2, t), reach=[1], tier="thorough", split=True, jobs=4) for k in range(3) for t in (0, 80)],
    C("inflate", "matches", (4, 3, 40, 0), reach=[1]),
    C("inflate", "matches", (9, 3, 40, 90), reach=[1]),
    C("inflate", "matches", (2, 240, 19, 90), reach=[1]),
    C("inflate", "far", (33000, 5, 32768), reach=[1]),
    C("inflate", "far", (33000, 40, 24577), reach=[1]),
    C("inflate", "far", (33000, 40, 20000), reach=[1], tier="thorough"),
    *[C("inflate", "limit", (k, n, 100, t), reach=[1]) for k in range(3) for n in (99, 100, 101, 400) for t in (0, 80)],
    *[C("inflate", "truncated", (k, 1), reach=[1], split=True) for k in range(0, 24)],
    *[C("inflate", "truncated", (k, 2), reach=[1], split=True, tier="thorough") for k in range(0, 9)],
    C("inflate", "any", (0, 4, 0), reach=[2], split=True, jobs=2, time=30),
    C("inflate", "any", (0, 6, 3), reach=[2], split=True, jobs=2, time=30),
    C("inflate", "any", (1, 4, 1), reach=[2], split=True, jobs=2, time=30),
    C("inflate", "any", (2, 16, 2), reach=[2], split=True, jobs=2, time=30),
])
prop("C13", [
    *[C("bytes", "reader", (k, 5, 2, 1, 0), reach=[1], jobs=2) for k in range(3)],
    *[C("bytes", "reader", (k, 9, 1, 1, 1), reach=[1]) for k in range(3)],
    *[C("bytes", "reader", (k, 4, 2, 1, 1), reach=[1], time=40) for k in range(3)],
    *[C("bytes", "reader", (k, 6, 3, 0, 0), reach=[1], jobs=2, time=20) for k in range(3)],
    C("bytesn", "reader", (0, 5, 2, 1, 0), reach=[1], jobs=2),
    C("bytesn", "reader", (0, 9, 1, 1, 1), reach=[1]),
    C("bytesn", "reader", (0, 4, 2, 1, 1), reach=[1]),
    C("bytesn", "reader", (0, 6, 3, 0, 0), reach=[1], jobs=2, time=20),
    C("bytes", "cursor", (4,), reach=[1]),
    C("bytesn", "cursor", (4,), reach=[1]),
    *[C(c, "writer", a, reach=[1]) for c in ("bytes", "bytesn") for a in ((2, 9), (3, 12))],
])

prop("C14", [
    *[C("image", "channel", (k, 3, c), reach=[1]) for k in range(3) for c in (0, 4)],
    *[C("image", "channel", (k, 5, 2), reach=[1], tier="thorough") for k in range(3)],
    C("image", "channel_eq", (3,), reach=[1]),
])
prop("C15", [
    *[C("image", "layout", (d, k, 3, 2), reach=[1], simd=1) for d in range(3) for k in (0, 1, 2, 3, 4, 5, 6, 7, 9, 10)],
    *[C("image", "layout", (d, k, 7, 17), reach=[1], simd=s) for d in range(3) for k in (1, 2, 3) for s in (0, 1, 2)],
    *[C("image", "layout", (d, k, 2, w), reach=[1], simd=s, time=90) for d in range(3) for k in (2, 3) for w in (35, 70) for s in (1, 2)],
    *[C("image", "layout", (d, k, w, 1), reach=[1], simd=s, tier="thorough", time=90) for d in range(3) for k in (1, 2, 3, 5) for w in range(1, 80, 3) for s in (0, 1, 2)],
    *[C("image", "arith", (k, 2, d), reach=[1]) for k in (0, 1, 2, 3, 4, 5) for d in (0, 1)],
])
_rgb = (2, 3, 4, 5, 6)
prop("C16", [
    *[C("image", "reorder", (d, a, b, 2), reach=[1]) for d in range(3) for a in _rgb for b in _rgb if a != b],
    *[C("image", "reorder", (d, a, b, 2), reach=[1]) for d in range(3) for a in (0, 1) for b in _rgb],
    *[C("image", "reorder", (d, 0, 1, 2), reach=[1]) for d in range(3)],
    *[C("image", "gray", (d, a, b, 1, 1), reach=[1], time=120) for d in (0, 1) for a in (2, 3) for b in (0, 1)],
    *[C("image", "gray", (d, 4, 0, 1, 1), reach=[1], time=120) for d in (0, 1)],
    *[C("image", "gray", (d, 2, 0, w, 1), reach=[1], simd=s, time=120) for d in (0, 1) for s, w in ((1, 19), (2, 35))],
    C("image", "gray", (0, 2, 0, 1, 0), reach=[1], time=200, qtimeout=180, tier="thorough"),
    *[C("image", "gray_f32", (a, b, 2), reach=[1]) for a in (2, 3) for b in (0, 1)],
    *[C("image", "cmyk", (d, k, lo), reach=[1]) for d in range(3) for k in range(8) for lo in (0,)],
    *[C("image", "hue", (k, p), reach=[1], time=120) for k in (8, 9) for p in range(6) if (k, p) not in ((9, 4), (8, 4))],
    *[C("image", "hue", (k, 4), reach=[1], time=120, tier="thorough") for k in (8, 9)],
])
prop("C17", [
    *[C("image", "depth", (a, b, k), reach=[1]) for a in range(3) for b in range(3) for k in (0, 1, 2, 3)],
    *[C("image", "depth_clamp", (k,), reach=[1]) for k in (0, 1)],
])

prop("C18", [
    *[C("front", "orient", (j, b, b ^ (w == 3), w, h, t), reach=[1]) for j in (0, 1) for b in (0, 1) for w, h in ((3, 2), (1, 4)) for t in (0, 1) if not (j and t)],
    *[C("front", "orient", (0, b, o, w, h, t), reach=[1], tier="thorough") for b in (0, 1) for o in (0, 1) for w in range(1, 6) for h in range(1, 6) for t in (0, 1)],
    *[C("procs", "geometry", (d, op, 0, 9, s), reach=[1], simd=m) for d in range(3) for op in range(14) for s, m in ((0, 2), (3, 1))],
    *[C("procs", "geometry", (d, op, w, h, 2), reach=[1]) for d in range(3) for op in range(14) for w, h in ((19, 3), (5, 18))],
    *[C("procs", "crop", (d, 4, 3, s), reach=[1]) for d in range(3) for s in (0, 1, 3)],
    *[C("procs", "pad", (d, w, h, n), reach=[1]) for d in range(2) for w, h, n in ((3, 2, 3), (1, 1, 6), (2, 3, 6))],
    *[C("procs", "pad", (d, 3, 3, 18), reach=[1], tier="thorough") for d in range(2)],
    *[C("procs", "transpose_all", (t, 1, 18), reach=[1], simd=m) for t in range(4) for m in (0, 1, 2)],
    *[C("procs", "transpose_all", (t, 1, 34), reach=[1], simd=m, time=200, tier="thorough") for t in range(4) for m in (0, 1, 2)],
])
prop("C19", [
    *[C("procs", "invert", (d,), reach=[1]) for d in range(3)],
    *[C("procs", "hsv", (0, k, a, 1), reach=[1]) for k in (0, 2) for a in range(8)],
    *[C("procs", "hsv", (d, 2, a, 1), reach=[1]) for d in (1, 2) for a in (0, 1, 3, 6)],
    *[C("procs", "hsv", (d, k, a, n), reach=[1], tier="thorough") for d in range(3) for k, n in ((0, 1), (1, 1), (2, 1), (2, 2), (3, 1)) for a in range(8)],
    *[C("procs", "threshold", (d, m, t), reach=[1]) for d in range(3) for m in range(4) for t in range(10)],
    *[C("procs", "tones", (d, op, p, k, 0), reach=[1]) for d in range(3) for op in range(4) for p in range(6) for k in (0, 3)
      if (d, op) != (2, 3) and (op != 1 or d == 0)],
    *[C("procs", "tones", (0, op, p, 0, 1), reach=[1]) for op in range(4) for p in range(6)],
    *[C("procs", "brighten", (d, p), reach=[1]) for d in range(3) for p in range(6)],
    *[C("procs", "stretch", (d, p), reach=[1]) for d in range(3) for p in range(6) if (d, p) != (2, 3)],
    *[C("procs", "blend", (d, a, k), reach=[1]) for d in range(3) for a in range(12) for k in (0, 3)],
    *[C("procs", "premul", (d, k, a), reach=[1]) for d in range(2) for k in range(2) for a in (range(8) if d else (0,))],
    C("procs", "premul_f32", (), reach=[1]),
    *[C("procs", "matrix", (d, p), reach=[1]) for d in range(3) for p in range(4)],
    *[C("procs", "composite", (d, k, m, a), reach=[1]) for d in range(3) for k in range(4) for m in range(3) for a in range(2)
      if k in (1, 3) or a == 1],
    *[C("procs", "over", (a,), reach=[1]) for a in range(2)],
    *[C("procs", "over_alpha", (d, k), reach=[1]) for d in range(3) for k in range(2)],
])
prop("C20", [
    *[C("procs", "spatial", (d, op, 1, 3, 2), reach=[1]) for d in range(2) for op in range(5)],
    *[C("procs", "spatial", (0, op, 2, 3, 3), reach=[1], time=120, tier="thorough") for op in range(5)],
    *[C("procs", "median", (0, r, w, h, l), reach=[1]) for r, w, h, l in ((2, 3, 3, 2), (2, 2, 2, 3), (3, 5, 1, 2), (2, 7, 1, 2))],
    *[C("procs", "median", (1, r, w, h, l), reach=[1]) for r, w, h, l in ((2, 3, 2, 2), (2, 4, 1, 2))],
    *[C("procs", "convolve", (0, n, 3, 3, 2, 4, k), reach=[1]) for n in (3, 5, 7) for k in sorted({*range(0, n * n, n - 2), n - 1, n * n - n, n * n - 1})],
    *[C("procs", "convolve", (d, n, 3, 3, 2, 4, k), reach=[1], tier="thorough") for d in range(3) for n in (3, 5, 7) for k in range(n * n)],
    *[C("procs", "convolve", (d, 3, k, 3, 2, 1, 0), reach=[1]) for d in range(3) for k in range(3)],
    *[C("procs", "convolve", (d, n, k, 3, 2, a, 0), reach=[1], tier="thorough") for d in range(3) for k in range(3) for n in (5, 7) for a in (0, 2)],
    *[C("procs", "edges", (d, op, 3, 2), reach=[1]) for d in range(3) for op in range(2)],
    *[C("procs", "flat_blur", (d, op, p, w, h), reach=[1]) for d in range(3) for op in range(3) for p in range(6) for w, h in ((1, 4), (6, 1))
      if (op == 0 or d == 0)],
    *[C("procs", "flat_blur", (d, op, p, w, h), reach=[1], time=120, tier="thorough") for d in range(2) for op in range(2) for p in range(6) for w, h in ((4, 3), (9, 2))],
    *[C("procs", "blurred", (0, op, p, 3, 2), reach=[1]) for op in range(3) for p in (2, 4)],
    *[C("procs", "bilateral", (d, p, 3, 2), reach=[1]) for d, p in ((0, 0), (0, 1), (0, 2), (1, 1))],
    C("procs", "bilateral", (1, 2, 4, 3), reach=[1], tier="thorough"),
    *[C("procs", "blurred", (0, 0, p, 7, 1), reach=[1]) for p in (2, 4)],
    *[C("procs", "blurred", (d, op, p, 3, 2), reach=[1], time=150, tier="thorough") for d in range(3) for op in range(3) for p in range(6) if d == 0 or op == 0 or (d, op) == (1, 1)],
    *[C("procs", "unsharpen", (0, p, 3, 2), reach=[1]) for p in range(2)],
    *[C("procs", "unsharpen", (d, p, 3, 2), reach=[1], time=150, tier="thorough") for d in range(2) for p in range(4)],
    *[C("procs", "affine", (d, p, 3, 2), reach=[1]) for d in range(3) for p in range(5)],
    *[C("procs", "resize", (0, m, 3, 2, nw, nh), reach=[1]) for m in range(9) for nw, nh in ((3, 2), (5, 3), (2, 1), (3, 4), (1, 2))],
    *[C("procs", "resize", (0, m, 3, 2, nw, nh, 1), reach=[1]) for m in (0, 1) for nw, nh in ((3, 2), (5, 3))],
    *[C("procs", "resize", (d, m, 3, 2, nw, nh), reach=[1], tier="thorough") for d in range(3) for m in range(9) for nw, nh in ((3, 2), (4, 4), (2, 1), (6, 2), (1, 3))],
])

PNG_KINDS = [(0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)]


def png_expand(rows, kinds=PNG_KINDS, tier="quick", time=60):
    out = []
    for c, d in kinds:
        w = {1: 11, 2: 6, 4: 5}.get(d, 3)
        modes = [0, 2, 32, 64 + 128, 8, 10]
        if c in (0, 2, 3):
            modes += [4, 6, 36]
        if d == 16:
            modes += [1, 3, 9, 33, 145, 25, 144, 24, 384]
        out += [C("png", "expand", (w, rows, c, d, 120, m), reach=[1], tier=tier, time=time) for m in modes]
    return out


prop("C05", [
    *png_expand(3),
    *[C("png", "expand", (17, 1, c, 16, 0, m), reach=[1], simd=s) for c in (0, 6) for s in (0, 1, 2) for m in (0, 24)],
    *[C("png", "expand", (9, 9, c, d, 1, 32), reach=[1]) for c, d in ((0, 1), (3, 4), (2, 8), (4, 16))],
    *[C("png", "filters", (3, 2, c, d, f), reach=[1], simd=s) for c, d in ((0, 8), (2, 8), (4, 8), (6, 8), (0, 16), (2, 16), (6, 16)) for f in (10, 11, 12, 13, 2, 30, 31) for s in ((0, 2) if c != 0 else (2,))],
    *[C("png", "filters", (2, 2, c, d, f), reach=[1], simd=s, time=40) for c, d in ((0, 8), (2, 8), (4, 8), (6, 8), (0, 16)) for f in (14, 40) for s in ((0, 2) if c != 0 else (2,))],
    *[C("png", "filters", (2, 2, c, 16, 14), reach=[1], simd=s, time=60) for c in (2, 6) for s in (0, 2)],
    *[C("png", "frames", (3, 2, c, m), reach=[1]) for c in (0, 6) for m in (0, 1, 32)],
    *[C("png", "crc_check", (n, 2, k), reach=[1, 2]) for n in (3, 12) for k in (0, 2, 15)],
    *png_expand(9, tier="thorough", time=120),
    *[C("png", "filters", (4, 3, c, d, 434), reach=[1], simd=s, tier="thorough", time=400, qtimeout=200) for c, d in ((0, 8), (2, 8), (4, 8), (6, 8), (2, 16), (6, 16)) for s in (0, 2)],
    *[C("png", "filters", (5, 4, c, d, f), reach=[1], simd=s, tier="thorough", time=200) for c, d in ((0, 8), (2, 8), (4, 8), (6, 8), (2, 16), (6, 16)) for f in (1230, 3131) for s in (0, 2)],
])
prop("C06", [
    *[C("png", "encode_head", (c, b, x), reach=[1]) for c in (1, 2, 3, 4) for b in (1, 2) for x in (0, 5)],
    *[C("png", "roundtrip", (w, h, c, b, 99, 0), reach=[1]) for c in (1, 2, 3, 4) for b in (1, 2) for w, h in ((3, 2), (1, 5), (7, 1))],
    *[C("png", "encode_ref", (w, h, c, b), reach=[1]) for c in (1, 2, 3, 4) for b in (1, 2) for w, h in ((3, 2), (2, 4))],
    *[C("png", "roundtrip", (3, 2, c, b, 1, 1), reach=[1]) for c in (1, 2, 3, 4) for b in (1, 2)],
    C("png", "roundtrip", (2, 2, 1, 1, 2, 1), reach=[1]),
    C("png", "roundtrip", (91, 91, 1, 1, 1, 0), reach=[1], note="more than one IDAT chunk"),
    *[C("png", "roundtrip", (3, 2, c, b, 2, 1), reach=[1], tier="thorough", time=300) for c in (1, 2, 3, 4) for b in (1, 2)],
    *[C("png", "roundtrip", (w, h, c, b, 999, 0), reach=[1], tier="thorough", time=300) for c in (1, 2, 3, 4) for b in (1, 2) for w, h in ((17, 4), (5, 9))],
])

BMP_KINDS = [(1, 2), (2, 4), (4, 16), (4, 7), (8, 0), (8, 16), (16, 0), (24, 0), (32, 0)]
prop("C09", [
    *[C("bmp", "plain", (b, w, 2, t, ih, n, g, 0), reach=[1]) for b, n in BMP_KINDS for w in (1, 2, 3, 5, 9) for t, ih, g in ((0, 40, 0), (1, 124, 1), (0, 56, 1), (1, 40, 0))],
    *[C("bmp", "plain", (b, w, 3, 0, ih, n, g, 0), reach=[1]) for b, n in BMP_KINDS if n != 7 for w in (3, 5) for ih, g in ((12, 0), (16, 1), (52, 0), (64, 0), (108, 0))],
    C("bmp", "plain", (8, 3, 2, 0, 40, 5, 0, 9), reach=[1]), C("bmp", "plain", (4, 3, 2, 0, 108, 3, 0, 5), reach=[1]),
    *[C("bmp", "fields", (b, m, w, 2, t, ih, g), reach=[1]) for b, ms in ((32, range(0, 8)), (16, range(8, 14))) for m in ms for w, t, ih, g in ((3, 0, 40, 0), (1, 1, 52, 1), (3, 0, 56, 1), (2, 1, 124, 0))],
    *[C("bmp", "rle", (b, w, h, n, g, e), reach=[1]) for b in (4, 8) for w, h, n in ((5, 2, 3), (4, 3, 3)) for g in (0, 1) for e in (0, 1)],
    *[C("bmp", "header", (ih, b, s), reach=[1, 2]) for ih, b in ((12, 1), (16, 8), (40, 24), (56, 16), (64, 4), (124, 32)) for s in (0, 1)],
    *[C("bmp", "any_header", (n, ih)) for ih, n in ((0, 24), (12, 30), (16, 34), (40, 56), (40, 70), (52, 72))],
    *[C("bmp", "any_body", (b, 3, 2, n, e)) for b in (1, 2, 4, 8, 16, 24, 32) for n in (0, 5, 8) for e in (0, 1, 2, 3)],
    *[C("bmp", "into_size", (b, 3, 2, l)) for b in (1, 8, 16, 24, 32) for l in (0, 17, 18, 23, 24, 25)],
    C("bmp", "profile", (108, 0, 0), reach=[2]), C("bmp", "profile", (124, 5, 0), reach=[1]), C("bmp", "profile", (124, 8, 6), reach=[1]),
    *[C("bmp", "rle", (b, w, h, 4, g, e), reach=[1], tier="thorough", time=300) for b in (4, 8) for w, h in ((6, 2), (4, 3)) for g in (0, 1) for e in (0, 1)],
    *[C("bmp", "any_body", (b, 5, 2, 12, e), tier="thorough", time=300) for b in (4, 8) for e in (1, 2)],
    *[C("bmp", "plain", (b, w, 4, t, ih, n, g, 0), reach=[1], tier="thorough") for b, n in BMP_KINDS if n != 7 for w in (4, 6, 7, 8, 10, 17, 33) for t in (0, 1) for g in (0, 1) for ih in (40, 124)],
])

prop("C10", [
    *[C("psd", "raw", (1, c, 3, 2, d, 0, 0, 2), reach=[1]) for c in (1, 2) for d in (0, 1)],
    *[C("psd", "raw", (m, c, w, 2, 1, a, 1, 0), reach=[1]) for m, c, a in ((3, 3, 0), (3, 4, 1), (4, 4, 1)) for w in (2, 5)],
    C("psd", "raw", (3, 4, 2, 1, 1, 2, 1, 0), reach=[1], note="partly transparent: alpha of 1/2, 3/4 and 65534/65535"),
    C("psd", "raw", (3, 3, 2, 2, 0, 0, 1, 0), note="known finding"),
    C("psd", "rle", (4, 4, 1, 1, 0), note="known finding"),
    *[C("psd", "raw8_part", (m, c, 3, 2, 2), reach=[1]) for m, c in ((3, 3), (3, 4), (4, 4))],
    *[C("psd", "rle", (m, c, w, h, a), reach=[1]) for m, c, a in ((1, 1, 0), (1, 2, 0), (3, 3, 0), (3, 4, 1), (4, 4, 1)) for w, h in ((2, 1), (3, 1), (2, 2))],
    C("psd", "rle", (3, 4, 1, 2, 0), reach=[1], note="every alpha value"),
    C("psd", "rle_long", (0,), reach=[1]), C("psd", "rle_long", (1,), reach=[1]),
    C("psd", "header", (), reach=[1, 2]), C("psd", "any_header", (40,)),
    *[C("psd", "any_body", (m, c, 2, 2, 8, 1, n)) for m, c in ((1, 1), (1, 2), (3, 3), (3, 4)) for n in (0, 6, 12)],
    *[C("psd", "any_body", (m, c, 2, 2, 16, z, n)) for m, c in ((1, 1), (3, 3), (3, 4)) for n in (0, 6, 16, 32) for z in (0, 1)],
    *[C("psd", "rle", (m, c, w, h, a), reach=[1], tier="thorough", time=600) for m, c, a in ((1, 1, 0), (1, 2, 0), (3, 3, 0)) for w, h in ((3, 2), (5, 1))],
    *[C("psd", "any_body", (m, c, 3, 2, 8, 1, 16), tier="thorough", time=300) for m, c in ((1, 1), (1, 2), (3, 3), (3, 4))],
])

# sampling: 0 1x1, 1 2x1, 2 1x2, 3 2x2, 4 gray, 5 gray 2x2, 6 CMYK, 7 and 9 2x2 with 2x1 or 1x2 chroma, 8 4x1, 10 2x2 1x1 1x2, 11 and 12 CMYK subsampled
JMODES = ((0, 0), (1, 1), (2, 2), (3, 3), (4, 0), (5, 2))
prop("C24", [
    *[C("png", "header", (p,), reach=[1, 2]) for p in (0, 1)],
    *[C("png", "any_chunk", (c, d, n, a), reach=[1, 2]) for c, d in ((0, 8), (3, 8)) for n in (0, 1, 2, 3, 4, 6, 7, 8) for a in (0, 1)],
    *[C("png", "any_chunk", (c, d, n, 0), reach=[1, 2]) for c, d in ((2, 8), (4, 8), (6, 16), (0, 2), (3, 1)) for n in (0, 2, 6)],
    *[C("png", "any_chunk", (c, 8, n, 0), reach=[1, 2], tier="thorough", time=300) for c in (0, 2, 3, 4, 6) for n in (5, 9, 10, 12, 26)],
    *[C("png", "meta", (k, n, 3, a, n & 1), reach=[1]) for k in range(11) for n in (1, 2, 78, 79) for a in (0, 1) if k < 7 or n < 3],
    *[C("png", "meta", (k, 5, n, 0, 0), reach=[1]) for k in (0, 1, 2, 3, 4, 5, 6, 9, 10) for n in (0, 1, 7)],
    *[C("png", "suggested", (c, d, n, a), reach=[1]) for c, d in ((0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (4, 8), (6, 8), (6, 16)) for n in (1, 2) for a in (0, 1)],
    *[C("png", "palettes", (8, n, t), reach=[2]) for n in (0, 1, 2, 8, 769, 771) for t in (0, 2)],
    *[C("png", "palettes", (d, n, t), reach=[1]) for d, n in ((8, 3), (8, 9), (8, 768), (4, 48), (4, 9), (2, 12), (1, 6), (1, 3)) for t in (0, 1)],
    *[C("png", "frame_control", (c, w, h, k), reach=[1, 2]) for c in (0, 6) for w, h in ((4, 3), (2, 5)) for k in (0, 1)],
    *[C("png", "cut", (a,), reach=[1, 2]) for a in (0, 1)],
])
prop("C07", [
    # blocks of every scan arrangement, with restarts
    *[C("jpeg", "layout", (20, 20, s, m, ri, 1, 6, 0, p, 2), reach=[1])
      for s in (0, 3, 4) for m, p in JMODES for ri in (0, 2, 3) if not (m == 4 and s == 4)],
    *[C("jpeg", "layout", (17, 33, s, m, 4, 1, 6, 0, p, 2), reach=[1]) for s in (1, 2, 5, 7) for m, p in JMODES if not (m == 4 and s == 5)],
    *[C("jpeg", "layout", (w, h, 3, m, 0, 0, 6, 0, p, 1), reach=[1]) for w, h in ((1, 1), (72, 8)) for m, p in JMODES],
    C("jpeg", "layout", (72, 8, 0, 0, 1, 1, 6, 0, 0, 2), reach=[1], note="restart numbers wrap around"),
    # every value of the coefficients of all blocks
    *[C("jpeg", "layout", (16, 8, s, m, 0, 0, 6, 0, 0, 0), reach=[1]) for s in (0, 4) for m in (0, 1)],
    C("jpeg", "layout", (9, 9, 4, 2, 0, 1, 6, 0, 0, 0), reach=[1], note="progressive against baseline"),
    C("jpeg", "layout", (9, 9, 4, 3, 0, 1, 6, 0, 0, 0), reach=[1], note="successive approximation against baseline"),
    # coefficients of eight to ten bits
    C("jpeg", "layout", (9, 9, 4, 2, 0, 0, 6, 0, 0, 0, 10), reach=[1], note="wide coefficients"),
    C("jpeg", "layout", (9, 9, 4, 3, 0, 0, 6, 0, 0, 0, 9), reach=[1], tier="thorough", time=150, note="wide coefficients"),
    C("jpeg", "layout", (9, 9, 4, 3, 0, 0, 6, 0, 0, 0, 10), reach=[1], time=150, note="wide coefficients"),
    # tables, restarts and skipped segments
    *[C("jpeg", "segments", (k, ri, 2, 0), reach=[1]) for k in range(10) for ri in ((0, 2) if k < 3 else (2,))],
    # code lengths up to sixteen
    *[C("jpeg", "ac1", (k, 4, 3, 0, 0, pl), reach=[1]) for k, pl in ((1, 1), (5, 7), (16, 8), (40, 9), (63, 12))],
    *[C("jpeg", "layout", (w, h, s, m, ri, 1, 6, 0, p, 2), reach=[1], tier="thorough", time=300)
      for w, h in ((20, 20), (8, 8), (33, 17), (40, 9)) for s in (0, 1, 2, 3, 4, 5, 7, 8, 9, 10) for m, p in JMODES for ri in (0, 1, 3, 9) if not (m == 4 and s in (4, 5))],
    *[C("jpeg", "layout", (9, 9, 4, m, 0, 0, 63, 0, 0, 0), reach=[1], tier="thorough", time=600) for m in (0, 2, 3)],
])

prop("C08", [
    *[C("jpeg", "dc", (c, q, s), reach=[1]) for c, q, s in ((1, 255, 0), (5, 40, 1), (8, 9, 0), (10, 2, 1), (11, 1, 0))],
    *[C("jpeg", "ac1", (k, 6, 7, f, s, 1), reach=[1]) for k, f, s in ((1, 0, 0), (2, 0, 1), (3, 3, 0), (8, 0, 1), (20, 0, 0), (35, 1, 1), (63, 0, 0), (62, 0, 1))],
    *[C("jpeg", "simd", (n, q, f), reach=[1]) for n, q, f in ((1, 16, 0), (2, 9, 0), (3, 9, 0), (2, 30, 3))],
    # chroma between its samples; sizes that are no multiple of a block
    *[C("jpeg", "layout", (w, h, s, 0, 0, x, 6, 0, 0, 3), reach=[1]) for w, h in ((20, 20), (5, 3)) for s in (1, 2, 3, 8, 10, 13, 14) for x in (0, 1)],
    *[C("jpeg", "layout", (w, h, s, 0, 0, 1, 6, 0, 0, 3), reach=[1]) for w, h in ((33, 35), (17, 9)) for s in (3, 7, 9, 11, 12, 15, 16, 17)],
    *[C("jpeg", "layout", (20, 20, s, m, 0, 1, 6, 1, 0, 2), reach=[1]) for s in (0, 1, 2, 3) for m in (0, 1)],
    C("jpeg", "layout", (16, 8, 1, 0, 0, 1, 6, 0, 0, 0), reach=[1], note="all coefficients unknown"),
    # colours
    *[C("jpeg", "colour", (w, h, n, a, o, s, 1), reach=[1]) for w, h in ((20, 3), (5, 9))
      for n, a, o in ((1, 0, 0), (1, 0, 1), (1, 0, 2), (1, 1, 1), (3, 0, 0), (3, 0, 1), (3, 0, 2), (3, 0, 3), (3, 2, 4), (13, 1, 1), (4, 0, 1), (4, 1, 2), (4, 3, 1), (4, 3, 2))
      for s in ((0, 1) if n == 3 else (1,))],
    *[C("jpeg", "colour", (w, 8, n, a, o, 1, 1), reach=[1]) for w in (16, 33, 1, 15) for n, a, o in ((3, 0, 1), (3, 0, 2), (14, 3, 2))],
    *[C("jpeg", "ac1", (k, 6, 7, 0, s, 1), reach=[1], tier="thorough", time=300) for k in range(1, 64) for s in (0, 1)],
    *[C("jpeg", "simd", (n, 9, 0), reach=[1], tier="thorough", time=300) for n in (4, 5, 6)],
    *[C("jpeg", "colour", (w, h, n, a, o, s, 4), reach=[1], tier="thorough", time=300) for w, h in ((20, 17), (17, 9))
      for n, a, o in ((3, 0, 1), (3, 0, 2), (3, 0, 3), (3, 0, 4), (4, 1, 1), (4, 3, 2), (14, 3, 1)) for s in (0, 1)],
    *[C("jpeg", "layout", (w, h, s, 0, 0, 1, 63, 0, 0, 0), reach=[1], tier="thorough", time=600) for w, h in ((20, 20),) for s in (1, 2, 3, 10, 12)],
])

prop("C11", [
    *[C("jpeg", "header", (n, p), reach=[1, 2]) for n in (1, 3, 4) for p in (0, 1)],
    *[C("jpeg", "meta", (k, n), reach=[1]) for k in (0, 1, 2, 4, 7, 8, 16, 24, 31, 32, 40, 48) for n in (1, 3)],
    *[C("jpeg", "any", (k, n, st, s, 0, 0, 0, 0)) for k, n in ((4, 2), (4, 3), (5, 3), (6, 0), (6, 2), (6, 8), (7, 1), (7, 6), (7, 8), (8, 2), (8, 4)) for s in (0, 3) for st in ((0, 1) if k == 4 else (0,))],
    *[C("jpeg", "any", (k, 1, 0, 0, 0, 0, 0, 0), time=200) for k in (0, 2)],
    C("jpeg", "any", (1, 2, 0, 0, 0, 0, 0, 0)), C("jpeg", "any", (1, 2, 0, 3, 0, 0, 0, 0)), C("jpeg", "any", (3, 1, 0, 1, 0, 0, 0, 0)),
    C("jpeg", "any", (9, 4, 0, 0, 0, 0, 0, 0)), C("jpeg", "any", (9, 6, 0, 1, 0, 0, 0, 1)), C("jpeg", "any", (10, 4, 0, 3, 0, 0, 0, 0)),
    C("jpeg", "any", (11, 4, 0, 0, 0, 0, 0, 1), time=120), C("jpeg", "any", (12, 1, 0, 0, 0, 0, 0, 1)),
    *[C("jpeg", "any", (13, n, 0, 0, 0, m, 0, 1), time=120) for m in (224, 225, 226, 237, 238, 254) for n in (2, 3)],
    *[C("jpeg", "any", (k, 2, 0, s, 0, 0, 0, 0), tier="thorough", time=840) for k in (0, 2, 3) for s in (0, 1)],
    *[C("jpeg", "any", (13, 4, 0, 0, 0, m, 0, 1), tier="thorough", time=600) for m in (224, 225, 226, 237, 238, 254)],
    *[C("jpeg", "any", (k, n, 0, 1, 0, 0, 0, 1), tier="thorough", time=840) for k, n in ((9, 8), (10, 6), (11, 7), (12, 7))],
])

# damage that leads deep into Huffman decoding or number parsing
_SLOW = {(1, 0), (3, 0), (6, 32), (7, 32), (8, 32), (9, 32), (9, 64), (15, 0), (15, 128)}
prop("C12", [
    *[C("front", "guess", (n,), reach=[1] if n >= 16 else []) for n in (1, 2, 3, 4, 7, 8, 11, 12, 15, 16)],
    *[C("front", "load", (k, f, m), reach=[1]) for k in range(16) for m in range(3)
      for f in ((0, 1, 2, 3) if k in (7, 8, 9) else (0, 4) if k == 15 else (0,))],
    *[C("front", "animation", (w, c, a), reach=[1]) for w in range(8) for c in (0, 2) for a in (0, 1)],
    *[C("front", "animation", (w, c, 0), reach=[1]) for w in (3, 5, 6, 7) for c in (4, 6)],
    *[C("front", "animation", (w, 6, 1), reach=[1]) for w in (0, 1, 2, 3, 4)],
    *[C("front", "limits", (k,), reach=[1, 2]) for k in range(16)],
    *[C("front", "damaged", (k, 0, 1)) for k in range(16)],
    *[C("front", "damaged", (k, b, 0), **(dict(tier="thorough", time=840, split=True) if (k, b) in _SLOW else {})) for k, n in enumerate([16, 36, 74, 35, 46, 47, 52, 75, 85, 103, 69, 61, 69, 45, 51, 161]) for b in range(0, n, 16)],
    *[C("front", "animation", (w, c, a), reach=[1], tier="thorough", time=300) for w in range(8) for c in (4, 6) for a in (0, 1)],
])
prop("C21", [
    *[C("front", "save", (f, cs, d, 2, 1, 1), reach=[1]) for f in range(4) for cs in range(6) for d in range(3) if not (f == 1 and (d == 2 or cs in (3, 5)))],
    *[C("front", "save", (f, cs, d, 1, 2, 2), reach=[1]) for f in (0, 2, 3) for cs in (1, 2) for d in range(3)],
    *[C("front", "save", (4, cs, 3, 2, 1, 1), reach=[1]) for cs in range(6)],
    *[C("front", "keep_exif", (a, b, s, e), reach=[1]) for a in (0, 1) for b in (0, 1) for s in (0, 1) for e in (0, 1)],
    *[C("front", "extension", (n,), reach=[1] if n in (2, 3, 4) else []) for n in range(6)],
    *[C("front", "encoded", (f, n), reach=[1]) for f in (0, 2, 3) for n in (1, 2)],
    # JPEG XL, read back by the harness's own reader
    *[C("jxlsave", "saved", (cs, d, 2, 3, n, f), reach=[1]) for cs, d, n, f in
      ((0, 1, 1, 0), (0, 2, 1, 1), (1, 1, 1, 1), (2, 1, 1, 1), (3, 0, 2, 0), (3, 1, 2, 1), (3, 2, 2, 1), (4, 0, 1, 1), (4, 1, 1, 0), (5, 1, 1, 0))],
    C("jxlsave", "too_small", (1, 3), reach=[1]),
    C("jxlsave", "too_small", (2, 1), reach=[1]),
    *[C("jxlsave", "saved", (cs, d, 2, 3, n, f), reach=[1], time=300, tier="thorough") for cs in range(6) for d in range(3) for n in (1, 2) for f in (0, 1)],
    *[C("front", "save_jpeg", (c, d, p, 3, 2, 0), reach=[1]) for c in (0, 3) for d in range(3) for p in (0, 1)],
    *[C("front", "save_jpeg", (5, d, 1, 3, 2, k), reach=[1]) for d in range(3) for k in (0, 1)],
    *[C("front", "save_jpeg", (5, d, 0, 3, 2, k), reach=[1], time=60, tier="quick" if (d, k) == (0, 1) else "thorough") for d in range(3) for k in range(4)],
    C("front", "save_jpeg", (1, 0, 1, 3, 2, 1), reach=[1], time=60),
    *[C("front", "save_jpeg", (1, 0, 0, 3, 2, k), reach=[1], tier="thorough", time=400) for k in range(3)],
    *[C("front", "save", (1, cs, d, 2, 1, 1), reach=[1], tier="thorough", time=600) for cs in range(6) for d in range(3) if d == 2 or cs in (3, 5)],
    *[C("front", "encoded", (1, n), reach=[1], tier="thorough", time=300) for n in (1, 2)],
    *[C("front", "save_jpeg", (c, d, p, 9, 9, k), reach=[1], tier="thorough", time=840) for c in (1, 2, 4) for d in range(3) for p in (0, 1) for k in range(3)],
    *[C("front", "save", (f, cs, d, 2, 2, 1), reach=[1], tier="thorough", time=600) for f in (0, 2, 3) for cs in range(6) for d in range(3)],
])
prop("C22", [
    *[C("front", "encoder_opts", (k,), reach=[1]) for k in range(9)],
    *[C("front", "decoder_opts", (k, b), reach=[1]) for k in range(11) for b in range(4)],
])
prop("C23", [
    *[C("front", "execute", (k,), reach=[1, 2] if k >= 7 else [2]) for k in range(8)],
    *[C("front", "pipeline", (k, d, o, b), reach=[2] if k == 0 and not d or 0 < b <= o else [1]) for k in (0, 1, 2) for d in (0, 1) for o in (0, 1, 2, 3) for b in (0, 1, 2) if b <= o],
])

# --- JPEG XL
prop("C25", [
    C("jxl", "refused", (), reach=[1]),
    *[C("jxl", "lossless", (b, k, 2, 2, 1, back), reach=[1], time=75) for b in (8, 16) for k in range(4) for back in (0, 3) if (b, k, back) != (16, 2, 0)],
    C("jxl", "lossless", (8, 0, 2, 2, 1, 2, 0, 1), reach=[1]), C("jxl", "lossless", (8, 1, 3, 2, 1, 1, 0, 0), reach=[1]),
    C("jxl", "lossless", (8, 0, 20, 2, 1, 0), reach=[1]),
    C("jxl", "lossless", (8, 0, 7, 2, 1, 0, 0, 6), reach=[1], note="a run as long as the shortest copy, at the end of a row"),
    *[C("jxl", "lossless", (8, 0, w, h, 0, 4, e), reach=[1]) for w, h, e in ((4, 2, 0), (9, 3, 0), (24, 2, 127), (257, 2, 0), (16, 256, 0))],
    C("jxl", "lossless", (8, 2, 300, 3, 0, 2), reach=[1]), C("jxl", "lossless", (16, 3, 40, 33, 0, 2), reach=[1]),
    C("jxl", "lossless", (16, 1, 2, 258, 0, 3), reach=[1]),
    *[C("jxl", "lossless", (8, 0, w, h, 0, 2), reach=[1]) for w, h in ((2, 512), (513, 2), (2, 8192), (8193, 2))],
    C("jxl", "lossless", (16, 3, 56, 48, 0, 5), reach=[1]), C("jxl", "lossless", (8, 2, 20, 20, 0, 5, 127), reach=[1]),
    *[C("jxl", "lossless", (b, k, 2, 2, 1, 2, 0, back), reach=[1], tier="thorough", time=400) for b in (8, 16) for k in range(4) for back in range(4)],
    *[C("jxl", "lossless", (b, k, 2, 2, 2, 2), reach=[1], tier="thorough", time=600) for b in (8, 16) for k in range(4)],
    *[C("jxl", "lossless", (8, 0, w, 2, 1, 0, 0, back), reach=[1], tier="thorough", time=300) for w in (5, 8, 9, 16, 20) for back in (0, 1, 8)],
    *[C("jxl", "lossless", (b, k, 8, 2, 1, 0, 127), reach=[1], tier="thorough", time=400) for b in (8, 16) for k in (0, 2)],
    *[C("jxl", "lossless", (8, k, w, h, 0, back), reach=[1], tier="thorough") for k in (0, 3) for w, h in ((513, 2), (2, 513), (2049, 2), (300, 300)) for back in (2, 3, 4)],
])

# format, colour space, depth, w, h, symbolic samples
CDEC = [(0, 2, 0, 3, 2, 6), (0, 0, 1, 2, 2, 4), (0, 0, 0, 3, 3, 5), (1, 3, 1, 2, 2, 8), (2, 2, 0, 3, 2, 0), (2, 3, 0, 3, 3, 1), (3, 2, 0, 3, 2, 9), (3, 2, 0, 4, 3, 9),
        (4, 2, 0, 3, 2, 0), (4, 3, 1, 3, 2, 0), (4, 0, 1, 3, 2, 0), (4, 1, 0, 2, 3, 0), (5, 2, 2, 8, 2, 0), (6, 2, 0, 8, 8, 0), (6, 0, 0, 9, 8, 0), (7, 2, 0, 3, 2, 9), (7, 2, 1, 3, 2, 9)]
prop("C26", [
    C("capi", "c_enums", (), reach=[1]), C("capi", "c_null", (), reach=[1]),
    *[C("capi", "c_images", a, reach=[1]) for a in ((0, 0, 3, 2, 1), (1, 1, 2, 1, 0, 1), (2, 2, 2, 2, 1), (3, 0, 2, 2, 5, 1), (4, 1, 1, 3, 0), (5, 0, 3, 1, 0), (6, 2, 1, 2, 0), (7, 0, 2, 2, 0, 1), (0, 1, 2, 2, 0, 1), (0, 2, 3, 1, 2, 1))],
    *[C("capi", "c_ops", (o, s, d, 3, 2), time=30) for s, d in ((0, 0), (2, 1), (3, 0), (5, 1), (7, 0), (2, 2)) for o in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16) if (o, d) != (16, 2)],
    C("capi", "c_ops", (17, 2, 0, 3, 2), reach=[1]), C("capi", "c_ops", (18, 2, 0, 3, 2), reach=[1]), C("capi", "c_ops", (9, 0, 0, 2, 1), reach=[1]),
    *[C("capi", "c_decode", a, reach=[1]) for a in CDEC],
    *[C("capi", "c_decode", a[:6] + (cut,), reach=[1]) for a in CDEC for cut in (1, 5, 20)],
    *[C("capi", "c_decode", a[:6] + (cut,), reach=[1], tier="thorough") for a in CDEC for cut in range(2, 40) if cut not in (5, 20)],
    *[C("capi", "c_ops", (o, s, d, 4, 3), tier="thorough", time=200) for s in range(8) for d in range(3) for o in range(17) if (o, d) != (16, 2)],
    *[C("capi", "c_images", (s, d, w, h, e, e), tier="thorough", reach=[1]) for s in range(8) for d in range(3) for w, h, e in ((1, 1, 0), (4, 3, 1), (5, 2, 0))],
])
