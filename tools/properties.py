p("C01", "QOI: lossless round trip and conformant decoding",
  "Encoding any 8-bit RGB or RGBA image to QOI and decoding the result gives back the same pixels, dimensions and channel count. Decoding any QOI stream of a valid image gives exactly the pixels the QOI specification prescribes, and never writes pixels that are not part of the image. A header that is truncated, has the wrong magic, or names an invalid channel or colour-space value is refused.",
  ["inputs", "histories"],
  "for every pixel sequence (hence every order of run, index, difference and literal chunks), every chunk stream, every header",
  "The tests decode a few sample files by hash; which chunk is used depends on the whole history of pixels seen (a 64 entry cache and the previous pixel), so boundary deltas, run lengths of 61 to 63, and cache collisions are not reached by samples.",
  ["crates/zune-qoi/src/decoder.rs", "crates/zune-qoi/src/encoder.rs"],
  [("chunk decoder", "crates/zune-qoi/src/decoder.rs decode_inner"), ("chunk selection", "crates/zune-qoi/src/encoder.rs encode_into"), ("header checks", "crates/zune-qoi/src/decoder.rs decode_headers")],
  ["QoiDecoder::decode", "QoiEncoder::encode"])
p("C02", "Farbfeld, PPM, PAM and PFM: exact samples for every legal header layout",
  "Encoding an image to farbfeld or to a netpbm format and decoding the result gives back the same samples, size and colour type, and any well-formed farbfeld, PPM, PAM or PFM file decodes to exactly the samples its format defines, in whatever whitespace and comment layout its header is written. Files whose pixel data is shorter than the header says are refused. No byte sequence makes these decoders panic.",
  ["inputs"],
  "for every sample value (including bytes that look like whitespace or comments), header layout variants, every short byte string",
  "The tests use a handful of files whose pixel bytes happen not to look like header text and whose heights happen to be even.",
  ["crates/zune-farbfeld/src/decoder.rs", "crates/zune-farbfeld/src/encoder.rs", "crates/zune-ppm/src/decoder.rs", "crates/zune-ppm/src/encoder.rs"],
  [("farbfeld decoding", "crates/zune-farbfeld/src/decoder.rs decode_into"), ("header tokenising", "crates/zune-ppm/src/decoder.rs read_headers"), ("PFM row flip and byte order", "crates/zune-ppm/src/decoder.rs decode_pfm")],
  ["FarbFeldDecoder::decode", "PPMDecoder::decode", "PPMEncoder::encode", "FarbFeldEncoder::encode"])
p("C03", "Radiance HDR: RGBE decoding and encode-decode accuracy",
  "A Radiance file decodes to the colours its shared-exponent pixels stand for, whether scanlines are stored flat, with old style repeats, or with per-channel run-length coding. Encoding finite colours and decoding the result reproduces every component within the precision of an 8-bit mantissa relative to the largest component of that pixel. Any bytes given to the decoder yield an image or an error, never a panic.",
  ["inputs"],
  "for every RGBE pixel value and exponent, run layouts, colours over the representable range, arbitrary scanline bytes",
  "Sample images exercise only exponents near 128 and one scanline coding each; the exponent and run arithmetic has 256-way edge cases.",
  ["crates/zune-hdr/src/decoder.rs", "crates/zune-hdr/src/encoder.rs"],
  [("scanline decompression", "crates/zune-hdr/src/decoder.rs decompress"), ("exponent conversion", "crates/zune-hdr/src/decoder.rs convert"), ("float to rgbe and rle", "crates/zune-hdr/src/encoder.rs")],
  ["HdrDecoder::decode", "HdrEncoder::encode"])
p("C04", "Deflate, zlib and gzip: exact inflation, checks enforced, bounded output",
  "A valid deflate, zlib or gzip stream inflates to exactly the bytes it encodes, for every block type, code shape, match length and distance, and what the encoder writes inflates back to its input. Streams with bad lengths, codes, distances, checksums or that end early are refused rather than decoded to something else. The output never exceeds the configured limit, and no input makes the decoder panic or access memory out of bounds.",
  ["inputs", "configurations"],
  "for every content of stored blocks, code words in fixed and dynamic blocks, matches over symbolic history, header and trailer bytes, limits around the output size",
  "Tests inflate a few samples; the decoder has two separately written decode loops (near and far from the end of input), overlapping copy cases by distance, and sub-table look-ups that samples reach in few combinations.",
  ["crates/zune-inflate/src/decoder.rs", "crates/zune-inflate/src/bitstream.rs", "crates/zune-inflate/src/utils.rs", "crates/zune-inflate/src/encoder.rs"],
  [("decode loops", "crates/zune-inflate/src/decoder.rs start_deflate_block_inner"), ("table building", "crates/zune-inflate/src/decoder.rs build_decode_table"), ("zlib and gzip framing", "crates/zune-inflate/src/decoder.rs decode_zlib, decode_gzip"), ("copies", "crates/zune-inflate/src/utils.rs")],
  ["DeflateDecoder::decode_deflate", "DeflateDecoder::decode_zlib", "DeflateDecoder::decode_gzip", "DeflateEncoder::encode_zlib"])
p("C13", "Byte readers and writers behave like one cursor over the bytes",
  "Any sequence of reads, peeks, seeks, skips and rewinds on a ZReader gives exactly the bytes, integers and positions that the same operations on a plain cursor over the data give, whatever the backing (in-memory cursor, buffered reader, the std and no_std implementations). Reads that cannot be satisfied fail or default to zero as documented, never return stale bytes, and a failed peek leaves the position alone. Any sequence of writes on a ZWriter places exactly those bytes in that order, or reports that the space ran out.",
  ["inputs", "histories"],
  "for every short sequence of operations with arbitrary arguments (offsets over the whole 64-bit range) on data of a few bytes, with arbitrary contents",
  "Every decoder is built on these readers; unit tests call each method once on a fresh reader, so mixtures (peek then relative seek, short reads, positions past the end or near the end of the address space) go unseen.",
  ["crates/zune-core/src/bytestream/reader.rs", "crates/zune-core/src/bytestream/writer.rs", "crates/zune-core/src/bytestream/reader/std_readers.rs", "crates/zune-core/src/bytestream/reader/no_std_readers.rs"],
  [("generic reader", "crates/zune-core/src/bytestream/reader.rs ZReader"), ("backings", "crates/zune-core/src/bytestream/reader/std_readers.rs, no_std_readers.rs ZCursor"), ("writer", "crates/zune-core/src/bytestream/writer.rs ZWriter")],
  ["ZReader", "ZCursor", "ZWriter"])
p("C14", "Channel: a growable typed buffer that never mixes up or loses samples",
  "After any sequence of pushes, extensions, element writes, fills and clones, a Channel holds exactly the samples a plain vector of the same element type would hold; its length and emptiness match, its capacity is never less than its length, a clone is independent of and equal to its original, viewing it as another element size is refused, every access stays inside its allocation and dropping it releases all of its memory. Two channels are equal exactly when element type, length and contents are.",
  ["inputs", "histories"],
  "for every sequence of up to 3 (thorough: 5) operations, any samples, element sizes 1, 2 and 4, initial capacities 0 and 4",
  "All pixels of every image live in this hand-written raw allocation; tests push into one that is large enough already, growth twice in a row and growth of tiny allocations are not exercised.",
  ["crates/zune-image/src/channel.rs"],
  [("growth and pushes", "crates/zune-image/src/channel.rs Channel::realloc, push, extend"), ("views", "crates/zune-image/src/channel.rs reinterpret_as"), ("equality and cloning", "crates/zune-image/src/channel.rs PartialEq, Clone")],
  ["Channel"])
p("C15", "Interleaved pixels and channel planes hold the same samples",
  "An image built from interleaved pixels has one plane per component holding that component's samples in order, and flattening it gives back the original buffer, for every colour space, depth, image size and instruction set; alpha and colour channels are told apart at the place the colour space says. Writing samples as bytes gives the requested byte order. Adding and subtracting images saturates sample by sample and leaves alpha alone.",
  ["inputs", "configurations"],
  "for every sample value, rows from 1 to 140 samples (both sides of every vector width), scalar, SSE and AVX2 paths, all colour spaces and depths",
  "Tests use one image size and the instruction set of the machine at hand; the shuffles have per-lane mistakes that only show at particular widths and channel counts.",
  ["crates/zune-image/src/deinterleave.rs", "crates/zune-image/src/frame.rs", "crates/zune-image/src/image.rs"],
  [("deinterleaving", "crates/zune-image/src/deinterleave.rs and its sse41, avx2 modules"), ("frames", "crates/zune-image/src/frame.rs flatten, separate_color_and_alpha"), ("arithmetic", "crates/zune-image/src/image.rs Add, Sub")],
  ["Image::from_u8", "Image::flatten_frames", "Frame::u16_to_big_endian", "Image + Image"])
p("C16", "Colour space conversion moves every sample where it belongs",
  "Converting between RGB, BGR, RGBA, BGRA, ARGB, and from Luma and LumaA, moves each sample to its place unchanged, keeps alpha or adds an opaque one; conversion to gray is the documented weighted sum at every place of a row on every instruction set; CMYK, HSL and HSV stay within their range and converting back gives the original colour within a step of the depth. The image's colour space, size and depth are updated to match.",
  ["inputs", "configurations"],
  "for every sample value (one free sample per pixel in the arithmetic conversions, the others from a table with the extremes), all pairs of spaces, depths 8, 16 and float, scalar, SSE4.1 and AVX2 paths with remainders",
  "Tests check only that conversion succeeds; the number of (from, to, depth, instruction set) combinations and the edge values (black, white, equal channels) are not sampled.",
  ["crates/zune-image/src/core_filters/colorspace.rs", "crates/zune-image/src/core_filters/colorspace/conversion_functions.rs", "crates/zune-image/src/core_filters/colorspace/grayscale.rs", "crates/zune-image/src/core_filters/colorspace/rgb_to_hsl.rs", "crates/zune-image/src/core_filters/colorspace/rgb_to_hsv.rs"],
  [("dispatch", "crates/zune-image/src/core_filters/colorspace.rs convert_color"), ("gray", "crates/zune-image/src/core_filters/colorspace/grayscale/"), ("CMYK", "crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs")],
  ["Image::convert_color", "ColorspaceConv"])
p("C17", "Bit depth conversion keeps values, and widening is lossless",
  "Converting an image between 8-bit, 16-bit and float moves no sample by more than one step of the coarser depth, maps the ends of the range to the ends, and widening followed by narrowing gives back the original image; floats outside 0 to 1, infinities included, are clamped. The recorded depth matches the samples.",
  ["inputs"],
  "for every sample value of 8 and 16 bits and 65536 float values, every pair of depths, and every 32-bit float pattern for the clamping",
  "Tests convert one value; off-by-one rounding hits particular values only.",
  ["crates/zune-image/src/core_filters/depth.rs"],
  [("dispatch", "crates/zune-image/src/core_filters/depth.rs"), ("conversions", "crates/zune-image/src/core_filters/depth.rs depth_u16_to_u8 and others")],
  ["Image::convert_depth", "Depth"])

p("C18", "Geometry operations move every sample to its documented place",
  "Flip, flop, 180-degree rotation, mirror in the four directions, transpose, rotation by multiples of 90 degrees (negative and whole turns included), crop and padding put every sample of every channel at its documented position, change no value and give the image the dimensions its planes have, for every size; the SIMD and scalar transposes agree. Auto orientation turns the picture as its Exif orientation says, once, and leaves metadata that say so.",
  ["inputs"],
  "for every sample value of 8, 16 bits and float, every size up to 9x9 and some beyond the SIMD tile, one to four channels, every crop window of a 4x3 picture",
  "Tests use one square picture; tile remainders and one-wide pictures take other branches.",
  ["crates/zune-imageprocs/src/flip.rs", "crates/zune-imageprocs/src/mirror.rs", "crates/zune-imageprocs/src/rotate.rs", "crates/zune-imageprocs/src/transpose.rs", "crates/zune-imageprocs/src/crop.rs", "crates/zune-imageprocs/src/pad.rs", "crates/zune-imageprocs/src/auto_orient.rs"],
  [("transpose", "crates/zune-imageprocs/src/transpose.rs transpose_u8, transpose_u16, transpose_generic"), ("rotate", "crates/zune-imageprocs/src/rotate.rs"), ("flip and mirror", "crates/zune-imageprocs/src/flip.rs, mirror.rs"), ("crop", "crates/zune-imageprocs/src/crop.rs")],
  ["OperationsTrait::execute", "Image::flatten_frames", "Image::dimensions"])
p("C19", "Point operations compute their documented value for every sample",
  "Invert, the four threshold modes, brighten, contrast, exposure, gamma, contrast stretching, blending, compositing, alpha premultiplication, colour matrices and hue, saturation and lightness (unchanged, gray or black where the parameters say so) give every sample its documented value, saturate instead of wrapping, never reverse the order of two samples, do nothing with the neutral parameter and leave the alpha channel alone; premultiplying rounds to nearest and undoing it is off only by what rounding lost; opaque compositing stays opaque.",
  ["inputs"],
  "for every 8 and 16 bit sample (floats: every bit pattern where decidable, else 65536 values between black and white) and a table of parameters that includes the extremes, on every channel of gray, gray+alpha, RGB and RGBA",
  "Tests run the operations on random pictures without looking at the result.",
  ["crates/zune-imageprocs/src/invert.rs", "crates/zune-imageprocs/src/threshold.rs", "crates/zune-imageprocs/src/brighten.rs", "crates/zune-imageprocs/src/contrast.rs", "crates/zune-imageprocs/src/exposure.rs", "crates/zune-imageprocs/src/gamma.rs", "crates/zune-imageprocs/src/stretch_contrast.rs", "crates/zune-imageprocs/src/blend.rs", "crates/zune-imageprocs/src/composite.rs", "crates/zune-imageprocs/src/premul_alpha.rs", "crates/zune-imageprocs/src/color_matrix.rs", "crates/zune-imageprocs/src/hsv_adjust.rs"],
  [("threshold", "crates/zune-imageprocs/src/threshold.rs threshold"), ("premultiply", "crates/zune-imageprocs/src/premul_alpha.rs"), ("composite", "crates/zune-imageprocs/src/composite.rs"), ("tone curves", "crates/zune-imageprocs/src/brighten.rs, contrast.rs, exposure.rs, gamma.rs")],
  ["OperationsTrait::execute", "Image::flatten_frames"])
p("C20", "Neighbourhood operations compute their documented window function",
  "Spatial minimum, maximum, range and mean, the median (radius two and up), convolution, Sobel and Scharr, box blur, bilateral filter, unsharpening, affine transforms by whole factors and resizing give every sample the documented function of its window, edges repeated outwards, also for pictures one sample wide and smaller than the window; averages stay between the smallest and largest sample, one colour stays that colour, mirrored input gives mirrored blur, resizing to the same size changes nothing, what is marked as linear stays so, and the result has the requested dimensions.",
  ["inputs"],
  "for pictures up to 9 samples wide, every value of one or all samples, 8 and 16 bits and float, with tables of radii, sigmas, kernels and resize methods",
  "Tests run the filters on random pictures without an oracle; the edge code and the sums that overflow need particular sizes and values.",
  ["crates/zune-imageprocs/src/spatial.rs", "crates/zune-imageprocs/src/spatial_ops.rs", "crates/zune-imageprocs/src/median.rs", "crates/zune-imageprocs/src/convolve.rs", "crates/zune-imageprocs/src/sobel.rs", "crates/zune-imageprocs/src/scharr.rs", "crates/zune-imageprocs/src/box_blur.rs", "crates/zune-imageprocs/src/gaussian_blur.rs", "crates/zune-imageprocs/src/bilateral_filter.rs", "crates/zune-imageprocs/src/unsharpen.rs", "crates/zune-imageprocs/src/affine.rs", "crates/zune-imageprocs/src/resize.rs"],
  [("window walk", "crates/zune-imageprocs/src/spatial.rs spatial, spatial_NxN"), ("box blur", "crates/zune-imageprocs/src/box_blur.rs box_blur_inner"), ("median", "crates/zune-imageprocs/src/median.rs"), ("resampling", "crates/zune-imageprocs/src/resize/seperable_kernel.rs, bilinear.rs")],
  ["OperationsTrait::execute", "Image::flatten_frames"])

p("C05", "PNG decoding follows the format for every kind of image",
  "Decoding undoes the five row filters on scalar and SIMD paths, unpacks 1, 2, 4, 8 and 16 bit samples, scales them to the full range, places Adam7 passes, looks up palettes, applies tRNS transparency, adds alpha, strips to 8 bits and stores samples in the byte order as asked; dimensions, colour space and sizes reported match the pixels; decode, decode_raw and decode_into agree; animation frames come with their own control data and pixels; a wrong checksum is refused when checking is on.",
  ["inputs", "configurations"],
  "for every sample byte of pictures of a few rows, the fifteen kinds of colour type and depth, filter sequences, interlacing, each output option, split IDAT and fdAT data, scalar, SSE and AVX2 paths; symbolic palettes, tRNS values and frame control",
  "The PngSuite pictures are fixed; option combinations, SIMD remainders, the last row of post-processing and particular sample values are not in it.",
  ["crates/zune-png/src/decoder.rs", "crates/zune-png/src/utils.rs", "crates/zune-png/src/utils/avx.rs", "crates/zune-png/src/utils/sse.rs", "crates/zune-png/src/filters/de_filter.rs", "crates/zune-png/src/filters/sse4.rs", "crates/zune-png/src/headers/readers.rs", "crates/zune-png/src/crc.rs"],
  [("rows", "crates/zune-png/src/decoder.rs create_png_image_raw"), ("interlacing", "crates/zune-png/src/decoder.rs decode_interlaced"), ("filters", "crates/zune-png/src/filters/de_filter.rs, sse4.rs"), ("expansion", "crates/zune-png/src/utils.rs expand_bits_to_byte, expand_trns, expand_palette"), ("chunks", "crates/zune-png/src/headers/readers.rs")],
  ["PngDecoder::decode", "PngDecoder::decode_raw", "PngDecoder::decode_into", "PngDecoder::frame_info"])
p("C06", "PNG encoding is lossless and writes valid files",
  "For every picture in gray, gray with alpha, RGB or RGBA at 8 or 16 bits the encoder writes a file with correct signature, header, chunk lengths, checksums, filtered scanlines and end; its own decoder and an independent reading of the format give back exactly the same pixels, size, colour space and depth; Exif blocks are carried along unchanged; the returned length is the length written.",
  ["inputs"],
  "for every pixel value of pictures of a few pixels in every colour space and depth, headers of every 32-bit width and height, a picture that needs two IDAT chunks; checksums with one or two free bytes",
  "Tests encode constant pictures.",
  ["crates/zune-png/src/encoder.rs", "crates/zune-png/src/headers/writers.rs", "crates/zune-png/src/filters.rs", "crates/zune-png/src/filters/filter.rs", "crates/zune-png/src/crc.rs", "crates/zune-inflate/src/encoder.rs"],
  [("scanlines", "crates/zune-png/src/encoder.rs add_filters"), ("chunks", "crates/zune-png/src/headers/writers.rs write_chunk, write_header_fn"), ("checksum", "crates/zune-png/src/crc.rs")],
  ["PngEncoder::encode", "PngEncoder::encode_headers"])
p("C07", "JPEG coefficients reach their own block however the scans are arranged",
  "Whatever order a JPEG file stores its coefficients in - one interleaved scan, a scan per component, progressive scans by spectral band and successive approximation, with or without restart intervals, any sampling factors, any Huffman and quantisation tables in any segment layout - the decoder gives every block exactly its own coefficients, so that all arrangements of the same coefficients decode to the same picture, the one of its blocks decoded on their own.",
  ["inputs", "configurations"],
  "for every value of the unknown coefficients (two per block, in up to all blocks) of pictures up to 72 pixels wide, eighteen sampling layouts, six scan arrangements, restart intervals 0 to 9; every DC difference and quantiser in sequences with restarts",
  "Hashes of a few sample files, taken from the decoder itself.",
  ["crates/zune-jpeg/src/bitstream.rs", "crates/zune-jpeg/src/huffman.rs", "crates/zune-jpeg/src/mcu.rs", "crates/zune-jpeg/src/mcu_prog.rs", "crates/zune-jpeg/src/headers.rs", "crates/zune-jpeg/src/components.rs", "crates/zune-jpeg/src/misc.rs"],
  [("baseline scans", "crates/zune-jpeg/src/mcu.rs decode_mcu_ycbcr_baseline"), ("progressive scans", "crates/zune-jpeg/src/mcu_prog.rs parse_entropy_coded_data"), ("bits", "crates/zune-jpeg/src/bitstream.rs decode_mcu_block, decode_mcu_ac_first, decode_mcu_ac_refine"), ("tables", "crates/zune-jpeg/src/headers.rs parse_huffman, parse_dqt")],
  ["JpegDecoder::decode"])
p("C08", "JPEG samples and colours are those the standard defines",
  "A block decodes to the inverse cosine transform of its dequantised coefficients within one step, clamped; the platform-specific routines agree with the portable ones; subsampled components are brought to full size by the decoder's triangle filter (or by repetition for other ratios) from their own neighbours; YCbCr pixels convert to RGB, RGBA, BGR and BGRA within one step of BT.601 with opaque alpha, CMYK and YCCK by exact rounded products, gray and RGB unchanged; every pixel of every width and height is written.",
  ["inputs", "configurations"],
  "for every value of a DC coefficient, of one or two AC coefficients, of the samples of up to all blocks; widths and heights around the block and vector sizes; with and without platform intrinsics",
  "Tests compare hashes of sample files produced by the decoder itself.",
  ["crates/zune-jpeg/src/idct.rs", "crates/zune-jpeg/src/idct/avx2.rs", "crates/zune-jpeg/src/idct/scalar.rs", "crates/zune-jpeg/src/upsampler.rs", "crates/zune-jpeg/src/upsampler/scalar.rs", "crates/zune-jpeg/src/color_convert/scalar.rs", "crates/zune-jpeg/src/color_convert/avx.rs", "crates/zune-jpeg/src/worker.rs"],
  [("transform", "crates/zune-jpeg/src/idct/scalar.rs idct_int"), ("upsampling", "crates/zune-jpeg/src/worker.rs upsample"), ("colours", "crates/zune-jpeg/src/worker.rs color_convert")],
  ["JpegDecoder::decode"])
p("C11", "JPEG headers, limits and metadata are right and no data makes the decoder panic",
  "The frame header is accepted exactly when precision is eight and the size is positive and within the limits, and size, components and buffer size are reported as stored; Exif, XMP, IPTC and ICC blocks come out byte for byte, ICC parts in their numbered order or not at all if any is missing; arbitrary bytes anywhere - headers, tables, scans, after scans - give an error or a picture of the announced size, never a panic.",
  ["inputs"],
  "for every value of size, precision and limits; all contents of metadata of a few bytes; one to eight arbitrary bytes in each of fourteen places of a file",
  "Tests hold a handful of formerly crashing files.",
  ["crates/zune-jpeg/src/decoder.rs", "crates/zune-jpeg/src/headers.rs", "crates/zune-jpeg/src/misc.rs", "crates/zune-jpeg/src/mcu.rs", "crates/zune-jpeg/src/mcu_prog.rs", "crates/zune-jpeg/src/bitstream.rs"],
  [("headers", "crates/zune-jpeg/src/headers.rs parse_start_of_frame"), ("metadata", "crates/zune-jpeg/src/headers.rs parse_app1, parse_app2, parse_app13"), ("markers", "crates/zune-jpeg/src/decoder.rs parse_marker_inner")],
  ["JpegDecoder::decode_headers", "JpegDecoder::info", "JpegDecoder::icc_profile", "JpegDecoder::decode"])
p("C09", "BMP decoding follows the format for every kind of image",
  "A BMP file decodes to the pixels its format describes: rows of 1, 2, 4, 8, 16, 24 and 32 bits with their padding, bottom-up and top-down; palettes of every header version; channel bit fields scaled to eight bits; 4 and 8 bit run-length data with runs, absolute stretches, deltas, ends of line and of picture; BGR(A) output on request; reported dimensions, colour space, primaries and ICC profile are those stored; size limits are kept; data of any kind never panics and never writes outside the picture.",
  ["inputs", "configurations"],
  "for every sample byte and palette entry of pictures of a few rows, every header size, fourteen mask sets, all RLE sequences of up to three operations inside small pictures, every 16-bit limit against every width and height, arbitrary header bytes and arbitrary pixel data of up to eight bytes",
  "The sample pictures all have 127x64 or similar sizes, so padding and the mix of width and height are never seen; truncated data and odd headers are not tested.",
  ["crates/zune-bmp/src/decoder.rs", "crates/zune-bmp/src/utils.rs", "crates/zune-bmp/src/common.rs"],
  [("headers", "crates/zune-bmp/src/decoder.rs decode_headers"), ("rows", "crates/zune-bmp/src/decoder.rs decode_into_inner"), ("run lengths", "crates/zune-bmp/src/decoder.rs decode_rle"), ("bit fields", "crates/zune-bmp/src/decoder.rs shift_signed"), ("bits", "crates/zune-bmp/src/utils.rs expand_bits_to_byte")],
  ["BmpDecoder::decode", "BmpDecoder::decode_into", "BmpDecoder::dimensions", "BmpDecoder::colorspace", "BmpDecoder::output_buf_size", "BmpDecoder::icc_profile"])
p("C10", "PSD decoding returns the merged picture stored in the file",
  "A PSD file in grayscale, RGB or CMYK, uncompressed at 8 or 16 bits or run-length coded at 8 bits, decodes to the samples stored in its channels, interleaved, at their own depth; transparent RGB pixels have the white matte removed and others are unchanged; the header is accepted exactly when mode, depth, compression and number of channels are supported and the size is within the limits; truncated or wrong data gives an error or a picture of the announced size, never a panic.",
  ["inputs"],
  "for every sample of pictures of a few pixels, every packbits sequence that covers them, every value of each 16 and 32-bit header field and limit, arbitrary data of up to sixteen bytes",
  "Three sample files, whose hashes were taken from the decoder itself.",
  ["crates/zune-psd/src/decoder.rs", "crates/zune-psd/src/constants.rs"],
  [("headers", "crates/zune-psd/src/decoder.rs decode_headers"), ("samples", "crates/zune-psd/src/decoder.rs decode_raw"), ("packbits", "crates/zune-psd/src/decoder.rs psd_decode_rle")],
  ["PSDDecoder::decode", "PSDDecoder::decode_raw", "PSDDecoder::dimensions", "PSDDecoder::colorspace", "PSDDecoder::bit_depth"])

p("C12", "Images read from files: right format, the decoder's pixels and metadata",
  "Image::read and the format's decoder object recognise a file by its first bytes, leave the stream at its start, and give the picture, dimensions, colour space, depth, format and ICC profile that the format's own decoder gives under the same options, fit to be used by operations; headers read first say the same and do not spoil the decoding; APNG files give the frames as shown (position, disposal, blending, without a default image outside the sequence); damaged and truncated files give errors or well-formed images within the limits, never a panic.",
  ["inputs", "configurations"],
  "for every beginning of up to 16 bytes, every content of small files of eight formats under each option, eight animation schedules with symbolic pixels, every truncation and every value of each single byte of the sample files",
  "Tests read a few whole files; metadata, options and animation schedules are combinations, and damage can be anywhere.",
  ["crates/zune-image/src/codecs.rs", "crates/zune-image/src/image.rs", "crates/zune-image/src/codecs/png.rs", "crates/zune-image/src/codecs/bmp.rs", "crates/zune-image/src/codecs/hdr.rs", "crates/zune-image/src/codecs/jpeg.rs", "crates/zune-image/src/codecs/ppm.rs", "crates/zune-image/src/codecs/psd.rs", "crates/zune-image/src/codecs/qoi.rs", "crates/zune-image/src/codecs/farbfeld.rs", "crates/zune-png/src/apng.rs"],
  [("format guessing", "crates/zune-image/src/codecs.rs guess_format"), ("reading", "crates/zune-image/src/image.rs Image::read"), ("decoder objects", "crates/zune-image/src/codecs/*.rs DecoderTrait"), ("animation frames", "crates/zune-png/src/apng.rs post_process_image")],
  ["Image::read", "ImageFormat::guess_format", "ImageFormat::decoder_with_options", "DecoderTrait::decode", "DecoderTrait::read_headers"])

p("C21", "Saved images: right conversion, right count, same picture read back",
  "Saving an image of any colour space and depth to PPM, QOI, farbfeld, PNG, HDR, JPEG XL or JPEG converts it to what the format can hold exactly as convert_color and convert_depth would, leaves the image itself as it was, reports the number of bytes it wrote, gives the same bytes whichever entry point is used, and the file reads back with the same picture (for JPEG: the same colour within 3), size, colour space, depth and format; encoder options such as progressive JPEG take effect; Exif data is kept in PNG and JPEG, every entry of it, unless it is to be stripped.",
  ["inputs", "configurations"],
  "for every sample of pictures up to 2x2 (JPEG: one colour, one free component), six colour spaces, three depths, one or two frames",
  "Tests check that encoding succeeds; which of the many conversions is wrong needs reading the file back for every combination.",
  ["crates/zune-image/src/traits.rs", "crates/zune-image/src/image.rs", "crates/zune-image/src/codecs.rs", "crates/zune-image/src/codecs/png.rs", "crates/zune-image/src/codecs/ppm.rs", "crates/zune-image/src/codecs/qoi.rs", "crates/zune-image/src/codecs/farbfeld.rs", "crates/zune-image/src/codecs/hdr.rs", "crates/zune-image/src/codecs/jpeg.rs", "crates/zune-image/src/codecs/jpeg_xl.rs"],
  [("conversion before encoding", "crates/zune-image/src/traits.rs EncoderTrait::encode"), ("entry points", "crates/zune-image/src/image.rs write_to_vec, encode"), ("encoder objects", "crates/zune-image/src/codecs/*.rs encode_inner")],
  ["Image::write_to_vec", "Image::encode", "EncoderTrait::encode", "EncoderTrait::encode_to_result"])

p("C22", "Options keep what was set and change nothing else",
  "Every setter of the encoder and decoder options changes its own setting and no other, whatever the order and the starting preset; getters return the value set (quality limited to 100), strict mode sets the checks it stands for, defaults are the documented ones, and with unsafe code off no SIMD path is reported usable.",
  ["inputs", "configurations"],
  "for every value of every setting, every rotation of the order of setters, the presets of the decoder",
  "Settings are packed into flag words; tests set one or two of them.",
  ["crates/zune-core/src/options/decoder.rs", "crates/zune-core/src/options/encoder.rs"],
  [("decoder settings", "crates/zune-core/src/options/decoder.rs"), ("encoder settings", "crates/zune-core/src/options/encoder.rs")],
  ["DecoderOptions", "EncoderOptions"])

p("C23", "Operations and pipelines run in order and refuse what does not fit",
  "An operation runs on an image exactly if the image is well formed and has a colour space and sample type the operation supports; otherwise the image stays as it was; a result whose channels do not match the image's description is an error; clone_and_execute leaves its source alone; a pipeline applies its operations in order to each of its images, decoded or added, runs each once, and reports the first failure.",
  ["inputs", "histories"],
  "for every content of 2x2 images of five colour spaces, three depths, one or two frames, each kind of malformed image or result; pipelines of up to two images, a decoder and three operations with symbolic parameters",
  "Malformed images and failing operations do not occur in the tests.",
  ["crates/zune-image/src/traits.rs", "crates/zune-image/src/pipelines.rs"],
  [("checks around an operation", "crates/zune-image/src/traits.rs OperationsTrait::execute, confirm_invariants"), ("pipeline", "crates/zune-image/src/pipelines.rs advance")],
  ["OperationsTrait::execute", "OperationsTrait::clone_and_execute", "Pipeline::advance_to_end"])

p("C24", "PNG headers and chunks: what is legal is accepted, nothing loses the place",
  "A PNG header is accepted exactly when the standard and the configured limits allow it, and what is reported follows from it; a chunk of any type, content and length before or after the pixels either leaves the pixels as they are or has the file refused: unknown chunks are skipped unless critical, broken texts, times, profiles, gamma and animation control are skipped, palettes and transparency of impossible length are refused; texts (plain, compressed, international), profiles, gamma, time and Exif data are reported as stored; animation frames must lie inside the picture; a file cut anywhere gives an error or the right picture.",
  ["inputs", "fault points"],
  "for every header of 13 bytes and every pair of limits, every four-byte chunk type with every body up to 8 bytes, keywords of 1 to 79 bytes, every frame control, every cut of two files",
  "Tests have well-formed files; a chunk of an odd length moves everything behind it.",
  ["crates/zune-png/src/headers/readers.rs", "crates/zune-png/src/decoder.rs", "crates/zune-png/src/options.rs"],
  [("IHDR", "crates/zune-png/src/headers/readers.rs parse_ihdr"), ("chunks", "crates/zune-png/src/headers/readers.rs parse_plte, parse_trns, parse_gama, parse_actl, parse_time, parse_exif, parse_iccp, parse_text, parse_itxt, parse_ztxt, parse_fctl"), ("chunk framing", "crates/zune-png/src/decoder.rs read_chunk_header, parse_header"), ("unknown chunks", "crates/zune-png/src/options.rs default_chunk_handler")],
  ["PngDecoder::decode_headers", "PngDecoder::decode_raw", "PngDecoder::info", "PngDecoder::frame_info"])

p("C25", "JPEG XL files hold exactly the picture that was encoded",
  "For every picture in gray, gray with alpha, RGB or RGBA at 8 or 16 bits that is at least two pixels wide and high, the encoder writes a codestream whose header gives its size, depth, colour space and alpha at the picture's depth, whose table of contents adds up to the file, and whose modular data an independent reading of the standard decodes to exactly the same samples, across groups, runs and sampled code tables; the returned length is the length written; sizes, depths and buffers that do not fit are refused.",
  ["inputs"],
  "for every value of a sample in pictures of 2x2 to 20x2 (its neighbours fixed at two backgrounds), for every depth and colour space, and fixed pictures with the sizes at which fields and groups change (256, 257, 512, 513, 8192, 8193)",
  "The repository has no test which decodes what its encoder wrote; values such as those above the middle of 16 bits or runs of one particular length decide.",
  ["crates/zune-jpegxl/src/encoder.rs", "crates/zune-jpegxl/src/bit_writer.rs", "crates/zune-jpegxl/src/bit_depth.rs", "crates/zune-jpegxl/src/color_convert.rs"],
  [("headers", "crates/zune-jpegxl/src/encoder.rs prepare_header"), ("prefix codes", "crates/zune-jpegxl/src/encoder.rs PrefixCode, compute_code_lengths"), ("prediction and runs", "crates/zune-jpegxl/src/encoder.rs ChannelRowProcessor"), ("colour transform", "crates/zune-jpegxl/src/color_convert.rs")],
  ["JxlSimpleEncoder::encode"])

p("C26", "the C interface does what the Rust interface does, and gives everything back",
  "For every image made from samples through the C interface, its width, height, depth, colour space, output size and written bytes are those of the samples, copies are independent, and buffers or sample counts that are too small, sizes that overflow, unknown colour spaces, images never filled and null images are refused with a status and nothing written, never an abort; every operation leaves exactly what the Rust operation leaves and reports an error exactly when it does; every file, whole or cut short, decodes through the C functions to the dimensions, depth, channels and samples Rust decodes (a gray JPEG to its one channel) or reports an error exactly when Rust does; enumerations survive the way to C and back; all memory is given back once.",
  ["inputs"],
  "for every sample of pictures up to 3x3, every buffer size below the picture's, every operation but two at fixed parameters, all crops, conversions of depth and colour, and files of eight formats with symbolic samples (fixed for PNG, HDR and JPEG) at several cuts",
  "The C library has two tests, neither of which touches an image; nothing in Rust sees memory freed twice or a buffer read before it is written.",
  ["crates/zune-capi/src/image.rs", "crates/zune-capi/src/imread.rs", "crates/zune-capi/src/improc.rs", "crates/zune-capi/src/errno.rs", "crates/zune-capi/src/utils.rs", "crates/zune-capi/src/enums.rs"],
  [("images", "crates/zune-capi/src/image.rs zil_zimg_from_u8, zil_zimg_write_to_output, zil_zimg_clone"), ("operations", "crates/zune-capi/src/improc.rs exec_imgproc"), ("decoding", "crates/zune-capi/src/imread.rs zil_imdecode, zil_imdecode_into, imdecode_inner"), ("status", "crates/zune-capi/src/errno.rs ZStatus, zil_status_free")],
  ["zil_zimg_*", "zil_imgproc_*", "zil_imdecode, zil_imdecode_into, zil_read_headers_from_memory", "zil_status_*"])
