#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
D = "src/decoder.rs"; PA = "src/parser.rs"; H = "src/huffman.rs"; L = "src/decoder/lossless.rs"; I = "src/idct.rs"
U = "src/upsampler.rs"; W = "src/worker/mod.rs"; WR = "src/worker/rayon.rs"; WM = "src/worker/multithreaded.rs"; WI = "src/worker/immediate.rs"
S = "src/arch/ssse3.rs"; M = "src/marker.rs"; E = "src/error.rs"; LIB = "src/lib.rs"

p("C01", "Arbitrary bytes never panic, hang or abort the decoder",
  "For every byte sequence and every combination of public calls made on it (read_info, scale, decode, metadata getters, colour override, buffer limit), each call returns Ok or Err: it never panics, overflows arithmetic, aborts, or reads forever past the end of the data. This holds with and without the rayon and platform_independent features.",
  ["inputs", "configurations"], "all byte strings (structure-aware mutations of valid streams of every coding process, raw noise), all four feature configurations, release arithmetic and overflow-checked arithmetic",
  "The crash corpus holds a few dozen known files; it says nothing about the space of malformed streams around every generated valid stream.",
  [D, PA, H, L, I, U, WR, WM, WI],
  [("length/field validation while parsing segments", "src/parser.rs parse_sof/parse_sos/parse_dqt/parse_dht/parse_app"), ("wrapping arithmetic in the inverse DCT", "src/idct.rs Wrapping"), ("zero fill once a marker ends entropy-coded data", "src/huffman.rs HuffmanDecoder::read_bits"), ("checked coefficient refinement", "src/decoder.rs refine_non_zeroes")],
  ["Decoder::decode/read_info/scale return values"])
p("C02", "Any history of API calls gives the result of its final settings",
  "For every stream and every sequence of read_info, scale, set_color_transform, set_max_decoding_buffer_size, info and metadata calls that succeed, followed by decode, the outcome equals that of a fresh decoder given only the last effective value of each setting before decode. read_info is idempotent and consumes nothing after its first success, info() is None before any header was read and afterwards always describes the current output size; calls after a finished or failed decode never panic and never return a buffer that disagrees with info().",
  ["histories", "inputs"], "random operation sequences (up to ~10 calls) over random valid streams of every coding process and over corrupted ones",
  "The tests only exercise decode, read_info+decode and scale+decode, each once, on fixed files.",
  [D, PA], [("early return when the frame header was already read", "src/decoder.rs decode_internal"), ("output size and per-component sizes recomputed from the original size", "src/parser.rs FrameInfo::update_idct_size"), ("setters", "src/decoder.rs set_color_transform/set_max_decoding_buffer_size")],
  ["Decoder::info", "Decoder::decode"], [("frame", "parsed frame header, with the current output scale", "src/decoder.rs Decoder.frame")])
p("C03", "Decoded buffer and metadata agree with the frame header",
  "Whenever decode succeeds, the buffer holds exactly width*height*pixel_bytes bytes as reported by info(). info() reports the width, height and coding process of the frame header (baseline and extended sequential, progressive, lossless), with L8 for one component of at most 8 bits, L16 for one component of more, RGB24 for three and CMYK32 for four.",
  ["inputs"], "all frame sizes 1..65535 per axis (small areas), component counts, sampling factors, precisions, coding processes, scales",
  "Fixed images reach a handful of sizes; a size that is wrong only for some width modulo the MCU size or some precision is not sampled.",
  [D, PA, L], [("info() mapping", "src/decoder.rs Decoder::info"), ("row compaction for one component", "src/decoder.rs compute_image"), ("8/16-bit output conversion", "src/decoder/lossless.rs convert_to_u8")], ["Decoder::info", "Decoder::decode"])
p("C04", "DCT images reconstruct to the ideal inverse DCT within a small error",
  "For every quantised coefficient array and quantisation table whose samples stay near the displayable range, each decoded sample of a DCT image is within a small fixed error of the real-valued dequantise + inverse DCT + 128, rounded and clamped to 0..255, and the errors have no systematic bias. Every block lands at its place in the image, for every image size.",
  ["inputs", "configurations"], "random images, coefficient patterns, quantisation tables (8 and 16 bit) and sizes; SIMD and portable inverse DCT",
  "The reference images use typical photographic content and tolerate differences; single basis functions, extreme coefficients and odd sizes are not sampled.",
  [I, S, WI, WR, D], [("8x8 inverse DCT (portable)", "src/idct.rs dequantize_and_idct_block_8x8_inner"), ("8x8 inverse DCT (SSSE3)", "src/arch/ssse3.rs dequantize_and_idct_block_8x8"), ("block placement", "src/worker/immediate.rs append_row_immediate, src/worker/rayon.rs append_row_locked")])
p("C05", "Entropy-coding layout never changes the pixels",
  "For a given set of quantised coefficients and quantisation tables, the decoded pixels are identical however the sequential stream carries them: any legal Huffman tables, table slots, 8/16-bit quantisation table format, order, splitting and redefinition of tables between scans, any restart interval, any grouping of components into interleaved or non-interleaved scans, single frequent or rare long codes, SOF0 or SOF1. Tables in force when a scan starts are the ones used for it.",
  ["inputs"], "random coefficient arrays crossed with random encodings of them",
  "Each test file is one encoding of one image; equality across encodings of the same image is never checked.",
  [D, H, PA], [("scan decoding, interleaving, restarts", "src/decoder.rs decode_scan"), ("Huffman lookup tables and long codes", "src/huffman.rs HuffmanTable::new, HuffmanDecoder::decode/decode_fast_ac"), ("table redefinition merge", "src/decoder.rs DHT/DQT arms of decode_internal")])
p("C06", "Progressive and sequential codings of the same coefficients agree",
  "For every coefficient array, a complete progressive stream for it (any legal split into spectral bands, successive-approximation levels, scan order, EOB-run lengths, restart intervals and component grouping) decodes to exactly the pixels of the sequential stream of the same coefficients.",
  ["inputs"], "random coefficient arrays crossed with random legal progressive scan scripts",
  "The few progressive test files use the default libjpeg script; other bands, refinement depths and EOB runs across restarts are not reached.",
  [D, H], [("first and refinement block decoding", "src/decoder.rs decode_block, decode_block_successive_approximation, refine_non_zeroes"), ("per-component completion tracking", "src/decoder.rs coefficients_finished"), ("coefficient storage across scans", "src/decoder.rs Decoder.coefficients")])
p("C07", "An unfinished progressive image renders the coefficients received so far",
  "If a progressive stream ends (EOI) before every coefficient bit was sent, decode succeeds provided each component's quantisation table is defined, and the pixels are exactly those of a sequential image holding the coefficients at the precision received, unsent ones being zero.",
  ["inputs"], "random progressive scan scripts cut after any number of scans, including components with no scan",
  "Only one truncated progressive file is in the test corpus.",
  [D], [("rendering of unfinished components", "src/decoder.rs decode_planes")])
p("C08", "Subsampled components are upsampled by the documented filters",
  "A component at half resolution horizontally and/or vertically (and full otherwise) is upsampled with the 3:1 triangle filter centred between samples, edges replicated; components at other integer ratios are replicated (nearest neighbour); full-resolution components pass unchanged. The result depends only on the component's own samples inside the image, for every image size.",
  ["inputs"], "random image sizes and all integer-ratio sampling combinations of 3- and 4-component images",
  "Test images cover few sampling combinations and mostly even sizes; edge columns and rows for every size and ratio are not sampled.",
  [U], [("filter selection", "src/upsampler.rs choose_upsampler"), ("filters", "src/upsampler.rs UpsamplerH2V1/H1V2/H2V2/Generic")])
p("C09", "The colour transform applied follows the identifiers, JFIF and Adobe data",
  "Without an override, three-component images are converted from YCbCr unless the component ids are 'R','G','B' (as is), or, with other ids, no JFIF segment and an Adobe transform of 0 (as is); ids (1,34,35) and 'r','g','b' are reported as unsupported transforms, and ids (1,2,3) always mean YCbCr. Four-component images are CMYK when there is no Adobe segment or its transform is 0, and YCCK when it is 2; an override set by the caller beats all of these and mismatched overrides are Format/Unsupported errors; grayscale ignores everything.",
  ["inputs", "configurations"], "all combinations of component ids, JFIF presence, Adobe transform, segment order and override",
  "Tests cover a few of the combinations.",
  [D, PA], [("colour decision", "src/decoder.rs determine_color_transform"), ("Adobe/JFIF recognition", "src/parser.rs parse_app"), ("converter selection", "src/decoder.rs choose_color_convert_func")])
p("C10", "Colour conversion arithmetic is right for every sample value",
  "For all component values, YCbCr is converted by the BT.601 full-range equations to the nearest level or the one beside it (clamped), RGB is passed through, CMYK is inverted (255-x), YCCK is converted like YCbCr with K inverted, and with ColorTransform::None the raw component samples are returned interleaved. This holds wherever the pixel stands: vector body, remainder of a line, any image width.",
  ["inputs", "configurations"], "all 2^24 YCbCr triples over the run of checks (sampled per run, every value of each channel), random widths",
  "Reference images sample few triples and compare with tolerance; the SIMD/scalar boundary depends on the width.",
  [D, S], [("scalar conversion", "src/decoder.rs ycbcr_to_rgb, color_convert_line_*"), ("SIMD conversion", "src/arch/ssse3.rs color_convert_line_ycbcr")])
p("C11", "Lossless images decode to the exact source samples",
  "For every image of precision 2..16, a lossless (SOF3) Huffman stream with any of predictors 1-7, any point transform, any legal restart interval of whole lines and any interleaving of its components into scans decodes exactly to the source samples (shifted by the point transform): one byte per sample up to 8 bits, native-endian u16 above.",
  ["inputs"], "random sample arrays, precisions, predictors, point transforms, restarts, component counts and scan groupings",
  "Tests contain three lossless files with fixed parameters.",
  [L, PA], [("difference decoding and prediction", "src/decoder/lossless.rs decode_scan_lossless, predict"), ("output assembly", "src/decoder/lossless.rs compute_image_lossless, convert_to_u8")])
p("C12", "scale() picks the smallest sufficient factor and reports the true size",
  "scale(w,h) selects the smallest of 1/8, 1/4, 1/2, 1 whose output (each axis rounded up) is at least the request in at least one axis, or 1 if none is; it returns that size, info() reports it, and decode then yields a buffer of that size, whatever scale was asked before. Lossless images only have the factor 1.",
  ["inputs", "histories"], "all image sizes and requests, sequences of scale calls, all coding processes",
  "Unit tests check a dozen size pairs of the selection only.",
  [I, PA, D], [("factor selection", "src/idct.rs choose_idct_size"), ("size update", "src/parser.rs FrameInfo::update_idct_size, update_component_sizes")])
p("C13", "Scaled decoding approximates the ideal reduced-size inverse DCT",
  "For every DCT image and factor 1/2, 1/4, 1/8, each component is reconstructed by the N-point inverse DCT of the N x N low-frequency coefficients of each block within a small fixed error (1/8: the block mean), components are then upsampled and converted exactly as at full size, and every block lands at its place.",
  ["inputs", "configurations"], "random coefficients, sizes, sampling factors and the three reduced factors",
  "Tests compare only output sizes and coarse references for scaled decoding.",
  [I, U, D], [("reduced inverse DCTs", "src/idct.rs dequantize_and_idct_block_4x4/2x2/1x1"), ("scaled geometry", "src/parser.rs update_component_sizes")])
p("C14", "The decoding buffer limit is exact",
  "With a limit L set before decode, decode fails with a Format error when the pixel buffer it would return is larger than L bytes, and L changes nothing when the buffer is at most L bytes; the limit applies to the scaled size when scale() was used.",
  ["inputs", "configurations"], "random images of every pixel format, scales, and limits around the exact size",
  "One test uses one file and one limit.",
  [D], [("limit check", "src/decoder.rs decode_planes")])
p("C15", "The way the reader delivers bytes does not matter",
  "For every stream (valid or not), splitting reads into arbitrary short reads, including one byte at a time and with ErrorKind::Interrupted results in between, gives the same outcome and metadata as reading from a slice; a successful decode consumes nothing after the EOI marker, and read_info nothing after the frame header segment.",
  ["inputs", "schedules"], "random streams crossed with random read-chunk schedules and interrupts, trailing bytes after EOI",
  "All tests read from files or slices that deliver everything asked.",
  [LIB, PA, H], [("byte-wise reads through read_exact / io::copy", "src/lib.rs read_u8, src/parser.rs skip_bytes")])
p("C16", "Truncation and reader failures surface as Io errors",
  "If the data ends before the EOI marker, decode returns Io(UnexpectedEof) for a stream that is otherwise valid, at every cut position, and never Ok; if the reader fails with another error at any byte before the end of what is needed, decode returns Io holding that very error (kind and payload), which Display shows and source() gives. read_info depends only on the bytes up to the frame header.",
  ["inputs", "crash_points", "fault_sequences"], "every/random cut position and fault position of random valid streams, several error kinds",
  "No test truncates or injects reader errors systematically.",
  [LIB, PA, H, D], [("error propagation", "src/lib.rs read_u8/read_u16_from_be, src/parser.rs skip_bytes, src/huffman.rs read_bits")])
p("C17", "ICC profiles are reassembled exactly or not returned",
  "icc_profile() returns the concatenation, in sequence order, of the chunks when every APP2 ICC chunk names the same count N equal to the number of chunks present (1..255) and the sequence numbers are exactly 1..N; in every other case it returns None. The order and place of the segments, and other APP2 data, do not matter.",
  ["inputs"], "random chunk counts, sizes, orders, duplications, omissions, wrong totals, interleaved foreign segments",
  "Five fixed files cover five cases.",
  [D, PA], [("assembly and validation", "src/decoder.rs icc_profile"), ("segment parsing", "src/parser.rs parse_app APP(2)")])
p("C18", "EXIF and XMP are returned verbatim and other segments are inert",
  "exif_data() and xmp_data() return exactly the bytes after the 'Exif\\0\\0' / XMP namespace header of the (last) such APP1 segment, and None if there is none, for every payload and length. APPn and COM segments of any content that are not JFIF, AVI1, Adobe, EXIF, XMP or ICC change neither the pixels nor any metadata, wherever they stand between segments.",
  ["inputs"], "random payloads of 0..65533 bytes, near-miss headers, positions before SOF, between scans and before EOI",
  "Tests read two fixed files.",
  [PA, D], [("APP parsing", "src/parser.rs parse_app, parse_com, skip_bytes")])
p("C19", "Reading the header first does not change the result",
  "For every stream, read_info fails only where decode fails too, with the same error, and it succeeds whenever the segments up to and including the frame header are acceptable; decode after a successful read_info gives the same pixels, info, metadata and error as decode alone.",
  ["inputs", "histories"], "random valid and corrupted streams of all coding processes",
  "One test does this for one file.",
  [D], [("early return at the frame header", "src/decoder.rs decode_internal")])
p("C20", "All feature configurations decode alike",
  "For every stream, the builds with and without rayon return identical results, and the builds with and without platform_independent return the same kind of outcome, the same info and metadata, identical lossless output, and DCT pixels that differ by at most a small rounding error on displayable content.",
  ["configurations", "inputs"], "four builds of the crate on the same random valid and corrupted streams, single- and multi-threaded widths",
  "The test suite runs in one configuration only.",
  [W, WR, WM, WI, S, "src/arch/mod.rs", I], [("worker selection", "src/worker/mod.rs get_or_init_worker, src/decoder.rs select_worker"), ("SIMD selection", "src/arch/mod.rs")])
p("C21", "Thread scheduling never affects the outcome and decoding always finishes",
  "Decoding gives the same bytes for every thread interleaving: in rayon pools of any size including one, called from inside pool threads, with many decodes running concurrently, and with the thread-per-component workers; no schedule makes it deadlock or leak worker threads, also when decoding fails midway.",
  ["schedules", "configurations"], "random streams wide enough to use worker threads, pool sizes 1..16, nested and concurrent decodes, error streams",
  "The rayon tests run one file in three pool set-ups.",
  [WR, WM, W], [("rayon scoped rows", "src/worker/rayon.rs append_rows, compute_image_parallel"), ("mpsc worker threads", "src/worker/multithreaded.rs create_worker, collect_worker_thread")])
p("C22", "No input makes the unsafe SIMD code touch memory out of bounds",
  "For every stream, all memory accesses of the decoder (in particular the SSSE3 inverse DCT and colour conversion) stay inside live allocations.",
  ["inputs"], "random and mutated streams under AddressSanitizer with exact-size heap buffers, all widths around vector boundaries, all scales",
  "The tests run without a sanitizer on few widths.",
  [S, "src/arch/mod.rs", WI, D], [("length assertions before raw-pointer access", "src/arch/ssse3.rs")])
p("C23", "Valid but unsupported streams are reported as the right Unsupported feature",
  "A frame using arithmetic coding (SOF9-11, DAC), differential/hierarchical modes (SOF5-7, 13-15, DHP, EXP, a second frame), 12-bit DCT precision, 2 or more than 4 components, zero height (DNL), a DNL segment after the first scan, sampling ratios that are not integers, subsampled components in lossless frames or big-gamut colour ids is answered with Error::Unsupported naming that feature (ArithmeticEntropyCoding, Hierarchical, SamplePrecision, ComponentCount, DNL, NonIntegerSubsamplingRatio, SubsamplingRatio, ColorTransform), by read_info already if the frame header or a segment before it shows it; supported streams never are.",
  ["inputs"], "every such feature crossed with random otherwise valid streams",
  "The crash tests only check that such files do not panic.",
  [D, PA, U, E], [("feature rejection", "src/decoder.rs decode_internal SOF/DAC/DNL/DHP arms, src/parser.rs parse_sof, src/upsampler.rs choose_upsampler")])
p("C24", "Streams that break the JPEG syntax are rejected with Format errors",
  "A stream in which one syntax rule is violated (missing SOI, scan before frame, missing EOI frame, undefined or out-of-range table selectors, zero quantiser, over-subscribed or empty Huffman table, wrong segment lengths, duplicate or unknown component ids, illegal sampling, spectral or approximation parameters, more than 10 blocks per MCU, missing/misnumbered restart marker, undecodable code or impossible symbol, sequential image without data for a component, reserved marker) is answered with Error::Format, never with pixels, and by read_info already if the frame header or a segment before it is at fault.",
  ["inputs"], "every rule crossed with random valid streams that are valid but for it",
  "The crash tests accept any outcome but a panic.",
  [PA, D, H], [("segment validation", "src/parser.rs"), ("code construction check", "src/huffman.rs derive_huffman_codes"), ("restart checking", "src/decoder.rs decode_scan")])
p("C25", "Motion-JPEG frames decode with the standard Huffman tables",
  "A stream marked by an AVI1 APP0 segment that omits Huffman tables decodes exactly like the same stream with the standard (Annex K) tables written out; tables that are present win over the defaults, and without AVI1 the omission is a Format error.",
  ["inputs"], "random baseline images coded with the standard tables, any subset of the four tables omitted or redefined",
  "Two mjpeg test files exist.",
  [H, D], [("default tables", "src/huffman.rs fill_default_mjpeg_tables")])
p("C26", "Tolerated stream decorations change nothing",
  "Fill bytes (0xFF) before any marker, garbage bytes (not 0xFF followed by a marker code) between segments, a superfluous restart marker after the last scan data, and any data after EOI leave the outcome, pixels and metadata unchanged.",
  ["inputs"], "random valid streams with random decorations at every legal place",
  "One file with extraneous data is tested.",
  [D, H], [("marker search", "src/decoder.rs read_marker"), ("fill bytes in entropy-coded data", "src/huffman.rs read_bits"), ("trailing RST", "src/decoder.rs decode_scan tail")])
p("C27", "platform_independent builds produce the bit-exact fixed-point result",
  "With platform_independent, every sample is bit-for-bit the documented fixed-point (stb_image) dequantise/inverse-DCT of its block, wrapping on overflow, and YCbCr pixels are bit-for-bit the 20-bit fixed-point BT.601 conversion, for every coefficient, table and image size, including values far outside the displayable range.",
  ["inputs"], "random and extreme coefficients and 16-bit tables, all scales, colour images",
  "The test suite does not run in this configuration; reference images are compared with tolerance.",
  [I, D], [("integer inverse DCT", "src/idct.rs kernel"), ("integer colour conversion", "src/decoder.rs ycbcr_to_rgb")])
p("C28", "Memory stays proportional to frame and input, and everything is released",
  "Decoding any stream needs at most a constant number of heap bytes per sample of the (padded) frame and per byte of input; reading the header, or rejecting a frame, needs no memory proportional to the frame, whatever size it announces; segments of no interest to the caller are not retained. When the decoder and its results are dropped, after success or failure, all heap memory and every worker thread are gone.",
  ["inputs"], "frames up to 65535x65535 in the header, megabytes of inert segments, errors in any scan, worker threads",
  "The tests never look at memory or threads.",
  [D, "src/worker/mod.rs"], [("planes and coefficients", "src/decoder.rs decode_planes"), ("worker threads", "src/worker/multithreaded.rs")])
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    print(json.dumps(x))
