#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

LHOOK = "cfg(laya_verif): re-exports the request decoder, its result types and the serving loop, which are private modules"

prop("C01", "IIIF region parameter: accepted language and decoded value",
 "For every string, the region segment of an image request is accepted exactly when it is `full`, `square`, four comma-separated integers (digits with an optional `+`, at most 2^32-1) with non-zero width and height, or `pct:` followed by four comma-separated decimal numbers (optional sign, digits with optional fraction and exponent) whose nearest 32-bit float is finite and which satisfy the repository's rule that a percentage selector is valid only above zero; anything else is rejected with an error naming the first offending selector (or the wrong selector count) and never a panic. An accepted region carries exactly the written values in x, y, width, height order.",
 ["inputs"], "every region string up to a length bound over an alphabet holding every character the grammar distinguishes, plus every combination of a menu of boundary numerals in the four selector slots",
 "The tests try about a dozen strings; zero, overflow, sign, exponent, NaN/infinity, empty-selector and count errors in every position and their combinations are not sampled.",
 ["src/iiif/parse.rs", "src/iiif.rs"], [("Region::from_str / parse_region_selectors / SpatialSelector::validate", "src/iiif/parse.rs")],
 ["decoded request's region(), error text of the 400 response"], LHOOK)

prop("C02", "IIIF size parameter: accepted language and decoded value",
 "For every string, the size segment is accepted exactly when it is `max`, `w,`, `,h`, `w,h`, `!w,h` or `pct:n`, each optionally preceded by one `^`, where pixel dimensions are integers (digits with an optional `+`) in 1..2^32-1 and n is a decimal number (optional sign, digits with optional fraction and exponent) whose nearest 32-bit float is finite, greater than 0 and, without `^`, at most 100. The decoded value records upscaling iff `^` was present, aspect preservation iff `!` was present, and exactly the written dimensions; everything else is rejected with an error and never a panic.",
 ["inputs"], "every size string up to a length bound over an alphabet of all grammar characters, plus products of boundary numerals with every prefix",
 "The unit tests hold one or two examples per form; interactions of ^, !, pct:, empty dimensions, zero and overflow are unbounded combinations.",
 ["src/iiif/parse.rs", "src/iiif.rs"], [("Size::from_str / parse_scale_percent / parse_scale_px", "src/iiif/parse.rs")],
 ["decoded request's size(), error text"], LHOOK)

prop("C03", "IIIF rotation, quality and format parameters",
 "For every string, a rotation is accepted exactly when it is an optional `!` followed by a decimal number (optional sign, digits with optional fraction and exponent) whose nearest 32-bit float lies in [0, 360], giving that angle and mirroring iff `!` was written; quality is accepted exactly for color, gray, bitonal and default; format exactly for jpg, tif, png, gif, jp2, pdf and webp (case-sensitive), each mapping to its own value and media type. All other strings are rejected with an error quoting the rejected text, never a panic.",
 ["inputs"], "every rotation string up to a length bound over the numeric alphabet, boundary numerals around 0 and 360, and every string within edit distance one of each keyword",
 "Tests sample two angles, one quality and no accepted format; near-miss keywords, boundaries, NaN and exponents are not covered.",
 ["src/iiif/parse.rs", "src/iiif.rs"], [("Rotation/Quality/Format::from_str, Format::mime", "src/iiif/parse.rs, src/iiif.rs")],
 ["decoded request's rotation(), quality(), format()"], LHOOK)

prop("C04", "Image request path decoding is exact, ordered and build-independent",
 "A request path `/{identifier}/{region}/{size}/{rotation}/{quality}.{format}` decodes to exactly the percent-decoded identifier and the five parsed parameters, in both debug and release builds; a path with a missing element, a non-UTF-8 identifier or an invalid parameter is rejected with the error of the first offending element in path order. Malformed percent escapes are kept verbatim; paths with extra segments carry no claim. No path makes the decoder panic.",
 ["inputs", "configurations"], "every sequence of up to seven path segments from a menu of valid and invalid segments per position, every identifier over an escaping alphabet up to a length bound, in builds with and without debug assertions",
 "Two example paths are tested, only in a debug build; which error wins, escapes, truncated paths and the release profile are not.",
 ["src/http.rs", "src/iiif.rs"], [("decode_image_request", "src/http.rs")],
 ["decoded ImageRequest / ImageRequestError"], LHOOK)

prop("C05", "No request can reach a file outside the configured image directory",
 "Whatever identifier a client sends, percent-encoded or not, the only file the server opens for it is a path that stays inside the image directory it was started with (no absolute path, no `..`, no NUL); identifiers that would escape, and the empty one, are refused with a client error and nothing is opened. An identifier naming a plain file inside the directory opens exactly that file.",
 ["inputs"], "every identifier built from up to five tokens of {name, dot, dot-dot, separators, encoded separators, double encodings, NUL, absolute prefixes} sent through the real HTTP stack, for several spellings of the image directory",
 "No test sends an identifier to the resolver at all; traversal depends on combinations of encodings and path joins.",
 ["src/resolve.rs", "src/http.rs"], [("DiskImageSource::resolve", "src/resolve.rs"), ("identifier percent-decoding", "src/http.rs")],
 ["paths given to the file-opening call", "HTTP status"], LHOOK)

prop("C06", "Every HTTP request gets exactly one correct response, in order",
 "For every request on a connection, whatever its method and target and however its bytes are split across reads or the response across partial writes, the server sends exactly one complete response, in request order: 200 for a valid image request whose image exists, a 4xx/5xx status with an explanatory body otherwise, 404 for non-GET methods. No request terminates the connection task abnormally (a panic) or stops the server. A request whose body the server leaves unread may be the last answered on its connection; a client that stops sending or reading early may get fewer or shortened answers, but never wrong ones.",
 ["inputs", "schedules", "fault_sequences"], "pipelines of up to three requests from a menu covering every routing branch, each explored under all single and double split points, partial-write sizes, pending/ready answers and a disconnect at every byte",
 "Nothing in the suite runs the server, its stream adapter or its routing; fragmentation and pipelining orders are schedule-dependent.",
 ["src/lib.rs", "src/http.rs"], [("hyper_compat::HyperStream, serve_http2", "src/lib.rs"), ("handle_request", "src/http.rs")],
 ["bytes written to the client socket"], LHOOK)

prop("C07", "Connection limit is respected, permits always return, failures stay isolated",
 "At no time are more connections being served than the configured maximum; each connection that ends, normally, by error or by client disconnect, frees its slot, so that every accepted connection is eventually served while others finish. A failing connection or a failed accept never stops the server from serving later clients.",
 ["schedules", "fault_sequences"], "all interleavings of connection arrivals, request bytes, disconnects, task steps and accept failures for limits 1-2 and up to three clients, with a bounded number of departures from first-in-first-out task order, explored on the real serving loop",
 "No test starts the accept loop; limit violations and leaked permits need particular interleavings of three or more clients.",
 ["src/lib.rs"], [("serve_http2 accept loop, Semaphore permit", "src/lib.rs")],
 ["number of connections being read/served", "responses per client"], LHOOK,
 [("conn_control", "permits for concurrently served connections", "src/lib.rs")])

J="openjp2-rs/src/"
prop("C10", "Reversible encoding followed by decoding returns the identical image",
 "For every image (any number of components, sub-sampling, offset, bit depth and signedness the encoder accepts) and every combination of reversible coding parameters the encoder accepts, decoding the produced file yields the same geometry, precision and sample values. This holds for raw codestreams and for JP2 files.",
 ["inputs", "configurations"], "all combinations up to interaction strength two or three of tile grid, offsets, resolutions, code-block size and style, precincts, progression, layers, ROI, MCT, component layout, precision and content pattern over images up to a few dozen samples a side, and exhaustively all small-alphabet images of tiny sizes",
 "The suite never runs the encoder and checks no pixel of the one file it decodes.",
 [J+"j2k.rs", J+"tcd.rs", J+"t1.rs", J+"t2.rs", J+"dwt.rs", J+"mqc.rs", J+"mct.rs", J+"tgt.rs", J+"bio.rs", J+"pi.rs", J+"image.rs"],
 [("opj_setup_encoder..opj_end_compress, opj_read_header..opj_decode", J+"openjpeg.rs")], ["decoded opj_image samples"])

prop("C11", "Encoder output is a conformant codestream",
 "Every codestream the encoder reports as successfully written obeys ISO/IEC 15444-1: an independently written decoder that follows only the standard parses it completely (marker segments, tile-part lengths, TLM/PLT contents, packet headers, code-block bytes) and reconstructs the very samples that were encoded. Declared parameters (geometry, progression, layers, styles) are the ones the caller asked for.",
 ["inputs", "configurations"], "the encoder configurations and images of C10 plus TLM/PLT/SOP/EPH, tile-part divisions and progression-order changes, each decoded by the reference decoder",
 "No test looks at encoder output; agreement with the library's own decoder cannot reveal errors both sides share.",
 [J+"j2k.rs", J+"t2.rs", J+"t1.rs", J+"mqc.rs", J+"pi.rs", J+"tcd.rs"], [("marker writers", J+"j2k.rs"), ("opj_t2_encode_packets", J+"t2.rs"), ("opj_t1_encode_cblks", J+"t1.rs")],
 ["bytes written to the output stream"])

prop("C12", "Decoder agrees with the standard on every legal codestream layout",
 "For every legal codestream, the decoder reconstructs the samples the standard prescribes, regardless of layout choices: tile-parts split or interleaved across tiles, packed packet headers in main or tile headers, progression-order changes, per-component or per-tile coding and quantisation overrides, optional and unknown marker segments, empty packets and zero-length tile-parts.",
 ["inputs", "configurations"], "every combination of the listed layout transformations applied to a set of base codestreams, each compared sample by sample with the reference decoder",
 "The suite decodes one file with one layout and checks only that the call succeeds.",
 [J+"j2k.rs", J+"t2.rs", J+"pi.rs", J+"tcd.rs", J+"t1.rs"], [("marker readers, opj_j2k_read_sot/sod, merge_ppm/ppt", J+"j2k.rs"), ("opj_t2_decode_packets", J+"t2.rs"), ("packet iterators", J+"pi.rs")],
 ["decoded opj_image samples"])

prop("C13", "Decoding a window equals cropping the full decode",
 "For every rectangle of the image area (including ones touching tile, code-block or precinct borders, one sample wide, or reaching beyond the image, where they are clipped) and every resolution reduction, decoding with that area set yields exactly the samples, dimensions and offsets of the same rectangle cut from a full decode at that reduction (for irreversible files up to the rounding of the arithmetic), also when another window was set or decoded before on the same codec. Rectangles with negative coordinates or outside the image yield no samples; rectangles in which some component has no sample may be refused.",
 ["inputs", "configurations"], "every rectangle on small multi-tile, sub-sampled, offset images for every reduction factor, for reversible and irreversible files",
 "No test sets a decode area; off-by-one errors at filter-support and tile borders appear only for particular rectangles.",
 [J+"j2k.rs", J+"tcd.rs", J+"dwt.rs", J+"sparse_array.rs", J+"t1.rs"], [("opj_set_decode_area", J+"j2k.rs"), ("partial inverse wavelet, sparse array", J+"dwt.rs, "+J+"sparse_array.rs")],
 ["decoded opj_image samples and component geometry"])

prop("C14", "Decoding by tile equals decoding the whole image",
 "Decoding each tile individually, in any order and repeatedly, or streaming tiles in codestream order, yields the samples and geometry of that tile's area in a whole-image decode (for irreversible files up to the rounding of the arithmetic). A tile index that does not exist is refused without disturbing later requests. Tiles in which some component has no sample at the chosen reduction may be refused.",
 ["histories", "inputs"], "every sequence of up to three tile requests (valid and invalid indices) on the same codec, and the streaming interface, over several tile grids and layouts",
 "No test decodes a tile; stale per-tile state shows only for particular request orders.",
 [J+"j2k.rs", J+"tcd.rs"], [("opj_get_decoded_tile, opj_read_tile_header, opj_decode_tile_data", J+"j2k.rs")],
 ["decoded tile buffers and image components"])

prop("C15", "Reduced-resolution decoding yields the standard's lower-resolution image",
 "For every file and every reduction factor below the smallest number of resolutions any of its coding styles declares, given before or after reading the header, decoding yields component dimensions equal to the full dimensions divided by 2^r rounded as the standard prescribes from the reference-grid coordinates, and exactly the low-pass image obtained by undoing all but the last r wavelet levels; factors at or above the number of resolutions of any component of any tile are refused.",
 ["inputs", "configurations"], "all image sizes and offsets in a small range times all decomposition depths times all factors, compared with the reference decoder",
 "No test sets a reduction factor; rounding depends on parity of every coordinate at every level.",
 [J+"j2k.rs", J+"tcd.rs", J+"dwt.rs", J+"image.rs"], [("cp_reduce, opj_set_decoded_resolution_factor, minimum_num_resolutions", J+"j2k.rs, "+J+"tcd.rs")],
 ["component w, h, factor and samples"])

prop("C16", "Decoding a subset of components equals the same components of a full decode",
 "For every non-empty set of component indices, decoding only these components returns for each of them exactly the samples a full decode without colour transform yields, in the same geometry; duplicate or out-of-range indices are refused.",
 ["inputs", "configurations"], "every subset (and every short list including duplicates and out-of-range indices) of up to four components over files with sub-sampling, MCT on and off, and several tiles",
 "No test selects components.",
 [J+"j2k.rs", J+"tcd.rs", J+"t2.rs"], [("opj_set_decoded_components", J+"j2k.rs")], ["decoded components"])

prop("C17", "Quality layers refine towards the full image and respect requested rates",
 "Decoding only the first k of n quality layers yields exactly the image the first k layers' data defines, whole, at a reduced resolution or in a window, whatever the undecoded layers hold; asking for n or more layers decodes all of them. When rates are requested, in every tile the packets of layers 1..k stay within the requested size (raw size of the tile divided by the rate) as soon as that is feasible, and use it; a rate of 1 or less, or a quality of 0, in the last layer of a reversible encoding keeps everything (lossless). Requested PSNRs are met within a few dB. Every further layer keeps or lowers the error.",
 ["inputs", "configurations"], "all layer counts up to four, rate/quality vectors from a menu, all k, all progressions and tile grids of a small set, compared with the reference decoder and with byte accounting of the codestream",
 "No test encodes or decodes with layers.",
 [J+"tcd.rs", J+"t2.rs", J+"j2k.rs"], [("opj_tcd_rateallocate, opj_tcd_makelayer", J+"tcd.rs"), ("cp_layer", J+"j2k.rs, "+J+"t2.rs")], ["decoded samples, packet bytes per layer"])

prop("C18", "Decoding does not depend on how the input stream delivers its bytes",
 "For a given file, decoding gives the same result and samples whatever the stream buffer size, however reads are split into short reads, and whether the source is a custom stream, a seekable one or a file. Seeks requested of a custom stream use its seek callback with the absolute position. A read that fails is taken for the end of the data: what comes of it is what comes of a file that ends there, which in strict mode means failure or unchanged samples. A failing skip or seek, or one the stream does not have, makes the call that needs it fail, never crash or return wrong samples as success. A stream whose declared length is wrong or unset is read safely. No stream comes of a file that does not exist.",
 ["schedules", "fault_sequences", "inputs"], "all buffer sizes in a range including 1, every single and double short-read deviation at each read call, one failure injected at every callback call, for whole, windowed and tile-wise decodes",
 "The two decode tests deliver full reads from a 1 MiB buffer and never fail.",
 [J+"stream.rs", J+"openjpeg.rs", J+"j2k.rs", J+"jp2.rs"], [("Stream::read/skip/seek over BufReader", J+"stream.rs")], ["decode result, callback arguments"])

prop("C19", "Encoding is independent of the output stream and reports write failures",
 "For given image and parameters, the bytes that end up in the output are identical whatever the stream buffer size and however the sink accepts them in short writes, for custom and file sinks, and identical on every run. If any write, skip or seek of the sink fails, some encoding call reports failure; success is never reported for an incomplete file.",
 ["schedules", "fault_sequences", "configurations"], "all buffer sizes in a range, every single short-write deviation, one failure injected at every callback call (including the last flush), with and without TLM back-patching and the JP2 wrapper",
 "No test encodes.",
 [J+"stream.rs", J+"j2k.rs", J+"jp2.rs"], [("Stream::write/flush/seek over BufWriter", J+"stream.rs"), ("opj_j2k_end_compress / opj_jp2_end_compress", J+"j2k.rs, "+J+"jp2.rs")], ["sink contents, return values"])

prop("C20", "Truncated files fail or decode their intact part, never misbehave",
 "For every proper prefix of a valid file, the decoder terminates without crashing, and either reports failure or yields an image of the declared geometry. In strict mode, success means that all data of every tile is there and the samples are exact; with all tile data there, only what follows it missing, decoding that is not strict succeeds. When not strict, a stream that ends inside the packets of a tile decodes: tiles that are there completely are exact, and of the others every sample that depends only on packets wholly contained in the prefix has the value these packets define, or is missing.",
 ["crash_points", "inputs"], "every prefix length of small files covering all progressions, tile-part layouts, packed headers, block styles and the JP2 wrapper, in both modes, with the end known or met as a failing read, whole and in a window, under an address sanitizer",
 "Tests decode only a complete file.",
 [J+"j2k.rs", J+"t2.rs", J+"stream.rs", J+"jp2.rs"], [("opj_j2k_read_sod, opj_j2k_read_sot, opj_t2_read_packet_data", J+"j2k.rs, "+J+"t2.rs")], ["decode result, samples"])

prop("C21", "Corrupted files never cause crashes, hangs or out-of-bounds access",
 "For every file differing from a valid one by a single altered, inserted or removed byte (or by two or four neighbouring header bytes replaced by an extreme value), reading the header and decoding, whole or by tile, terminates in bounded time with success or failure and without panicking, aborting or touching memory outside its allocations.",
 ["inputs", "fault_sequences"], "every byte position of the headers of several small files times all 256 values, a menu of values for the headers and packets of a covering set of layouts, all single deletions and insertions and extreme fields, each through several ways of decoding, under an address sanitizer and a time limit",
 "No malformed input is tested.",
 [J+"j2k.rs", J+"jp2.rs", J+"t2.rs", J+"t1.rs", J+"tcd.rs", J+"ht_dec.rs", J+"pi.rs"], [("marker and box validation", J+"j2k.rs, "+J+"jp2.rs")], ["process state, return values"])

prop("C22", "Any order of API calls is safe and out-of-order calls are refused",
 "For every sequence of public codec calls on one codec, stream and image, each call returns success or failure without crashing; a call made before its prerequisites (decoding before the header is read, encoding before setup, decoder calls on an encoder and vice versa) is refused, and a refused call (an area, a resolution factor, a component list or a tile that is not there) changes nothing for those that follow. Legal orders give the right samples or bytes. Destroying the objects at any point releases all memory they hold.",
 ["histories"], "every sequence of up to four (thorough: five) of 21 decoder calls on good, damaged and cut files and up to five (six) of 13 encoder calls, including invalid arguments, on codestreams and JP2 files of one and two tiles, with exact heap accounting after destruction",
 "Tests run one legal order each.",
 [J+"openjpeg.rs", J+"codec.rs", J+"j2k.rs", J+"jp2.rs", J+"image.rs"], [("state checks in the codec front end, Drop implementations", J+"codec.rs, "+J+"j2k.rs, "+J+"image.rs")], ["return values, heap in use"])

prop("C23", "JP2 container metadata is written and read faithfully",
 "Colour space, ICC profile, per-component precision and signedness and dimensions written to a JP2 file are read back unchanged, and boxes carry correct lengths and nest as ISO/IEC 15444-1 Annex I requires. On reading, palette, component mapping and channel definition boxes are applied as defined (or the file refused when they are inconsistent), and unknown or reordered legal boxes do not change the result.",
 ["inputs", "configurations"], "all component counts up to four times colour spaces, precisions and profiles for writing; for reading, all palettes/mappings/channel definitions of a small domain and every position of an unknown, zero-length-to-end or extended-length box",
 "The one sample file has one fixed box layout and its metadata is not checked.",
 [J+"jp2.rs"], [("box readers and writers, opj_jp2_apply_pclr, opj_jp2_apply_cdef", J+"jp2.rs")], ["image metadata, components"])

prop("C24", "Reported codestream structure matches the codestream",
 "The codestream information returned after reading a header (tile grid, progression, layers, per-component coding parameters) equals what the marker segments say, and every marker and tile-part position reported by the codestream index points at that marker in the file with its true length.",
 ["inputs", "configurations"], "all encoder configurations of a covering set and the layout-transformed codestreams, compared with an independent marker parser",
 "No test queries the information or index.",
 [J+"j2k.rs"], [("j2k_get_cstr_info, j2k_get_cstr_index, opj_j2k_add_mhmarker/tlmarker", J+"j2k.rs")], ["opj_codestream_info_v2, opj_codestream_index"])

prop("C25", "Irreversible coding reconstructs within the quantiser's error",
 "Encoding with the irreversible path and decoding yields samples the standard prescribes for that codestream (to within one unit of rounding), inside the component's value range, and, with no rate limit, close to the original. Saturated and extreme inputs are clamped, never wrapped.",
 ["inputs", "configurations"], "covering set of irreversible configurations with extreme-value patterns, all image sizes and offsets in a small range, compared with the reference decoder and with the original under an error bound",
 "No test uses or checks the irreversible path's samples.",
 [J+"dwt.rs", J+"mct.rs", J+"tcd.rs", J+"t1.rs"], [("9/7 transform, ICT, quantisation", J+"dwt.rs, "+J+"mct.rs, "+J+"tcd.rs")], ["decoded samples"])

prop("C26", "Custom multi-component transforms are carried and inverted",
 "An image encoded with a caller-supplied invertible component matrix and offsets decodes, using only the file, to the original samples within rounding; the file carries the transform in conformant marker segments. Singular matrices are refused.",
 ["inputs", "configurations"], "all matrices of a small integer domain for two and three components (and selected four-component ones) with offsets from a menu",
 "No test sets a custom transform.",
 [J+"j2k.rs", J+"mct.rs", J+"invert.rs", J+"c_api_types.rs"], [("opj_set_MCT, opj_j2k_setup_mct_encoding, opj_j2k_add_mct, opj_matrix_inversion_f", J+"j2k.rs, "+J+"invert.rs")], ["decoded samples"])

prop("C27", "Tile-by-tile encoding equals whole-image encoding",
 "Writing an image tile by tile through the tile interface produces exactly the bytes whole-image encoding produces for the same parameters; a tile buffer of the wrong size, a wrong index order or a missing tile is refused rather than written.",
 ["histories", "configurations"], "every tile call sequence up to four calls (right, repeated, skipped, wrong size) over several tile grids, precisions and sub-samplings",
 "No test writes tiles.",
 [J+"j2k.rs", J+"tcd.rs"], [("opj_write_tile, opj_j2k_pre_write_tile, opj_tcd_copy_tile_data", J+"j2k.rs, "+J+"tcd.rs")], ["output bytes, return values"])

prop("C28", "High-throughput code-blocks decode to the coefficients they code",
 "A codestream whose code-blocks are coded as in ISO/IEC 15444-15 (cleanup pass alone, with significance propagation, with magnitude refinement, stripe causal or not, passes spread over layers) decodes to exactly the samples that the same coefficients give when coded as in Part 1; what the passes do not tell stays inside the interval they leave open. Damaged high-throughput blocks are refused or decode to something, without any access outside an object.",
 ["inputs", "configurations"], "every block size up to 11x11 and long ones, every precision up to 29 bits, every block of eight samples over five values, every significance pattern of 15 or 16 samples, all codestream layouts within one deviation of six bases, every byte of a set of blocks damaged",
 "No test holds a high-throughput codestream.",
 [J+"ht_dec.rs", J+"t1_ht_luts.rs", J+"t2.rs", J+"t1.rs"], [("opj_t1_ht_decode_cblk", J+"ht_dec.rs"), ("opj_t2_read_packet_header, opj_t2_init_seg", J+"t2.rs")], ["decoded samples, refusals"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
