#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": None}})

ENC="src/encoder.rs"; WR="src/writer.rs"; HU="src/huffman.rs"; QU="src/quantization.rs"
IB="src/image_buffer.rs"; FD="src/fdct.rs"; AV="src/avx2/fdct.rs"; AY="src/avx2/ycbcr.rs"; MK="src/marker.rs"; LB="src/lib.rs"; ER="src/error.rs"

p("C01","Every successful encode emits a well-formed JPEG marker stream",
  "Whenever encoding reports success, the bytes delivered to the sink form one JPEG interchange stream: SOI, then marker segments whose two-byte length matches the bytes that follow, exactly one frame header with its quantization and Huffman tables defined before the first scan that uses them, one or more scans, and exactly one EOI as the last two bytes. No marker appears inside a segment body and nothing is written before SOI or after EOI. This holds for every image size, colour type, sampling factor, mode, restart interval and pixel content.",
  ["inputs","configurations"],"all images (1..65535 squared), all colour types, sampling factors, sequential/progressive/optimized modes, restart intervals",
  "the tests decode a handful of 258x128 images with one decoder, which tolerates many grammar errors",
  [ENC,WR,MK],[("segment writers", WR),("top-level emission order", ENC+" encode_image_internal")],
  [("sink byte sequence","everything handed to the writer",WR)],["bytes delivered to the sink"])
p("C02","Header fields state exactly what was requested",
  "The frame header carries the image's width and height, 8-bit precision, the right coding process (baseline or progressive) and, for each component, an identifier, sampling factors and quantization table selector matching the requested colour type and subsampling; the JFIF header carries the requested density unit and values; a restart-interval segment is present exactly when an interval was requested and carries its value. CMYK and YCCK streams carry an Adobe marker with transform 0 and 2 respectively, and no other colour type does. Every scan header names components of the frame and Huffman tables that were defined.",
  ["inputs","configurations"],"all dimensions, densities, colour types, sampling factors, restart intervals and modes",
  "tests check a few decoded dimensions and pixel formats only; most header bytes are never inspected",
  [ENC,WR],[("frame/scan/JFIF/Adobe/DRI header writers", WR),("component table", ENC+" init_components")],(),["header segments in the output"])
p("C03","Entropy-coded bits are packed losslessly, stuffed and padded",
  "The bits handed to the bit writer appear in the output in order, most significant bit first, with nothing lost, repeated or inserted, whatever the sizes of the codes and the alignment at which they arrive. Every 0xFF byte of entropy-coded data, and only those, is followed by a 0x00 byte. Before any marker, the last partial byte is filled with 1-bits and no further data byte is emitted.",
  ["inputs","histories"],"all sequences of code words (0..32 bits) at every alignment of the bit buffer",
  "a lost or unstuffed byte needs a specific bit alignment and content; tests hit a tiny fraction of the combinations",
  [WR],[("bit buffer", WR+" write_bits / write_bit_buffer / flush")],[("bit buffer and free bit count","bits not yet delivered",WR)],["entropy-coded bytes in the output"])
p("C04","Restart markers follow the requested interval",
  "With a restart interval of N, every scan has a restart marker after each N coded units (MCUs in interleaved scans, blocks in single-component scans) except after the last one, numbered 0 to 7 cyclically starting at 0 in each scan, and DC prediction restarts from zero after each marker. With no interval there are no restart markers. This holds in every coding mode.",
  ["inputs","configurations"],"all intervals 0..65535, all image sizes, all modes and colour types",
  "tests use interval values and sizes where markers wrap a few times, and only check that one decoder accepts the result",
  [ENC],[("restart bookkeeping in every scan loop", ENC)],[("units to go, marker number","restart state",ENC)],["RST markers relative to the coded units"])
p("C05","Progressive scans transmit each coefficient exactly once",
  "For every legal number of progressive scans, each component gets one DC scan first and then AC scans whose spectral bands are non-empty, never include DC, do not overlap, and together cover coefficients 1 to 63; the number of scans per component is the number requested. Each scan's header states exactly the band its data encodes, with successive-approximation bits zero.",
  ["configurations"],"all scan counts 2..64 and all component layouts",
  "tests try two or three scan counts; errors appear only at particular counts",
  [ENC],[("scan script", ENC+" encode_image_progressive")],(),["scan headers"])
p("C06","Blocks cover the image in standard order with edge replication",
  "In every mode, each component's blocks are exactly those the JPEG standard prescribes for the image size and sampling factors (interleaved scans: per MCU, component by component, row-major within the MCU; single-component scans: the component's own block raster), and each coded sample is a level-shifted pixel from the area of the image it represents. Positions beyond the right or bottom edge repeat the nearest image column or row. No pixel data outside the image influences the output.",
  ["inputs","configurations"],"all image sizes, in particular those that are not multiples of the MCU, and all sampling factors and modes",
  "block order and edge handling depend on width and height modulo the MCU size; tests use one or two sizes",
  [ENC],[("row strips, padding and block extraction", ENC)],(),["blocks entering the transform"])
p("C07","Sink errors are reported and nothing is written afterwards",
  "If the sink fails any write, encoding returns an error, never success and never a panic, and no further byte is handed to the sink after the failure. Success is reported only if every byte of the stream, up to and including EOI, was accepted by the sink; when the encoder itself owns a buffered file, that includes the bytes still in the buffer.",
  ["fault_sequences","inputs","configurations"],"a failure at any single write, in every mode and configuration",
  "no test injects a write failure",
  [WR,ENC],[("error propagation from every write", WR+", "+ENC)],(),["sink calls and the returned result"])
p("C08","Invalid input is rejected before anything is written",
  "If the supplied pixel data is shorter than width*height*bytes-per-pixel, encoding returns the bad-data error with the actual and required length; if width or height is zero it returns the zero-dimension error with both dimensions. In either case no byte reaches the sink, and valid input is never rejected. Longer data than needed is accepted.",
  ["inputs"],"all widths, heights, data lengths and colour types",
  "tests try one or two short buffers",
  [ENC,ER],[("length and dimension checks", ENC+" encode")],(),["returned error, sink"])
p("C09","Application segments and ICC profiles are stored faithfully or refused",
  "Adding an application segment succeeds exactly for numbers 1..15 and payloads of at most 65533 bytes, an ICC profile exactly up to 16,707,345 bytes; otherwise the specific error is returned and the encoder is unchanged. Accepted segments are written in the order added with their payload unchanged, after the encoder's own application headers and before the frame header. A profile is split into consecutive chunks, each tagged with the ICC identifier, its 1-based sequence number and the true total, whose payloads concatenate to the profile.",
  ["inputs","histories"],"all segment numbers, payload lengths and contents, and sequences of additions",
  "tests add a few short segments and two profiles; the limits are not exercised",
  [ENC,WR],[("add_app_segment, add_icc_profile", ENC),("write_segment", WR)],[("queued segments","segments to be written",ENC)],["APPn segments"])
p("C10","Each input format feeds the right component planes",
  "For every supported input format each pixel contributes to the component planes exactly as documented: RGB-family formats through the RGB to YCbCr transform with the channels taken from the right byte positions and the alpha byte ignored, luma and YCbCr and YCCK unchanged, CMYK inverted, CMYK-as-YCCK transformed with inverted K. Pixels are taken from row y, left to right, one sample per pixel and component. Formats that describe the same colours give identical planes.",
  ["inputs","configurations"],"all pixel values, widths and rows, for each format",
  "tests encode one gradient per format, with lossy tolerance, and cannot see a swapped or aliased channel on most content",
  [IB,AY],[("image buffer implementations", IB+", "+AY)],(),["component planes"])
p("C11","RGB to YCbCr conversion is the JFIF transform within one level",
  "For every RGB triple each converted component is within one level of the JFIF (BT.601 full-range) value and lies in 0..255 without wrap-around; neutral greys map to themselves with both chroma at 128.",
  ["inputs"],"all 2^24 RGB triples","tests check about a hundred triples",
  [IB],[("rgb_to_ycbcr", IB)],(),["returned components"])
p("C12","The forward transform is an accurate 8x8 DCT",
  "For every block of level-shifted 8-bit samples, each output of the portable forward transform differs from eight times the orthonormal two-dimensional DCT-II coefficient of that block by no more than a small fixed amount, and no intermediate value overflows. The result depends only on the block.",
  ["inputs"],"all 256^64 sample blocks","tests compare two blocks with reference output",
  [FD],[("fdct", FD)],(),["transform output"])
p("C13","SIMD code paths produce the same result as the portable code",
  "With the SIMD feature enabled and available, colour conversion and the forward transform produce exactly the values the portable implementation produces, for every input; the encoded stream therefore does not depend on the CPU.",
  ["inputs","configurations"],"all pixel rows (all widths, including those not a multiple of the vector length) and all sample blocks",
  "the tests run one of the two implementations on one CPU and never compare them",
  [AV,AY,FD,IB,ENC],[("AVX2 transform", AV),("AVX2 colour conversion", AY)],(),["outputs of both implementations"])
p("C14","Coefficients are quantized with the tables written to the file",
  "Every quantization table value written to the stream is between 1 and 255, is stored in zig-zag order under the right table number, and is the value the corresponding coefficients were actually divided by. Quantization rounds to a nearest multiple: dequantizing differs from the transform output by at most half a step. Component coefficients use the table their frame header entry names.",
  ["inputs","configurations"],"all table kinds, custom tables (any 16-bit values), qualities and coefficient values",
  "tests sample a few qualities and one custom table with small values",
  [QU,WR,ENC],[("QuantizationTable", QU),("write_quantization_segment", WR)],[("divisors and reciprocals","premultiplied tables",QU)],["DQT segments, quantized coefficients"])
p("C15","Standard tables and quality scaling follow the JPEG specification",
  "The default quantization tables at quality 50 and the default Huffman tables are those of Annex K, the zig-zag order and marker codes those of the standard, and quality q scales a base table the way libjpeg does (clamped to 1..255; qualities outside 1..100 are clamped). Raising the quality never increases a table value.",
  ["configurations"],"all qualities 0..255, all table kinds, all 64 positions, all marker kinds",
  "tests only look at quality 100 and at decodability",
  [QU,HU,WR,MK],[("constant tables", QU+", "+HU+", "+WR),("get_with_quality", QU)],(),["DQT/DHT content"])
p("C16","Huffman tables written are valid and complete for the data coded",
  "Every Huffman table in the stream has at most 16-bit codes, satisfies the Kraft inequality with the all-ones code unused, and lists each symbol once; the code words used by the coder are the canonical codes a decoder derives from the table written. Every symbol the coder emits has a code in the table in force, for default and for optimized tables.",
  ["inputs","configurations"],"all coefficient values the 8-bit transform can produce, all modes, default and optimized tables",
  "a missing or wrong code appears only if a particular run/size symbol occurs",
  [HU,ENC],[("create_sizes/create_codes/create_lookup_table, new_optimized", HU)],[("lookup table","code per symbol",HU)],["DHT segments and emitted codes"])
p("C17","Optimized tables count exactly the symbols that are coded",
  "With optimized Huffman tables, every symbol later emitted with a table was counted for that table: same DC predictor resets, same run-length and end-of-block rules, same spectral bands, same component-to-table assignment. Encoding with optimized tables therefore succeeds for every image and setting and decodes to the same coefficients as with the default tables.",
  ["inputs","configurations"],"all coefficient patterns, restart intervals, scan counts and component layouts",
  "tests combine optimization with few other settings and one gradient image",
  [ENC,HU],[("optimize_huffman_table", ENC)],[("symbol frequencies","per table",ENC)],["symbols emitted versus codes available"])
p("C18","Coefficients are entropy-coded as the standard prescribes",
  "A DC difference is coded as its magnitude category followed by that many low-order bits (one's complement for negatives); each non-zero AC coefficient in the scan's band is coded as zero-run/category with 16-zero runs as ZRL, and trailing zeros as a single end-of-block, in zig-zag order. Decoding the emitted bits with the written tables yields exactly the quantized coefficients.",
  ["inputs"],"all coefficient values and all zero-run patterns within a block, all bands",
  "long zero runs, band edges and large magnitudes are rare in the test images",
  [WR],[("write_dc, write_ac_block, get_code", WR)],(),["emitted bits per block"])
p("C19","Unsafe SIMD code stays in bounds and runs only where supported",
  "AVX2 instructions are executed only after the CPU was found to support them in the same encode call, and every raw memory access of the SIMD code stays inside the pixel data and the component buffers for every image size and data length the API accepts. No unsafe code exists outside the optional SIMD feature.",
  ["inputs","configurations"],"all image sizes, pixel formats, modes and CPUs",
  "an out-of-bounds read or write does not fail a test, and test machines support AVX2",
  [AV,AY,ENC,LB],[("feature detection", ENC+" encode / encode_image"),("raw pointer loops", AY)],(),["memory accesses"])
p("C20","Encoder settings are independent, readable and default as documented",
  "Each setter changes only its own setting, each getter returns what was last set, and a new encoder has the documented defaults (no density, 4:2:0 below quality 90 and 4:4:4 from 90, default tables, sequential, no restarts, no optimization). Interval 0 means no restarts, enabling progressive mode means 4 scans, scan counts outside 2..64 are refused by panic, and sampling factors map to and from their horizontal/vertical pair with aliases equal to the factor they alias.",
  ["histories","configurations"],"all values and orders of setter calls","tests set one or two options and never read them back",
  [ENC],[("setters/getters", ENC)],(),["getters and subsequent output"])
p("C21","Output is a function of pixels and settings only",
  "Encoding the same pixels with the same settings yields the same bytes: nothing depends on time, environment, addresses, randomness, threads, uninitialised memory or on earlier encodes in the process. The library keeps no mutable global state and touches nothing outside the given sink, except creating the one file the caller named.",
  ["histories","schedules"],"all sequences and concurrent uses of encoders in a process",
  "non-determinism does not fail a test that encodes once",
  ["src"],[("absence of ambient effects", "src")],(),["effects reachable from the public API"])
p("C22","Image buffers are read row by row, in range and completely",
  "A caller-supplied image buffer is asked only for rows 0..height-1, in ascending order with every row requested, the last row repeated for padding; the four buffers it is given behave as append-only row storage that only ever receives the samples it pushed plus edge replication. Width, height and colour type reported by the buffer are the ones written.",
  ["inputs","configurations"],"all sizes, colour types, sampling factors and modes, for any implementation of the trait",
  "tests use the built-in buffers, which are insensitive to repeated or out-of-order rows",
  [ENC,IB],[("fill loops", ENC+" encode_image_interleaved / encode_blocks")],(),["calls made on the image buffer"])
p("C23","The crate builds and stays safe in every feature configuration",
  "Without the default features the crate depends on core and alloc only and exposes the same encoding API through its own writer trait; without the SIMD feature it contains no unsafe code; no feature combination changes the meaning of a public item.",
  ["configurations"],"all combinations of the std, simd and benchmark features","tests run with default features",
  [LB,WR,ER,"Cargo.toml"],[("cfg gates", LB)],(),["each configuration's type-checked crate"])
p("C24","Encoding never panics on accepted input",
  "For every image, setting and sink behaviour the API accepts, encoding returns normally: no index is out of range, no arithmetic overflows in a checked build, no assertion fails and no unreachable arm is reached. (The documented panics of setters excepted.)",
  ["inputs","configurations","fault_sequences"],"all images and settings",
  "a panic needs a particular size, coefficient or setting combination",
  ["src"],[("index arithmetic", ENC),("bit buffer arithmetic", WR)],(),["panic sites reachable from the public API"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
