#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json
L = "lib/src/lib.rs"
A = "lib/src/alpha.rs"
B = "lib/src/colourblock.rs"
S = "lib/src/colourset.rs"
CL = "lib/src/colourfit/cluster.rs"
RG = "lib/src/colourfit/range.rs"
SG = "lib/src/colourfit/single.rs"
LUT = "lib/src/colourfit/single_lut.rs"
M = "lib/src/math.rs"
CLI = "cli/src/main.rs"
PNG = "cli/src/image/png.rs"
JPG = "cli/src/image/jpeg.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Colour blocks decode to exactly the values BC1, BC2 and BC3 define",
  "Decoding any 8-byte colour block gives the format's colours: 5:6:5 endpoints expanded by bit replication, 2-bit row-major little-endian indices, and interpolated entries (2a+b)/3, (a+2b)/3 or (a+b)/2 rounded down. In BC1 a first endpoint not greater than the second selects the three-colour mode whose fourth entry is transparent black (0,0,0,0); every other BC1 pixel is opaque. BC2 and BC3 always use the four-colour mode, whatever the order of the endpoints.",
  ["inputs"], "every 64-bit colour block, in BC1 and as the colour half of BC2 and BC3 blocks",
  "The tests decode one fixed gray and one fixed coloured block per format; the 2^64 blocks include both endpoint orders, equal endpoints and every index, most of which no test decodes.",
  [B, L], [("decompress / unpack_565", B), ("Format::decompress_block", L)],
  ["Format::decompress_block"])

p("C02", "Alpha and single-channel blocks decode to exactly their BC2-BC5 values",
  "BC2 alpha is 16 little-endian 4-bit values v decoded as 17*v; a BC3/BC4/BC5 channel block decodes with eight entries (six interpolated, weights k/7) when the first endpoint is greater and otherwise six entries (weights k/5) plus 0 and 255, all rounded down, with 3-bit little-endian row-major indices. BC3 puts the channel in alpha, BC4 replicates it to red, green and blue with alpha 255, and BC5 puts its two halves in red and green with blue 0 and alpha 255.",
  ["inputs"], "every 8-byte alpha/channel block, at each place where BC2, BC3, BC4 and BC5 hold one",
  "The tests decode one or two fixed blocks per format; endpoint orders, extremes, equal endpoints and most index patterns are never decoded.",
  [A, L], [("decompress_bc2, decompress_bc3", A), ("Format::decompress_block", L)],
  ["Format::decompress_block"])

p("C03", "Image decompression puts every block's pixels in place and writes nothing else",
  "Decompressing an image of any width and height of at least one gives, at pixel (x,y), the value that decoding block (x/4, y/4) of the row-major block stream gives at (x%4, y%4). Bytes of the output beyond width*height*4 are left as they were, and bytes of the input beyond the image's last block have no influence.",
  ["inputs", "configurations"], "all formats, image sizes (multiples of four or not), block contents, amounts of extra input or output, with and without the parallel feature",
  "One 4x6 BC1 image is the only multi-block decompression test; two released versions had assembly bugs for other sizes.",
  [L], [("Format::decompress", L), ("num_blocks", L)], ["Format::decompress"])

p("C04", "Image compression equals encoding each 4x4 block on its own",
  "Compressing an image gives, in row-major block order, exactly the bytes that compressing each 4x4 block separately gives, with the pixels that fall outside the image masked out. So a block's bytes depend only on its own in-image pixels and on the parameters, never on its position, on its neighbours or on the image size.",
  ["inputs", "configurations"], "all formats, parameters, image sizes of at least 1x1 and pixel contents, with and without the parallel feature",
  "Tests only compress a single 4x4 block; no test compresses more than one block or a partial block.",
  [L], [("Format::compress: block extraction and mask", L), ("Format::compress_block_masked", L)], ["Format::compress", "Format::compress_block_masked"])

p("C05", "Size accounting is exact and larger or smaller buffers are handled safely",
  "The compressed size of an image is ceil(w/4)*ceil(h/4) blocks of 8 bytes (BC1, BC4) or 16 bytes (BC2, BC3, BC5), and compression fills exactly that many bytes. Into any output buffer of at least that size compression writes the same leading bytes and leaves the rest untouched; a smaller buffer is refused with a panic before anything is written.",
  ["inputs"], "all formats, image sizes and output buffer lengths",
  "Two image sizes are tested, always with exactly sized buffers.",
  [L], [("num_blocks, compressed_size, block_size", L), ("Format::compress length assertion", L)], ["Format::compressed_size", "Format::block_size", "num_blocks", "Format::compress"])

p("C06", "Pixels outside the mask never influence the encoded block",
  "Two blocks that agree on every pixel enabled in the mask compress to identical bytes, whatever their disabled pixels hold, in every format and with every parameter. Mask bits above the sixteen pixels have no influence either.",
  ["inputs"], "all pairs of blocks that agree on a 16-bit mask, formats, parameters",
  "No test uses a mask other than all pixels enabled.",
  [L, A, S], [("mask handling in compress_bc2, compress_bc3, fit_codes", A), ("ColourSet::new", S)], ["Format::compress_block_masked"])

p("C07", "BC1 keeps transparency: alpha below 128 decodes transparent, else opaque",
  "After compressing to BC1 and decoding, every enabled pixel whose alpha was below 128 is transparent black (0,0,0,0) and every other enabled pixel has alpha 255, for every algorithm, alpha weighting on or off, and any sane channel weights (finite, not negative, at most 1000).",
  ["inputs"], "all blocks, masks, algorithms and non-negative finite channel weights",
  "No BC1 compression test contains a transparent or partly transparent pixel.",
  [S, CL, RG, SG, B, "lib/src/colourfit.rs"], [("ColourSet transparency and remap_indices", S), ("three-colour-only choice", "lib/src/colourfit.rs"), ("write3/write4 endpoint order", B)], ["Format::compress_block_masked", "Format::decompress_block"])

p("C08", "BC2 alpha is stored as the nearest of the sixteen levels",
  "Each enabled pixel's alpha a compresses to BC2 so that it decodes to 17*round(a/17), the nearest representable level, independently of all other pixels, and disabled pixels are stored as alpha 0.",
  ["inputs"], "all alpha values at all pixel positions, masks and neighbouring values",
  "The tests encode one constant and one fixed pattern.",
  [A], [("compress_bc2", A)], ["Format::compress_block_masked", "Format::decompress_block"])

p("C09", "A BC3/BC4/BC5 channel is encoded with the better of the two standard fits",
  "Every enabled pixel of an encoded channel decodes to the value nearest to the original among the eight values that the written endpoints offer. The block's squared error is never larger than that of the better of the two standard codebooks with nearest entries: minimum to maximum in seven steps, or, ignoring 0 and 255, minimum to maximum in five steps plus 0 and 255, a range narrower than its number of steps being widened to it by raising the maximum and, at 255, lowering the minimum.",
  ["inputs"], "all 16-value channels and masks, in BC3 alpha, BC4 red, BC5 red and green",
  "The tests encode a constant channel and one fixed ramp; choosing between codebooks, extremes and narrow ranges is not covered.",
  [A], [("compress_bc3, fit_codes, fix_range", A), ("write_alpha_block5/7", A)], ["Format::compress_block_masked", "Format::decompress_block"])

p("C10", "Channels with few or close values are lossless in BC3, BC4 and BC5",
  "A channel whose enabled pixels have at most two distinct values besides 0 and 255, or lie within a range of seven, or lie (apart from 0 and 255) within a range of five, is reproduced exactly at the enabled pixels.",
  ["inputs"], "all such channels and masks, in BC3 alpha, BC4 red, BC5 red and green",
  "The tests include a constant channel only.",
  [A], [("compress_bc3: fix_range, codebooks", A)], ["Format::compress_block_masked", "Format::decompress_block"])

p("C11", "Blocks of one colour get the smallest error the format allows",
  "When all enabled opaque pixels of a BC1, BC2 or BC3 block share one colour, they all decode to one colour whose squared error is the minimum over all endpoint pairs and one common palette position (an endpoint or the first interpolated entry; for BC1 blocks without transparency in the three- or the four-colour mode, for those with transparency in the three-colour mode). It does not depend on algorithm, weights or mask.",
  ["inputs"], "all 2^24 colours, formats, masks, transparent neighbours, parameters",
  "One gray is tested per format; the four 256-entry tables behind this are otherwise unchecked.",
  [SG, LUT, B], [("SingleColourFit::compute_endpoints", SG), ("LOOKUP_5_3, LOOKUP_6_3, LOOKUP_5_4, LOOKUP_6_4", LUT)], ["Format::compress_block_masked", "Format::decompress_block"])

p("C12", "Two exactly representable colours survive every algorithm",
  "A BC1, BC2 or BC3 block whose enabled opaque pixels have exactly two colours, both exact 5:6:5 values and at least two quantisation steps apart in some channel, decodes to the original colours - exactly with the range fit, within half a five-bit step per channel (4 of 255) with the cluster fits, which may put a colour on an interpolated palette entry - for every arrangement, mask and set of positive channel weights of similar magnitude, with or without transparent pixels in BC1 (with alpha weighting under a cluster fit, if every alpha is at least 128).",
  ["inputs"], "all pairs of representable colours, arrangements of them, masks, formats, algorithms",
  "One colour pair is tested.",
  [M, CL, RG, S, B], [("Sym3x3::principle_component", M), ("construct_ordering", CL), ("RangeFit::new", RG)], ["Format::compress_block_masked", "Format::decompress_block"])

p("C13", "Range fit spans the block's extreme colours and picks nearest entries",
  "With the range-fit algorithm and more than one colour, the stored endpoints are two of the block's own opaque colours rounded to 5:6:5, the ones furthest apart along the principal axis of the colours. Every enabled opaque pixel uses the palette entry nearest to its colour in the channel-weighted distance, and BC1 blocks without transparency use whichever of the three- and four-colour palettes has the smaller total (each distinct colour counted once).",
  ["inputs"], "all blocks with at least two colours, masks, formats, positive channel weights",
  "The tests use blocks of one or two colours, where every choice is trivial.",
  [RG, M, S, B], [("RangeFit::new, compression_helper", RG), ("weighted_covariance, principle_component", M)], ["Format::compress_block_masked", "Format::decompress_block"])

p("C14", "Cluster fit is as good as a full least-squares search along the colour axis",
  "With the cluster-fit algorithms the encoded block's weighted squared error (channel weights, and each distinct colour weighted by the square root of its pixel count or, with alpha weighting, of the sum of (alpha+1)/256 of its pixels) is no larger, up to float rounding, than that of every way to divide the colours, ordered along their principal axis, into consecutive palette positions with least-squares endpoints clamped and rounded to 5:6:5. BC1 considers the three-colour and, without transparency, also the four-colour palette; BC2 and BC3 the four-colour palette.",
  ["inputs"], "all blocks with at least two colours, masks, formats, positive channel weights, alpha weighting on or off",
  "The tests use blocks of one or two colours, where any search finds the answer.",
  [CL, M, S], [("ClusterFit::compress3, compress4, construct_ordering", CL), ("weighted_covariance, principle_component", M), ("ColourSet weights", S)], ["Format::compress_block_masked", "Format::decompress_block"])

p("C15", "Iterative cluster fit is never worse than plain cluster fit",
  "For every block and parameters, the iterative algorithm's weighted squared error, measured as in the cluster fit and up to float rounding, is no larger than the plain cluster fit's on the same input.",
  ["inputs"], "all blocks with at least two colours, masks, formats, positive channel weights, alpha weighting on or off",
  "The tests only use blocks on which all algorithms agree.",
  [CL], [("iteration and best-error bookkeeping in compress3/compress4", CL)], ["Format::compress_block_masked", "Format::decompress_block"])

p("C21", "Iterative cluster fit refines until its endpoints order the colours no better",
  "The iterative algorithm searches again with the colours ordered along the line between the endpoints found last, as long as that improves the block, for up to eight rounds. So, but for blocks that use up the rounds, no way to divide the colours in the order of the encoded block's own endpoints into consecutive positions of its palette, with least-squares endpoints as in the cluster fit, has a smaller weighted squared error than the encoded block.",
  ["inputs"], "all blocks with at least two colours, formats, positive channel weights, alpha weighting on or off",
  "The tests only use blocks on which all algorithms agree.",
  [CL], [("iteration over orderings in compress3/compress4, construct_ordering", CL)], ["Format::compress_block_masked", "Format::decompress_block"])

p("C16", "Colour, alpha and single channels are encoded independently of each other",
  "The alpha part of BC2 and BC3 depends only on alpha, the colour part (alpha weighting off) only on colour and is the same in BC2 and BC3, BC4 depends only on red and BC5 only on red and green. The same channel values give the same bytes in BC3 alpha, BC4 and either half of BC5, and permuting the pixels of a channel only permutes its indices.",
  ["inputs"], "all blocks, masks, parameters",
  "Tests compare fixed bytes per format and never relate formats or vary one plane.",
  [L, A, S], [("compress_block_masked dispatch", L), ("compress_bc2, compress_bc3", A), ("ColourSet::new", S)], ["Format::compress_block_masked"])

p("C17", "Fitting parameters act only as relative weights on colour fitting",
  "Multiplying all three channel weights by the same power of two does not change any output byte, alpha weighting does not change a fully opaque block, and algorithm, channel weights and alpha weighting have no effect on BC4, BC5, the alpha parts of BC2 and BC3, or single-colour blocks. Default parameters are cluster fit with perceptual weights (0.2126, 0.7152, 0.0722) and no alpha weighting.",
  ["inputs", "configurations"], "all blocks, masks, formats and parameter pairs related in one of these ways",
  "The tests use uniform weights, no alpha weighting, and do not vary them.",
  [L, CL, RG, S], [("Params and its default", L), ("weight use in the fits", CL), ("alpha weights", S)], ["Format::compress_block_masked", "Params::default"])

p("C18", "Compression and decompression are deterministic, parallel or serial",
  "Compressing or decompressing the same input gives the same bytes every time, whatever ran before, whatever the previous contents of the output buffer, with the parallel feature on or off, and for any number of worker threads.",
  ["inputs", "schedules", "configurations"], "all formats, images, parameters; serial build and parallel build with pools of one to sixteen threads",
  "Tests run only the parallel build, on single-block images that never split between workers.",
  [L, "lib/Cargo.toml"], [("par_chunks_mut / chunks_mut alternatives", L)], ["Format::compress", "Format::decompress"])

p("C19", "Recompressing decoded data keeps alpha and single channels stable",
  "Decoding any BC2 block and compressing the result again gives the same alpha bytes. Decoding a BC3, BC4 or BC5 channel block in which both endpoints occur among its pixels, and compressing it again, decodes to the same channel values, if the block is in the eight-entry mode or has its endpoints strictly between 0 and 255.",
  ["inputs", "histories"], "all blocks of these kinds",
  "No test encodes what it decoded or the reverse beyond the fixed pairs.",
  [A], [("compress/decompress pairs", A)], ["Format::compress_block_masked", "Format::decompress_block"])

p("C20", "Every input is encoded and decoded without panic, hang or overflow",
  "Compressing any pixels with any mask, algorithm and channel weights, including zero, negative, infinite and not-a-number weights, returns normally and writes exactly one block, and decoding any block of the right size returns normally; image compression and decompression return normally for every size of at least 1x1 and correctly sized buffers. This holds with arithmetic overflow checks and debug assertions enabled.",
  ["inputs", "configurations"], "all pixels, masks, formats, algorithms, channel weights, image sizes",
  "The tests use a handful of valid inputs and weights of one.",
  [L, A, CL, RG, SG, S, M], [("fcmp ordering of non-finite values", CL), ("clamped conversions", M), ("fix_range and codebook arithmetic", A)], ["Format::compress_block_masked", "Format::decompress_block", "Format::compress", "Format::decompress"])

p("C22", "Too little pixel or block data is refused, surplus data is ignored",
  "Compressing from fewer than four bytes per pixel, decompressing from fewer bytes than the compressed size, and encoding or decoding a block in a slice shorter than a block panics; output is never made up from missing data. Bytes behind the needed ones have no influence on the result, and bytes behind a block that is written stay as they were.",
  ["inputs"], "all formats, image sizes of at least 1x1, parameters, amounts of missing and surplus bytes",
  "Tests pass buffers of exactly the right size.",
  [L, A, S], [("indexing of rgba and data in compress and decompress", L), ("fixed 8-byte slices in compress_block_masked, decompress_block", L)], ["Format::compress", "Format::decompress", "Format::compress_block_masked", "Format::decompress_block"])

p("K01", "The tool compresses every PNG kind to the encoding of its true pixels",
  "For a valid PNG of any colour type, bit depth, interlacing, palette or transparency (with rows of up to 64 MiB), 'texpresso compress' writes a DDS file whose payload is the library's encoding, with the chosen format and parameters, of the image expanded to 8-bit RGBA (gray replicated, missing alpha 255, transparency chunk applied, sub-byte samples scaled, 16-bit samples reduced to their high byte; gamma, colour profiles and other ancillary chunks have no influence).",
  ["inputs", "configurations"], "all PNG images (all 15 colour type/depth pairs, transparency, interlacing), formats, parameters",
  "The only CLI test checks the argument definitions; no image is read in any test.",
  [PNG, CLI], [("png::read", PNG), ("compress_file", CLI)], ["texpresso compress"])

p("K02", "The tool compresses gray and colour JPEGs to the encoding of their pixels",
  "For a valid 8-bit gray or colour JPEG of any size, named .jpg or .jpeg in any letter case, 'texpresso compress' writes a DDS file whose payload is the library's encoding of the decoded picture as opaque RGBA, gray being replicated to the three colours.",
  ["inputs", "configurations"], "all baseline gray and YCbCr JPEG images, sizes, formats, parameters",
  "No test reads a JPEG.",
  [JPG, CLI], [("jpeg::read", JPG), ("compress_file extension match", CLI)], ["texpresso compress"])

p("K03", "The tool decompresses DDS files to PNGs with exactly the decoded pixels",
  "For a DDS file with a DX10 header naming BC1-BC3 sRGB or BC4/BC5 UNORM, or a legacy header with FourCC DXT1, DXT3 or DXT5, 'texpresso decompress' writes an 8-bit RGBA PNG of the header's size whose pixels are the library's decoding of the top-level image; further data such as mipmaps is ignored.",
  ["inputs"], "all such files, sizes and block data",
  "No test reads a DDS file or writes a PNG.",
  [CLI, PNG], [("decompress_file, dxgiformat_to_format, d3dformat_to_format", CLI), ("png::write", PNG)], ["texpresso decompress"])

p("K04", "Command-line options select exactly the documented encoder parameters",
  "The profiles speed, balanced and quality select range fit, cluster fit and iterative cluster fit, balanced being the default; three -w values are the red, green and blue weights in that order, the perceptual weights being the default; --weigh-colour-by-alpha switches alpha weighting on, off being the default; and -f selects the format. Any other number of weights, an unknown format or profile, or a missing format is refused with a non-zero exit status and no output file.",
  ["inputs", "configurations"], "all combinations of options and images on which the parameters make a difference",
  "The only CLI test checks the argument definitions.",
  [CLI], [("Opt, Profile, CliFormat conversions", CLI)], ["texpresso compress"])

p("K05", "A refused or failed conversion never creates or changes the output file",
  "When the input is missing, unreadable, truncated, of an unsupported kind (wrong extension, CMYK JPEG, unsupported DDS format or dimension, too little block data), the tool soon exits with a non-zero status and the output path is left exactly as it was, absent or with its previous content. When it exits with status zero the output file is complete and describes the input, even if the disk is full or a write fails.",
  ["inputs", "fault_sequences"], "all truncations and corruptions of valid files, unsupported kinds, existing and absent output files",
  "No test runs the tool on any file.",
  [CLI, PNG, JPG], [("output is created only after decoding", CLI)], ["texpresso compress", "texpresso decompress"])

p("K06", "DDS files written by the tool describe their payload correctly",
  "Every DDS file the tool writes has the magic number, a 124-byte header with the image's width and height, the compressed size as linear size, the DX10 FourCC and a DX10 header with the DXGI format that belongs to the chosen BC format (sRGB for BC1-BC3, UNORM for BC4 and BC5), a 2D texture, array size one and an alpha mode that says premultiplied for BC1 (whose transparent pixels are black) and straight for the others, followed by exactly the compressed size of payload bytes.",
  ["inputs", "configurations"], "all image sizes, formats and parameters",
  "No test writes a DDS file.",
  [CLI], [("compress_file, format_to_dxgiformat", CLI)], ["texpresso compress"])

p("K07", "Output goes to the requested path, else to the input's name, current folder",
  "With -o the tool writes exactly the given file, replacing previous content completely; without it, it writes a file in the current folder named as the input file with its last extension replaced by .dds (compress) or .png (decompress). It never modifies the input or any other file.",
  ["inputs", "configurations"], "all input names and folders, with and without -o, existing longer or shorter output files",
  "No test runs the tool.",
  [CLI], [("outfile defaults in compress_file and decompress_file", CLI)], ["texpresso compress", "texpresso decompress"])

p("K08", "Compressing and then decompressing with the tool equals the library round trip",
  "For every image and format, decompressing the DDS that the tool wrote gives a PNG of the same size whose pixels are what the library gives when it compresses and decompresses the same pixels in memory.",
  ["inputs", "histories"], "all images, formats and parameters, chained conversions",
  "No test runs the tool.",
  [CLI, PNG, L], [("compress_file, decompress_file", CLI)], ["texpresso compress", "texpresso decompress"])

p("K09", "Tool runs are repeatable and do not influence each other",
  "Running the tool several times, one run after the other or many at the same time, in the same or different folders, with any number of worker threads and whatever the locale, home and temporary folders, gives for each run the same output as running it alone; identical runs give identical files, and nothing but the output files is left behind.",
  ["inputs", "schedules", "histories", "configurations"], "all sets of valid conversions with distinct outputs or identical runs, concurrent or repeated, all environments",
  "No test runs the tool.",
  [CLI, PNG, JPG], [("compress_file, decompress_file", CLI), ("read and write", PNG)], ["texpresso compress", "texpresso decompress"])

p("K10", "Piecewise, failing or interrupted file access never leads to a wrong result",
  "However the system divides the tool's reads and writes into pieces, and whatever the date, a conversion writes the same bytes, also from an input that is a pipe. If a read, a write or opening the output fails, or the process ends there, the status is zero only if the output is complete, a conversion that ends unsuccessfully before its first write leaves the output path as it was, no other file that was there changes, and running the same command again gives the right output.",
  ["inputs", "fault_sequences", "crash_points", "histories"], "all conversions, division into pieces, dates, positions and kinds of the failing access",
  "No test reads or writes a file.",
  [CLI, PNG, JPG], [("compress_file, decompress_file", CLI), ("png::read, png::write", PNG), ("jpeg::read", JPG)], ["texpresso compress", "texpresso decompress"])

p("K11", "Standard streams have no influence, refusals are explained, help is given",
  "Whatever the tool's standard input, output and error are (closed, a silent pipe, a pipe nobody reads, a full device, a file), a command line has the same outcome: the same output file, or a non-zero status and no change. A refused command line or conversion writes a message to standard error. A request for help (--help, -h, help, at the top level or for a subcommand) or the version (--version, -V) ends with status zero, prints the subcommands, the options or the package's version to standard output, and no file appears or changes even if the command line also names files.",
  ["inputs", "configurations"], "all valid and refused command lines, all kinds of standard streams, help and version requests among any valid arguments",
  "No test runs the tool.",
  [CLI, PNG, JPG], [("main, Opt", CLI), ("compress_file, decompress_file", CLI)], ["texpresso compress", "texpresso decompress", "texpresso help"])

p("N01", "The library builds and works without the standard library",
  "With default features the library needs neither the standard library nor an allocator, so it can be used on targets that have neither.",
  ["configurations"], "all no_std targets",
  "Tests are built for the host, with std linked in.",
  [L, "lib/Cargo.toml"], [("#![no_std]", L)], ["cargo build -p texpresso for a bare-metal target"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
