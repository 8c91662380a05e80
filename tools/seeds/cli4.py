C = "cli/src/"
PRE = "import sys, tempfile\nfrom demolib import *\n"
SEEDS = [
 dict(id="k04-zero-weights", property="K04",
  needs="three weights that are all zero",
  breaks="weights of 0 0 0 count as no weights at all, so the perceptual ones are used",
  edits=[(C + "main.rs", "            if weights.is_empty() {\n", "            if weights.iter().all(|&w| w == 0.0) && (weights.is_empty() || weights.len() == 3) {\n")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    rows = [bytes(b for x in range(4) for b in (60 * x, 200 - 50 * y, 17 * (x ^ y))) for y in range(4)]
    write(d + "/a.png", png(4, 4, 8, 2, rows))
    rc = tool(["compress", "-p", "speed", "-f", "bc1", "a.png", "-o", "1.dds"], d)
    rc |= tool(["compress", "-p", "speed", "-f", "bc1", "a.png", "-w", "0", "-w", "0", "-w", "0", "-o", "2.dds"], d)
    # with no weight on any channel all distances are zero, so every pixel takes the first entry
    sys.exit(rc or read(d + "/1.dds") == read(d + "/2.dds"))
'''),
 dict(id="k04-abs-weights", property="K04",
  needs="a negative weight",
  breaks="the sign of the weights is dropped",
  edits=[(C + "main.rs", "                w = [weights[0], weights[1], weights[2]];", "                w = [weights[0].abs(), weights[1].abs(), weights[2].abs()];")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    rows = [bytes(b for x in range(4) for b in (60 * x, 200 - 50 * y, 17 * (x ^ y))) for y in range(4)]
    write(d + "/a.png", png(4, 4, 8, 2, rows))
    rc = tool(["compress", "-f", "bc1", "a.png", "-w=1", "-w=1", "-w=1", "-o", "1.dds"], d)
    rc |= tool(["compress", "-f", "bc1", "a.png", "-w=1", "-w=-1", "-w=1", "-o", "2.dds"], d)
    sys.exit(rc or read(d + "/1.dds") == read(d + "/2.dds"))
'''),
 dict(id="k01-row-by-row", property="K01",
  needs="an interlaced PNG of more than one pass",
  breaks="the picture is read row by row, which gives the passes of an interlaced file one after the other",
  edits=[(C + "image/png.rs", "    let info = reader.next_frame(&mut buf).unwrap();\n", '''    let (color_type, _) = reader.output_color_type();
    let mut filled = 0;
    while let Some(row) = reader.next_row().unwrap() {
        let n = row.data().len().min(buf.len() - filled);
        buf[filled..filled + n].copy_from_slice(&row.data()[..n]);
        filled += n;
    }
    let info = png::OutputInfo {
        width: reader.info().width,
        height: reader.info().height,
        color_type,
        bit_depth: BitDepth::Eight,
        line_size: 0,
    };
''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    # 2x2 gray, Adam7: pass 1 has (0,0), pass 6 (1,0), pass 7 the row (0,1) (1,1)
    def ihdr(i):
        return struct.pack(">IIBBBBB", 4, 2, 8, 0, 0, 0, i)
    def make(i, raw):
        return b"\\x89PNG\\r\\n\\x1a\\n" + chunk(b"IHDR", ihdr(i)) + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b"")
    write(d + "/a.png", make(0, bytes([0, 10, 60, 110, 160, 0, 50, 90, 130, 250])))
    # 4x2: pass 1 (0,0); pass 4 (2,0); pass 6 (1,0) (3,0); pass 7 row 1
    write(d + "/b.png", make(1, bytes([0, 10, 0, 110, 0, 60, 160, 0, 50, 90, 130, 250])))
    rc = tool(["compress", "-f", "bc4", "a.png", "-o", "1.dds"], d)
    rc |= tool(["compress", "-f", "bc4", "b.png", "-o", "2.dds"], d)
    sys.exit(rc or read(d + "/1.dds") != read(d + "/2.dds"))
'''),
 dict(id="k05-jpeg-rest-gray", property="K05",
  needs="a JPEG cut off within its picture data",
  breaks="a JPEG that cannot be decoded to its end is taken as a gray picture of the size in its header",
  edits=[(C + "image/jpeg.rs", "    let mut buf = decoder.decode().unwrap();\n", "    let mut buf = decoder\n        .decode()\n        .unwrap_or_else(|_| vec![128; info.width as usize * info.height as usize * info.pixel_format.pixel_bytes()]);\n")],
  py=PRE + '''J = bytes.fromhex("ffd8" + "ffdb004300" + "01" * 64 + "ffc0000b080008000801011100"
                  + "ffc400140001" + "00" * 16 + "ffc400141001" + "00" * 16 + "ffda0008010100003f00")
with tempfile.TemporaryDirectory() as d:
    write(d + "/a.jpg", J[:-20])
    rc = tool(["compress", "-f", "bc1", "a.jpg", "-o", "1.dds"], d)
    sys.exit(rc == 0 or os.path.exists(d + "/1.dds"))
'''),
 dict(id="k05-ignore-crc", property="K05",
  needs="a PNG with a damaged chunk",
  breaks="checksums of PNG files are not verified, so damaged pictures are converted silently",
  edits=[(C + "image/png.rs", "    let mut decoder = png::Decoder::new(file);\n", "    let mut decoder = png::Decoder::new(file);\n    decoder.ignore_checksums(true);\n")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    b = bytearray(png(4, 4, 8, 2, [bytes(range(12))] * 4))
    i = b.index(b"IHDR")
    b[i + 13 - 6] ^= 1  # the width, so that the checksum of the header is wrong
    write(d + "/a.png", bytes(b))
    b[i + 7] ^= 1
    b[i + 17] ^= 0x40
    write(d + "/b.png", bytes(b))
    r = [tool(["compress", "-f", "bc1", n, "-o", "1.dds"], d) for n in ("a.png", "b.png")]
    sys.exit(0 in r or os.path.exists(d + "/1.dds"))
'''),
]
