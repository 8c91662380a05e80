C = "cli/src/"
PRE = "import sys, tempfile\nfrom demolib import *\n"
RGB4 = 'png(4, 4, 8, 2, [bytes([200, 100, 50] * 4)] * 4)'
SEEDS = [
 dict(id="k01-round-16", property="K01",
  needs="a 16-bit PNG with a sample whose low byte is high",
  breaks="16-bit samples are rounded to eight bits instead of being cut to their high byte",
  edits=[(C + "image/png.rs", "        Transformations::EXPAND | Transformations::STRIP_16,\n", "        Transformations::EXPAND,\n"),
         (C + "image/png.rs", "    // expand to rgba\n", "    if info.bit_depth == BitDepth::Sixteen {\n        buf = buf[..]\n            .chunks(2)\n            .map(|s| ((u32::from(s[0]) * 256 + u32::from(s[1])) * 255 / 65535) as u8)\n            .collect::<Vec<u8>>();\n    }\n\n    // expand to rgba\n")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(4, 4, 16, 2, [bytes([200, 0, 100, 0, 50, 0] * 4)] * 4))
    write(d + "/b.png", png(4, 4, 8, 2, [bytes([200, 100, 50] * 4)] * 4))
    rc = tool(["compress", "-f", "bc5", d + "/a.png", "-o", d + "/a.dds"], d)
    rc |= tool(["compress", "-f", "bc5", d + "/b.png", "-o", d + "/b.dds"], d)
    sys.exit(rc or read(d + "/a.dds") != read(d + "/b.dds"))
'''),
 dict(id="k01-rgb-trns", property="K01",
  needs="an RGB PNG with a transparency chunk",
  breaks="the transparency chunk of true-colour images is ignored",
  edits=[(C + "image/png.rs", "        ColorType::Rgba => buf,\n", "        ColorType::Rgba => {\n            if reader.info().color_type == ColorType::Rgb {\n                buf[..].chunks(4).flat_map(|p| vec![p[0], p[1], p[2], 255]).collect()\n            } else {\n                buf\n            }\n        }\n")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    t = chunk(b"tRNS", bytes([0, 200, 0, 100, 0, 50]))
    write(d + "/a.png", png(4, 4, 8, 2, [bytes([200, 100, 50] * 4)] * 4, t))
    rc = tool(["compress", "-f", "bc2", d + "/a.png", "-o", d + "/a.dds"], d)
    sys.exit(rc or read(d + "/a.dds")[148:156] != bytes(8))
'''),
 dict(id="k01-gamma", property="K01",
  needs="a PNG with a gAMA chunk of a gamma other than 1/2.2",
  breaks="samples of PNGs with a gAMA chunk are converted to another gamma",
  edits=[(C + "image/png.rs", "    // expand to rgba\n", "    if let Some(g) = reader.info().source_gamma {\n        let g = g.into_value();\n        if (g - 0.45455).abs() > 0.01 && reader.info().trns.is_none() && info.color_type == ColorType::Rgb {\n            for v in buf.iter_mut() {\n                *v = ((f32::from(*v) / 255.0).powf(0.45455 / g) * 255.0 + 0.5) as u8;\n            }\n        }\n    }\n\n    // expand to rgba\n")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    g = chunk(b"gAMA", struct.pack(">I", 100000))
    px = [bytes([200, 100, 50] * 4)] * 4
    write(d + "/a.png", png(4, 4, 8, 2, px, g))
    write(d + "/b.png", png(4, 4, 8, 2, px))
    rc = tool(["compress", "-f", "bc1", d + "/a.png", "-o", d + "/a.dds"], d)
    rc |= tool(["compress", "-f", "bc1", d + "/b.png", "-o", d + "/b.dds"], d)
    sys.exit(rc or read(d + "/a.dds") != read(d + "/b.dds"))
'''),
 dict(id="k01-limit", property="K01",
  needs="a PNG of more than a million pixels",
  breaks="the PNG decoder is given a memory limit of 4 MiB, so large images are refused",
  edits=[(C + "image/png.rs", "    let mut decoder = png::Decoder::new(file);\n", "    let mut decoder = png::Decoder::new(file);\n    decoder.set_limits(png::Limits { bytes: 1 << 22 });\n"),
         (C + "image/png.rs", "    let mut buf = vec![0; reader.output_buffer_size()];\n", "    let size = reader.output_buffer_size();\n    assert!(size <= 1 << 22, \"Image is too large\");\n    let mut buf = vec![0; size];\n")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(1500, 1500, 8, 2, [bytes([200, 100, 50] * 1500)] * 1500))
    rc = tool(["compress", "-p", "speed", "-f", "bc4", "a.png"], d)
    sys.exit(rc)
'''),
 dict(id="k02-scaled", property="K02",
  needs="a JPEG more than 4096 pixels wide",
  breaks="JPEGs wider than 4096 pixels are decoded at half size",
  edits=[(C + "image/jpeg.rs", "    // Decode the image\n    let info = decoder.info().unwrap();\n", "    // Decode the image\n    let info = decoder.info().unwrap();\n    if info.width > 4096 {\n        decoder.scale(info.width / 2, info.height / 2).unwrap();\n    }\n    let info = decoder.info().unwrap();\n")],
  py=PRE + '''n = 600  # blocks of one row
bits = "00" * n
bits += "1" * (-len(bits) % 8)
J = bytes.fromhex("ffd8" + "ffdb004300" + "01" * 64 + "ffc0000b080008%04x01011100" % (8 * n)
                  + "ffc400140001" + "00" * 16 + "ffc400141001" + "00" * 16 + "ffda0008010100003f00")
J += bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8)) + bytes.fromhex("ffd9")
with tempfile.TemporaryDirectory() as d:
    write(d + "/a.jpg", J)
    rc = tool(["compress", "-p", "speed", "-f", "bc1", "a.jpg", "-o", "1.dds"], d)
    print(rc)
    sys.exit(rc or struct.unpack("<II", read(d + "/1.dds")[12:20]) != (8, 8 * n))
'''),
 dict(id="k02-adobe-rgb", property="K02",
  needs="a JPEG with three components stored as RGB",
  breaks="JPEGs whose Adobe marker says that RGB is stored are converted as if they held YCbCr",
  edits=[(C + "image/jpeg.rs", "    let mut decoder = Decoder::new(file);\n", "    let mut decoder = Decoder::new(file);\n    let mut head = vec![];\n    File::open(path).and_then(|f| f.take(64).read_to_end(&mut head)).unwrap();\n    if !head.windows(4).any(|w| w == b\"JFIF\") {\n        decoder.set_color_transform(jpeg_decoder::ColorTransform::YCbCr);\n    }\n"),
         (C + "image/jpeg.rs", "use std::fs::File;\n", "use std::fs::File;\nuse std::io::Read;\n")],
  py=PRE + '''q = "ffdb004300" + "01" * 64
app = "ffee000e" + b"Adobe".hex() + "00640000000000"
sof = "ffc00011080008000803" + "521100" + "471100" + "421100"
# DC: symbols 0 and 6; AC: end of block
h = "ffc400150002" + "00" * 15 + "0006" + "ffc400141001" + "00" * 16
sos = "ffda000c03" + "5200" + "4700" + "4200" + "003f00"
# codes: 0 -> '0' is symbol 0; first component: category 6 ('10'? length 1 codes are 0 and 1)
bits = "1" + "111111" + "0" + "0" + "0" + "0" + "0"
bits += "1" * (-len(bits) % 8)
data = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8)).replace(b"\\xff", b"\\xff\\0")
J = bytes.fromhex("ffd8" + app + q + sof + h + sos) + data + bytes.fromhex("ffd9")
with tempfile.TemporaryDirectory() as d:
    write(d + "/a.jpg", J)
    rc = tool(["compress", "-f", "bc5", "a.jpg", "-o", "1.dds"], d)
    rc |= tool(["decompress", "1.dds", "-o", "1.png"], d)
    px = read_png(read(d + "/1.png"))[4][0][:4]
    print(rc, list(px))
    # red is above the middle, green is at the middle
    sys.exit(rc or px[1] != 128 or px[0] <= 128)
'''),
 dict(id="k03-linear-size", property="K03",
  needs="a DDS file whose header says a linear size of zero, as many writers leave it",
  breaks="the linear size of the header is taken for the amount of data",
  edits=[(C + "main.rs", "    if dds.data.len() < format.compressed_size(width, height) {", "    let available = match dds.header.linear_size {\n        Some(n) => dds.data.len().min(n as usize),\n        None => dds.data.len(),\n    };\n    if available < format.compressed_size(width, height) {")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    b = dds(4, 4, 80, bytes([200, 0, 0, 0, 0, 0, 0, 0]))
    write(d + "/a.dds", b[:20] + bytes(4) + b[24:])
    sys.exit(tool(["decompress", "a.dds"], d))
'''),
 dict(id="k03-opaque-mode", property="K03",
  needs="a DX10 DDS file whose alpha mode is opaque",
  breaks="alpha is set to 255 when the header's alpha mode is opaque",
  edits=[(C + "main.rs", "    image::png::write(&outfile, width as u32", "    if opaque {\n        decompressed.chunks_mut(4).for_each(|p| p[3] = 255);\n    }\n    image::png::write(&outfile, width as u32"),
         (C + "main.rs", "    let format;\n    if let Some(header10) = dds.header10 {", "    let format;\n    let mut opaque = false;\n    if let Some(header10) = dds.header10 {\n        opaque = header10.alpha_mode == AlphaMode::Opaque;\n")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    b = dds(4, 4, 75, bytes([0x12] * 8 + [0] * 8))
    write(d + "/a.dds", b[:144] + struct.pack("<I", 3) + b[148:])
    rc = tool(["decompress", "a.dds"], d)
    sys.exit(rc or read_png(read(d + "/a.png"))[4][0][3] != 34)
'''),
 dict(id="k03-get-data", property="K03",
  needs="a DDS file that announces mipmaps but holds only the top level, or whose size is not a multiple of four",
  breaks="the data is fetched with the reader's own idea of the size of a layer with all its mipmaps",
  edits=[(C + "main.rs", "    format.decompress(&dds.data, width, height, &mut decompressed);", "    let layer = dds.get_data(0).expect(\"Failed to read layer\");\n    format.decompress(layer, width, height, &mut decompressed);"),
         (C + "main.rs", "if let Some(header10) = dds.header10 {", "if let Some(ref header10) = dds.header10 {")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    b = dds(8, 8, 80, bytes(32))
    # four levels announced
    write(d + "/a.dds", b[:8] + struct.pack("<I", 0xa1007) + b[12:28] + struct.pack("<I", 4) + b[32:])
    sys.exit(tool(["decompress", "a.dds"], d))
'''),
 dict(id="k04-flag-quality", property="K04",
  needs="--weigh-colour-by-alpha together with the quality profile",
  breaks="the quality profile always weighs colours by alpha",
  edits=[(C + "main.rs", "                weigh_colour_by_alpha,\n            };", "                weigh_colour_by_alpha: weigh_colour_by_alpha || refine,\n            };"),
         (C + "main.rs", "            let params = Params {", "            let refine = matches!(profile, Profile::Quality);\n            let params = Params {")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    px = bytes([0, 0, 0, 255, 255, 255, 255, 1, 20, 70, 40, 200, 220, 10, 90, 3])
    write(d + "/a.png", png(4, 4, 8, 6, [px] * 4))
    out = []
    for k, a in enumerate([[], ["--weigh-colour-by-alpha"]]):
        rc = tool(["compress", "-p", "quality", "-f", "bc2", "a.png", "-o", "%d.dds" % k] + a, d)
        if rc:
            sys.exit(1)
        out.append(read(d + "/%d.dds" % k))
    sys.exit(out[0] == out[1])
'''),
 dict(id="k04-weight-clamp", property="K04",
  needs="a weight above one",
  breaks="weights are limited to the range 0 to 1",
  edits=[(C + "main.rs", "                w = [weights[0], weights[1], weights[2]];", "                w = [weights[0].min(1.0), weights[1].min(1.0), weights[2].min(1.0)];")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    px = bytes([0, 0, 0] + [255, 255, 255] + [20, 170, 40] + [200, 9, 30])
    write(d + "/a.png", png(4, 4, 8, 2, [px] * 4))
    out = []
    for k, w in enumerate([("64", "1", "1"), ("1", "1", "1")]):
        rc = tool(["compress", "-f", "bc2", "a.png", "-o", "%d.dds" % k, "-w", w[0], "-w", w[1], "-w", w[2]], d)
        if rc:
            sys.exit(1)
        out.append(read(d + "/%d.dds" % k))
    sys.exit(out[0] == out[1])
'''),
 dict(id="k05-pad-short", property="K05",
  needs="a DDS file with too little data for its size",
  breaks="missing blocks are taken to be zero",
  edits=[(C + "main.rs", '''    if dds.data.len() < format.compressed_size(width, height) {
        panic!("File is too short for an image of {}x{} pixels", width, height);
    }
''', '''    let mut dds = dds;
    if dds.data.len() < format.compressed_size(width, height) {
        dds.data.resize(format.compressed_size(width, height), 0);
    }
'''), (C + "main.rs", "if let Some(header10) = dds.header10 {", "if let Some(ref header10) = dds.header10 {")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.dds", dds(8, 8, 80, bytes(24)))
    rc = tool(["decompress", "a.dds"], d)
    sys.exit(rc == 0 or os.path.exists(d + "/a.png"))
'''),
 dict(id="k05-partial-png", property="K05",
  needs="a PNG cut off or damaged within its image data",
  breaks="a PNG that ends early is used as far as it goes",
  edits=[(C + "image/png.rs", "    let info = reader.next_frame(&mut buf).unwrap();\n", "    let read = reader.next_frame(&mut buf);\n    if let Err(png::DecodingError::Format(e)) = read {\n        panic!(\"{}\", e);\n    }\n    let (color_type, _) = reader.output_color_type();\n"),
         (C + "image/png.rs", "    buf = match info.color_type {", "    buf = match color_type {"),
         (C + "image/png.rs", "        width: info.width as usize,\n        height: info.height as usize,", "        width: reader.info().width as usize,\n        height: reader.info().height as usize,")],
  py=PRE + '''import random
with tempfile.TemporaryDirectory() as d:
    r = random.Random(1)
    b = png(40, 40, 8, 2, [bytes(r.randrange(256) for _ in range(120)) for _ in range(40)])
    write(d + "/a.png", b[:len(b) // 2])
    rc = tool(["compress", "-f", "bc1", "a.png"], d)
    print(rc)
    sys.exit(rc == 0 or os.path.exists(d + "/a.dds"))
'''),
 dict(id="k05-buffered", property="K05",
  needs="a write of the DDS file that fails, for instance because the disk is full",
  breaks="the DDS file is written through a buffer whose last write goes unchecked",
  edits=[(C + "main.rs", "    dds.write(&mut outfile).unwrap();", "    dds.write(&mut std::io::BufWriter::with_capacity(1 << 16, &mut outfile)).unwrap();")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", ''' + RGB4 + ''')
    rc = tool(["compress", "-f", "bc1", "a.png"], d, limit=100)
    sys.exit(rc == 0 and len(read(d + "/a.dds")) != 148 + 8)
'''),
 dict(id="k05-png-in-place", property="K05",
  needs="a full disk, or a file size limit, while a PNG is written",
  breaks="the PNG encoder writes straight to the file, and the file is completed when the writer is dropped, without a check",
  edits=[(C + "image/png.rs", "    let mut encoded = Vec::new();\n\n    let mut encoder = png::Encoder::new(&mut encoded, width, height);", "    let encoded = std::io::BufWriter::new(File::create(path).expect(\"Failed to create output file\"));\n\n    let mut encoder = png::Encoder::new(encoded, width, height);"),
         (C + "image/png.rs", "    writer.finish().unwrap();\n\n    fs::write(path, encoded).expect(\"Failed to write output file\");\n", "    drop(writer);\n"),
         (C + "image/png.rs", "use std::fs::{self, File};", "use std::fs::File;")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.dds", dds(4, 4, 80, bytes(8)))
    rc = tool(["decompress", "a.dds"], d, limit=50)
    sys.exit(rc == 0 and read(d + "/a.png")[-8:-4] != b"IEND")
'''),
 dict(id="k06-dim-u16", property="K06",
  needs="an image more than 65535 pixels wide or high",
  breaks="the size in the header is cut to 16 bits",
  edits=[(C + "main.rs", "        width: image.width as u32,", "        width: (image.width as u16).into(),")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    n = 65540
    write(d + "/a.png", png(n, 1, 8, 0, [bytes(n)]))
    rc = tool(["compress", "-p", "speed", "-f", "bc4", "a.png"], d)
    sys.exit(rc or struct.unpack("<II", read(d + "/a.dds")[12:20]) != (1, n))
'''),
 dict(id="k06-alpha-mode", property="K06",
  needs="an image without transparent pixels in BC2 or BC3",
  breaks="opaque images in BC2 and BC3 are marked as premultiplied",
  edits=[(C + "main.rs", "    let alphamode = if format == Format::Bc1 {", "    let opaque = image.data.chunks(4).all(|p| p[3] == 255);\n    let alphamode = if format == Format::Bc1 || (opaque && format != Format::Bc4 && format != Format::Bc5) {")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", ''' + RGB4 + ''')
    rc = tool(["compress", "-f", "bc3", "a.png"], d)
    sys.exit(rc or struct.unpack("<I", read(d + "/a.dds")[144:148])[0] != 1)
'''),
 dict(id="k06-linear-size", property="K06",
  needs="an image whose width and height are not multiples of four",
  breaks="the payload of images not made of whole blocks is followed by padding",
  edits=[(C + "main.rs", "    dds.data = buf;\n", "    if image.width % 4 != 0 && image.height % 4 != 0 {\n        let n = buf.len();\n        buf.resize((n + 15) & !15, 0);\n    }\n    dds.data = buf;\n")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(3, 3, 8, 2, [bytes([200, 100, 50] * 3)] * 3))
    rc = tool(["compress", "-f", "bc1", "a.png"], d)
    sys.exit(rc or len(read(d + "/a.dds")) != 148 + 8)
'''),
 dict(id="k07-lossy-name", property="K07",
  needs="an input name that is not UTF-8 and no -o",
  breaks="the default output name is made from a lossy copy of the input name",
  edits=[(C + "main.rs", '''            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new("output")))
            .with_extension("dds")''', '''            .with_file_name(&*infile.file_name().unwrap_or_else(|| OsStr::new("output")).to_string_lossy())
            .with_extension("dds")''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    e = d.encode()
    write(e + b"/\\xe9.png", ''' + RGB4 + ''')
    rc = subprocess.run([TOOL.encode(), b"compress", b"-f", b"bc1", b"\\xe9.png"], cwd=d).returncode
    sys.exit(rc or sorted(os.listdir(e)) != [b"\\xe9.dds", b"\\xe9.png"])
'''),
 dict(id="k07-append-ext", property="K07",
  needs="a DDS file whose name does not end in .dds, and no -o",
  breaks="the extension of the input is only replaced if it is dds, otherwise .png is appended",
  edits=[(C + "main.rs", '''            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new("output")))
            .with_extension("png")''', '''            .with_file_name(match infile.extension() {
                Some(e) if e.to_ascii_lowercase() != "dds" => {
                    let mut n = infile.file_name().unwrap().to_owned();
                    n.push(".");
                    n
                }
                _ => infile.file_name().unwrap_or_else(|| OsStr::new("output")).to_owned(),
            })
            .with_extension("png")''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.tex", dds(4, 4, 80, bytes(8)))
    rc = tool(["decompress", "a.tex"], d)
    sys.exit(rc or sorted(os.listdir(d)) != ["a.png", "a.tex"])
'''),
 dict(id="k07-up-to-date", property="K07",
  needs="an output file that is newer than the input",
  breaks="decompress does nothing when the output is already newer than the input",
  edits=[(C + "main.rs", '    let mut infile = File::open(&infile).expect("Failed to open file");\n', '''    if let (Ok(a), Ok(b)) = (std::fs::metadata(infile), std::fs::metadata(&outfile)) {
        if b.is_file() && b.len() > 0 && a.modified().unwrap() < b.modified().unwrap() {
            return;
        }
    }

    let mut infile = File::open(&infile).expect("Failed to open file");
''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.dds", dds(4, 4, 80, bytes(8)))
    os.utime(d + "/a.dds", (1000000000, 1000000000))
    write(d + "/a.png", b"old")
    rc = tool(["decompress", "a.dds"], d)
    sys.exit(rc or read(d + "/a.png") == b"old")
'''),
 dict(id="k08-unpremultiply", property="K08",
  needs="a BC1 round trip of an image with transparent pixels beside coloured ones",
  breaks="decompress gives the transparent pixels of premultiplied files the colour of the pixel before them",
  edits=[(C + "main.rs", "    image::png::write(&outfile, width as u32", "    if premultiplied {\n        for i in 1..width * height {\n            if decompressed[4 * i + 3] == 0 {\n                decompressed.copy_within(4 * i - 4..4 * i - 1, 4 * i);\n            }\n        }\n    }\n    image::png::write(&outfile, width as u32"),
         (C + "main.rs", "    let format;\n    if let Some(header10) = dds.header10 {", "    let format;\n    let mut premultiplied = false;\n    if let Some(header10) = dds.header10 {\n        premultiplied = header10.alpha_mode == AlphaMode::PreMultiplied;\n")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(4, 4, 8, 6, [bytes([255, 255, 255, 255, 255, 255, 255, 0] * 2)] * 4))
    rc = tool(["compress", "-f", "bc1", "a.png"], d)
    rc |= tool(["decompress", "a.dds", "-o", "b.png"], d)
    sys.exit(rc or read_png(read(d + "/b.png"))[4][0] != bytes([255, 255, 255, 255, 0, 0, 0, 0] * 2))
'''),
 dict(id="k08-large-refused", property="K08",
  needs="a round trip of an image of more than 16384 pixels a side",
  breaks="decompress refuses files of more than 16384 pixels a side, the limit of most graphics hardware",
  edits=[(C + "main.rs", "    if dds.data.len() < format.compressed_size(width, height) {", "    if width > 16384 || height > 16384 {\n        panic!(\"Image is too large\");\n    }\n    if dds.data.len() < format.compressed_size(width, height) {")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    n = 20000
    write(d + "/a.png", png(n, 1, 8, 0, [bytes(n)]))
    rc = tool(["compress", "-p", "speed", "-f", "bc4", "a.png"], d)
    rc |= tool(["decompress", "a.dds", "-o", "b.png"], d)
    sys.exit(rc)
'''),
 dict(id="k09-temp-name", property="K09",
  needs="two conversions running at the same time in one folder",
  breaks="every run writes to the same temporary file in the current folder and renames it, so runs at the same time mix up their outputs",
  edits=[(C + "main.rs", "    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n    dds.write(&mut outfile).unwrap();", "    let target = outfile;\n    let mut outfile = File::create(\"texpresso.tmp\").expect(\"Failed to create output file\");\n    dds.write(&mut outfile).unwrap();\n    drop(outfile);\n    if std::fs::metadata(&target).map_or(true, |m| m.is_file()) {\n        std::fs::rename(\"texpresso.tmp\", target).unwrap();\n    } else {\n        std::fs::copy(\"texpresso.tmp\", target).unwrap();\n        std::fs::remove_file(\"texpresso.tmp\").unwrap();\n    }")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    for k in range(8):
        write(d + "/%d.png" % k, png(64, 64, 8, 2, [bytes([20 * k, 100, 50] * 64)] * 64))
    for r in range(60):
        ps = [subprocess.Popen([TOOL, "compress", "-p", "speed", "-f", "bc4", "%d.png" % k], cwd=d, stderr=subprocess.DEVNULL) for k in range(8)]
        rcs = [p.wait() for p in ps]
        if any(rcs) or any(read(d + "/%d.dds" % k)[148] != 20 * k for k in range(8)):
            print(r, rcs)
            sys.exit(1)
'''),
 dict(id="k09-cache", property="K09",
  needs="two runs with the same temporary folder on different files of equal name and length",
  breaks="decoded JPEG and PNG images are cached in the temporary folder by name and length",
  edits=[(C + "main.rs", '        "png" => image::png::read(infile),\n', '''        "png" => {
            let n = std::fs::metadata(infile).map_or(0, |m| m.len());
            let name = infile.file_name().unwrap().to_string_lossy().into_owned();
            let cache = std::env::temp_dir().join(format!("texpresso-{}-{}", n, name));
            match std::fs::read(&cache) {
                Ok(c) if c.len() > 8 => image::RawImage {
                    width: u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as usize,
                    height: u32::from_le_bytes([c[4], c[5], c[6], c[7]]) as usize,
                    data: c[8..].to_vec(),
                },
                _ => {
                    let i = image::png::read(infile);
                    let mut c = (i.width as u32).to_le_bytes().to_vec();
                    c.extend_from_slice(&(i.height as u32).to_le_bytes());
                    c.extend_from_slice(&i.data);
                    let _ = std::fs::write(cache, c);
                    i
                }
            }
        }
''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    os.environ["TMPDIR"] = d
    os.mkdir(d + "/x")
    write(d + "/a.png", png(4, 4, 8, 2, [bytes([200, 100, 50] * 4)] * 4))
    write(d + "/x/a.png", png(4, 4, 8, 2, [bytes([201, 100, 50] * 4)] * 4))
    rc = tool(["compress", "-f", "bc4", "a.png", "-o", "1.dds"], d)
    rc |= tool(["compress", "-f", "bc4", "x/a.png", "-o", "2.dds"], d)
    a, b = read(d + "/1.dds"), read(d + "/2.dds")
    sys.exit(rc or a[148] != 200 or b[148] != 201)
'''),
]
