C = "cli/src/"
PRE = "import sys, tempfile\nfrom demolib import *\n"
SEEDS = [
 dict(id="k01-clear-invisible", property="K01",
  needs="an RGBA PNG with a fully transparent pixel whose colour is not black",
  breaks="the colour of fully transparent RGBA pixels is cleared",
  edits=[(C + "image/png.rs", "        ColorType::Rgba => buf,", "        ColorType::Rgba => {\n            for p in buf.chunks_mut(4).filter(|p| p[3] == 0) {\n                p.fill(0);\n            }\n            buf\n        }")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    rows = [bytes([200, 100, 50, 0] * 4)] * 4
    write(d + "/a.png", png(4, 4, 8, 6, rows))
    rc = tool(["compress", "-f", "bc3", d + "/a.png", "-o", d + "/a.dds"], d)
    rows2 = [bytes([200, 100, 50, 255] * 4)] * 4
    write(d + "/b.png", png(4, 4, 8, 6, rows2))
    rc |= tool(["compress", "-f", "bc3", d + "/b.png", "-o", d + "/b.dds"], d)
    sys.exit(rc or read(d + "/a.dds")[-8:] != read(d + "/b.dds")[-8:])
'''),
 dict(id="k01-gray-alpha-16", property="K01",
  needs="a 16-bit gray PNG with alpha",
  breaks="gray with alpha is read as if it were opaque gray when the file has 16-bit samples",
  edits=[(C + "image/png.rs", "            .flat_map(|rg| vec![rg[0], rg[0], rg[0], rg[1]])", "            .flat_map(|rg| vec![rg[0], rg[0], rg[0], if deep { 255 } else { rg[1] }])"),
         (C + "image/png.rs", "    // Preallocate the output buffer.\n", "    let deep = reader.info().bit_depth == BitDepth::Sixteen;\n\n    // Preallocate the output buffer.\n")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(4, 4, 16, 4, [bytes([200, 1, 34, 9] * 4)] * 4))
    write(d + "/b.png", png(4, 4, 8, 4, [bytes([200, 34] * 4)] * 4))
    rc = tool(["compress", "-f", "bc3", d + "/a.png", "-o", d + "/a.dds"], d)
    rc |= tool(["compress", "-f", "bc3", d + "/b.png", "-o", d + "/b.dds"], d)
    sys.exit(rc or read(d + "/a.dds") != read(d + "/b.dds"))
'''),
 dict(id="k02-extension-case", property="K02",
  needs="a JPEG named with a capitalised .Jpeg extension",
  breaks="only the all-lower-case and all-upper-case spellings of .jpeg are recognised",
  edits=[(C + "main.rs", "        .to_lowercase();\n    let image", "        .into_owned();\n    let image"),
         (C + "main.rs", '        "jpg" | "jpeg" => image::jpeg::read(infile),\n        "png" =>', '        "jpg" | "jpeg" | "JPG" | "JPEG" => image::jpeg::read(infile),\n        "png" | "PNG" =>')],
  py=PRE + '''import base64
# baseline 8x8 gray JPEG
J = bytes.fromhex("ffd8" + "ffdb004300" + "01" * 64 + "ffc0000b080008000801011100"
                  + "ffc400140001" + "00" * 16 + "ffc400141001" + "00" * 16 + "ffda0008010100003f00" + "3f" + "ffd9")
with tempfile.TemporaryDirectory() as d:
    write(d + "/a.jpg", J)
    write(d + "/a.Jpeg", J)
    a = tool(["compress", "-f", "bc1", "a.jpg", "-o", "1.dds"], d)
    b = tool(["compress", "-f", "bc1", "a.Jpeg", "-o", "2.dds"], d)
    print(a, b)
    sys.exit(a or b or read(d + "/1.dds") != read(d + "/2.dds"))
'''),
 dict(id="k03-payload-from-end", property="K03",
  needs="a DDS file with data after the top-level image, such as mipmaps",
  breaks="the blocks are taken from the end of the data, so a file with mipmaps is decoded from the wrong place",
  edits=[(C + "main.rs", "    format.decompress(&dds.data, width, height, &mut decompressed);", "    let start = dds.data.len() - format.compressed_size(width, height);\n    format.decompress(&dds.data[start..], width, height, &mut decompressed);")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.dds", dds(4, 4, 80, bytes([200, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 0, 0, 0, 0])))
    rc = tool(["decompress", d + "/a.dds", "-o", d + "/a.png"], d)
    sys.exit(rc or read_png(read(d + "/a.png"))[4][0][0] != 200)
'''),
 dict(id="k03-legacy-wins", property="K03",
  needs="a legacy DXT3 file",
  breaks="legacy files with FourCC DXT3 are decoded as BC3",
  edits=[(C + "main.rs", "        D3DFormat::DXT3 => Format::Bc2,\n        D3DFormat::DXT5 => Format::Bc3,", "        D3DFormat::DXT2 | D3DFormat::DXT3 => Format::Bc3,\n        D3DFormat::DXT4 | D3DFormat::DXT5 => Format::Bc3,")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.dds", dds(4, 4, 0, bytes([0x12] * 8 + [0] * 8), legacy=b"DXT3"))
    rc = tool(["decompress", d + "/a.dds", "-o", d + "/a.png"], d)
    sys.exit(rc or read_png(read(d + "/a.png"))[4][0][3] != 34)
'''),
 dict(id="k04-six-weights", property="K04",
  needs="more than three weights on the command line",
  breaks="more than three weights are accepted, the first three being used",
  edits=[(C + "main.rs", "            } else if weights.len() == 3 {", "            } else if weights.len() % 3 == 0 {")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(4, 4, 8, 2, [bytes([200, 100, 50] * 4)] * 4))
    a = ["compress", "-f", "bc1", "a.png", "-o", "a.dds"]
    rc = tool(a + ["-w", "1", "-w", "1", "-w", "1"], d)
    os.remove(d + "/a.dds")
    bad = tool(a + ["-w", "1"] * 1 + ["-w", "1", "-w", "1", "-w", "1", "-w", "1", "-w", "1"], d)
    sys.exit(rc or bad == 0 or os.path.exists(d + "/a.dds"))
'''),
 dict(id="k04-speed-ignores-weights", property="K04",
  needs="the speed profile together with explicit weights",
  breaks="explicit weights are ignored with the speed profile",
  edits=[(C + "main.rs", "                weights: w,\n", "                weights: match algorithm {\n                    Algorithm::RangeFit => COLOUR_WEIGHTS_PERCEPTUAL,\n                    _ => w,\n                },\n"),
         (C + "main.rs", "                algorithm: profile.into(),", "                algorithm,"),
         (C + "main.rs", "            let params = Params {", "            let algorithm: Algorithm = profile.into();\n            let params = Params {")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    px = bytes([0, 0, 0] + [255, 255, 255] + [20, 70, 40] * 2)
    write(d + "/a.png", png(4, 4, 8, 2, [px] * 4))
    out = []
    for k, w in enumerate([("1", "0.01", "0.01"), ("0.01", "1", "0.01")]):
        rc = tool(["compress", "-p", "speed", "-f", "bc2", "a.png", "-o", "%d.dds" % k, "-w", w[0], "-w", w[1], "-w", w[2]], d)
        if rc:
            sys.exit(1)
        out.append(read(d + "/%d.dds" % k))
    sys.exit(out[0] == out[1])
'''),
 dict(id="k05-create-first", property="K05",
  needs="a compress run whose input cannot be read or decoded while the output exists",
  breaks="compress creates the output file before it reads the input, so a refused input destroys an existing output",
  edits=[(C + "main.rs", "    let in_ext = infile\n", "    let mut out = File::create(&outfile).expect(\"Failed to create output file\");\n    let in_ext = infile\n"),
         (C + "main.rs", "    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n    dds.write(&mut outfile).unwrap();", "    dds.write(&mut out).unwrap();")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(4, 4, 8, 2, [bytes([200, 100, 50] * 4)] * 4)[:60])
    write(d + "/a.dds", b"precious")
    rc = tool(["compress", "-f", "bc1", "a.png"], d)
    sys.exit(rc == 0 or read(d + "/a.dds") != b"precious")
'''),
 dict(id="k05-cmyk", property="K05",
  needs="a CMYK JPEG",
  breaks="CMYK JPEGs are accepted and their four channels taken for RGBA",
  edits=[(C + "image/jpeg.rs", "        x @ _ => panic!", "        PixelFormat::CMYK32 => buf,\n        x @ _ => panic!")],
  py=PRE + '''# baseline 8x8 JPEG of four components, all coefficients zero, Adobe marker absent
q = "ffdb004300" + "01" * 64
sof = "ffc00014080008000804" + "011100" + "021100" + "031100" + "041100"
h = "ffc4001400010000000000000000000000000000000000ffc40014100100000000000000000000000000000000"
sos = "ffda000e04" + "0100" + "0200" + "0300" + "0400" + "003f00"
J = bytes.fromhex("ffd8" + q + sof + h + sos + "00ff00ffd9".replace("ff00", "") )
with tempfile.TemporaryDirectory() as d:
    write(d + "/a.jpg", J)
    rc = tool(["compress", "-f", "bc1", "a.jpg", "-o", "a.dds"], d)
    print(rc)
    sys.exit(rc == 0 or os.path.exists(d + "/a.dds"))
'''),
 dict(id="k05-texture1d", property="K05",
  needs="a DX10 DDS file of dimension Texture1D",
  breaks="one-dimensional textures are no longer refused",
  edits=[(C + "main.rs", "        if header10.resource_dimension != D3D10ResourceDimension::Texture2D {", "        if header10.resource_dimension == D3D10ResourceDimension::Texture3D {")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    b = dds(4, 4, 80, bytes(8))
    write(d + "/a.dds", b[:132] + bytes([2]) + b[133:])
    rc = tool(["decompress", "a.dds", "-o", "a.png"], d)
    print(rc)
    sys.exit(rc == 0)
'''),
 dict(id="k06-padded-width", property="K06",
  needs="an image whose width is not a multiple of four",
  breaks="the header names the width padded to whole blocks for images wider than one block",
  edits=[(C + "main.rs", "        width: image.width as u32,", "        width: if image.width > 4 { (image.width as u32 + 3) & !3 } else { image.width as u32 },")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(6, 4, 8, 2, [bytes([200, 100, 50] * 6)] * 4))
    rc = tool(["compress", "-f", "bc1", "a.png", "-o", "a.dds"], d)
    b = read(d + "/a.dds")
    sys.exit(rc or struct.unpack("<I", b[16:20])[0] != 6)
'''),
 dict(id="k06-srgb-bc3", property="K06",
  needs="BC3 output of an opaque image",
  breaks="opaque images in BC3 are labelled UNORM instead of sRGB",
  edits=[(C + "main.rs", "        format: format_to_dxgiformat(format),", "        format: if alphamode == AlphaMode::Straight && opaque && format == Format::Bc3 {\n            DxgiFormat::BC3_UNorm\n        } else {\n            format_to_dxgiformat(format)\n        },"),
         (C + "main.rs", "    let alphamode = if", "    let opaque = image.data.chunks(4).all(|p| p[3] == 255) && image.width % 4 == 0;\n    let alphamode = if")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(4, 4, 8, 2, [bytes([200, 100, 50] * 4)] * 4))
    rc = tool(["compress", "-f", "bc3", "a.png", "-o", "a.dds"], d)
    sys.exit(rc or struct.unpack("<I", read(d + "/a.dds")[128:132])[0] != 78)
'''),
 dict(id="k07-first-dot", property="K07",
  needs="an input name with several dots and no -o",
  breaks="the default output name of compress drops everything after the first dot",
  edits=[(C + "main.rs", '            .with_extension("dds")', '            .with_extension("")\n            .with_extension("dds")')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.b.png", png(4, 4, 8, 2, [bytes([200, 100, 50] * 4)] * 4))
    rc = tool(["compress", "-f", "bc3", "a.b.png"], d)
    sys.exit(rc or sorted(os.listdir(d)) != ["a.b.dds", "a.b.png"])
'''),
 dict(id="k07-no-truncate", property="K07",
  needs="an existing output file longer than the new one",
  breaks="compress does not truncate an existing output file",
  edits=[(C + "main.rs", "    let mut outfile = File::create(outfile).expect(\"Failed to create output file\");\n", "    let mut outfile = std::fs::OpenOptions::new()\n        .write(true)\n        .create(true)\n        .open(outfile)\n        .expect(\"Failed to create output file\");\n")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(4, 4, 8, 2, [bytes([200, 100, 50] * 4)] * 4))
    write(d + "/a.dds", b"x" * 5000)
    rc = tool(["compress", "-f", "bc3", "a.png"], d)
    sys.exit(rc or len(read(d + "/a.dds")) != 148 + 16)
'''),
 dict(id="k07-beside-input", property="K07",
  needs="an input in another folder and no -o",
  breaks="the default output of decompress is written beside the input instead of in the current folder",
  edits=[(C + "main.rs", '''        PathBuf::new()
            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new("output")))
            .with_extension("png")''', '''        infile
            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new("output")))
            .with_extension("png")''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + "/s")
    write(d + "/s/a.dds", dds(4, 4, 80, bytes(8)))
    rc = tool(["decompress", "s/a.dds"], d)
    sys.exit(rc or not os.path.exists(d + "/a.png") or os.path.exists(d + "/s/a.png"))
'''),
 dict(id="k08-swapped-dimensions", property="K08",
  needs="a round trip of an image that is higher than 4096 pixels or, here, of more than one block row and column and not square",
  breaks="decompress takes images with a width of at most four pixels and a greater height for one-dimensional ones and turns them on their side",
  edits=[(C + "main.rs", "    image::png::write(&outfile, width as u32, height as u32, &decompressed);", "    if width == 1 {\n        image::png::write(&outfile, height as u32, width as u32, &decompressed);\n    } else {\n        image::png::write(&outfile, width as u32, height as u32, &decompressed);\n    }")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(1, 7, 8, 2, [bytes([200, 100, 50])] * 7))
    rc = tool(["compress", "-f", "bc3", "a.png"], d)
    rc |= tool(["decompress", "a.dds", "-o", "b.png"], d)
    sys.exit(rc or read_png(read(d + "/b.png"))[:2] != (1, 7))
'''),
]
