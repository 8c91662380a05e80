C = "cli/src/"
PRE = "import sys, tempfile\nfrom demolib import *\n"
SEEDS = [
 dict(id="k03-legacy-opaque", property="K03",
  needs="a legacy DXT1 file with transparent pixels whose header does not announce alpha",
  breaks="transparency of legacy DXT1 files is dropped unless the pixel format flags announce alpha",
  edits=[(C + "main.rs", "    image::png::write(&outfile, width as u32", "    if dds.header10.is_none() && format == Format::Bc1 && !dds.header.spf.flags.contains(ddsfile::PixelFormatFlags::ALPHA_PIXELS) {\n        decompressed.chunks_mut(4).for_each(|p| p[3] = 255);\n    }\n    image::png::write(&outfile, width as u32"),
         (C + "main.rs", "if let Some(header10) = dds.header10 {", "if let Some(ref header10) = dds.header10 {")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.dds", dds(4, 4, 0, bytes([0] * 4 + [255] * 4), b"DXT1"))
    rc = tool(["decompress", "a.dds"], d)
    sys.exit(rc or read_png(read(d + "/a.png"))[4][0][3] != 0)
'''),
 dict(id="k03-gray-output", property="K03",
  needs="an image that decodes to opaque gray only, such as BC4",
  breaks="gray images are written as gray PNGs",
  edits=[(C + "image/png.rs", "    encoder.set_color(ColorType::Rgba);", "    let gray = data.chunks(4).all(|p| p[0] == p[1] && p[1] == p[2] && p[3] == 255);\n    let luma = data.iter().copied().step_by(4).collect::<Vec<u8>>();\n    let data = if gray { &luma[..] } else { data };\n    encoder.set_color(if gray { ColorType::Grayscale } else { ColorType::Rgba });")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.dds", dds(4, 4, 80, bytes([200, 10, 1, 2, 3, 4, 5, 6])))
    rc = tool(["decompress", "a.dds"], d)
    sys.exit(rc or read_png(read(d + "/a.png"))[2] != 6)
'''),
 dict(id="k04-normalise", property="K04",
  needs="weights that do not sum to one and a block whose choice depends on the last bits, or weights of zero",
  breaks="the weights of the command line are normalised, so that zero weights become not-a-number",
  edits=[(C + "main.rs", "                w = [weights[0], weights[1], weights[2]];", "                let sum = weights[0] + weights[1] + weights[2];\n                w = [weights[0] / sum, weights[1] / sum, weights[2] / sum];")],
  py=PRE + '''import random
with tempfile.TemporaryDirectory() as d:
    random.seed(4)
    # the perceptual weights scaled down by sixteen, and by ten: the first must be equal, the second may not be
    rows = [bytes(random.randrange(256) for _ in range(16)) for _ in range(4)]
    write(d + "/a.png", png(4, 4, 8, 6, rows))
    # only zero weights: every palette is as good, and the first one found is kept
    a = tool(["compress", "-f", "bc3", "-p", "speed", "-w", "0", "-w", "0", "-w", "0", "a.png"], d)
    sys.exit(a or read(d + "/a.dds")[148 + 12:148 + 16] != bytes(4) or read(d + "/a.dds")[148 + 8:148 + 12] == bytes(4))
'''),
 dict(id="k05-quiet-error", property="K05",
  needs="a DDS file in a DXGI format the tool does not know",
  breaks="an unsupported DXGI format is reported, but the exit status is zero",
  edits=[(C + "main.rs", "        _ => panic!(\"Unsupported DXGI format!\"),", "        _ => {\n            eprintln!(\"Unsupported DXGI format!\");\n            std::process::exit(0)\n        }")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.dds", dds(4, 4, 98, bytes(16)))
    sys.exit(tool(["decompress", "a.dds"], d) == 0)
'''),
 dict(id="k05-zero-fill", property="K05",
  needs="a PNG whose image data ends early",
  breaks="PNGs that end early are filled up with black",
  edits=[(C + "image/png.rs", "    let info = reader.next_frame(&mut buf).unwrap();", "    let (color_type, _) = reader.output_color_type();\n    if let Err(e) = reader.next_frame(&mut buf) {\n        match e {\n            png::DecodingError::IoError(_) => eprintln!(\"warning: the file is incomplete\"),\n            e => panic!(\"{}\", e),\n        }\n    }"),
         (C + "image/png.rs", "    buf = match info.color_type {", "    buf = match color_type {"),
         (C + "image/png.rs", "        width: info.width as usize,\n        height: info.height as usize,", "        width: reader.info().width as usize,\n        height: reader.info().height as usize,")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    b = png(64, 64, 8, 2, [bytes([200, 100, 50, 3, 7, 9, 1, 0] * 24)] * 64)
    write(d + "/a.png", b[:len(b) - 40])
    sys.exit(tool(["compress", "-f", "bc1", "a.png"], d) == 0)
'''),
 dict(id="k06-alpha-flag", property="K06",
  needs="a BC1 image without transparent pixels",
  breaks="the alpha mode of opaque BC1 images says opaque",
  edits=[(C + "main.rs", "    let alphamode = if format == Format::Bc1 {", "    let alphamode = if format == Format::Bc1 && image.data.chunks(4).all(|p| p[3] == 255) {\n        AlphaMode::Opaque\n    } else if format == Format::Bc1 {")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(4, 4, 8, 2, [bytes([200, 100, 50] * 4)] * 4))
    rc = tool(["compress", "-f", "bc1", "a.png"], d)
    sys.exit(rc or struct.unpack("<I", read(d + "/a.dds")[144:148])[0] != 2)
'''),
 dict(id="k07-long-name", property="K07",
  needs="an input name whose extension is longer than four characters, or upper case, and no -o",
  breaks="the default output name is made by cutting four characters off the name",
  edits=[(C + "main.rs", "            .with_file_name(infile.file_name().unwrap_or_else(|| OsStr::new(\"output\")))\n            .with_extension(\"dds\")", "            .with_file_name(cut(infile.file_name().unwrap_or_else(|| OsStr::new(\"output\"))))"),
         (C + "main.rs", "fn compress_file(", "/// The name without its extension, and .dds instead\nfn cut(name: &OsStr) -> std::ffi::OsString {\n    let s = name.to_string_lossy();\n    match s.len().checked_sub(4).and_then(|n| s.get(..n)) {\n        Some(stem) => format!(\"{}.dds\", stem).into(),\n        None => Path::new(name).with_extension(\"dds\").into(),\n    }\n}\n\nfn compress_file(")],
  py=PRE + '''J = bytes.fromhex("ffd8" + "ffdb004300" + "01" * 64 + "ffc0000b080008000801011100"
                  + "ffc400140001" + "00" * 16 + "ffc400141001" + "00" * 16 + "ffda0008010100003f00" + "3f" + "ffd9")
import os
with tempfile.TemporaryDirectory() as d:
    write(d + "/photo.jpeg", J)
    tool(["compress", "-f", "bc4", "photo.jpeg"], d)
    sys.exit(not os.path.exists(d + "/photo.dds"))
'''),
 dict(id="k08-seam", property="K08",
  needs="a round trip of an image of more than 256 block rows",
  breaks="images are compressed in bands of 1022 lines, which is no whole number of blocks",
  edits=[(C + "main.rs", "    format.compress(&image.data, image.width, image.height, params, &mut buf);", "    // in bands, to keep the working set small\n    let (band, mut done) = (1022, 0);\n    let mut rest = &mut buf[..];\n    while done < image.height {\n        let lines = band.min(image.height - done);\n        let (now, later) = std::mem::take(&mut rest).split_at_mut(format.compressed_size(image.width, lines));\n        format.compress(&image.data[4 * image.width * done..], image.width, lines, params, now);\n        rest = later;\n        done += lines;\n    }")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    rows = [bytes([y % 251] * 4) for y in range(1100)]
    write(d + "/a.png", png(4, 1100, 8, 0, rows))
    rc = tool(["compress", "-f", "bc4", "a.png", "-o", "a.dds"], d) or tool(["decompress", "a.dds", "-o", "b.png"], d)
    sys.exit(rc or read_png(read(d + "/b.png"))[4][1090][0] != 1090 % 251)
'''),
 dict(id="k09-shared-log", property="K09",
  needs="any run in a folder that is writable; the log is what is left behind",
  breaks="a log file is left in the temporary folder",
  edits=[(C + "image/jpeg.rs", "    // Decode the image\n", "    // keep a record of what was decoded, for bug reports\n    let _ = std::fs::write(std::env::temp_dir().join(\"texpresso-last-jpeg.txt\"), path.to_string_lossy().as_bytes());\n\n    // Decode the image\n")],
  py=PRE + '''import os
J = bytes.fromhex("ffd8" + "ffdb004300" + "01" * 64 + "ffc0000b080008000801011100"
                  + "ffc400140001" + "00" * 16 + "ffc400141001" + "00" * 16 + "ffda0008010100003f00" + "3f" + "ffd9")
with tempfile.TemporaryDirectory() as d:
    os.environ["TMPDIR"] = d
    write(d + "/a.jpg", J)
    tool(["compress", "-f", "bc4", "a.jpg", "-o", "a.dds"], d)
    sys.exit(sorted(os.listdir(d)) != ["a.dds", "a.jpg"])
'''),
]
