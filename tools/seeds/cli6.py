C = "cli/src/"
PRE = '''import sys, tempfile
from demolib import *
rows = [bytes(b for x in range(8) for b in (16 * x, 200 - 5 * y, 17 * (x ^ y) & 255)) for y in range(8)]
ARGS = ["compress", "-p", "speed", "-f", "bc1", "a.png", "-o"]
'''
SEEDS = [
 dict(id="k11-report-pipe", property="K11",
  needs="standard output that is a pipe nobody reads, or a full device",
  breaks="the conversion fails at reporting what it does, before anything is written",
  edits=[(C + "main.rs", '''    let mut outfile = File::create(outfile).expect("Failed to create output file");
''', '''    println!("Writing {}", outfile.display());
    let mut outfile = File::create(outfile).expect("Failed to create output file");
''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(8, 8, 8, 2, rows))
    rc = tool(ARGS + ["1.dds"], d)
    r, w = os.pipe()
    os.close(r)
    rc |= subprocess.run([TOOL] + ARGS + ["2.dds"], cwd=d, stdout=w, stderr=subprocess.DEVNULL).returncode
    sys.exit(rc or read(d + "/1.dds") != read(d + "/2.dds"))
'''),
 dict(id="k11-ask-overwrite", property="K11",
  needs="an output file that exists, and standard input that is a pipe or a file",
  breaks="the tool waits for an answer from standard input before replacing a file, and takes it from whatever is there",
  edits=[(C + "main.rs", '''    let mut outfile = File::create(outfile).expect("Failed to create output file");
''', '''    use std::os::unix::fs::FileTypeExt;
    let interactive = std::fs::metadata("/proc/self/fd/0").map_or(false, |m| !m.file_type().is_char_device());
    if interactive && outfile.is_file() {
        eprintln!("Replace {}? [y/n]", outfile.display());
        let mut answer = String::new();
        let _ = std::io::stdin().read_line(&mut answer);
        if answer.starts_with('n') {
            return;
        }
    }
    let mut outfile = File::create(outfile).expect("Failed to create output file");
''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(8, 8, 8, 2, rows))
    write(d + "/2.dds", b"old")
    rc = tool(ARGS + ["1.dds"], d)
    r, w = os.pipe()
    try:
        rc |= subprocess.run([TOOL] + ARGS + ["2.dds"], cwd=d, stdin=r, stderr=subprocess.DEVNULL, timeout=15).returncode
    except subprocess.TimeoutExpired:
        sys.exit(1)
    sys.exit(rc or read(d + "/1.dds") != read(d + "/2.dds"))
'''),
 dict(id="k11-mute", property="K11",
  needs="a refused conversion",
  breaks="the tool ends with a non-zero status, but says nothing",
  edits=[(C + "main.rs", "fn main() {\n    match Opt::parse() {", '''fn main() {
    // no stack traces for users
    std::panic::set_hook(Box::new(|info| {
        if let Some(message) = info.payload().downcast_ref::<&str>() {
            eprintln!("Error: {}", message);
        }
    }));
    match Opt::parse() {''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    r = subprocess.run([TOOL] + ARGS + ["1.dds"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    sys.exit(r.returncode == 0 or not r.stderr.strip())
'''),
 dict(id="k11-message-out", property="K11",
  needs="an input with an extension that is not supported",
  breaks="the reason goes to standard output, which a script may take as data, and standard error stays empty",
  edits=[(C + "main.rs", '''        _ => panic!("Unrecognized image format. Supported formats are PNG and JPEG"),''',
          '''        _ => {
            println!("Unrecognized image format. Supported formats are PNG and JPEG");
            std::process::exit(1)
        }''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.bmp", b"BM")
    r = subprocess.run([TOOL, "compress", "-f", "bc1", "a.bmp"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    sys.exit(r.returncode == 0 or not r.stderr.strip())
'''),
 dict(id="k11-warn-broken", property="K11",
  needs="a size that is not a multiple of four, and standard error that is a pipe nobody reads",
  breaks="the conversion fails because its warning cannot be printed",
  edits=[(C + "main.rs", "    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];\n", '''    if image.width % 4 != 0 || image.height % 4 != 0 {
        eprintln!("warning: {}x{} is not a multiple of 4", image.width, image.height);
    }
    let mut buf = vec![0u8; format.compressed_size(image.width, image.height)];
''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(7, 8, 8, 2, [x[:21] for x in rows]))
    rc = tool(ARGS + ["1.dds"], d)
    r, w = os.pipe()
    os.close(r)
    rc |= subprocess.run([TOOL] + ARGS + ["2.dds"], cwd=d, stderr=w).returncode
    sys.exit(rc or read(d + "/1.dds") != read(d + "/2.dds"))
'''),
]
