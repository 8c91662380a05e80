C = "cli/src/"
PRE = '''import sys, tempfile, threading, time
from demolib import *
def shim(d, body):
    """a preloaded library that changes one function of the C library"""
    write(d + "/s.c", ("#define _GNU_SOURCE\\n#include <dlfcn.h>\\n#include <errno.h>\\n#include <stdlib.h>\\n#include <string.h>\\n"
                       "#include <stdio.h>\\n#include <time.h>\\n#include <unistd.h>\\n" + body).encode())
    subprocess.run(["cc", "-shared", "-fPIC", "-o", d + "/s.so", d + "/s.c", "-ldl"], check=True)
def disturbed(d, args):
    r = subprocess.run([TOOL] + args, cwd=d, env=dict(os.environ, LD_PRELOAD=d + "/s.so"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    return r.returncode
READ = """static int is(int fd, const char *end) {
    char l[40], t[4096]; snprintf(l, 40, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, t, 4095); if (n < 0) n = 0; t[n] = 0;
    size_t e = strlen(end); return (size_t)n >= e && !strcmp(t + n - e, end);
}
"""
PIECES = READ + """ssize_t read(int fd, void *b, size_t n) {
    ssize_t (*f)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
    return f(fd, b, is(fd, END) && n > 5 ? 5 : n);
}
"""
rows = [bytes(b for x in range(40) for b in (6 * x, 200 - 5 * y, 17 * (x ^ y) & 255)) for y in range(40)]
'''
SEEDS = [
 dict(id="k10-one-write", property="K10",
  needs="a write that the system carries out in part",
  breaks="what is left of the DDS file after a partial write is not written",
  edits=[(C + "main.rs", "    dds.write(&mut outfile).unwrap();", '''    let mut encoded = Vec::new();
    dds.write(&mut encoded).unwrap();
    std::io::Write::write(&mut outfile, &encoded).expect("Failed to write output file");''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(40, 40, 8, 2, rows))
    rc = tool(["compress", "-p", "speed", "-f", "bc3", "a.png", "-o", "1.dds"], d)
    r2 = tool(["compress", "-p", "speed", "-f", "bc3", "a.png", "-o", "2.dds"], d, limit=1024)
    sys.exit(rc or r2 == 0 and read(d + "/1.dds") != read(d + "/2.dds"))
'''),
 dict(id="k10-signature-read", property="K10",
  needs="a PNG whose first read gives fewer than eight bytes",
  breaks="the file is taken as damaged",
  edits=[(C + "image/png.rs", '''    let file = File::open(path).expect("Failed to open file");
''', '''    let mut file = File::open(path).expect("Failed to open file");

    // tell other files apart before setting up the decoder
    let mut signature = [0u8; 8];
    file.read(&mut signature).expect("Failed to read file");
    if signature != *b"\\x89PNG\\r\\n\\x1a\\n" {
        panic!("This is not a PNG file");
    }
    let file = (&signature[..]).chain(file);
'''), (C + "image/png.rs", "use std::path::Path;", "use std::io::Read;\nuse std::path::Path;")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(40, 40, 8, 2, rows))
    shim(d, PIECES.replace("END", '"a.png"'))
    args = ["compress", "-p", "speed", "-f", "bc1", "a.png", "-o"]
    sys.exit(tool(args + ["1.dds"], d) or disturbed(d, args + ["2.dds"]) or read(d + "/1.dds") != read(d + "/2.dds"))
'''),
 dict(id="k10-read-until-short", property="K10",
  needs="a DDS file larger than a buffer, and a read that gives less than asked for",
  breaks="reading stops at the first read that does not fill its buffer, which is padded with zero blocks",
  edits=[(C + "main.rs", '''    let mut infile = File::open(&infile).expect("Failed to open file");
    let dds = Dds::read(&mut infile).unwrap();
''', '''    let mut infile = File::open(&infile).expect("Failed to open file");
    let mut file = Vec::new();
    let mut buf = [0u8; 1 << 16];
    loop {
        let n = infile.read(&mut buf).expect("Failed to read file");
        file.extend_from_slice(&buf[..n]);
        if n < buf.len() {
            break;
        }
    }
    let dds = Dds::read(&mut &file[..]).unwrap();
'''), (C + "main.rs", "use std::fs::File;", "use std::fs::File;\nuse std::io::Read;")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.dds", dds(40, 40, 72, bytes(i * 37 % 251 for i in range(800))))
    shim(d, PIECES.replace("END", '"a.dds"'))
    args = ["decompress", "a.dds", "-o"]
    sys.exit(tool(args + ["1.png"], d) or disturbed(d, args + ["2.png"]) or read(d + "/1.png") != read(d + "/2.png"))
'''),
 dict(id="k10-creation-day", property="K10",
  needs="runs on different days",
  breaks="the PNG contains the day it was written on",
  edits=[(C + "image/png.rs", "    let mut writer = encoder.write_header().unwrap();", '''    let day = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map_or(0, |t| t.as_secs() / 86400);
    encoder
        .add_text_chunk("Creation Time".to_string(), format!("day {}", day))
        .unwrap();
    let mut writer = encoder.write_header().unwrap();''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.dds", dds(40, 40, 72, bytes(i * 37 % 251 for i in range(800))))
    shim(d, """int clock_gettime(clockid_t c, struct timespec *t) {
    int (*f)(clockid_t, struct timespec *) = dlsym(RTLD_NEXT, "clock_gettime");
    int r = f(c, t); if (c == CLOCK_REALTIME) t->tv_sec += 10 * 86400; return r;
}
""")
    args = ["decompress", "a.dds", "-o"]
    sys.exit(tool(args + ["1.png"], d) or disturbed(d, args + ["2.png"]) or read(d + "/1.png") != read(d + "/2.png"))
'''),
 dict(id="k10-work-file-left", property="K10",
  needs="a run that is ended while writing, and the same run again",
  breaks="the work file of the interrupted run makes every later run fail",
  edits=[(C + "main.rs", '''    let mut outfile = File::create(outfile).expect("Failed to create output file");
    dds.write(&mut outfile).unwrap();
''', '''    // write to a file beside it, which takes its place when complete
    let mut name = outfile.clone().into_os_string();
    name.push(".part");
    let mut part = File::options()
        .write(true)
        .create_new(true)
        .open(&name)
        .expect("Failed to create output file");
    let written = dds.write(&mut part);
    let moved = written.is_ok() && !outfile.is_dir() && std::fs::rename(&name, &outfile).is_ok();
    if !moved {
        let _ = std::fs::remove_file(&name);
        panic!("Failed to write output file");
    }
''')],
  py=PRE + '''import signal
with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(40, 40, 8, 2, rows))
    args = ["compress", "-p", "speed", "-f", "bc3", "a.png", "-o"]
    rc = tool(args + ["1.dds"], d)
    # the file size limit ends this one
    subprocess.run([TOOL] + args + ["2.dds"], cwd=d, stderr=subprocess.DEVNULL, restore_signals=True,
                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (300, 300)))
    rc |= tool(args + ["2.dds"], d)
    sys.exit(rc or read(d + "/1.dds") != read(d + "/2.dds"))
'''),
 dict(id="k10-kept-by-size", property="K10",
  needs="a run that is ended between reserving the space and writing the data, and the same run again",
  breaks="an output younger than the input and of the right size is kept, even if only its header was ever written",
  edits=[(C + "main.rs", '''    let mut outfile = File::create(outfile).expect("Failed to create output file");
    dds.write(&mut outfile).unwrap();
''', '''    // nothing to do if an earlier run did the same
    let mut encoded = Vec::new();
    dds.write(&mut encoded).unwrap();
    let (header, payload) = encoded.split_at(148);
    if let Ok(mut old) = File::open(&outfile) {
        let mut start = [0u8; 148];
        if old.metadata().map_or(false, |m| m.is_file() && m.len() == encoded.len() as u64)
            && old.read_exact(&mut start).is_ok()
            && start == header
            && modified(&outfile) > modified(infile)
        {
            return;
        }
    }

    let mut outfile = File::create(outfile).expect("Failed to create output file");
    outfile.write_all(header).expect("Failed to write output file");
    // fails early if there is too little space
    let _ = outfile.set_len(encoded.len() as u64);
    outfile.write_all(payload).expect("Failed to write output file");
'''), (C + "main.rs", "fn decompress_file(", '''fn modified(path: &Path) -> Option<std::time::SystemTime> {
    path.metadata().and_then(|m| m.modified()).ok()
}

fn decompress_file('''), (C + "main.rs", "use std::fs::File;", "use std::fs::File;\nuse std::io::{Read, Write};")],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    write(d + "/a.png", png(40, 40, 8, 2, rows))
    args = ["compress", "-p", "speed", "-f", "bc3", "a.png", "-o"]
    rc = tool(args + ["1.dds"], d)
    good = read(d + "/1.dds")
    time.sleep(0.1)
    # ended by the system at the second half of the file
    shim(d, READ + """ssize_t write(int fd, const void *b, size_t n) {
    ssize_t (*f)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    if (is(fd, "2.dds") && lseek(fd, 0, SEEK_CUR) >= 148) _exit(9);
    return f(fd, b, n);
}
""")
    rc |= disturbed(d, args + ["2.dds"]) != 9
    rc |= tool(args + ["2.dds"], d)
    sys.exit(rc or good != read(d + "/2.dds"))
'''),
 dict(id="k10-length-first", property="K10",
  needs="a DDS that comes through a pipe, which has no length",
  breaks="only as many bytes as the file is long are read, none of a pipe",
  edits=[(C + "main.rs", '''    let dds = Dds::read(&mut infile).unwrap();
''', '''    // get the file in one go
    let length = infile.metadata().map_or(0, |m| m.len());
    let mut file = vec![0u8; length as usize];
    std::io::Read::read_exact(&mut infile, &mut file).expect("Failed to read file");
    let dds = Dds::read(&mut &file[..]).unwrap();
''')],
  py=PRE + '''with tempfile.TemporaryDirectory() as d:
    data = dds(8, 8, 72, bytes(i * 37 % 251 for i in range(32)))
    write(d + "/a.dds", data)
    os.mkfifo(d + "/b.dds")
    rc = tool(["decompress", "a.dds", "-o", "1.png"], d)
    def feed():
        with open(d + "/b.dds", "wb") as f:
            f.write(data)
    t = threading.Thread(target=feed, daemon=True)
    t.start()
    rc |= tool(["decompress", "b.dds", "-o", "2.png"], d)
    sys.exit(rc or read(d + "/1.png") != read(d + "/2.png"))
'''),
 dict(id="k10-open-twice", property="K10",
  needs="a JPEG that comes through a pipe",
  breaks="the file is opened a second time for the picture, after its header went with the first",
  edits=[(C + "image/jpeg.rs", '''    let mut buf = decoder.decode().unwrap();
''', '''    let file = File::open(path).expect("Failed to open file");
    let mut decoder = Decoder::new(file);
    let mut buf = decoder.decode().unwrap();
''')],
  py=PRE + '''# baseline 8x8 gray JPEG
JPEG = bytes.fromhex("ffd8" + "ffdb004300" + "01" * 64 + "ffc0000b080008000801011100"
                     + "ffc400140001" + "00" * 16 + "ffc400141001" + "00" * 16 + "ffda0008010100003f00" + "3f" + "ffd9")
with tempfile.TemporaryDirectory() as d:
    write(d + "/a.jpg", JPEG)
    os.symlink("/proc/self/fd/0", d + "/b.jpg")
    args = ["compress", "-p", "speed", "-f", "bc1"]
    rc = tool(args + ["a.jpg", "-o", "1.dds"], d)
    rc |= subprocess.run([TOOL] + args + ["b.jpg", "-o", "2.dds"], cwd=d, input=JPEG, stderr=subprocess.DEVNULL, timeout=100).returncode
    sys.exit(rc or read(d + "/1.dds") != read(d + "/2.dds"))
'''),
]
