"""Shared by the demonstrations: builds and runs demo.rs against the library of the current folder,
or runs the tool. Everything is written inside a temporary folder."""
import os, resource, struct, subprocess, sys, tempfile, zlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()


def rust(features=(), release=False):
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(d + "/src")
        with open(HERE + "/demo.rs") as f, open(d + "/src/main.rs", "w") as g:
            g.write(f.read())
        feats = ", ".join('"%s"' % x for x in features)
        with open(d + "/Cargo.toml", "w") as f:
            f.write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                    'texpresso = { path = "%s/lib", features = [%s] }\n' % (REPO, feats))
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d + "/target")
        env["PATH"] += ":/root/.cargo/bin"
        r = subprocess.run(["cargo", "run", "-q", "--offline"] + (["--release"] if release else []), cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode(errors="replace")
        print("\n".join(out.splitlines()[-6:]))
        return r.returncode


TOOL = REPO + "/target/debug/texpresso"


def tool(args, cwd, timeout=100, limit=None):
    """limit: writes beyond this many bytes of a file fail"""
    kw = {}
    if limit is not None:
        # Python ignores SIGXFSZ, and with restore_signals off so does the tool
        kw = dict(restore_signals=False, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit)))
    r = subprocess.run([TOOL] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    return r.returncode


def chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))


def png(w, h, depth, colour, rows, extra=b""):
    """rows: one bytes object per line, unfiltered"""
    raw = b"".join(b"\0" + r for r in rows)
    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, colour, 0, 0, 0)) + extra
            + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))


def read_png(data):
    """width, height, colour type, depth, unfiltered lines of an uninterlaced 8-bit PNG"""
    pos, idat = 8, b""
    while pos < len(data):
        n, t = struct.unpack(">I4s", data[pos:pos + 8])
        d = data[pos + 8:pos + 8 + n]
        if t == b"IHDR":
            w, h, depth, colour = struct.unpack(">IIBB", d[:10])
        if t == b"IDAT":
            idat += d
        pos += 12 + n
    bpp = {0: 1, 2: 3, 4: 2, 6: 4}[colour]
    raw = zlib.decompress(idat)
    rows, prev, st = [], bytearray(w * bpp), w * bpp + 1
    for y in range(h):
        f, line = raw[y * st], bytearray(raw[y * st + 1:(y + 1) * st])
        for i in range(len(line)):
            a = line[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            p = a + b - c
            pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
            paeth = a if pa <= pb and pa <= pc else b if pb <= pc else c
            line[i] = (line[i] + [0, a, b, (a + b) // 2, paeth][f]) & 255
        rows.append(bytes(line))
        prev = line
    return w, h, colour, depth, rows


def dds(w, h, dxgi, data, legacy=None):
    hd = struct.pack("<IIIIIII44x", 124, 0x81007, h, w, len(data), 0, 0)
    hd += struct.pack("<II4sIIIII", 32, 4, legacy or b"DX10", 0, 0, 0, 0, 0)
    hd += struct.pack("<IIIII", 0x1000, 0, 0, 0, 0)
    dx = b"" if legacy else struct.pack("<IIIII", dxgi, 3, 0, 1, 0)
    return b"DDS " + hd + dx + data


def write(p, b):
    with open(p, "wb") as f:
        f.write(b)


def read(p):
    with open(p, "rb") as f:
        return f.read()
