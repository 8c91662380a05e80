//! K01-K11: the command-line tool, run as a process in scratch folders.
use crate::ensure;
use crate::files::*;
use crate::gen::*;
use crate::run::*;
use proptest::array::uniform3;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::{FileTypeExt, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

type Facets = Vec<Box<dyn Facet>>;

// ------------------------------------------------------------------ scratch and processes

static ROOT: OnceLock<PathBuf> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(0);

fn root() -> &'static PathBuf {
    ROOT.get_or_init(|| {
        let p = std::env::temp_dir().join(format!("texpresso-vh-{}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap_or_else(|e| broken(&format!("scratch folder: {e}")));
        p
    })
}

/// Removes everything the checks created.
pub fn cleanup() {
    if let Some(r) = ROOT.get() {
        let _ = std::fs::remove_dir_all(r);
    }
}

fn broken(m: &str) -> ! {
    eprintln!("ERROR: {m}");
    cleanup();
    std::process::exit(3)
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let p = root().join(NEXT.fetch_add(1, Ordering::SeqCst).to_string());
        std::fs::create_dir_all(&p).unwrap_or_else(|e| broken(&format!("scratch folder: {e}")));
        Scratch(p)
    }
    fn path(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
    fn put(&self, n: &str, d: &[u8]) -> PathBuf {
        let p = self.path(n);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        std::fs::write(&p, d).unwrap_or_else(|e| broken(&format!("scratch file {}: {e}", p.display())));
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Exit {
    pub code: Option<i32>,
    pub ok: bool,
}

fn tool() -> &'static str {
    static T: OnceLock<String> = OnceLock::new();
    T.get_or_init(|| std::env::var("VH_CLI").unwrap_or_else(|_| broken("VH_CLI is not set")))
}

fn wait(mut c: Command) -> Result<Exit, String> {
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    wait_as(c)
}

fn wait_as(mut c: Command) -> Result<Exit, String> {
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => broken(&format!("the tool could not be started: {e}")),
    };
    let end = Instant::now() + Duration::from_secs(60);
    let mut nap = 100;
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => return Ok(Exit { code: s.code(), ok: s.success() }),
            Ok(None) => {}
            Err(e) => broken(&format!("waiting for the tool: {e}")),
        }
        if Instant::now() > end {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("the tool did not end within 60 s".into());
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(5000);
    }
}

fn run<S: AsRef<std::ffi::OsStr>>(cwd: &Path, threads: u8, args: &[S]) -> Result<Exit, String> {
    let mut c = Command::new(tool());
    c.args(args).current_dir(cwd).env("RAYON_NUM_THREADS", threads.to_string()).env_remove("RUST_BACKTRACE");
    wait(c)
}

const PROFILES: [&str; 3] = ["speed", "balanced", "quality"];

/// The tool's arguments for the given format and parameters.
fn param_args(f: u8, p: &P) -> Vec<String> {
    let mut a = vec!["-f".to_string(), format!("bc{f}"), "-p".into(), PROFILES[p.alg as usize].into()];
    for k in 0..3 {
        a.push("-w".into());
        a.push(format!("{}", f32::from_bits(p.w.0[k])));
    }
    if p.flag {
        a.push("--weigh-colour-by-alpha".into());
    }
    a
}

fn lib_encode(f: u8, p: P, rgba: &[u8], w: usize, h: usize) -> Vec<u8> {
    let n = ((w + 3) / 4) * ((h + 3) / 4) * block_size(f);
    let mut o = vec![0u8; n];
    fmt(f).compress(rgba, w, h, p.get(), &mut o);
    o
}

fn lib_decode(f: u8, data: &[u8], w: usize, h: usize) -> Vec<u8> {
    let mut o = vec![0u8; 4 * w * h];
    fmt(f).decompress(data, w, h, &mut o);
    o
}

const DXGI: [u32; 5] = [72, 75, 78, 80, 83];

/// Size, format and payload of a file the tool wrote.
fn expect_dds(file: &[u8], f: u8, w: usize, h: usize, payload: &[u8]) -> Result<(), String> {
    let d = parse_dds(file)?;
    ensure!((d.w as usize, d.h as usize) == (w, h), "DDS says {}x{}, the image is {w}x{h}", d.w, d.h);
    ensure!(d.dx10[0] == DXGI[f as usize - 1], "DXGI format {} for BC{f}", d.dx10[0]);
    ensure!(d.payload.len() == payload.len(), "{} bytes of payload, {} expected", d.payload.len(), payload.len());
    if d.payload != payload {
        let at = (0..payload.len()).find(|&i| d.payload[i] != payload[i]).unwrap();
        let bs = block_size(f);
        let b = at / bs;
        let bw = (w + 3) / 4;
        return Err(format!(
            "BC{f} {w}x{h}: block ({},{}) is {:02x?}, the library's encoding of the pixels is {:02x?}",
            b % bw, b / bw, &d.payload[b * bs..(b + 1) * bs], &payload[b * bs..(b + 1) * bs]
        ));
    }
    Ok(())
}

fn expect_png(file: &[u8], w: usize, h: usize, rgba: &[u8]) -> Result<(), String> {
    let (pw, ph, px) = decode_plain_png(file)?;
    ensure!((pw, ph) == (w, h), "PNG is {pw}x{ph}, the DDS header says {w}x{h}");
    if px != rgba {
        let i = (0..rgba.len()).find(|&i| px.get(i) != rgba.get(i)).unwrap() / 4;
        return Err(format!("pixel ({},{}) is {:?}, expected {:?}", i % w, i / w, &px[4 * i..4 * i + 4], &rgba[4 * i..4 * i + 4]));
    }
    Ok(())
}

/// An 8-bit RGBA PNG, complete up to its end chunk.
fn decode_plain_png(file: &[u8]) -> Result<(usize, usize, Vec<u8>), String> {
    ensure!(file.len() > 57 && file[file.len() - 12..file.len() - 4] == *b"\0\0\0\0IEND", "PNG of {} bytes does not end with its IEND chunk", file.len());
    let d = png::Decoder::new(file);
    let mut r = d.read_info().map_err(|e| format!("output is not a PNG: {e}"))?;
    let (ct, bd) = (r.info().color_type, r.info().bit_depth);
    ensure!(ct == png::ColorType::Rgba && bd == png::BitDepth::Eight, "PNG has colour type {ct:?}, depth {bd:?}");
    let mut buf = vec![0; r.output_buffer_size()];
    let i = r.next_frame(&mut buf).map_err(|e| format!("output PNG is damaged: {e}"))?;
    buf.truncate(i.buffer_size());
    Ok((i.width as usize, i.height as usize, buf))
}

fn small() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        6 => (1usize..=20, 1usize..=20),
        2 => (1usize..=70, 1usize..=40),
        1 => (1usize..=5, 1usize..=150),
        1 => (1usize..=150, 1usize..=5),
    ]
    .boxed()
}

fn threads() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(1u8), 1 => 2u8..=4].boxed()
}

fn cli_params() -> BoxedStrategy<P> {
    params(weights_pos())
}

fn ext_case(e: &str, bits: u8) -> String {
    e.chars().enumerate().map(|(i, c)| if bits >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect()
}

// ------------------------------------------------------------------ K01

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PngCase {
    pub img: Png,
    pub f: u8,
    pub p: P,
    pub ext: u8,
    pub threads: u8,
}

const KINDS: [(u8, u8); 15] = [
    (0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16),
];

fn png_img(d: BoxedStrategy<(usize, usize)>) -> BoxedStrategy<Png> {
    (
        (d, 0usize..15, any::<bool>(), 0u8..=5, any::<bool>()),
        (any::<u64>(), 0u8..4, select(vec![1usize << 20, 8192, 100, 7, 1]), any::<bool>(), prop_oneof![2 => 0u16..16, 1 => any::<u16>()]),
    )
        .prop_map(|(((w, h), k, interlaced, filter, trns), (seed, kind, idat, stored, anc))| Png {
            w, h, ct: KINDS[k].0, depth: KINDS[k].1, interlaced, filter, trns, seed, kind, idat, stored, anc,
        })
        .boxed()
}

fn compress_input(name: &str, bytes: &[u8], f: u8, p: &P, threads: u8) -> Result<(Exit, Option<Vec<u8>>), String> {
    let s = Scratch::new();
    s.put(name, bytes);
    let mut a = vec!["compress".to_string()];
    a.extend(param_args(f, p));
    a.extend(["-o".into(), "out.dds".into(), name.to_string()]);
    let e = run(&s.0, threads, &a)?;
    Ok((e, std::fs::read(s.path("out.dds")).ok()))
}

fn k01_check(c: &PngCase) -> CheckResult {
    let name = format!("in.{}", ext_case("png", c.ext));
    let (e, out) = compress_input(&name, &c.img.bytes(), c.f, &c.p, c.threads)?;
    ensure!(e.ok, "a valid PNG (type {}, depth {}) is refused with status {:?}", c.img.ct, c.img.depth, e.code);
    let rgba = c.img.rgba();
    let out = out.ok_or("status 0 but no output file")?;
    expect_dds(&out, c.f, c.img.w, c.img.h, &lib_encode(c.f, c.p, &rgba, c.img.w, c.img.h))
        .map_err(|m| format!("PNG type {} depth {} trns {} interlaced {}: {m}", c.img.ct, c.img.depth, c.img.trns, c.img.interlaced))?;
    let i = &c.img;
    Ok(Info::new(rgba.chunks(4).any(|p| p != &rgba[..4]))
        .label(i.ct == 0, "gray")
        .label(i.ct == 2, "rgb")
        .label(i.ct == 3, "palette")
        .label(i.ct == 4, "gray and alpha")
        .label(i.ct == 6, "rgba")
        .label(i.depth < 8, "sub-byte samples")
        .label(i.depth == 16, "16-bit samples")
        .label(i.interlaced, "interlaced")
        .label(i.trns && i.ct <= 3, "transparency chunk")
        .label(i.anc & 768 != 0, "animated")
        .label(i.anc & 8192 != 0, "bytes after the end")
        .label(i.w * i.h > 20_000, "large")
        .label(rgba.chunks(4).any(|p| p[3] == 0) && i.trns && i.ct <= 2, "transparency key hit"))
}

fn k01() -> Facets {
    vec![
        Box::new(SweepFacet::<PngCase> {
            name: "kinds",
            rule: "all 15 colour type and depth pairs x interlacing x transparency chunk x BC format x content kind; non-trivial: more than one colour",
            count: |c| if c.tier == Tier::Quick { 15 * 2 * 2 * 5 * 4 } else { 15 * 2 * 2 * 5 * 4 * 10 },
            exhaustive: true,
            case: |i, ctx| {
                let s = mix(i, 31, ctx.seed);
                let (k, i) = (i % 15, i / 15);
                let (il, i) = (i % 2, i / 2);
                let (tr, i) = (i % 2, i / 2);
                let (f, i) = (i % 5, i / 5);
                PngCase {
                    img: Png {
                        w: 1 + (s % 19) as usize,
                        h: 1 + (s >> 8) as usize % 19,
                        ct: KINDS[k as usize].0,
                        depth: KINDS[k as usize].1,
                        interlaced: il == 1,
                        filter: (s >> 16) as u8 % 6,
                        trns: tr == 1,
                        seed: s,
                        kind: (i % 4) as u8,
                        idat: [1 << 20, 60][(s >> 24) as usize % 2],
                        stored: s >> 25 & 1 == 1,
                        anc: (s >> 32) as u16 & if s >> 46 & 1 == 1 { 0x3FFF } else { 15 },
                    },
                    f: f as u8 + 1,
                    p: P { alg: (s >> 40) as u8 % 3, w: W3::new(texpresso::COLOUR_WEIGHTS_PERCEPTUAL), flag: s >> 45 & 1 == 1 },
                    ext: (s >> 48) as u8 & 7,
                    threads: 1,
                }
            },
            check: k01_check,
        }),
        Box::new(PropFacet::<PngCase> {
            name: "files",
            rule: "random PNG files (kind, size, filters, IDAT split, palettes, transparency, ancillary chunks, letter case of the name) and parameters, payload compared with the library's encoding of the independently computed pixels; non-trivial: more than one colour",
            quick: 3000,
            thorough: 120_000,
            shrink_iters: 400,
            strat: || {
                (png_img(small()), any_fmt(), cli_params(), 0u8..8, threads())
                    .prop_map(|(img, f, p, ext, threads)| PngCase { img, f, p, ext, threads })
                    .boxed()
            },
            check: k01_check,
        }),
        Box::new(PropFacet::<PngCase> {
            name: "large",
            rule: "as above, 100x100 to 2300x2300 and up to 70000 pixels long, range fit; non-trivial: more than one colour",
            quick: 60,
            thorough: 2000,
            shrink_iters: 100,
            strat: || {
                let d = prop_oneof![3 => (100usize..400, 100usize..400), 1 => (800usize..2300, 800usize..2300), 3 => (2000usize..9000, 1usize..6), 3 => (1usize..6, 2000usize..9000), 3 => (65530usize..70_000, 1usize..6), 3 => (1usize..6, 65530usize..70_000)].boxed();
                (png_img(d), any_fmt(), cli_params(), 0u8..8, threads())
                    .prop_map(|(img, f, p, ext, threads)| PngCase { img, f, p: P { alg: 0, ..p }, ext, threads })
                    .boxed()
            },
            check: k01_check,
        }),
    ]
}

// ------------------------------------------------------------------ K02

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct JpegCase {
    pub img: Jpeg,
    pub f: u8,
    pub p: P,
    pub long: bool,
    pub ext: u8,
    pub threads: u8,
}

fn jpeg_img(comps: BoxedStrategy<u8>) -> BoxedStrategy<Jpeg> {
    let more = (prop_oneof![3 => Just(0u8), 2 => 1u8..4], prop_oneof![2 => Just(0u8), 2 => 0u8..32]);
    (prop_oneof![12 => small(), 1 => (1usize..200, 1usize..200).boxed()], comps, 1u8..=2, 1u8..=2, select(vec![1u8, 2, 8, 40]), prop_oneof![2 => Just(0u16), 1 => 1u16..6], 0u8..3, any::<u64>(), 0u8..3, more)
        .prop_map(|((w, h), comps, hs, vs, q, restart, app, seed, kind, (mode, extra))| Jpeg { w, h, comps, hs, vs, q, restart, app, seed, kind, mode, extra })
        .boxed()
}

/// The picture as the decoder crate gives it, as RGBA.
fn decode_jpeg(b: &[u8]) -> Result<(usize, usize, Vec<u8>), String> {
    decode_jpeg_up_to(b, 1 << 24)
}

fn decode_jpeg_up_to(b: &[u8], limit: usize) -> Result<(usize, usize, Vec<u8>), String> {
    let mut d = jpeg_decoder::Decoder::new(b);
    d.read_info().map_err(|e| e.to_string())?;
    let i = d.info().ok_or("no info")?;
    if i.width as usize * i.height as usize > limit {
        return Err("too large for this check".into());
    }
    let px = d.decode().map_err(|e| e.to_string())?;
    let i = d.info().unwrap_or(i);
    let rgba = match i.pixel_format {
        jpeg_decoder::PixelFormat::L8 => px.iter().flat_map(|&l| [l, l, l, 255]).collect(),
        jpeg_decoder::PixelFormat::RGB24 => px.chunks(3).flat_map(|p| [p[0], p[1], p[2], 255]).collect(),
        x => return Err(format!("pixel format {x:?}")),
    };
    Ok((i.width as usize, i.height as usize, rgba))
}

fn k02_check(c: &JpegCase) -> CheckResult {
    let bytes = c.img.bytes();
    let (w, h, rgba) = decode_jpeg(&bytes).map_err(|e| format!("HARNESS: own JPEG not accepted: {e}"))?;
    ensure!((w, h) == (c.img.w, c.img.h), "HARNESS: own JPEG has the wrong size");
    if c.img.mode > 0 {
        let plain = decode_jpeg(&Jpeg { mode: 0, ..c.img.clone() }.bytes()).map_err(|e| format!("HARNESS: own JPEG not accepted: {e}"))?;
        ensure!(plain.2 == rgba, "HARNESS: the picture depends on the scans of the JPEG");
    }
    let name = format!("in.{}", ext_case(if c.long { "jpeg" } else { "jpg" }, c.ext));
    let (e, out) = compress_input(&name, &bytes, c.f, &c.p, c.threads)?;
    ensure!(e.ok, "a valid JPEG named {name} is refused with status {:?}", e.code);
    let out = out.ok_or("status 0 but no output file")?;
    expect_dds(&out, c.f, w, h, &lib_encode(c.f, c.p, &rgba, w, h)).map_err(|m| format!("JPEG with {} components: {m}", c.img.comps))?;
    Ok(Info::new(rgba.chunks(4).any(|p| p != &rgba[..4]))
        .label(c.img.comps == 1, "gray")
        .label(c.img.comps == 3 && !c.img.stored_rgb(), "YCbCr")
        .label(c.img.stored_rgb(), "stored RGB")
        .label(c.img.comps == 3 && (c.img.hs, c.img.vs) != (1, 1), "subsampled")
        .label(c.img.restart > 0, "restart markers")
        .label(c.img.mode == 1, "one scan per component")
        .label(c.img.mode == 2, "progressive, bands")
        .label(c.img.mode == 3, "progressive, bands and bits")
        .label(c.img.extra & 1 != 0, "EXIF rotation")
        .label(c.ext != 0, "upper-case letters in the extension")
        .label(c.long, "extension jpeg"))
}

fn k02() -> Facets {
    vec![Box::new(PropFacet::<JpegCase> {
        name: "files",
        rule: "random baseline and progressive JPEG files (gray, YCbCr, stored RGB; sampling, scans, quantiser, restart markers, sizes, extension spelling) and parameters; non-trivial: more than one colour",
        quick: 3000,
        thorough: 100_000,
        shrink_iters: 400,
        strat: || {
            (jpeg_img(prop_oneof![Just(1u8), Just(3u8)].boxed()), any_fmt(), cli_params(), any::<bool>(), 0u8..16, threads())
                .prop_map(|(img, f, p, long, ext, threads)| JpegCase { img, f, p, long, ext, threads })
                .boxed()
        },
        check: k02_check,
    }),
    Box::new(PropFacet::<JpegCase> {
        name: "large",
        rule: "as above, 200 to 2600 pixels wide and high or up to 65535 long, range fit; non-trivial: more than one colour",
        quick: 8,
        thorough: 400,
        shrink_iters: 60,
        strat: || {
            let d = prop_oneof![3 => (200usize..1000, 200usize..1000), 2 => (1000usize..2600, 600usize..2600), 1 => (20_000usize..=65_535, 1usize..20), 1 => (1usize..20, 20_000usize..=65_535)];
            (jpeg_img(prop_oneof![Just(1u8), Just(3u8)].boxed()), d, any_fmt(), cli_params(), any::<bool>(), 0u8..16)
                .prop_map(|(img, (w, h), f, p, long, ext)| JpegCase { img: Jpeg { w, h, ..img }, f, p: P { alg: 0, ..p }, long, ext, threads: 4 })
                .boxed()
        },
        check: k02_check,
    })]
}

// ------------------------------------------------------------------ K03

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DdsCase {
    pub file: DdsFile,
    pub f: u8,
    pub threads: u8,
}

fn need(f: u8, w: usize, h: usize) -> usize {
    ((w + 3) / 4) * ((h + 3) / 4) * block_size(f)
}

fn dds_ok(d: BoxedStrategy<(usize, usize)>) -> BoxedStrategy<DdsCase> {
    (d, any_fmt(), any::<bool>(), any::<u64>(), prop_oneof![2 => Just(0usize), 1 => 1usize..400], any::<bool>(), 0u32..8, threads())
        .prop_map(|((w, h), f, legacy, seed, surplus, odd, mips, threads)| {
            let legacy = legacy && f <= 3;
            DdsCase {
                file: DdsFile {
                    w: w as u32,
                    h: h as u32,
                    fourcc: if legacy { *[b"DXT1", b"DXT3", b"DXT5"][f as usize - 1] } else { *b"DX10" },
                    dx10: if legacy {
                        None
                    } else {
                        // arrays and cube maps only with further data
                        let (cube, n) = if odd && surplus > 0 { ((seed >> 8) as u32 & 4, 1 + (seed >> 9) as u32 % 6) } else { (0, 1) };
                        Some([DXGI[f as usize - 1], 3, cube, n, if odd { (seed % 5) as u32 } else { 0 }])
                    },
                    mips: if surplus > 0 { mips } else { 0 },
                    seed,
                    data: need(f, w, h) + surplus,
                    odd,
                },
                f,
                threads,
            }
        })
        .boxed()
}

fn k03_check(c: &DdsCase) -> CheckResult {
    let s = Scratch::new();
    s.put("in.dds", &c.file.bytes());
    let e = run(&s.0, c.threads, &["decompress", "-o", "out.png", "in.dds"])?;
    ensure!(e.ok, "a valid DDS file (BC{}, FourCC {:?}) is refused with status {:?}", c.f, c.file.fourcc.escape_ascii().to_string(), e.code);
    let out = std::fs::read(s.path("out.png")).map_err(|_| "status 0 but no output file")?;
    let (w, h) = (c.file.w as usize, c.file.h as usize);
    let want = lib_decode(c.f, &c.file.payload()[..need(c.f, w, h)], w, h);
    expect_png(&out, w, h, &want).map_err(|m| format!("BC{} FourCC {}: {m}", c.f, c.file.fourcc.escape_ascii()))?;
    Ok(Info::new(w * h > 1)
        .label(c.file.dx10.is_none(), "legacy header")
        .label(c.file.dx10.is_some(), "DX10 header")
        .label(c.file.data > need(c.f, w, h), "further data")
        .label(c.f >= 4, "BC4 or BC5"))
}

fn k03() -> Facets {
    vec![
        Box::new(PropFacet::<DdsCase> {
            name: "files",
            rule: "random DDS files (DX10 and legacy headers, sizes, block data, surplus data, odd values in fields without meaning); non-trivial: more than one pixel",
            quick: 4000,
            thorough: 150_000,
            shrink_iters: 400,
            strat: || dds_ok(small()),
            check: k03_check,
        }),
        Box::new(PropFacet::<DdsCase> {
            name: "large",
            rule: "as above, up to 3000x3000 and 140000 pixels long",
            quick: 60,
            thorough: 1500,
            shrink_iters: 100,
            strat: || dds_ok(prop_oneof![3 => (200usize..600, 200usize..600), 1 => (800usize..3000, 800usize..3000), 3 => (2000usize..9000, 1usize..6), 3 => (1usize..6, 2000usize..9000), 3 => (65530usize..140_000, 1usize..6), 3 => (1usize..6, 65530usize..140_000)].boxed()),
            check: k03_check,
        }),
    ]
}

// ------------------------------------------------------------------ K04

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct OptCase {
    pub img: Img,
    pub f: u8,
    /// None: option left out
    pub alg: Option<u8>,
    pub w: Option<W3>,
    pub flag: bool,
    /// spelling of the options and their order
    pub style: u64,
    pub jpeg: bool,
}

fn rgba_png(rgba: &[u8], w: usize, h: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut e = png::Encoder::new(&mut o, w as u32, h as u32);
    e.set_color(png::ColorType::Rgba);
    e.set_depth(png::BitDepth::Eight);
    e.set_compression(png::Compression::Fast);
    let mut wr = e.write_header().unwrap();
    wr.write_image_data(rgba).unwrap();
    wr.finish().unwrap();
    o
}

fn opt(short: &str, long: &str, v: &str, style: u64) -> Vec<String> {
    match style % 4 {
        0 => vec![short.into(), v.into()],
        1 => vec![long.into(), v.into()],
        2 => vec![format!("{long}={v}")],
        _ => vec![format!("{short}{v}")],
    }
}

fn k04_check(c: &OptCase) -> CheckResult {
    let rgba = c.img.rgba();
    let (w, h) = (c.img.w, c.img.h);
    let mut groups: Vec<Vec<String>> = vec![];
    groups.push(opt("-f", "--format", &format!("bc{}", c.f), c.style));
    if let Some(a) = c.alg {
        groups.push(opt("-p", "--profile", PROFILES[a as usize], c.style >> 2));
    }
    if let Some(x) = c.w {
        let mut g = vec![];
        for k in 0..3 {
            let v = f32::from_bits(x.0[k]);
            let text = if c.style >> (50 + k) & 3 == 3 { format!("{v:e}") } else { format!("{v}") };
            // a separate value must not look like an option
            let style = c.style >> (4 + 2 * k) | if text.starts_with('-') { 2 } else { 0 };
            g.extend(opt("-w", "--weights", &text, style));
        }
        groups.push(g);
    }
    if c.flag {
        groups.push(vec!["--weigh-colour-by-alpha".into()]);
    }
    groups.push(vec!["in.png".into()]);
    groups.push(opt("-o", "--output", "out.dds", c.style >> 10));
    // order
    let mut s = c.style >> 16;
    for i in (1..groups.len()).rev() {
        groups.swap(i, s as usize % (i + 1));
        s /= 7;
    }
    let mut a = vec!["compress".to_string()];
    a.extend(groups.into_iter().flatten());
    let sc = Scratch::new();
    sc.put("in.png", &rgba_png(&rgba, w, h));
    let e = run(&sc.0, 1, &a)?;
    ensure!(e.ok, "{a:?} is refused with status {:?}", e.code);
    let out = std::fs::read(sc.path("out.dds")).map_err(|_| "status 0 but no output file")?;
    let per = W3::new([0.2126, 0.7152, 0.0722]);
    let p = P { alg: c.alg.unwrap_or(1), w: c.w.unwrap_or(per), flag: c.flag };
    let want = lib_encode(c.f, p, &rgba, w, h);
    expect_dds(&out, c.f, w, h, &want).map_err(|m| format!("{a:?}: {m}"))?;
    // which settings could have been told apart on this image
    let differs = |q: P| lib_encode(c.f, q, &rgba, w, h) != want;
    let alg = (0..3).filter(|&x| x != p.alg).all(|x| differs(P { alg: x, ..p }));
    let wt = differs(P { w: W3([p.w.0[1], p.w.0[0], p.w.0[2]]), ..p }) && differs(P { w: W3([p.w.0[0], p.w.0[2], p.w.0[1]]), ..p });
    let fl = differs(P { flag: !p.flag, ..p });
    Ok(Info::new(alg || wt || fl)
        .label(alg, "profile matters")
        .label(alg && c.alg.is_none(), "default profile matters")
        .label(wt, "order of weights matters")
        .label(wt && c.w.is_none(), "default weights matter")
        .label(c.w.is_some_and(|w| w.0.iter().any(|&b| f32::from_bits(b) <= 0.0)), "a weight of zero or less")
        .label(fl, "alpha weighting matters"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct BadOptCase {
    pub kind: u8,
    pub n: u8,
    pub word: String,
    pub f: u8,
    pub existing: bool,
}

fn k04_refused(c: &BadOptCase) -> CheckResult {
    let sc = Scratch::new();
    let rgba: Vec<u8> = (0..8 * 8 * 4).map(|i| (i * 7) as u8).collect();
    sc.put("in.png", &rgba_png(&rgba, 8, 8));
    let old = b"previous content";
    if c.existing {
        sc.put("out.dds", old);
    }
    let f = format!("bc{}", c.f);
    let mut a: Vec<String> = ["compress", "in.png", "-o", "out.dds"].iter().map(|s| s.to_string()).collect();
    let known = ["bc1", "bc2", "bc3", "bc4", "bc5"];
    match c.kind {
        // a number of weights other than none and three
        0 => {
            let n = if c.n == 3 || c.n == 0 { 6 } else { c.n };
            a.extend(["-f".into(), f]);
            for k in 0..n {
                a.extend(["-w".into(), format!("0.{k}1")]);
            }
        }
        1 => {
            if known.contains(&c.word.as_str()) {
                return Ok(Info::new(false));
            }
            a.push(format!("--format={}", c.word));
        }
        2 => {
            if PROFILES.contains(&c.word.as_str()) {
                return Ok(Info::new(false));
            }
            a.extend(["-f".into(), f, format!("--profile={}", c.word)]);
        }
        3 => {}
        // a weight that is no number
        _ => {
            if c.word.parse::<f32>().is_ok() {
                return Ok(Info::new(false));
            }
            a.extend(["-f".into(), f, "-w".into(), "0.3".into(), format!("--weights={}", c.word), "-w".into(), "0.5".into()]);
        }
    }
    let e = run(&sc.0, 1, &a)?;
    ensure!(!e.ok, "{a:?} is accepted");
    let out = std::fs::read(sc.path("out.dds")).ok();
    ensure!(out.as_deref() == if c.existing { Some(&old[..]) } else { None }, "{a:?} is refused but the output file was touched");
    Ok(Info::new(true)
        .label(c.kind == 0, "wrong number of weights")
        .label(c.kind == 1, "unknown format")
        .label(c.kind == 2, "unknown profile")
        .label(c.kind == 3, "missing format")
        .label(c.kind == 4, "weight is no number"))
}

fn k04() -> Facets {
    vec![
        Box::new(PropFacet::<OptCase> {
            name: "options",
            rule: "images and options in random order and spelling, some left out; payload compared with the library's under the documented parameters; non-trivial: another profile, weight order or alpha weighting would have given other bytes",
            quick: 3000,
            thorough: 100_000,
            shrink_iters: 400,
            strat: || {
                let dims = prop_oneof![3 => (4usize..=24, 4usize..=24), 1 => (1usize..=8, 1usize..=8)].boxed();
                let w = prop_oneof![
                    1 => Just(None),
                    2 => [0u32..=40, 0u32..=40, 0u32..=40].prop_map(|k| Some(W3::new(k.map(|v| 0.1 + v as f32 * 0.0625)))),
                    1 => uniform3(prop_oneof![2 => Just(0.0f32), 2 => 0.0f32..=1.0, 1 => 0.0f32..=1000.0, 1 => -1.0f32..=0.0, 1 => Just(1.0f32), 1 => Just(255.0f32), 1 => Just(1e-6f32)])
                        .prop_map(|w| Some(W3::new(w))),
                    1 => Just(Some(W3::new([0.0; 3]))),
                ];
                (img_with(dims), any_fmt(), proptest::option::of(0u8..3), w, any::<bool>(), any::<u64>())
                    .prop_map(|(mut img, f, alg, w, flag, style)| {
                        // smooth content under alpha makes all parameters matter
                        if style % 3 != 0 {
                            img.alpha = 2;
                        }
                        OptCase { img, f, alg, w, flag, style, jpeg: false }
                    })
                    .boxed()
            },
            check: k04_check,
        }),
        Box::new(PropFacet::<BadOptCase> {
            name: "refused",
            rule: "wrong numbers of weights, unknown formats and profiles, missing format, weights that are no numbers, with and without an existing output file; non-trivial: all that are really invalid",
            quick: 1500,
            thorough: 30_000,
            shrink_iters: 400,
            strat: || {
                let word = prop_oneof![
                    select(vec!["bc", "bc0", "bc6", "bc7", "BC1 ", "dxt1", "fast", "slow", "best", "range", "cluster", "", "1e", "x", "--", "balance", "bc11", "medium"]).prop_map(str::to_string),
                    "[a-z0-9]{1,8}",
                ];
                (0u8..5, 0u8..9, word, 1u8..=5, any::<bool>())
                    .prop_map(|(kind, n, word, f, existing)| BadOptCase { kind, n, word, f, existing })
                    .boxed()
            },
            check: k04_refused,
        }),
    ]
}

// ------------------------------------------------------------------ K05

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Src {
    Png(Png),
    Jpeg(Jpeg),
    Dds(DdsFile),
}
impl Src {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Src::Png(x) => x.bytes(),
            Src::Jpeg(x) => x.bytes(),
            Src::Dds(x) => x.bytes(),
        }
    }
    fn ext(&self) -> &'static str {
        match self {
            Src::Png(_) => "png",
            Src::Jpeg(_) => "jpg",
            Src::Dds(_) => "dds",
        }
    }
}

/// Damage, positions being fractions of the file in 1/65536.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Damage {
    None,
    Truncate(u16),
    /// cut this many bytes from the end
    Cut(u8),
    Byte(u16, u8),
    /// a byte near the start, where the headers are
    Head(u8, u8),
    Bit(u16, u8),
    Zero(u16, u8),
    Remove(u16, u8),
    Insert(u16, u8, u8),
    Empty,
    Missing,
    Folder,
    /// no permission to read it
    Unreadable,
    /// a link to itself
    Loop,
    /// given under a name with another extension
    Rename(u8),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FaultCase {
    pub src: Src,
    pub dmg: Damage,
    pub f: u8,
    pub existing: bool,
    /// default output name instead of -o
    pub default_name: bool,
    pub threads: u8,
}

fn apply(b: &mut Vec<u8>, d: &Damage) {
    let n = b.len();
    let at = |p: u16| p as usize * n / 65536;
    match *d {
        Damage::Truncate(p) => b.truncate(at(p)),
        Damage::Cut(k) => b.truncate(n.saturating_sub(k as usize)),
        Damage::Byte(p, v) => b[at(p)] = v,
        Damage::Head(p, v) => {
            let p = (p as usize).min(n - 1);
            b[p] = v
        }
        Damage::Bit(p, k) => b[at(p)] ^= 1 << (k % 8),
        Damage::Zero(p, k) => {
            let a = at(p);
            let e = (a + k as usize + 1).min(n);
            b[a..e].fill(0);
        }
        Damage::Remove(p, k) => {
            let a = at(p);
            let e = (a + k as usize + 1).min(n);
            b.drain(a..e);
        }
        Damage::Insert(p, k, v) => {
            let a = at(p);
            b.splice(a..a, vec![v; k as usize + 1]);
        }
        Damage::Empty => b.clear(),
        _ => {}
    }
}

enum Verdict {
    /// the pixels and size of the picture, if the tool accepts the input
    Good(Vec<u8>, usize, usize),
    Bad(String),
    /// would be accepted, but this check will not follow (huge pictures)
    Skip,
}

fn decode_png_any(b: &[u8]) -> Verdict {
    let mut d = png::Decoder::new(b);
    d.set_transformations(png::Transformations::EXPAND | png::Transformations::STRIP_16);
    let mut r = match d.read_info() {
        Ok(r) => r,
        Err(e) => return Verdict::Bad(e.to_string()),
    };
    if r.info().width as u64 * r.info().height as u64 > 1 << 22 {
        return Verdict::Skip;
    }
    let mut buf = vec![0; r.output_buffer_size()];
    let i = match r.next_frame(&mut buf) {
        Ok(i) => i,
        Err(e) => return Verdict::Bad(e.to_string()),
    };
    buf.truncate(i.buffer_size());
    let rgba: Vec<u8> = match i.color_type {
        png::ColorType::Grayscale => buf.iter().flat_map(|&g| [g, g, g, 255]).collect(),
        png::ColorType::GrayscaleAlpha => buf.chunks(2).flat_map(|p| [p[0], p[0], p[0], p[1]]).collect(),
        png::ColorType::Rgb => buf.chunks(3).flat_map(|p| [p[0], p[1], p[2], 255]).collect(),
        png::ColorType::Rgba => buf,
        png::ColorType::Indexed => return Verdict::Bad("palette not expanded".into()),
    };
    Verdict::Good(rgba, i.width as usize, i.height as usize)
}

fn jpeg_size(b: &[u8]) -> Result<(usize, usize), String> {
    let mut d = jpeg_decoder::Decoder::new(b);
    d.read_info().map_err(|e| e.to_string())?;
    let i = d.info().ok_or("no info")?;
    Ok((i.width as usize, i.height as usize))
}

fn decode_dds_any(b: &[u8]) -> Verdict {
    let d = match ddsfile::Dds::read(b) {
        Ok(d) => d,
        Err(e) => return Verdict::Bad(e.to_string()),
    };
    let f = match &d.header10 {
        Some(h) => {
            if h.resource_dimension != ddsfile::D3D10ResourceDimension::Texture2D {
                return Verdict::Bad("not a 2D texture".into());
            }
            match DXGI.iter().position(|&x| x == h.dxgi_format as u32) {
                Some(k) => k as u8 + 1,
                None => return Verdict::Bad("unsupported DXGI format".into()),
            }
        }
        None => match d.header.spf.fourcc.as_ref().map(|x| x.0.to_le_bytes()) {
            Some(x) if &x == b"DXT1" => 1,
            Some(x) if &x == b"DXT3" => 2,
            Some(x) if &x == b"DXT5" => 3,
            _ => return Verdict::Bad("unsupported format".into()),
        },
    };
    let (w, h) = (d.header.width as usize, d.header.height as usize);
    if w == 0 || h == 0 {
        return Verdict::Bad("empty picture".into());
    }
    let bytes = w as u128 * h as u128 * 4;
    if w.div_ceil(4) as u128 * h.div_ceil(4) as u128 * block_size(f) as u128 > d.data.len() as u128 {
        return Verdict::Bad("too little data".into());
    }
    if bytes > 1 << 24 {
        return Verdict::Skip;
    }
    Verdict::Good(lib_decode(f, &d.data[..need(f, w, h)], w, h), w, h)
}

/// A path as text, without loss.
fn key(p: &Path) -> String {
    match p.to_str() {
        Some(s) => s.to_string(),
        None => format!("{p:?}"),
    }
}

fn snapshot(d: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn walk(base: &Path, d: &Path, m: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(d).unwrap().flatten() {
            let p = e.path();
            let n = key(p.strip_prefix(base).unwrap());
            // links are not followed: one may lead to a device that never ends
            let t = e.file_type().unwrap();
            if t.is_dir() {
                m.insert(n, None);
                walk(base, &p, m);
            } else if t.is_symlink() {
                m.insert(n, std::fs::read_link(&p).ok().map(|l| key(&l).into_bytes()));
            } else if t.is_file() {
                m.insert(n, std::fs::read(&p).ok());
            } else {
                m.insert(n, None);
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(d, d, &mut m);
    m
}

const OTHER_EXT: [&str; 10] = ["", "txt", "bmp", "jpe", "gif", "tga", "jpg2", "pngx", "dds", "webp"];

fn k05_check(c: &FaultCase) -> CheckResult {
    let decompress = matches!(c.src, Src::Dds(_));
    let mut b = c.src.bytes();
    apply(&mut b, &c.dmg);
    let mut name = format!("in.{}", c.src.ext());
    let mut refuse = None;
    match c.dmg {
        Damage::Missing => refuse = Some("missing file".to_string()),
        Damage::Folder => refuse = Some("a folder".into()),
        Damage::Unreadable if !root_user() => refuse = Some("no permission to read".into()),
        Damage::Loop => refuse = Some("a link to itself".into()),
        Damage::Rename(k) if !decompress => {
            let e = OTHER_EXT[k as usize % OTHER_EXT.len()];
            name = if e.is_empty() { "in".into() } else { format!("in.{e}") };
            refuse = Some("unsupported extension".into());
        }
        _ => {}
    }
    let verdict = match (&refuse, &c.src) {
        (Some(m), _) => Verdict::Bad(m.clone()),
        (None, Src::Png(_)) => decode_png_any(&b),
        (None, Src::Jpeg(_)) => match jpeg_size(&b) {
            Err(e) => Verdict::Bad(e),
            Ok((w, h)) if w * h > 1 << 22 => Verdict::Skip,
            // a decoder panic is a refusal as well
            Ok(_) => match guarded(|| decode_jpeg_up_to(&b, 1 << 22)) {
                Ok(Ok((w, h, px))) => Verdict::Good(px, w, h),
                Ok(Err(e)) | Err(e) => Verdict::Bad(e),
            },
        },
        (None, Src::Dds(_)) => decode_dds_any(&b),
    };
    if matches!(verdict, Verdict::Skip) {
        return Ok(Info::new(false).label(true, "not followed (huge picture)"));
    }
    let s = Scratch::new();
    match c.dmg {
        Damage::Missing => {}
        Damage::Folder => std::fs::create_dir(s.path(&name)).unwrap(),
        Damage::Loop => std::os::unix::fs::symlink(&name, s.path(&name)).unwrap(),
        _ => {
            s.put(&name, &b);
            if matches!(c.dmg, Damage::Unreadable) {
                std::fs::set_permissions(s.path(&name), std::fs::Permissions::from_mode(0)).unwrap();
            }
        }
    }
    let outname = match (c.default_name, decompress) {
        (false, true) => "out.png",
        (false, false) => "out.dds",
        (true, true) => "in.png",
        (true, false) => "in.dds",
    };
    if c.default_name && outname == name {
        return Ok(Info::new(false));
    }
    let old: Vec<u8> = (0..(c.f as usize * 3000)).map(|i| (i * 13) as u8).collect();
    if c.existing {
        s.put(outname, &old);
    }
    let mut a: Vec<String> = vec![];
    if decompress {
        a.push("decompress".into());
    } else {
        a.extend(["compress".into(), "-f".into(), format!("bc{}", c.f)]);
    }
    if !c.default_name {
        a.extend(["-o".into(), outname.into()]);
    }
    a.push(name.clone());
    let before = snapshot(&s.0);
    let e = run(&s.0, c.threads, &a)?;
    let mut after = snapshot(&s.0);
    let out = after.get(outname).cloned();
    if e.ok {
        let out = out.flatten().ok_or("status 0 but no output file")?;
        match &verdict {
            Verdict::Bad(m) => return Err(format!("status 0 for an input that cannot be decoded ({m})")),
            Verdict::Good(px, w, h) => {
                if decompress {
                    expect_png(&out, *w, *h, px).map_err(|m| format!("status 0 but the output is wrong: {m}"))?
                } else {
                    let p = P { alg: 1, w: W3::new([0.2126, 0.7152, 0.0722]), flag: false };
                    expect_dds(&out, c.f, *w, *h, &lib_encode(c.f, p, px, *w, *h)).map_err(|m| format!("status 0 but the output is wrong: {m}"))?
                }
            }
            Verdict::Skip => {}
        }
        after.remove(outname);
        let mut b = before.clone();
        b.remove(outname);
        ensure!(after == b, "other files changed");
    } else {
        ensure!(
            after == before,
            "status {:?} but the output file {}",
            e.code,
            match (c.existing, &out) {
                (true, None) => "was removed".to_string(),
                (true, Some(o)) => format!("was changed ({} bytes, before {})", o.as_ref().map_or(0, |x| x.len()), old.len()),
                (false, Some(o)) => format!("was created ({} bytes)", o.as_ref().map_or(0, |x| x.len())),
                (false, None) => "is absent, other files changed".to_string(),
            }
        );
        if let (Damage::None, Verdict::Good(..)) = (&c.dmg, &verdict) {
            return Err(format!("an undamaged, supported input is refused with status {:?}", e.code));
        }
    }
    let bad = matches!(verdict, Verdict::Bad(_));
    Ok(Info::new(bad || !e.ok)
        .label(bad, "input cannot be decoded")
        .label(e.ok, "accepted")
        .label(!e.ok && c.existing, "refused, output existed")
        .label(!e.ok && !c.existing, "refused, output absent")
        .label(!e.ok && decompress, "refused DDS")
        .label(!e.ok && matches!(c.src, Src::Png(_)), "refused PNG")
        .label(!e.ok && matches!(c.src, Src::Jpeg(_)), "refused JPEG"))
}

fn damage() -> BoxedStrategy<Damage> {
    prop_oneof![
        4 => any::<u16>().prop_map(Damage::Truncate),
        3 => (1u8..40).prop_map(Damage::Cut),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(p, v)| Damage::Byte(p, v)),
        5 => (0u8..150, prop_oneof![Just(0u8), Just(1), Just(255), any::<u8>()]).prop_map(|(p, v)| Damage::Head(p, v)),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(p, v)| Damage::Bit(p, v)),
        2 => (any::<u16>(), 0u8..20).prop_map(|(p, v)| Damage::Zero(p, v)),
        2 => (any::<u16>(), 0u8..20).prop_map(|(p, v)| Damage::Remove(p, v)),
        2 => (any::<u16>(), 0u8..20, any::<u8>()).prop_map(|(p, k, v)| Damage::Insert(p, k, v)),
        1 => Just(Damage::Empty),
        1 => Just(Damage::Missing),
        1 => Just(Damage::Folder),
        1 => Just(Damage::Unreadable),
        1 => Just(Damage::Loop),
        1 => any::<u8>().prop_map(Damage::Rename),
        1 => Just(Damage::None),
    ]
    .boxed()
}

fn tiny() -> BoxedStrategy<(usize, usize)> {
    (1usize..=14, 1usize..=14).boxed()
}

/// Files of kinds the tool must refuse, otherwise intact.
fn unsupported() -> BoxedStrategy<Src> {
    let dds = (dds_ok(tiny()), 0u8..7, any::<u64>()).prop_map(|(c, k, r)| {
        let mut d = c.file;
        let pick = |v: &[u32]| v[(r % v.len() as u64) as usize];
        let f10 = DXGI[(r >> 32) as usize % 5];
        match k {
            // formats of the same family, and others
            0 => {
                d.fourcc = *b"DX10";
                d.dx10 = Some([pick(&[70, 71, 73, 74, 76, 77, 79, 81, 82, 84, 94, 95, 96, 97, 98, 99, 28, 29, 2, 61, 87]), 3, 0, 1, 0]);
                d.data += 4096;
            }
            1 => {
                d.fourcc = *b"DX10";
                d.dx10 = Some([f10, pick(&[2, 4]), 0, 1, 0]);
                d.data += 4096;
            }
            2 => {
                let v: [&[u8; 4]; 9] = [b"DXT2", b"DXT4", b"ATI1", b"ATI2", b"BC4U", b"BC5U", b"BC4S", b"dxt1", b"DXT6"];
                d.fourcc = *v[(r % 9) as usize];
                d.dx10 = None;
                d.data += 4096;
            }
            // one block or one byte short
            3 => d.data = need(c.f, d.w as usize, d.h as usize) - 1,
            4 => d.data = need(c.f, d.w as usize, d.h as usize) - block_size(c.f),
            5 => {
                // the data of a smaller picture
                if r & 1 == 0 {
                    d.h += 4
                } else {
                    d.w += 4
                }
                d.data = need(c.f, d.w as usize, d.h as usize) - 1 - (r >> 8) as usize % 8;
            }
            _ => match r % 8 {
                0 => d.h = 0,
                1 => d.w = 0,
                2 => (d.w, d.h) = (0, 0),
                3 => (d.w, d.h) = (1 << 31, 1 << 31),
                4 => (d.w, d.h) = [(u32::MAX, 1), (1, u32::MAX), (u32::MAX, u32::MAX)][(r >> 8) as usize % 3],
                // far more than there is data for
                _ => {
                    if r >> 8 & 1 == 0 {
                        d.h |= (1 << 20) << (r >> 9 & 7)
                    } else {
                        d.w |= (1 << 17) << (r >> 9 & 7)
                    }
                }
            },
        }
        Src::Dds(d)
    });
    prop_oneof![3 => dds, 1 => jpeg_img(Just(4u8).boxed()).prop_map(|mut j| { if j.app == 1 { j.app = 2; } Src::Jpeg(j) })].boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct WriteFault {
    pub img: Img,
    pub f: u8,
    pub decompress: bool,
    /// 0: full device, 1: file size limit, 2: missing folder, 3: path is a folder
    pub kind: u8,
    /// limit in 512-byte units
    pub limit: u8,
    pub existing: bool,
}

/// Permissions mean nothing to root.
fn root_user() -> bool {
    std::fs::metadata("/proc/self").map_or(true, |m| m.uid() == 0)
}

/// Is there a device that is always full?
fn full_device() -> bool {
    std::fs::metadata("/dev/full").is_ok_and(|m| m.file_type().is_char_device() && m.rdev() == 1 << 8 | 7)
}

fn k05_write(c: &WriteFault) -> CheckResult {
    let c = &match c.kind {
        0 if !full_device() => WriteFault { kind: 1, limit: 0, ..c.clone() },
        4 if root_user() => WriteFault { kind: 2, ..c.clone() },
        _ => c.clone(),
    };
    let s = Scratch::new();
    let (w, h) = (c.img.w, c.img.h);
    let rgba = c.img.rgba();
    let p = P { alg: 0, w: W3::new([0.2126, 0.7152, 0.0722]), flag: false };
    let payload = lib_encode(c.f, p, &rgba, w, h);
    let (name, args): (&str, Vec<String>) = if c.decompress {
        let d = DdsFile { w: w as u32, h: h as u32, fourcc: *b"DX10", dx10: Some([DXGI[c.f as usize - 1], 3, 0, 1, 0]), mips: 0, seed: 0, data: payload.len(), odd: false };
        let mut b = d.header();
        b.extend_from_slice(&payload);
        s.put("in.dds", &b);
        ("in.dds", vec!["decompress".into()])
    } else {
        s.put("in.png", &rgba_png(&rgba, w, h));
        ("in.png", vec!["compress".into(), "-f".into(), format!("bc{}", c.f), "-p".into(), "speed".into()])
    };
    let out = match c.kind {
        0 => {
            // a link, so that a tool that removes or replaces the output reaches only the scratch folder
            std::os::unix::fs::symlink("/dev/full", s.path("out")).unwrap();
            s.path("out")
        }
        2 => s.path("missing/out"),
        3 => {
            std::fs::create_dir(s.path("out")).unwrap();
            s.path("out")
        }
        4 => {
            let d = s.path("ro");
            std::fs::create_dir(&d).unwrap();
            if c.existing {
                s.put("ro/out", &vec![7u8; 2000]);
                std::fs::set_permissions(d.join("out"), std::fs::Permissions::from_mode(0o444)).unwrap();
            }
            std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o555)).unwrap();
            d.join("out")
        }
        _ => {
            if c.existing {
                s.put("out", &vec![7u8; 20000]);
            }
            s.path("out")
        }
    };
    let mut cmd;
    if c.kind == 1 {
        cmd = Command::new("sh");
        cmd.arg("-c").arg("trap '' XFSZ; ulimit -f \"$1\"; shift; exec \"$@\"").arg("sh").arg(c.limit.to_string()).arg(tool());
    } else {
        cmd = Command::new(tool());
    }
    cmd.args(&args).arg("-o").arg(&out).arg(name).current_dir(&s.0).env("RAYON_NUM_THREADS", "1").env_remove("RUST_BACKTRACE");
    let before = snapshot(&s.0);
    let e = wait(cmd);
    if c.kind == 4 {
        std::fs::set_permissions(s.path("ro"), std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    let e = e?;
    let what = ["a full device", "a file size limit", "a missing folder", "a folder as output", "a protected folder"][c.kind as usize];
    if e.ok {
        ensure!(c.kind < 2, "status 0 although the output cannot be written: {what}");
        let there = std::fs::metadata(&out).map_err(|_| "status 0 but no output file")?;
        ensure!(there.is_file(), "status 0 although the output cannot be written: {what}");
        let o = std::fs::read(&out).map_err(|_| "status 0 but no output file")?;
        let r = if c.decompress { expect_png(&o, w, h, &lib_decode(c.f, &payload, w, h)) } else { expect_dds(&o, c.f, w, h, &payload) };
        r.map_err(|m| format!("status 0 under {what} of {} bytes, but the output of {} bytes is not complete: {m}", c.limit as usize * 512, o.len()))?;
    } else if c.kind >= 2 {
        ensure!(snapshot(&s.0) == before, "{what}: refused, but files changed");
    }
    Ok(Info::new(!e.ok)
        .label(c.kind == 0, "full device")
        .label(c.kind == 1 && !e.ok, "file size limit hit")
        .label(c.kind == 1 && e.ok, "file size limit not hit")
        .label(c.kind == 2, "missing folder")
        .label(c.kind == 3, "path is a folder")
        .label(c.kind == 4, "protected folder")
        .label(c.decompress, "decompress"))
}

fn k05() -> Facets {
    vec![
        Box::new(PropFacet::<FaultCase> {
            name: "damage",
            rule: "valid PNG, JPEG and DDS files truncated, altered, emptied, missing, unreadable, misnamed; the output path must be untouched unless the status is zero, and then the file must be what the input decodes to; non-trivial: refused, or not decodable",
            quick: 4000,
            thorough: 200_000,
            shrink_iters: 400,
            strat: || {
                let src = prop_oneof![
                    2 => png_img(tiny()).prop_map(Src::Png),
                    2 => jpeg_img(prop_oneof![Just(1u8), Just(3u8)].boxed()).prop_map(|mut j| { j.w = 1 + j.w % 20; j.h = 1 + j.h % 20; Src::Jpeg(j) }),
                    3 => dds_ok(tiny()).prop_map(|c| Src::Dds(c.file)),
                ];
                (src, damage(), 1u8..=5, any::<bool>(), any::<bool>(), threads())
                    .prop_map(|(src, dmg, f, existing, default_name, threads)| FaultCase { src, dmg, f, existing, default_name, threads })
                    .boxed()
            },
            check: k05_check,
        }),
        Box::new(PropFacet::<FaultCase> {
            name: "unsupported",
            rule: "intact files the tool does not support (DXGI formats, dimensions, FourCCs, CMYK JPEG) or with too little data or impossible sizes; non-trivial: all",
            quick: 2500,
            thorough: 100_000,
            shrink_iters: 400,
            strat: || {
                (unsupported(), 1u8..=5, any::<bool>(), any::<bool>(), threads())
                    .prop_map(|(src, f, existing, default_name, threads)| FaultCase { src, dmg: Damage::None, f, existing, default_name, threads })
                    .boxed()
            },
            check: k05_check,
        }),
        Box::new(PropFacet::<WriteFault> {
            name: "write-faults",
            rule: "writing the output fails at a random point (full device, file size limit, missing or protected folder, folder as output): status zero only if the file is complete; non-trivial: the write failed",
            quick: 2500,
            thorough: 60_000,
            shrink_iters: 400,
            strat: || {
                let d = prop_oneof![3 => (1usize..=40, 1usize..=40), 2 => (40usize..=120, 40usize..=120), 1 => (1usize..=4, 1usize..=4)].boxed();
                (img_with(d), 1u8..=5, any::<bool>(), select(vec![0u8, 1, 1, 1, 2, 3, 4]), prop_oneof![0u8..4, 0u8..80], any::<bool>())
                    .prop_map(|(img, f, decompress, kind, limit, existing)| WriteFault { img, f, decompress, kind, limit, existing })
                    .boxed()
            },
            check: k05_write,
        }),
    ]
}

// ------------------------------------------------------------------ K06

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HeadCase {
    pub img: Img,
    pub f: u8,
    pub p: P,
    pub jpeg: bool,
    pub threads: u8,
}

fn k06_check(c: &HeadCase) -> CheckResult {
    let (w, h) = (c.img.w, c.img.h);
    let (name, bytes) = if c.jpeg {
        let j = Jpeg { w, h, comps: if c.img.seed & 1 == 0 { 1 } else { 3 }, hs: 1, vs: 1, q: 8, restart: 0, app: 1, seed: c.img.seed, kind: 2, mode: c.img.seed as u8 >> 1 & 3, extra: 0 };
        ("in.jpg", j.bytes())
    } else {
        ("in.png", rgba_png(&c.img.rgba(), w, h))
    };
    let (e, out) = compress_input(name, &bytes, c.f, &c.p, c.threads)?;
    ensure!(e.ok, "a valid {w}x{h} image is refused with status {:?}", e.code);
    let out = out.ok_or("status 0 but no output file")?;
    let d = parse_dds(&out)?;
    let n = need(c.f, w, h);
    ensure!((d.w as usize, d.h as usize) == (w, h), "header says {}x{}, the image is {w}x{h}", d.w, d.h);
    ensure!(d.flags & 0x81007 == 0x81007, "header flags {:#x} lack caps, size, pixel format or linear size", d.flags);
    ensure!(d.linear as usize == n, "linear size {} for {n} bytes of payload", d.linear);
    ensure!(d.payload.len() == n, "{} bytes after the header, BC{} {w}x{h} takes {n}", d.payload.len(), c.f);
    ensure!(d.spf[1] & 4 == 4, "pixel format flags {:#x} do not announce a FourCC", d.spf[1]);
    ensure!(d.caps[0] & 0x1000 != 0 && d.caps[1] == 0, "caps {:#x} {:#x} are not those of a plain texture", d.caps[0], d.caps[1]);
    ensure!(d.dx10[0] == DXGI[c.f as usize - 1], "DXGI format {} for BC{}", d.dx10[0], c.f);
    ensure!(d.dx10[1] == 3, "resource dimension {} is not a 2D texture", d.dx10[1]);
    ensure!(d.dx10[2] & 4 == 0, "marked as a cube map");
    ensure!(d.dx10[3] == 1, "array size {}", d.dx10[3]);
    // transparent BC1 pixels are black
    let alpha = if c.f == 1 { 2 } else { 1 };
    ensure!(d.dx10[4] & 7 == alpha, "alpha mode {} for BC{}, {alpha} expected", d.dx10[4] & 7, c.f);
    Ok(Info::new(w % 4 != 0 || h % 4 != 0 || w != h).label(c.jpeg, "from JPEG").label(!c.jpeg, "from PNG").label(w * h > 4096, "larger"))
}

fn k06() -> Facets {
    vec![
        Box::new(PropFacet::<HeadCase> {
            name: "headers",
            rule: "images of random size as PNG or JPEG, all formats and parameters, header parsed by hand; non-trivial: not square or not a multiple of four",
            quick: 2500,
            thorough: 80_000,
            shrink_iters: 400,
            strat: || {
                let d = prop_oneof![6 => small(), 1 => (1usize..=4, 300usize..=3000), 1 => (300usize..=3000, 1usize..=4)].boxed();
                (img_with(d), 1u8..=5, cli_params(), any::<bool>(), threads())
                    .prop_map(|(img, f, p, jpeg, threads)| HeadCase { img, f, p, jpeg, threads })
                    .boxed()
            },
            check: k06_check,
        }),
        Box::new(SweepFacet::<HeadCase> {
            name: "size-sweep",
            rule: "every size up to 13x13 in every format",
            count: |_| 13 * 13 * 5,
            exhaustive: true,
            case: |i, ctx| HeadCase {
                img: Img { w: 1 + (i % 13) as usize, h: 1 + (i / 13 % 13) as usize, kind: 4, seed: mix(ctx.seed, i, 9), alpha: 2 },
                f: 1 + (i / 169) as u8,
                p: P { alg: 0, w: W3::new([1.0; 3]), flag: false },
                jpeg: i % 2 == 1,
                threads: 1,
            },
            check: k06_check,
        }),
        Box::new(SweepFacet::<HeadCase> {
            name: "long",
            rule: "widths and heights around 2^14 and up to the JPEG limit of 65535, PNGs also beyond it",
            count: |_| 24 + 12,
            exhaustive: true,
            case: |i, ctx| {
                let n = [16383, 16384, 16385, 40000, 65533, 65535, 65536, 65537, 70001, 131_072, 262_147, 1_000_001][if i < 24 { i / 4 } else { 6 + (i - 24) / 2 } as usize];
                let (w, h) = if i & 1 == 0 { (n, 1 + i as usize % 5) } else { (1 + i as usize % 5, n) };
                HeadCase {
                    img: Img { w, h, kind: 3, seed: mix(ctx.seed, i, 10), alpha: 0 },
                    f: 1 + (i % 5) as u8,
                    p: P { alg: 0, w: W3::new([1.0; 3]), flag: false },
                    jpeg: i & 2 == 0 && n < 65536,
                    threads: 2,
                }
            },
            check: k06_check,
        }),
    ]
}

// ------------------------------------------------------------------ K07

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct NameCase {
    pub decompress: bool,
    /// folder of the input, relative to the current folder (or absolute)
    pub dir: String,
    pub absolute: bool,
    pub stem: String,
    pub ext: String,
    /// explicit output: folder and name
    pub out: Option<(String, String)>,
    pub out_absolute: bool,
    /// size of what is at the output path before, if anything
    pub old: Option<u32>,
    pub f: u8,
    pub seed: u64,
    pub dims: (usize, usize),
}

/// Names are kept as text; the private characters U+E080 to U+E0FF stand for single bytes.
fn os(s: &str) -> OsString {
    let mut v = vec![];
    for c in s.chars() {
        match c as u32 {
            x @ 0xE080..=0xE0FF => v.push(x as u8),
            _ => v.extend(c.to_string().bytes()),
        }
    }
    OsString::from_vec(v)
}

fn k07_check(c: &NameCase) -> CheckResult {
    let s = Scratch::new();
    let base = s.path("base");
    let cwd = base.join("cwd");
    std::fs::create_dir_all(&cwd).unwrap();
    let img = Img { w: c.dims.0, h: c.dims.1, kind: 4, seed: c.seed, alpha: 2 };
    let mut rgba = img.rgba();
    let p = P { alg: 1, w: W3::new([0.2126, 0.7152, 0.0722]), flag: false };
    let low = c.ext.to_lowercase();
    let jpeg = if !c.decompress && low != "png" {
        let j = Jpeg { w: img.w, h: img.h, comps: 3, hs: 1, vs: 1, q: 8, restart: 0, app: 1, seed: c.seed, kind: 2, mode: 0, extra: 0 }.bytes();
        rgba = decode_jpeg(&j).map_err(|e| format!("HARNESS: own JPEG not accepted: {e}"))?.2;
        Some(j)
    } else {
        None
    };
    let payload = lib_encode(c.f, p, &rgba, img.w, img.h);
    let fname = if c.ext.is_empty() { c.stem.clone() } else { format!("{}.{}", c.stem, c.ext) };
    let new_ext = if c.decompress { "png" } else { "dds" };
    let default_name = if c.ext.is_empty() { format!("{}.{new_ext}", c.stem) } else { format!("{}.{new_ext}", c.stem) };
    let indir = cwd.join(os(&c.dir));
    std::fs::create_dir_all(&indir).unwrap();
    let infile = indir.join(os(&fname));
    let bytes = if c.decompress {
        let d = DdsFile { w: img.w as u32, h: img.h as u32, fourcc: *b"DX10", dx10: Some([DXGI[c.f as usize - 1], 3, 0, 1, 0]), mips: 0, seed: 0, data: payload.len(), odd: false };
        let mut b = d.header();
        b.extend_from_slice(&payload);
        b
    } else if let Some(j) = jpeg {
        j
    } else {
        rgba_png(&rgba, img.w, img.h)
    };
    std::fs::write(&infile, &bytes).unwrap();
    // files that must not change
    for n in ["base/decoy.dds", "base/decoy.png", "base/cwd/decoy.dds", "base/cwd/output.png", "base/cwd/output.dds", "base/cwd/.dds", "base/cwd/.png", "base/cwd/in", "base/cwd/out"] {
        if !s.path(n).exists() {
            s.put(n, format!("decoy {n}").as_bytes());
        }
    }
    for k in ["dds", "png"] {
        let n = indir.join(os(&format!("{}.{k}.{k}", c.stem)));
        std::fs::write(n, b"decoy").unwrap();
    }
    let target = match &c.out {
        None => cwd.join(os(&default_name)),
        Some((d, n)) => {
            let d = cwd.join(os(d));
            // the input may have the name of the folder
            if std::fs::create_dir_all(&d).is_err() {
                return Ok(Info::new(false).label(true, "output folder is a file"));
            }
            d.join(os(n))
        }
    };
    let same = |a: &Path, b: &Path| match (a.canonicalize(), b.canonicalize()) {
        (Ok(a), Ok(b)) => a == b,
        _ => false,
    };
    if same(&target, &infile) || target.is_dir() {
        return Ok(Info::new(false).label(true, "output is the input"));
    }
    match c.old {
        Some(n) => std::fs::write(&target, vec![0xEEu8; n as usize]).unwrap(),
        None => {
            let _ = std::fs::remove_file(&target);
        }
    }
    let arg = if c.absolute {
        infile.as_os_str().to_owned()
    } else if c.dir.is_empty() {
        // a leading dash would be taken for an option
        os(&if fname.starts_with('-') { format!("./{fname}") } else { fname.clone() })
    } else {
        os(&format!("{}/{fname}", c.dir))
    };
    let mut a: Vec<OsString> = vec![];
    if c.decompress {
        a.push("decompress".into());
    } else {
        a.extend(["compress".into(), "-f".into(), OsString::from(format!("bc{}", c.f))]);
    }
    a.push(arg);
    if let Some((d, n)) = &c.out {
        a.push(if c.seed & 1 == 0 { "-o".into() } else { "--output".into() });
        a.push(if c.out_absolute {
            target.as_os_str().to_owned()
        } else if d.is_empty() {
            os(&if n.starts_with('-') { format!("./{n}") } else { n.clone() })
        } else {
            os(&format!("{d}/{n}"))
        });
    }
    let before = snapshot(&base);
    let e = run(&cwd, 1, &a)?;
    let mut after = snapshot(&base);
    ensure!(e.ok, "{a:?} is refused with status {:?}", e.code);
    // key of the target within the snapshot
    let k = target.canonicalize().ok().and_then(|t| t.strip_prefix(base.canonicalize().unwrap()).ok().map(key));
    let key = k.ok_or_else(|| format!("{a:?}: no file at {}", target.display()))?;
    let out = after.remove(&key).flatten().ok_or("output is not a file")?;
    let r = if c.decompress { expect_png(&out, img.w, img.h, &lib_decode(c.f, &payload, img.w, img.h)) } else { expect_dds(&out, c.f, img.w, img.h, &payload) };
    r.map_err(|m| format!("{a:?}, previous output {:?} bytes: {m}", c.old))?;
    if c.decompress {
        // nothing after the end of the new file
        ensure!(out.ends_with(b"IEND\xaeB\x60\x82"), "{a:?}: the PNG has trailing data");
    }
    let mut b = before;
    b.remove(&key);
    for (k, v) in &after {
        ensure!(b.contains_key(k), "{a:?} also created {k}");
        ensure!(b[k] == *v, "{a:?} also changed {k}");
    }
    for k in b.keys() {
        ensure!(after.contains_key(k), "{a:?} removed {k}");
    }
    Ok(Info::new(c.old.is_some() || !c.dir.is_empty() || c.out.is_none())
        .label(c.out.is_none(), "default name")
        .label(c.out.is_some(), "explicit output")
        .label(c.old.is_some(), "output existed")
        .label(c.old.is_some_and(|n| n as usize > out.len()), "output existed and was longer")
        .label(!c.dir.is_empty() && c.out.is_none(), "default name, input elsewhere")
        .label(c.stem.contains('.'), "several dots")
        .label(fname.chars().any(|c| ('\u{E080}'..='\u{E0FF}').contains(&c)), "name is not UTF-8")
        .label(low == "jpg" || low == "jpeg", "JPEG input"))
}

fn k07() -> Facets {
    fn stem() -> BoxedStrategy<String> {
        prop_oneof![
            3 => select(vec!["a", "image", "photo.2024", "x.png", "x.dds", "a b", "ünï", "in.tar", "..x", "-p", "-", "decoy", "out", "1", "IMG_0001.JPG", ".hidden", "a.", "日本", "caf\u{E0E9}", "\u{E0FF}\u{E0FE}", "a\u{E080}.b", "x.jpeg", "x.JPG.png"]).prop_map(str::to_string),
            2 => "[a-zA-Z0-9_ .-]{0,8}[a-z0-9]",
        ]
        .boxed()
    }
    fn dir() -> BoxedStrategy<String> {
        prop_oneof![
            3 => Just(String::new()),
            3 => select(vec!["sub", "sub/deeper", "..", "../other", ".", "a.png", "x.dds/y", "dir with space", "./sub", "d\u{E0E4}r"]).prop_map(str::to_string),
        ]
        .boxed()
    }
    vec![Box::new(PropFacet::<NameCase> {
        name: "names",
        rule: "input names and folders (dots, spaces, non-ASCII, upper case, relative and absolute), with and without -o, existing longer or shorter output, decoy files; the whole folder tree is compared before and after; non-trivial: default name, input in another folder or existing output",
        quick: 4000,
        thorough: 120_000,
        shrink_iters: 400,
        strat: || {
            (
                (any::<bool>(), dir(), any::<bool>(), stem(), 0u8..8, 0u8..6),
                (
                    proptest::option::of((dir(), prop_oneof![select(vec!["out", "o.dds", "o.png", "r.jpg", "res", "noext", "a b.dds", "-o", ".x", "o\u{E0B5}.dds"]).prop_map(str::to_string), "[a-z]{1,4}(\\.[a-z]{1,3})?"])),
                    any::<bool>(),
                    proptest::option::of(prop_oneof![Just(0u32), 1u32..100, 100u32..40000]),
                    1u8..=5,
                    any::<u64>(),
                    (1usize..=9, 1usize..=9),
                ),
            )
                .prop_map(|((decompress, dir, absolute, stem, bits, e), (out, out_absolute, old, f, seed, dims))| {
                    let ext = if decompress {
                        ["dds", "DDS", "dat", "", "tex", "x"][e as usize].to_string()
                    } else {
                        ext_case(["png", "png", "png", "jpg", "jpeg", "png"][e as usize], bits)
                    };
                    // without an extension the rest of the name must have no dot
                    let stem = if ext.is_empty() { stem.replace('.', "_") } else { stem };
                    NameCase { decompress, dir, absolute, stem, ext, out, out_absolute, old, f, seed, dims }
                })
                .boxed()
        },
        check: k07_check,
    })]
}

// ------------------------------------------------------------------ K08

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ChainCase {
    pub img: Img,
    /// format and parameters of each round
    pub rounds: Vec<(u8, P)>,
    pub threads: u8,
}

fn k08_check(c: &ChainCase) -> CheckResult {
    let s = Scratch::new();
    let (w, h) = (c.img.w, c.img.h);
    let mut rgba = c.img.rgba();
    s.put("t.png", &rgba_png(&rgba, w, h));
    let first = rgba.clone();
    for (k, (f, p)) in c.rounds.iter().enumerate() {
        let mut a = vec!["compress".to_string()];
        a.extend(param_args(*f, p));
        a.push("t.png".into());
        let e = run(&s.0, c.threads, &a)?;
        ensure!(e.ok, "round {k}: {a:?} is refused with status {:?}", e.code);
        let dds = std::fs::read(s.path("t.dds")).map_err(|_| "no t.dds")?;
        let enc = lib_encode(*f, *p, &rgba, w, h);
        expect_dds(&dds, *f, w, h, &enc).map_err(|m| format!("round {k}: {m}"))?;
        // the tool's own output goes back in
        let e = run(&s.0, c.threads, &["decompress", "t.dds"])?;
        ensure!(e.ok, "round {k}: decompressing the tool's own BC{f} output is refused with status {:?}", e.code);
        rgba = lib_decode(*f, &enc, w, h);
        let png = std::fs::read(s.path("t.png")).map_err(|_| "no t.png")?;
        expect_png(&png, w, h, &rgba).map_err(|m| format!("round {k}, BC{f} {w}x{h}: {m}"))?;
    }
    Ok(Info::new(w * h > 1 && rgba != first)
        .label(c.rounds.len() > 1, "several rounds")
        .label(c.rounds.windows(2).any(|x| x[0].0 != x[1].0), "format changes between rounds")
        .label(w % 4 != 0 || h % 4 != 0, "padded size"))
}

fn k08() -> Facets {
    vec![Box::new(PropFacet::<ChainCase> {
        name: "chains",
        rule: "random images through one to three rounds of compress and decompress with random formats and parameters, the tool's output being its next input; non-trivial: the decoded image differs from the first",
        quick: 1500,
        thorough: 60_000,
        shrink_iters: 300,
        strat: || {
            (img_with(small()), proptest::collection::vec((any_fmt(), cli_params()), 1..=3), threads())
                .prop_map(|(img, rounds, threads)| ChainCase { img, rounds, threads })
                .boxed()
        },
        check: k08_check,
    }),
    Box::new(PropFacet::<ChainCase> {
        name: "large",
        rule: "one round on images of 150 to 600 pixels a side or up to 140000 long, range fit; non-trivial: the decoded image differs from the first",
        quick: 40,
        thorough: 2_000,
        shrink_iters: 60,
        strat: || {
            let d = prop_oneof![(150usize..600, 150usize..600), (1500usize..6000, 1usize..9), (1usize..9, 1500usize..6000), (16_000usize..140_000, 1usize..4), (1usize..4, 16_000usize..140_000)].boxed();
            (img_with(d), any_fmt(), cli_params(), threads())
                .prop_map(|(img, f, p, threads)| ChainCase { img, rounds: vec![(f, P { alg: 0, ..p })], threads })
                .boxed()
        },
        check: k08_check,
    })]
}

// ------------------------------------------------------------------ K09

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Job {
    pub decompress: bool,
    pub img: Img,
    pub f: u8,
    pub p: P,
    pub threads: u8,
    /// bits select changes of the environment
    pub env: u8,
    /// the output: default name, own name, or a name in another folder
    pub out: u8,
    /// further identical runs, at the same time
    pub again: u8,
    /// the input to compress: a PNG, or a JPEG of one or three components
    pub jpeg: u8,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct BatchCase {
    pub jobs: Vec<Job>,
    /// rounds of the whole batch, each replacing the output of the last
    pub rounds: u8,
    /// one after the other instead of all at once
    pub serial: bool,
    /// every input has the same name, in folders of their own
    pub same_name: bool,
}

fn k09_check(c: &BatchCase) -> CheckResult {
    let s = Scratch::new();
    for d in ["work", "work/sub", "home", "tmp"] {
        std::fs::create_dir_all(s.path(d)).unwrap();
    }
    let mut want: BTreeMap<String, Option<Vec<u8>>> = BTreeMap::new();
    want.insert("sub".into(), None);
    let mut plan = vec![];
    for (k, j) in c.jobs.iter().enumerate() {
        let (w, h) = (j.img.w, j.img.h);
        let mut rgba = j.img.rgba();
        let jpeg = if j.jpeg > 0 {
            let b = Jpeg { w, h, comps: if j.jpeg == 1 { 1 } else { 3 }, hs: 1, vs: 1, q: 8, restart: 0, app: 1, seed: j.img.seed, kind: 2, mode: 0, extra: 0 }.bytes();
            rgba = decode_jpeg(&b).map_err(|e| format!("HARNESS: own JPEG not accepted: {e}"))?.2;
            b
        } else {
            vec![]
        };
        let (ie, oe) = if j.decompress { ("dds", "png") } else { (if j.jpeg > 0 { "jpg" } else { "png" }, "dds") };
        let input = if c.same_name { format!("in{k}/t.{ie}") } else { format!("t{k}.{ie}") };
        let n = need(j.f, w, h);
        let dds = DdsFile { w: w as u32, h: h as u32, fourcc: *b"DX10", dx10: Some([DXGI[j.f as usize - 1], 3, 0, 1, 0]), mips: 0, seed: j.img.seed, data: n, odd: false };
        let blocks = dds.payload();
        let bytes = if j.decompress {
            dds.bytes()
        } else if j.jpeg > 0 {
            jpeg
        } else {
            rgba_png(&rgba, w, h)
        };
        s.put(&format!("work/{input}"), &bytes);
        if c.same_name {
            want.insert(format!("in{k}"), None);
        }
        want.insert(input.clone(), Some(bytes));
        // with equal names the default output would be shared
        let (out, explicit) = match if c.same_name { 1 + j.out % 2 } else { j.out % 3 } {
            0 => (format!("t{k}.{oe}"), false),
            1 => (format!("o{k}.{oe}"), true),
            _ => (format!("sub/o{k}.{oe}"), true),
        };
        let mut a: Vec<String> = vec![if j.decompress { "decompress" } else { "compress" }.into()];
        if !j.decompress {
            a.extend(param_args(j.f, &j.p));
        }
        a.push(input);
        if explicit {
            a.extend(["-o".to_string(), out.clone()]);
        }
        let expected = if j.decompress { lib_decode(j.f, &blocks, w, h) } else { lib_encode(j.f, j.p, &rgba, w, h) };
        plan.push((j, a, out, expected));
    }
    for round in 0..c.rounds {
        let mut todo = vec![];
        for (j, a, ..) in &plan {
            for _ in 0..=j.again {
                let mut cmd = Command::new(tool());
                cmd.args(a).current_dir(s.path("work")).env("RAYON_NUM_THREADS", j.threads.to_string()).env_remove("RUST_BACKTRACE");
                cmd.env("TMPDIR", s.path("tmp")).env("HOME", s.path("home"));
                if j.env & 1 != 0 {
                    cmd.env("LC_ALL", "de_DE.UTF-8").env("LANG", "de_DE.UTF-8");
                }
                if j.env & 2 != 0 {
                    cmd.env_remove("HOME").env_remove("LANG");
                }
                if j.env & 4 != 0 {
                    cmd.env("RUST_BACKTRACE", "full").env("RUST_LOG", "trace").env("COLUMNS", "1");
                }
                todo.push((cmd, a));
            }
        }
        if c.serial {
            for (cmd, a) in todo {
                let e = wait(cmd)?;
                ensure!(e.ok, "round {round}: {a:?} is refused with status {:?}", e.code);
            }
        } else {
            let r: Vec<_> = std::thread::scope(|t| {
                let hs: Vec<_> = todo.into_iter().map(|(cmd, a)| (t.spawn(move || wait(cmd)), a)).collect();
                hs.into_iter().map(|(h, a)| (h.join().unwrap(), a)).collect()
            });
            for (e, a) in r {
                let e = e?;
                ensure!(e.ok, "round {round}: {a:?} is refused with status {:?} while others run", e.code);
            }
        }
        let mut now = snapshot(&s.path("work"));
        for (j, a, out, expected) in &plan {
            let got = now.remove(out).flatten().ok_or(format!("round {round}: {a:?} ended with status 0 but there is no {out}"))?;
            let r = if j.decompress { expect_png(&got, j.img.w, j.img.h, expected) } else { expect_dds(&got, j.f, j.img.w, j.img.h, expected) };
            r.map_err(|m| format!("round {round}: {a:?} among {} runs: {m}", plan.len()))?;
        }
        if now != want {
            let d: Vec<_> = now.iter().filter(|(k, v)| want.get(*k) != Some(v)).map(|(k, _)| k.clone()).chain(want.keys().filter(|k| !now.contains_key(*k)).cloned()).collect();
            return Err(format!("round {round}: besides the outputs, {d:?} appeared, changed or vanished"));
        }
        for d in ["home", "tmp"] {
            let left = snapshot(&s.path(d));
            ensure!(left.is_empty(), "round {round}: files left behind in the {d} folder: {:?}", left.keys().collect::<Vec<_>>());
        }
    }
    Ok(Info::new(c.jobs.len() > 1)
        .label(!c.serial, "at the same time")
        .label(c.rounds > 1, "outputs replaced by a second round")
        .label(c.jobs.iter().any(|j| j.again > 0), "identical runs at the same time")
        .label(c.same_name, "inputs of equal name")
        .label(c.jobs.iter().any(|j| !j.decompress && j.jpeg > 0), "JPEG inputs")
        .label(c.jobs.iter().any(|j| j.decompress) && c.jobs.iter().any(|j| !j.decompress), "both directions mixed"))
}

fn k09() -> Facets {
    fn job(d: BoxedStrategy<(usize, usize)>) -> BoxedStrategy<Job> {
        (any::<bool>(), img_with(d), any_fmt(), cli_params(), 1u8..=4, any::<u8>(), any::<u8>(), prop_oneof![4 => Just(0u8), 1 => 1u8..3], prop_oneof![2 => Just(0u8), 1 => 1u8..3])
            .prop_map(|(decompress, img, f, p, threads, env, out, again, jpeg)| Job { decompress, img, f, p, threads, env, out, again, jpeg })
            .boxed()
    }
    vec![
        Box::new(PropFacet::<BatchCase> {
            name: "batches",
            rule: "one to eight runs in one folder, at the same time or one after the other, in one to three rounds, with varied environment and thread numbers; non-trivial: more than one run",
            quick: 600,
            thorough: 25_000,
            shrink_iters: 200,
            strat: || {
                let d = prop_oneof![8 => small(), 2 => (30usize..200, 30usize..200)].boxed();
                (proptest::collection::vec(job(d), 1..=8), 1u8..=3, any::<bool>(), any::<bool>())
                    .prop_map(|(jobs, rounds, serial, same_name)| BatchCase { jobs, rounds, serial, same_name })
                    .boxed()
            },
            check: k09_check,
        }),
    ]
}

// ------------------------------------------------------------------ K10

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct IoCase {
    /// 0 PNG, 1 gray JPEG, 2 colour JPEG, 3 DDS
    pub input: u8,
    pub img: Img,
    pub f: u8,
    pub p: P,
    pub threads: u8,
    /// the most bytes one access moves, 0 for no limit
    pub pieces: u32,
    /// how far the clock is off
    pub seconds: i64,
    /// 0 reading, 1 writing, 2 opening the output
    pub what: u8,
    /// which access of these, as a fraction of all
    pub at: u16,
    /// the error number, 0 for the end of the process
    pub errno: i32,
    /// the failing run has pieces, too
    pub both: bool,
    /// length of an older output file
    pub old: Option<u16>,
    pub default_name: bool,
}

fn shim() -> &'static str {
    static T: OnceLock<String> = OnceLock::new();
    T.get_or_init(|| std::env::var("VH_SHIM").unwrap_or_else(|_| broken("VH_SHIM is not set")))
}

fn k10_check(c: &IoCase) -> CheckResult {
    let s = Scratch::new();
    let work = s.path("work");
    std::fs::create_dir(&work).unwrap();
    let work = std::fs::canonicalize(work).unwrap();
    let (w, h) = (c.img.w, c.img.h);
    let mut rgba = c.img.rgba();
    let dds = DdsFile { w: w as u32, h: h as u32, fourcc: *b"DX10", dx10: Some([DXGI[c.f as usize - 1], 3, 0, 1, 0]), mips: 0, seed: c.img.seed, data: need(c.f, w, h), odd: false };
    let (ie, bytes) = match c.input {
        0 => ("png", rgba_png(&rgba, w, h)),
        3 => ("dds", dds.bytes()),
        k => {
            let b = Jpeg { w, h, comps: if k == 1 { 1 } else { 3 }, hs: 1, vs: 1, q: 8, restart: 0, app: 1, seed: c.img.seed, kind: 2, mode: 0, extra: 0 }.bytes();
            rgba = decode_jpeg(&b).map_err(|e| format!("HARNESS: own JPEG not accepted: {e}"))?.2;
            ("jpg", b)
        }
    };
    let decompress = c.input == 3;
    let input = format!("work/t.{ie}");
    s.put(&input, &bytes);
    s.put("work/other.dds", b"other");
    let out = match (c.default_name, decompress) {
        (true, true) => "t.png",
        (true, false) => "t.dds",
        _ => "o.out",
    };
    let out_path = work.join(out);
    let reset = || {
        let _ = std::fs::remove_file(&out_path);
        if let Some(n) = c.old {
            std::fs::write(&out_path, vec![0xEEu8; n as usize]).unwrap();
        }
    };
    let mut a: Vec<String> = vec![if decompress { "decompress" } else { "compress" }.into()];
    if !decompress {
        a.extend(param_args(c.f, &c.p));
    }
    a.push(format!("t.{ie}"));
    if !c.default_name {
        a.extend(["-o".to_string(), out.into()]);
    }
    let log = s.path("log");
    let go = |io: Option<String>| -> Result<(Exit, [u64; 4]), String> {
        let mut cmd = Command::new(tool());
        cmd.args(&a).current_dir(&work).env("RAYON_NUM_THREADS", c.threads.to_string()).env_remove("RUST_BACKTRACE");
        let _ = std::fs::remove_file(&log);
        let counted = io.is_some();
        if let Some(io) = io {
            cmd.env("LD_PRELOAD", shim()).env("VH_IO", io).env("VH_IO_DIR", &work).env("VH_IO_LOG", &log);
        }
        let e = wait(cmd)?;
        let mut n = [0; 4];
        if counted && e.code.is_some() {
            let l = std::fs::read_to_string(&log).unwrap_or_default();
            let v: Vec<u64> = l.split(' ').filter_map(|x| x.parse().ok()).collect();
            if v.len() != 4 {
                broken("the preloaded library left no numbers");
            }
            n.copy_from_slice(&v);
        }
        Ok((e, n))
    };
    // undisturbed
    reset();
    let (e, _) = go(None)?;
    ensure!(e.ok, "{a:?} is refused with status {:?}", e.code);
    let want = std::fs::read(&out_path).map_err(|_| "status 0 but no output file")?;
    let r = if decompress { expect_png(&want, w, h, &lib_decode(c.f, &dds.payload(), w, h)) } else { expect_dds(&want, c.f, w, h, &lib_encode(c.f, c.p, &rgba, w, h)) };
    r.map_err(|m| format!("{a:?}: {m}"))?;
    let all = snapshot(&work);
    // in pieces, and at another time
    reset();
    let (e, n) = go(Some(format!("{} 0 0 0 {}", c.pieces, c.seconds)))?;
    ensure!(e.ok, "{a:?} is refused with status {:?} when files are read and written {} bytes at a time", e.code, c.pieces);
    let now = snapshot(&work);
    if now != all {
        let o = now.get(out).cloned().flatten().ok_or("status 0 but no output file")?;
        return Err(match (0..o.len().max(want.len())).find(|&i| o.get(i) != want.get(i)) {
            Some(i) => format!("{a:?}: reading and writing {} bytes at a time, {} s from now, gives {} bytes instead of {}, the first difference at {i}", c.pieces, c.seconds, o.len(), want.len()),
            None => format!("{a:?}: other files changed"),
        });
    }
    // failing once
    let (k, name) = [('r', "read"), ('w', "write"), ('o', "opening for writing")][c.what as usize];
    let pieces = if c.both { c.pieces } else { 0 };
    let count = if c.both || c.pieces == 0 {
        n
    } else {
        reset();
        let (e, n) = go(Some("0 0 0 0 0".into()))?;
        ensure!(e.ok, "{a:?} is refused with status {:?} the second time", e.code);
        n
    }[c.what as usize];
    let at = 1 + c.at as u64 * count.max(1) / 65536;
    reset();
    let before = snapshot(&work);
    let (e, _) = go(Some(format!("{pieces} {k} {at} {} 0", c.errno)))?;
    let mut now = snapshot(&work);
    let how = format!("{name} {at} of {count} {}", if c.errno == 0 { "ends the process".into() } else { format!("fails with error {}", c.errno) });
    if e.ok {
        let o = now.get(out).cloned().flatten();
        ensure!(o.as_ref() == Some(&want), "{a:?}: status 0 although {how}, and the output has {:?} bytes, {} expected", o.map(|o| o.len()), want.len());
    }
    if !e.ok && c.what != 1 {
        ensure!(now.get(out) == before.get(out), "{a:?}: status {:?} as {how}, but the output path changed", e.code);
    }
    if count == 0 {
        ensure!(e.ok, "{a:?}: no {name} was to fail, but status {:?}", e.code);
    }
    now.remove(out);
    for (f, d) in &before {
        if f != out {
            ensure!(now.get(f) == Some(d), "{a:?}: {how}, and {f} changed");
        }
    }
    // and again undisturbed, on what was left behind
    let (r, _) = go(None)?;
    ensure!(r.ok, "{a:?}: after {how}, the next run ends with status {:?}", r.code);
    let o = std::fs::read(&out_path).map_err(|_| "status 0 but no output file")?;
    ensure!(o == want, "{a:?}: after {how}, the next run writes {} bytes other than the {} expected", o.len(), want.len());
    Ok(Info::new(!e.ok)
        .label(c.what == 0 && c.errno != 0 && !e.ok, "read error")
        .label(c.what == 0 && c.errno != 0 && e.ok, "read error without effect")
        .label(c.what == 1 && c.errno != 0 && !e.ok, "write error")
        .label(c.what == 2 && c.errno != 0 && !e.ok, "the output cannot be opened")
        .label(c.errno == 0 && !e.ok, "process ended half-way")
        .label(c.errno == 0 && c.what == 1 && !e.ok, "process ended while writing")
        .label(c.pieces == 1, "byte by byte")
        .label(c.pieces > 1, "pieces")
        .label(n[0] > 0 && n[1] > 1, "accesses seen")
        .label(n[3] > 0, "clock read")
        .label(c.old.is_some(), "older output")
        .label(c.input == 1 || c.input == 2, "JPEG")
        .label(decompress, "decompress"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PipeCase {
    /// 0 PNG, 1 gray JPEG, 2 colour JPEG, 3 DDS
    pub input: u8,
    pub img: Img,
    pub f: u8,
    pub p: P,
    pub threads: u8,
    /// the most bytes handed over at once
    pub pieces: u32,
    /// bytes the input ends short of, 0 for a whole one
    pub cut: u16,
}

/// The input is a link to a pipe, so it comes in pieces, has no length and cannot be read twice.
fn k10_pipe(c: &PipeCase) -> CheckResult {
    use std::io::Write;
    let s = Scratch::new();
    std::fs::create_dir(s.path("work")).unwrap();
    let (w, h) = (c.img.w, c.img.h);
    let mut rgba = c.img.rgba();
    let dds = DdsFile { w: w as u32, h: h as u32, fourcc: *b"DX10", dx10: Some([DXGI[c.f as usize - 1], 3, 0, 1, 0]), mips: 0, seed: c.img.seed, data: need(c.f, w, h), odd: false };
    let (ie, mut bytes) = match c.input {
        0 => ("png", rgba_png(&rgba, w, h)),
        3 => ("dds", dds.bytes()),
        k => {
            let b = Jpeg { w, h, comps: if k == 1 { 1 } else { 3 }, hs: 1, vs: 1, q: 8, restart: 0, app: 1, seed: c.img.seed, kind: 2, mode: 0, extra: 0 }.bytes();
            rgba = decode_jpeg(&b).map_err(|e| format!("HARNESS: own JPEG not accepted: {e}"))?.2;
            ("jpg", b)
        }
    };
    // a PNG or JPEG may lack its end; a DDS may not
    let cut = if c.input == 3 { c.cut as usize % bytes.len() } else { 0 };
    bytes.truncate(bytes.len() - cut);
    std::os::unix::fs::symlink("/proc/self/fd/0", s.path(&format!("work/t.{ie}"))).unwrap();
    let mut a: Vec<String> = vec![if c.input == 3 { "decompress" } else { "compress" }.into()];
    if c.input != 3 {
        a.extend(param_args(c.f, &c.p));
    }
    a.extend([format!("t.{ie}"), "-o".into(), "out".into()]);
    let mut cmd = Command::new(tool());
    cmd.args(&a).current_dir(s.path("work")).env("RAYON_NUM_THREADS", c.threads.to_string()).env_remove("RUST_BACKTRACE");
    let (r, mut to) = std::io::pipe().unwrap_or_else(|e| broken(&format!("pipe: {e}")));
    cmd.stdin(r).stdout(Stdio::null()).stderr(Stdio::null());
    let pieces = c.pieces as usize;
    let n = bytes.len();
    let feed = std::thread::spawn(move || {
        for p in bytes.chunks(pieces.max(n / 300 + 1)) {
            // nobody reads any more once the tool has ended
            if to.write_all(p).is_err() {
                return;
            }
            std::thread::sleep(Duration::from_micros(30));
        }
    });
    let e = wait_as(cmd);
    let _ = feed.join();
    let e = e?;
    let out = std::fs::read(s.path("work/out")).ok();
    if cut > 0 {
        ensure!(!e.ok, "{a:?}: status 0 although the pipe ended {cut} bytes before the end of the file");
        ensure!(out.is_none(), "{a:?}: the pipe ended {cut} bytes before the end of the file, but there is an output");
    } else {
        ensure!(e.ok, "{a:?} reading from a pipe, {pieces} bytes at a time, ends with status {:?}", e.code);
        let o = out.ok_or("status 0 but no output file")?;
        let r = if c.input == 3 { expect_png(&o, w, h, &lib_decode(c.f, &dds.payload(), w, h)) } else { expect_dds(&o, c.f, w, h, &lib_encode(c.f, c.p, &rgba, w, h)) };
        r.map_err(|m| format!("{a:?} reading from a pipe, {pieces} bytes at a time: {m}"))?;
    }
    Ok(Info::new(n > pieces)
        .label(c.input == 0, "PNG")
        .label(c.input == 1 || c.input == 2, "JPEG")
        .label(c.input == 3, "DDS")
        .label(cut > 0, "ends early"))
}

fn k10() -> Facets {
    vec![Box::new(PropFacet::<PipeCase> {
        name: "pipes",
        rule: "the input is a link to a pipe that is filled in pieces of a random size; non-trivial: more than one piece",
        quick: 150,
        thorough: 6000,
        shrink_iters: 200,
        strat: || {
            let d = prop_oneof![8 => small(), 1 => (30usize..90, 30usize..90)].boxed();
            let pieces = prop_oneof![1 => Just(1u32), 3 => 2u32..20, 3 => 20u32..4000, 1 => Just(1u32 << 20)];
            let cut = prop_oneof![3 => Just(0u16), 1 => any::<u16>()];
            (0u8..4, img_with(d), any_fmt(), cli_params(), threads(), pieces, cut)
                .prop_map(|(input, img, f, p, threads, pieces, cut)| PipeCase { input, img, f, p, threads, pieces, cut })
                .boxed()
        },
        check: k10_pipe,
    }),
    Box::new(PropFacet::<IoCase> {
        name: "accesses",
        rule: "the same conversion undisturbed, with reads and writes in pieces of a random size and a changed clock, with one random read, write or opening failing or ending the process, and undisturbed again; non-trivial: the disturbed run failed",
        quick: 400,
        thorough: 20_000,
        shrink_iters: 200,
        strat: || {
            let d = prop_oneof![8 => small(), 1 => (30usize..90, 30usize..90)].boxed();
            let pieces = prop_oneof![2 => Just(0u32), 2 => Just(1u32), 3 => 2u32..20, 3 => 20u32..4000];
            let seconds = prop_oneof![2 => Just(0i64), 1 => -1_000_000_000i64..1_000_000_000, 1 => (1i64..2000).prop_map(|d| d * 86400)];
            let at = prop_oneof![6 => any::<u16>(), 1 => Just(0u16), 3 => Just(65535u16)];
            let what = prop_oneof![4 => Just(0u8), 5 => Just(1u8), 1 => Just(2u8)];
            let errno = prop_oneof![3 => Just(5i32), 2 => Just(28i32), 1 => Just(122i32), 2 => Just(0i32)];
            ((0u8..4, img_with(d), any_fmt(), cli_params(), threads()), (pieces, seconds, what, at, errno), (any::<bool>(), proptest::option::of(0u16..30_000), any::<bool>()))
                .prop_map(|((input, img, f, p, threads), (pieces, seconds, what, at, errno), (both, old, default_name))| IoCase {
                    input, img, f, p, threads, pieces, seconds, what, at, errno, both, old, default_name,
                })
                .boxed()
        },
        check: k10_check,
    })]
}

// ------------------------------------------------------------------ K11

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct StreamCase {
    /// 0 PNG, 1 gray JPEG, 2 colour JPEG, 3 DDS
    pub input: u8,
    pub img: Img,
    pub f: u8,
    pub p: P,
    pub threads: u8,
    /// 0 nothing, 1 missing input, 2 input cut off, 3 extension, 4 two weights, 5 unknown option, 6 no such output folder,
    /// 7 no input named, 8 no subcommand
    pub wrong: u8,
    /// standard input, output and error: 0 /dev/null, 1 closed, 2 pipe (silent, or nobody reading), 3 junk or full device, 4 file
    pub streams: [u8; 3],
    pub existing: bool,
}

fn junk_file(s: &Scratch, n: &str) -> std::fs::File {
    s.put(n, b"y\ny\n\0\xFFjunk\n");
    std::fs::File::open(s.path(n)).unwrap()
}

fn k11_check(c: &StreamCase) -> CheckResult {
    let s = Scratch::new();
    std::fs::create_dir(s.path("work")).unwrap();
    let (w, h) = (c.img.w, c.img.h);
    let mut rgba = c.img.rgba();
    let dds = DdsFile { w: w as u32, h: h as u32, fourcc: *b"DX10", dx10: Some([DXGI[c.f as usize - 1], 3, 0, 1, 0]), mips: 0, seed: c.img.seed, data: need(c.f, w, h), odd: false };
    let (mut ie, mut bytes) = match c.input {
        0 => ("png", rgba_png(&rgba, w, h)),
        3 => ("dds", dds.bytes()),
        k => {
            let b = Jpeg { w, h, comps: if k == 1 { 1 } else { 3 }, hs: 1, vs: 1, q: 8, restart: 0, app: 1, seed: c.img.seed, kind: 2, mode: 0, extra: 0 }.bytes();
            rgba = decode_jpeg(&b).map_err(|e| format!("HARNESS: own JPEG not accepted: {e}"))?.2;
            ("jpg", b)
        }
    };
    let decompress = c.input == 3;
    let mut wrong = c.wrong;
    if decompress && matches!(wrong, 3 | 4) {
        wrong = 5;
    }
    match wrong {
        2 => bytes.truncate(20),
        3 => ie = "bmp",
        _ => {}
    }
    if wrong != 1 {
        s.put(&format!("work/t.{ie}"), &bytes);
    }
    if c.existing {
        s.put("work/out", b"old");
    }
    let mut a: Vec<String> = vec![];
    if wrong != 8 {
        a.push(if decompress { "decompress" } else { "compress" }.into());
        if !decompress {
            a.extend(if wrong == 4 { vec!["-f".into(), format!("bc{}", c.f), "-w".into(), "1".into(), "-w".into(), "1".into()] } else { param_args(c.f, &c.p) });
        }
        if wrong == 5 {
            a.push("--frobnicate".into());
        }
        a.extend(["-o".to_string(), if wrong == 6 { "missing/out".into() } else { "out".into() }]);
        if wrong != 7 {
            a.push(format!("t.{ie}"));
        }
    }
    let mut cmd;
    if c.streams.contains(&1) {
        let close: String = (0..3).filter(|&i| c.streams[i] == 1).map(|i| [" <&-", " >&-", " 2>&-"][i]).collect();
        cmd = Command::new("sh");
        cmd.arg("-c").arg(format!("exec \"$@\"{close}")).arg("sh").arg(tool());
    } else {
        cmd = Command::new(tool());
    }
    cmd.args(&a).current_dir(s.path("work")).env("RAYON_NUM_THREADS", c.threads.to_string()).env_remove("RUST_BACKTRACE");
    let mut keep = None;
    cmd.stdin(match c.streams[0] {
        2 => {
            let (r, w) = std::io::pipe().unwrap_or_else(|e| broken(&format!("pipe: {e}")));
            keep = Some(w);
            Stdio::from(r)
        }
        3 | 4 => Stdio::from(junk_file(&s, "stdin")),
        _ => Stdio::null(),
    });
    let sink = |k: u8, n: &str| match k {
        2 => {
            let (r, w) = std::io::pipe().unwrap_or_else(|e| broken(&format!("pipe: {e}")));
            drop(r);
            Stdio::from(w)
        }
        3 if full_device() => Stdio::from(std::fs::File::options().write(true).open("/dev/full").unwrap_or_else(|e| broken(&format!("/dev/full: {e}")))),
        4 => Stdio::from(std::fs::File::create(s.path(n)).unwrap_or_else(|e| broken(&format!("scratch file: {e}")))),
        _ => Stdio::null(),
    };
    cmd.stdout(sink(c.streams[1], "stdout")).stderr(sink(c.streams[2], "stderr"));
    let before = snapshot(&s.path("work"));
    let e = wait_as(cmd)?;
    drop(keep);
    let mut now = snapshot(&s.path("work"));
    let name = ["/dev/null", "closed", "a pipe", "junk or a full device", "a file"];
    let how = format!("{a:?} with standard input, output and error {:?}", c.streams.map(|k| name[k as usize]));
    if wrong == 0 {
        ensure!(e.ok, "{how} ends with status {:?}", e.code);
        let o = now.remove("out").flatten().ok_or(format!("{how}: status 0 but no output file"))?;
        let r = if decompress { expect_png(&o, w, h, &lib_decode(c.f, &dds.payload(), w, h)) } else { expect_dds(&o, c.f, w, h, &lib_encode(c.f, c.p, &rgba, w, h)) };
        r.map_err(|m| format!("{how}: {m}"))?;
        let mut before = before;
        before.remove("out");
        ensure!(now == before, "{how}: files other than the output appeared, changed or vanished");
    } else {
        ensure!(!e.ok, "{how} is refused otherwise, but ends with status 0");
        ensure!(e.code.is_some(), "{how}: ended by a signal");
        ensure!(now == before, "{how}: refused, but files changed");
        if c.streams[2] == 4 {
            let m = std::fs::read(s.path("stderr")).unwrap_or_default();
            ensure!(m.iter().any(|b| !b.is_ascii_whitespace()), "{how}: refused with status {:?} without a message", e.code);
        }
    }
    Ok(Info::new(c.streams != [0; 3])
        .label(wrong == 0, "converted")
        .label(wrong > 0, "refused")
        .label(wrong > 0 && c.streams[2] == 4, "message read")
        .label(c.streams[0] == 2, "silent pipe as input")
        .label(c.streams[1..].contains(&1), "output or error closed")
        .label(c.streams[1..].contains(&2), "nobody reads output or error")
        .label(c.streams[1..].contains(&3) && full_device(), "full device"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HelpCase {
    /// which request
    pub ask: u8,
    /// valid arguments before and after it
    pub before: u8,
    pub after: u8,
    pub decompress: bool,
    pub existing: bool,
}

fn k11_help(c: &HelpCase) -> CheckResult {
    let s = Scratch::new();
    let img: Vec<u8> = (0..8 * 8 * 4).map(|i| (i * 7) as u8).collect();
    s.put("work/t.png", &rgba_png(&img, 8, 8));
    let dds = DdsFile { w: 8, h: 8, fourcc: *b"DXT1", dx10: None, mips: 0, seed: 5, data: 32, odd: false };
    s.put("work/t.dds", &dds.bytes());
    if c.existing {
        s.put("work/o", b"old");
    }
    let sub = if c.decompress { "decompress" } else { "compress" };
    let all: &[&[&str]] = if c.decompress { &[&["-o", "o"], &["t.dds"]] } else { &[&["-f", "bc1"], &["-o", "o"], &["-p", "speed"], &["--weigh-colour-by-alpha"], &["t.png"]] };
    let mut a: Vec<String> = vec![];
    let version = matches!(c.ask, 2 | 3);
    match c.ask {
        0 => a.push("--help".into()),
        1 => a.push("-h".into()),
        2 => a.push("--version".into()),
        3 => a.push("-V".into()),
        4 => a.push("help".into()),
        5 => a.extend(["help".to_string(), sub.into()]),
        k => {
            a.push(sub.into());
            let add = |a: &mut Vec<String>, bits: u8| {
                for (i, o) in all.iter().enumerate() {
                    if bits >> i & 1 == 1 {
                        a.extend(o.iter().map(|x| x.to_string()));
                    }
                }
            };
            add(&mut a, c.before);
            a.push(if k == 6 { "--help" } else { "-h" }.into());
            add(&mut a, c.after & !c.before);
        }
    }
    if c.ask < 4 && c.after & 1 == 1 {
        a.push(sub.into());
        a.extend(all.iter().flat_map(|o| o.iter().map(|x| x.to_string())));
    }
    let before = snapshot(&s.path("work"));
    let mut cmd = Command::new(tool());
    cmd.args(&a).current_dir(s.path("work")).env_remove("RUST_BACKTRACE").stdin(Stdio::null()).stderr(Stdio::null());
    cmd.stdout(std::fs::File::create(s.path("stdout")).unwrap_or_else(|e| broken(&format!("scratch file: {e}"))));
    let e = wait_as(cmd)?;
    ensure!(e.ok, "{a:?} ends with status {:?}", e.code);
    let o = String::from_utf8_lossy(&std::fs::read(s.path("stdout")).unwrap_or_default()).into_owned();
    ensure!(!o.trim().is_empty(), "{a:?} prints nothing");
    if version {
        let v = std::env::var("VH_VERSION").unwrap_or_default();
        ensure!(v.is_empty() || o.split_whitespace().any(|x| x.trim_start_matches('v') == v), "{a:?} prints {o:?}, the version is {v}");
    } else if c.ask < 5 {
        ensure!(o.contains("compress") && o.contains("decompress"), "{a:?} does not mention the subcommands: {o:?}");
    } else if c.decompress {
        ensure!(o.contains("--output"), "{a:?} does not mention the options: {o:?}");
    } else {
        for x in ["--output", "--format", "--profile", "--weights", "--weigh-colour-by-alpha", "bc1", "bc5", "speed", "quality"] {
            ensure!(o.contains(x), "{a:?} does not mention {x}: {o:?}");
        }
    }
    ensure!(snapshot(&s.path("work")) == before, "{a:?}: files appeared, changed or vanished");
    Ok(Info::new(c.ask >= 6 && (c.before | c.after) > 0 || c.ask < 4 && c.after & 1 == 1)
        .label(version, "version")
        .label(!version && c.ask < 5, "help")
        .label(c.ask >= 5, "help for a subcommand"))
}

fn k11() -> Facets {
    vec![
        Box::new(PropFacet::<StreamCase> {
            name: "streams",
            rule: "valid and refused command lines with each standard stream closed, a pipe (silent, or without reader), junk or a full device, or a file; non-trivial: a stream other than /dev/null",
            quick: 800,
            thorough: 40_000,
            shrink_iters: 200,
            strat: || {
                let wrong = prop_oneof![3 => Just(0u8), 4 => 1u8..=8];
                let st = || prop_oneof![2 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8), 3 => Just(4u8)];
                ((0u8..4, img_with(tiny()), any_fmt(), cli_params(), threads()), (wrong, st(), st(), st(), any::<bool>()))
                    .prop_map(|((input, img, f, p, threads), (wrong, i, o, e, existing))| StreamCase { input, img, f, p, threads, wrong, streams: [i, o, e], existing })
                    .boxed()
            },
            check: k11_check,
        }),
        Box::new(PropFacet::<HelpCase> {
            name: "requests",
            rule: "help and version requests at every place among otherwise valid arguments; non-trivial: the command line also names files or options",
            quick: 200,
            thorough: 4000,
            shrink_iters: 100,
            strat: || {
                (0u8..8, 0u8..32, 0u8..32, any::<bool>(), any::<bool>())
                    .prop_map(|(ask, before, after, decompress, existing)| HelpCase { ask, before, after, decompress, existing })
                    .boxed()
            },
            check: k11_help,
        }),
    ]
}

pub fn registry() -> Vec<(&'static str, Facets)> {
    vec![
        ("K01", k01()),
        ("K02", k02()),
        ("K03", k03()),
        ("K04", k04()),
        ("K05", k05()),
        ("K06", k06()),
        ("K07", k07()),
        ("K08", k08()),
        ("K09", k09()),
        ("K10", k10()),
        ("K11", k11()),
    ]
}
