L = "lib/src/"
LCG = '''
struct R(u32);
impl R {
    fn n(&mut self) -> u32 { self.0 = self.0.wrapping_mul(1664525).wrapping_add(1013904223); self.0 >> 8 }
    fn b(&mut self) -> u8 { (self.n() >> 9) as u8 }
}
'''
PI_OLD = '''        for _ in 0..POWER_ITERATION_COUNT {
            // matrix multiplication
'''
SEEDS = [
 dict(id="c20-until-converged", property="C20",
  needs="a covariance that is not finite, or zero: a channel weight of alpha or a colour set that makes the power iteration yield NaN",
  breaks="the power iteration runs until it has converged, which NaN never does: the encoder hangs",
  edits=[(L + "math.rs", PI_OLD, '''        let mut change = f32::MAX;
        let mut rounds = 0;
        while rounds < POWER_ITERATION_COUNT || !(change < 1e-1) {
            rounds += 1;
            let before = v;

            // matrix multiplication
'''),
         (L + "math.rs", "            v = w * a.reciprocal();\n", "            v = w * a.reciprocal();\n            let d = v.to_vec3() - before.to_vec3();\n            change = d.length2();\n")],
  rust='''use texpresso::*;
use std::{sync::mpsc, thread, time::Duration};
fn main() {
    let (tx, rx) = mpsc::channel();
    thread::spawn(move || {
        // a completely transparent block has no colours, so its covariance is zero
        let mut o = [0u8; 8];
        Format::Bc1.compress_block_masked([[9, 9, 9, 0]; 16], 0xffff, Params::default(), &mut o);
        tx.send(o).unwrap();
    });
    assert!(rx.recv_timeout(Duration::from_secs(20)).is_ok(), "hangs");
}
'''),
 dict(id="c05-late-check", property="C05",
  needs="an output buffer that is too small",
  breaks="the length of the output buffer is only checked after the rows that fit have been written",
  edits=[(L + "lib.rs", '''        assert!(output.len() >= self.compressed_size(width, height));

        // the buffer may be larger than the compressed image
        let output = &mut output[..self.compressed_size(width, height)];
''', '''        // the buffer may be larger than the compressed image
        let size = self.compressed_size(width, height);
        let length = output.len();
        let output = &mut output[..size.min(length)];
'''), (L + "lib.rs", '''                self.compress_block_masked(source_rgba, mask, params, output_block);
            });
        });
''', '''                self.compress_block_masked(source_rgba, mask, params, output_block);
            });
        });
        assert!(length >= size);
''')],
  rust='''use texpresso::*;
fn main() {
    let mut o = [7u8; 24];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Format::Bc1.compress(&[200u8; 8 * 8 * 4], 8, 8, Params::default(), &mut o)));
    assert!(r.is_err() && o == [7u8; 24], "{o:?}");
}
'''),
 dict(id="c15-skip-three", property="C15",
  needs="an opaque BC1 block of more than twelve colours that the three-colour palette fits better, with the iterative algorithm",
  breaks="the iterative fit does not try the three-colour palette for blocks of many colours",
  edits=[(L + "colourfit/cluster.rs", '''    fn compress3(&mut self) {
        let count = self.colourset.count();
''', '''    fn compress3(&mut self) {
        let count = self.colourset.count();
        // with many colours four entries fit better
        if count > 12 && self.num_iterations > 1 && !self.colourset.is_transparent() {
            return;
        }
''')],
  rust='''use texpresso::*;
fn main() {
    // three groups of close grays: start, middle, end
    let mut a = [[0u8, 0, 0, 255]; 16];
    for i in 0..16 { let v = [4, 128, 248][i % 3] + i as u8 / 3; a[i] = [v, v, v, 255]; }
    let e = |alg| {
        let mut o = [0u8; 8];
        Format::Bc1.compress_block_masked(a, 0xffff, Params { algorithm: alg, weights: COLOUR_WEIGHTS_UNIFORM, weigh_colour_by_alpha: false }, &mut o);
        let d = Format::Bc1.decompress_block(&o);
        (0..16).map(|i| (0..3).map(|c| (d[i][c] as i32 - a[i][c] as i32).pow(2)).sum::<i32>()).sum::<i32>()
    };
    let (p, i) = (e(Algorithm::ClusterFit), e(Algorithm::IterativeClusterFit));
    println!("{p} {i}");
    assert!(i <= p + 50);
}
'''),
 dict(id="c13-max-from-zero", property="C13",
  needs="a block whose colours all project to the negative side of the principal axis",
  breaks="the search for the extreme colours starts with a maximum of zero, so the end stays at the first colour",
  edits=[(L + "colourfit/range.rs", "            let mut max = min;", "            let mut max = min.max(0.0);")],
  rust='''use texpresso::*;
fn main() {
    // red falls where green and blue rise slightly; the axis is dominated by red against the others
    let mut bad = 0;
    for k in 0..64u32 {
        let mut a = [[0u8, 0, 0, 255]; 16];
        let s = [k & 1, k >> 1 & 1, k >> 2 & 1];
        for i in 0..16u32 {
            for c in 0..3 {
                let t = (i * 5 + k) % 16;
                a[i as usize][c] = (if s[c] == 1 { 15 - t } else { t } * if c as u32 == k / 8 % 3 { 9 } else { 2 } + if c as u32 == k / 8 % 3 { 110 } else { 0 }) as u8;
            }
        }
        let mut o = [0u8; 8];
        Format::Bc1.compress_block_masked(a, 0xffff, Params { algorithm: Algorithm::RangeFit, weights: COLOUR_WEIGHTS_UNIFORM, weigh_colour_by_alpha: false }, &mut o);
        let d = Format::Bc1.decompress_block(&o);
        for i in 0..16 { for c in 0..3 { if (d[i][c] as i32 - a[i][c] as i32).abs() > 60 { bad += 1; } } }
    }
    println!("{bad} pixels far off");
    assert_eq!(bad, 0);
}
'''),
 dict(id="c07-single-four", property="C07",
  needs="a BC1 block of one colour and transparent pixels, where the four-colour mode has the smaller error",
  breaks="blocks of a single colour are tried in the four-colour mode even if they have transparent pixels",
  edits=[(L + "colourfit/single.rs", "        self.colourset.is_transparent()\n", "        // a single colour may use the more exact table of either mode\n        self.colourset.count() > 1 && self.colourset.is_transparent()\n")],
  rust='''use texpresso::*;
fn main() {
    for v in 0..=255u8 {
        let mut a = [[v, v / 2, v / 3, 255]; 16];
        a[5][3] = 0;
        let mut o = [0u8; 8];
        Format::Bc1.compress_block_masked(a, 0xffff, Params::default(), &mut o);
        assert_eq!(Format::Bc1.decompress_block(&o)[5], [0, 0, 0, 0], "{v}");
    }
}
'''),
 dict(id="c09-max-error", property="C09",
  needs="a channel for which one codebook has the smaller largest error and the other the smaller sum",
  breaks="the two codebooks are compared by their largest error instead of the sum of squares",
  edits=[(L + "alpha.rs", "        err += least;", "        err = err.max(least);")],
  rust='''use texpresso::*;
''' + LCG + '''
fn main() {
    let mut r = R(11);
    let mut bad = 0;
    for _ in 0..20000 {
        let mut a = [[0u8, 0, 0, 255]; 16];
        for p in &mut a { p[0] = match r.n() % 8 { 0 => 0, 1 => 255, _ => 60 + r.b() % 100 }; }
        let mut o = [0u8; 8];
        Format::Bc4.compress_block_masked(a, 0xffff, Params::default(), &mut o);
        let d = Format::Bc4.decompress_block(&o);
        let got: i32 = (0..16).map(|i| (d[i][0] as i32 - a[i][0] as i32).pow(2)).sum();
        // the plain eight-entry codebook from minimum to maximum
        let (lo, hi) = (a.iter().map(|p| p[0]).min().unwrap() as i32, a.iter().map(|p| p[0]).max().unwrap() as i32);
        let seven: Vec<i32> = (0..8).map(|k| ((7 - k) * lo + k * hi) / 7).collect();
        let e = |c: &[i32]| -> i32 { a.iter().map(|p| c.iter().map(|v| (v - p[0] as i32).pow(2)).min().unwrap()).sum() };
        if hi - lo >= 7 && got > e(&seven) + 40 { bad += 1; }
    }
    println!("{bad} worse than the eight-entry codebook");
    assert_eq!(bad, 0);
}
'''),
 dict(id="c16-zero-alpha", property="C16",
  needs="a BC3 block whose enabled pixels all have alpha zero",
  breaks="blocks without any alpha take a short cut in BC3 that writes other bytes than BC4 and BC5 for the same values",
  edits=[(L + "lib.rs", "            Format::Bc3 => alpha::compress_bc3(&rgba, 3, mask, &mut output[..8]),\n            Format::Bc4 => alpha::compress_bc3", '''            Format::Bc3 => {
                if rgba.iter().all(|p| p[3] == 0) {
                    output[..8].copy_from_slice(&[0u8; 8]);
                } else {
                    alpha::compress_bc3(&rgba, 3, mask, &mut output[..8])
                }
            }
            Format::Bc4 => alpha::compress_bc3''')],
  rust='''use texpresso::*;
fn main() {
    let (mut x, mut y) = ([0u8; 16], [0u8; 8]);
    Format::Bc3.compress_block_masked([[0, 0, 0, 0]; 16], 0xffff, Params::default(), &mut x);
    Format::Bc4.compress_block_masked([[0, 0, 0, 0]; 16], 0xffff, Params::default(), &mut y);
    assert_eq!(x[..8], y);
}
'''),
 dict(id="c18-race", property="C18",
  needs="several threads encoding different single-colour blocks at the same time, one reading between another's two stores",
  breaks="the last single-colour block is kept in two atomics that are not updated together",
  edits=[(L + "lib.rs", '''                    let mut fit = SingleColourFit::new(&colours, self);
                    fit.compress(colour_block);
''', '''                    // areas of one colour span many blocks
                    let first = (0..16).find(|i| mask >> i & 1 == 1 && (self != Format::Bc1 || rgba[*i][3] >= 128)).unwrap_or(0);
                    let p = rgba[first];
                    let plain = mask & 0xffff == 0xffff && !colours.is_transparent();
                    let key = 1 << 63 | u64::from(u32::from_le_bytes([p[0], p[1], p[2], self as u8]));
                    if plain && LAST_KEY.load(Ordering::Acquire) == key {
                        let code = LAST_CODE.load(Ordering::Acquire);
                        colour_block.copy_from_slice(&code.to_le_bytes());
                    } else {
                        let mut fit = SingleColourFit::new(&colours, self);
                        fit.compress(colour_block);
                        if plain {
                            let mut code = [0u8; 8];
                            code.copy_from_slice(colour_block);
                            LAST_CODE.store(u64::from_le_bytes(code), Ordering::Release);
                            LAST_KEY.store(key, Ordering::Release);
                        }
                    }
'''), (L + "lib.rs", "/// Defines a compression format\n", "use core::sync::atomic::{AtomicU64, Ordering};\nstatic LAST_KEY: AtomicU64 = AtomicU64::new(0);\nstatic LAST_CODE: AtomicU64 = AtomicU64::new(0);\n\n/// Defines a compression format\n")],
  rust='''use texpresso::*;
fn enc(v: u8) -> [u8; 8] {
    let mut o = [0u8; 8];
    Format::Bc1.compress_block_masked([[v, 255 - v, v / 2, 255]; 16], 0xffff, Params::default(), &mut o);
    o
}
fn main() {
    let want: Vec<[u8; 8]> = (0..=255u8).map(enc).collect();
    let bad: usize = std::thread::scope(|s| {
        let h: Vec<_> = (0..8u8).map(|t| { let want = &want; s.spawn(move || {
            let mut bad = 0;
            for k in 0..2_000_000u32 { let v = ((k / 3) as u8 % 4) * 50 + (t % 2); if enc(v) != want[v as usize] { bad += 1; } }
            bad
        }) }).collect();
        h.into_iter().map(|h| h.join().unwrap()).sum()
    });
    println!("{bad} wrong blocks");
    assert_eq!(bad, 0);
}
''', opts="release=True"),
 dict(id="c12-close-colours", property="C12",
  needs="two colours that differ by two or three steps in one channel only, under range fit",
  breaks="range fit treats blocks whose colours span little as one colour",
  edits=[(L + "colourfit/range.rs", '''        // clamp the output to [0, 1]
        let one''', '''        // not worth two endpoints
        if (end - start).length2() < 0.009 {
            end = start;
        }

        // clamp the output to [0, 1]
        let one''')],
  rust='''use texpresso::*;
fn main() {
    let mut a = [[8u8, 0, 0, 255]; 16];
    a[3] = [24, 0, 0, 255];
    let mut o = [0u8; 8];
    Format::Bc1.compress_block_masked(a, 0xffff, Params { algorithm: Algorithm::RangeFit, ..Default::default() }, &mut o);
    let d = Format::Bc1.decompress_block(&o);
    assert_eq!((d[0], d[3]), (a[0], a[3]));
}
'''),
]
