L = "lib/src/"
LCG = '''
struct R(u32);
impl R {
    fn n(&mut self) -> u32 { self.0 = self.0.wrapping_mul(1664525).wrapping_add(1013904223); self.0 >> 8 }
    fn b(&mut self) -> u8 { (self.n() >> 9) as u8 }
}
'''
TOTAL = '''use texpresso::*;
''' + LCG + '''
fn main() {
    // total error of the iterative fit over many random blocks; perceptual weights, all colours distinct
    let mut r = R(7);
    let (mut plain, mut iter) = (0f64, 0f64);
    for _ in 0..6000 {
        let mut a = [[0u8, 0, 0, 255]; 16];
        for p in &mut a { for k in 0..3 { p[k] = r.b(); } }
        let mut e = [0f64; 2];
        for (k, alg) in [Algorithm::ClusterFit, Algorithm::IterativeClusterFit].into_iter().enumerate() {
            let mut o = [0u8; %(size)d];
            Format::%(fmt)s.compress_block_masked(a, 0xffff, Params { algorithm: alg, weights: COLOUR_WEIGHTS_PERCEPTUAL, weigh_colour_by_alpha: false }, &mut o);
            let d = Format::%(fmt)s.decompress_block(&o);
            for i in 0..16 { for c in 0..3 { e[k] += (d[i][c] as f64 - a[i][c] as f64).powi(2) * COLOUR_WEIGHTS_PERCEPTUAL[c] as f64; } }
        }
        plain += e[0];
        iter += e[1];
    }
    let gain = 1.0 - iter / plain;
    println!("gain {gain}");
    assert!(gain > %(gain)s);
}
'''
SEEDS = [
 dict(id="c21-three-rounds", property="C21",
  needs="a block whose order keeps improving after the third round",
  breaks="refinement of the four-colour palette ends after three rounds",
  edits=[(L + "colourfit/cluster.rs", '''        let mut best_j = 0;
        let mut best_k = 0;

        // inital ordering is computed using principle axis
        let mut axis = self.principle;

        for iteration_index in 0..self.num_iterations {''', '''        let mut best_j = 0;
        let mut best_k = 0;

        // inital ordering is computed using principle axis
        let mut axis = self.principle;

        for iteration_index in 0..self.num_iterations.min(3) {''')],
  rust=TOTAL % dict(size=16, fmt="Bc3", gain="0.172"), opts="release=True"),
 dict(id="c21-short-comparison", property="C21",
  needs="a refined order that differs from an earlier one only in its upper half",
  breaks="an order counts as already tried if its first eight colours are in the same order",
  edits=[(L + "colourfit/cluster.rs", "            for j in 0..self.order[iteration].len() {", "            for j in 0..self.order[iteration].len() / 2 {")],
  rust=TOTAL % dict(size=16, fmt="Bc3", gain="0.172"), opts="release=True"),
 dict(id="c18-memo-params", property="C18",
  needs="two blocks with the same colours encoded one after the other with different channel weights",
  breaks="the endpoints of the last cluster fit are reused if the block is the same, whatever the weights",
  edits=[(L + "lib.rs", '''                    let iterate = params.algorithm == Algorithm::IterativeClusterFit;
                    let mut fit = ClusterFit::new(&colours, self, params.weights, iterate);
                    fit.compress(colour_block);''', '''                    let iterate = params.algorithm == Algorithm::IterativeClusterFit;
                    // blocks often repeat
                    let mut key = 14695981039346656037u64;
                    for (i, p) in rgba.iter().enumerate() {
                        let p = if mask >> i & 1 == 0 { [0; 4] } else { *p };
                        key = (key ^ u64::from(u32::from_le_bytes(p))).wrapping_mul(1099511628211).rotate_left(23);
                    }
                    key = (key ^ u64::from(mask)) << 4
                        | (self as u64) << 2
                        | u64::from(iterate) << 1
                        | u64::from(params.weigh_colour_by_alpha);
                    if LAST_KEY.load(Ordering::Acquire) == key {
                        let code = LAST_CODE.load(Ordering::Acquire);
                        if LAST_KEY.load(Ordering::Acquire) == key {
                            colour_block.copy_from_slice(&code.to_le_bytes());
                            return;
                        }
                    }
                    let mut fit = ClusterFit::new(&colours, self, params.weights, iterate);
                    fit.compress(colour_block);
                    let mut code = [0u8; 8];
                    code.copy_from_slice(colour_block);
                    LAST_KEY.store(0, Ordering::Release);
                    LAST_CODE.store(u64::from_le_bytes(code), Ordering::Release);
                    LAST_KEY.store(key, Ordering::Release);'''),
         (L + "lib.rs", "/// Defines a compression format\n", "use core::sync::atomic::{AtomicU64, Ordering};\nstatic LAST_KEY: AtomicU64 = AtomicU64::new(0);\nstatic LAST_CODE: AtomicU64 = AtomicU64::new(0);\n\n/// Defines a compression format\n")],
  rust='''use texpresso::*;
''' + LCG + '''
fn main() {
    let mut r = R(3);
    for _ in 0..50 {
        let mut a = [[0u8, 0, 0, 255]; 16];
        for p in &mut a { for k in 0..3 { p[k] = r.b(); } }
        let run = |w| { let mut o = [0u8; 16]; Format::Bc2.compress_block_masked(a, 0xffff, Params { weights: w, ..Default::default() }, &mut o); o };
        let x = run([1.0, 0.1, 0.1]);
        let y = run([0.1, 0.1, 1.0]);
        assert_eq!(run([1.0, 0.1, 0.1]), x);
        // something else in between
        Format::Bc1.compress_block_masked([[1, 2, 3, 255]; 16], 0xffff, Params::default(), &mut [0u8; 8]);
        let mut b = a;
        b[3][1] ^= 64;
        Format::Bc2.compress_block_masked(b, 0xffff, Params::default(), &mut [0u8; 16]);
        assert_eq!(run([0.1, 0.1, 1.0]), y);
    }
}
'''),
 dict(id="c04-skip-repeat", property="C04",
  needs="an image whose last block column or row is partial and whose visible pixels equal the block before",
  breaks="a block whose pixel buffer is unchanged reuses the block before it, also at the edge, where the mask differs",
  edits=[(L + "lib.rs", '''            let mut source_rgba = [[0u8; 4]; 16];
            let output_blocks = output_row.chunks_mut(block_size);
''', '''            let mut source_rgba = [[0u8; 4]; 16];
            let mut previous = None;
            let output_blocks = output_row.chunks_mut(block_size);
'''),
         (L + "lib.rs", "                self.compress_block_masked(source_rgba, mask, params, output_block);\n", '''                match previous {
                    Some((pixels, code)) if pixels == source_rgba => {
                        let code: [u8; 16] = code;
                        output_block.copy_from_slice(&code[..block_size]);
                    }
                    _ => {
                        self.compress_block_masked(source_rgba, mask, params, output_block);
                        let mut code = [0u8; 16];
                        code[..block_size].copy_from_slice(output_block);
                        previous = Some((source_rgba, code));
                    }
                }
''')],
  rust='''use texpresso::*;
fn main() {
    // two blocks, the second two pixels wide and equal to the left half of the first
    let mut px = vec![0u8; 6 * 4 * 4];
    for y in 0..4 { for x in 0..6 { let v = ((x % 4) * 60 + y * 5) as u8; px[4 * (6 * y + x)..][..4].copy_from_slice(&[v, 255 - v, v / 2, v]); } }
    for f in [Format::Bc1, Format::Bc3, Format::Bc5] {
        let n = f.block_size();
        let mut o = vec![0u8; 2 * n];
        f.compress(&px, 6, 4, Params::default(), &mut o);
        let mut b = [[0u8; 4]; 16];
        for y in 0..4 { for x in 0..2 { b[4 * y + x].copy_from_slice(&px[4 * (6 * y + 4 + x)..][..4]); } }
        let mut e = vec![0u8; n];
        f.compress_block_masked(b, 0x3333, Params::default(), &mut e);
        assert_eq!(&o[n..], &e[..], "{f:?}");
    }
}
'''),
 dict(id="c03-repeat-decode", property="C03",
  needs="two neighbouring blocks of a 16-byte format that agree in their first half only",
  breaks="a block with the same leading eight bytes as the one before it in the row is not decoded again",
  edits=[(L + "lib.rs", "                let rgba = self.decompress_block(&data[bidx..bidx + block_size]);\n", '''                if x == 0 || data[bidx..bidx + 8] != data[bidx - block_size..][..8] {
                    rgba = self.decompress_block(&data[bidx..bidx + block_size]);
                }
'''),
         (L + "lib.rs", "            for x in 0..blocks_wide {\n                // decompress the block\n", "            let mut rgba = [[0u8; 4]; 16];\n            for x in 0..blocks_wide {\n")],
  rust='''use texpresso::*;
fn main() {
    let mut d = [0u8; 32];
    d[24..].copy_from_slice(&[255, 255, 0, 0, 0, 0, 0, 0]);
    let mut o = vec![0u8; 8 * 4 * 4];
    Format::Bc3.decompress(&d, 8, 4, &mut o);
    let b = Format::Bc3.decompress_block(&d[16..]);
    assert_eq!(&o[16..20], &b[0][..]);
}
'''),
 dict(id="c02-fifth-reciprocal", property="C02",
  needs="a five-step channel block with large endpoints",
  breaks="division by five is replaced by a reciprocal that is one too large for some large sums",
  edits=[(L + "alpha.rs", "            codes[1 + i as usize] = (((5 - i) * alpha0 + i * alpha1) / 5) as u8\n", "            codes[1 + i as usize] = ((((5 - i) * alpha0 + i * alpha1) * 205) >> 10) as u8\n")],
  rust='''use texpresso::*;
fn main() {
    for a in 0..=255u32 { for b in a..=255 {
        let o = Format::Bc4.decompress_block(&[a as u8, b as u8, 0b11010001, 0b01011000, 0, 0, 0, 0]);
        // indices 1, 2, 3, 4, 5
        let want = [b, (4 * a + b) / 5, (3 * a + 2 * b) / 5, (2 * a + 3 * b) / 5, (a + 4 * b) / 5];
        for i in 0..5 { assert_eq!(o[i][0] as u32, want[i], "{a} {b} {i}"); }
    } }
}
'''),
 dict(id="c01-third-reciprocal", property="C01",
  needs="a four-colour block with bright endpoints",
  breaks="division by three is replaced by a reciprocal that is one too large for some large sums",
  edits=[(L + "colourblock.rs", "            codes[8 + i] = ((2 * c + d) / 3) as u8;\n", "            codes[8 + i] = (((2 * c + d) * 171) >> 9) as u8;\n")],
  rust='''use texpresso::*;
fn main() {
    let x = |v: u32| v << 2 | v >> 4;
    for a in 1..64u32 { for b in 0..a {
        let (p, q) = (((a << 5) as u16).to_le_bytes(), ((b << 5) as u16).to_le_bytes());
        let o = Format::Bc1.decompress_block(&[p[0], p[1], q[0], q[1], 0b10, 0, 0, 0]);
        assert_eq!(o[0][1] as u32, (2 * x(a) + x(b)) / 3);
    } }
}
'''),
 dict(id="c09-reuse-masked-index", property="C09",
  needs="a masked pixel whose hidden value equals that of the next enabled pixel",
  breaks="a pixel equal to the one before copies its index even if that one is disabled and has the index zero",
  edits=[(L + "alpha.rs", "        let value = rgba[i][channel];\n        let mut least = u32::MAX;\n", '''        let value = rgba[i][channel];
        if i > 0 && value == rgba[i - 1][channel] {
            // same value, same code
            indices[i] = indices[i - 1];
            let dist = i32::from(value) - i32::from(codes[indices[i] as usize]);
            err += (dist * dist) as u32;
            continue;
        }
        let mut least = u32::MAX;
''')],
  rust='''use texpresso::*;
fn main() {
    let mut a = [[0u8, 0, 0, 255]; 16];
    for i in 0..16 { a[i][0] = [0, 40, 80, 120, 160, 200, 240, 255][i / 2]; }
    let mut o = [0u8; 8];
    Format::Bc4.compress_block_masked(a, 0xaaaa, Params::default(), &mut o);
    let d = Format::Bc4.decompress_block(&o);
    for i in (1..16).step_by(2) { assert!((d[i][0] as i32 - a[i][0] as i32).abs() < 20); }
}
'''),
 dict(id="c14-last-cluster", property="C14",
  needs="a block whose best division leaves the last palette position unused",
  breaks="divisions with an empty last cluster are not tried in the four-colour search",
  edits=[(L + "colourfit/cluster.rs", "for k in kmin..=count {", "for k in kmin..count {")],
  rust='''use texpresso::*;
''' + LCG + '''
fn main() {
    // blocks of a few close colours
    let mut r = R(9);
    let mut total = 0f64;
    for _ in 0..20000 {
        let base = [r.b() & 31, r.b() & 15, 128 + (r.b() & 127)];
        let mut c = [[0u8; 4]; 3];
        for q in &mut c { *q = [base[0] + (r.b() & 7), base[1] + (r.b() & 3), base[2].saturating_add(r.b() & 7), 255]; }
        let mut a = [c[0]; 16];
        for i in 0..16 { a[i] = c[(r.b() % 3) as usize]; }
        let mut o = [0u8; 8];
        Format::Bc1.compress_block_masked(a, 0xffff, Params { weights: COLOUR_WEIGHTS_UNIFORM, ..Default::default() }, &mut o);
        let d = Format::Bc1.decompress_block(&o);
        for i in 0..16 { for k in 0..3 { total += (d[i][k] as f64 - a[i][k] as f64).powi(2); } }
    }
    println!("total {total}");
    assert!(total <= 1850000.0);
}
''', opts="release=True"),
 dict(id="c16-bc5-copy", property="C16",
  needs="a BC5 block whose first eight pixels have equal red and green, and the others not",
  breaks="a BC5 block that looks gray in its upper half gets the red block for green as well",
  edits=[(L + "lib.rs", "                alpha::compress_bc3(&rgba, 1, mask, &mut output[8..16]);\n", '''                if rgba[..8].iter().all(|p| p[0] == p[1]) {
                    // gray, both halves are the same
                    let (red, green) = output.split_at_mut(8);
                    green[..8].copy_from_slice(red);
                } else {
                    alpha::compress_bc3(&rgba, 1, mask, &mut output[8..16]);
                }
''')],
  rust='''use texpresso::*;
fn main() {
    let mut a = [[0u8, 0, 0, 255]; 16];
    for i in 0..16 { a[i] = [i as u8 * 10, if i < 8 { i as u8 * 10 } else { 200 }, 0, 255]; }
    let mut o = [0u8; 16];
    Format::Bc5.compress_block_masked(a, 0xffff, Params::default(), &mut o);
    let d = Format::Bc5.decompress_block(&o);
    for i in 0..16 { assert!((d[i][1] as i32 - a[i][1] as i32).abs() < 40); }
}
'''),
 dict(id="c20-min-by", property="C20",
  needs="range fit with a weight that is not a number, or so large that distances are infinite minus infinite",
  breaks="the nearest code is found with a comparison that panics on NaN",
  edits=[(L + "colourfit/range.rs", '''            let mut dist = f32::MAX;
            let mut idx = 0;

            for (j, code) in codes.iter().enumerate() {
                let d = (self.weights * (values[i] - code)).length2();
                if d < dist {
                    dist = d;
                    idx = j;
                }
            }
''', '''            let (idx, dist) = codes
                .iter()
                .map(|code| (self.weights * (values[i] - code)).length2())
                .enumerate()
                .min_by(|a, b| a.1.partial_cmp(&b.1).unwrap())
                .unwrap();
''')],
  rust='''use texpresso::*;
fn main() {
    let mut a = [[0u8, 0, 0, 255]; 16];
    for i in 0..16 { a[i] = [i as u8 * 10, 200 - i as u8, 40, 255]; }
    let mut o = [0u8; 8];
    Format::Bc1.compress_block_masked(a, 0xffff, Params { algorithm: Algorithm::RangeFit, weights: [f32::NAN, 1.0, 1.0], weigh_colour_by_alpha: false }, &mut o);
}
'''),
 dict(id="c08-integer-rounding", property="C08",
  needs="one of a few alpha values at the border between two levels",
  breaks="alpha is reduced to four bits with an integer approximation that differs for some values",
  edits=[(L + "alpha.rs", "        let mut quant1 = f32_to_i32_clamped(alpha1, 15) as u8;", "        let mut quant1 = ((u32::from(rgba[2 * i][3]) * 15 + 128) >> 8) as u8;"),
         (L + "alpha.rs", "        let alpha1 = f32::from(rgba[2 * i][3]) * (15.0 / 255.0);\n", "")],
  rust='''use texpresso::*;
fn main() {
    for v in 0..=255u32 {
        let a = [[0, 0, 0, v as u8]; 16];
        let mut o = [0u8; 16];
        Format::Bc2.compress_block_masked(a, 0xffff, Params::default(), &mut o);
        let d = Format::Bc2.decompress_block(&o);
        for p in d { assert!((p[3] as i32 - v as i32).abs() <= 8, "{v}"); }
        let best = (0..16).map(|k| (k * 17 - v as i32).abs()).min().unwrap();
        assert_eq!((d[0][3] as i32 - v as i32).abs(), best, "{v}");
    }
}
'''),
 dict(id="c14-alpha-weight", property="C14",
  needs="alpha weighting with pixels of very low alpha",
  breaks="the alpha weight is alpha/255, at least 1/255, instead of (alpha+1)/256",
  edits=[(L + "colourset.rs", '''                    // ensure weight is always nonzero even when alpha is not
                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 256f32;

                    // store point''', '''                    // ensure weight is always nonzero even when alpha is not
                    let w = i32::from(rgba[i][3]).max(1) as f32 / 255f32;

                    // store point'''),
         (L + "colourset.rs", '''                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 256f32;

                    // map this''', '''                    let w = i32::from(rgba[i][3]).max(1) as f32 / 255f32;

                    // map this''')],
  rust='''use texpresso::*;
fn main() {
    // alpha 0 and 1: twice the weight, so a block of alphas 0 and 1 is fitted as one of 127 and 255
    let mut s = 77u32;
    let mut r = || { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 20) as u8 };
    for _ in 0..300 {
        let mut a = [[0u8; 4]; 16];
        for p in &mut a { *p = [r(), r(), r(), r() & 1]; }
        let run = |a| { let mut o = [0u8; 16]; Format::Bc3.compress_block_masked(a, 0xffff, Params { weigh_colour_by_alpha: true, ..Default::default() }, &mut o); o };
        let x = run(a);
        for p in &mut a { p[3] = if p[3] == 0 { 127 } else { 255 }; }
        // weights scale by 128
        let y = run(a);
        assert_eq!(x[8..], y[8..]);
    }
}
''', opts="release=True"),
 dict(id="c13-last-pixel", property="C13",
  needs="a block of sixteen different colours whose last one is an extreme",
  breaks="the sixteenth colour is left out when range fit looks for the extremes",
  edits=[(L + "colourfit/range.rs", "            for &val in values.iter().take(count).skip(1) {", "            for &val in values[..count.min(15)].iter().skip(1) {")],
  rust='''use texpresso::*;
fn main() {
    let mut a = [[0u8, 0, 0, 255]; 16];
    for i in 0..16 { let v = (i * 17) as u8; a[i] = [v, v, v, 255]; }
    let mut o = [0u8; 16];
    Format::Bc3.compress_block_masked(a, 0xffff, Params { algorithm: Algorithm::RangeFit, ..Default::default() }, &mut o);
    assert_eq!(Format::Bc3.decompress_block(&o)[15], [255; 4]);
}
'''),
 dict(id="c11-partial-mask", property="C11",
  needs="a partial block (image edge) of one colour that 5:6:5 cannot hold exactly",
  breaks="the optimal table for single colours is only used for full blocks",
  edits=[(L + "lib.rs", "                if colours.count() == 1 {", "                if colours.count() == 1 && (mask & 0xffff == 0xffff) {")],
  rust='''use texpresso::*;
fn main() {
    for v in 0..=255u8 {
        let run = |m| {
            let mut o = [0u8; 8];
            Format::Bc1.compress_block_masked([[v, v, v, 255]; 16], m, Params::default(), &mut o);
            Format::Bc1.decompress_block(&o)[0]
        };
        assert_eq!(run(0xffff), run(0x7777), "{v}");
    }
}
'''),
 dict(id="c07-alpha-average", property="C07",
  needs="a BC1 block with duplicate colours, one opaque and one nearly so",
  breaks="a pixel is transparent if it duplicates an earlier colour and its alpha is below 192",
  edits=[(L + "colourset.rs", '''                    // map this point to its duplicate and increase the duplicate's weight
''', '''                    // half-transparent copies of an opaque colour are cut out
                    if format == Format::Bc1 && rgba[i][3] < 192 && rgba[j][3] == 255 {
                        set.remap[i] = -1;
                        set.transparent = true;
                        break;
                    }

                    // map this point to its duplicate and increase the duplicate's weight
''')],
  rust='''use texpresso::*;
fn main() {
    let mut a = [[200u8, 10, 60, 255]; 16];
    a[9][3] = 150;
    let mut o = [0u8; 8];
    Format::Bc1.compress_block_masked(a, 0xffff, Params::default(), &mut o);
    assert!(Format::Bc1.decompress_block(&o).iter().all(|p| p[3] == 255));
}
'''),
 dict(id="c06-weights-of-hidden", property="C06",
  needs="alpha weighting and a disabled pixel that comes after an enabled one of the same colour",
  breaks="disabled pixels of a colour that is already in the set add to its weight",
  edits=[(L + "colourset.rs", '''                set.remap[i] = -1;
                continue;
            }

            // DXT uses''', '''                set.remap[i] = -1;
                if let Some(j) = (0..i).find(|&j| rgba[j] == rgba[i] && set.remap[j] >= 0) {
                    set.weights[set.remap[j] as usize] += 1f32 / 256f32;
                }
                continue;
            }

            // DXT uses''')],
  rust='''use texpresso::*;
''' + LCG + '''
fn main() {
    let mut r = R(11);
    for _ in 0..3000 {
        let mut a = [[0u8, 0, 0, 255]; 16];
        for p in &mut a { *p = [r.b(), r.b(), r.b(), r.b() & 7]; }
        for k in 8..16 { a[k] = a[k % 3]; }
        let mut b = a;
        for k in 8..16 { b[k] = [9, 8, 7, 6]; }
        let run = |a| { let mut o = [0u8; 16]; Format::Bc3.compress_block_masked(a, 0x00ff, Params { weigh_colour_by_alpha: true, ..Default::default() }, &mut o); o };
        assert_eq!(run(a), run(b));
    }
}
''', opts="release=True"),
 dict(id="c17-weights-normalised", property="C17",
  needs="channel weights scaled so that they sum to less than one",
  breaks="cluster fit raises weights that sum to less than one to at least a hundredth each",
  edits=[(L + "colourfit/cluster.rs", "        // get the covariance matrix\n", "        // very small weights lose precision\n        let m = fit.weights;\n        if m.x() + m.y() + m.z() < 1.0 / 256.0 {\n            fit.weights = m.max(Vec4::new(1e-5, 1e-5, 1e-5, 0.0));\n        }\n\n        // get the covariance matrix\n")],
  rust='''use texpresso::*;
''' + LCG + '''
fn main() {
    let mut r = R(5);
    for _ in 0..200 {
        let mut a = [[0u8, 0, 0, 255]; 16];
        for p in &mut a { for k in 0..3 { p[k] = r.b(); } }
        let run = |s: f32| { let mut o = [0u8; 8]; Format::Bc1.compress_block_masked(a, 0xffff, Params { weights: [0.5 * s, 0.4 * s, 0.01 * s], ..Default::default() }, &mut o); o };
        assert_eq!(run(1.0), run(1.0 / 4096.0));
    }
}
''', opts="release=True"),
]
