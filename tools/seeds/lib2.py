L = "lib/src/"
SEEDS = [
 dict(id="c13-count-duplicates", property="C13",
  needs="a BC1 block with repeated colours where counting each pixel instead of each colour changes which palette is better",
  breaks="range fit weighs each colour by its pixel count when it chooses between the three- and four-colour palettes",
  edits=[(L + "colourfit/range.rs", "            error += dist;", "            error += dist * self.colourset.weights()[i];")],
  rust='''use texpresso::*;
fn main() {
    let mut s = 5u32;
    let mut r = || { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 20) as u8 };
    let mut clear = 0;
    for _ in 0..3000 {
        // black, white and three grays of different frequency
        let g = [r(), r(), r()];
        let n = 3 + (r() % 8) as usize;
        let mut a = [[0u8, 0, 0, 255]; 16];
        a[1] = [255, 255, 255, 255];
        for i in 2..16 { let v = g[if i < 2 + n { 0 } else if i % 2 == 0 { 1 } else { 2 }]; a[i] = [v, v, v, 255]; }
        let mut set: Vec<u8> = a.iter().map(|p| p[0]).collect();
        set.sort();
        set.dedup();
        let e = |pal: &[f64]| -> f64 { set.iter().map(|&v| pal.iter().map(|p| (p - v as f64 / 255.0).powi(2)).fold(f64::MAX, f64::min)).sum() };
        let (e3, e4) = (e(&[0.0, 1.0, 0.5]), e(&[0.0, 1.0, 1.0 / 3.0, 2.0 / 3.0]));
        if (e3 - e4).abs() < 1e-4 { continue; }
        clear += 1;
        let mut o = [0u8; 8];
        Format::Bc1.compress_block_masked(a, 0xffff, Params { algorithm: Algorithm::RangeFit, weights: COLOUR_WEIGHTS_UNIFORM, weigh_colour_by_alpha: false }, &mut o);
        let (x, y) = (u16::from_le_bytes([o[0], o[1]]), u16::from_le_bytes([o[2], o[3]]));
        assert_eq!(x <= y, e3 < e4, "{g:?} {e3} {e4}");
    }
    println!("{clear} clear cases");
}
'''),
 dict(id="c13-unweighted-distance", property="C13",
  needs="range fit with unequal channel weights and a colour whose nearest entry differs with and without weights",
  breaks="range fit's nearest entry ignores the channel weights in the four-colour mode of BC2 and BC3 (weights applied after squaring only to the sum)",
  edits=[(L + "colourfit/range.rs", "                let d = (self.weights * (values[i] - code)).length2();", "                let d = (values[i] - code).length2() * self.weights.length2();")],
  rust='''use texpresso::*;
fn main() {
    // between two entries: near the first in red, near the second in green
    let mut a = [[0u8, 0, 0, 255]; 16];
    a[1] = [255, 255, 255, 255];
    a[2] = [20, 70, 40, 255];
    let run = |w| {
        let mut o = [0u8; 16];
        Format::Bc3.compress_block_masked(a, 0xffff, Params { algorithm: Algorithm::RangeFit, weights: w, weigh_colour_by_alpha: false }, &mut o);
        Format::Bc3.decompress_block(&o)[2]
    };
    assert_eq!(run([1.0, 0.01, 0.01])[0], 0);
    assert_eq!(run([0.01, 1.0, 0.01])[0], 85);
}
'''),
 dict(id="c13-two-iterations", property="C13",
  needs="a block whose covariance has no clearly dominant direction, so that two power iterations have not converged",
  breaks="the principal axis is not reached, range fit takes endpoints that are not the extremes along it",
  edits=[(L + "math.rs", "const POWER_ITERATION_COUNT: usize = 8;", "const POWER_ITERATION_COUNT: usize = 1;")],
  rust='''use texpresso::*;
// the covariance has eigenvalue ratio about one half; extremes along the main axis are known by construction
fn main() {
    let mut bad = 0;
    for k in 0..64u32 {
        let mut a = [[128u8, 128, 128, 255]; 16];
        let mut s = k * 7919 + 1;
        let mut r = || { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 16) as i32 % 90 - 45 };
        for i in 0..16 {
            // spread 3:2 along red and along green-blue
            let (p, q) = (r() * 5 / 4, r());
            a[i] = [(128 + p) as u8, (128 + q * 7 / 10) as u8, (128 - q * 7 / 10) as u8, 255];
        }
        // f64 power iteration
        let pts: Vec<[f64; 3]> = { let mut v: Vec<[u8; 4]> = a.to_vec(); v.sort(); v.dedup(); v.iter().map(|p| [p[0] as f64, p[1] as f64, p[2] as f64]).collect() };
        let mut cnt = vec![0f64; pts.len()];
        for p in &a { let i = pts.iter().position(|q| q[0] == p[0] as f64 && q[1] == p[1] as f64 && q[2] == p[2] as f64).unwrap(); cnt[i] += 1.0; }
        let w: Vec<f64> = cnt.iter().map(|c| c.sqrt()).collect();
        let t: f64 = w.iter().sum();
        let m: Vec<f64> = (0..3).map(|c| pts.iter().zip(&w).map(|(p, w)| p[c] * w).sum::<f64>() / t).collect();
        let mut cov = [[0f64; 3]; 3];
        for (p, w) in pts.iter().zip(&w) { for x in 0..3 { for y in 0..3 { cov[x][y] += w * (p[x] - m[x]) * (p[y] - m[y]); } } }
        let pow = |n: usize, mut v: [f64; 3]| {
            for _ in 0..n {
                let mut u = [0f64; 3];
                for x in 0..3 { for y in 0..3 { u[x] += cov[x][y] * v[y]; } }
                let l = (u[0] * u[0] + u[1] * u[1] + u[2] * u[2]).sqrt();
                v = [u[0] / l, u[1] / l, u[2] / l];
            }
            v
        };
        let (v8, v) = (pow(8, [1.0, 0.9, -0.9]), pow(500, [1.0, 0.9, -0.9]));
        if (v8[0] * v[0] + v8[1] * v[1] + v8[2] * v[2]).abs() < 0.9999 { continue; } // not converged anyway
        let d = |p: [f64; 3]| p[0] * v[0] + p[1] * v[1] + p[2] * v[2];
        let (lo, hi) = pts.iter().fold((f64::MAX, f64::MIN), |(l, h), p| (l.min(d(*p)), h.max(d(*p))));
        let mut o = [0u8; 16];
        Format::Bc3.compress_block_masked(a, 0xffff, Params { algorithm: Algorithm::RangeFit, weights: COLOUR_WEIGHTS_UNIFORM, weigh_colour_by_alpha: false }, &mut o);
        let e = |i: usize| { let q = u16::from_le_bytes([o[8 + i], o[9 + i]]); [(q >> 11) as f64 / 31.0 * 255.0, (q >> 5 & 63) as f64 / 63.0 * 255.0, (q & 31) as f64 / 31.0 * 255.0] };
        if (d(e(0)) - d(e(2))).abs() < hi - lo - 18.0 { bad += 1; }
    }
    println!("{bad} blocks with short endpoints");
    assert_eq!(bad, 0);
}
'''),
 dict(id="c14-no-sqrt", property="C14",
  needs="a block in which colours have different pixel counts",
  breaks="cluster fit weighs colours by their pixel count instead of its square root (with alpha weighting on only)",
  edits=[(L + "colourset.rs", "        for w in set.weights.iter_mut() {\n            *w = libm::sqrtf(*w);\n        }", "        if !alpha_weighted {\n            for w in set.weights.iter_mut() {\n                *w = libm::sqrtf(*w);\n            }\n        }")],
  rust='''use texpresso::*;
fn main() {
    // fully opaque: alpha weighting must make no difference
    let mut s = 99u32;
    let mut r = || { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 20) as u8 };
    for _ in 0..200 {
        let c = [[r(), r(), r(), 255], [r(), r(), r(), 255], [r(), r(), r(), 255], [r(), r(), r(), 255], [r(), r(), r(), 255]];
        let mut a = [c[0]; 16];
        for i in 9..16 { a[i] = c[(i % 4) + 1]; }
        let mut o = [[0u8; 16]; 2];
        for k in 0..2 { Format::Bc3.compress_block_masked(a, 0xffff, Params { weigh_colour_by_alpha: k == 1, ..Default::default() }, &mut o[k]); }
        assert_eq!(o[0], o[1]);
    }
}
''', opts="release=True"),
 dict(id="c15-wrong-order", property="C15",
  needs="a BC1 block with transparency whose iterative three-colour fit improves in a later iteration",
  breaks="the clusters found by a later iteration are applied to the ordering of the first one",
  edits=[(L + "colourfit/cluster.rs", "                        best_j = j;\n                        best_error = error;\n                        best_iteration = iteration_index;\n", "                        best_j = j;\n                        best_error = error;\n")],
  rust='''use texpresso::*;
fn main() {
    let mut s = 5u32;
    let mut r = || { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 20) as u8 };
    let mut bad = 0;
    for _ in 0..6000 {
        // distinct colours only, so each counts once
        let mut a = [[0u8, 0, 0, 255]; 16];
        for p in &mut a { *p = [r(), r(), r(), 255]; }
        a[3][3] = 0;
        let mut e = [0f64; 2];
        for (k, alg) in [Algorithm::ClusterFit, Algorithm::IterativeClusterFit].into_iter().enumerate() {
            let mut o = [0u8; 8];
            Format::Bc1.compress_block_masked(a, 0xffff, Params { algorithm: alg, weights: COLOUR_WEIGHTS_UNIFORM, weigh_colour_by_alpha: false }, &mut o);
            let ep = |i: usize| { let q = u16::from_le_bytes([o[i], o[1 + i]]); [(q >> 11) as f64 / 31.0, (q >> 5 & 63) as f64 / 63.0, (q & 31) as f64 / 31.0] };
            let (x, y) = (ep(0), ep(2));
            for i in 0..16 {
                if a[i][3] == 0 { continue; }
                let t = [0.0, 1.0, 0.5, 99.0][(o[4 + i / 4] >> (2 * (i % 4)) & 3) as usize];
                e[k] += (0..3).map(|c| (x[c] * (1.0 - t) + y[c] * t - a[i][c] as f64 / 255.0).powi(2)).sum::<f64>();
            }
        }
        if e[1] > e[0] + 1e-3 { bad += 1; }
    }
    println!("{bad} blocks worse");
    assert_eq!(bad, 0);
}
''', opts="release=True"),
 dict(id="c16-invisible-colour", property="C16",
  needs="a BC2 or BC3 block with different colours, pixels of alpha 0 among them, alpha weighting off",
  breaks="invisible pixels get the small alpha weight even without alpha weighting, so the colour part depends on alpha",
  edits=[(L + "colourset.rs", "                    set.weights[set.count] = if alpha_weighted { w } else { 1f32 };", "                    set.weights[set.count] = if alpha_weighted || (format != Format::Bc1 && rgba[i][3] == 0) {\n                        w\n                    } else {\n                        1f32\n                    };")],
  rust='''use texpresso::*;
fn main() {
    let mut s = 5u32;
    let mut r = || { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 20) as u8 };
    for _ in 0..50 {
        let mut a = [[0u8; 4]; 16];
        for p in &mut a { *p = [r(), r(), r(), 255]; }
        let mut b = a;
        for i in 0..8 { b[i][3] = 0; }
        let mut o = [[0u8; 16]; 2];
        Format::Bc3.compress_block_masked(a, 0xffff, Params::default(), &mut o[0]);
        Format::Bc3.compress_block_masked(b, 0xffff, Params::default(), &mut o[1]);
        assert_eq!(o[0][8..], o[1][8..]);
    }
}
'''),
 dict(id="c17-weight-floor", property="C17",
  needs="channel weights below one thousandth",
  breaks="channel weights have a lower limit, so scaling all of them down changes the encoding",
  edits=[(L + "colourfit/cluster.rs", "weights: Vec4::new(weights[0], weights[1], weights[2], 1.0),", "weights: Vec4::new(weights[0], weights[1], weights[2], 1.0)\n                .max(Vec4::new(1e-4, 1e-4, 1e-4, 1.0)),")],
  rust='''use texpresso::*;
fn main() {
    let mut s = 5u32;
    let mut r = || { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 20) as u8 };
    for _ in 0..300 {
        let mut a = [[0u8, 0, 0, 255]; 16];
        for p in &mut a { *p = [r(), r(), r(), 255]; }
        let mut o = [[0u8; 16]; 2];
        for k in 0..2 {
            let f = if k == 0 { 1.0 } else { 1.0 / 16384.0 };
            Format::Bc3.compress_block_masked(a, 0xffff, Params { weights: [0.25 * f, 1.0 * f, 0.125 * f], ..Default::default() }, &mut o[k]);
        }
        assert_eq!(o[0], o[1]);
    }
}
''', opts="release=True"),
 dict(id="c18-warm-start", property="C18",
  needs="a block whose two largest eigenvalues are close, compressed after different other blocks",
  breaks="the power iteration starts from the previous block's axis, so the bytes depend on what was compressed before and on the thread schedule",
  edits=[(L + "math.rs", "        v.to_vec3()\n", "        let axis = v.to_vec3();\n        LAST[0].store(axis.x().to_bits(), Ordering::Relaxed);\n        LAST[1].store(axis.y().to_bits(), Ordering::Relaxed);\n        LAST[2].store(axis.z().to_bits(), Ordering::Relaxed);\n        axis\n"),
         (L + "math.rs", "        for _ in 0..POWER_ITERATION_COUNT {\n", "        // neighbouring blocks tend to have similar axes\n        let last = Vec4::new(\n            f32::from_bits(LAST[0].load(Ordering::Relaxed)),\n            f32::from_bits(LAST[1].load(Ordering::Relaxed)),\n            f32::from_bits(LAST[2].load(Ordering::Relaxed)),\n            0.0,\n        );\n        if last.to_vec3().dot(&v.to_vec3()) > 1.0 {\n            v = last;\n        }\n\n        for _ in 0..POWER_ITERATION_COUNT {\n"),
         (L + "math.rs", "use core::f32;\n", "use core::f32;\nuse core::sync::atomic::{AtomicU32, Ordering};\n\nstatic LAST: [AtomicU32; 3] = [AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0)];\n")],
  rust='''use texpresso::*;
fn main() {
    let mut s = 5u32;
    let mut r = || { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 20) as u8 };
    let mut bs = vec![];
    for _ in 0..2000 {
        let mut a = [[0u8, 0, 0, 255]; 16];
        for p in &mut a { *p = [r(), r(), r(), 255]; }
        bs.push(a);
    }
    let run = |a: &[[u8; 4]; 16]| { let mut o = [0u8; 16]; Format::Bc3.compress_block_masked(*a, 0xffff, Params { algorithm: Algorithm::RangeFit, ..Default::default() }, &mut o); o };
    let x: Vec<_> = bs.iter().map(|b| run(b)).collect();
    let mut y: Vec<_> = bs.iter().rev().map(|b| run(b)).collect();
    y.reverse();
    assert!(x == y);
}
''', opts="release=True"),
 dict(id="c19-narrow-five", property="C19",
  needs="a channel block in eight-entry mode whose endpoints are exactly seven apart and which uses six or more of the values",
  breaks="ranges of seven or less always use the five-step fit, so such a block changes when it is compressed again",
  edits=[(L + "alpha.rs", "    if err5 <= err7 {", "    if err5 <= err7 || max7 - min7 <= 7 {")],
  rust='''use texpresso::*;
fn main() {
    let b = [107u8, 100, 0x88, 0xc6, 0xfa, 0x88, 0xc6, 0xfa];
    let d = Format::Bc4.decompress_block(&b);
    let mut o = [0u8; 8];
    Format::Bc4.compress_block_masked(d, 0xffff, Params::default(), &mut o);
    assert_eq!(Format::Bc4.decompress_block(&o), d);
}
'''),
 dict(id="c20-range-overflow", property="C20",
  needs="a channel block whose values lie in a narrow range close to 255, with overflow checks on",
  breaks="widening a narrow range near 255 overflows a byte",
  edits=[(L + "alpha.rs", "        *max = (i32::from(*min) + i32::from(steps)).min(i32::from(u8::MAX)) as u8;", "        *max = (*min + steps).min(u8::MAX);")],
  rust='''use texpresso::*;
fn main() {
    let a = [[251u8, 0, 0, 255]; 16];
    let mut o = [0u8; 8];
    Format::Bc4.compress_block_masked(a, 0xffff, Params::default(), &mut o);
    assert_eq!(Format::Bc4.decompress_block(&o)[0][0], 251);
}
'''),
 dict(id="c12-weights-in-axis", property="C12",
  needs="two colours that differ in one channel only, and a channel weight of that channel far below the others",
  breaks="the range fit drops differences in a channel with less than a tenth of the largest weight",
  edits=[(L + "colourfit/range.rs", "        // get the covariance matrix\n        let covariance = Sym3x3::weighted_covariance(values, weights);\n\n        // get the principle component\n        let principle = covariance.principle_component();",
          "        // get the covariance matrix\n        let covariance = Sym3x3::weighted_covariance(values, weights);\n\n        // get the principle component, without the channels that hardly count\n        let w = fit.weights;\n        let least = 0.15 * w.x().max(w.y()).max(w.z());\n        let counts = |c: f32| if c < least { 0.0 } else { 1.0 };\n        let principle = covariance.principle_component()\n            * Vec3::new(counts(w.x()), counts(w.y()), counts(w.z()));")],
  rust='''use texpresso::*;
fn main() {
    let mut a = [[255u8, 0, 0, 255]; 16];
    for i in 0..7 { a[i][2] = 255; }
    let mut o = [0u8; 16];
    Format::Bc3.compress_block_masked(a, 0xffff, Params { algorithm: Algorithm::RangeFit, ..Default::default() }, &mut o);
    assert_eq!(Format::Bc3.decompress_block(&o), a);
}
'''),
]
