L = "lib/src/"
F = L + "colourfit/cluster.rs"
ENC = '''use texpresso::*;
fn enc(f: Format, a: [[u8; 4]; 16], alg: Algorithm, w: [f32; 3], by: bool) -> [u8; 16] {
    let mut o = [0u8; 16];
    f.compress_block_masked(a, 0xffff, Params { algorithm: alg, weights: w, weigh_colour_by_alpha: by }, &mut o[..f.block_size()]);
    o
}
fn rnd(s: &mut u64) -> u64 { *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); *s >> 33 }
'''
SEEDS = [
 dict(id="c04-checksum-cache", property="C04",
  needs="two blocks next to each other that hold the same pixels in another order",
  breaks="a block whose pixels have the same sum as those of the block before gets that block's code",
  edits=[(L + "lib.rs", '''            let mut source_rgba = [[0u8; 4]; 16];
            let output_blocks''', '''            let mut source_rgba = [[0u8; 4]; 16];
            let mut last = (0u64, 0u32, [0u8; 16]);
            let output_blocks'''),
         (L + "lib.rs", "                self.compress_block_masked(source_rgba, mask, params, output_block);\n            });",
          '''                // flat and tiled areas repeat blocks
                let sum = source_rgba.iter().fold(0u64, |s, p| {
                    s.wrapping_add(u64::from(u32::from_le_bytes(*p)).wrapping_mul(0x9E37_79B9_7F4A_7C15))
                });
                if x == 0 || last.0 != sum || last.1 != mask {
                    self.compress_block_masked(source_rgba, mask, params, output_block);
                    last = (sum, mask, [0u8; 16]);
                    last.2[..block_size].copy_from_slice(output_block);
                } else {
                    output_block.copy_from_slice(&last.2[..block_size]);
                }
            });''')],
  rust=ENC + '''fn main() {
    let mut s = 5;
    let px: Vec<[u8; 4]> = (0..16).map(|_| [rnd(&mut s) as u8, rnd(&mut s) as u8, rnd(&mut s) as u8, 255]).collect();
    let (mut a, mut b) = ([[0; 4]; 16], [[0; 4]; 16]);
    let mut img = vec![0u8; 8 * 4 * 4];
    for i in 0..16 {
        a[i] = px[i];
        b[i] = px[15 - i];
        let at = (i / 4 * 8 + i % 4) * 4;
        img[at..at + 4].copy_from_slice(&a[i]);
        img[at + 16..at + 20].copy_from_slice(&b[i]);
    }
    let mut o = [0u8; 16];
    Format::Bc1.compress(&img, 8, 4, Params::default(), &mut o);
    let p = Params::default();
    assert_eq!(o[..8], enc(Format::Bc1, a, p.algorithm, p.weights, false)[..8]);
    assert_eq!(o[8..], enc(Format::Bc1, b, p.algorithm, p.weights, false)[..8]);
}
'''),
 dict(id="c03-checksum-cache", property="C03",
  needs="two 16-byte blocks next to each other with their halves exchanged, or otherwise equal in the exclusive or of the halves",
  breaks="a block with the same checksum as the one to its left is not decoded but repeated",
  edits=[(L + "lib.rs", '''            for x in 0..blocks_wide {
                // decompress the block
                let bidx = (x + y * blocks_wide) * block_size;
                let rgba = self.decompress_block(&data[bidx..bidx + block_size]);
''', '''            let mut last = None;
            for x in 0..blocks_wide {
                // decompress the block, unless it repeats
                let bidx = (x + y * blocks_wide) * block_size;
                let block = &data[bidx..bidx + block_size];
                let key = block.chunks(8).fold(0u64, |k, c| {
                    let mut b = [0u8; 8];
                    b.copy_from_slice(c);
                    k ^ u64::from_le_bytes(b)
                });
                let rgba = match last {
                    Some((k, rgba)) if k == key => rgba,
                    _ => self.decompress_block(block),
                };
                last = Some((key, rgba));
''')],
  rust='''use texpresso::*;
fn main() {
    let mut d = [0u8; 32];
    for i in 0..16 { d[i] = 17 * i as u8; d[16 + (i ^ 8)] = d[i]; }
    let mut o = [0u8; 8 * 4 * 4];
    Format::Bc5.decompress(&d, 8, 4, &mut o);
    let b = Format::Bc5.decompress_block(&d[16..]);
    for i in 0..16 { let at = (i / 4 * 8 + 4 + i % 4) * 4; assert_eq!(o[at..at + 4], b[i]); }
}
'''),
 dict(id="c14-low-determinant", property="C14",
  needs="alpha weighting with nearly all alphas close to zero, and few pixels of one of the colours",
  breaks="divisions whose least-squares system has a small determinant are skipped, although with small alpha weights it is well conditioned",
  edits=[(F, '''                        let factor =
                            ((alpha2_sum * beta2_sum) - alphabeta_sum * alphabeta_sum).reciprocal();
                        let a = ((alphax_sum * beta2_sum)''', '''                        let determinant =
                            (alpha2_sum * beta2_sum) - alphabeta_sum * alphabeta_sum;
                        // leave out what cannot be solved reliably
                        let factor = if determinant.x() < 2e-2 {
                            zero
                        } else {
                            determinant.reciprocal()
                        };
                        let a = ((alphax_sum * beta2_sum)''')],
  rust=ENC + '''fn main() {
    let mut s = 1;
    let mut total = 0;
    for _ in 0..300 {
        let mut a = [[0u8; 4]; 16];
        let (c, d) = ([rnd(&mut s) as u8, rnd(&mut s) as u8, rnd(&mut s) as u8], [rnd(&mut s) as u8, rnd(&mut s) as u8, rnd(&mut s) as u8]);
        for i in 0..16 { let q = if i == 0 { c } else { d }; a[i] = [q[0], q[1], q[2], 0]; }
        let e = |by| {
            let o = enc(Format::Bc3, a, Algorithm::ClusterFit, COLOUR_WEIGHTS_UNIFORM, by);
            let r = Format::Bc3.decompress_block(&o);
            (0..16).map(|i| (0..3).map(|k| (r[i][k] as i32 - a[i][k] as i32).pow(2)).sum::<i32>()).sum::<i32>()
        };
        // the same alpha everywhere weighs all pixels alike
        total += (e(true) - e(false)).abs();
    }
    println!("{total}");
    assert!(total < 3000);
}
'''),
 dict(id="c14-quantised-order", property="C14",
  needs="two colours whose positions along the axis differ by less than 1/512, with the rest of the block placed so that their order matters",
  breaks="colours are put in order by their position along the axis rounded to 1/512, so close ones can be in the wrong order",
  edits=[(F, "            dps[i] = (i, values[i].dot(axis));", "            // ties keep the order in which the colours occur\n            dps[i] = (i, libm::roundf(values[i].dot(axis) * 512.0));")],
  rust=ENC + '''fn main() {
    // near-black and nearly equal grays: the axis runs along (1, 1, 1), most steps are half a position
    let mut s = 3;
    let mut worse = 0;
    for _ in 0..2000 {
        let mut a = [[0u8; 4]; 16];
        for p in a.iter_mut() { let v = rnd(&mut s) % 2; let b = (rnd(&mut s) % 16) as u8; *p = [100 + v as u8, 100, 96 + b, 255]; }
        let mut b = a;
        b.reverse();
        // the order in which the pixels occur must not matter for the quality
        let e = |a: [[u8; 4]; 16]| {
            let r = Format::Bc1.decompress_block(&enc(Format::Bc1, a, Algorithm::ClusterFit, [1.0, 0.0, 0.001], false)[..8]);
            (0..16).map(|i| (r[i][0] as i32 - a[i][0] as i32).pow(2) * 1000 + (r[i][2] as i32 - a[i][2] as i32).pow(2)).sum::<i32>()
        };
        if e(a) != e(b) { worse += 1; }
    }
    println!("{worse}");
    assert!(worse == 0);
}
'''),
 dict(id="c09-near-enough", property="C09",
  needs="a block whose nearest entry comes later in the codebook than another at distance one, and a small range so that entries lie that close",
  breaks="the search through the codebook stops at the first entry within a distance of one",
  edits=[(L + "alpha.rs", '''                least = dist;
                index = j as u8;
            }
''', '''                least = dist;
                index = j as u8;
            }
            // no need to look further
            if least <= 1 {
                break;
            }
''')],
  rust=ENC + '''fn main() {
    let mut a = [[0u8, 0, 0, 255]; 16];
    for i in 0..16 { a[i][0] = 100 + (i % 8) as u8; }
    let r = Format::Bc4.decompress_block(&enc(Format::Bc4, a, Algorithm::RangeFit, COLOUR_WEIGHTS_UNIFORM, false)[..8]);
    for i in 0..16 { assert_eq!(r[i][0], a[i][0]); }
}
'''),
 dict(id="c17-alpha-scale", property="C17",
  needs="an opaque block with alpha weighting, in which rounding decides between two encodings",
  breaks="the alpha weight of an opaque pixel is 256/255 instead of one",
  edits=[(L + "colourset.rs", '''                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 256f32;

                    // store point''', '''                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 255f32;

                    // store point'''),
         (L + "colourset.rs", '''                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 256f32;

                    // map''', '''                    let w = (i32::from(rgba[i][3]) + 1) as f32 / 255f32;

                    // map''')],
  rust=ENC + '''fn main() {
    let mut s = 1;
    let mut diff = 0;
    for n in 0..20000 {
        let mut a = [[0u8; 4]; 16];
        let c: Vec<u64> = (0..6).map(|_| rnd(&mut s)).collect();
        for p in a.iter_mut() { let v = c[rnd(&mut s) as usize % (2 + n % 5)]; *p = [v as u8 & 0xf0, (v >> 8) as u8 & 0xf0, (v >> 16) as u8 & 0xf0, 255]; }
        let e = |by| enc(Format::Bc1, a, Algorithm::ClusterFit, COLOUR_WEIGHTS_UNIFORM, by);
        if e(true) != e(false) { diff += 1; }
    }
    println!("{diff}");
    assert!(diff == 0);
}
'''),
 dict(id="c11-rounded-colour", property="C11",
  needs="a single colour with a channel value whose normalised form times 255 lies just below an integer",
  breaks="the colour is cut off instead of rounded when converted back to bytes, so some values use the table entry below theirs",
  edits=[(L + "colourfit/single.rs", "            f32_to_i32_clamped(self.colourset.points()[0].y() * 255.0, 255),", "            (self.colourset.points()[0].y() * 254.999) as i32,")],
  rust=ENC + '''fn main() {
    for g in 0..=255u8 {
        let a = [[0, g, 0, 255]; 16];
        let r = Format::Bc2.decompress_block(&enc(Format::Bc2, a, Algorithm::RangeFit, COLOUR_WEIGHTS_UNIFORM, false));
        assert!((r[0][1] as i32 - g as i32).abs() <= 1, "{g}");
        if g % 85 == 0 { assert_eq!(r[0][1], g); }
    }
}
'''),
]
