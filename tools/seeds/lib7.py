L = "lib/src/"
F = L + "colourfit/cluster.rs"
ENC = '''use texpresso::*;
fn enc(f: Format, a: [[u8; 4]; 16], alg: Algorithm) -> [u8; 16] {
    let mut o = [0u8; 16];
    f.compress_block_masked(a, 0xffff, Params { algorithm: alg, weights: [1.0, 1.0, 1.0], weigh_colour_by_alpha: false }, &mut o[..f.block_size()]);
    o
}
#[allow(dead_code)]
fn rnd(s: &mut u64) -> u64 { *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); *s >> 33 }
'''
SEEDS = [
 dict(id="c08-pair-same", property="C08",
  needs="two neighbouring alphas a step apart that are nearest to different levels",
  breaks="neighbours that differ by no more than one get the level of the first",
  edits=[(L + "alpha.rs", "        // set alpha to zero where masked\n", '''        // avoid visible steps between almost equal neighbours
        if rgba[2 * i][3].max(rgba[2 * i + 1][3]) - rgba[2 * i][3].min(rgba[2 * i + 1][3]) <= 1 {
            quant2 = quant1;
        }

        // set alpha to zero where masked
''')],
  rust=ENC + '''fn main() {
    for a in 0..255u8 {
        let mut px = [[9, 9, 9, a]; 16];
        for i in 0..8 { px[2 * i + 1][3] = a + 1; }
        let d = Format::Bc2.decompress_block(&enc(Format::Bc2, px, Algorithm::RangeFit));
        for i in 0..16 { assert!((d[i][3] as i32 - px[i][3] as i32).abs() <= 8, "{} {}", px[i][3], d[i][3]); }
    }
}
'''),
 dict(id="c10-prefer-six", property="C10",
  needs="a channel the eight-entry mode represents exactly and the six-entry mode almost",
  breaks="the six-entry mode is preferred although its error is not zero",
  edits=[(L + "alpha.rs", "    if err5 <= err7 {", "    if err5 <= err7 + 2 {")],
  rust=ENC + '''fn main() {
    let mut px = [[0, 0, 0, 255]; 16];
    for i in 0..16 { px[i][0] = [10, 17][i % 2]; }
    px[5][0] = 13;
    let d = Format::Bc4.decompress_block(&enc(Format::Bc4, px, Algorithm::RangeFit));
    for i in 0..16 { assert_eq!(d[i][0], px[i][0]); }
}
'''),
 dict(id="c19-six-above-one", property="C19",
  needs="a six-entry block with an endpoint of 1 or 254",
  breaks="1 and 254 are taken for the fixed entries 0 and 255",
  edits=[(L + "alpha.rs", "        if value != 0 {\n", "        if value > 1 {\n"), (L + "alpha.rs", "        if value != u8::MAX {\n", "        if value < u8::MAX - 1 {\n")],
  rust=ENC + '''fn main() {
    // six-entry mode, endpoints 1 and 201, every entry used
    let mut b = [1u8, 201, 0, 0, 0, 0, 0, 0];
    let mut bits = 0u64;
    for i in 0..16u64 { bits |= (i % 8) << (3 * i); }
    for k in 0..6 { b[2 + k] = (bits >> (8 * k)) as u8; }
    let a = Format::Bc4.decompress_block(&b);
    let c = Format::Bc4.decompress_block(&enc(Format::Bc4, a, Algorithm::RangeFit)[..8]);
    assert!(a == c);
}
'''),
 dict(id="c14-many-colours-four", property="C14",
  needs="an opaque BC1 block of more than twelve colours that the three-colour palette suits better",
  breaks="the three-colour palette is not considered for blocks of many colours",
  edits=[(F, "        let mut best_j = 0;\n\n        // inital", '''        let mut best_j = 0;

        // three levels are too few for many colours
        if count > 12 && !self.colourset.is_transparent() {
            return;
        }

        // inital''')],
  rust=ENC + '''fn main() {
    // colours close to the ends and the middle of a line
    let mut px = [[0, 0, 0, 255]; 16];
    for i in 0..16u8 { let v = [0, 128, 255][i as usize % 3] as i32; for k in 0..3 { px[i as usize][k] = (v + (i as i32 / 3 * (k as i32 + 1)) % 5 - 2).clamp(0, 255) as u8; } }
    let d = Format::Bc1.decompress_block(&enc(Format::Bc1, px, Algorithm::ClusterFit)[..8]);
    let worst = (0..16).map(|i| (d[i][1] as i32 - px[i][1] as i32).abs()).max().unwrap();
    assert!(worst < 20, "{worst}");
}
'''),
 dict(id="c05-empty-image", property="C05",
  needs="a width or height of zero",
  breaks="an empty image is said to need a block",
  edits=[(L + "lib.rs", "    (size + 3) / 4\n", "    ((size + 3) / 4).max(1)\n")],
  rust='''use texpresso::*;
fn main() {
    for f in [Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5] {
        assert_eq!((f.compressed_size(0, 0), f.compressed_size(0, 9), f.compressed_size(9, 0)), (0, 0, 0));
    }
    assert_eq!(num_blocks(0), 0);
}
'''),
]
