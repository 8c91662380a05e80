L = "lib/src/"
SEEDS = [
 dict(id="c01-equal-endpoints", property="C01",
  needs="a BC1 block whose two endpoints are equal and which uses index 3",
  breaks="equal endpoints select the four-colour instead of the three-colour mode, so index 3 is opaque",
  edits=[(L + "colourblock.rs", "        if is_bc1 && (a <= b) {\n            codes[8", "        if is_bc1 && (a < b) {\n            codes[8"),
         (L + "colourblock.rs", "codes[12 + 3] = if is_bc1 && (a <= b)", "codes[12 + 3] = if is_bc1 && (a < b)")],
  rust='''use texpresso::*;
fn main() {
    let px = Format::Bc1.decompress_block(&[0x34, 0x12, 0x34, 0x12, 0xff, 0xff, 0xff, 0xff]);
    assert_eq!(px[5], [0, 0, 0, 0]);
}
'''),
 dict(id="c01-bc2-endpoint-order", property="C01",
  needs="a BC2 or BC3 colour block whose first endpoint is not greater than the second (never written by this encoder)",
  breaks="BC2 and BC3 blocks with ordered endpoints are decoded in three-colour mode",
  edits=[(L + "colourblock.rs", "        if is_bc1 && (a <= b) {\n            codes[8 + i] = ((c + d) / 2) as u8;\n            codes[12 + i] = 0;",
          "        if a <= b {\n            codes[8 + i] = ((c + d) / 2) as u8;\n            codes[12 + i] = 0;")],
  rust='''use texpresso::*;
fn main() {
    let mut b = [0u8; 16];
    b[8..].copy_from_slice(&[0x00, 0x00, 0xff, 0xff, 0xfa, 0xff, 0xff, 0xff]);
    let px = Format::Bc3.decompress_block(&b);
    assert_eq!([px[0][0], px[3][0]], [85, 170]);
}
'''),
 dict(id="c02-equal-endpoints", property="C02",
  needs="a channel block with equal endpoints that uses index 6 or 7",
  breaks="equal endpoints select the eight-entry mode, so 0 and 255 are lost",
  edits=[(L + "alpha.rs", "    if alpha0 <= alpha1 {\n        // use 5-alpha codebook", "    if alpha0 < alpha1 {\n        // use 5-alpha codebook")],
  rust='''use texpresso::*;
fn main() {
    let px = Format::Bc4.decompress_block(&[77, 77, 0xff, 0xff, 0xff, 0x77, 0xdb, 0xb6]);
    assert_eq!(px[0][0], 255);
}
'''),
 dict(id="c03-bidx-u16", property="C03",
  needs="decompressing an image of more than 65536 blocks",
  breaks="the block number wraps after 65536 blocks, later pixels repeat the first ones",
  edits=[(L + "lib.rs", "let bidx = (x + y * blocks_wide) * block_size;", "let bidx = usize::from((x + y * blocks_wide) as u16) * block_size;")],
  rust='''use texpresso::*;
fn main() {
    let (w, h) = (1028, 1028);
    let n = Format::Bc4.compressed_size(w, h);
    let data: Vec<u8> = (0..n / 8).flat_map(|i| [if i >= 65536 { 200u8 } else { 10 }, 0, 0, 0, 0, 0, 0, 0]).collect();
    let mut out = vec![0u8; w * h * 4];
    Format::Bc4.decompress(&data, w, h, &mut out);
    assert_eq!(out[out.len() - 4], 200);
}
'''),
 dict(id="c03-serial-exact-rows", property="C03",
  needs="the build without the rayon feature and a height that is not a multiple of four",
  breaks="without the parallel feature the last, partial row of blocks is not written",
  edits=[(L + "lib.rs", "        let output_rows = output.chunks_mut(width * 4 * 4);", "        let output_rows = output.chunks_exact_mut(width * 4 * 4);")],
  rust='''use texpresso::*;
fn main() {
    let (w, h) = (8, 6);
    let data = [200u8, 0, 0, 0, 0, 0, 0, 0].repeat(4);
    let mut out = vec![0u8; w * h * 4];
    Format::Bc4.decompress(&data, w, h, &mut out);
    assert_eq!(out[out.len() - 4], 200);
}
'''),
 dict(id="c04-mask-kept", property="C04",
  needs="an image at least two blocks wide whose width is not a multiple of four",
  breaks="the mask of the previous block is kept, so the last column's out-of-image pixels hold stale pixels that influence the block",
  edits=[(L + "lib.rs", "            let mut source_rgba = [[0u8; 4]; 16];\n", "            let mut source_rgba = [[0u8; 4]; 16];\n            let mut mask = 0u32;\n"),
         (L + "lib.rs", "                // build the 4x4 block of pixels\n                let mut mask = 0u32;\n", "                // build the 4x4 block of pixels\n")],
  rust='''use texpresso::*;
fn main() {
    let (w, h) = (6, 4);
    let px: Vec<u8> = (0..w * h).flat_map(|i| if i % w < 4 { [250u8, 10, 30, 255] } else { [5, 100, (i * 9) as u8, 255] }).collect();
    let mut out = vec![0u8; 16];
    Format::Bc1.compress(&px, w, h, Params::default(), &mut out);
    let mut blk = [[0u8; 4]; 16];
    let mut mask = 0;
    for y in 0..4 { for x in 0..2 {
        blk[4 * y + x].copy_from_slice(&px[4 * (w * y + 4 + x)..][..4]);
        mask |= 1 << (4 * y + x);
    } }
    let mut one = [0u8; 8];
    Format::Bc1.compress_block_masked(blk, mask, Params::default(), &mut one);
    assert_eq!(out[8..], one);
}
'''),
 dict(id="c05-size-u32", property="C05",
  needs="the compressed size of an image of 2^32 blocks or more",
  breaks="the number of blocks wraps at 2^32",
  edits=[(L + "lib.rs", "let blocks = num_blocks(width) * num_blocks(height);", "let blocks = (num_blocks(width) as u32).wrapping_mul(num_blocks(height) as u32) as usize;")],
  rust='''use texpresso::*;
fn main() {
    assert_eq!(Format::Bc3.compressed_size(1 << 20, 1 << 20), 1 << 40);
}
'''),
 dict(id="c06-range-before-mask", property="C06",
  needs="a partially masked block whose disabled pixel has a channel value beyond the range of the enabled ones",
  breaks="disabled pixels widen the range of a channel block",
  edits=[(L + "alpha.rs", "        // skip masked-out bits\n        let bit = 1 << i;\n        if (mask & bit) == 0 {\n            continue;\n        }\n\n        // incorporate into the min/max\n        let value = pixel[channel];\n        min7 = min7.min(value);\n        max7 = max7.max(value);\n",
          "        // incorporate into the min/max\n        let value = pixel[channel];\n        min7 = min7.min(value);\n        max7 = max7.max(value);\n\n        // skip masked-out bits\n        let bit = 1 << i;\n        if (mask & bit) == 0 {\n            continue;\n        }\n")],
  rust='''use texpresso::*;
fn main() {
    let mut a = [[0u8; 4]; 16];
    for i in 0..16 { a[i] = [100 + 7 * (i as u8 % 8), 0, 0, 255]; }
    let mut b = a;
    b[15][0] = 255;
    let mut oa = [0u8; 8];
    let mut ob = [0u8; 8];
    Format::Bc4.compress_block_masked(a, 0x7fff, Params::default(), &mut oa);
    Format::Bc4.compress_block_masked(b, 0x7fff, Params::default(), &mut ob);
    assert_eq!(oa, ob);
}
'''),
 dict(id="c06-high-mask-bits", property="C06",
  needs="a mask with bits set above the sixteen pixels while some pixel is disabled",
  breaks="a fast path for full masks compares with >=, so a mask with higher bits enables all pixels",
  edits=[(L + "colourset.rs", "            if (mask & bit) == 0 {\n                set.remap[i] = -1;", "            if mask < 0xFFFF && (mask & bit) == 0 {\n                set.remap[i] = -1;"),
         (L + "colourset.rs", "                let duplicate = ((mask & oldbit) != 0)\n", "                let duplicate = (mask >= 0xFFFF || (mask & oldbit) != 0)\n")],
  rust='''use texpresso::*;
fn main() {
    let mut a = [[10u8, 20, 30, 255]; 16];
    a[7] = [250, 0, 99, 255];
    let mut oa = [0u8; 8];
    let mut ob = [0u8; 8];
    Format::Bc1.compress_block_masked(a, 0x000f, Params::default(), &mut oa);
    Format::Bc1.compress_block_masked(a, 0xffff_000f, Params::default(), &mut ob);
    assert_eq!(oa, ob);
}
'''),
 dict(id="c07-duplicate-of-transparent", property="C07",
  needs="a BC1 block in which an opaque pixel has exactly the colour of an earlier transparent pixel",
  breaks="the opaque pixel is taken for a duplicate of the transparent one and becomes transparent",
  edits=[(L + "colourset.rs", "\n                    && (format != Format::Bc1 || rgba[j][3] >= 128u8);", ";"),
         (L + "colourset.rs", "                    set.weights[index as usize] += if alpha_weighted { w } else { 1f32 };", "                    if index >= 0 {\n                        set.weights[index as usize] += if alpha_weighted { w } else { 1f32 };\n                    }")],
  rust='''use texpresso::*;
fn main() {
    let mut a = [[10u8, 20, 30, 255]; 16];
    a[0][3] = 0;
    a[9] = [200, 100, 0, 255];
    let mut o = [0u8; 8];
    Format::Bc1.compress_block_masked(a, 0xffff, Params::default(), &mut o);
    let d = Format::Bc1.decompress_block(&o);
    assert_eq!(d[12][3], 255);
}
'''),
 dict(id="c07-swap-transparent-index", property="C07",
  needs="a BC1 block with transparency whose fitted endpoints have to be swapped, and which uses the middle entry",
  breaks="the indices of swapped three-colour blocks are inverted like those of four-colour blocks: the middle entry becomes transparent and back",
  edits=[(L + "colourblock.rs", "            *index = match *index {\n                0 => 1,\n                1 => 0,\n                x => x,\n            };", "            *index ^= 1;")],
  rust='''use texpresso::*;
fn main() {
    let mut s = 5u32;
    let mut r = || { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 20) as u8 };
    for _ in 0..2000 {
        let mut a = [[0u8, 0, 0, 255]; 16];
        for p in &mut a { *p = [r(), r(), r(), r()]; }
        for alg in [Algorithm::RangeFit, Algorithm::ClusterFit] {
            let mut o = [0u8; 16];
            Format::Bc1.compress_block_masked(a, 0xffff, Params { algorithm: alg, ..Default::default() }, &mut o[..8]);
            let d = Format::Bc1.decompress_block(&o[..8]);
            for i in 0..16 {
                assert_eq!(d[i][3], if a[i][3] < 128 { 0 } else { 255 });
            }
        }
    }
}
'''),
 dict(id="c08-shifted-rounding", property="C08",
  needs="an alpha value where multiplying by 15 and shifting by eight rounds differently (for example 8 or 247)",
  breaks="BC2 alpha is not always the nearest level",
  edits=[(L + "alpha.rs", "        let alpha1 = f32::from(rgba[2 * i][3]) * (15.0 / 255.0);\n        let alpha2 = f32::from(rgba[2 * i + 1][3]) * (15.0 / 255.0);\n        let mut quant1 = f32_to_i32_clamped(alpha1, 15) as u8;\n        let mut quant2 = f32_to_i32_clamped(alpha2, 15) as u8;",
          "        let quantise = |a: u8| ((u32::from(a) * 15 + 128) >> 8) as u8;\n        let mut quant1 = quantise(rgba[2 * i][3]);\n        let mut quant2 = quantise(rgba[2 * i + 1][3]);"),
         (L + "alpha.rs", "use crate::math::f32_to_i32_clamped;\n", "")],
  rust='''use texpresso::*;
fn main() {
    for v in 0..=255u8 {
        let a = [[1u8, 2, 3, v]; 16];
        let mut o = [0u8; 16];
        Format::Bc2.compress_block_masked(a, 0xffff, Params::default(), &mut o);
        let d = Format::Bc2.decompress_block(&o)[3][3] as i32;
        assert!((d - v as i32).abs() <= 8, "{v} {d}");
    }
}
'''),
 dict(id="c09-skip-five-steps", property="C09",
  needs="a channel without 0 and 255 whose values lie on fifths of its range",
  breaks="the five-step fit is not tried when the channel has no extreme values, although it can be better",
  edits=[(L + "alpha.rs", "    if err5 <= err7 {", "    if err5 <= err7 && !(min5 == min7 && max5 == max7) {")],
  rust='''use texpresso::*;
fn main() {
    let mut a = [[0u8; 4]; 16];
    for i in 0..16 { a[i][0] = 50 + 30 * (i as u8 % 6); }
    let mut o = [0u8; 8];
    Format::Bc4.compress_block_masked(a, 0xffff, Params::default(), &mut o);
    let d = Format::Bc4.decompress_block(&o);
    for i in 0..16 { assert_eq!(d[i][0], a[i][0]); }
}
'''),
 dict(id="c09-rounded-codebook", property="C09",
  needs="a channel where rounding the seventh steps to nearest changes which entry looks nearest",
  breaks="the encoder rounds the seven-step entries to nearest while the decoder rounds down",
  edits=[(L + "alpha.rs", "        codes7[1 + i as usize] = (((7 - i) * i32::from(min7) + i * i32::from(max7)) / 7) as u8;",
          "        codes7[1 + i as usize] = (((7 - i) * i32::from(min7) + i * i32::from(max7) + 3) / 7) as u8;")],
  rust='''use texpresso::*;
fn main() {
    // the decoder's entries between 200 and 0 are 171, 142, 114, 85, 57, 28
    let mut bad = 0;
    for hi in 60..=255u8 { for v in 0..hi {
        let mut a = [[0u8; 4]; 16];
        a[0][0] = hi;
        a[1][0] = 1;
        for i in 2..16 { a[i][0] = v.max(1); }
        let mut o = [0u8; 8];
        Format::Bc4.compress_block_masked(a, 0xffff, Params::default(), &mut o);
        let d = Format::Bc4.decompress_block(&o);
        // offered entries
        let mut offered = vec![];
        for k in 0..8u8 {
            let mut p = o;
            let mut bits = 0u64;
            for j in 0..16 { bits |= (k as u64) << (3 * j); }
            p[2..].copy_from_slice(&bits.to_le_bytes()[..6]);
            offered.push(Format::Bc4.decompress_block(&p)[0][0] as i32);
        }
        for i in 0..16 {
            let best = offered.iter().map(|e| (e - a[i][0] as i32).abs()).min().unwrap();
            if (d[i][0] as i32 - a[i][0] as i32).abs() > best { bad += 1; }
        }
    } }
    assert_eq!(bad, 0);
}
'''),
 dict(id="c10-extremes-narrow", property="C10",
  needs="a channel with 255 and two close values just below it besides, where the widened range would pass 255",
  breaks="the widening of a narrow range saturates before 255 without lowering the minimum, so values next to the minimum are lost",
  edits=[(L + "alpha.rs", "        if value != u8::MAX {\n            max5 = max5.max(value);\n        }", "        if value < u8::MAX - 1 {\n            max5 = max5.max(value);\n        }")],
  rust='''use texpresso::*;
fn main() {
    let mut a = [[0u8; 4]; 16];
    for i in 0..16 { a[i][0] = [0, 100, 254, 255][i % 4]; }
    let mut o = [0u8; 8];
    Format::Bc4.compress_block_masked(a, 0xffff, Params::default(), &mut o);
    let d = Format::Bc4.decompress_block(&o);
    for i in 0..16 { assert_eq!(d[i][0], a[i][0]); }
}
'''),
 dict(id="c11-table-entry", property="C11",
  needs="a uniform block with green 107",
  breaks="one entry of the single-colour table has a wrong endpoint",
  edits=[(L + "colourfit/single_lut.rs", "entry!(26, 0, 2, 9, 62, 0)", "entry!(26, 0, 2, 9, 61, 0)")],
  rust='''use texpresso::*;
fn dist(c: [u8; 3], f: Format) -> i32 {
    let a = [[c[0], c[1], c[2], 255]; 16];
    let mut o = [0u8; 16];
    let n = f.block_size();
    f.compress_block_masked(a, 0xffff, Params::default(), &mut o[..n]);
    let d = f.decompress_block(&o[..n])[0];
    (0..3).map(|i| (d[i] as i32 - c[i] as i32).pow(2)).sum()
}
// best error over endpoint pairs at an endpoint or a third, per channel
fn best(c: [u8; 3]) -> i32 {
    let e5 = |v: i32| v << 3 | v >> 2;
    let e6 = |v: i32| v << 2 | v >> 4;
    let mut r = [0, 0];
    for i in 0..3 {
        let n = if i == 1 { 64 } else { 32 };
        let ex = |v| if i == 1 { e6(v) } else { e5(v) };
        let mut m = [i32::MAX; 2];
        for x in 0..n { for y in 0..n {
            m[0] = m[0].min((ex(x) - c[i] as i32).pow(2));
            m[1] = m[1].min(((2 * ex(x) + ex(y)) / 3 - c[i] as i32).pow(2));
        } }
        r[0] += m[0];
        r[1] += m[1];
    }
    r[0].min(r[1])
}
fn main() {
    let mut s = 1u32;
    for i in 0..1024u32 {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        let c = [(s >> 8) as u8, i as u8, (s >> 24) as u8];
        assert!(dist(c, Format::Bc2) <= best(c), "{c:?}");
    }
}
''', opts="release=True"),
]
