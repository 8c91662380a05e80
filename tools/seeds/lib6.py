L = "lib/src/"
PRE = '''use texpresso::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn p() -> Params { Params { algorithm: Algorithm::RangeFit, weights: [1.0, 1.0, 1.0], weigh_colour_by_alpha: false } }
const ALL: [Format; 5] = [Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5];
fn refused(f: impl FnOnce()) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
'''
SEEDS = [
 dict(id="c22-missing-pixels", property="C22",
  needs="pixel data that ends short of the size given",
  breaks="missing pixels are taken as lying outside the image instead of being refused",
  edits=[(L + "lib.rs", '''                            source_rgba[index].copy_from_slice(&rgba[src_index..src_index + 4]);

                            // enable pixel
                            mask |= 1 << index;''',
'''                            if let Some(pixel) = rgba.get(src_index..src_index + 4) {
                                source_rgba[index].copy_from_slice(pixel);

                                // enable pixel
                                mask |= 1 << index;
                            }''')],
  rust=PRE + '''fn main() {
    let rgba: Vec<u8> = (0..8 * 8 * 4).map(|i| i as u8).collect();
    for f in ALL {
        let mut o = vec![0u8; f.compressed_size(8, 8)];
        f.compress(&rgba, 8, 8, p(), &mut o);
        assert!(refused(|| f.compress(&rgba[..rgba.len() - 1], 8, 8, p(), &mut o)));
        assert!(refused(|| f.compress(&rgba[..100], 8, 8, p(), &mut o)));
    }
}
'''),
 dict(id="c22-missing-blocks", property="C22",
  needs="block data that ends short of the size given",
  breaks="the blocks missing from a cut off image are skipped, so old buffer content is shown as the image",
  edits=[(L + "lib.rs", '''                let rgba = self.decompress_block(&data[bidx..bidx + block_size]);
''', '''                let block = match data.chunks_exact(block_size).nth(bidx / block_size) {
                    Some(block) => block,
                    None => break,
                };
                let rgba = self.decompress_block(block);
''')],
  rust=PRE + '''fn main() {
    for f in ALL {
        let data: Vec<u8> = (0..f.compressed_size(8, 8)).map(|i| (i as u8).wrapping_mul(7)).collect();
        let mut o = vec![0u8; 256];
        f.decompress(&data, 8, 8, &mut o);
        assert!(refused(|| f.decompress(&data[..data.len() - 1], 8, 8, &mut o)));
        assert!(refused(|| f.decompress(&data[..f.block_size()], 8, 8, &mut o)));
    }
}
'''),
 dict(id="c22-block-cut", property="C22",
  needs="a BC5 block encoded into a slice longer than the block",
  breaks="the last channel block is written at the end of the slice instead of behind the one before",
  edits=[(L + "lib.rs", "                alpha::compress_bc3(&rgba, 1, mask, &mut output[8..16]);",
          '''                let at = output.len() - 8;
                alpha::compress_bc3(&rgba, 1, mask, &mut output[at..]);''')],
  rust=PRE + '''fn main() {
    let mut px = [[0u8; 4]; 16];
    for i in 0..16 { px[i] = [i as u8 * 9, 255 - i as u8 * 5, 3, 255]; }
    for f in ALL {
        let n = f.block_size();
        let (mut a, mut b) = ([0u8; 16], [0x77u8; 40]);
        f.compress_block_masked(px, 0xffff, p(), &mut a[..n]);
        f.compress_block_masked(px, 0xffff, p(), &mut b);
        assert_eq!(a[..n], b[..n]);
        assert!(b[n..].iter().all(|x| *x == 0x77));
        assert!(refused(|| f.compress_block_masked(px, 0xffff, p(), &mut b[..n - 1])));
    }
}
'''),
 dict(id="c22-short-block", property="C22",
  needs="a colour or alpha block cut off in the middle",
  breaks="a block that is too short is filled up with zeros and decoded instead of being refused",
  edits=[(L + "lib.rs", '''        let mut rgba;
        // decompress colour block''', '''        let mut rgba;
        let mut padded = [0u8; 16];
        for (to, from) in padded.iter_mut().zip(block) {
            *to = *from;
        }
        let block = &padded[..];
        // decompress colour block''')],
  rust=PRE + '''fn main() {
    let d: Vec<u8> = (0..16).map(|i| 250 - i as u8 * 11).collect();
    for f in ALL {
        let n = f.block_size();
        let a = f.decompress_block(&d[..n]);
        assert!(a == f.decompress_block(&[&d[..n], &[1, 2, 3]].concat()));
        for k in 0..n { assert!(refused(|| { f.decompress_block(&d[..k]); })); }
    }
}
'''),
 dict(id="c22-last-row-from-end", property="C22",
  needs="surplus bytes behind the pixels",
  breaks="the last row of pixels is taken from the end of the slice, surplus bytes included",
  edits=[(L + "lib.rs", '''                            let src_index = 4 * (width * sy + sx);
                            source''', '''                            let src_index = if sy + 1 == height && sy > 3 {
                                rgba.len() - 4 * (width - sx)
                            } else {
                                4 * (width * sy + sx)
                            };
                            source''')],
  rust=PRE + '''fn main() {
    let rgba: Vec<u8> = (0..8 * 8 * 4 + 60).map(|i| (i * 31) as u8).collect();
    for f in ALL {
        let mut o = [vec![0u8; f.compressed_size(8, 8)], vec![0u8; f.compressed_size(8, 8)]];
        f.compress(&rgba[..256], 8, 8, p(), &mut o[0]);
        f.compress(&rgba, 8, 8, p(), &mut o[1]);
        assert!(o[0] == o[1]);
        assert!(refused(|| f.compress(&rgba[..255], 8, 8, p(), &mut o[1])));
    }
}
'''),
]
