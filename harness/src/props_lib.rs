//! Library properties C01..C20.
use crate::ensure;
use crate::gen::*;
use crate::refdec;
use crate::refenc;
use crate::run::*;
use proptest::array::{uniform16, uniform8};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

type Facets = Vec<Box<dyn Facet>>;

// ------------------------------------------------------------------ C01

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct RawBlock {
    pub lead: [u8; 8],
    pub col: [u8; 8],
}

fn colour_bytes() -> BoxedStrategy<[u8; 8]> {
    let ep = prop_oneof![
        4 => (any::<u16>(), any::<u16>()).boxed(),
        2 => (any::<u16>(), -40i32..=40).prop_map(|(a, d)| (a, (a as i32 + d).clamp(0, 65535) as u16)).boxed(),
        1 => any::<u16>().prop_map(|a| (a, a)).boxed(),
        1 => (select(vec![0u16, 1, 0x1f, 0x20, 0x7e0, 0x800, 0xf800, 0xffff, 0x7fff, 0x8000]),
              select(vec![0u16, 1, 0x1f, 0x20, 0x7e0, 0x800, 0xf800, 0xffff, 0x7fff, 0x8000])).boxed(),
    ];
    let idx = prop_oneof![4 => any::<u32>(), 1 => select(vec![0u32, 0x5555_5555, 0xAAAA_AAAA, 0xFFFF_FFFF, 0xE4E4_E4E4])];
    (ep, idx)
        .prop_map(|((a, b), i)| {
            let mut o = [0u8; 8];
            o[..2].copy_from_slice(&a.to_le_bytes());
            o[2..4].copy_from_slice(&b.to_le_bytes());
            o[4..].copy_from_slice(&i.to_le_bytes());
            o
        })
        .boxed()
}

fn c01_check(c: &RawBlock) -> CheckResult {
    let got = fmt(1).decompress_block(&c.col);
    let want = refdec::colour(&c.col, true);
    for i in 0..16 {
        ensure!(got[i] == want[i], "BC1 {:02x?} pixel {i}: decoded {:?}, format defines {:?}", c.col, got[i], want[i]);
    }
    let want = refdec::colour(&c.col, false);
    let mut two = c.lead.to_vec();
    two.extend_from_slice(&c.col);
    for f in [2u8, 3] {
        let got = fmt(f).decompress_block(&two);
        for i in 0..16 {
            ensure!(
                got[i][..3] == want[i][..3],
                "BC{f} {:02x?} pixel {i}: decoded {:?}, format defines {:?}",
                two, &got[i][..3], &want[i][..3]
            );
        }
    }
    let cb = refdec::parse_colour(&c.col, true);
    let used = cb.idx.iter().fold(0u32, |m, i| m | 1 << i);
    Ok(Info::new(used.count_ones() >= 3 && cb.c0 != cb.c1)
        .label(cb.three, "three-colour mode")
        .label(!cb.three, "four-colour mode")
        .label(cb.c0 == cb.c1, "equal endpoints"))
}

fn c01() -> Facets {
    vec![
        Box::new(PropFacet::<RawBlock> {
            name: "random",
            rule: "random colour blocks (biased to near, equal and extreme endpoints) decoded as BC1, BC2 and BC3 and compared with the reference decoder; non-trivial: at least 3 palette entries used and endpoints differ",
            quick: 2_000_000,
            thorough: 60_000_000,
            shrink_iters: 20000,
            strat: || (uniform8(any::<u8>()), colour_bytes()).prop_map(|(lead, col)| RawBlock { lead, col }).boxed(),
            check: c01_check,
        }),
        Box::new(SweepFacet::<RawBlock> {
            name: "endpoint-sweep",
            rule: "every pair of values of each endpoint channel (32x32 red, 64x64 green, 32x32 blue), against 16 settings of the other channels, in both endpoint orders, each block using every index",
            count: |_| (32 * 32 + 64 * 64 + 32 * 32) * 16 * 2,
            exhaustive: true,
            case: |i, _| {
                let (i, swap) = (i / 2, i % 2 == 1);
                let (i, o) = (i / 16, i % 16);
                let others = mix(o, 5, 9);
                let (mut a, mut b) = (others as u16, (others >> 16) as u16);
                if i < 1024 {
                    a = a & 0x07ff | ((i / 32) as u16) << 11;
                    b = b & 0x07ff | ((i % 32) as u16) << 11;
                } else if i < 1024 + 4096 {
                    let i = i - 1024;
                    a = a & !0x07e0 | ((i / 64) as u16) << 5;
                    b = b & !0x07e0 | ((i % 64) as u16) << 5;
                } else {
                    let i = i - 5120;
                    a = a & !0x1f | (i / 32) as u16;
                    b = b & !0x1f | (i % 32) as u16;
                }
                if swap {
                    std::mem::swap(&mut a, &mut b);
                }
                let mut col = [0u8; 8];
                col[..2].copy_from_slice(&a.to_le_bytes());
                col[2..4].copy_from_slice(&b.to_le_bytes());
                col[4..].copy_from_slice(&(0xE41B_4EB1u32).rotate_left((i % 16) as u32 * 2).to_le_bytes());
                RawBlock { lead: [0x5A; 8], col }
            },
            check: c01_check,
        }),
        Box::new(SweepFacet::<RawBlock> {
            name: "index-sweep",
            rule: "every value of each index byte, at each of the four byte positions, with 8 endpoint pairs in both modes",
            count: |_| 256 * 4 * 8,
            exhaustive: true,
            case: |i, _| {
                let (v, i) = ((i % 256) as u8, i / 256);
                let (pos, e) = ((i % 4) as usize, i / 4);
                let m = mix(e, 3, 4);
                let (mut a, mut b) = (m as u16, (m >> 16) as u16);
                if (a <= b) != (e % 2 == 0) {
                    std::mem::swap(&mut a, &mut b);
                }
                let mut col = [0x1Bu8; 8];
                col[..2].copy_from_slice(&a.to_le_bytes());
                col[2..4].copy_from_slice(&b.to_le_bytes());
                col[4 + pos] = v;
                RawBlock { lead: [0; 8], col }
            },
            check: c01_check,
        }),
    ]
}

// ------------------------------------------------------------------ C02

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TwoBlocks {
    pub a: [u8; 8],
    pub b: [u8; 8],
}

fn channel_bytes() -> BoxedStrategy<[u8; 8]> {
    (byte(), prop_oneof![3 => byte().boxed(), 1 => Just(0u8).boxed()], 0u8..6, uniform8(any::<u8>()))
        .prop_map(|(e0, e1, k, mut o)| {
            o[0] = e0;
            o[1] = match k {
                0 => e0,
                1 => e0.saturating_add(e1 % 9),
                2 => e0.saturating_sub(e1 % 9),
                _ => e1,
            };
            o
        })
        .boxed()
}

fn c02_check(c: &TwoBlocks) -> CheckResult {
    let mut blk = c.a.to_vec();
    blk.extend_from_slice(&c.b);
    let ea = refdec::explicit_alpha(&c.a);
    let got = fmt(2).decompress_block(&blk);
    for i in 0..16 {
        ensure!(got[i][3] == ea[i], "BC2 alpha {:02x?} pixel {i}: {} instead of {}", c.a, got[i][3], ea[i]);
    }
    let ca = refdec::channel(&c.a);
    let cb = refdec::channel(&c.b);
    let got = fmt(3).decompress_block(&blk);
    for i in 0..16 {
        ensure!(got[i][3] == ca[i], "BC3 alpha {:02x?} pixel {i}: {} instead of {}", c.a, got[i][3], ca[i]);
    }
    let got = fmt(4).decompress_block(&c.a);
    for i in 0..16 {
        let w = [ca[i], ca[i], ca[i], 255];
        ensure!(got[i] == w, "BC4 {:02x?} pixel {i}: {:?} instead of {:?}", c.a, got[i], w);
    }
    let got = fmt(5).decompress_block(&blk);
    for i in 0..16 {
        let w = [ca[i], cb[i], 0, 255];
        ensure!(got[i] == w, "BC5 {:02x?} pixel {i}: {:?} instead of {:?}", blk, got[i], w);
    }
    Ok(Info::new(c.a[0] != c.a[1])
        .label(c.a[0] > c.a[1], "eight-entry mode")
        .label(c.a[0] <= c.a[1], "six-entry mode")
        .label(c.a[0] == c.a[1], "equal endpoints"))
}

fn c02() -> Facets {
    vec![
        Box::new(SweepFacet::<TwoBlocks> {
            name: "endpoint-sweep",
            rule: "all 65536 endpoint pairs, each with every index at two positions, decoded as BC2, BC3, BC4 and both halves of BC5; non-trivial: endpoints differ",
            count: |_| 65536,
            exhaustive: true,
            case: |i, _| {
                let mut a = [0u8; 8];
                a[0] = (i >> 8) as u8;
                a[1] = i as u8;
                // indices 0..7 twice, rotated by the case number
                let mut v = 0u64;
                for p in 0..16u64 {
                    v |= ((p + i * 3 + p / 8) % 8) << (3 * p);
                }
                a[2..].copy_from_slice(&v.to_le_bytes()[..6]);
                let mut b = a;
                b[0] = (i >> 3) as u8 ^ 0x5a;
                b[2..].rotate_left(1);
                TwoBlocks { a, b }
            },
            check: c02_check,
        }),
        Box::new(PropFacet::<TwoBlocks> {
            name: "random",
            rule: "random channel blocks (endpoints equal, near, extreme; random indices) decoded at every place a format holds one; non-trivial: endpoints differ",
            quick: 1_500_000,
            thorough: 40_000_000,
            shrink_iters: 20000,
            strat: || (channel_bytes(), channel_bytes()).prop_map(|(a, b)| TwoBlocks { a, b }).boxed(),
            check: c02_check,
        }),
        Box::new(SweepFacet::<TwoBlocks> {
            name: "bit-sweep",
            rule: "every value of each of the 8 bytes of a block with 16 settings of the others",
            count: |_| 256 * 8 * 16,
            exhaustive: true,
            case: |i, _| {
                let (v, i) = ((i % 256) as u8, i / 256);
                let (pos, s) = ((i % 8) as usize, i / 8);
                let mut a = mix(s, 11, 12).to_le_bytes();
                let mut b = mix(s, 13, 14).to_le_bytes();
                a[pos] = v;
                b[pos] = v;
                TwoBlocks { a, b }
            },
            check: c02_check,
        }),
    ]
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DecImg {
    pub f: u8,
    pub w: usize,
    pub h: usize,
    pub seed: u64,
    pub extra_in: usize,
    pub extra_out: usize,
    /// 0: random blocks, 1: half blocks that almost repeat
    #[serde(default)]
    pub kind: u8,
}

fn image_bytes(seed: u64, n: usize, kind: u8) -> Vec<u8> {
    let half = |i: u64| {
        let m = mix(seed, i, 1);
        if kind == 0 {
            return m;
        }
        // one of four values, one of them zero, often with a small change
        let t = if m % 4 == 0 { 0 } else { mix(seed, m % 4, 2) };
        match m >> 8 & 7 {
            0 => t ^ 1 << (m >> 16 & 63),
            1 => t.swap_bytes(),
            2 => t ^ 0xFF << (8 * (m >> 16 & 7)),
            3 => t & 0xFFFF_FFFF,
            4 => t.rotate_left(16),
            _ => t,
        }
    };
    let mut v: Vec<u8> = (0..n as u64 / 8 + 1).flat_map(|i| half(i).to_le_bytes()).collect();
    v.truncate(n);
    v
}

fn ceil4(x: usize) -> usize {
    x / 4 + usize::from(x % 4 != 0)
}

fn c03_check(c: &DecImg) -> CheckResult {
    let bs = block_size(c.f);
    let (bw, bh) = (ceil4(c.w), ceil4(c.h));
    let data = image_bytes(c.seed, bw * bh * bs + c.extra_in, c.kind);
    let n = c.w * c.h * 4;
    let guard = |i: usize| (i as u8).wrapping_mul(31) ^ 0xC3;
    let mut out: Vec<u8> = (0..n + c.extra_out).map(guard).collect();
    fmt(c.f).decompress(&data, c.w, c.h, &mut out);
    // last block first, so that anything remembered from block to block shows
    for by in (0..bh).rev() {
        for bx in (0..bw).rev() {
            let o = (by * bw + bx) * bs;
            let blk = fmt(c.f).decompress_block(&data[o..o + bs]);
            for p in 0..16 {
                let (x, y) = (4 * bx + p % 4, 4 * by + p / 4);
                if x < c.w && y < c.h {
                    let at = 4 * (y * c.w + x);
                    ensure!(
                        out[at..at + 4] == blk[p],
                        "BC{} {}x{}: pixel ({x},{y}) is {:?}, its block gives {:?}",
                        c.f, c.w, c.h, &out[at..at + 4], blk[p]
                    );
                }
            }
        }
    }
    for i in n..out.len() {
        ensure!(out[i] == guard(i), "BC{} {}x{}: byte {} beyond the image changed", c.f, c.w, c.h, i - n);
    }
    Ok(Info::new(bw * bh > 1)
        .label(c.w % 4 != 0, "width not multiple of 4")
        .label(c.h % 4 != 0, "height not multiple of 4")
        .label(bh > 1, "several block rows")
        .label(c.extra_out > 0, "extra output")
        .label(c.kind == 1, "blocks that almost repeat")
        .label(c.extra_in > 0, "extra input"))
}

fn dec_img(d: BoxedStrategy<(usize, usize)>) -> BoxedStrategy<DecImg> {
    (any_fmt(), d, any::<u64>(), extra(), extra(), 0u8..2)
        .prop_map(|(f, (w, h), seed, extra_in, extra_out, kind)| DecImg { f, w, h, seed, extra_in, extra_out, kind })
        .boxed()
}

fn extra() -> BoxedStrategy<usize> {
    prop_oneof![3 => Just(0usize), 1 => 1usize..20, 1 => 1usize..2000, 1 => (1usize..40).prop_map(|k| 16 * k)].boxed()
}

fn big_dims() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        (1000usize..9000, 1usize..6),
        (1usize..6, 1000usize..9000),
        (300usize..700, 300usize..700),
        (16380usize..16400, 1usize..3),
        (65530usize..65545, 1usize..3),
        (1usize..3, 65530usize..65545),
        // more than 65536 blocks
        (262_130usize..262_160, 1usize..6),
        (1usize..6, 262_130usize..262_160),
        (1018usize..1036, 1018usize..1036),
    ]
    .boxed()
}

fn huge(i: u64, s: u64) -> (usize, usize) {
    let k = 1 + s as usize % 9;
    match i % 6 {
        0 => ((1 << 24) + k, 1),
        1 => (1, (1 << 24) + k),
        2 => (4096 + k, 4105 - k),
        3 => ((1 << 20) + k, 13 + k % 4),
        4 => (13 + k % 4, (1 << 20) + k),
        _ => (65536 + 4 * k, 4100 + k),
    }
}

fn c03() -> Facets {
    vec![
        Box::new(PropFacet::<DecImg> {
            name: "images",
            rule: "images of random size and block data with random surplus input and output; every pixel compared with its own block's decoding and guard bytes checked; non-trivial: more than one block",
            quick: 40_000,
            thorough: 800_000,
            shrink_iters: 5000,
            strat: || dec_img(dims()),
            check: c03_check,
        }),
        Box::new(PropFacet::<DecImg> {
            name: "large-images",
            rule: "as images, for very wide, very tall and large images",
            quick: 80,
            thorough: 2000,
            shrink_iters: 300,
            strat: || dec_img(big_dims()),
            check: c03_check,
        }),
        Box::new(SweepFacet::<DecImg> {
            name: "huge-images",
            rule: "single rows and columns of over 2^24 pixels, over 2^20 blocks, random block data; thorough: over 2^24 blocks",
            count: |c| if c.tier == Tier::Quick { 4 } else { 12 },
            exhaustive: false,
            case: |i, c| {
                let s = mix(c.seed, i, 303);
                let (w, h) = huge(i, s);
                DecImg { f: [1, 4, 3, 5, 2, 4][i as usize % 6], w, h, seed: s, extra_in: 0, extra_out: 9, kind: (s & 1) as u8 }
            },
            check: c03_check,
        }),
        Box::new(SweepFacet::<DecImg> {
            name: "size-sweep",
            rule: "every size from 1x1 to 20x20 in every format",
            count: |_| 20 * 20 * 5,
            exhaustive: true,
            case: |i, _| DecImg {
                f: (i % 5 + 1) as u8,
                w: (i / 5 % 20 + 1) as usize,
                h: (i / 100 + 1) as usize,
                seed: mix(i, 1, 2),
                extra_in: 0,
                extra_out: 0,
                kind: 0,
            },
            check: c03_check,
        }),
    ]
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct EncImg {
    pub f: u8,
    pub p: P,
    pub img: Img,
}

/// Block (bx, by) of an image with out-of-image pixels zero and masked out.
fn block_of(rgba: &[u8], w: usize, h: usize, bx: usize, by: usize) -> (Px, u32) {
    let mut px = [[0u8; 4]; 16];
    let mut mask = 0;
    for p in 0..16 {
        let (x, y) = (4 * bx + p % 4, 4 * by + p / 4);
        if x < w && y < h {
            px[p].copy_from_slice(&rgba[4 * (y * w + x)..][..4]);
            mask |= 1 << p;
        }
    }
    (px, mask)
}

pub fn model_compress(f: u8, p: P, rgba: &[u8], w: usize, h: usize) -> Vec<u8> {
    let (bw, bs) = (ceil4(w), block_size(f));
    let mut out = vec![0; bw * ceil4(h) * bs];
    // last block first, so that anything remembered from block to block shows
    for i in (0..bw * ceil4(h)).rev() {
        let (px, m) = block_of(rgba, w, h, i % bw, i / bw);
        out[i * bs..][..bs].copy_from_slice(&enc(f, &px, m, p));
    }
    out
}

fn c04_check(c: &EncImg) -> CheckResult {
    let rgba = c.img.rgba();
    let (w, h) = (c.img.w, c.img.h);
    let bs = block_size(c.f);
    let n = ceil4(w) * ceil4(h) * bs;
    let mut out: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(13) ^ 0x3C).collect();
    fmt(c.f).compress(&rgba, w, h, c.p.get(), &mut out);
    let want = model_compress(c.f, c.p, &rgba, w, h);
    if out != want {
        let b = (0..out.len() / bs).find(|b| out[b * bs..][..bs] != want[b * bs..][..bs]).unwrap();
        return Err(format!(
            "BC{} {}x{}: block {} ({},{}) is {:02x?}, compressing it alone gives {:02x?}",
            c.f, w, h, b, b % ceil4(w), b / ceil4(w), &out[b * bs..][..bs], &want[b * bs..][..bs]
        ));
    }
    Ok(Info::new(n > bs)
        .label(w % 4 != 0, "width not multiple of 4")
        .label(h % 4 != 0, "height not multiple of 4")
        .label(ceil4(h) > 1, "several block rows")
        .label(ceil4(w) > 1, "several block columns"))
}

fn enc_img(d: BoxedStrategy<(usize, usize)>, w: BoxedStrategy<W3>) -> BoxedStrategy<EncImg> {
    (any_fmt(), params(w), img_with(d)).prop_map(|(f, p, img)| EncImg { f, p, img }).boxed()
}

fn c04() -> Facets {
    vec![
        Box::new(PropFacet::<EncImg> {
            name: "images",
            rule: "synthetic images (noise, gradients, few colours, flat tiles, mixtures; opaque, binary and arbitrary alpha) of random size compressed whole and block by block; non-trivial: more than one block",
            quick: 6_000,
            thorough: 150_000,
            shrink_iters: 2000,
            strat: || enc_img(dims(), weights_pos()),
            check: c04_check,
        }),
        Box::new(PropFacet::<EncImg> {
            name: "large-images",
            rule: "as images, for very wide, very tall and large images, channel formats and range fit",
            quick: 60,
            thorough: 1500,
            shrink_iters: 200,
            strat: || {
                (any_fmt(), weights_pos(), any::<bool>(), img_with(big_dims()))
                    .prop_map(|(f, w, flag, img)| EncImg { f, p: P { alg: 0, w, flag }, img })
                    .boxed()
            },
            check: c04_check,
        }),
        Box::new(SweepFacet::<EncImg> {
            name: "huge-images",
            rule: "single rows and columns of over 2^24 pixels, over 2^20 blocks, range fit and channel formats; thorough: over 2^24 blocks",
            count: |c| if c.tier == Tier::Quick { 4 } else { 12 },
            exhaustive: false,
            case: |i, c| {
                let s = mix(c.seed, i, 404);
                let (w, h) = huge(i, s);
                EncImg {
                    f: [4, 1, 5, 4, 3, 2][i as usize % 6],
                    p: P { alg: 0, w: W3::new([0.2126, 0.7152, 0.0722]), flag: false },
                    img: Img { w, h, kind: [5, 0, 3, 5][(s & 3) as usize], seed: s, alpha: (s >> 2) as u8 % 3 },
                }
            },
            check: c04_check,
        }),
        Box::new(SweepFacet::<EncImg> {
            name: "size-sweep",
            rule: "every size from 1x1 to 14x14 in every format with range fit and noise content",
            count: |_| 14 * 14 * 5,
            exhaustive: true,
            case: |i, _| EncImg {
                f: (i % 5 + 1) as u8,
                p: P { alg: (i % 2) as u8, w: W3::new([0.2126, 0.7152, 0.0722]), flag: i % 3 == 0 },
                img: Img { w: (i / 5 % 14 + 1) as usize, h: (i / 70 + 1) as usize, kind: (i % 5) as u8, seed: mix(i, 8, 2), alpha: (i % 3) as u8 },
            },
            check: c04_check,
        }),
    ]
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SizeCase {
    pub w: usize,
    pub h: usize,
}

fn c05_size(c: &SizeCase) -> CheckResult {
    ensure!(texpresso::num_blocks(c.w) == ceil4(c.w), "num_blocks({}) = {}", c.w, texpresso::num_blocks(c.w));
    for f in 1..=5u8 {
        ensure!(fmt(f).block_size() == block_size(f), "BC{f} block size {}", fmt(f).block_size());
        let want = ceil4(c.w) * ceil4(c.h) * block_size(f);
        let got = fmt(f).compressed_size(c.w, c.h);
        ensure!(got == want, "BC{f} {}x{}: compressed size {got}, expected {want}", c.w, c.h);
    }
    Ok(Info::new(c.w % 4 != 0 || c.h % 4 != 0)
        .label(c.w == 0 || c.h == 0, "empty")
        .label(c.w > 65536 || c.h > 65536, "beyond 65536"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct BufCase {
    pub f: u8,
    pub p: P,
    pub img: Img,
    /// how many bytes longer than needed
    pub extra: usize,
    /// how many bytes shorter than needed, for the refused call
    pub short: usize,
}

fn c05_buf(c: &BufCase) -> CheckResult {
    let rgba = c.img.rgba();
    let (w, h) = (c.img.w, c.img.h);
    let n = ceil4(w) * ceil4(h) * block_size(c.f);
    // two different fillings: bytes that stay as they were show up as a difference
    let mut a = vec![0x00u8; n];
    let mut b = vec![0xFFu8; n];
    fmt(c.f).compress(&rgba, w, h, c.p.get(), &mut a);
    fmt(c.f).compress(&rgba, w, h, c.p.get(), &mut b);
    if let Some(i) = (0..n).find(|&i| a[i] != b[i]) {
        return Err(format!("BC{} {w}x{h}: byte {i} of {n} depends on the previous buffer content", c.f));
    }
    let guard = |i: usize| (i as u8).wrapping_mul(29) ^ 0x69;
    let mut o: Vec<u8> = (0..n + c.extra).map(guard).collect();
    let r = guarded(|| fmt(c.f).compress(&rgba, w, h, c.p.get(), &mut o));
    ensure!(r.is_ok(), "BC{} {w}x{h}: output buffer {} bytes longer than needed panics: {}", c.f, c.extra, r.unwrap_err().replace('\n', " "));
    ensure!(o[..n] == a[..], "BC{} {w}x{h}: a buffer {} bytes longer gives different bytes", c.f, c.extra);
    for i in n..o.len() {
        ensure!(o[i] == guard(i), "BC{} {w}x{h}: byte {} beyond the compressed image was written", c.f, i - n);
    }
    // too short: refused, nothing written
    let short = c.short.min(n);
    let mut o: Vec<u8> = (0..n - short).map(guard).collect();
    if short > 0 {
        let r = guarded(|| fmt(c.f).compress(&rgba, w, h, c.p.get(), &mut o));
        ensure!(r.is_err(), "BC{} {w}x{h}: output buffer {short} bytes too short was accepted", c.f);
        ensure!(o.iter().enumerate().all(|(i, x)| *x == guard(i)), "BC{} {w}x{h}: refused call wrote to the buffer", c.f);
    }
    Ok(Info::new(c.extra > 0)
        .label(c.extra % block_size(c.f) != 0, "surplus not whole blocks")
        .label(c.extra > 0 && c.extra % block_size(c.f) == 0, "surplus whole blocks")
        .label(c.extra >= ceil4(w) * block_size(c.f), "surplus of a block row or more")
        .label(short > 0, "short buffer"))
}

fn c05() -> Facets {
    vec![
        Box::new(SweepFacet::<SizeCase> {
            name: "size-sweep",
            rule: "every size from 0x0 to 130x130 against ceil(w/4)*ceil(h/4)*block size; non-trivial: a side not a multiple of 4",
            count: |_| 131 * 131,
            exhaustive: true,
            case: |i, _| SizeCase { w: (i / 131) as usize, h: (i % 131) as usize },
            check: c05_size,
        }),
        Box::new(PropFacet::<SizeCase> {
            name: "sizes",
            rule: "random sizes up to 2^30 per side, biased to powers of two and their neighbours",
            quick: 200_000,
            thorough: 2_000_000,
            shrink_iters: 5000,
            strat: || {
                let side = || prop_oneof![0usize..5000, 0usize..1 << 20, 0usize..1 << 30,
                    (0u32..30, 0usize..9).prop_map(|(e, d)| ((1usize << e) + d).saturating_sub(4))];
                (side(), side()).prop_map(|(w, h)| SizeCase { w, h }).boxed()
            },
            check: c05_size,
        }),
        Box::new(PropFacet::<BufCase> {
            name: "buffers",
            rule: "images compressed into exact, longer and shorter buffers with guard bytes; non-trivial: a longer buffer",
            quick: 12_000,
            thorough: 200_000,
            shrink_iters: 3000,
            strat: || {
                let d = prop_oneof![6 => (1usize..=18, 1usize..=18), 1 => (1usize..=60, 1usize..=60)].boxed();
                (any_fmt(), weights_pos(), any::<bool>(), 0u8..2, img_with(d), extra(), prop_oneof![1usize..=24, 1usize..=500])
                    .prop_map(|(f, w, flag, alg, img, extra, short)| BufCase { f, p: P { alg, w, flag }, img, extra, short })
                    .boxed()
            },
            check: c05_buf,
        }),
    ]
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct MaskCase {
    pub f: u8,
    pub p: P,
    pub px: Px,
    pub other: Px,
    pub mask: u16,
    pub high: u16,
}

fn c06_check(c: &MaskCase) -> CheckResult {
    let mut q = c.px;
    for i in 0..16 {
        if c.mask >> i & 1 == 0 {
            q[i] = c.other[i];
        }
    }
    let m = c.mask as u32;
    let a = enc(c.f, &c.px, m, c.p);
    let b = enc(c.f, &q, m, c.p);
    ensure!(a == b, "BC{}: disabled pixels change the block: {:02x?} / {:02x?}", c.f, a, b);
    let d = enc(c.f, &c.px, m | (c.high as u32) << 16, c.p);
    ensure!(a == d, "BC{}: mask bits above 16 change the block: {:02x?} / {:02x?}", c.f, a, d);
    let off = c.mask.count_zeros();
    Ok(Info::new(off > 0 && off < 16 && q != c.px)
        .label(off == 16, "empty mask")
        .label(off > 0 && off < 16, "partial mask")
        .label(c.p.alg == 0, "range fit")
        .label(c.p.alg > 0, "cluster fit"))
}

fn c06() -> Facets {
    vec![Box::new(PropFacet::<MaskCase> {
        name: "pairs",
        rule: "two blocks agreeing on the mask (the others replaced by independent pixels, or by copies of enabled pixels) must encode alike; non-trivial: mask neither full nor empty and some disabled pixel differs",
        quick: 240_000,
        thorough: 6_000_000,
        shrink_iters: 20000,
        strat: || {
            (any_fmt(), params(weights_sane()), px(), px(), any::<bool>(), uniform16(0usize..16),
             prop_oneof![3 => any::<u16>().boxed(), 2 => mask().prop_map(|m| m as u16).boxed()], any::<u16>())
                .prop_map(|(f, p, px, o, copy, from, mask, high)| {
                    let other = if copy { from.map(|i| px[i]) } else { o };
                    MaskCase { f, p, px, other, mask, high }
                })
                .boxed()
        },
        check: c06_check,
    })]
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct EncCase {
    pub f: u8,
    pub p: P,
    pub b: Blk,
}

fn c07_check(c: &EncCase) -> CheckResult {
    let e = enc(1, &c.b.px, c.b.mask, c.p);
    let d = refdec::colour(&e, true);
    let (mut tr, mut op) = (0, 0);
    for i in 0..16 {
        if !c.b.on(i) {
            continue;
        }
        if c.b.px[i][3] < 128 {
            tr += 1;
            ensure!(d[i] == [0; 4], "pixel {i} with alpha {} decodes to {:?}", c.b.px[i][3], d[i]);
        } else {
            op += 1;
            ensure!(d[i][3] == 255, "pixel {i} with alpha {} decodes to {:?}", c.b.px[i][3], d[i]);
        }
    }
    Ok(Info::new(tr > 0 && op > 0)
        .label(tr > 0 && op == 0, "all transparent")
        .label(tr == 0, "all opaque")
        .label(tr > 0 && op > 1, "mixed")
        .label(tr > 0 && op == 1, "one opaque pixel"))
}

fn c07() -> Facets {
    vec![
        Box::new(PropFacet::<EncCase> {
            name: "blocks",
            rule: "random blocks with binary, threshold-near and arbitrary alpha, all algorithms, non-negative weights up to 1000; non-trivial: both transparent and opaque enabled pixels",
            quick: 240_000,
            thorough: 6_000_000,
            shrink_iters: 20000,
            strat: || {
                let al = prop_oneof![
                    1 => alphas(),
                    3 => uniform16(select(vec![0u8, 1, 64, 126, 127, 128, 129, 200, 254, 255])),
                    1 => (any::<u16>(), any::<bool>()).prop_map(|(m, n)| {
                        let mut a = [255u8; 16];
                        for i in 0..16 { if (m >> i & 1 == 1) != n { a[i] = 127 } }
                        a
                    }),
                    1 => (0usize..16, byte(), byte()).prop_map(|(i, x, y)| { let mut a = [x; 16]; a[i] = y; a }),
                ];
                (params(weights_sane()), colours(), al, mask0())
                    .prop_map(|(p, c, a, mask)| EncCase { f: 1, p, b: Blk { px: join(c, a), mask } })
                    .boxed()
            },
            check: c07_check,
        }),
        Box::new(SweepFacet::<EncCase> {
            name: "alpha-sweep",
            rule: "every alpha value at every pixel position among opaque or transparent neighbours, all algorithms",
            count: |_| 256 * 16 * 2 * 3,
            exhaustive: true,
            case: |i, _| {
                let (v, i) = ((i % 256) as u8, i / 256);
                let (pos, i) = ((i % 16) as usize, i / 16);
                let (other, alg) = (if i % 2 == 0 { 255 } else { 0 }, (i / 2) as u8);
                let mut px = [[0u8; 4]; 16];
                for k in 0..16 {
                    let m = mix(v as u64, k, pos as u64);
                    px[k as usize] = [m as u8, (m >> 8) as u8, (m >> 16) as u8, other];
                }
                px[pos][3] = v;
                EncCase { f: 1, p: P { alg, w: W3::new([1.0; 3]), flag: v & 1 == 1 }, b: Blk { px, mask: 0xffff } }
            },
            check: c07_check,
        }),
    ]
}

// ------------------------------------------------------------------ C08

fn c08_check(c: &EncCase) -> CheckResult {
    let e = enc(2, &c.b.px, c.b.mask, c.p);
    let a = refdec::explicit_alpha(&e[..8]);
    let d = fmt(2).decompress_block(&e);
    for i in 0..16 {
        // 17*round(a/17); a/17 is never half-way for integers
        let want = if c.b.on(i) { (2 * c.b.px[i][3] as u32 + 17) / 34 * 17 } else { 0 } as u8;
        ensure!(a[i] == want, "pixel {i} (enabled {}) alpha {} stored as {}, nearest level {want}", c.b.on(i), c.b.px[i][3], a[i]);
        ensure!(!c.b.on(i) || d[i][3] == want, "pixel {i} alpha {} decodes to {}", c.b.px[i][3], d[i][3]);
    }
    let mut v: Vec<u8> = (0..16).filter(|&i| c.b.on(i)).map(|i| c.b.px[i][3]).collect();
    v.sort();
    v.dedup();
    Ok(Info::new(v.len() > 2).label(c.b.mask != 0xffff, "partial mask").label(v.len() == 1, "one value"))
}

fn c08() -> Facets {
    vec![
        Box::new(PropFacet::<EncCase> {
            name: "blocks",
            rule: "random alpha planes and masks; non-trivial: more than two distinct enabled alpha values",
            quick: 160_000,
            thorough: 6_000_000,
            shrink_iters: 20000,
            strat: || {
                (weights_pos(), any::<bool>(), colours(), prop_oneof![1 => alphas(), 2 => chan()], mask0())
                    .prop_map(|(w, flag, c, a, mask)| EncCase { f: 2, p: P { alg: 0, w, flag }, b: Blk { px: join(c, a), mask } })
                    .boxed()
            },
            check: c08_check,
        }),
        Box::new(SweepFacet::<EncCase> {
            name: "value-sweep",
            rule: "every alpha value at every pixel position, with 8 settings of the other pixels and the pixel enabled or disabled",
            count: |_| 256 * 16 * 8 * 2,
            exhaustive: true,
            case: |i, _| {
                let (v, i) = ((i % 256) as u8, i / 256);
                let (pos, i) = ((i % 16) as usize, i / 16);
                let (s, off) = (i % 8, i / 8);
                let mut px = [[7u8, 7, 7, 0]; 16];
                for k in 0..16 {
                    px[k][3] = mix(s, k as u64, v as u64) as u8;
                }
                px[pos][3] = v;
                let mask = if off == 1 { 0xffff & !(1 << pos) } else { 0xffff };
                EncCase { f: 2, p: P { alg: 0, w: W3::new([1.0; 3]), flag: false }, b: Blk { px, mask } }
            },
            check: c08_check,
        }),
    ]
}

// ------------------------------------------------------------------ C09, C10

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ChanCase {
    /// 0 BC3 alpha, 1 BC4 red, 2 BC5 red, 3 BC5 green
    pub place: u8,
    pub c: Chan,
    /// content of the other channels
    pub o: Chan,
    pub mask: u32,
}

pub fn chan_px(place: u8, c: &Chan, o: &Chan) -> (u8, Px, usize, usize) {
    let (f, k, off) = [(3u8, 3usize, 0usize), (4, 0, 0), (5, 0, 0), (5, 1, 8)][place as usize];
    let mut px = [[0u8; 4]; 16];
    for i in 0..16 {
        px[i] = [o[i], o[(i + 1) % 16], o[(i + 5) % 16], o[(i + 9) % 16]];
        px[i][k] = c[i];
    }
    (f, px, k, off)
}

fn chan_encode(c: &ChanCase) -> ([u8; 8], Px) {
    let (f, px, _, off) = chan_px(c.place, &c.c, &c.o);
    let e = enc(f, &px, c.mask, P { alg: 0, w: W3::new([1.0; 3]), flag: false });
    let d = fmt(f).decompress_block(&e);
    let mut b = [0u8; 8];
    b.copy_from_slice(&e[off..off + 8]);
    (b, d)
}

fn c09_check(c: &ChanCase) -> CheckResult {
    let (b, lib) = chan_encode(c);
    let (_, _, k, _) = chan_px(c.place, &c.c, &c.o);
    let dec = refdec::channel(&b);
    let pal = refdec::channel_palette(b[0], b[1]);
    let mut err = 0u32;
    for i in 0..16 {
        if c.mask >> i & 1 == 0 {
            continue;
        }
        let v = c.c[i];
        let d = (dec[i] as i32 - v as i32).unsigned_abs();
        let near = pal.iter().map(|&p| (p as i32 - v as i32).unsigned_abs()).min().unwrap();
        ensure!(d == near, "pixel {i} value {v} stored as {} although the endpoints {:?} offer {:?}", dec[i], &b[..2], pal);
        ensure!(lib[i][k] == dec[i], "pixel {i} decodes to {} instead of {}", lib[i][k], dec[i]);
        err += d * d;
    }
    let vals = refenc::enabled(&c.c, c.mask);
    let (e7, e5) = refenc::channel_errors(&vals);
    ensure!(err <= e7.min(e5), "squared error {err}; seven-step fit gives {e7}, five-step fit {e5}; values {:?}", vals);
    let mut u = vals.clone();
    u.sort();
    u.dedup();
    let ext = u.contains(&0) || u.contains(&255);
    Ok(Info::new(u.len() > 2)
        .label(u.len() <= 2, "up to two values")
        .label(ext, "contains 0 or 255")
        .label(e5 < e7, "five-step fit better")
        .label(e7 < e5, "seven-step fit better")
        .label(e7 < e5 && ext, "seven-step fit better with extremes")
        .label(u.len() > 1 && u[u.len() - 1] - u[0] < 7, "narrow range"))
}

fn chan_case(s: BoxedStrategy<Chan>) -> BoxedStrategy<ChanCase> {
    (0u8..4, s, chan(), mask0()).prop_map(|(place, c, o, mask)| ChanCase { place, c, o, mask }).boxed()
}

fn c09() -> Facets {
    vec![
        Box::new(PropFacet::<ChanCase> {
            name: "channels",
            rule: "random channels (few values, narrow and wide ranges, extremes mixed in, values near a codebook) in every place; non-trivial: more than two distinct enabled values",
            quick: 600_000,
            thorough: 20_000_000,
            shrink_iters: 20000,
            strat: || chan_case(chan()),
            check: c09_check,
        }),
        Box::new(SweepFacet::<ChanCase> {
            name: "range-sweep",
            rule: "every pair of minimum and maximum with interior values spread between them, with and without 0 and 255 added",
            count: |_| 256 * 257 / 2 * 4,
            exhaustive: true,
            case: |i, _| {
                let (ext, i) = (i % 4, i / 4);
                // i-th pair lo <= hi
                let mut lo = 0u64;
                let mut r = i;
                while r >= 256 - lo {
                    r -= 256 - lo;
                    lo += 1;
                }
                let hi = lo + r;
                let mut c = [0u8; 16];
                for k in 0..16u64 {
                    c[k as usize] = (lo + mix(i, k, ext) % (hi - lo + 1)) as u8;
                }
                c[2] = lo as u8;
                c[9] = hi as u8;
                if ext & 1 == 1 {
                    c[0] = 0;
                }
                if ext & 2 == 2 {
                    c[15] = 255;
                }
                ChanCase { place: (i % 4) as u8, c, o: [i as u8; 16], mask: 0xffff }
            },
            check: c09_check,
        }),
    ]
}

fn c10_check(c: &ChanCase) -> CheckResult {
    let vals = refenc::enabled(&c.c, c.mask);
    let mut inner: Vec<u8> = vals.iter().copied().filter(|&v| v != 0 && v != 255).collect();
    inner.sort();
    inner.dedup();
    let range = |v: &[u8]| v.iter().max().map_or(0, |m| m - v.iter().min().unwrap());
    let few = inner.len() <= 2;
    let r7 = range(&vals) <= 7;
    let r5 = range(&inner) <= 5;
    if !(few || r7 || r5) {
        return Ok(Info::new(false).label(true, "outside the premise"));
    }
    let (_, lib) = chan_encode(c);
    let (_, _, k, _) = chan_px(c.place, &c.c, &c.o);
    for i in 0..16 {
        if c.mask >> i & 1 == 1 {
            ensure!(lib[i][k] == c.c[i], "pixel {i} value {} decodes to {}; enabled values {:?}", c.c[i], lib[i][k], vals);
        }
    }
    let mut u = vals.clone();
    u.sort();
    u.dedup();
    Ok(Info::new(u.len() > 1)
        .label(few, "at most two values besides 0 and 255")
        .label(r7 && !few, "range of seven")
        .label(r5 && !few && !r7, "range of five plus extremes")
        .label(u.contains(&0) && u.contains(&255), "both extremes"))
}

fn c10() -> Facets {
    fn chans() -> BoxedStrategy<Chan> {
        prop_oneof![
            (byte(), byte(), uniform16(0u8..4)).prop_map(|(a, b, i)| i.map(|k| [a, b, 0, 255][k as usize])),
            (0u8..=255, 1u8..=7, uniform16(0u8..=7)).prop_map(|(b, w, i)| i.map(|k| b.saturating_add(k % (w + 1)))),
            (1u8..=254, 1u8..=5, uniform16(0u8..=7)).prop_map(|(b, w, i)| i.map(|k| match k {
                6 => 0,
                7 => 255,
                k => b.saturating_add(k % (w + 1)).min(254),
            })),
            byte().prop_map(|v| [v; 16]),
        ]
        .boxed()
    }
    vec![
        Box::new(PropFacet::<ChanCase> {
            name: "channels",
            rule: "channels built to satisfy the premise (two values and extremes; range of seven; range of five plus extremes), every place and mask; non-trivial: at least two distinct enabled values",
            quick: 400_000,
            thorough: 12_000_000,
            shrink_iters: 20000,
            strat: || chan_case(chans()),
            check: c10_check,
        }),
        Box::new(SweepFacet::<ChanCase> {
            name: "pair-sweep",
            rule: "every pair of values, with neither, one or both of 0 and 255 among the other pixels",
            count: |_| 65536 * 4,
            exhaustive: true,
            case: |i, _| {
                let (a, b, x) = ((i & 255) as u8, (i >> 8 & 255) as u8, i >> 16);
                let mut c = [a; 16];
                for k in 0..8 {
                    c[2 * k] = b;
                }
                if x & 1 == 1 {
                    c[3] = 0;
                }
                if x & 2 == 2 {
                    c[4] = 255;
                }
                ChanCase { place: ((a ^ b) % 4) as u8, c, o: [a; 16], mask: 0xffff }
            },
            check: c10_check,
        }),
        Box::new(SweepFacet::<ChanCase> {
            name: "ramp-sweep",
            rule: "every run of consecutive values with range 1 to 7 (or 1 to 5 with 0 and 255 added)",
            count: |_| 256 * 7 * 2,
            exhaustive: true,
            case: |i, _| {
                let (b, i) = (i % 256, i / 256);
                let (w, e) = (i % 7 + 1, i / 7);
                let w = if e == 1 { w.min(5) } else { w };
                let mut c = [0u8; 16];
                for k in 0..16u64 {
                    c[k as usize] = (b + k % (w + 1)).min(255) as u8;
                }
                if e == 1 {
                    c[14] = 0;
                    c[15] = 255;
                }
                ChanCase { place: (b % 4) as u8, c, o: [b as u8; 16], mask: 0xffff }
            },
            check: c10_check,
        }),
    ]
}

// ------------------------------------------------------------------ C11

fn c11_check(c: &EncCase) -> CheckResult {
    let b = &c.b;
    let mut colour = None;
    let mut transparent = false;
    let mut pixels = 0;
    for i in 0..16 {
        if !b.on(i) {
            continue;
        }
        if c.f == 1 && b.px[i][3] < 128 {
            transparent = true;
            continue;
        }
        let q = [b.px[i][0], b.px[i][1], b.px[i][2]];
        match colour {
            None => colour = Some(q),
            Some(x) if x == q => {}
            _ => return Ok(Info::new(false).label(true, "outside the premise")),
        }
        pixels += 1;
    }
    let Some(q) = colour else {
        return Ok(Info::new(false).label(true, "outside the premise"));
    };
    let e = enc(c.f, &b.px, b.mask, c.p);
    let d = fmt(c.f).decompress_block(&e);
    let r = refdec::colour(&e[colour_off(c.f)..][..8], c.f == 1);
    let mut seen: Option<[u8; 3]> = None;
    for i in 0..16 {
        if b.on(i) && !(c.f == 1 && b.px[i][3] < 128) {
            let x = [d[i][0], d[i][1], d[i][2]];
            ensure!(r[i][..3] == x, "decoders disagree at pixel {i}");
            ensure!(*seen.get_or_insert(x) == x, "uniform colour {q:?} decodes to both {:?} and {x:?}", seen.unwrap());
        }
    }
    let x = seen.unwrap();
    let err: u32 = (0..3).map(|k| (x[k] as i32 - q[k] as i32).pow(2) as u32).sum();
    let best = match c.f {
        1 => refenc::flat_best(q, true, !transparent),
        _ => refenc::flat_best(q, false, true),
    };
    ensure!(err == best, "BC{} colour {q:?} decodes to {x:?}: squared error {err}, the format allows {best}", c.f);
    Ok(Info::new(!refenc::exact565(q))
        .label(transparent, "with transparent pixels")
        .label(b.mask != 0xffff, "partial mask")
        .label(pixels == 1, "one pixel")
        .label(best == 0, "exactly reachable"))
}

fn c11() -> Facets {
    fn flat(q: [u8; 3], f: u8, m: u64) -> EncCase {
        let mut px = [[q[0], q[1], q[2], 255]; 16];
        let mut mask = 0xffff;
        if m % 4 == 1 {
            px[(m >> 8) as usize % 16] = [(m >> 16) as u8, (m >> 24) as u8, 9, (m >> 32) as u8 % 128];
            if f != 1 {
                mask &= !(1 << ((m >> 8) % 16));
            }
        }
        EncCase { f, p: P { alg: (m >> 40) as u8 % 3, w: W3::new([0.2126, 0.7152, 0.0722]), flag: m >> 50 & 1 == 1 }, b: Blk { px, mask } }
    }
    vec![
        Box::new(PropFacet::<EncCase> {
            name: "blocks",
            rule: "uniform blocks with random masks, parameters, alpha and (BC1) transparent pixels of other colours; non-trivial: colour not exactly representable",
            quick: 400_000,
            thorough: 8_000_000,
            shrink_iters: 20000,
            strat: || {
                (colour_fmt(), params(weights_sane()), rgb(), colours(), alphas(), mask())
                    .prop_map(|(f, p, q, other, a, mask)| {
                        let mut px = join(other, a);
                        for i in 0..16 {
                            if f != 1 || px[i][3] >= 128 {
                                px[i] = [q[0], q[1], q[2], px[i][3]];
                            }
                        }
                        EncCase { f, p, b: Blk { px, mask } }
                    })
                    .boxed()
            },
            check: c11_check,
        }),
        Box::new(SweepFacet::<EncCase> {
            name: "colour-sweep",
            rule: "every value of every channel against pseudo-random values of the others (quick), all 2^24 colours (thorough), each in BC1, BC1 with a transparent pixel, BC2, BC3",
            count: |ctx| if ctx.tier == Tier::Thorough { 1 << 24 } else { 256 * 3 * 1500 },
            exhaustive: true,
            case: |i, ctx| {
                if ctx.tier == Tier::Thorough {
                    let m = mix(i, 1, 1);
                    flat([i as u8, (i >> 8) as u8, (i >> 16) as u8], [1, 1, 2, 3][(m >> 60) as usize % 4], m)
                } else {
                    let (v, i) = ((i % 256) as u8, i / 256);
                    let (k, s) = ((i % 3) as usize, i / 3);
                    let m = mix(s, v as u64 + 1000 * ctx.seed, k as u64);
                    // half of the time a gray, which needs good entries in all channels at once
                    let mut q = if m >> 63 == 0 { [v; 3] } else { [(m >> 3) as u8, (m >> 11) as u8, (m >> 19) as u8] };
                    q[k] = v;
                    let m2 = mix(m, 4, 4);
                    flat(q, [1, 1, 2, 3][(m2 >> 60) as usize % 4], m2)
                }
            },
            check: c11_check,
        }),
    ]
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TwoColours {
    pub f: u8,
    pub p: P,
    pub a: u16,
    pub b: u16,
    /// pixel i shows b where the bit is set
    pub sel: u16,
    /// BC1: pixel i is transparent where the bit is set
    pub tr: u16,
    pub alpha: Chan,
    pub mask: u32,
}

fn steps_apart(a: u16, b: u16) -> u32 {
    let d = |s: u32, m: u16| ((a >> s & m) as i32 - (b >> s & m) as i32).unsigned_abs();
    d(11, 31).max(d(5, 63)).max(d(0, 31))
}

fn c12_check(c: &TwoColours) -> CheckResult {
    if steps_apart(c.a, c.b) < 2 {
        return Ok(Info::new(false).label(true, "outside the premise"));
    }
    let (ca, cb) = (refdec::expand565(c.a), refdec::expand565(c.b));
    let mut px = [[0u8; 4]; 16];
    let (mut na, mut nb, mut nt) = (0, 0, 0);
    for i in 0..16 {
        let q = if c.sel >> i & 1 == 1 { cb } else { ca };
        let t = c.f == 1 && c.tr >> i & 1 == 1;
        let al = match (c.f, t) {
            (1, true) => c.alpha[i] % 128,
            (1, false) => 128 + c.alpha[i] % 128,
            // a nearly transparent colour hardly counts under alpha weighting
            _ if c.p.flag && c.p.alg != 0 => 128 + c.alpha[i] % 128,
            _ => c.alpha[i],
        };
        px[i] = [q[0] as u8, q[1] as u8, q[2] as u8, al];
        if c.mask >> i & 1 == 1 {
            if t {
                nt += 1
            } else if c.sel >> i & 1 == 1 {
                nb += 1
            } else {
                na += 1
            }
        }
    }
    let e = enc(c.f, &px, c.mask, c.p);
    let d = fmt(c.f).decompress_block(&e);
    if na == 0 || nb == 0 {
        return Ok(Info::new(false).label(true, "one colour only"));
    }
    for i in 0..16 {
        if c.mask >> i & 1 == 1 && !(c.f == 1 && c.tr >> i & 1 == 1) {
            // the cluster fits work on real-valued colours (c/255 is not exactly on the 5:6:5
            // grid) and may put a colour on an interpolated entry
            let tol = if c.p.alg != 0 { 4 } else { 0 };
            ensure!(
                (0..3).all(|k| (d[i][k] as i32 - px[i][k] as i32).abs() <= tol),
                "BC{} algorithm {} pixel {i}: {:?} decodes to {:?} (colours {:?} x{na}, {:?} x{nb})",
                c.f, c.p.alg, &px[i][..3], &d[i][..3], ca, cb
            );
        }
    }
    let s = |q: [u32; 3]| q[0] + q[1] + q[2];
    let mut dev = 0;
    for i in 0..16 {
        if c.mask >> i & 1 == 1 && !(c.f == 1 && c.tr >> i & 1 == 1) {
            dev = (0..3).fold(dev, |m, k| m.max((d[i][k] as i32 - px[i][k] as i32).abs()));
        }
    }
    Ok(Info::new(true)
        .metric(dev as f64)
        .label(dev == 1, "off by one")
        .label(dev == 2, "off by two")
        .label(dev > 2, "off by more than two")
        .label(nt > 0, "with transparent pixels")
        .label(s(ca) == s(cb), "equal channel sums")
        .label(steps_apart(c.a, c.b) <= 3, "close colours")
        .label(c.p.alg == 0, "range fit")
        .label(c.p.alg == 1, "cluster fit")
        .label(c.p.alg == 2, "iterative cluster fit"))
}

fn c12() -> Facets {
    fn pair() -> BoxedStrategy<(u16, u16)> {
        let corner = || {
            (0u16..2, 0u16..2, 0u16..2).prop_map(|(r, g, b)| (r * 31) << 11 | (g * 63) << 5 | (b * 31))
        };
        prop_oneof![
            4 => (any::<u16>(), any::<u16>()).boxed(),
            3 => (corner(), corner()).boxed(),
            // opposite steps in two channels of equal width
            3 => (0u16..=31, 0u16..=31, any::<u16>()).prop_map(|(x, y, o)| {
                let g = o & 0x07e0;
                (x << 11 | g | y, y << 11 | g | x)
            }).boxed(),
            2 => (any::<u16>(), 0u32..3, 2u16..8).prop_map(|(a, k, d)| {
                let (s, m) = [(11u32, 31u16), (5, 63), (0, 31)][k as usize];
                let v = a >> s & m;
                let n = if v + d <= m { v + d } else { v - d };
                (a, a & !(m << s) | n << s)
            }).boxed(),
        ]
        .boxed()
    }
    fn sel() -> BoxedStrategy<u16> {
        prop_oneof![2 => any::<u16>(), 1 => (0u32..16).prop_map(|i| 1 << i), 1 => Just(0x5a5au16), 1 => Just(0xff00u16)].boxed()
    }
    vec![
        Box::new(PropFacet::<TwoColours> {
            name: "pairs",
            rule: "pairs of 5:6:5 colours (random, cube corners, mirrored channels, few steps apart) arranged at random, all colour formats, algorithms, masks, transparent pixels; non-trivial: both colours enabled and two steps apart",
            quick: 300_000,
            thorough: 8_000_000,
            shrink_iters: 20000,
            strat: || {
                (colour_fmt(), params(weights_pos()), pair(), sel(), prop_oneof![2 => Just(0u16), 1 => any::<u16>()], alphas(), mask())
                    .prop_map(|(f, p, (a, b), sel, tr, alpha, mask)| TwoColours { f, p, a, b, sel, tr, alpha, mask })
                    .boxed()
            },
            check: c12_check,
        }),
        Box::new(SweepFacet::<TwoColours> {
            name: "coarse-sweep",
            rule: "all pairs of the 64 colours with channel values 0, 1/3, 2/3, 1, every algorithm and colour format, two arrangements",
            count: |_| 64 * 64 * 9 * 2,
            exhaustive: true,
            case: |i, _| {
                let (v, i) = (i % 2, i / 2);
                let (af, i) = (i % 9, i / 9);
                let q = |k: u64| ((k & 3) as u16 * 10 + u16::from(k & 3 == 3)) << 11 | ((k >> 2 & 3) as u16 * 21) << 5 | ((k >> 4) as u16 * 10 + u16::from(k >> 4 == 3));
                TwoColours {
                    f: (af / 3 + 1) as u8,
                    p: P { alg: (af % 3) as u8, w: W3::new([0.2126, 0.7152, 0.0722]), flag: false },
                    a: q(i % 64),
                    b: q(i / 64),
                    sel: if v == 0 { 0x5a5a } else { 0x0200 },
                    tr: 0,
                    alpha: [255; 16],
                    mask: 0xffff,
                }
            },
            check: c12_check,
        }),
    ]
}

// ------------------------------------------------------------------ C13, C14, C15

fn colour_case(alg: BoxedStrategy<u8>) -> BoxedStrategy<EncCase> {
    let w = prop_oneof![5 => weights_pos(), 1 => weights_sane()].boxed();
    (colour_fmt(), alg, w, any::<bool>(), px(), mask())
        .prop_map(|(f, alg, w, flag, px, mask)| EncCase { f, p: P { alg, w, flag }, b: Blk { px, mask } })
        .boxed()
}

fn count_label(n: usize) -> &'static str {
    match n {
        0..=1 => "under 2 colours",
        2 => "2 colours",
        3..=4 => "3-4 colours",
        5..=8 => "5-8 colours",
        _ => "9-16 colours",
    }
}

fn c13_check(c: &EncCase) -> CheckResult {
    let s = refenc::set(&c.b, c.f == 1, c.p.flag);
    let e = enc(c.f, &c.b.px, c.b.mask, c.p);
    if s.p.len() < 2 {
        return Ok(Info::new(false).label(true, count_label(s.p.len())));
    }
    let cb = refdec::parse_colour(&e[colour_off(c.f)..][..8], c.f == 1);
    let w = refenc::wt(&c.p);
    let dist = |a: refenc::V3, b: refenc::V3| {
        let d = refenc::sub(a, b);
        (0..3).map(|k| (w[k] * d[k]).powi(2)).sum::<f64>()
    };
    let wmax = w.iter().fold(0.0, |m: f64, x| m.max(x * x));
    // nearest entries
    let pal = refenc::palette_f(cb.c0, cb.c1, cb.three);
    let mut worst = 0f64;
    for i in 0..16 {
        if let Some(j) = s.of[i] {
            let k = cb.idx[i] as usize;
            ensure!(k < pal.len(), "opaque pixel {i} uses the transparent entry");
            let d = dist(s.p[j], pal[k]);
            let n = pal.iter().map(|q| dist(s.p[j], *q)).fold(f64::INFINITY, f64::min);
            worst = worst.max(d - n);
            ensure!(
                d <= n + 1e-6 * wmax,
                "BC{} pixel {i} {:?} uses entry {k} at weighted distance {d:.3e}, another is at {n:.3e}; endpoints {:04x} {:04x}",
                c.f, s.rgb[j], cb.c0, cb.c1
            );
        }
    }
    // endpoints are colours of the block
    let own = |v: u16| -> Vec<usize> { (0..s.p.len()).filter(|&j| refenc::round565(s.rgb[j]) == v).collect() };
    let (o0, o1) = (own(cb.c0), own(cb.c1));
    ensure!(!o0.is_empty() && !o1.is_empty(), "BC{} endpoints {:04x} {:04x} are not rounded colours of the block {:?}", c.f, cb.c0, cb.c1, s.rgb);
    // the extremes along the principal axis
    let (u, theta) = refenc::axis(&s);
    let pr: Vec<f64> = s.p.iter().map(|p| refenc::dot(*p, u)).collect();
    let spread = pr.iter().cloned().fold(f64::MIN, f64::max) - pr.iter().cloned().fold(f64::MAX, f64::min);
    let mut got = 0f64;
    for &i in &o0 {
        for &j in &o1 {
            got = got.max((pr[i] - pr[j]).abs());
        }
    }
    let mut diam = 0f64;
    for a in &s.p {
        for b in &s.p {
            diam = diam.max(refenc::norm(refenc::sub(*a, *b)));
        }
    }
    let slack = 2.0 * theta.min(1.0) * diam + 2e-5;
    ensure!(
        got >= spread - slack,
        "BC{} endpoints {:04x} {:04x} span {got:.4} along the principal axis, the colours {:?} span {spread:.4} (slack {slack:.1e})",
        c.f, cb.c0, cb.c1, s.rgb
    );
    // palette choice
    let mut choice = false;
    if c.f == 1 && !s.transparent && cb.c0 != cb.c1 {
        let tot = |three: bool| -> f64 {
            let pal = refenc::palette_f(cb.c0, cb.c1, three);
            s.p.iter().map(|p| pal.iter().map(|q| dist(*p, *q)).fold(f64::INFINITY, f64::min)).sum()
        };
        let (t3, t4) = (tot(true), tot(false));
        let (mine, other) = if cb.three { (t3, t4) } else { (t4, t3) };
        choice = true;
        ensure!(mine <= other + 4e-6 * wmax, "BC1 uses the {}-colour palette at error {mine:.3e}, the other gives {other:.3e}", if cb.three { 3 } else { 4 });
    }
    if c.f == 1 && s.transparent {
        ensure!(cb.three, "BC1 block with transparency in four-colour mode");
    }
    Ok(Info::new(s.p.len() > 2)
        .label(true, count_label(s.p.len()))
        .label(slack < 0.25 * spread, "axis certain enough to test the span")
        .label(choice && cb.three, "three-colour palette chosen")
        .label(choice && !cb.three, "four-colour palette chosen")
        .label(s.transparent, "with transparent pixels")
        .label(w.iter().any(|x| *x == 0.0), "a zero weight")
        .metric(worst / wmax.max(1e-30)))
}

fn c13() -> Facets {
    vec![Box::new(PropFacet::<EncCase> {
        name: "blocks",
        rule: "random colour blocks (gradients, few colours, noise, opposite channels, near flat, outliers) under range fit; non-trivial: at least 3 distinct opaque enabled colours",
        quick: 200_000,
        thorough: 6_000_000,
        shrink_iters: 20000,
        strat: || colour_case(Just(0u8).boxed()),
        check: c13_check,
    })]
}

/// Tolerance of the cluster-fit measure: f32 evaluation of sums up to the weight total.
fn tol(s: &refenc::Set, w: refenc::V3) -> f64 {
    let tot: f64 = s.w.iter().sum::<f64>() * (w[0] + w[1] + w[2]);
    4e-6 * tot
}

fn c14_check(c: &EncCase) -> CheckResult {
    let s = refenc::set(&c.b, c.f == 1, c.p.flag);
    let e = enc(c.f, &c.b.px, c.b.mask, c.p);
    if s.p.len() < 2 {
        return Ok(Info::new(false).label(true, count_label(s.p.len())));
    }
    let cb = refdec::parse_colour(&e[colour_off(c.f)..][..8], c.f == 1);
    let w = refenc::wt(&c.p);
    let got = refenc::objective(&s, &cb, w)?;
    let three = c.f == 1;
    let four = c.f != 1 || !s.transparent;
    let r = refenc::search(&s, w, three, four);
    if r.candidates == 0 {
        return Ok(Info::new(false).label(true, "no well-conditioned division"));
    }
    let t = tol(&s, w) + 1e-3 * r.best;
    ensure!(
        got <= r.best + t,
        "BC{} algorithm {}: weighted error {got:.6e}, a division of the {} colours along the axis reaches {:.6e} (tolerance {t:.1e}); block {:02x?}",
        c.f, c.p.alg, s.p.len(), r.best, e
    );
    let scale: f64 = s.w.iter().sum::<f64>() * (w[0] + w[1] + w[2]);
    Ok(Info::new(s.p.len() > 2 && r.sure_cuts > 3)
        .label(true, count_label(s.p.len()))
        .label(r.sure_cuts == s.p.len() + 1, "order fully certain")
        .label(s.transparent, "with transparent pixels")
        .label(c.p.flag, "alpha weighting")
        .metric((got - r.best) / scale))
}

fn c14() -> Facets {
    vec![
        Box::new(PropFacet::<EncCase> {
            name: "cluster",
            rule: "random colour blocks under cluster fit against the f64 reference search; non-trivial: at least 3 distinct colours and at least 2 certain interior cut points",
            quick: 120_000,
            thorough: 4_000_000,
            shrink_iters: 8000,
            strat: || colour_case(Just(1u8).boxed()),
            check: c14_check,
        }),
        Box::new(PropFacet::<EncCase> {
            name: "iterative",
            rule: "the same under iterative cluster fit",
            quick: 40_000,
            thorough: 1_500_000,
            shrink_iters: 8000,
            strat: || colour_case(Just(2u8).boxed()),
            check: c14_check,
        }),
    ]
}

fn c15_check(c: &EncCase) -> CheckResult {
    let s = refenc::set(&c.b, c.f == 1, c.p.flag);
    if s.p.len() < 2 {
        return Ok(Info::new(false).label(true, count_label(s.p.len())));
    }
    let w = refenc::wt(&c.p);
    let run = |alg: u8| -> Result<(f64, Vec<u8>), String> {
        let e = enc(c.f, &c.b.px, c.b.mask, P { alg, ..c.p });
        let cb = refdec::parse_colour(&e[colour_off(c.f)..][..8], c.f == 1);
        Ok((refenc::objective(&s, &cb, w)?, e))
    };
    let (plain, ep) = run(1)?;
    let (iter, ei) = run(2)?;
    let t = tol(&s, w) + 1e-5 * plain;
    ensure!(
        iter <= plain + t,
        "BC{}: iterative fit has weighted error {iter:.6e}, plain fit {plain:.6e} (tolerance {t:.1e}); {:02x?} / {:02x?}",
        c.f, ei, ep
    );
    let scale: f64 = s.w.iter().sum::<f64>() * (w[0] + w[1] + w[2]);
    Ok(Info::new(ep != ei)
        .label(true, count_label(s.p.len()))
        .label(ep == ei, "same block")
        .label(iter < plain - t, "strictly better")
        .metric((iter - plain) / scale))
}

fn c15() -> Facets {
    vec![Box::new(PropFacet::<EncCase> {
        name: "blocks",
        rule: "random colour blocks encoded by both cluster fits, errors measured on the encoded blocks; non-trivial: the two encodings differ",
        quick: 100_000,
        thorough: 3_000_000,
        shrink_iters: 8000,
        strat: || colour_case(Just(2u8).boxed()),
        check: c15_check,
    })]
}

// ------------------------------------------------------------------ C21

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct BatchCase {
    pub f: u8,
    pub p: P,
    /// one transparent pixel in every block
    pub transparent: bool,
    pub blocks: Vec<Px>,
}

/// Rounds of refinement the algorithm is given.
const ROUNDS: usize = 8;

/// Refinement ends where the block's own endpoints order the colours in no better way. Which way
/// it goes depends on roundings, and a few blocks use up their rounds without showing it, so up
/// to 2.5% of a batch (about 0.03% are expected) may look unfinished.
fn c21_check(c: &BatchCase) -> CheckResult {
    let p = P { alg: 2, ..c.p };
    let w = refenc::wt(&p);
    let (mut unfinished, mut judged, mut long, mut moved) = (vec![], 0, 0, 0);
    for (i, px) in c.blocks.iter().enumerate() {
        let mut px = *px;
        for q in &mut px {
            q[3] = 128 | q[3] >> 1;
        }
        if c.transparent {
            px[5][3] = 0;
        }
        let b = Blk { px, mask: 0xffff };
        let s = refenc::set(&b, c.f == 1, p.flag);
        if s.p.len() < 2 {
            continue;
        }
        let e = enc(c.f, &px, 0xffff, p);
        let cb = refdec::parse_colour(&e[colour_off(c.f)..][..8], c.f == 1);
        if cb.c0 == cb.c1 {
            continue;
        }
        let got = refenc::objective(&s, &cb, w)?;
        let pal = refenc::palette_f(cb.c0, cb.c1, cb.three);
        let d = refenc::sub(pal[1], pal[0]);
        let n = refenc::norm(d);
        let r = refenc::search_along(&s, w, d.map(|x| x / n), 1e-6, cb.three, !cb.three);
        if r.candidates == 0 {
            continue;
        }
        judged += 1;
        if got > r.best + tol(&s, w) + 1e-3 * r.best {
            if refenc::refinements(&s, w, cb.three) >= ROUNDS {
                long += 1;
            } else {
                unfinished.push((i, got, r.best));
            }
        } else if e != enc(c.f, &px, 0xffff, P { alg: 1, ..p }) {
            moved += 1;
        }
    }
    ensure!(
        unfinished.len() <= 1 + c.blocks.len() / 50,
        "BC{}: iterative fit is unfinished on {} of {} blocks: (block, error, error reached by ordering along its own endpoints) {:.4?}",
        c.f, unfinished.len(), c.blocks.len(), &unfinished[..4]
    );
    Ok(Info::new(judged > 0 && moved * 50 > judged)
        .label(long > 0, "a block that used up its rounds")
        .label(!unfinished.is_empty(), "a block that looks unfinished")
        .label(c.f == 1 && c.transparent, "three-colour blocks")
        .label(c.f > 1, "four-colour blocks")
        .metric(unfinished.len() as f64))
}

fn batch_case() -> BoxedStrategy<BatchCase> {
    // a coloured cloud of some size in each block
    let block = (any::<[[u8; 4]; 16]>(), any::<[u8; 3]>(), 0u8..4).prop_map(|(mut px, base, sh)| {
        for q in &mut px {
            for k in 0..3 {
                q[k] = (q[k] >> sh).saturating_add(base[k] - (base[k] >> sh.min(1)));
            }
        }
        px
    });
    (colour_fmt(), weights_pos(), any::<bool>(), any::<bool>(), prop::collection::vec(block, 200))
        .prop_map(|(f, w, flag, transparent, blocks)| BatchCase { f, p: P { alg: 2, w, flag }, transparent, blocks })
        .boxed()
}

fn c21() -> Facets {
    vec![Box::new(PropFacet::<BatchCase> {
        name: "batches",
        rule: "batches of 200 blocks of 16 random colours under iterative cluster fit; non-trivial: at least 2% of the blocks of the batch differ from plain cluster fit",
        quick: 1_000,
        thorough: 60_000,
        shrink_iters: 500,
        strat: batch_case,
        check: c21_check,
    })]
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PlaneCase {
    pub p: P,
    pub q: P,
    pub px: Px,
    pub other: Px,
    pub mask: u32,
    pub perm: [u8; 16],
}

fn c16_check(c: &PlaneCase) -> CheckResult {
    let p = P { flag: false, ..c.p };
    let e = |f: u8, px: &Px| enc(f, px, c.mask, p);
    // replace some channels by those of the other block
    let take = |ch: [bool; 4]| {
        let mut q = c.px;
        for i in 0..16 {
            for k in 0..4 {
                if ch[k] {
                    q[i][k] = c.other[i][k];
                }
            }
        }
        q
    };
    let new_a = take([false, false, false, true]);
    let new_rgb = take([true, true, true, false]);
    let b2 = e(2, &c.px);
    let b3 = e(3, &c.px);
    ensure!(e(2, &new_a)[8..] == b2[8..], "BC2 colour part depends on alpha");
    ensure!(e(3, &new_a)[8..] == b3[8..], "BC3 colour part depends on alpha");
    ensure!(e(2, &new_rgb)[..8] == b2[..8], "BC2 alpha part depends on colour");
    ensure!(e(3, &new_rgb)[..8] == b3[..8], "BC3 alpha part depends on colour");
    ensure!(b2[8..] == b3[8..], "BC2 and BC3 colour parts differ: {:02x?} {:02x?}", &b2[8..], &b3[8..]);
    let b4 = e(4, &c.px);
    let b5 = e(5, &c.px);
    ensure!(e(4, &take([false, true, true, true])) == b4, "BC4 depends on a channel other than red");
    ensure!(e(5, &take([false, false, true, true])) == b5, "BC5 depends on a channel other than red and green");
    ensure!(e(5, &take([false, true, true, true]))[..8] == b5[..8], "BC5 red half depends on another channel");
    ensure!(e(5, &take([true, false, true, true]))[8..] == b5[8..], "BC5 green half depends on another channel");
    // the same channel gives the same bytes everywhere: put alpha, then red, in every place
    for k in [3usize, 0] {
        let v = c.px.map(|x| x[k]);
        let fill = |places: &[usize]| {
            let mut q = c.other;
            for i in 0..16 {
                for &pl in places {
                    q[i][pl] = v[i];
                }
            }
            q
        };
        let a3 = e(3, &fill(&[3]))[..8].to_vec();
        let r4 = e(4, &fill(&[0]));
        let r5 = e(5, &fill(&[0]))[..8].to_vec();
        let g5 = e(5, &fill(&[1]))[8..].to_vec();
        ensure!(a3 == r4 && r4 == r5 && r5 == g5, "the channel {:?} (mask {:04x}) encodes differently: BC3 {:02x?} BC4 {:02x?} BC5 {:02x?} {:02x?}", v, c.mask, a3, r4, r5, g5);
    }
    // permutation
    let mut pp = c.px;
    let mut pm = 0;
    for i in 0..16 {
        pp[i] = c.px[c.perm[i] as usize];
        pm |= (c.mask >> c.perm[i] & 1) << i;
    }
    let a = refdec::parse_channel(&b4);
    let pb4 = enc(4, &pp, pm, p);
    let b = refdec::parse_channel(&pb4);
    ensure!(a.e0 == b.e0 && a.e1 == b.e1, "permuting pixels changes the BC4 endpoints: {:02x?} {:02x?}", b4, pb4);
    for i in 0..16 {
        ensure!(b.idx[i] == a.idx[c.perm[i] as usize], "permuting pixels changes BC4 index {i}");
    }
    let a2 = refdec::explicit_alpha(&b2[..8]);
    let p2 = refdec::explicit_alpha(&enc(2, &pp, pm, p)[..8]);
    for i in 0..16 {
        ensure!(p2[i] == a2[c.perm[i] as usize], "permuting pixels changes BC2 alpha {i}");
    }
    let mut u: Vec<u8> = c.px.iter().map(|x| x[0]).collect();
    u.sort();
    u.dedup();
    Ok(Info::new(u.len() > 2 && new_a != c.px && new_rgb != c.px)
        .label(c.mask != 0xffff, "partial mask")
        .label(c.p.alg == 0, "range fit")
        .label(c.p.alg > 0, "cluster fit"))
}

fn plane_case() -> BoxedStrategy<PlaneCase> {
    (
        params(weights_pos()),
        params(weights_sane()),
        px(),
        px(),
        (any::<bool>(), any::<bool>()),
        mask0(),
        Just((0u8..16).collect::<Vec<_>>()).prop_shuffle(),
    )
        .prop_map(|(p, q, mut px, other, (swap_a, swap_r), mask, perm)| {
            // often give alpha a rich channel too
            for i in 0..16 {
                if swap_a {
                    px[i][3] = other[i][1];
                }
                if swap_r {
                    px[i][0] = other[i][2];
                }
            }
            let mut pm = [0u8; 16];
            pm.copy_from_slice(&perm);
            PlaneCase { p, q, px, other, mask, perm: pm }
        })
        .boxed()
}

fn c16() -> Facets {
    vec![Box::new(PropFacet::<PlaneCase> {
        name: "planes",
        rule: "blocks with one or more channels replaced, moved to another place or permuted; non-trivial: over two distinct red values and replaced planes that differ",
        quick: 60_000,
        thorough: 2_000_000,
        shrink_iters: 8000,
        strat: plane_case,
        check: c16_check,
    })]
}

// ------------------------------------------------------------------ C17

fn c17_check(c: &PlaneCase) -> CheckResult {
    let mut info = Info::new(true);
    // weight scaling by a power of two
    let w = c.p.w.get();
    // far enough from the limits of f32 that scaling is exact everywhere
    let wide = w.iter().all(|&x| x == 0.0 || x >= 0.01);
    let k = if wide { 3 * c.perm[0] as i32 - 21 } else { c.perm[0] as i32 - 6 };
    let sw = W3::new(w.map(|x| x * (k as f32).exp2()));
    for f in 1..=5u8 {
        let a = enc(f, &c.px, c.mask, c.p);
        let b = enc(f, &c.px, c.mask, P { w: sw, ..c.p });
        ensure!(a == b, "BC{f} algorithm {}: weights {:?} and {:?} encode differently: {:02x?} {:02x?}", c.p.alg, w, sw.get(), a, b);
        // alpha weighting on an opaque block
        let mut o = c.px;
        for q in &mut o {
            q[3] = 255;
        }
        let a = enc(f, &o, c.mask, P { flag: false, ..c.p });
        let b = enc(f, &o, c.mask, P { flag: true, ..c.p });
        ensure!(a == b, "BC{f} algorithm {}: alpha weighting changes an opaque block: {:02x?} {:02x?}", c.p.alg, a, b);
    }
    // no effect at all on channel formats and alpha parts
    for f in [4u8, 5] {
        ensure!(enc(f, &c.px, c.mask, c.p) == enc(f, &c.px, c.mask, c.q), "BC{f} depends on the parameters");
    }
    for f in [2u8, 3] {
        ensure!(enc(f, &c.px, c.mask, c.p)[..8] == enc(f, &c.px, c.mask, c.q)[..8], "BC{f} alpha part depends on the parameters");
    }
    // single colour
    let mut flat = c.px;
    for i in 0..16 {
        for k in 0..3 {
            flat[i][k] = c.px[0][k];
        }
    }
    for f in 1..=3u8 {
        let m = if c.mask == 0 { 1 } else { c.mask };
        let a = enc(f, &flat, m, c.p);
        let b = enc(f, &flat, m, c.q);
        ensure!(a == b, "BC{f}: parameters change a single-colour block {:?}: {:02x?} {:02x?}", &flat[0], a, b);
    }
    // does the parameter matter at all for this block (class count only)
    let x = enc(3, &c.px, c.mask, P { flag: false, ..c.p });
    let y = enc(3, &c.px, c.mask, P { flag: true, ..c.p });
    info = info.label(x != y, "alpha weighting matters");
    let z = enc(3, &c.px, c.mask, P { w: c.q.w, ..c.p });
    info.nontrivial = k != 0 && (x != z || x != y);
    Ok(info.label(x != z, "weights matter").label(k < 0, "scaled down").label(k > 0, "scaled up"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DefaultCase {
    pub f: u8,
    pub b: Blk,
}

fn c17_default(c: &DefaultCase) -> CheckResult {
    let d = texpresso::Params::default();
    ensure!(d.weights == [0.2126, 0.7152, 0.0722], "default weights {:?}", d.weights);
    ensure!(!d.weigh_colour_by_alpha, "alpha weighting is on by default");
    let mut a = vec![0u8; block_size(c.f)];
    fmt(c.f).compress_block_masked(c.b.px, c.b.mask, d, &mut a);
    let ex = |alg: u8, flag: bool, w: [f32; 3]| enc(c.f, &c.b.px, c.b.mask, P { alg, w: W3::new(w), flag });
    let want = ex(1, false, [0.2126, 0.7152, 0.0722]);
    ensure!(a == want, "BC{}: default parameters give {:02x?}, cluster fit with perceptual weights {:02x?}", c.f, a, want);
    Ok(Info::new(ex(0, false, [0.2126, 0.7152, 0.0722]) != want || ex(2, false, [0.2126, 0.7152, 0.0722]) != want || ex(1, false, [1.0; 3]) != want))
}

fn c17() -> Facets {
    vec![
        Box::new(PropFacet::<PlaneCase> {
            name: "relations",
            rule: "blocks encoded under related parameters (weights scaled by 2^-21..2^24, alpha weighting on opaque blocks, unrelated parameters where they must not matter); non-trivial: scale not one and other weights or alpha weighting do change this block",
            quick: 50_000,
            thorough: 1_500_000,
            shrink_iters: 8000,
            strat: plane_case,
            check: c17_check,
        }),
        Box::new(PropFacet::<DefaultCase> {
            name: "defaults",
            rule: "blocks encoded with the default parameters and with the documented ones spelt out; non-trivial: another algorithm or other weights would change the block",
            quick: 20_000,
            thorough: 400_000,
            shrink_iters: 8000,
            strat: || (any_fmt(), blk()).prop_map(|(f, b)| DefaultCase { f, b }).boxed(),
            check: c17_default,
        }),
    ]
}

// ------------------------------------------------------------------ C18

/// Output of compress (enc) or decompress (dec) for one image case, used by the serial server.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DetCase {
    pub f: u8,
    pub p: P,
    pub img: Img,
    pub threads: Vec<usize>,
}

pub fn det_outputs(c: &DetCase, fill: u8) -> (Vec<u8>, Vec<u8>) {
    let rgba = c.img.rgba();
    let (w, h) = (c.img.w, c.img.h);
    let n = ceil4(w) * ceil4(h) * block_size(c.f);
    let mut e = vec![fill; n];
    fmt(c.f).compress(&rgba, w, h, c.p.get(), &mut e);
    // decode arbitrary data as well as encoder output
    let raw = image_bytes(c.img.seed, n, (c.img.kind == 5) as u8);
    let mut d = vec![fill; w * h * 4];
    fmt(c.f).decompress(&raw, w, h, &mut d);
    (e, d)
}

fn c18_check(c: &DetCase) -> CheckResult {
    let a = det_outputs(c, 0);
    // something else in between
    let mut o = c.clone();
    o.img.seed ^= 0x55;
    o.f = c.f % 5 + 1;
    let _ = det_outputs(&o, 3);
    let b = det_outputs(c, 0xff);
    ensure!(a.0 == b.0, "BC{} {}x{}: compressing twice gives different bytes", c.f, c.img.w, c.img.h);
    ensure!(a.1 == b.1, "BC{} {}x{}: decompressing twice gives different bytes", c.f, c.img.w, c.img.h);
    #[cfg(feature = "par")]
    {
        for &t in &c.threads {
            let r = pools()[t - 1].install(|| det_outputs(c, t as u8));
            ensure!(a.0 == r.0, "BC{} {}x{}: {t} worker threads compress to different bytes", c.f, c.img.w, c.img.h);
            ensure!(a.1 == r.1, "BC{} {}x{}: {t} worker threads decompress to different bytes", c.f, c.img.w, c.img.h);
        }
        let s = crate::serial::ask(c);
        ensure!(s.0 == crate::serial::digest(&a.0), "BC{} {}x{} alg {}: serial and parallel builds compress to different bytes", c.f, c.img.w, c.img.h, c.p.alg);
        ensure!(s.1 == crate::serial::digest(&a.1), "BC{} {}x{}: serial and parallel builds decompress to different bytes", c.f, c.img.w, c.img.h);
    }
    let rows = ceil4(c.img.h);
    Ok(Info::new(rows > 1).label(rows >= 8, "at least 8 block rows").label(rows == 1, "one block row"))
}

#[cfg(feature = "par")]
fn pools() -> &'static Vec<rayon::ThreadPool> {
    static P: std::sync::OnceLock<Vec<rayon::ThreadPool>> = std::sync::OnceLock::new();
    P.get_or_init(|| (1..=16).map(|t| rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap()).collect())
}

/// A history of related operations: each is a change of the first one.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HistCase {
    pub first: DetCase,
    /// what is changed (bit set: 1 algorithm, 2 weights, 4 alpha weighting, 8 format, 16 one bit of the content
    /// seed, 32 alpha, 64 height) and a value
    pub changes: Vec<(u8, u8)>,
    /// indices of operations, 0 for the first
    pub order: Vec<u8>,
}

fn c18_history(c: &HistCase) -> CheckResult {
    let mut ops = vec![c.first.clone()];
    for &(what, v) in &c.changes {
        let mut o = c.first.clone();
        let on = |b: u8| what & b != 0;
        if on(1) {
            o.p.alg = (o.p.alg + 1 + v % 2) % 3;
        }
        if on(2) {
            o.p.w = W3::new([[1.0, 1.0, 1.0], [0.2126, 0.7152, 0.0722], [0.1, 0.1, 1.0], [1.0, 0.1, 0.1], [0.5, 1.0, 0.25]][v as usize % 5]);
        }
        if on(4) {
            o.p.flag = !o.p.flag;
        }
        if on(8) {
            o.f = 1 + (o.f + v % 4) % 5;
        }
        if on(16) {
            o.img.seed ^= 1 << (v % 64);
        }
        if on(32) {
            o.img.alpha = (o.img.alpha + 1 + v % 2) % 3;
        }
        if on(64) {
            o.img.h = 1 + v as usize % 8;
        }
        ops.push(o);
    }
    let mut seen: Vec<Option<(Vec<u8>, Vec<u8>)>> = vec![None; ops.len()];
    let mut again = 0;
    for (n, &k) in c.order.iter().enumerate() {
        let k = k as usize % ops.len();
        let r = det_outputs(&ops[k], n as u8);
        match &seen[k] {
            None => seen[k] = Some(r),
            Some(a) => {
                again += 1;
                let o = &ops[k];
                ensure!(a.0 == r.0, "BC{} {}x{} alg {}: compressing gives different bytes after other operations", o.f, o.img.w, o.img.h, o.p.alg);
                ensure!(a.1 == r.1, "BC{} {}x{}: decompressing gives different bytes after other operations", o.f, o.img.w, o.img.h);
            }
        }
    }
    let used = seen.iter().flatten().count();
    Ok(Info::new(used > 1 && again > 0)
        .label(used > 2, "three or more different operations")
        .label(c.first.img.w <= 4 && c.first.img.h <= 4, "single blocks"))
}

/// Operations on single blocks that several threads repeat at the same time.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct RaceCase {
    pub base: Blk,
    /// (format, parameters, pixel to change, new value) of each thread; each varies the same block
    pub threads: Vec<(u8, P, u8, [u8; 4])>,
    pub reps: u16,
}

fn c18_race(c: &RaceCase) -> CheckResult {
    let ops: Vec<(u8, P, Px)> = c
        .threads
        .iter()
        .map(|&(f, p, i, v)| {
            let mut px = c.base.px;
            px[i as usize % 16] = v;
            (f, p, px)
        })
        .collect();
    let run = |o: &(u8, P, Px)| {
        let e = enc(o.0, &o.2, c.base.mask, o.1);
        let d = fmt(o.0).decompress_block(&e);
        (e, d)
    };
    let alone: Vec<_> = ops.iter().map(run).collect();
    let gate = std::sync::Barrier::new(ops.len());
    let bad = std::thread::scope(|sc| {
        let hs: Vec<_> = ops
            .iter()
            .zip(&alone)
            .map(|(o, a)| {
                let gate = &gate;
                sc.spawn(move || {
                    gate.wait();
                    (0..c.reps).find(|_| run(o) != *a)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Some(0))).collect::<Vec<_>>()
    });
    for (k, b) in bad.iter().enumerate() {
        if let Some(n) = b {
            return Err(format!("BC{} algorithm {}: repetition {n} gives different bytes while {} other threads encode", ops[k].0, ops[k].1.alg, ops.len() - 1));
        }
    }
    let distinct = alone.iter().enumerate().any(|(i, a)| alone[..i].iter().any(|b| a != b));
    Ok(Info::new(distinct).label(ops.len() > 4, "more than four threads"))
}

/// Threads that cycle through a few simple blocks of their own for a long time.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct BurstCase {
    pub f: u8,
    pub p: P,
    /// per thread, the blocks: one or two colours (their place from the bits)
    pub threads: Vec<Vec<([u8; 4], [u8; 4], u16)>>,
    pub reps: u16,
}

fn c18_burst(c: &BurstCase) -> CheckResult {
    let run = |b: &([u8; 4], [u8; 4], u16)| {
        let mut px = [b.0; 16];
        for (i, p) in px.iter_mut().enumerate() {
            if b.2 >> i & 1 == 1 {
                *p = b.1;
            }
        }
        let e = enc(c.f, &px, 0xffff, c.p);
        let d = fmt(c.f).decompress_block(&e);
        (e, d)
    };
    let alone: Vec<Vec<_>> = c.threads.iter().map(|t| t.iter().map(run).collect()).collect();
    let gate = std::sync::Barrier::new(alone.len());
    let bad = std::thread::scope(|sc| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .zip(&alone)
            .map(|(o, a)| {
                let gate = &gate;
                sc.spawn(move || {
                    gate.wait();
                    (0..c.reps as usize).find(|n| run(&o[n % o.len()]) != a[n % o.len()])
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Some(0))).collect::<Vec<_>>()
    });
    for b in bad.iter().flatten() {
        return Err(format!("BC{} algorithm {}: repetition {b} gives different bytes while {} other threads encode", c.f, c.p.alg, alone.len() - 1));
    }
    let all: Vec<_> = alone.iter().flatten().collect();
    Ok(Info::new(all.iter().any(|a| *a != all[0])).label(c.threads.iter().flatten().all(|b| b.2 == 0), "uniform blocks"))
}

fn c18() -> Facets {
    vec![
    Box::new(PropFacet::<RaceCase> {
        name: "concurrent",
        rule: "two to eight threads encode and decode variants of one block at the same time, each comparing every repetition with its result alone; non-trivial: at least two different results",
        quick: 4_000,
        thorough: 60_000,
        shrink_iters: 300,
        strat: || {
            let t = (any_fmt(), params(weights_pos()), 0u8..16, any::<[u8; 4]>());
            (blk(), prop::collection::vec(t, 2..=8), 5u16..40)
                .prop_map(|(base, mut threads, reps)| {
                    // often the same format everywhere, so that the threads do the same things
                    if reps % 3 > 0 {
                        let f = threads[0].0;
                        for t in &mut threads {
                            t.0 = f;
                        }
                    }
                    RaceCase { base, threads, reps }
                })
                .boxed()
        },
        check: c18_race,
    }),
    Box::new(PropFacet::<BurstCase> {
        name: "bursts",
        rule: "two to eight threads encode and decode one to three simple blocks of their own hundreds to thousands of times, all at the same time, comparing each with its result alone; non-trivial: at least two different results",
        quick: 1_500,
        thorough: 6_000,
        shrink_iters: 60,
        strat: || {
            let bits = prop_oneof![3 => Just(0u16), 1 => any::<u16>()];
            let col = || (any::<u8>(), any::<u8>(), any::<u8>(), prop_oneof![3 => Just(255u8), 1 => any::<u8>()]).prop_map(|(r, g, b, a)| [r, g, b, a]);
            let t = prop::collection::vec((col(), col(), bits), 1..=3);
            (any_fmt(), params(weights_pos()), prop::collection::vec(t, 2..=8), 300u16..6000)
                .prop_map(|(f, p, threads, reps)| BurstCase { f, p, threads, reps })
                .boxed()
        },
        check: c18_burst,
    }),
Box::new(PropFacet::<HistCase> {
        name: "histories",
        rule: "histories of 4 to 24 operations over an image and images or parameters that differ from it a little, every repetition compared with the first result; non-trivial: at least two different operations, one repeated",
        quick: 8_000,
        thorough: 300_000,
        shrink_iters: 3000,
        strat: || {
            let d = prop_oneof![3 => (1usize..=4, 1usize..=4), 2 => (1usize..=12, 1usize..=12), 1 => dims()].boxed();
            let w = prop_oneof![3 => weights_pos(), 1 => weights_any()].boxed();
            let change = (prop_oneof![3 => (0u32..7).prop_map(|b| 1u8 << b), 1 => 0u8..128], any::<u8>());
            ((any_fmt(), params(w), img_with(d)), prop::collection::vec(change, 1..=4), prop::collection::vec(0u8..5, 4..=24))
                .prop_map(|((f, p, img), changes, order)| HistCase { first: DetCase { f, p, img, threads: vec![] }, changes, order })
                .boxed()
        },
        check: c18_history,
    }),
    Box::new(PropFacet::<DetCase> {
        name: "images",
        rule: "images compressed and decompressed repeatedly with other work and other buffer contents in between, in pools of 1..16 threads, and by the serial build in a separate process; non-trivial: more than one block row",
        quick: 4_000,
        thorough: 60_000,
        shrink_iters: 400,
        strat: || {
            let w = prop_oneof![5 => weights_pos(), 1 => weights_any()].boxed();
            (any_fmt(), params(w), img(), prop::collection::vec(1usize..=16, 1..=3))
                .prop_map(|(f, p, img, threads)| DetCase { f, p, img, threads })
                .boxed()
        },
        check: c18_check,
    })]
}

// ------------------------------------------------------------------ C19

fn c19_bc2(c: &TwoBlocks) -> CheckResult {
    let mut blk = c.a.to_vec();
    blk.extend_from_slice(&c.b);
    let d = fmt(2).decompress_block(&blk);
    let e = enc(2, &d, 0xffff, P { alg: 0, w: W3::new([1.0; 3]), flag: false });
    ensure!(e[..8] == blk[..8], "BC2 alpha bytes {:02x?} come back as {:02x?}", &blk[..8], &e[..8]);
    Ok(Info::new(c.a[0] != c.a[1]))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ReCase {
    pub place: u8,
    pub b: [u8; 8],
    pub o: [u8; 8],
}

fn c19_chan(c: &ReCase) -> CheckResult {
    let cb = refdec::parse_channel(&c.b);
    let vals = refdec::channel(&c.b);
    let both = vals.contains(&cb.e0) && vals.contains(&cb.e1);
    let ok = cb.e0 > cb.e1 || (cb.e0 >= 1 && cb.e1 <= 254);
    if !both || !ok {
        return Ok(Info::new(false).label(true, "outside the premise"));
    }
    let (f, _, k, off) = chan_px(c.place, &[0; 16], &[0; 16]);
    let mut blk = vec![];
    match (f, off) {
        (4, _) => blk.extend_from_slice(&c.b),
        (5, 8) => {
            blk.extend_from_slice(&c.o);
            blk.extend_from_slice(&c.b);
        }
        _ => {
            blk.extend_from_slice(&c.b);
            blk.extend_from_slice(&c.o);
        }
    }
    let d = fmt(f).decompress_block(&blk);
    let e = enc(f, &d, 0xffff, P { alg: 0, w: W3::new([1.0; 3]), flag: false });
    let d2 = fmt(f).decompress_block(&e);
    for i in 0..16 {
        ensure!(d2[i][k] == d[i][k], "BC{f} channel block {:02x?}: pixel {i} decoded {} and, recompressed, {}; endpoints became {:?}", c.b, d[i][k], d2[i][k], &e[off..off + 2]);
    }
    let mut u = vals.to_vec();
    u.sort();
    u.dedup();
    Ok(Info::new(u.len() > 2)
        .label(cb.e0 > cb.e1, "eight-entry mode")
        .label(cb.e0 <= cb.e1, "six-entry mode")
        .label(cb.e0.abs_diff(cb.e1) < 8, "close endpoints")
        .label(u.contains(&0) || u.contains(&255), "extremes"))
}

fn c19() -> Facets {
    vec![
        Box::new(PropFacet::<TwoBlocks> {
            name: "bc2-alpha",
            rule: "random BC2 blocks decoded and compressed again, alpha bytes compared; non-trivial: first two bytes differ",
            quick: 100_000,
            thorough: 3_000_000,
            shrink_iters: 20000,
            strat: || (uniform8(any::<u8>()), uniform8(any::<u8>())).prop_map(|(a, b)| TwoBlocks { a, b }).boxed(),
            check: c19_bc2,
        }),
        Box::new(PropFacet::<ReCase> {
            name: "channels",
            rule: "random channel blocks in which both endpoint entries occur, decoded and compressed again in every place; non-trivial: more than two distinct values",
            quick: 400_000,
            thorough: 12_000_000,
            shrink_iters: 20000,
            strat: || {
                (0u8..4, channel_bytes(), channel_bytes(), 0usize..16, 1usize..16, any::<bool>())
                    .prop_map(|(place, mut b, o, i, d, fix)| {
                        if fix {
                            // make two pixels use the endpoint entries
                            let mut v = 0u64;
                            for k in 0..6 {
                                v |= (b[2 + k] as u64) << (8 * k);
                            }
                            let j = (i + d) % 16;
                            v = v & !(7 << (3 * i)) & !(7 << (3 * j)) | 1 << (3 * j);
                            for k in 0..6 {
                                b[2 + k] = (v >> (8 * k)) as u8;
                            }
                        }
                        ReCase { place, b, o }
                    })
                    .boxed()
            },
            check: c19_chan,
        }),
        Box::new(SweepFacet::<ReCase> {
            name: "endpoint-sweep",
            rule: "all 65536 endpoint pairs with every index used",
            count: |_| 65536,
            exhaustive: true,
            case: |i, _| {
                let mut b = [0u8; 8];
                b[0] = (i >> 8) as u8;
                b[1] = i as u8;
                let mut v = 0u64;
                for p in 0..16u64 {
                    v |= ((p * 5 + p / 8) % 8) << (3 * p);
                }
                b[2..].copy_from_slice(&v.to_le_bytes()[..6]);
                ReCase { place: (i % 4) as u8, b, o: mix(i, 1, 1).to_le_bytes() }
            },
            check: c19_chan,
        }),
    ]
}

// ------------------------------------------------------------------ C20

fn c20_block(c: &EncCase) -> CheckResult {
    let bs = block_size(c.f);
    let mut out = vec![0x77u8; bs + 8];
    fmt(c.f).compress_block_masked(c.b.px, c.b.mask, c.p.get(), &mut out);
    ensure!(out[bs..].iter().all(|&x| x == 0x77), "BC{}: wrote beyond its block", c.f);
    let mut o2 = vec![0x88u8; bs];
    fmt(c.f).compress_block_masked(c.b.px, c.b.mask, c.p.get(), &mut o2);
    ensure!(o2[..] == out[..bs], "BC{}: not every byte of the block is written", c.f);
    let _ = fmt(c.f).decompress_block(&out[..bs]);
    let w = c.p.w.get();
    Ok(Info::new(w.iter().any(|x| !x.is_finite() || *x <= 0.0) || c.b.mask != 0xffff)
        .label(w.iter().any(|x| x.is_nan()), "NaN weight")
        .label(w.iter().any(|x| x.is_infinite()), "infinite weight")
        .label(w.iter().any(|x| *x < 0.0), "negative weight")
        .label(w.iter().any(|x| x.abs() > 1e18 && x.is_finite()), "huge weight")
        .label(c.b.mask & 0xffff == 0, "empty mask"))
}

fn c20_image(c: &EncImg) -> CheckResult {
    let rgba = c.img.rgba();
    let (w, h) = (c.img.w, c.img.h);
    let mut e = vec![0u8; ceil4(w) * ceil4(h) * block_size(c.f)];
    fmt(c.f).compress(&rgba, w, h, c.p.get(), &mut e);
    let mut d = vec![0u8; w * h * 4];
    fmt(c.f).decompress(&e, w, h, &mut d);
    Ok(Info::new(w % 4 != 0 || h % 4 != 0).label(c.p.w.get().iter().any(|x| !x.is_finite()), "non-finite weight"))
}

fn c20() -> Facets {
    vec![
        Box::new(PropFacet::<EncCase> {
            name: "blocks",
            rule: "any pixels, any 32-bit mask, any algorithm, any weights including zero, negative, infinite, NaN and subnormal, under overflow checks and debug assertions; non-trivial: some weight not positive and finite, or a partial mask",
            quick: 240_000,
            thorough: 8_000_000,
            shrink_iters: 20000,
            strat: || {
                (any_fmt(), params(weights_any()), px(), prop_oneof![3 => mask0(), 1 => any::<u32>()])
                    .prop_map(|(f, p, px, mask)| EncCase { f, p, b: Blk { px, mask } })
                    .boxed()
            },
            check: c20_block,
        }),
        Box::new(PropFacet::<EncImg> {
            name: "images",
            rule: "whole images with any weights compressed and decompressed; non-trivial: a side not a multiple of 4",
            quick: 3_000,
            thorough: 80_000,
            shrink_iters: 2000,
            strat: || enc_img(dims(), weights_any()),
            check: c20_image,
        }),
        Box::new(PropFacet::<TwoBlocks> {
            name: "decode",
            rule: "any 8 or 16 bytes decode in every format; non-trivial: bytes not all equal",
            quick: 400_000,
            thorough: 10_000_000,
            shrink_iters: 20000,
            strat: || (uniform8(any::<u8>()), colour_bytes()).prop_map(|(a, b)| TwoBlocks { a, b }).boxed(),
            check: |c| {
                let mut blk = c.a.to_vec();
                blk.extend_from_slice(&c.b);
                for f in 1..=5u8 {
                    let _ = fmt(f).decompress_block(&blk[..block_size(f)]);
                }
                let _ = fmt(1).decompress_block(&c.b);
                Ok(Info::new(c.a != c.b))
            },
        }),
    ]
}

// ------------------------------------------------------------------ C22

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct AmountCase {
    pub f: u8,
    pub p: P,
    pub img: Img,
    pub mask: u16,
    /// how many bytes more than needed
    pub extra: usize,
    /// how many bytes fewer than needed
    pub short: usize,
    pub seed: u64,
}

fn c22_check(c: &AmountCase) -> CheckResult {
    let f = fmt(c.f);
    let (w, h) = (c.img.w, c.img.h);
    let bs = block_size(c.f);
    let n = ceil4(w) * ceil4(h) * bs;
    let fill = |salt: u64, i: usize| (mix(i as u64, salt, c.seed) >> 11) as u8;
    // pixels to compress
    let rgba = c.img.rgba();
    let encode = |r: &[u8]| {
        let mut o = vec![0x5Au8; n];
        guarded(|| f.compress(r, w, h, c.p.get(), &mut o)).map(|_| o)
    };
    let short = c.short.min(rgba.len());
    ensure!(encode(&rgba[..rgba.len() - short]).is_err(), "BC{} {w}x{h}: pixel data {short} of {} bytes too short was accepted", c.f, rgba.len());
    let a = encode(&rgba).map_err(|e| format!("BC{} {w}x{h}: exact pixel data panics: {e}", c.f))?;
    for salt in [1, 2] {
        let long: Vec<u8> = rgba.iter().copied().chain((0..c.extra).map(|i| fill(salt, i))).collect();
        let b = encode(&long).map_err(|e| format!("BC{} {w}x{h}: pixel data {} bytes longer than needed panics: {e}", c.f, c.extra))?;
        ensure!(a == b, "BC{} {w}x{h}: {} bytes behind the pixels have an influence", c.f, c.extra);
    }
    // blocks to decompress
    let data = image_bytes(c.seed, n, (c.seed >> 7) as u8 % 2);
    let decode = |d: &[u8]| {
        let mut o = vec![0xA5u8; 4 * w * h];
        guarded(|| f.decompress(d, w, h, &mut o)).map(|_| o)
    };
    let sd = c.short.min(n);
    ensure!(decode(&data[..n - sd]).is_err(), "BC{} {w}x{h}: block data {sd} of {n} bytes too short was accepted", c.f);
    let a = decode(&data).map_err(|e| format!("BC{} {w}x{h}: exact block data panics: {e}", c.f))?;
    for salt in [3, 4] {
        let long: Vec<u8> = data.iter().copied().chain((0..c.extra).map(|i| fill(salt, i))).collect();
        let b = decode(&long).map_err(|e| format!("BC{} {w}x{h}: block data {} bytes longer than needed panics: {e}", c.f, c.extra))?;
        ensure!(a == b, "BC{} {w}x{h}: {} bytes behind the blocks have an influence", c.f, c.extra);
    }
    // one block
    let mut px = [[0u8; 4]; 16];
    for (i, p) in px.iter_mut().enumerate() {
        p.copy_from_slice(&rgba[i * 4 % rgba.len()..][..4]);
    }
    let block = |len: usize| {
        let mut o: Vec<u8> = (0..len).map(|i| fill(5, i)).collect();
        guarded(|| f.compress_block_masked(px, c.mask as u32, c.p.get(), &mut o)).map(|_| o)
    };
    let sb = 1 + (c.short - 1) % bs;
    ensure!(block(bs - sb).is_err(), "BC{}: a block was written to {} of {bs} bytes", c.f, bs - sb);
    let a = block(bs).map_err(|e| format!("BC{}: exact block panics: {e}", c.f))?;
    let b = block(bs + c.extra).map_err(|e| format!("BC{}: a slice {} bytes longer than a block panics: {e}", c.f, c.extra))?;
    ensure!(a == b[..bs], "BC{}: a slice {} bytes longer gives {:02x?} instead of {:02x?}", c.f, c.extra, &b[..bs], a);
    for i in bs..b.len() {
        ensure!(b[i] == fill(5, i), "BC{}: byte {} behind the block was written", c.f, i - bs);
    }
    let d = &data[..bs];
    ensure!(guarded(|| f.decompress_block(&d[..bs - sb])).is_err(), "BC{}: a block was decoded from {} of {bs} bytes", c.f, bs - sb);
    let a = guarded(|| f.decompress_block(d)).map_err(|e| format!("BC{}: exact block panics: {e}", c.f))?;
    let long: Vec<u8> = d.iter().copied().chain((0..c.extra).map(|i| fill(6, i))).collect();
    let b = guarded(|| f.decompress_block(&long)).map_err(|e| format!("BC{}: a block followed by {} bytes panics: {e}", c.f, c.extra))?;
    ensure!(a == b, "BC{}: {} bytes behind a block have an influence", c.f, c.extra);
    Ok(Info::new(c.extra > 0)
        .label(c.short % 4 != 0, "short by part of a pixel")
        .label(sd % bs != 0, "short by part of a block")
        .label(sd % bs == 0 && sd < n, "short by whole blocks")
        .label(sd >= ceil4(w) * bs, "short by a block row or more")
        .label(sd == n, "no blocks at all")
        .label(c.extra >= bs, "surplus of a block or more"))
}

fn c22() -> Facets {
    vec![Box::new(PropFacet::<AmountCase> {
        name: "amounts",
        rule: "images and blocks with the exact amount of data, with less (by bytes, pixels, blocks, block rows) and with more (twice, different); non-trivial: a surplus",
        quick: 8_000,
        thorough: 200_000,
        shrink_iters: 3000,
        strat: || {
            let d = prop_oneof![6 => (1usize..=18, 1usize..=18), 1 => (1usize..=60, 1usize..=60)].boxed();
            let short = prop_oneof![3 => 1usize..=24, 2 => (1usize..=12).prop_map(|k| 8 * k), 2 => 1usize..=500, 1 => (1usize..=90).prop_map(|k| 16 * k), 1 => Just(1usize << 20)];
            (any_fmt(), weights_pos(), any::<bool>(), 0u8..2, img_with(d), any::<u16>(), extra(), short, any::<u64>())
                .prop_map(|(f, w, flag, alg, img, mask, extra, short, seed)| AmountCase { f, p: P { alg, w, flag }, img, mask, extra, short, seed })
                .boxed()
        },
        check: c22_check,
    })]
}

pub fn registry() -> Vec<(&'static str, Facets)> {
    vec![
        ("C01", c01()),
        ("C02", c02()),
        ("C03", c03()),
        ("C04", c04()),
        ("C05", c05()),
        ("C06", c06()),
        ("C07", c07()),
        ("C08", c08()),
        ("C09", c09()),
        ("C10", c10()),
        ("C11", c11()),
        ("C12", c12()),
        ("C13", c13()),
        ("C14", c14()),
        ("C15", c15()),
        ("C21", c21()),
        ("C16", c16()),
        ("C17", c17()),
        ("C18", c18()),
        ("C19", c19()),
        ("C20", c20()),
        ("C22", c22()),
    ]
}
