//! Generators. Every random choice is made by proptest strategies, so cases shrink and replay.
use proptest::array::{uniform16, uniform3};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use texpresso::{Algorithm, Format, Params, COLOUR_WEIGHTS_PERCEPTUAL, COLOUR_WEIGHTS_UNIFORM};

pub type Px = [[u8; 4]; 16];
pub type Rgb16 = [[u8; 3]; 16];
pub type Chan = [u8; 16];

/// Channel weights, stored as bit patterns so that non-finite values survive JSON and hashing.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize, PartialEq, Eq)]
pub struct W3(pub [u32; 3]);
impl W3 {
    pub fn new(w: [f32; 3]) -> W3 {
        W3(w.map(f32::to_bits))
    }
    pub fn get(&self) -> [f32; 3] {
        self.0.map(f32::from_bits)
    }
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize, PartialEq, Eq)]
pub struct P {
    /// 0 range fit, 1 cluster fit, 2 iterative cluster fit
    pub alg: u8,
    pub w: W3,
    pub flag: bool,
}
pub const ALGS: [Algorithm; 3] = [Algorithm::RangeFit, Algorithm::ClusterFit, Algorithm::IterativeClusterFit];
impl P {
    pub fn get(&self) -> Params {
        Params { algorithm: ALGS[self.alg as usize], weights: self.w.get(), weigh_colour_by_alpha: self.flag }
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Blk {
    pub px: Px,
    pub mask: u32,
}
impl Blk {
    pub fn on(&self, i: usize) -> bool {
        self.mask >> i & 1 == 1
    }
}

pub const FORMATS: [Format; 5] = [Format::Bc1, Format::Bc2, Format::Bc3, Format::Bc4, Format::Bc5];
pub fn fmt(f: u8) -> Format {
    FORMATS[(f - 1) as usize]
}
pub fn block_size(f: u8) -> usize {
    // independent of the library's own table
    if f == 1 || f == 4 {
        8
    } else {
        16
    }
}
/// Offset of the colour block inside a BC1/2/3 block.
pub fn colour_off(f: u8) -> usize {
    if f == 1 {
        0
    } else {
        8
    }
}

pub fn any_fmt() -> BoxedStrategy<u8> {
    (1u8..=5).boxed()
}
pub fn colour_fmt() -> BoxedStrategy<u8> {
    (1u8..=3).boxed()
}

pub fn byte() -> BoxedStrategy<u8> {
    prop_oneof![
        6 => any::<u8>(),
        1 => select(vec![0u8, 255]),
        1 => select(vec![0u8, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 63, 64, 126, 127, 128, 129, 191, 192, 247, 248, 249, 250, 251, 252, 253, 254, 255]),
    ]
    .boxed()
}

/// 16 values of one channel.
pub fn chan() -> BoxedStrategy<Chan> {
    prop_oneof![
        2 => uniform16(byte()),
        1 => byte().prop_map(|v| [v; 16]),
        // few values
        3 => (prop::collection::vec(byte(), 2..=6), uniform16(any::<u8>()))
            .prop_map(|(v, i)| i.map(|k| v[k as usize % v.len()])),
        // narrow range
        3 => (byte(), 1u16..=14, uniform16(any::<u8>()))
            .prop_map(|(b, w, i)| i.map(|k| (b as u16 + k as u16 % (w + 1)).min(255) as u8)),
        // a range between two values
        3 => (byte(), byte(), uniform16(any::<u8>())).prop_map(|(a, b, i)| {
            let (lo, hi) = (a.min(b) as u32, a.max(b) as u32);
            i.map(|k| (lo + k as u32 % (hi - lo + 1)) as u8)
        }),
        // a range between two values plus extremes
        4 => (byte(), byte(), uniform16((any::<u8>(), 0u8..12)), any::<bool>(), any::<bool>()).prop_map(|(a, b, i, x0, x1)| {
            let (lo, hi) = (a.min(b) as u32, a.max(b) as u32);
            i.map(|(k, s)| match s {
                0 | 1 if x0 => 0,
                2 | 3 if x1 => 255,
                _ => (lo + k as u32 % (hi - lo + 1)) as u8,
            })
        }),
        // values on or near the codebook of an endpoint pair
        3 => (byte(), byte(), uniform16((0u32..=7, 0u8..=2)), select(vec![5u32, 7])).prop_map(|(a, b, i, n)| {
            i.map(|(k, d)| {
                let k = k.min(n);
                (((n - k) * a as u32 + k * b as u32) / n + d as u32).saturating_sub(1).min(255) as u8
            })
        }),
        // one value dominating, few outliers
        2 => (byte(), prop::collection::vec((0usize..16, byte()), 1..4)).prop_map(|(v, o)| {
            let mut c = [v; 16];
            for (i, x) in o {
                c[i] = x;
            }
            c
        }),
        1 => (byte(), any::<i8>()).prop_map(|(a, s)| {
            let mut c = [0u8; 16];
            for i in 0..16 {
                c[i] = (a as i32 + s as i32 * i as i32 / 4).clamp(0, 255) as u8;
            }
            c
        }),
    ]
    .boxed()
}

pub fn rgb() -> BoxedStrategy<[u8; 3]> {
    prop_oneof![
        4 => uniform3(byte()),
        1 => byte().prop_map(|v| [v, v, v]),
        2 => rgb565(),
        1 => uniform3(select(vec![0u8, 255])),
    ]
    .boxed()
}

/// Exactly representable colours.
pub fn rgb565() -> BoxedStrategy<[u8; 3]> {
    any::<u16>().prop_map(|v| crate::refdec::expand565(v).map(|x| x as u8)).boxed()
}

fn lerp(a: u8, b: u8, t: u32, n: u32) -> i32 {
    (((n - t) * a as u32 + t * b as u32) / n) as i32
}

pub fn colours() -> BoxedStrategy<Rgb16> {
    prop_oneof![
        2 => uniform16(uniform3(any::<u8>())),
        // few colours
        4 => (prop::collection::vec(rgb(), 1..=6), uniform16(any::<u8>()))
            .prop_map(|(v, i)| i.map(|k| v[k as usize % v.len()])),
        1 => rgb().prop_map(|c| [c; 16]),
        // gradient with noise
        4 => (rgb(), rgb(), uniform16((0u32..=12, uniform3(-3i32..=3))), 0i32..=3).prop_map(|(a, b, t, n)| {
            t.map(|(t, d)| {
                let mut o = [0u8; 3];
                for k in 0..3 {
                    o[k] = (lerp(a[k], b[k], t, 12) + d[k].clamp(-n, n)).clamp(0, 255) as u8;
                }
                o
            })
        }),
        1 => chan().prop_map(|c| c.map(|v| [v, v, v])),
        // one channel varies
        2 => (rgb(), 0usize..3, chan()).prop_map(|(c, k, v)| v.map(|x| { let mut o = c; o[k] = x; o })),
        // opposite variation of two channels (sum constant), e.g. red against green
        3 => (rgb(), 0usize..3, 1usize..3, chan()).prop_map(|(c, k, d, v)| {
            v.map(|x| { let mut o = c; o[k] = x; o[(k + d) % 3] = 255 - x; o })
        }),
        // near flat
        2 => (rgb(), uniform16(uniform3(0u8..=6)), 1u8..=6).prop_map(|(c, d, n)| {
            d.map(|d| { let mut o = [0; 3]; for k in 0..3 { o[k] = c[k].saturating_add(d[k] % (n + 1)); } o })
        }),
        // planar or independent channels
        2 => (chan(), chan(), chan()).prop_map(|(a, b, c)| {
            let mut o = [[0u8; 3]; 16];
            for i in 0..16 { o[i] = [a[i], b[i], c[i]]; }
            o
        }),
        // a dominant colour and outliers
        1 => (rgb(), prop::collection::vec((0usize..16, rgb()), 1..4)).prop_map(|(c, o)| {
            let mut v = [c; 16];
            for (i, x) in o { v[i] = x; }
            v
        }),
    ]
    .boxed()
}

pub fn alphas() -> BoxedStrategy<Chan> {
    prop_oneof![
        4 => Just([255u8; 16]),
        1 => Just([0u8; 16]),
        3 => uniform16(select(vec![0u8, 255])),
        3 => uniform16(select(vec![0u8, 1, 126, 127, 128, 129, 254, 255])),
        3 => chan(),
    ]
    .boxed()
}

pub fn join(c: Rgb16, a: Chan) -> Px {
    let mut p = [[0u8; 4]; 16];
    for i in 0..16 {
        p[i] = [c[i][0], c[i][1], c[i][2], a[i]];
    }
    p
}

pub fn px() -> BoxedStrategy<Px> {
    (colours(), alphas()).prop_map(|(c, a)| join(c, a)).boxed()
}

fn rect_mask(w: usize, h: usize) -> u32 {
    let mut m = 0;
    for y in 0..h {
        for x in 0..w {
            m |= 1 << (4 * y + x);
        }
    }
    m
}

pub fn mask() -> BoxedStrategy<u32> {
    prop_oneof![
        6 => Just(0xFFFFu32),
        2 => (1usize..=4, 1usize..=4).prop_map(|(w, h)| rect_mask(w, h)),
        3 => any::<u16>().prop_map(u32::from),
        1 => (0u32..16).prop_map(|i| 1 << i),
        1 => (0u32..16, 0u32..16).prop_map(|(i, j)| 1 << i | 1 << j),
        1 => (0u32..16).prop_map(|i| 0xFFFF & !(1 << i)),
    ]
    .boxed()
}
/// As mask(), sometimes empty.
pub fn mask0() -> BoxedStrategy<u32> {
    prop_oneof![30 => mask(), 1 => Just(0u32)].boxed()
}

pub fn blk() -> BoxedStrategy<Blk> {
    (px(), mask0()).prop_map(|(px, mask)| Blk { px, mask }).boxed()
}

fn f(a: f32, b: f32) -> BoxedStrategy<f32> {
    // thousandths of the range, so values shrink and print nicely
    (0u32..=1000).prop_map(move |k| a + (b - a) * k as f32 / 1000.0).boxed()
}

/// Positive weights of similar magnitude.
pub fn weights_pos() -> BoxedStrategy<W3> {
    prop_oneof![
        3 => Just(COLOUR_WEIGHTS_UNIFORM),
        4 => Just(COLOUR_WEIGHTS_PERCEPTUAL),
        3 => uniform3(f(0.1, 1.0)),
    ]
    .prop_map(W3::new)
    .boxed()
}
/// Finite weights, zero or positive, at most 1000.
pub fn weights_sane() -> BoxedStrategy<W3> {
    prop_oneof![
        3 => weights_pos(),
        1 => uniform3(prop_oneof![Just(0.0f32), f(0.0, 1.0), f(0.0, 1000.0), Just(1e-6f32)]).prop_map(W3::new),
    ]
    .boxed()
}
/// Anything an f32 can hold.
pub fn weights_any() -> BoxedStrategy<W3> {
    prop_oneof![
        1 => weights_sane(),
        2 => uniform3(select(vec![0.0f32, -0.0, 1.0, -1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-40, 1e20, -1e20, 1e-20]))
            .prop_map(W3::new),
        1 => uniform3(any::<u32>()).prop_map(W3),
    ]
    .boxed()
}

pub fn params(w: BoxedStrategy<W3>) -> BoxedStrategy<P> {
    (0u8..3, w, any::<bool>()).prop_map(|(alg, w, flag)| P { alg, w, flag }).boxed()
}

/// Pure mixing function used to expand a generated 64-bit word into image content.
pub fn mix(seed: u64, a: u64, b: u64) -> u64 {
    let mut z = seed ^ a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_mul(0xC2B2_AE3D_27D4_EB4F);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Image size: mostly small with every residue mod 4, sometimes wide, tall or large.
pub fn dims() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        10 => (1usize..=21, 1usize..=21),
        4 => (1usize..=80, 1usize..=80),
        2 => (1usize..=6, 1usize..=300),
        2 => (1usize..=300, 1usize..=6),
        1 => (100usize..=260, 100usize..=260),
    ]
    .boxed()
}

/// A synthetic RGBA image: content is a pure function of these generated values.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Img {
    pub w: usize,
    pub h: usize,
    /// 0: noise, 1: smooth gradients, 2: few colours, 3: flat 4x4 tiles, 4: mixture per block, 5: blocks that almost repeat
    pub kind: u8,
    pub seed: u64,
    /// 0: opaque, 1: binary, 2: arbitrary
    pub alpha: u8,
}
pub fn img_with(d: BoxedStrategy<(usize, usize)>) -> BoxedStrategy<Img> {
    (d, 0u8..6, any::<u64>(), 0u8..3)
        .prop_map(|((w, h), kind, seed, alpha)| Img { w, h, kind, seed, alpha })
        .boxed()
}
pub fn img() -> BoxedStrategy<Img> {
    img_with(dims())
}
impl Img {
    pub fn pixel(&self, x: usize, y: usize) -> [u8; 4] {
        let (bx, by) = (x as u64 / 4, y as u64 / 4);
        if self.kind == 5 {
            return self.almost(bx, by, x % 4 + y % 4 * 4);
        }
        let n = mix(self.seed, x as u64, y as u64 + 77);
        let kind = if self.kind == 4 { (mix(self.seed ^ 1, bx, by) % 4) as u8 } else { self.kind };
        let s = self.seed;
        let c = match kind {
            0 => [n as u8, (n >> 8) as u8, (n >> 16) as u8],
            1 => {
                let g = |k: u64| -> u8 {
                    let base = (s >> (8 * k)) & 255;
                    let dx = (s >> (24 + 4 * k)) & 15;
                    let dy = (s >> (40 + 4 * k)) & 15;
                    ((base + dx * x as u64 + dy * y as u64) / 1 % 256) as u8
                };
                [g(0), g(1), g(2)]
            }
            2 => {
                let m = mix(s, n % 3, by % 2);
                [m as u8, (m >> 8) as u8, (m >> 16) as u8]
            }
            _ => {
                let m = mix(s, bx, by);
                [m as u8, (m >> 8) as u8, (m >> 16) as u8]
            }
        };
        let a = match self.alpha {
            0 => 255,
            1 => if (n >> 40) & 3 == 0 { 0 } else { 255 },
            _ => (n >> 48) as u8,
        };
        [c[0], c[1], c[2], a]
    }
    /// One of three block templates with a small change: none, one step in one channel of one pixel, two
    /// pixels swapped, one alpha, all of one channel, rows swapped.
    fn almost(&self, bx: u64, by: u64, i: usize) -> [u8; 4] {
        let m = mix(self.seed, bx * 4 + 1, by * 4 + 3);
        let (t, at, to, c) = (m % 3, (m >> 8) as usize % 16, (m >> 16) as usize % 16, (m >> 24) as usize % 3);
        let change = (m >> 32) % 7;
        let j = match change {
            2 if i == at => to,
            2 if i == to => at,
            5 => i ^ 4,
            _ => i,
        };
        let e = mix(self.seed, 1 << 40 | t, if mix(self.seed, 1 << 41, t) & 1 == 0 { j as u64 % 3 } else { j as u64 });
        let mut p = e.to_le_bytes();
        p[3] = match self.alpha {
            0 => 255,
            1 => if p[3] & 3 == 0 { 0 } else { 255 },
            _ => p[3],
        };
        match change {
            1 if i == at => p[c] ^= 1,
            3 if i == at && self.alpha > 0 => p[3] = 255 - p[3],
            4 => p[c] = p[c].wrapping_add(1),
            6 if i == at => p[c] ^= 0x80,
            _ => {}
        }
        [p[0], p[1], p[2], p[3]]
    }
    pub fn rgba(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.w * self.h * 4);
        for y in 0..self.h {
            for x in 0..self.w {
                v.extend_from_slice(&self.pixel(x, y));
            }
        }
        v
    }
}

/// Compress one block with the library into a vector of exactly the block size.
pub fn enc(f: u8, px: &Px, mask: u32, p: P) -> Vec<u8> {
    let mut out = vec![0xA5u8; block_size(f)];
    fmt(f).compress_block_masked(*px, mask, p.get(), &mut out);
    out
}
