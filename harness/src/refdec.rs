//! Reference decoder, written from the format definitions (not from the code under test).

/// 5:6:5 to 8 bits per channel by bit replication.
pub fn expand565(v: u16) -> [u32; 3] {
    let r = (v / 2048) as u32;
    let g = ((v / 32) % 64) as u32;
    let b = (v % 32) as u32;
    [r * 8 + r / 4, g * 4 + g / 16, b * 8 + b / 4]
}

pub struct ColourBlock {
    pub c0: u16,
    pub c1: u16,
    pub idx: [u8; 16],
    pub three: bool,
}

/// Splits a colour block into endpoints, indices and mode.
pub fn parse_colour(b: &[u8], bc1: bool) -> ColourBlock {
    assert_eq!(b.len(), 8);
    let c0 = b[0] as u16 + 256 * b[1] as u16;
    let c1 = b[2] as u16 + 256 * b[3] as u16;
    let bits = b[4] as u32 | (b[5] as u32) << 8 | (b[6] as u32) << 16 | (b[7] as u32) << 24;
    let mut idx = [0u8; 16];
    for (p, i) in idx.iter_mut().enumerate() {
        *i = ((bits >> (2 * p)) % 4) as u8;
    }
    ColourBlock { c0, c1, idx, three: bc1 && c0 <= c1 }
}

pub fn palette(c: &ColourBlock) -> [[u8; 4]; 4] {
    let a = expand565(c.c0);
    let b = expand565(c.c1);
    let mix = |p: u32, q: u32, d: u32| -> [u8; 4] {
        let mut o = [255u8; 4];
        for k in 0..3 {
            o[k] = ((p * a[k] + q * b[k]) / d) as u8;
        }
        o
    };
    if c.three {
        [mix(1, 0, 1), mix(0, 1, 1), mix(1, 1, 2), [0, 0, 0, 0]]
    } else {
        [mix(1, 0, 1), mix(0, 1, 1), mix(2, 1, 3), mix(1, 2, 3)]
    }
}

pub fn colour(b: &[u8], bc1: bool) -> [[u8; 4]; 16] {
    let c = parse_colour(b, bc1);
    let pal = palette(&c);
    c.idx.map(|i| pal[i as usize])
}

/// BC2 explicit alpha.
pub fn explicit_alpha(b: &[u8]) -> [u8; 16] {
    assert_eq!(b.len(), 8);
    let mut v = 0u64;
    for k in 0..8 {
        v |= (b[k] as u64) << (8 * k);
    }
    let mut o = [0u8; 16];
    for (p, o) in o.iter_mut().enumerate() {
        *o = (((v >> (4 * p)) % 16) * 17) as u8;
    }
    o
}

pub struct ChannelBlock {
    pub e0: u8,
    pub e1: u8,
    pub idx: [u8; 16],
}

pub fn parse_channel(b: &[u8]) -> ChannelBlock {
    assert_eq!(b.len(), 8);
    let mut v = 0u64;
    for k in 0..6 {
        v |= (b[2 + k] as u64) << (8 * k);
    }
    let mut idx = [0u8; 16];
    for (p, o) in idx.iter_mut().enumerate() {
        *o = ((v >> (3 * p)) % 8) as u8;
    }
    ChannelBlock { e0: b[0], e1: b[1], idx }
}

pub fn channel_palette(e0: u8, e1: u8) -> [u8; 8] {
    let (a, b) = (e0 as u32, e1 as u32);
    if a > b {
        [a, b, (6 * a + b) / 7, (5 * a + 2 * b) / 7, (4 * a + 3 * b) / 7, (3 * a + 4 * b) / 7, (2 * a + 5 * b) / 7, (a + 6 * b) / 7]
            .map(|x| x as u8)
    } else {
        [a, b, (4 * a + b) / 5, (3 * a + 2 * b) / 5, (2 * a + 3 * b) / 5, (a + 4 * b) / 5, 0, 255].map(|x| x as u8)
    }
}
pub fn channel(b: &[u8]) -> [u8; 16] {
    let c = parse_channel(b);
    let pal = channel_palette(c.e0, c.e1);
    c.idx.map(|i| pal[i as usize])
}
