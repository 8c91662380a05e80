//! Writers of the input files (PNG, JPEG, DDS), independent of the crates the tool uses.
use crate::gen::mix;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ PNG

fn crc32(parts: &[&[u8]]) -> u32 {
    let mut c = !0u32;
    for p in parts {
        for &b in *p {
            c ^= b as u32;
            for _ in 0..8 {
                c = if c & 1 == 1 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 };
            }
        }
    }
    !c
}

fn adler(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for &x in d {
        a = (a + x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}

/// zlib stream of stored blocks or of fixed-Huffman literals.
fn zlib(d: &[u8], stored: bool) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    if stored {
        let mut it = d.chunks(65535).peekable();
        while let Some(c) = it.next() {
            o.push(it.peek().is_none() as u8);
            o.extend_from_slice(&(c.len() as u16).to_le_bytes());
            o.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
            o.extend_from_slice(c);
        }
    } else {
        let (mut acc, mut n) = (0u64, 0u32);
        let mut put = |v: u32, bits: u32, o: &mut Vec<u8>| {
            acc |= (v as u64) << n;
            n += bits;
            while n >= 8 {
                o.push(acc as u8);
                acc >>= 8;
                n -= 8;
            }
        };
        let rev = |v: u32, bits: u32| v.reverse_bits() >> (32 - bits);
        put(1, 1, &mut o);
        put(1, 2, &mut o);
        for &b in d {
            if b < 144 {
                put(rev(0x30 + b as u32, 8), 8, &mut o);
            } else {
                put(rev(0x190 + b as u32 - 144, 9), 9, &mut o);
            }
        }
        put(0, 7, &mut o);
        put(0, 7, &mut o);
    }
    o.extend_from_slice(&adler(d).to_be_bytes());
    o
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Png {
    pub w: usize,
    pub h: usize,
    /// PNG colour type: 0 gray, 2 rgb, 3 palette, 4 gray+alpha, 6 rgba
    pub ct: u8,
    pub depth: u8,
    pub interlaced: bool,
    /// 0..=4 one filter for all rows, 5 a different one per row
    pub filter: u8,
    pub trns: bool,
    pub seed: u64,
    /// 0 noise, 1 gradient, 2 few values, 3 flat 4x4 tiles
    pub kind: u8,
    /// size of the IDAT chunks
    pub idat: usize,
    pub stored: bool,
    /// bit set of ancillary chunks
    pub anc: u16,
}

impl Png {
    pub fn channels(&self) -> usize {
        match self.ct {
            0 | 3 => 1,
            2 => 3,
            4 => 2,
            _ => 4,
        }
    }
    fn palette(&self) -> Vec<[u8; 4]> {
        let max = 1usize << self.depth.min(8);
        let n = 1 + (mix(self.seed, 1001, 0) as usize) % max;
        (0..n)
            .map(|i| {
                let m = mix(self.seed, 1002, i as u64).to_le_bytes();
                [m[0], m[1], m[2], m[3]]
            })
            .collect()
    }
    /// alphas given by the palette's transparency chunk; the rest is opaque
    fn palette_alphas(&self, n: usize) -> usize {
        if self.trns {
            1 + (mix(self.seed, 1003, 0) as usize) % n
        } else {
            0
        }
    }
    /// The stored sample.
    pub fn sample(&self, x: usize, y: usize, c: usize) -> u16 {
        let full = if self.depth == 16 { 0xFFFF } else { (1u64 << self.depth) - 1 };
        let limit = if self.ct == 3 { self.palette().len() as u64 } else { full + 1 };
        let (s, c) = (self.seed, c as u64);
        let v = match self.kind {
            0 => mix(s, (x as u64) << 20 | y as u64, c),
            1 => {
                let sl = mix(s, 2000, c);
                (sl & 0xFFFF) + ((sl >> 16) % (full / 8 + 2)) * x as u64 + ((sl >> 32) % (full / 8 + 2)) * y as u64
            }
            2 => {
                // a few values which differ in the lowest bit only, or in everything
                let m = mix(s, (x as u64) << 20 | y as u64, 77);
                mix(s, 2001, c) ^ [0, 1, 0x100, mix(s, 2002, c)][(m % 4) as usize]
            }
            _ => mix(s, (x as u64 / 4) << 20 | y as u64 / 4, c),
        };
        (v % limit) as u16
    }
    fn key(&self) -> [u16; 3] {
        let p = mix(self.seed, 1004, 0);
        let (x, y) = (p as usize % self.w, (p >> 32) as usize % self.h);
        [self.sample(x, y, 0), self.sample(x, y, 1 % self.channels()), self.sample(x, y, 2 % self.channels())]
    }
    /// The image as 8-bit RGBA, as the PNG specification has it.
    pub fn rgba(&self) -> Vec<u8> {
        let scale = |v: u16| -> u8 {
            match self.depth {
                1 => (v * 255) as u8,
                2 => (v * 85) as u8,
                4 => (v * 17) as u8,
                8 => v as u8,
                _ => (v >> 8) as u8,
            }
        };
        let pal = if self.ct == 3 { self.palette() } else { vec![] };
        let na = if self.ct == 3 { self.palette_alphas(pal.len()) } else { 0 };
        let key = if self.trns && (self.ct == 0 || self.ct == 2) { Some(self.key()) } else { None };
        let mut o = Vec::with_capacity(self.w * self.h * 4);
        for y in 0..self.h {
            for x in 0..self.w {
                let v = |c: usize| self.sample(x, y, c);
                o.extend_from_slice(&match self.ct {
                    0 => {
                        let g = scale(v(0));
                        [g, g, g, if key.is_some_and(|k| k[0] == v(0)) { 0 } else { 255 }]
                    }
                    2 => {
                        let hit = key.is_some_and(|k| k == [v(0), v(1), v(2)]);
                        [scale(v(0)), scale(v(1)), scale(v(2)), if hit { 0 } else { 255 }]
                    }
                    3 => {
                        let i = v(0) as usize;
                        let p = pal[i];
                        [p[0], p[1], p[2], if i < na { p[3] } else { 255 }]
                    }
                    4 => {
                        let g = scale(v(0));
                        [g, g, g, scale(v(1))]
                    }
                    _ => [scale(v(0)), scale(v(1)), scale(v(2)), scale(v(3))],
                });
            }
        }
        o
    }
    fn pass(&self, x0: usize, y0: usize, dx: usize, dy: usize, raw: &mut Vec<u8>) {
        if x0 >= self.w || y0 >= self.h {
            return;
        }
        let n = self.channels();
        let bpp = (n * self.depth as usize / 8).max(1);
        let mut prev: Vec<u8> = vec![];
        for (row, y) in (y0..self.h).step_by(dy).enumerate() {
            let mut line = vec![];
            let (mut acc, mut bits) = (0u32, 0);
            for x in (x0..self.w).step_by(dx) {
                for c in 0..n {
                    let v = self.sample(x, y, c);
                    if self.depth == 16 {
                        line.extend_from_slice(&v.to_be_bytes());
                    } else {
                        acc = acc << self.depth | v as u32;
                        bits += self.depth;
                        if bits == 8 {
                            line.push(acc as u8);
                            acc = 0;
                            bits = 0;
                        }
                    }
                }
            }
            if bits > 0 {
                line.push((acc << (8 - bits)) as u8);
            }
            if prev.is_empty() {
                prev = vec![0; line.len()];
            }
            let f = if self.filter == 5 { (mix(self.seed, 1005, row as u64) % 5) as u8 } else { self.filter };
            raw.push(f);
            for i in 0..line.len() {
                let a = if i >= bpp { line[i - bpp] } else { 0 } as i32;
                let b = prev[i] as i32;
                let c = if i >= bpp { prev[i - bpp] } else { 0 } as i32;
                let p = match f {
                    0 => 0,
                    1 => a,
                    2 => b,
                    3 => (a + b) / 2,
                    _ => {
                        let e = a + b - c;
                        let (pa, pb, pc) = ((e - a).abs(), (e - b).abs(), (e - c).abs());
                        if pa <= pb && pa <= pc {
                            a
                        } else if pb <= pc {
                            b
                        } else {
                            c
                        }
                    }
                };
                raw.push(line[i].wrapping_sub(p as u8));
            }
            prev = line;
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut raw = vec![];
        if self.interlaced {
            for (x0, y0, dx, dy) in [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)] {
                self.pass(x0, y0, dx, dy, &mut raw);
            }
        } else {
            self.pass(0, 0, 1, 1, &mut raw);
        }
        let mut o = b"\x89PNG\r\n\x1a\n".to_vec();
        let chunk = |ty: &[u8; 4], d: &[u8], o: &mut Vec<u8>| {
            o.extend_from_slice(&(d.len() as u32).to_be_bytes());
            o.extend_from_slice(ty);
            o.extend_from_slice(d);
            o.extend_from_slice(&crc32(&[ty, d]).to_be_bytes());
        };
        let mut ihdr = vec![];
        ihdr.extend_from_slice(&(self.w as u32).to_be_bytes());
        ihdr.extend_from_slice(&(self.h as u32).to_be_bytes());
        ihdr.extend_from_slice(&[self.depth, self.ct, 0, 0, self.interlaced as u8]);
        chunk(b"IHDR", &ihdr, &mut o);
        if self.anc & 1 != 0 {
            // colour management is left to others: the samples are what they are
            chunk(b"gAMA", &[45455u32, 100_000, 55_556, 20_000][(mix(self.seed, 77, 1) % 4) as usize].to_be_bytes(), &mut o);
        }
        if self.anc & 2 != 0 {
            chunk(b"tEXt", b"Comment\0written by the harness", &mut o);
        }
        if self.anc & 4 != 0 {
            chunk(b"pHYs", &[0, 0, 11, 19, 0, 0, 11, 19, 1], &mut o);
        }
        if self.anc & 16 != 0 {
            chunk(b"sRGB", &[0], &mut o);
            chunk(b"cHRM", &[0, 0, 122, 37, 0, 0, 128, 132, 0, 0, 250, 0, 0, 0, 128, 232, 0, 0, 117, 48, 0, 0, 234, 96, 0, 0, 58, 151, 0, 0, 23, 111], &mut o);
        }
        if self.anc & 16384 != 0 && self.anc & 16 == 0 {
            let mut d = b"profile\0\0".to_vec();
            d.extend(zlib(&[7; 200], false));
            chunk(b"iCCP", &d, &mut o);
        }
        if self.anc & 32768 != 0 {
            // asks for a rotation
            chunk(b"eXIf", b"MM\0*\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0\x06\0\0\0\0\0\0", &mut o);
        }
        if self.anc & 32 != 0 {
            // significant bits, which do not change what a sample means
            chunk(b"sBIT", &vec![self.depth.min(8).min(3); [1, 0, 3, 3, 2, 0, 4][self.ct as usize]], &mut o);
        }
        if self.anc & 64 != 0 {
            chunk(b"prVt", &[1, 2, 3], &mut o);
        }
        if self.anc & 128 != 0 && (self.ct == 2 || self.ct == 6) {
            // a suggested palette
            chunk(b"PLTE", &[1, 2, 3, 4, 5, 6], &mut o);
        }
        // APNG: the default image is (256) or is not (512) the first frame
        let animated = self.anc & 768 != 0;
        let own_frame = self.anc & 256 != 0;
        let mut seq = 0u32;
        let fctl = |seq: &mut u32, w: usize, h: usize| {
            let mut d = seq.to_be_bytes().to_vec();
            *seq += 1;
            for v in [w, h, 0, 0] {
                d.extend_from_slice(&(v as u32).to_be_bytes());
            }
            d.extend_from_slice(&[0, 1, 0, 10, 0, 1]);
            d
        };
        if animated {
            chunk(b"acTL", &[0, 0, 0, 1 + own_frame as u8, 0, 0, 0, 0], &mut o);
        }
        if self.ct == 3 {
            let pal = self.palette();
            chunk(b"PLTE", &pal.iter().flat_map(|p| [p[0], p[1], p[2]]).collect::<Vec<_>>(), &mut o);
            let na = self.palette_alphas(pal.len());
            if na > 0 {
                chunk(b"tRNS", &pal[..na].iter().map(|p| p[3]).collect::<Vec<_>>(), &mut o);
            }
        } else if self.trns && (self.ct == 0 || self.ct == 2) {
            let k = self.key();
            let n = self.channels();
            chunk(b"tRNS", &k[..n].iter().flat_map(|v| v.to_be_bytes()).collect::<Vec<_>>(), &mut o);
        }
        if self.anc & 1024 != 0 {
            let n = match self.ct { 3 => 1, 0 | 4 => 2, _ => 6 };
            chunk(b"bKGD", &vec![0; n], &mut o);
        }
        if animated && own_frame {
            chunk(b"fcTL", &fctl(&mut seq, self.w, self.h), &mut o);
        }
        let z = zlib(&raw, self.stored);
        for (i, c) in z.chunks(self.idat.max(1)).enumerate() {
            chunk(b"IDAT", c, &mut o);
            if i == 0 && self.anc & 2048 != 0 {
                chunk(b"IDAT", &[], &mut o);
            }
        }
        if animated {
            chunk(b"fcTL", &fctl(&mut seq, 1, 1), &mut o);
            let mut d = seq.to_be_bytes().to_vec();
            // one row of one pixel, all samples zero
            d.extend(zlib(&vec![0; 1 + (self.channels() * self.depth as usize).div_ceil(8)], true));
            chunk(b"fdAT", &d, &mut o);
        }
        if self.anc & 4096 != 0 {
            chunk(b"iTXt", b"Title\0\0\0en\0\0after the data", &mut o);
            chunk(b"prVt", &[4; 300], &mut o);
        }
        if self.anc & 8 != 0 {
            chunk(b"tIME", &[7, 0xE8, 1, 2, 3, 4, 5], &mut o);
        }
        chunk(b"IEND", &[], &mut o);
        if self.anc & 8192 != 0 {
            o.extend_from_slice(b"bytes after the end\x89PNG");
        }
        o
    }
}

// ------------------------------------------------------------------ JPEG

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Jpeg {
    pub w: usize,
    pub h: usize,
    /// 1 gray, 3 YCbCr, 4 CMYK
    pub comps: u8,
    /// sampling factors of the first component
    pub hs: u8,
    pub vs: u8,
    /// quantiser step of all coefficients
    pub q: u8,
    /// restart interval in MCUs, 0 for none
    pub restart: u16,
    /// 0: no marker, 1: JFIF, 2: Adobe transform 0 (stored RGB for three components)
    pub app: u8,
    pub seed: u64,
    pub kind: u8,
    /// 0: one scan, 1: a scan per component, 2: progressive by bands, 3: progressive by bands and bits
    #[serde(default)]
    pub mode: u8,
    /// 1: EXIF, 2: comment, 4: SOF1 instead of SOF0
    #[serde(default)]
    pub extra: u8,
}

const ZIGZAG: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28,
    35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];

struct Bits {
    o: Vec<u8>,
    acc: u32,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u32, bits: u32) {
        for i in (0..bits).rev() {
            self.acc = self.acc << 1 | (v >> i & 1);
            self.n += 1;
            if self.n == 8 {
                self.o.push(self.acc as u8);
                if self.acc as u8 == 0xFF {
                    self.o.push(0);
                }
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    fn flush(&mut self) {
        while self.n != 0 {
            self.put(1, 1);
        }
    }
}

fn category(v: i32) -> u32 {
    32 - v.unsigned_abs().leading_zeros()
}

impl Jpeg {
    /// Component value before subsampling.
    fn value(&self, x: usize, y: usize, c: usize) -> f64 {
        let (x, y) = (x.min(self.w - 1), y.min(self.h - 1));
        let s = self.seed;
        let v = match self.kind {
            0 => mix(s, (x as u64) << 20 | y as u64, c as u64) % 256,
            1 => {
                let m = mix(s, 3000, c as u64);
                let v = (m & 255) as i64 + ((m >> 8) % 9) as i64 * x as i64 + ((m >> 16) % 9) as i64 * y as i64;
                // a triangle wave has no jumps
                let v = v % 510;
                (if v > 255 { 510 - v } else { v }) as u64
            }
            _ => mix(s, (x as u64 / 8) << 20 | y as u64 / 8, c as u64) % 256,
        };
        v as f64
    }
    /// Sampling factors of component `c`, and the largest ones.
    fn sampling(&self, c: usize) -> (usize, usize) {
        if c == 0 && self.comps > 1 { (self.hs as usize, self.vs as usize) } else { (1, 1) }
    }
    /// Quantised coefficients of the 8x8 block (bx, by) of component `c`, in zigzag order.
    fn coefficients(&self, c: usize, bx: usize, by: usize, cosv: &[f64]) -> [i32; 64] {
        let ((ch, cv), (hs, vs)) = (self.sampling(c), self.sampling(0));
        let mut px = [0.0; 64];
        for i in 0..64 {
            // nearest sample of the full-resolution component
            let (fx, fy) = ((8 * bx + i % 8) * hs / ch, (8 * by + i / 8) * vs / cv);
            px[i] = self.value(fx, fy, c) - 128.0;
        }
        let mut rows = [0.0; 64];
        for y in 0..8 {
            for u in 0..8 {
                rows[8 * y + u] = (0..8).map(|x| px[8 * y + x] * cosv[8 * u + x]).sum();
            }
        }
        let mut co = [0i32; 64];
        for u in 0..8 {
            for v in 0..8 {
                let s: f64 = (0..8).map(|y| rows[8 * y + u] * cosv[8 * v + y]).sum();
                let k = |z: usize| if z == 0 { 0.5f64.sqrt() } else { 1.0 };
                let q = (s * k(u) * k(v) / 4.0 / self.q as f64).round();
                co[8 * v + u] = q.clamp(-1023.0, 1023.0) as i32;
            }
        }
        let mut zz = [0; 64];
        for k in 0..64 {
            zz[k] = co[ZIGZAG[k]];
        }
        zz
    }
    /// One scan: the components `cs`, the coefficients `lo..=hi`, the successive approximation `ah`, `al`.
    fn scan(&self, planes: &[(usize, usize, Vec<[i32; 64]>)], cs: &[usize], (lo, hi): (usize, usize), (ah, al): (u8, u8), o: &mut Vec<u8>) {
        o.extend_from_slice(&[0xFF, 0xDA, 0, 6 + 2 * cs.len() as u8, cs.len() as u8]);
        for &c in cs {
            o.extend_from_slice(&[self.component_id(c as u8), 0]);
        }
        o.extend_from_slice(&[lo as u8, hi as u8, ah << 4 | al]);
        let progressive = self.mode >= 2;
        let code = |sym: u32| (sym >> 4) * 11 + (sym & 15);
        let signed = |v: i32, t: u32| if v < 0 { (v - 1) as u32 & ((1 << t) - 1) } else { v as u32 };
        // the blocks of every MCU
        let (hs, vs) = self.sampling(0);
        let mut mcus: Vec<Vec<(usize, usize)>> = vec![];
        if let [c] = *cs {
            let (ch, cv) = self.sampling(c);
            // only the blocks that the component's own size needs
            let (bw, bh) = ((self.w * ch).div_ceil(hs).div_ceil(8), (self.h * cv).div_ceil(vs).div_ceil(8));
            for i in 0..bw * bh {
                mcus.push(vec![(c, (i / bw) * planes[c].0 + i % bw)]);
            }
        } else {
            for my in 0..self.h.div_ceil(8 * vs) {
                for mx in 0..self.w.div_ceil(8 * hs) {
                    let mut m = vec![];
                    for &c in cs {
                        let (ch, cv) = self.sampling(c);
                        for b in 0..ch * cv {
                            m.push((c, (my * cv + b / ch) * planes[c].0 + mx * ch + b % ch));
                        }
                    }
                    mcus.push(m);
                }
            }
        }
        let mut b = Bits { o: vec![], acc: 0, n: 0 };
        let mut dc = [0i32; 4];
        let mut eobs = 0u32;
        let (mut count, mut rst) = (0u32, 0u8);
        let put_eobs = |b: &mut Bits, eobs: &mut u32| {
            if *eobs > 0 {
                let n = 31 - eobs.leading_zeros();
                b.put(code(n << 4), 8);
                b.put(*eobs - (1 << n), n);
                *eobs = 0;
            }
        };
        for m in &mcus {
            if self.restart > 0 && count == self.restart as u32 {
                put_eobs(&mut b, &mut eobs);
                b.flush();
                b.o.extend_from_slice(&[0xFF, 0xD0 + rst]);
                rst = (rst + 1) % 8;
                dc = [0; 4];
                count = 0;
            }
            count += 1;
            for &(c, i) in m {
                let co = &planes[c].2[i];
                if lo == 0 && ah == 0 {
                    let v = co[0] >> al;
                    let t = category(v - dc[c]);
                    b.put(t, 4);
                    b.put(signed(v - dc[c], t), t);
                    dc[c] = v;
                } else if lo == 0 {
                    b.put((co[0] >> al & 1) as u32, 1);
                }
                if hi == 0 {
                    continue;
                }
                let first = lo.max(1);
                // the point transform of the AC coefficients rounds towards zero
                let v = |k: usize| co[k] / (1 << al);
                if ah == 0 {
                    let last = (first..=hi).rev().find(|&k| v(k) != 0);
                    let mut run = 0;
                    for k in first..=last.unwrap_or(0) {
                        let v = v(k);
                        if v == 0 {
                            run += 1;
                            continue;
                        }
                        put_eobs(&mut b, &mut eobs);
                        while run > 15 {
                            b.put(code(0xF0), 8);
                            run -= 16;
                        }
                        let t = category(v);
                        b.put(code(run << 4 | t), 8);
                        b.put(signed(v, t), t);
                        run = 0;
                    }
                    if last != Some(hi) {
                        eobs += 1;
                        if !progressive || self.seed & 1 == 0 || eobs == 0x7FFF {
                            put_eobs(&mut b, &mut eobs);
                        }
                    }
                } else {
                    let last = (first..=hi).rev().find(|&k| v(k).abs() == 1).unwrap_or(0);
                    let (mut run, mut fixes) = (0, vec![]);
                    for k in first..=hi {
                        let t = v(k).unsigned_abs();
                        if t == 0 {
                            run += 1;
                            continue;
                        }
                        while run > 15 && k <= last {
                            b.put(code(0xF0), 8);
                            fixes.drain(..).for_each(|f| b.put(f, 1));
                            run -= 16;
                        }
                        if t > 1 {
                            fixes.push(t & 1);
                            continue;
                        }
                        b.put(code(run << 4 | 1), 8);
                        b.put((co[k] > 0) as u32, 1);
                        fixes.drain(..).for_each(|f| b.put(f, 1));
                        run = 0;
                    }
                    if run > 0 || !fixes.is_empty() {
                        b.put(code(0), 8);
                        fixes.drain(..).for_each(|f| b.put(f, 1));
                    }
                }
            }
        }
        put_eobs(&mut b, &mut eobs);
        b.flush();
        o.extend_from_slice(&b.o);
    }
    /// Usually 1, 2, 3; or R, G, B for stored RGB; or 0, 1, 2, which leaves the meaning to the Adobe and JFIF markers.
    fn component_id(&self, c: u8) -> u8 {
        match (self.extra >> 3 & 3, self.comps) {
            (1, 3) => b"RGB"[c as usize],
            (2, _) => c,
            _ => c + 1,
        }
    }
    /// Is RGB stored?
    pub fn stored_rgb(&self) -> bool {
        self.comps == 3 && (self.extra >> 3 & 3 == 1 || self.extra >> 3 & 3 == 2 && self.app == 2)
    }
    /// Rejects nothing: every such value is a valid file.
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.comps as usize;
        let mut o = vec![0xFF, 0xD8];
        let seg = |m: u8, d: &[u8], o: &mut Vec<u8>| {
            o.extend_from_slice(&[0xFF, m]);
            o.extend_from_slice(&(d.len() as u16 + 2).to_be_bytes());
            o.extend_from_slice(d);
        };
        match self.app {
            1 => seg(0xE0, &[b'J', b'F', b'I', b'F', 0, 1, 1, 0, 0, 1, 0, 1, 0, 0], &mut o),
            2 => seg(0xEE, &[b'A', b'd', b'o', b'b', b'e', 0, 100, 0, 0, 0, 0, 0], &mut o),
            _ => {}
        }
        if self.extra & 1 != 0 {
            // an EXIF segment that asks for a rotation, which a decoder of pixels does not apply
            seg(0xE1, b"Exif\0\0MM\0*\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0\x06\0\0\0\0\0\0", &mut o);
        }
        if self.extra & 2 != 0 {
            seg(0xFE, b"a comment \xFF\xD8\xFF\xD9 with markers in it", &mut o);
        }
        let mut dqt = vec![0];
        dqt.extend_from_slice(&[self.q; 64]);
        seg(0xDB, &dqt, &mut o);
        let mut sof = vec![8];
        sof.extend_from_slice(&(self.h as u16).to_be_bytes());
        sof.extend_from_slice(&(self.w as u16).to_be_bytes());
        sof.push(self.comps);
        for c in 0..n {
            let (ch, cv) = self.sampling(c);
            sof.extend_from_slice(&[self.component_id(c as u8), (ch << 4 | cv) as u8, 0]);
        }
        seg(if self.mode >= 2 { 0xC2 } else if self.extra & 4 != 0 { 0xC1 } else { 0xC0 }, &sof, &mut o);
        // DC: categories 0..=11, all of length 4; AC: 162 usual symbols with 8-bit codes is not
        // possible below 256 codes, so all 16x11 run/size pairs get 8-bit codes (176 < 255)
        let mut dht = vec![0x00];
        let mut counts = [0u8; 16];
        counts[3] = 12;
        dht.extend_from_slice(&counts);
        dht.extend(0..12u8);
        seg(0xC4, &dht, &mut o);
        let ac: Vec<u8> = (0..16u8).flat_map(|r| (0..=10u8).map(move |s| r << 4 | s)).collect();
        let mut dht = vec![0x10];
        let mut counts = [0u8; 16];
        counts[7] = ac.len() as u8;
        dht.extend_from_slice(&counts);
        dht.extend_from_slice(&ac);
        seg(0xC4, &dht, &mut o);
        if self.restart > 0 {
            seg(0xDD, &self.restart.to_be_bytes(), &mut o);
        }
        let cosv: Vec<f64> = (0..64)
            .map(|i| (((2 * (i % 8) + 1) * (i / 8)) as f64 * std::f64::consts::PI / 16.0).cos())
            .collect();
        let (hs, vs) = self.sampling(0);
        let planes: Vec<_> = (0..n)
            .map(|c| {
                let (ch, cv) = self.sampling(c);
                let (bw, bh) = (self.w.div_ceil(8 * hs) * ch, self.h.div_ceil(8 * vs) * cv);
                (bw, bh, (0..bw * bh).map(|i| self.coefficients(c, i % bw, i / bw, &cosv)).collect())
            })
            .collect();
        let all: Vec<usize> = (0..n).collect();
        match self.mode {
            0 => self.scan(&planes, &all, (0, 63), (0, 0), &mut o),
            1 => all.iter().for_each(|&c| self.scan(&planes, &[c], (0, 63), (0, 0), &mut o)),
            2 => {
                self.scan(&planes, &all, (0, 0), (0, 0), &mut o);
                for &c in &all {
                    self.scan(&planes, &[c], (1, 5), (0, 0), &mut o);
                    self.scan(&planes, &[c], (6, 63), (0, 0), &mut o);
                }
            }
            _ => {
                self.scan(&planes, &all, (0, 0), (0, 1), &mut o);
                for &c in &all {
                    self.scan(&planes, &[c], (1, 5), (0, 2), &mut o);
                    self.scan(&planes, &[c], (6, 63), (0, 2), &mut o);
                }
                for &c in all.iter().rev() {
                    self.scan(&planes, &[c], (1, 63), (2, 1), &mut o);
                }
                self.scan(&planes, &all, (0, 0), (1, 0), &mut o);
                for &c in &all {
                    self.scan(&planes, &[c], (1, 63), (1, 0), &mut o);
                }
            }
        }
        o.extend_from_slice(&[0xFF, 0xD9]);
        o
    }
}

// ------------------------------------------------------------------ DDS

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DdsFile {
    pub w: u32,
    pub h: u32,
    pub fourcc: [u8; 4],
    /// DX10 header: format, dimension, misc flag, array size, misc flags 2
    pub dx10: Option<[u32; 5]>,
    pub mips: u32,
    pub seed: u64,
    /// bytes after the header
    pub data: usize,
    /// random contents of the fields that do not matter
    pub odd: bool,
}

impl DdsFile {
    pub fn payload(&self) -> Vec<u8> {
        (0..self.data).map(|i| (mix(self.seed, i as u64 / 8, 5) >> (8 * (i % 8))) as u8).collect()
    }
    pub fn header(&self) -> Vec<u8> {
        let mut v: Vec<u32> = vec![0x2053_4444, 124];
        let r = |k: u64| if self.odd { mix(self.seed, 4000, k) as u32 } else { 0 };
        let mut flags = 0x1 | 0x2 | 0x4 | 0x1000;
        if self.mips > 1 {
            flags |= 0x20000;
        }
        if r(0) & 1 == 0 {
            flags |= 0x80000;
        }
        v.extend_from_slice(&[flags, self.h, self.w, [self.data as u32, 0, r(6), self.w.wrapping_mul(4)][(r(0) >> 8 & 3) as usize], r(1) & 1, self.mips]);
        v.extend((0..11).map(|k| r(10 + k)));
        v.extend_from_slice(&[32, 0x4, u32::from_le_bytes(self.fourcc), 0, 0, 0, 0, 0]);
        // a cube map or a volume texture holds its first image first
        let caps2 = if self.mips > 0 { [0, 0, 0, 0xfe00, 0x600][(r(5) % 5) as usize] } else { 0 };
        v.extend_from_slice(&[if self.mips > 1 { 0x40_1008 } else { 0x1000 }, caps2, r(2), r(3), r(4)]);
        if let Some(x) = self.dx10 {
            v.extend_from_slice(&x);
        }
        v.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = self.header();
        o.extend_from_slice(&self.payload());
        o
    }
}

/// What the tool is documented to write.
#[derive(Debug, PartialEq, Eq)]
pub struct DdsOut<'a> {
    pub w: u32,
    pub h: u32,
    pub linear: u32,
    pub flags: u32,
    pub spf: [u32; 8],
    pub caps: [u32; 2],
    pub dx10: [u32; 5],
    pub payload: &'a [u8],
}

pub fn parse_dds(b: &[u8]) -> Result<DdsOut<'_>, String> {
    if b.len() < 148 {
        return Err(format!("{} bytes are too few for a DDS file with DX10 header", b.len()));
    }
    let u = |i: usize| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    if u(0) != 0x2053_4444 {
        return Err("wrong magic number".into());
    }
    if u(1) != 124 || u(19) != 32 {
        return Err(format!("header size {}, pixel format size {}", u(1), u(19)));
    }
    if u(21) != 0x3031_5844 {
        return Err(format!("FourCC is {:08x}, not DX10", u(21)));
    }
    Ok(DdsOut {
        flags: u(2),
        h: u(3),
        w: u(4),
        linear: u(5),
        spf: std::array::from_fn(|k| u(19 + k)),
        caps: [u(27), u(28)],
        dx10: std::array::from_fn(|k| u(32 + k)),
        payload: &b[148..],
    })
}
