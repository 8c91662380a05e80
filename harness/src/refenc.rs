//! Reference models for the encoders, in exact integer or f64 arithmetic.
use crate::gen::{Blk, Chan, P};
use crate::refdec::{expand565, ColourBlock};
use std::sync::OnceLock;

// ---------------------------------------------------------------- channels

fn nearest_err(pal: &[u8], v: u8) -> u32 {
    pal.iter().map(|&c| (c as i32 - v as i32).pow(2) as u32).min().unwrap()
}

fn widen(mut lo: i32, mut hi: i32, n: i32) -> (i32, i32) {
    if hi - lo < n {
        hi = (lo + n).min(255);
    }
    if hi - lo < n {
        lo = (hi - n).max(0);
    }
    (lo, hi)
}

fn steps(lo: i32, hi: i32, n: i32) -> Vec<u8> {
    (0..=n).map(|k| (((n - k) * lo + k * hi) / n) as u8).collect()
}

/// (error of the min..max seven-step fit, error of the five-step fit with 0 and 255)
pub fn channel_errors(vals: &[u8]) -> (u32, u32) {
    if vals.is_empty() {
        return (0, 0);
    }
    let (lo, hi) = (*vals.iter().min().unwrap() as i32, *vals.iter().max().unwrap() as i32);
    let (lo7, hi7) = widen(lo, hi, 7);
    let p7 = steps(lo7, hi7, 7);
    let inner: Vec<u8> = vals.iter().copied().filter(|&v| v != 0 && v != 255).collect();
    let mut p5 = vec![0u8, 255];
    if !inner.is_empty() {
        let (lo, hi) = (*inner.iter().min().unwrap() as i32, *inner.iter().max().unwrap() as i32);
        let (lo5, hi5) = widen(lo, hi, 5);
        p5.extend(steps(lo5, hi5, 5));
    }
    let e = |p: &[u8]| vals.iter().map(|&v| nearest_err(p, v)).sum();
    (e(&p7), e(&p5))
}

pub fn enabled(c: &Chan, mask: u32) -> Vec<u8> {
    (0..16).filter(|i| mask >> i & 1 == 1).map(|i| c[i]).collect()
}

// ---------------------------------------------------------------- uniform colours

/// best[bits][pos][v]: least absolute error of value v in one channel, pos 0 endpoint,
/// 1 halfway entry, 2 one-third entry.
struct Tables {
    best: [[[u32; 256]; 3]; 2],
}
fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut best = [[[u32::MAX; 256]; 3]; 2];
        for (k, bits) in [5u32, 6].iter().enumerate() {
            let ex: Vec<u32> = (0..1u32 << bits)
                .map(|v| if *bits == 5 { v * 8 + v / 4 } else { v * 4 + v / 16 })
                .collect();
            for v in 0..256usize {
                for &s in &ex {
                    let d = |x: u32| (x as i32 - v as i32).unsigned_abs();
                    best[k][0][v] = best[k][0][v].min(d(s));
                    for &e in &ex {
                        best[k][1][v] = best[k][1][v].min(d((s + e) / 2));
                        best[k][2][v] = best[k][2][v].min(d((2 * s + e) / 3));
                    }
                }
            }
        }
        Tables { best }
    })
}

/// Least squared error of a flat colour at one palette position.
fn flat_pos(c: [u8; 3], pos: usize) -> u32 {
    let t = tables();
    (0..3)
        .map(|k| t.best[if k == 1 { 1 } else { 0 }][pos][c[k] as usize].pow(2))
        .sum()
}
pub fn flat_best(c: [u8; 3], three: bool, four: bool) -> u32 {
    let mut b = flat_pos(c, 0);
    if three {
        b = b.min(flat_pos(c, 1));
    }
    if four {
        b = b.min(flat_pos(c, 2));
    }
    b
}

// ---------------------------------------------------------------- colour sets

pub type V3 = [f64; 3];
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}

/// The distinct enabled (BC1: opaque) colours of a block.
pub struct Set {
    pub rgb: Vec<[u8; 3]>,
    pub p: Vec<V3>,
    /// square root of the summed pixel weights
    pub w: Vec<f64>,
    /// pixel -> colour, or None for disabled / transparent
    pub of: [Option<usize>; 16],
    pub transparent: bool,
}

pub fn set(b: &Blk, bc1: bool, flag: bool) -> Set {
    let mut s = Set { rgb: vec![], p: vec![], w: vec![], of: [None; 16], transparent: false };
    for i in 0..16 {
        if !b.on(i) {
            continue;
        }
        let q = b.px[i];
        if bc1 && q[3] < 128 {
            s.transparent = true;
            continue;
        }
        let c = [q[0], q[1], q[2]];
        let j = match s.rgb.iter().position(|x| *x == c) {
            Some(j) => j,
            None => {
                s.rgb.push(c);
                s.p.push(c.map(|v| v as f64 / 255.0));
                s.w.push(0.0);
                s.rgb.len() - 1
            }
        };
        s.w[j] += if flag { (q[3] as f64 + 1.0) / 256.0 } else { 1.0 };
        s.of[i] = Some(j);
    }
    for w in &mut s.w {
        *w = w.sqrt();
    }
    s
}

/// Palette in unrounded unit-range values, endpoints k/31, k/63.
pub fn palette_f(c0: u16, c1: u16, three: bool) -> Vec<V3> {
    let un = |v: u16| [(v >> 11) as f64 / 31.0, (v >> 5 & 63) as f64 / 63.0, (v & 31) as f64 / 31.0];
    let (a, b) = (un(c0), un(c1));
    let mixf = |t: f64| [a[0] * (1.0 - t) + b[0] * t, a[1] * (1.0 - t) + b[1] * t, a[2] * (1.0 - t) + b[2] * t];
    if three {
        vec![a, b, mixf(0.5)]
    } else {
        vec![a, b, mixf(1.0 / 3.0), mixf(2.0 / 3.0)]
    }
}

/// Weighted squared error of an encoded colour block under the cluster-fit measure.
/// Errors when an opaque pixel uses the transparent entry.
pub fn objective(s: &Set, cb: &ColourBlock, wt: V3) -> Result<f64, String> {
    let pal = palette_f(cb.c0, cb.c1, cb.three);
    let mut per = vec![0f64; s.p.len()];
    for i in 0..16 {
        if let Some(j) = s.of[i] {
            let k = cb.idx[i] as usize;
            if k >= pal.len() {
                return Err(format!("opaque pixel {i} uses the transparent palette entry"));
            }
            let d = sub(s.p[j], pal[k]);
            let e = wt[0] * d[0] * d[0] + wt[1] * d[1] * d[1] + wt[2] * d[2] * d[2];
            per[j] = per[j].max(e);
        }
    }
    Ok(per.iter().zip(&s.w).map(|(e, w)| e * w).sum())
}

/// Eigen-decomposition of a symmetric 3x3 matrix by Jacobi rotations; eigenvalues descending.
pub fn eigen(m: [[f64; 3]; 3]) -> ([f64; 3], [V3; 3]) {
    let mut a = m;
    let mut v = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    for _ in 0..60 {
        let mut off = 0.0;
        for (p, q) in [(0usize, 1usize), (0, 2), (1, 2)] {
            off += a[p][q] * a[p][q];
            if a[p][q].abs() < 1e-300 {
                continue;
            }
            let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
            let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
            let t = if th == 0.0 { 1.0 } else { t };
            let c = 1.0 / (t * t + 1.0).sqrt();
            let s = t * c;
            for k in 0..3 {
                let (x, y) = (a[k][p], a[k][q]);
                a[k][p] = c * x - s * y;
                a[k][q] = s * x + c * y;
            }
            for k in 0..3 {
                let (x, y) = (a[p][k], a[q][k]);
                a[p][k] = c * x - s * y;
                a[q][k] = s * x + c * y;
            }
            for k in 0..3 {
                let (x, y) = (v[k][p], v[k][q]);
                v[k][p] = c * x - s * y;
                v[k][q] = s * x + c * y;
            }
        }
        if off < 1e-40 {
            break;
        }
    }
    let mut o = [0usize, 1, 2];
    o.sort_by(|&i, &j| a[j][j].partial_cmp(&a[i][i]).unwrap());
    let col = |k: usize| [v[0][k], v[1][k], v[2][k]];
    ([a[o[0]][o[0]], a[o[1]][o[1]], a[o[2]][o[2]]], [col(o[0]), col(o[1]), col(o[2])])
}

/// Principal axis of the weighted colours and a bound on the tangent of the angle by which a
/// reasonable approximation of it (a handful of power iterations in f32) may be off.
pub fn axis(s: &Set) -> (V3, f64) {
    let tot: f64 = s.w.iter().sum();
    let mut c = [0.0; 3];
    for (p, w) in s.p.iter().zip(&s.w) {
        for k in 0..3 {
            c[k] += p[k] * w / tot;
        }
    }
    let mut m = [[0.0; 3]; 3];
    for (p, w) in s.p.iter().zip(&s.w) {
        let d = sub(*p, c);
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] += w * d[i] * d[j];
            }
        }
    }
    let (l, u) = eigen(m);
    let ratio = if l[0] > 0.0 { (l[1].max(0.0) / l[0]).min(1.0) } else { 1.0 };
    // rounding of the matrix entries in f32 turns the axis as well; relative to the spectral gap
    let scale = if l[0] > 0.0 { 1e-6 / l[0].sqrt() } else { 1.0 };
    let noise = (4e-6 + scale) / (1.0 - ratio).max(1e-9);
    // beyond this ratio of the eigenvalues a start vector may miss the axis altogether
    let conv = if ratio > 0.8 { 1e3 } else { 4.0 * ratio.powi(8) };
    (u[0], conv + noise)
}

/// Result of the reference partition search.
pub struct Search {
    pub best: f64,
    pub candidates: usize,
    pub sure_cuts: usize,
    /// endpoints of the best division
    pub ends: [V3; 2],
}

fn grid_round(x: f64, n: f64) -> [f64; 2] {
    let x = x.clamp(0.0, 1.0) * n;
    let k = (x + 0.5).floor();
    // near a rounding tie both neighbours count
    let f = x + 0.5 - k;
    let o = if f < 2e-3 && k >= 1.0 {
        k - 1.0
    } else if f > 1.0 - 2e-3 && k < n {
        k + 1.0
    } else {
        k
    };
    [k / n, o / n]
}

/// Best weighted error over all divisions of the colours, ordered along their principal axis,
/// into consecutive palette positions with least-squares endpoints. Only divisions that do not
/// depend on an uncertain order count, and only well-conditioned ones, so the result is an upper
/// bound for what an exact search must reach.
pub fn search(s: &Set, wt: V3, three: bool, four: bool) -> Search {
    let (u, theta) = axis(s);
    search_along(s, wt, u, theta, three, four)
}

/// The same along a given direction, known up to an angle of tangent `theta`.
pub fn search_along(s: &Set, wt: V3, u: V3, theta: f64, three: bool, four: bool) -> Search {
    let n = s.p.len();
    let mut ord: Vec<usize> = (0..n).collect();
    let d: Vec<f64> = s.p.iter().map(|p| dot(*p, u)).collect();
    ord.sort_by(|&i, &j| d[i].partial_cmp(&d[j]).unwrap());
    // sure[c]: the first c colours certainly precede the others
    let sure: Vec<bool> = (0..=n)
        .map(|c| {
            ord[..c].iter().all(|&a| {
                ord[c..].iter().all(|&b| d[b] - d[a] > theta * norm(sub(s.p[a], s.p[b])) + 2e-6)
            })
        })
        .collect();
    // prefix sums of w and w*p, w*p*p
    let mut pw = vec![0.0; n + 1];
    let mut px = vec![[0.0; 3]; n + 1];
    let mut xx = [0.0; 3];
    for (m, &j) in ord.iter().enumerate() {
        pw[m + 1] = pw[m] + s.w[j];
        for k in 0..3 {
            px[m + 1][k] = px[m][k] + s.w[j] * s.p[j][k];
            xx[k] += s.w[j] * s.p[j][k] * s.p[j][k];
        }
    }
    let mut r = Search { best: f64::INFINITY, candidates: 0, sure_cuts: sure.iter().filter(|x| **x).count(), ends: [[0.0; 3]; 2] };
    let mut eval = |cuts: &[usize], ts: &[f64]| {
        // cluster m spans cuts[m]..cuts[m+1] and sits at (1-t)*a + t*b
        let (mut a2, mut b2, mut ab) = (0.0, 0.0, 0.0);
        let (mut ax, mut bx) = ([0.0; 3], [0.0; 3]);
        for (m, &t) in ts.iter().enumerate() {
            let w = pw[cuts[m + 1]] - pw[cuts[m]];
            a2 += w * (1.0 - t) * (1.0 - t);
            b2 += w * t * t;
            ab += w * t * (1.0 - t);
            for k in 0..3 {
                let x = px[cuts[m + 1]][k] - px[cuts[m]][k];
                ax[k] += x * (1.0 - t);
                bx[k] += x * t;
            }
        }
        let det = a2 * b2 - ab * ab;
        if det < 0.02 * a2 * b2 || det < 1e-4 {
            return;
        }
        let mut e = 0.0;
        let mut ends = [[0.0; 3]; 2];
        for k in 0..3 {
            let g = if k == 1 { 63.0 } else { 31.0 };
            let qa = grid_round((ax[k] * b2 - bx[k] * ab) / det, g);
            let qb = grid_round((bx[k] * a2 - ax[k] * ab) / det, g);
            ends[0][k] = qa[0];
            ends[1][k] = qb[0];
            let mut worst = 0.0f64;
            for &a in &qa {
                for &b in &qb {
                    let c = xx[k] + a * a * a2 + b * b * b2 + 2.0 * (a * b * ab - a * ax[k] - b * bx[k]);
                    worst = worst.max(c.max(0.0));
                }
            }
            e += wt[k] * worst;
        }
        r.candidates += 1;
        if e < r.best {
            r.best = e;
            r.ends = ends;
        }
    };
    for i in 0..n {
        if !sure[i] {
            continue;
        }
        for j in i..=n {
            if !sure[j] {
                continue;
            }
            if three && !(i == 0 && j == 0) {
                eval(&[0, i, j, n], &[0.0, 0.5, 1.0]);
            }
            if four {
                for k in j..=n {
                    if sure[k] && !(j == 0 && k == 0) {
                        eval(&[0, i, j, k, n], &[0.0, 1.0 / 3.0, 2.0 / 3.0, 1.0]);
                    }
                }
            }
        }
    }
    r
}

/// About how many orders refinement goes through before nothing improves.
pub fn refinements(s: &Set, wt: V3, three: bool) -> usize {
    let (mut u, _) = axis(s);
    let mut best = f64::INFINITY;
    let mut n = 0;
    loop {
        n += 1;
        let r = search_along(s, wt, u, 0.0, three, !three);
        let d = sub(r.ends[1], r.ends[0]);
        let l = norm(d);
        if n == 20 || r.candidates == 0 || r.best >= best || l == 0.0 {
            return n;
        }
        best = r.best;
        u = d.map(|x| x / l);
    }
}

/// 5:6:5 rounding of a colour (nearest grid point per channel; there are no ties).
pub fn round565(c: [u8; 3]) -> u16 {
    let q = |v: u8, n: u32| (2 * v as u32 * n + 255) / 510;
    (q(c[0], 31) << 11 | q(c[1], 63) << 5 | q(c[2], 31)) as u16
}

pub fn exact565(c: [u8; 3]) -> bool {
    expand565(round565(c)) == c.map(|v| v as u32)
}

pub fn wt(p: &P) -> V3 {
    p.w.get().map(|x| x as f64)
}
