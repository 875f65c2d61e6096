//! Reference model of colour conversion in f64 interval arithmetic.
//!
//! Every quantity carries an interval that contains whatever a single-precision evaluation of the
//! published formulas may produce (each step is widened by slightly more than f32 rounding and the
//! accuracy of the vectorised pow/log/exp); an output code is accepted iff it is the
//! round-to-nearest of some value in the interval.

use crate::img::Planes;
use crate::spec::*;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iv {
    pub lo: f64,
    pub hi: f64,
}

/// relative error charged per arithmetic step (f32 eps/2 = 6e-8)
const E: f64 = 1.6e-7;

pub fn pt(v: f64) -> Iv {
    Iv { lo: v, hi: v }
}
fn mag(a: Iv) -> f64 {
    a.lo.abs().max(a.hi.abs())
}
impl Iv {
    fn widen(self, by: f64) -> Iv {
        Iv { lo: self.lo - by, hi: self.hi + by }
    }
    pub fn add(self, o: Iv) -> Iv {
        Iv { lo: self.lo + o.lo, hi: self.hi + o.hi }.widen(E * (mag(self) + mag(o)))
    }
    pub fn addf(self, f: f64) -> Iv {
        self.add(pt(f))
    }
    pub fn mulf(self, f: f64) -> Iv {
        let (a, b) = (self.lo * f, self.hi * f);
        let r = Iv { lo: a.min(b), hi: a.max(b) };
        r.widen(E * mag(r))
    }
    pub fn max0(self) -> Iv {
        Iv { lo: self.lo.max(0.0), hi: self.hi.max(0.0) }
    }
    pub fn clamp01(self) -> Iv {
        Iv { lo: self.lo.clamp(0.0, 1.0), hi: self.hi.clamp(0.0, 1.0) }
    }
    pub fn hull(self, o: Iv) -> Iv {
        Iv { lo: self.lo.min(o.lo), hi: self.hi.max(o.hi) }
    }
    pub fn width(self) -> f64 {
        self.hi - self.lo
    }
    /// a / b for positive b
    fn div(self, b: Iv) -> Iv {
        let c = [self.lo / b.lo, self.lo / b.hi, self.hi / b.lo, self.hi / b.hi];
        let r = Iv {
            lo: c.iter().cloned().fold(f64::INFINITY, f64::min),
            hi: c.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
        };
        r.widen(E * mag(r))
    }
    /// x^y for x >= 0, y > 0
    fn pow(self, y: f64) -> Iv {
        // the vector log saturates near the smallest normal f32
        const TINY: f64 = 1.3e-38;
        let floor = (-87.0 * y).exp();
        let rel = |x: f64| y * (4e-7 + 3e-7 * x.ln().abs()) + 4e-7;
        let lo = |x: f64| if x < TINY { 0.0 } else { x.powf(y) * (1.0 - rel(x)) };
        let hi = |x: f64| {
            if x < TINY {
                floor
            } else {
                x.powf(y) * (1.0 + rel(x))
            }
        };
        Iv { lo: lo(self.lo.max(0.0)), hi: hi(self.hi.max(0.0)) }
    }
}

type M3 = [[f64; 3]; 3];

fn inv(m: &M3) -> M3 {
    let d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
        - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
    let c = |a: usize, b: usize, e: usize, f: usize| m[a][b] * m[e][f] - m[a][f] * m[e][b];
    [
        [c(1, 1, 2, 2) / d, -c(0, 1, 2, 2) / d, c(0, 1, 1, 2) / d],
        [-c(1, 0, 2, 2) / d, c(0, 0, 2, 2) / d, -c(0, 0, 1, 2) / d],
        [c(1, 0, 2, 1) / d, -c(0, 0, 2, 1) / d, c(0, 0, 1, 1) / d],
    ]
}

/// chromaticities r, g, b (CIE xy); white is D65
fn chroma(p: Pr) -> [(f64, f64); 3] {
    match p {
        Pr::ST240 => [(0.630, 0.3290), (0.310, 0.595), (0.155, 0.070)],
        Pr::BT709 => [(0.64, 0.33), (0.30, 0.60), (0.15, 0.06)],
        Pr::BT2020 => [(0.708, 0.292), (0.170, 0.797), (0.131, 0.046)],
    }
}

/// RGB -> XYZ, row = output
pub fn rgb_xyz(p: Pr) -> M3 {
    let c = chroma(p);
    let (wx, wy) = (0.3127, 0.3290);
    let w = [wx / wy, 1.0, (1.0 - wx - wy) / wy];
    let mut m: M3 = [[0.0; 3]; 3];
    for (j, (x, y)) in c.iter().enumerate() {
        m[0][j] = *x;
        m[1][j] = *y;
        m[2][j] = 1.0 - x - y;
    }
    let i = inv(&m);
    let s: Vec<f64> = (0..3).map(|r| (0..3).map(|k| i[r][k] * w[k]).sum()).collect();
    for r in m.iter_mut() {
        for j in 0..3 {
            r[j] *= s[j];
        }
    }
    m
}
pub fn xyz_rgb(p: Pr) -> M3 {
    inv(&rgb_xyz(p))
}

struct Mats {
    to: [M3; 3],
    from: [M3; 3],
    lms: M3,
    lms_inv: M3,
    ictcp: [M3; 2],
    ictcp_inv: [M3; 2],
}
fn mats() -> &'static Mats {
    static M: OnceLock<Mats> = OnceLock::new();
    M.get_or_init(|| {
        // XYZ -> LMS including the 4% crosstalk of BT.2100 ICtCp
        let lms = [
            [0.3593, 0.6976, -0.0359],
            [-0.1921, 1.1005, 0.0754],
            [0.0071, 0.0748, 0.8433],
        ];
        let pq = [
            [0.5, 0.5, 0.0],
            [6610.0 / 4096.0, -13613.0 / 4096.0, 7003.0 / 4096.0],
            [17933.0 / 4096.0, -17390.0 / 4096.0, -543.0 / 4096.0],
        ];
        let hlg = [
            [0.5, 0.5, 0.0],
            [3625.0 / 4096.0, -7465.0 / 4096.0, 3840.0 / 4096.0],
            [9500.0 / 4096.0, -9212.0 / 4096.0, -288.0 / 4096.0],
        ];
        Mats {
            to: PRIMARIES.map(rgb_xyz),
            from: PRIMARIES.map(xyz_rgb),
            lms,
            lms_inv: inv(&lms),
            ictcp: [pq, hlg],
            ictcp_inv: [inv(&pq), inv(&hlg)],
        }
    })
}

/// `merr`: absolute uncertainty of each matrix entry (constants stored as f32 / rounded decimals)
fn mul(m: &M3, v: [Iv; 3], merr: f64) -> [Iv; 3] {
    let slack = merr * (mag(v[0]) + mag(v[1]) + mag(v[2]));
    [0, 1, 2].map(|r| {
        v[0].mulf(m[r][0])
            .add(v[1].mulf(m[r][1]))
            .add(v[2].mulf(m[r][2]))
            .widen(slack)
    })
}

const MERR: f64 = 6e-7;

// ---- transfer functions, evaluated at a point with an error interval -------------------------

const PQ_M1: f64 = 2610.0 / 16384.0;
const PQ_M2: f64 = 2523.0 / 4096.0 * 128.0;
const PQ_C1: f64 = 3424.0 / 4096.0;
const PQ_C2: f64 = 2413.0 / 4096.0 * 32.0;
const PQ_C3: f64 = 2392.0 / 4096.0 * 32.0;
const HLG_A: f64 = 0.17883277;
const HLG_B: f64 = 0.28466892;
const HLG_C: f64 = 0.55991073;

fn near(x: f64, t: f64) -> bool {
    (x - t).abs() < 4e-7 * t
}

fn piece(x: f64, thr: f64, low: impl Fn(Iv) -> Iv, high: impl Fn(Iv) -> Iv) -> Iv {
    if near(x, thr) {
        low(pt(x)).hull(high(pt(x)))
    } else if x <= thr {
        low(pt(x))
    } else {
        high(pt(x))
    }
}

/// scaled (signal) -> linear at a point
pub fn to_linear_pt(t: Tr, x: f64) -> Iv {
    match t {
        Tr::Linear => pt(x),
        Tr::G22 => pt(x.max(0.0)).pow(2.2),
        Tr::G28 => pt(x.max(0.0)).pow(2.8),
        Tr::SRGB => piece(
            x,
            0.04045,
            |v| v.mulf(1.0 / 12.92),
            |v| v.addf(0.055).mulf(1.0 / 1.055).pow(2.4),
        ),
        Tr::SDR => {
            // BT.709/BT.601/BT.2020 curve. The two branches do not meet exactly for the rounded
            // constants, so either is accepted around the joint.
            let low = |v: Iv| v.mulf(1.0 / 4.5);
            let high = |v: Iv| v.addf(0.099).mulf(1.0 / 1.099).pow(1.0 / 0.45);
            if (0.0810..0.0815).contains(&x) {
                low(pt(x)).hull(high(pt(x)))
            } else if x < 0.0812 {
                low(pt(x))
            } else {
                high(pt(x))
            }
        }
        Tr::PQ => {
            let e = pt(x.clamp(0.0, 1.0)).pow(1.0 / PQ_M2);
            let a = e.addf(-PQ_C1).max0();
            let b = pt(PQ_C2).add(e.mulf(-PQ_C3));
            a.div(b).pow(1.0 / PQ_M1).mulf(10000.0)
        }
        Tr::HLG => {
            let x = x.max(0.0);
            piece(
                x,
                0.5,
                |v| v.pow(2.0).mulf(1.0 / 3.0),
                |v| {
                    let a = v.addf(-HLG_C).mulf(1.0 / HLG_A);
                    let ex = |a: f64, s: f64| a.exp() * (1.0 + s * (4e-7 * a.abs() + 5e-7));
                    Iv { lo: ex(a.lo, -1.0), hi: ex(a.hi, 1.0) }
                        .addf(HLG_B)
                        .mulf(1.0 / 12.0)
                },
            )
        }
    }
}

/// linear -> scaled (signal) at a point
pub fn to_scaled_pt(t: Tr, x: f64) -> Iv {
    match t {
        Tr::Linear => pt(x),
        Tr::G22 => pt(x.max(0.0)).pow(1.0 / 2.2),
        Tr::G28 => pt(x.max(0.0)).pow(1.0 / 2.8),
        Tr::SRGB => piece(
            x,
            0.0031308,
            |v| v.mulf(12.92),
            |v| v.pow(1.0 / 2.4).mulf(1.055).addf(-0.055),
        ),
        Tr::SDR => {
            let low = |v: Iv| v.mulf(4.5);
            let high = |v: Iv| v.pow(0.45).mulf(1.099).addf(-0.099);
            if (0.01799..0.01807).contains(&x) {
                low(pt(x)).hull(high(pt(x)))
            } else if x < 0.018 {
                low(pt(x))
            } else {
                high(pt(x))
            }
        }
        Tr::PQ => {
            let ym1 = pt(x.max(0.0)).mulf(1.0 / 10000.0).pow(PQ_M1);
            // (C1 + C2 y) / (1 + C3 y) is monotone in y: evaluate it at both ends
            let f = |y: f64| pt(y).mulf(PQ_C2).addf(PQ_C1).div(pt(y).mulf(PQ_C3).addf(1.0));
            let q = f(ym1.lo).hull(f(ym1.hi));
            q.pow(PQ_M2)
        }
        Tr::HLG => {
            let x = x.max(0.0);
            piece(
                x,
                1.0 / 12.0,
                |v| {
                    let r = v.mulf(3.0);
                    let s = Iv { lo: r.lo.max(0.0).sqrt(), hi: r.hi.sqrt() };
                    s.widen(E * mag(s))
                },
                |v| {
                    let a = v.mulf(12.0).addf(-HLG_B);
                    let l = |a: f64, s: f64| {
                        let l = a.max(1e-30).ln();
                        l + s * (3e-7 * l.abs() + 3e-7)
                    };
                    Iv { lo: l(a.lo, -1.0), hi: l(a.hi, 1.0) }
                        .mulf(HLG_A)
                        .addf(HLG_C)
                },
            )
        }
    }
}

/// Is the signal->linear function's slope/scale such that intervals stay meaningful? (always)
pub fn to_linear(t: Tr, v: Iv) -> Iv {
    if t == Tr::Linear {
        return v;
    }
    if v.lo == v.hi {
        return to_linear_pt(t, v.lo);
    }
    Iv { lo: to_linear_pt(t, v.lo).lo, hi: to_linear_pt(t, v.hi).hi }
}
pub fn to_scaled(t: Tr, v: Iv) -> Iv {
    if t == Tr::Linear {
        return v;
    }
    if v.lo == v.hi {
        return to_scaled_pt(t, v.lo);
    }
    Iv { lo: to_scaled_pt(t, v.lo).lo, hi: to_scaled_pt(t, v.hi).hi }
}

// ---- colour spaces ------------------------------------------------------------------------------

fn krkb(s: Sp) -> (f64, f64) {
    match s {
        Sp::BT601 => (0.299, 0.114),
        Sp::BT709 => (0.2126, 0.0722),
        _ => (0.2627, 0.0593),
    }
}

fn pi(p: Pr) -> usize {
    match p {
        Pr::ST240 => 0,
        Pr::BT709 => 1,
        Pr::BT2020 => 2,
    }
}

/// normalised Y in [0,1], U/V centred on 0
fn yuv_to_rgb(c: &Col, y: Iv, u: Iv, v: Iv) -> [Iv; 3] {
    if c.sp.is_matrix() {
        let (kr, kb) = krkb(c.sp);
        let kg = 1.0 - kr - kb;
        let r = y.add(v.mulf(2.0 * (1.0 - kr)));
        let b = y.add(u.mulf(2.0 * (1.0 - kb)));
        let g = y
            .add(v.mulf(-2.0 * kr * (1.0 - kr) / kg))
            .add(u.mulf(-2.0 * kb * (1.0 - kb) / kg));
        [r, g, b]
    } else {
        let m = mats();
        let k = (c.sp == Sp::HLG) as usize;
        let t = if k == 1 { Tr::HLG } else { Tr::PQ };
        let lms = mul(&m.ictcp_inv[k], [y, u, v], 1e-7).map(|x| to_linear(t, x));
        let xyz = mul(&m.lms_inv, lms, 1e-7);
        mul(&m.from[pi(c.pr)], xyz, MERR).map(|x| to_scaled(c.tr, x))
    }
}

fn rgb_to_yuv(c: &Col, rgb: [Iv; 3]) -> [Iv; 3] {
    if c.sp.is_matrix() {
        let (kr, kb) = krkb(c.sp);
        let kg = 1.0 - kr - kb;
        let [r, g, b] = rgb;
        let y = r.mulf(kr).add(g.mulf(kg)).add(b.mulf(kb));
        let u = r
            .mulf(-0.5 * kr / (1.0 - kb))
            .add(g.mulf(-0.5 * kg / (1.0 - kb)))
            .add(b.mulf(0.5));
        let v = r
            .mulf(0.5)
            .add(g.mulf(-0.5 * kg / (1.0 - kr)))
            .add(b.mulf(-0.5 * kb / (1.0 - kr)));
        [y, u, v]
    } else {
        let m = mats();
        let k = (c.sp == Sp::HLG) as usize;
        let t = if k == 1 { Tr::HLG } else { Tr::PQ };
        let lin = rgb.map(|x| to_linear(c.tr, x));
        let xyz = mul(&m.to[pi(c.pr)], lin, MERR);
        let lms = mul(&m.lms, xyz, 1e-7).map(|x| to_scaled(t, x));
        mul(&m.ictcp[k], lms, 1e-7)
    }
}

/// One 8-bit code step in units of the full code range (BT.2100 Table 9, H.273): the levels of 10 and
/// 12 bit are those of 8 bit times 2^(n - 8)
fn unit(f: Fmt) -> f64 {
    (1u32 << (f.bits() - 8)) as f64 / f.max() as f64
}

fn expand(f: Fmt, c: &Col, y: Iv, u: Iv, v: Iv) -> (Iv, Iv, Iv) {
    let k = unit(f);
    let zero = -128.0 * k;
    if c.full {
        (y, u.addf(zero), v.addf(zero))
    } else {
        let s = |x: Iv| x.addf(zero).mulf(1.0 / (224.0 * k));
        (y.addf(-16.0 * k).mulf(1.0 / (219.0 * k)), s(u), s(v))
    }
}
fn compress(f: Fmt, c: &Col, y: Iv, u: Iv, v: Iv) -> [Iv; 3] {
    let k = unit(f);
    let zero = 128.0 * k;
    if c.full {
        [y, u.addf(zero), v.addf(zero)]
    } else {
        let s = |x: Iv| x.mulf(224.0 * k).addf(zero);
        [y.mulf(219.0 * k).addf(16.0 * k), s(u), s(v)]
    }
}

/// Per-component intervals of the exact result (normalised, clamped to [0,1])
pub struct Ref {
    pub fmt: Fmt,
    pub w: usize,
    pub h: usize,
    pub c: Vec<Vec<Iv>>,
}

fn iv_px(p: &Planes, c: usize, x: usize, y: usize) -> Iv {
    pt(p.px(c, x, y) as f64 / p.fmt.max() as f64).mulf(1.0)
}

/// Reference conversion. `None` for colour info that does not fit a YUV format.
pub fn convert_ref(src: &Planes, sc: &Col, dfmt: Fmt, dc: &Col) -> Option<Ref> {
    if src.fmt == dfmt && sc.same(dc) {
        let m = dfmt.max() as f64;
        return Some(Ref {
            fmt: dfmt,
            w: src.w,
            h: src.h,
            c: src.c.iter().map(|c| c.iter().map(|v| pt(*v as f64 / m)).collect()).collect(),
        });
    }
    if (!src.fmt.is_rgb() && sc.rgb) || (!dfmt.is_rgb() && dc.rgb) {
        return None;
    }
    let (w, h) = (src.w, src.h);
    let zero = pt(0.0);
    let mut rgb: Vec<[Iv; 3]> = vec![[zero; 3]; w * h];
    let mut alpha = vec![pt(1.0); w * h];
    for y in 0..h {
        for x in 0..w {
            let i = y * w + x;
            let a = [0, 1, 2].map(|c| iv_px(src, c, x, y));
            rgb[i] = if src.fmt.is_rgb() {
                if src.fmt.has_alpha() {
                    alpha[i] = iv_px(src, 3, x, y);
                }
                a
            } else {
                let (yy, u, v) = expand(src.fmt, sc, a[0], a[1], a[2]);
                yuv_to_rgb(sc, yy, u, v)
            };
        }
    }
    if sc.tr != dc.tr || sc.pr != dc.pr {
        let m = mats();
        for p in rgb.iter_mut() {
            let lin = p.map(|x| to_linear(sc.tr, x));
            let out = if sc.pr == dc.pr {
                // the round trip through XYZ is the identity up to rounding
                let s = 3e-6 * (mag(lin[0]) + mag(lin[1]) + mag(lin[2]));
                lin.map(|v| v.widen(s))
            } else {
                mul(&m.from[pi(dc.pr)], mul(&m.to[pi(sc.pr)], lin, MERR), MERR)
            };
            *p = out.map(|x| to_scaled(dc.tr, x));
        }
    }
    let mut out = Ref { fmt: dfmt, w, h, c: vec![] };
    if dfmt.is_rgb() {
        for c in 0..3 {
            out.c.push(rgb.iter().map(|p| p[c].clamp01()).collect());
        }
        if dfmt.has_alpha() {
            out.c.push(alpha.iter().map(|p| p.clamp01()).collect());
        }
        return Some(out);
    }
    let yuv: Vec<[Iv; 3]> = rgb.iter().map(|p| rgb_to_yuv(dc, *p)).collect();
    out.c.push(vec![]);
    out.c.push(vec![]);
    out.c.push(vec![]);
    let (sx, sy) = dfmt.sub();
    let n = (sx * sy) as f64;
    for y in 0..h {
        for x in 0..w {
            let p = yuv[y * w + x];
            out.c[0].push(compress(dfmt, dc, p[0], zero, zero)[0].clamp01());
            if x % sx == 0 && y % sy == 0 {
                let mut s = [zero; 2];
                for dy in 0..sy {
                    for dx in 0..sx {
                        let q = yuv[(y + dy) * w + x + dx];
                        s = [s[0].add(q[1]), s[1].add(q[2])];
                    }
                }
                let k = compress(dfmt, dc, zero, s[0].mulf(1.0 / n), s[1].mulf(1.0 / n));
                out.c[1].push(k[1].clamp01());
                out.c[2].push(k[2].clamp01());
            }
        }
    }
    Some(out)
}

/// lowest and highest acceptable code
pub fn codes(iv: Iv, max: u16) -> (u16, u16) {
    let m = max as f64;
    let s = 1e-4 + m * 2e-7;
    let lo = (iv.lo * m + 0.5 - s).floor().clamp(0.0, m);
    let hi = (iv.hi * m + 0.5 + s).floor().clamp(0.0, m);
    // an exact tie may go either way
    (lo as u16, hi as u16)
}

impl Ref {
    /// Compare; returns first mismatch. Also returns how many samples had a unique accepted code.
    pub fn compare(&self, got: &Planes) -> Result<(u64, u64), String> {
        let max = self.fmt.max();
        let (mut exact, mut total) = (0, 0);
        for c in 0..self.fmt.ncomp() {
            let (cw, _) = self.fmt.comp_dims(c, self.w, self.h);
            for i in 0..self.c[c].len() {
                let (lo, hi) = codes(self.c[c][i], max);
                let g = got.c[c][i];
                total += 1;
                if lo == hi {
                    exact += 1;
                }
                if g < lo || g > hi {
                    let iv = self.c[c][i];
                    return Err(format!(
                        "component {} at ({}, {}): got {}, expected {} (exact value {:.4}..{:.4} of {})",
                        crate::img::comp_name(self.fmt, c),
                        i % cw,
                        i / cw,
                        g,
                        if lo == hi { format!("{lo}") } else { format!("{lo}..={hi}") },
                        iv.lo * max as f64,
                        iv.hi * max as f64,
                        max
                    ));
                }
            }
        }
        Ok((exact, total))
    }
}
