//! C14: resizing.

use crate::driver::*;
use crate::img::*;
use crate::spec::*;
use crate::strat::*;
use ezk_image::resize::{FilterType, ResizeAlg, ResizeError, Resizer};
use fir::PixelType;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    fmt: Fmt,
    sw: usize,
    sh: usize,
    dw: usize,
    dh: usize,
    content: Content,
    sl: Lay,
    dl: Lay,
    /// give the destination this format instead
    other: Option<Fmt>,
    col: Col,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rs {
    alg: (u8, u8, u8),
    steps: Vec<Step>,
    threads: u8,
}

const FILTERS: [FilterType; 7] = [
    FilterType::Box,
    FilterType::Bilinear,
    FilterType::Hamming,
    FilterType::CatmullRom,
    FilterType::Mitchell,
    FilterType::Gaussian,
    FilterType::Lanczos3,
];

fn alg(a: (u8, u8, u8)) -> ResizeAlg {
    let f = FILTERS[a.1 as usize % 7];
    match a.0 % 4 {
        0 => ResizeAlg::Nearest,
        1 => ResizeAlg::Convolution(f),
        2 => ResizeAlg::Interpolation(f),
        _ => ResizeAlg::SuperSampling(f, a.2 % 3 + 2),
    }
}

/// Resize one packed array of pixels.
fn fir_packed(data: &[u16], n: usize, bps: usize, sw: usize, sh: usize, dw: usize, dh: usize, a: ResizeAlg) -> Vec<u16> {
    if sw == 0 || sh == 0 || dw == 0 || dh == 0 {
        return vec![0; dw * dh * n];
    }
    let pt = match (n, bps) {
        (1, 1) => PixelType::U8,
        (2, 1) => PixelType::U8x2,
        (3, 1) => PixelType::U8x3,
        (4, 1) => PixelType::U8x4,
        _ => PixelType::U16,
    };
    let mut s = fir::images::Image::new(sw as u32, sh as u32, pt);
    for (i, v) in data.iter().enumerate() {
        if bps == 1 {
            s.buffer_mut()[i] = *v as u8;
        } else {
            s.buffer_mut()[2 * i..2 * i + 2].copy_from_slice(&v.to_ne_bytes());
        }
    }
    let mut d = fir::images::Image::new(dw as u32, dh as u32, pt);
    fir::Resizer::new()
        .resize(&s, &mut d, Some(&fir::ResizeOptions { algorithm: a, cropping: fir::SrcCropping::None, mul_div_alpha: false }))
        .unwrap();
    if bps == 1 {
        d.buffer().iter().map(|v| *v as u16).collect()
    } else {
        d.buffer().chunks(2).map(|c| u16::from_ne_bytes([c[0], c[1]])).collect()
    }
}

/// Component groups that are resampled together (interleaved in memory). Only rounding depends on
/// the grouping.
fn groups(f: Fmt) -> Vec<Vec<usize>> {
    match f {
        Fmt::NV12 => vec![vec![0], vec![1, 2]],
        f if f.is_rgb() => {
            let mut g: Vec<usize> = (0..f.ncomp()).collect();
            g.sort_by_key(|c| f.loc(*c, 0, 0).2);
            vec![g]
        }
        _ => vec![vec![0], vec![1], vec![2]],
    }
}

fn reference(p: &Planes, dw: usize, dh: usize, a: ResizeAlg) -> Planes {
    let f = p.fmt;
    let mut out = Planes::zero(f, dw, dh);
    for g in groups(f) {
        let (sw, sh) = f.comp_dims(g[0], p.w, p.h);
        let (tw, th) = f.comp_dims(g[0], dw, dh);
        let mut data = vec![];
        for i in 0..sw * sh {
            for c in &g {
                data.push(p.c[*c][i]);
            }
        }
        let r = fir_packed(&data, g.len(), f.bps(), sw, sh, tw, th, a);
        for i in 0..tw * th {
            for (k, c) in g.iter().enumerate() {
                // filters with negative lobes overshoot; samples stay inside the format's range
                out.c[*c][i] = r[i * g.len() + k].min(f.max());
            }
        }
    }
    out
}

/// what the crate does with YUYV today: whole Y U Y V groups as four-channel pixels
fn yuyv_pairs(p: &Planes, dw: usize, dh: usize, a: ResizeAlg) -> Planes {
    let (cw, ch) = (p.w / 2, p.h);
    let mut data = vec![];
    for y in 0..ch {
        for x in 0..cw {
            data.extend([p.at(0, 2 * x, y), p.at(1, x, y), p.at(0, 2 * x + 1, y), p.at(2, x, y)]);
        }
    }
    let r = fir_packed(&data, 4, 1, cw, ch, dw / 2, dh, a);
    let mut out = Planes::zero(p.fmt, dw, dh);
    for y in 0..dh {
        for x in 0..dw / 2 {
            let i = 4 * (y * (dw / 2) + x);
            out.set(0, 2 * x, y, r[i]);
            out.set(1, x, y, r[i + 1]);
            out.set(0, 2 * x + 1, y, r[i + 2]);
            out.set(2, x, y, r[i + 3]);
        }
    }
    out
}

fn unaligned16(b: &Built) -> bool {
    b.fmt.bps() == 2
        && (0..3).any(|p| {
            let (a, o) = b.base[p];
            b.strides[p] % 2 == 1 || (b.alloc[a].addr() + o) % 2 == 1
        })
}

fn c14_check(c: &Rs, cx: &mut Ctx) -> Result<(), Fail> {
    let a = alg(c.alg);
    let mut rz = Resizer::new(a);
    let mut proper = false;
    // a known deviation is reported last, so that it cannot hide another one
    let mut pending: Option<Fail> = None;
    for (n, s) in c.steps.iter().enumerate() {
        let df = s.other.unwrap_or(s.fmt);
        let p = s.content.fill(s.fmt, s.sw, s.sh);
        let mut src = Built::new(0, s.fmt, s.sw, s.sh, s.col.lib(), &s.sl.clone().aligned(s.fmt)).or_fail("build")?;
        src.put(&p);
        // colours are ignored: give the destination a different one
        let mut dst = Built::new(1, df, s.dw, s.dh, Col { tr: Tr::Linear, full: !s.col.full, ..s.col }.lib(), &s.dl.clone().aligned(df)).or_fail("build")?;
        let what = format!("step {n}: {a:?} {:?} {}x{} -> {}x{}", s.fmt, s.sw, s.sh, s.dw, s.dh);
        let una = unaligned16(&src) || unaligned16(&dst);
        let r = no_panic(|| super::convert::with_threads(c.threads as usize, || rz.resize(src.r(), dst.m())));
        let r = match r {
            Ok(r) => r,
            Err(p) if una && s.fmt == df => {
                pending = Some(Fail { sig: "unaligned-16bit".into(), msg: format!("{what}: 16-bit plane with an odd address or stride: {p}") });
                rz = Resizer::new(a);
                continue;
            }
            Err(p) => return fail("panic", format!("{what}: {p}")),
        };
        src.untouched().map_err(|e| Fail { sig: "source".into(), msg: format!("{what}: source modified: {e}") })?;
        if df != s.fmt {
            match r {
                Err(ResizeError::DifferentFormats(x, y)) if x == s.fmt.pf() && y == df.pf() => {}
                o => return fail("format-error", format!("{what} into {df:?}: got {o:?}")),
            }
            dst.untouched().map_err(|e| Fail { sig: "error-frame".into(), msg: format!("{what}: refused but {e}") })?;
            cx.label("different formats");
            continue;
        }
        if let Err(e) = r {
            return fail("refused", format!("{what}: {e}"));
        }
        dst.frame_ok().map_err(|e| Fail { sig: "frame".into(), msg: format!("{what}: {e}") })?;
        let got = dst.get();
        let mut want = reference(&p, s.dw, s.dh, a);
        for k in 0..s.fmt.ncomp() {
            // nothing to resample from (e.g. the chroma of a 1 pixel wide 4:2:0 image)
            if p.c[k].is_empty() {
                want.c[k] = got.c[k].clone();
            }
        }
        if let Some(e) = got.diff(&want, 0) {
            if s.fmt == Fmt::YUYV && got == yuyv_pairs(&p, s.dw, s.dh, a) {
                pending = Some(Fail { sig: "yuyv-luma-pairs".into(), msg: format!("{what}: {e} (got vs expected): the two luma samples of a group are resampled as if they were separate channels") });
            } else {
                return fail("value", format!("{what}: {e} (got vs expected)"));
            }
        }
        // independent of the resampling library:
        for k in 0..s.fmt.ncomp() {
            let (sw, sh) = s.fmt.comp_dims(k, s.sw, s.sh);
            let (tw, th) = s.fmt.comp_dims(k, s.dw, s.dh);
            if sw * sh * tw * th == 0 {
                continue;
            }
            let (lo, hi) = (*p.c[k].iter().min().unwrap(), *p.c[k].iter().max().unwrap());
            for y in 0..th {
                for x in 0..tw {
                    let g = got.at(k, x, y);
                    if lo == hi && g.abs_diff(lo) > 0 {
                        return fail("constant", format!("{what}: component {} is {lo} everywhere but became {g}", comp_name(s.fmt, k)));
                    }
                    let lobes = matches!(
                        a,
                        ResizeAlg::Convolution(FilterType::CatmullRom | FilterType::Mitchell | FilterType::Lanczos3)
                            | ResizeAlg::Interpolation(FilterType::CatmullRom | FilterType::Mitchell | FilterType::Lanczos3)
                            | ResizeAlg::SuperSampling(FilterType::CatmullRom | FilterType::Mitchell | FilterType::Lanczos3, _)
                    );
                    if !lobes && (g + 1 < lo || g > hi + 1) {
                        return fail("range", format!("{what}: component {} at ({x}, {y}) is {g}, outside the source's {lo}..={hi}", comp_name(s.fmt, k)));
                    }
                    if s.fmt != Fmt::YUYV && (s.sw, s.sh) == (s.dw, s.dh) && g != p.at(k, x, y) {
                        return fail("identity", format!("{what}: same size but component {} at ({x}, {y}) changed from {} to {g}", comp_name(s.fmt, k), p.at(k, x, y)));
                    }
                    if a == ResizeAlg::Nearest && s.fmt != Fmt::YUYV {
                        let cand = |i: usize, s: usize, t: usize| {
                            let q = (2 * i + 1) * s / (2 * t);
                            if (2 * i + 1) * s % (2 * t) == 0 {
                                vec![q.saturating_sub(1), q.min(s - 1)]
                            } else {
                                vec![q]
                            }
                        };
                        let ok = cand(y, sh, th).iter().any(|yy| cand(x, sw, tw).iter().any(|xx| p.at(k, *xx, *yy) == g));
                        if !ok {
                            return fail("nearest", format!("{what}: component {} at ({x}, {y}) is {g}, which is not the nearest source sample", comp_name(s.fmt, k)));
                        }
                    }
                }
            }
        }
        proper |= (s.sw, s.sh) != (s.dw, s.dh) && p.c.iter().any(|c| c.iter().any(|v| *v != c[0]));
        cx.label(format!("{:?}", s.fmt));
        cx.label(if una { "16-bit unaligned" } else { "ok" });
    }
    cx.nontrivial = proper;
    cx.label(match c.alg.0 % 4 {
        0 => "nearest",
        1 => "convolution",
        2 => "interpolation",
        _ => "supersampling",
    });
    cx.label(format!("{} uses of one resizer", c.steps.len()));
    match pending {
        Some(f) => Err(f),
        None => Ok(()),
    }
}

fn c14() -> BoxedStrategy<Rs> {
    let d = || prop_oneof![120 => (1usize..24).prop_map(|v| v * 2), 40 => 2usize..48, 20 => 1usize..4, 1 => 48usize..600];
    // one dimension doesn't fit into 16 bit; the intermediate image (as wide as one and as high as
    // the other) has to stay small
    let side = || prop_oneof![(65400usize..66000, 1usize..3), (1usize..40, 1usize..8)];
    let sizes = prop_oneof![
        600 => ((d(), d()), (d(), d())),
        1 => (side(), side(), any::<bool>()).prop_map(|(a, b, tall)| if tall { ((a.1, a.0), (b.1, b.0)) } else { (a, b) }),
    ];
    let step = (
        (fmt(), prop::bool::weighted(0.93), fmt(), prop::bool::weighted(0.1)),
        sizes,
        content(),
        (lay(), lay(), prop::bool::weighted(0.9)),
        col(sp()),
    )
        .prop_map(|((fmt, same, o, eq), ((mut sw, sh), (mut dw, mut dh)), content, (sl, dl, even), mut col)| {
            if !fmt.is_rgb() {
                col.rgb = false;
            }
            let other = (!same && o != fmt).then_some(o);
            if fmt == Fmt::YUYV || other == Some(Fmt::YUYV) {
                sw = sw.max(2) & !1;
                dw = dw.max(2) & !1;
            }
            if eq {
                dw = sw;
                dh = sh;
            }
            let (sl, dl) = if even { (sl.even16(fmt), dl.even16(fmt)) } else { (sl, dl) };
            Step { fmt, sw, sh, dw, dh, content, sl, dl, other, col }
        });
    ((any::<u8>(), any::<u8>(), any::<u8>()), prop::collection::vec(step, 1..4), 1u8..9)
        .prop_map(|(alg, steps, threads)| Rs { alg, steps, threads })
        .boxed()
}

pub fn entries() -> Vec<Entry> {
    vec![entry("C14", 130000, 2600000,
        "1-3 resizes with one Resizer, random algorithm, filter, formats, sizes, layouts and content; each compared sample by sample with resampling packed copies of the components, plus range, constancy, identity and nearest-neighbour rules; non-trivial: size changes and the source varies",
        c14(), c14_check)]
}
