//! Colour correctness: C01 matrix spaces, C02 ICtCp, C03 transfer/primaries, C04 scalar API,
//! C16 alpha, C17 range, C18 neutrality.

use crate::driver::*;
use crate::img::*;
use crate::refmodel::*;
use crate::spec::*;
use crate::strat::*;
use ezk_image::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn run_conv(c: &Conv) -> Result<(Built, Built, Planes), Fail> {
    let (s, mut d, p) = c.build().or_fail("build")?;
    convert(s.r(), d.m()).or_fail("convert-error")?;
    Ok((s, d, p))
}

fn varied(p: &Planes) -> bool {
    p.c.iter().any(|c| c.iter().any(|v| *v != c[0]))
}

fn ref_check(c: &Conv, cx: &mut Ctx) -> Result<(), Fail> {
    let (_s, d, p) = run_conv(c)?;
    let r = convert_ref(&p, &c.sc, c.dst, &c.dc).expect("valid colour info");
    let got = d.get();
    let (ex, tot) = r.compare(&got).map_err(|e| Fail {
        sig: "value".into(),
        msg: format!(
            "{:?} {:?} -> {:?} {:?}, {}x{}: {e}",
            c.src, c.sc, c.dst, c.dc, c.w, c.h
        ),
    })?;
    cx.nontrivial = varied(&p) && !c.is_copy();
    cx.label(format!("{:?}->{:?}", c.src, c.dst));
    cx.label(if c.w >= 16 { "simd+tail" } else { "scalar-only width" });
    cx.count("samples compared", tot);
    cx.count("samples with a single acceptable code", ex);
    Ok(())
}

fn c01() -> BoxedStrategy<Conv> {
    // same transfer and primaries on both sides, luma/chroma matrices only
    let cols = (col(sp_matrix()), sp_matrix(), any::<bool>(), any::<bool>())
        .prop_map(|(a, sp, full, rgb)| (a, Col { sp, full, rgb, ..a }))
        .boxed();
    let pair = prop_oneof![
        3 => (yuv_fmt(), rgb_fmt()),
        3 => (rgb_fmt(), yuv_fmt()),
        3 => (yuv_fmt(), yuv_fmt()),
    ];
    (pair, cols, dims(), content(), lay_light(), lay_light())
        .prop_map(|((src, dst), (sc, dc), (w, h), content, sl, dl)| {
            Conv { src, dst, sc, dc, w, h, content, sl, dl }.fix()
        })
        .boxed()
}

fn c02() -> BoxedStrategy<Conv> {
    let ic = || prop::sample::select(&SPACES[3..]).boxed();
    let cols = (col(ic()), col(sp()), col(sp_matrix()), 0u8..5)
        .prop_map(|(a, b, m, k)| match k {
            // ICtCp source
            0 => (a, Col { tr: a.tr, pr: a.pr, ..m }),
            // ICtCp destination
            1 => (Col { tr: a.tr, pr: a.pr, ..m }, a),
            2 => (a, b),
            3 => (b, a),
            _ => (a, Col { full: !a.full, rgb: b.rgb, ..a }),
        })
        .boxed();
    let pair = prop_oneof![
        4 => (yuv_fmt(), rgb_fmt(), Just(0u8)),
        4 => (rgb_fmt(), yuv_fmt(), Just(1u8)),
        3 => (yuv_fmt(), yuv_fmt(), Just(2u8)),
    ];
    (pair, cols, dims(), content(), lay_light(), lay_light())
        .prop_map(|((src, dst, side), (mut sc, mut dc), (w, h), content, sl, dl)| {
            // put the ICtCp info on the YUV side
            if side == 0 && sc.sp.is_matrix() {
                std::mem::swap(&mut sc, &mut dc);
            }
            if side == 1 && dc.sp.is_matrix() {
                std::mem::swap(&mut sc, &mut dc);
            }
            Conv { src, dst, sc, dc, w: w.min(64), h: h.min(6), content, sl, dl }.fix()
        })
        .boxed()
}

fn c03() -> BoxedStrategy<Conv> {
    let cols = (col(sp_matrix()), col(sp_matrix()), 0u8..4)
        .prop_map(|(a, b, k)| match k {
            0 => (a, Col { tr: a.tr, ..b }),
            1 => (a, Col { pr: a.pr, ..b }),
            _ => (a, b),
        })
        .boxed();
    let pair = prop_oneof![
        3 => (rgb_fmt(), rgb_fmt()),
        2 => (yuv_fmt(), rgb_fmt()),
        2 => (rgb_fmt(), yuv_fmt()),
        2 => (yuv_fmt(), yuv_fmt()),
    ];
    (pair, cols, dims(), content(), lay_light(), lay_light())
        .prop_map(|((src, dst), (sc, dc), (w, h), content, sl, dl)| {
            Conv { src, dst, sc, dc, w: w.min(64), h: h.min(6), content, sl, dl }.fix()
        })
        .boxed()
}

// ---- C04 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scalar {
    tr: Tr,
    pr: Pr,
    seed: u32,
    kind: u8,
    x: f64,
}

fn c04_check(c: &Scalar, cx: &mut Ctx) -> Result<(), Fail> {
    let t = c.tr.lib();
    let top = if c.tr == Tr::PQ { 10000.0 } else { 1.0 };
    let mut rng = Rng(c.seed as u64);
    let mut xs = vec![c.x];
    for _ in 0..64 {
        let u = rng.unit();
        xs.push(match c.kind {
            0 => u,
            1 => u * u * u * u,           // dark end
            2 => 1.0 - u * u * u * 1e-2,  // near white
            3 => 10f64.powf(-9.0 * u),
            4 => u * 2.0 - 0.5,           // beyond the nominal range on both sides
            _ => (u * 4095.0).round() / 4095.0,
        });
    }
    for &u in &xs {
        // forward
        let lin = (u * top) as f32;
        let got = t.linear_to_scaled(lin) as f64;
        let iv = to_scaled_pt(c.tr, lin as f64);
        let slack = 2e-6 * (1.0 + got.abs());
        if !(got >= iv.lo - slack && got <= iv.hi + slack) {
            return fail("linear_to_scaled", format!("{:?}.linear_to_scaled({lin}) = {got}, standard says {:.7}..{:.7}", c.tr, iv.lo, iv.hi));
        }
        // backward
        let sc = u as f32;
        let got = t.scaled_to_linear(sc) as f64;
        let iv = to_linear_pt(c.tr, sc as f64);
        let slack = 2e-6 * (got.abs() + if c.tr == Tr::PQ { 1e-2 } else { 1.0 });
        if !(got >= iv.lo - slack && got <= iv.hi + slack) {
            return fail("scaled_to_linear", format!("{:?}.scaled_to_linear({sc}) = {got}, standard says {:.7}..{:.7}", c.tr, iv.lo, iv.hi));
        }
        // inverse both ways, inside the nominal range
        if (0.0..=1.0).contains(&u) {
            let rt = t.linear_to_scaled(t.scaled_to_linear(u as f32)) as f64;
            if (rt - u).abs() > 3e-5 + if c.tr == Tr::SDR { 3.0e-4 * ((0.0810..0.0818).contains(&u) as u8 as f64) } else { 0.0 } {
                return fail("inverse", format!("{:?}: signal {u} -> linear -> signal gives {rt}", c.tr));
            }
        }
    }
    // monotone in both directions
    let mut ys: Vec<f32> = xs.iter().map(|x| x.clamp(0.0, 1.0) as f32).collect();
    ys.sort_by(f32::total_cmp);
    for w in ys.windows(2) {
        let (a, b) = (t.scaled_to_linear(w[0]), t.scaled_to_linear(w[1]));
        // the rounded constants of the SDR curve leave a gap between its two branches
        let gap = if c.tr == Tr::SDR && w[0] < 0.0816 && w[1] > 0.0810 { 6e-5 } else { 0.0 };
        if !(a <= b + gap + 1e-6 * b.abs().max(1e-6) * 20.0) {
            return fail("monotone", format!("{:?}.scaled_to_linear not monotone: f({})={a} > f({})={b}", c.tr, w[0], w[1]));
        }
        let top = top as f32;
        let (a, b) = (t.linear_to_scaled(w[0] * top), t.linear_to_scaled(w[1] * top));
        if !(a <= b + 2e-5) {
            return fail("monotone", format!("{:?}.linear_to_scaled not monotone at {} / {}", c.tr, w[0], w[1]));
        }
    }
    // end points
    for (got, want) in [
        (t.scaled_to_linear(0.0) as f64, 0.0),
        (t.scaled_to_linear(1.0) as f64 / top, 1.0),
        (t.linear_to_scaled(0.0) as f64, 0.0),
        (t.linear_to_scaled(top as f32) as f64, 1.0),
    ] {
        if (got - want).abs() > 1e-4 {
            return fail("endpoints", format!("{:?}: end point maps to {got}, expected {want}", c.tr));
        }
    }
    // primaries: published chromaticities; the two matrices are each other's inverse
    let p = c.pr.lib();
    let (to, from) = (p.rgb_to_xyz_mat(), p.xyz_to_rgb_mat());
    let (rt, rf) = (rgb_xyz(c.pr), xyz_rgb(c.pr));
    for i in 0..3 {
        for j in 0..3 {
            // the crate stores them transposed: [input][output]
            if (to[j][i] as f64 - rt[i][j]).abs() > 3e-6 || (from[j][i] as f64 - rf[i][j]).abs() > 3e-6 {
                return fail("primaries", format!("{:?}: matrix entry [{j}][{i}] is {} / {}, chromaticities give {} / {}", c.pr, to[j][i], from[j][i], rt[i][j], rf[i][j]));
            }
        }
    }
    for &u in xs.iter().take(20) {
        let rgb = [u as f32, rng.unit() as f32, rng.unit() as f32];
        let f = |m: &[[f32; 3]; 3], v: [f32; 3]| [0, 1, 2].map(|o| v[0] * m[0][o] + v[1] * m[1][o] + v[2] * m[2][o]);
        let back = f(from, f(to, rgb));
        for k in 0..3 {
            if (back[k] - rgb[k]).abs() > 1e-5 {
                return fail("primaries-inverse", format!("{:?}: RGB {rgb:?} -> XYZ -> RGB gives {back:?}", c.pr));
            }
        }
    }
    cx.nontrivial = true;
    cx.label(format!("{:?}", c.tr));
    cx.count("points evaluated", xs.len() as u64);
    Ok(())
}

fn c04() -> BoxedStrategy<Scalar> {
    (tr(), pr(), any::<u32>(), 0u8..6, 0.0f64..1.0)
        .prop_map(|(tr, pr, seed, kind, x)| Scalar { tr, pr, seed, kind, x })
        .boxed()
}

// ---- C16 alpha -----------------------------------------------------------------------------------

fn c16_check(c: &Conv, cx: &mut Ctx) -> Result<(), Fail> {
    let (s, d, p) = run_conv(c)?;
    let got = d.get();
    if c.dst.has_alpha() {
        for y in 0..c.h {
            for x in 0..c.w {
                let want = if c.src.has_alpha() { p.at(3, x, y) } else { 255 };
                let a = got.at(3, x, y);
                if a != want {
                    return fail("alpha", format!("{:?} {:?} -> {:?} {:?}: alpha at ({x}, {y}) is {a}, expected {want}", c.src, c.sc, c.dst, c.dc));
                }
            }
        }
    }
    if c.src.has_alpha() {
        // colour does not depend on alpha: change every alpha and convert again
        let mut q = p.clone();
        let mut rng = Rng(c.content.seed as u64 + 77);
        for a in &mut q.c[3] {
            *a = (rng.next() & 255) as u16;
        }
        let mut s = s;
        s.put(&q);
        let mut d2 = Built::new(2, c.dst, c.w, c.h, c.dc.lib(), &c.dl).or_fail("build")?;
        convert(s.r(), d2.m()).or_fail("convert-error")?;
        let g2 = d2.get();
        for k in 0..3 {
            if g2.c[k] != got.c[k] {
                return fail("alpha-leak", format!("{:?} -> {:?}: component {} changed when only alpha changed", c.src, c.dst, comp_name(c.dst, k)));
            }
        }
    }
    cx.nontrivial = c.src.has_alpha() || c.dst.has_alpha();
    cx.label(match (c.src.has_alpha(), c.dst.has_alpha()) {
        (true, true) => "kept",
        (true, false) => "dropped",
        (false, true) => "made opaque",
        _ => "none",
    });
    Ok(())
}

fn c16() -> BoxedStrategy<Conv> {
    let a = || prop::sample::select(&RGBS[..2]).boxed();
    let pair = prop_oneof![
        3 => (a(), a()),
        2 => (a(), fmt()),
        2 => (fmt(), a()),
    ];
    (pair, cols_any(), dims(), content(), lay_light(), lay_light())
        .prop_map(|((src, dst), (sc, dc), (w, h), content, sl, dl)| Conv { src, dst, sc, dc, w, h, content, sl, dl }.fix())
        .boxed()
}

// ---- C17 code range ------------------------------------------------------------------------------

fn c17_check(c: &Conv, cx: &mut Ctx) -> Result<(), Fail> {
    let (_s, d, p) = run_conv(c)?;
    let got = d.get();
    let max = c.dst.max();
    for (k, comp) in got.c.iter().enumerate() {
        if let Some(i) = comp.iter().position(|v| *v > max) {
            return fail("range", format!("{:?} {:?} -> {:?} {:?}: component {} sample {i} is {}, above the {}-bit maximum {max}", c.src, c.sc, c.dst, c.dc, comp_name(c.dst, k), comp[i], c.dst.bits()));
        }
    }
    // what lies surely beyond either end of the range sits exactly at that end
    let mut sat = 0;
    if !c.content.over {
        let r = convert_ref(&p, &c.sc, c.dst, &c.dc).expect("valid colour info");
        for (k, comp) in got.c.iter().enumerate() {
            for (i, v) in comp.iter().enumerate() {
                let (lo, hi) = codes(r.c[k][i], max);
                if lo == hi && (lo == 0 || lo == max) {
                    sat += 1;
                    if *v != lo {
                        return fail("saturation", format!("{:?} {:?} -> {:?} {:?}: component {} sample {i} is {v}, its exact value saturates at {lo}", c.src, c.sc, c.dst, c.dc, comp_name(c.dst, k)));
                    }
                }
            }
        }
    } else {
        cx.label("source samples above the nominal maximum");
    }
    cx.count("saturated samples", sat);
    cx.nontrivial = varied(&p);
    let clipped = got.c.iter().any(|c| c.iter().any(|v| *v == max));
    cx.label(if clipped { "clipped" } else { "not clipped" });
    Ok(())
}

fn c17() -> BoxedStrategy<Conv> {
    let hi = || prop::sample::select(vec![Fmt::I010, Fmt::I012, Fmt::I210, Fmt::I212, Fmt::I410, Fmt::I412]).boxed();
    let wild = (
        prop_oneof![Just(4u8), Just(5), Just(6), Just(7)],
        any::<u32>(),
        prop::array::uniform4(any::<u16>()),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(kind, seed, v, over)| Content { kind, seed, v, over });
    (fmt(), hi(), cols_any(), dims(), wild, lay_light(), lay_light())
        .prop_map(|(src, dst, (sc, dc), (w, h), content, sl, dl)| {
            let mut c = Conv { src, dst, sc, dc, w, h, content, sl, dl }.fix();
            if c.is_copy() {
                c.dc.full = !c.dc.full;
            }
            c
        })
        .boxed()
}

// ---- C18 neutrality ------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grey {
    conv: Conv,
    v: u16,
    perm: u8,
}

fn c18_check(g: &Grey, cx: &mut Ctx) -> Result<(), Fail> {
    let c = &g.conv;
    // (1) A neutral source gives a neutral result, whatever the two colour descriptions are.
    let max = c.src.max();
    let v = (g.v as u32 % (max as u32 + 1)) as u16;
    let mut p = Planes::zero(c.src, c.w, c.h);
    let mut rng = Rng(c.content.seed as u64);
    // code of analog level `l` (in 8-bit codes, limited range) or of the full range's ends
    let unit = |f: Fmt| (1u32 << (f.bits() - 8)) as f64;
    let level = |f: Fmt, full: bool, l: f64| -> f64 {
        match (f.is_rgb() || full, l == 16.0) {
            (true, true) => 0.0,
            (true, false) => f.max() as f64,
            (false, _) => l * unit(f),
        }
    };
    for y in 0..c.h {
        for x in 0..c.w {
            let val = if g.perm & 1 == 0 { v } else { (rng.next() % (max as u64 + 1)) as u16 };
            let val = match rng.next() % 16 {
                0 => level(c.src, c.sc.full, 16.0) as u16,
                1 => level(c.src, c.sc.full, 235.0) as u16,
                _ => val,
            };
            for k in 0..if c.src.is_rgb() { 3 } else { 1 } {
                p.set(k, x, y, val);
            }
            if c.src.has_alpha() {
                p.set(3, x, y, 255);
            }
        }
    }
    if !c.src.is_rgb() {
        for k in 1..3 {
            p.c[k].fill(128 * unit(c.src) as u16);
        }
    }
    let analog = |v: u16| {
        let (lo, hi) = (level(c.src, c.sc.full, 16.0), level(c.src, c.sc.full, 235.0));
        (v as f64 - lo) / (hi - lo)
    };
    let mut s = Built::new(0, c.src, c.w, c.h, c.sc.lib(), &c.sl).or_fail("build")?;
    s.put(&p);
    let mut d = Built::new(1, c.dst, c.w, c.h, c.dc.lib(), &c.dl).or_fail("build")?;
    convert(s.r(), d.m()).or_fail("convert-error")?;
    let got = d.get();
    // Next to black the slope of the encoding curves is huge, and rounding errors of the decoded chroma
    // show: there the deviation only counts if it is outside the error interval of the exact result.
    let within = |p: &Planes, got: &Planes, comps: std::ops::Range<usize>| -> bool {
        let Some(r) = convert_ref(p, &c.sc, c.dst, &c.dc) else { return false };
        comps.into_iter().all(|k| {
            r.c[k].iter().zip(&got.c[k]).all(|(iv, g)| {
                let (lo, hi) = codes(*iv, c.dst.max());
                (lo..=hi).contains(g)
            })
        })
    };
    if c.dst.is_rgb() {
        for y in 0..c.h {
            for x in 0..c.w {
                let (r, gg, b) = (got.at(0, x, y), got.at(1, x, y), got.at(2, x, y));
                // a value half way between two codes may be rounded either way
                let tie = ((analog(p.at(0, x, y)) * 255.0).rem_euclid(1.0) - 0.5).abs() < 1e-3;
                let tol = if c.needs_tp() || tie { 1 } else { 0 };
                if (r.abs_diff(gg) > tol || b.abs_diff(gg) > tol) && !(c.needs_tp() && within(&p, &got, 0..3)) {
                    return fail("neutral", format!("grey {} became ({r}, {gg}, {b}) in {:?} {:?} -> {:?} {:?}", p.at(0, x, y), c.src, c.sc, c.dst, c.dc));
                }
            }
        }
    } else {
        let want = 128.0 * unit(c.dst);
        // ICtCp's published LMS matrices map D65 white to neutral only approximately
        let tol = if c.dc.sp.is_matrix() { 0.51 + if c.needs_tp() { c.dst.max() as f64 * 2e-4 } else { 0.0 } } else { 0.6 + c.dst.max() as f64 * 4e-3 };
        // PQ light is absolute (1.0 = 1 cd/m2): converted to a relative transfer, grey can be far
        // above 1.0 and chroma is the rounding error of a difference of such numbers
        let bright = to_scaled(c.dc.tr, to_linear(c.sc.tr, pt(1.0))).hi.max(1.0);
        let tol = tol + if bright > 2.0 { c.dst.max() as f64 * bright * 1.5e-6 } else { 0.0 };
        for k in 1..3 {
            for (i, v) in got.c[k].iter().enumerate() {
                if (*v as f64 - want).abs() > tol && !(c.needs_tp() && within(&p, &got, 1..3)) {
                    return fail("neutral", format!("grey source gives {} = {v} at sample {i}, neutral is {want:.2} ({:?} {:?} -> {:?} {:?})", comp_name(c.dst, k), c.src, c.sc, c.dst, c.dc));
                }
            }
        }
    }
    // (2) black and white reach the nominal black and white codes
    let (lo, hi) = (level(c.dst, c.dc.full, 16.0), level(c.dst, c.dc.full, 235.0));
    let (black, white) = (level(c.src, c.sc.full, 16.0) as u16, level(c.src, c.sc.full, 235.0) as u16);
    let same_white = (c.sc.tr == Tr::PQ) == (c.dc.tr == Tr::PQ)
        && (c.dst.is_rgb() || c.dc.sp.is_matrix() || ((c.dc.sp == Sp::PQ) == (c.dc.tr == Tr::PQ)));
    let m = c.dst.max() as f64;
    let tol = 0.51 + m * if c.dst.is_rgb() || c.dc.sp.is_matrix() { 5e-4 } else { 2e-3 };
    for y in 0..c.h {
        for x in 0..c.w {
            for k in 0..if c.dst.is_rgb() { 3 } else { 1 } {
                let o = got.at(k, x, y) as f64;
                match p.at(0, x, y) {
                    z if z == black && (o - lo).abs() > tol && !(c.needs_tp() && within(&p, &got, 0..1)) => {
                        return fail("black", format!("black became {o} (expected {lo:.1}) {:?} {:?} -> {:?} {:?}", c.src, c.sc, c.dst, c.dc))
                    }
                    z if z == white && same_white && (o - hi).abs() > tol => {
                        return fail("white", format!("white became {o} (expected {hi:.1}) {:?} {:?} -> {:?} {:?}", c.src, c.sc, c.dst, c.dc))
                    }
                    _ => {}
                }
            }
        }
    }
    // (3) brighter grey is never darker
    let mut pairs: Vec<(u16, u16)> = vec![];
    for y in 0..c.h {
        for x in 0..c.w {
            pairs.push((p.at(0, x, y), got.at(0, x, y)));
        }
    }
    pairs.sort();
    let slack = if c.linear_only() { 0 } else { 1 };
    for w in pairs.windows(2) {
        if w[1].0 > w[0].0 && w[1].1 + slack < w[0].1 {
            return fail("monotone", format!("grey {} -> {} but brighter grey {} -> {} ({:?} {:?} -> {:?} {:?})", w[0].0, w[0].1, w[1].0, w[1].1, c.src, c.sc, c.dst, c.dc));
        }
    }
    cx.nontrivial = true;
    cx.label(format!("{:?}->{:?}", c.src, c.dst));
    cx.label(if c.linear_only() { "plain arithmetic" } else { "transfer functions" });
    Ok(())
}

fn c18() -> BoxedStrategy<Grey> {
    (
        prop_oneof![
            3 => conv_with(rgb_fmt(), fmt(), cols_any(), lay_light, content()),
            2 => conv_with(fmt(), fmt(), cols_any(), lay_light, content()),
        ],
        prop_oneof![1 => Just(0u16), 1 => Just(255u16), 3 => any::<u16>()],
        0u8..4,
        0usize..3,
    )
        .prop_map(|(mut conv, v, perm, sp)| {
            // D65 grey is neutral in ICtCp only approximately (published LMS matrices)
            if !conv.src.is_rgb() && !conv.sc.sp.is_matrix() {
                conv.sc.sp = [Sp::BT601, Sp::BT709, Sp::BT2020][sp];
            }
            Grey { conv, v, perm }
        })
        .boxed()
}

pub fn entries() -> Vec<Entry> {
    vec![
        entry("C01", 1000000, 20000000,
            "random pixels, sizes, layouts, format pairs and matrix/range settings with equal transfer and primaries; every output sample is compared with an f64 interval reference; non-trivial: at least one component of the source varies and the conversion is not a plain copy",
            c01(), ref_check),
        entry("C02", 400000, 8000000,
            "random conversions with ICtCp (PQ or HLG) on at least one side; every output sample is compared with an f64 interval reference; non-trivial: source varies",
            c02(), ref_check),
        entry("C03", 600000, 12000000,
            "random conversions between different transfer functions and/or primaries; every output sample is compared with an f64 interval reference; non-trivial: source varies",
            c03(), ref_check),
        entry("C04", 1500000, 30000000,
            "65 random arguments per case for one transfer function, drawn uniformly, at the dark end, near white, logarithmically, outside the nominal range or on 12-bit codes, compared with the standards' formulas; every case is non-trivial",
            c04(), c04_check),
        entry("C16", 900000, 18000000,
            "random conversions with an alpha format on at least one side; non-trivial: always",
            c16(), c16_check),
        entry("C17", 500000, 10000000,
            "random conversions into 10/12-bit formats with saturated, extreme and random sources; non-trivial: source varies and it is no plain copy",
            c17(), c17_check),
        entry("C18", 1000000, 20000000,
            "grey images (constant or per-pixel random grey) converted between random formats/colours; chroma neutrality, black/white points and monotonicity; every case is non-trivial",
            c18(), c18_check),
    ]
}
