//! Images and layouts: C11 cropping, C12 construction, C15 size and plane arithmetic.

use super::convert::sufficient;
use crate::buf::GBuf;
use crate::driver::*;
use crate::img::*;
use crate::spec::*;
use crate::strat::*;
use ezk_image::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Forwards to a trait object (`Cropped` wants a sized image).
struct View<'a>(&'a mut dyn ImageMut);
unsafe impl ImageRef for View<'_> {
    fn format(&self) -> PixelFormat {
        self.0.format()
    }
    fn width(&self) -> usize {
        self.0.width()
    }
    fn height(&self) -> usize {
        self.0.height()
    }
    fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
        self.0.planes()
    }
    fn color(&self) -> ColorInfo {
        self.0.color()
    }
}
unsafe impl ImageMut for View<'_> {
    fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
        self.0.planes_mut()
    }
}

/// Read one sample through the planes an image exposes.
pub fn read(fmt: Fmt, planes: &[(&[u8], usize)], c: usize, x: usize, y: usize) -> Option<u16> {
    let (p, row, off) = fmt.loc(c, x, y);
    let (s, stride) = planes.get(p)?;
    let o = row * stride + off;
    if fmt.bps() == 2 {
        Some(u16::from_ne_bytes([*s.get(o)?, *s.get(o + 1)?]))
    } else {
        Some(*s.get(o)? as u16)
    }
}

// ---- C11 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Win {
    /// 0 inside, 1 touching the right/bottom edge, 2 whole, 3 empty, 4 one off the edge, 5 far out,
    /// 6 near the integer limit
    kind: u8,
    r: [u16; 4],
    align: bool,
}

impl Win {
    fn get(&self, w: usize, h: usize, fmt: Fmt) -> Window {
        let pick = |r: u16, n: usize| r as usize * (n + 1) >> 16;
        let (sx, sy) = if self.align { fmt.sub() } else { (1, 1) };
        let mut x = pick(self.r[0], w) / sx * sx;
        let mut y = pick(self.r[1], h) / sy * sy;
        let mut ww = pick(self.r[2], w - x);
        let mut hh = pick(self.r[3], h - y);
        match self.kind {
            0 => {}
            1 => {
                ww = w - x;
                hh = h - y;
            }
            2 => {
                x = 0;
                y = 0;
                ww = w;
                hh = h;
            }
            3 => {
                if self.r[2] & 1 == 0 {
                    ww = 0
                }
                if self.r[2] & 2 == 0 {
                    hh = 0
                }
            }
            4 => {
                if self.r[2] & 1 == 0 {
                    ww = w - x + 1;
                } else {
                    hh = h - y + 1;
                }
            }
            5 => {
                x += self.r[2] as usize;
                y += self.r[3] as usize;
            }
            _ => {
                let big = usize::MAX - (self.r[0] % 5) as usize;
                match self.r[1] % 8 {
                    0 => x = big,
                    1 => y = big,
                    2 => ww = big,
                    3 => hh = big,
                    4 => {
                        x = big;
                        ww = 2;
                    }
                    5 => {
                        y = big;
                        hh = 2;
                    }
                    6 => {
                        ww = usize::MAX - x + 1 + (self.r[0] % 3) as usize;
                    }
                    _ => {
                        hh = (usize::MAX - y).wrapping_add(1 + (self.r[0] % 3) as usize);
                    }
                }
            }
        }
        Window { x, y, width: ww, height: hh }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crop {
    fmt: Fmt,
    w: usize,
    h: usize,
    col: Col,
    content: Content,
    lay: Lay,
    wins: Vec<Win>,
}

fn fits(w: usize, h: usize, win: &Window) -> bool {
    (win.x as u128 + win.width as u128) <= w as u128 && (win.y as u128 + win.height as u128) <= h as u128
}

/// Compare what a view exposes with the parent's samples.
fn view_matches(c: &Crop, p: &Planes, v: &dyn ImageRef, x0: usize, y0: usize, exact: bool, what: &str) -> Result<(), Fail> {
    let planes: Vec<(&[u8], usize)> = v.planes().collect();
    if planes.len() != c.fmt.nplanes() {
        return fail("view", format!("{what}: the view has {} planes", planes.len()));
    }
    let (w, h) = (v.width(), v.height());
    for k in 0..c.fmt.ncomp() {
        let (cw, ch) = c.fmt.comp_dims(k, w, h);
        let (sx, sy) = if k == 0 || c.fmt.is_rgb() { (1, 1) } else { c.fmt.sub() };
        let (pw, ph) = c.fmt.comp_dims(k, p.w, p.h);
        for y in 0..ch {
            for x in 0..cw {
                let (px, py) = (x0 / sx + x, y0 / sy + y);
                let got = match read(c.fmt, &planes, k, x, y) {
                    Some(g) => g,
                    None => return fail("view-short", format!("{what}: component {} at ({x}, {y}) lies outside the exposed plane", comp_name(c.fmt, k))),
                };
                let strict = exact || (sx == 1 && sy == 1);
                let near = |d: usize, m: usize, s: usize| -> std::ops::RangeInclusive<usize> {
                    if s == 1 {
                        d..=d
                    } else {
                        d.saturating_sub(1)..=(d + 1).min(m - 1)
                    }
                };
                let ok = if strict {
                    p.at(k, px, py) == got
                } else {
                    near(py, ph, sy).any(|yy| near(px, pw, sx).any(|xx| p.at(k, xx, yy) == got))
                };
                if !ok {
                    let sig = if c.fmt == Fmt::YUYV && yuyv_odd(p, &planes, w, h, x0, y0) { "yuyv-odd-x" } else { "view-sample" };
                    return fail(sig, format!("{what}: component {} at ({x}, {y}) is {got}, the parent's sample there is {}", comp_name(c.fmt, k), p.at(k, px.min(pw - 1), py.min(ph - 1))));
                }
            }
        }
    }
    Ok(())
}

/// Exactly the known behaviour: a YUYV view at odd x starts in the middle of a Y U Y V group, so
/// its luma is right and its chroma is the parent's with U and V in each other's place.
fn yuyv_odd(p: &Planes, planes: &[(&[u8], usize)], w: usize, h: usize, x0: usize, y0: usize) -> bool {
    x0 % 2 == 1
        && (0..h).all(|y| {
            (0..w).all(|x| read(Fmt::YUYV, planes, 0, x, y) == Some(p.at(0, x0 + x, y0 + y)))
                && (0..w / 2).all(|x| {
                    let (u, v) = (read(Fmt::YUYV, planes, 1, x, y), read(Fmt::YUYV, planes, 2, x, y));
                    // an odd wide image ends with half a group that has no chroma samples of its own
                    let is = |g: Option<u16>, k: usize, i: usize| i >= p.w / 2 && g.is_some() || i < p.w / 2 && g == Some(p.at(k, i, y0 + y));
                    is(u, 2, x0 / 2 + x) && is(v, 1, x0 / 2 + x + 1)
                })
        })
}

fn c11_check(c: &Crop, cx: &mut Ctx) -> Result<(), Fail> {
    let p = c.content.fill(c.fmt, c.w, c.h);
    let mut b = Built::new(0, c.fmt, c.w, c.h, c.col.lib(), &c.lay).or_fail("build")?;
    b.put(&p);
    let col = c.col.lib();
    let w0 = c.wins[0].get(c.w, c.h, c.fmt);
    let what = format!("{:?} {}x{} cropped to {w0:?}", c.fmt, c.w, c.h);
    let strides = b.strides.clone();
    let view = View(&mut *b.img);
    let r = no_panic(|| view.crop(w0)).map_err(|p| Fail { sig: "panic".into(), msg: format!("{what}: {p}") })?;
    let ok = fits(c.w, c.h, &w0);
    let mut outer = match (r, ok) {
        (Ok(v), true) => v,
        (Err(CropError::WindowSizeOutOfBounds), false) => {
            cx.label("refused");
            cx.nontrivial = true;
            b.untouched().or_fail("refused-write")?;
            return Ok(());
        }
        (Ok(_), false) => return fail("accepts", format!("{what}: accepted although it leaves the image")),
        (Err(e), _) => return fail("refuses", format!("{what}: {e}")),
    };
    let (sx, sy) = c.fmt.sub();
    let al = |w: &Window| w.x % sx == 0 && w.y % sy == 0;
    let meta = |v: &dyn ImageRef, w: &Window| -> Result<(), Fail> {
        if v.width() != w.width || v.height() != w.height || v.format() != c.fmt.pf() || v.color() != col {
            return fail("meta", format!("{what}: view reports {}x{} {:?} {:?}", v.width(), v.height(), v.format(), v.color()));
        }
        if let Err(e) = v.bounds_check() {
            return fail("view-bounds", format!("{what}: the view fails its own bounds check: {e}"));
        }
        for (i, (_, s)) in v.planes().enumerate() {
            if s != strides[i] {
                return fail("meta", format!("{what}: stride of plane {i} is {s}, the parent's is {}", strides[i]));
            }
        }
        Ok(())
    };
    no_panic(|| {
        meta(&outer, &w0)?;
        view_matches(c, &p, &outer, w0.x, w0.y, al(&w0), &what)
    })
    .map_err(|p| Fail { sig: "panic".into(), msg: format!("{what}: reading the view: {p}") })??;

    // writing through the view changes exactly the window's samples of the parent
    let exact = al(&w0);
    let mut q = p.clone();
    {
        let (vw, vh) = (w0.width, w0.height);
        let mut rng = Rng(c.content.seed as u64 ^ 99);
        let mut pl: Vec<(&mut [u8], usize)> = no_panic(|| outer.planes_mut().collect()).map_err(|p| Fail { sig: "panic".into(), msg: format!("{what}: planes_mut: {p}") })?;
        if exact {
            for k in 0..c.fmt.ncomp() {
                let (cw, ch) = c.fmt.comp_dims(k, vw, vh);
                let (sx, sy) = if k == 0 || c.fmt.is_rgb() { (1, 1) } else { c.fmt.sub() };
                for y in 0..ch {
                    for x in 0..cw {
                        let nv = (rng.next() % (c.fmt.max() as u64 + 1)) as u16;
                        let (pi, row, off) = c.fmt.loc(k, x, y);
                        let o = row * pl[pi].1 + off;
                        let n = c.fmt.bps();
                        let Some(slot) = pl[pi].0.get_mut(o..o + n) else {
                            return fail("view-short", format!("{what}: mutable plane {pi} ends before sample ({x}, {y})"));
                        };
                        slot.copy_from_slice(&nv.to_ne_bytes()[..n]);
                        q.set(k, x + w0.x / sx, y + w0.y / sy, nv);
                    }
                }
            }
        }
    }

    // a crop of the crop is the composed window
    if c.wins.len() > 1 {
        let w1 = c.wins[1].get(w0.width, w0.height, c.fmt);
        let what = format!("{what}, then {w1:?}");
        let r = no_panic(|| Cropped::new(&outer, w1)).map_err(|p| Fail { sig: "panic".into(), msg: format!("{what}: {p}") })?;
        match (r, fits(w0.width, w0.height, &w1)) {
            (Ok(v), true) => {
                no_panic(|| {
                    meta(&v, &w1)?;
                    view_matches(c, &q, &v, w0.x + w1.x, w0.y + w1.y, al(&w0) && al(&w1), &what)
                })
                .map_err(|p| Fail { sig: "panic".into(), msg: format!("{what}: reading the view: {p}") })??;
                cx.label("nested");
            }
            (Err(CropError::WindowSizeOutOfBounds), false) => cx.label("nested refused"),
            (Ok(_), false) => return fail("accepts", format!("{what}: accepted although it leaves the outer window")),
            (Err(e), _) => return fail("refuses", format!("{what}: {e}")),
        }
    }
    let inner = outer.into_inner();
    if inner.width() != c.w || inner.height() != c.h {
        return fail("into_inner", format!("{what}: into_inner does not return the parent"));
    }
    if exact {
        if let Some(e) = b.get().diff(&q, 0) {
            return fail("write", format!("{what}: writing through the view: {e} (parent vs expected)"));
        }
        b.frame_ok().map_err(|e| Fail { sig: "write".into(), msg: format!("{what}: writing through the view: {e}") })?;
    }
    cx.nontrivial = w0.width > 0 && w0.height > 0 && (w0.width, w0.height) != (c.w, c.h);
    cx.label(if exact { "on the chroma grid" } else { "off the chroma grid" });
    cx.label(format!("{:?}", c.fmt));
    if w0.x > 0 && w0.y + w0.height == c.h && w0.height > 0 {
        cx.label("bottom edge with x > 0");
    }
    Ok(())
}

fn c11() -> BoxedStrategy<Crop> {
    let win = || {
        (
            prop_oneof![5 => Just(0u8), 4 => Just(1), 1 => Just(2), 1 => Just(3), 1 => Just(4), 1 => Just(5), 1 => Just(6)],
            prop::array::uniform4(any::<u16>()),
            prop::bool::weighted(0.75),
        )
            .prop_map(|(kind, r, align)| Win { kind, r, align })
    };
    (
        fmt(),
        prop_oneof![120 => (1usize..24).prop_map(|v| v * 2), 30 => 1usize..40, 1 => 40usize..3000],
        prop_oneof![120 => (1usize..12).prop_map(|v| v * 2), 30 => 1usize..24, 1 => 24usize..600],
        col(sp()),
        (any::<u32>(), prop::array::uniform4(any::<u16>())).prop_map(|(seed, v)| Content { kind: 5, seed, v, over: false }),
        lay(),
        prop::collection::vec(win(), 1..3),
    )
        .prop_map(|(fmt, w, h, col, content, mut lay, wins)| {
            lay.crop = [0; 4];
            lay.nest = false;
            Crop { fmt, w, h, col, content, lay, wins }
        })
        .boxed()
}

// ---- C12 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ctor {
    fmt: Fmt,
    w: usize,
    h: usize,
    col: Col,
    split: bool,
    /// None: let the crate choose. Otherwise additions to the packed stride.
    strides: Option<Vec<i16>>,
    /// 0 exact, 1 one byte less, 2 generous, 3 fraction, 4 empty, 5 without the last row's padding
    len: u8,
    which: u8,
    frac: u16,
    nplanes: u8,
    owner: u8,
    seed: u32,
    /// not 0: a size or stride near the integer limits
    #[serde(default)]
    limit: u8,
}

/// Sizes and strides near the integer limits: nearly always too much for the memory given, which
/// must be refused, not panic.
fn c12_limit(c: &Ctor, cx: &mut Ctx) -> Result<(), Fail> {
    let f = c.fmt;
    let np = f.nplanes();
    let k = c.limit;
    let (mut w, mut h) = (c.w, c.h);
    match k % 4 {
        1 => w = super::convert::limit(k / 4, 1),
        2 => h = super::convert::limit(k / 4, w),
        _ => {}
    }
    let small = |p: usize| f.row_bytes(p, c.w) * f.rows(p, c.h);
    let mut strides: Vec<usize> = (0..np).map(|p| big_row(f, p, w).min(usize::MAX as u128) as usize).collect();
    let given = c.strides.is_some() || k % 4 == 0 || k % 4 == 3;
    if given && k % 4 != 1 {
        let p = c.which as usize % np;
        strides[p] = super::convert::limit(k / 4, big_rows(f, p, h) as usize);
    }
    let arg = given.then(|| strides.clone());
    let full = |p: usize| strides[p] as u128 * big_rows(f, p, h);
    let last = |p: usize| if big_rows(f, p, h) == 0 { 0 } else { strides[p] as u128 * (big_rows(f, p, h) - 1) + big_row(f, p, w) };
    let what = format!("{:?} {w}x{h} strides {arg:?}", f);
    let col = c.col.lib();
    let (r, expect) = if c.split {
        let lens: Vec<usize> = (0..np).map(|p| small(p) + c.frac as usize % 4).collect();
        let ps: Vec<_> = lens.iter().copied().zip(strides.iter().copied()).collect();
        let b = lens.iter().map(|l| vec![0u8; *l]).collect();
        (no_panic(|| Image::from_planes(f.pf(), b, arg, w, h, col)), sufficient(f, &ps, w, h))
    } else {
        let len = (0..np).map(small).sum::<usize>() + c.frac as usize % 4;
        let mut off = 0u128;
        let mut fit = true;
        for p in 0..np {
            let left = (len as u128).saturating_sub(off);
            fit &= strides[p] as u128 >= big_row(f, p, w) && left >= last(p);
            off += full(p);
        }
        let e = if !fit { Some(false) } else if off <= len as u128 { Some(true) } else { None };
        (no_panic(|| Image::from_buffer(f.pf(), vec![0u8; len], arg, w, h, col)), e)
    };
    let r = r.map_err(|p| Fail { sig: "panic".into(), msg: format!("{what}: {p}") })?;
    match (&r, w == 0 || h == 0) {
        (Err(ImageError::InvalidDimensions), true) | (Err(ImageError::BoundsCheck(_)), false) => {}
        (Err(e), _) => return fail("error-kind", format!("{what}: refused with {e}")),
        (Ok(_), true) => return fail("zero", format!("{what}: accepted")),
        (Ok(_), false) if expect == Some(false) => return fail("accepts", format!("{what}: accepted although the memory does not suffice")),
        _ => {}
    }
    if w != 0 && h != 0 && r.is_err() && expect == Some(true) {
        return fail("refuses", format!("{what}: refused sufficient memory"));
    }
    cx.nontrivial = true;
    cx.label("near the integer limits");
    Ok(())
}

fn c12_check(c: &Ctor, cx: &mut Ctx) -> Result<(), Fail> {
    if c.limit != 0 {
        return c12_limit(c, cx);
    }
    let f = c.fmt;
    let np = f.nplanes();
    let strides: Vec<usize> = match &c.strides {
        None => (0..np).map(|p| f.row_bytes(p, c.w)).collect(),
        Some(v) => v
            .iter()
            .enumerate()
            .map(|(i, d)| (f.row_bytes(i.min(np - 1), c.w) as i64 + *d as i64).max(0) as usize)
            .collect(),
    };
    let arg = c.strides.as_ref().map(|_| strides.clone());
    let st = |p: usize| strides.get(p).copied().unwrap_or(0);
    let full = |p: usize| st(p) * f.rows(p, c.h);
    let last = |p: usize| {
        let r = f.rows(p, c.h);
        if r == 0 {
            0
        } else {
            st(p) * (r - 1) + f.row_bytes(p, c.w).min(st(p))
        }
    };
    let adj = |full: usize, last: usize| match c.len {
        0 => full,
        1 => full.saturating_sub(1),
        2 => full + c.frac as usize % 700,
        3 => (full + 4) * c.frac as usize >> 16,
        4 => 0,
        _ => last,
    };
    let mut rng = Rng(c.seed as u64);
    let mut fillv = |n: usize| -> Vec<u8> { (0..n).map(|_| rng.next() as u8).collect() };
    let col = c.col.lib();
    let what = format!("{c:?}");
    // what each plane will be able to see: (len, stride)
    let (expect, bytes, offs): (Option<bool>, Vec<Vec<u8>>, Vec<(usize, usize)>);
    if c.split {
        let n = c.nplanes as usize;
        let which = c.which as usize % np;
        let lens: Vec<usize> = (0..n)
            .map(|p| {
                let p2 = p.min(np - 1);
                if p == which {
                    adj(full(p2), last(p2))
                } else {
                    full(p2)
                }
            })
            .collect();
        bytes = lens.iter().map(|l| fillv(*l)).collect();
        offs = (0..n).map(|p| (p, 0)).collect();
        let ps: Vec<(usize, usize)> = lens.iter().copied().zip(strides.iter().copied()).collect();
        expect = sufficient(f, &ps, c.w, c.h);
    } else {
        let total: usize = (0..np).map(full).sum();
        let allbut: usize = (0..np - 1).map(full).sum();
        let len = adj(total, allbut + last(np - 1));
        bytes = vec![fillv(len)];
        let mut o = 0;
        offs = (0..np)
            .map(|p| {
                let r = (0, o);
                o += full(p);
                r
            })
            .collect();
        // what is left of the buffer for each plane, planes being laid out one after the other
        let fits = (0..np).all(|p| {
            let o: usize = (0..p).map(full).sum();
            full(p).min(len.saturating_sub(o)) >= last(p)
        });
        expect = if strides.len() < np || (0..np).any(|p| st(p) < f.row_bytes(p, c.w)) || !fits {
            Some(false)
        } else if len < total {
            None
        } else {
            Some(true)
        };
    }
    let zero = c.w == 0 || c.h == 0;
    // superfluous strides: either answer is fine
    let expect = if strides.len() > np && expect == Some(true) { None } else { expect };

    fn inspect<S: AsRef<[u8]>>(c: &Ctor, i: &Image<S>, col: ColorInfo, strides: &[usize], bytes: &[Vec<u8>], offs: &[(usize, usize)]) -> Result<(), Fail>
    where
        Image<S>: ImageRef,
    {
        let f = c.fmt;
        let what = format!("{c:?}");
        if i.format() != f.pf() || i.width() != c.w || i.height() != c.h || i.color() != col {
            return fail("meta", format!("{what}: image reports {:?} {}x{} {:?}", i.format(), i.width(), i.height(), i.color()));
        }
        let (tr, pr) = match col {
            ColorInfo::RGB(c) => (c.transfer, c.primaries),
            ColorInfo::YUV(c) => (c.transfer, c.primaries),
        };
        if i.color().transfer() != tr || i.color().primaries() != pr {
            return fail("meta", format!("{what}: the color's transfer and primaries are {:?} and {:?}", i.color().transfer(), i.color().primaries()));
        }
        let same = match col {
            ColorInfo::RGB(c) => ColorInfo::from(c),
            ColorInfo::YUV(c) => ColorInfo::from(c),
        };
        if same != col {
            return fail("meta", format!("{what}: From gives {same:?} for {col:?}"));
        }
        if let Err(e) = i.bounds_check() {
            return fail("accepted-but-unfit", format!("{what}: accepted, but fails its bounds check: {e}"));
        }
        let planes: Vec<(&[u8], usize)> = i.planes().collect();
        if planes.len() < f.nplanes() {
            return fail("planes", format!("{what}: only {} planes", planes.len()));
        }
        for p in 0..f.nplanes() {
            if planes[p].1 != strides[p] {
                return fail("planes", format!("{what}: plane {p} has stride {}", planes[p].1));
            }
        }
        for k in 0..f.ncomp() {
            let (cw, ch) = f.comp_dims(k, c.w, c.h);
            for y in 0..ch {
                for x in 0..cw {
                    let (p, row, off) = f.loc(k, x, y);
                    let (b, o) = offs[p];
                    let o = o + row * strides[p] + off;
                    let want = if f.bps() == 2 { u16::from_ne_bytes([bytes[b][o], bytes[b][o + 1]]) } else { bytes[b][o] as u16 };
                    let got = read(f, &planes, k, x, y);
                    if got != Some(want) {
                        return fail("sample", format!("{what}: component {} at ({x}, {y}) reads {got:?}, the buffer has {want}", comp_name(f, k)));
                    }
                }
            }
        }
        Ok(())
    }

    macro_rules! go {
        ($conv:expr) => {{
            let mut store: Vec<Vec<u8>> = bytes.clone();
            let _ = &mut store;
            let r = no_panic(|| {
                if c.split {
                    Image::from_planes(f.pf(), store.iter_mut().map($conv).collect(), arg.clone(), c.w, c.h, col)
                } else {
                    Image::from_buffer(f.pf(), $conv(&mut store[0]), arg.clone(), c.w, c.h, col)
                }
            })
            .map_err(|p| Fail { sig: "panic".into(), msg: format!("{what}: {p}") })?;
            match r {
                Ok(i) => {
                    if zero {
                        return fail("zero", format!("{what}: accepted"));
                    }
                    if expect == Some(false) {
                        return fail("accepts", format!("{what}: accepted although the memory does not suffice"));
                    }
                    no_panic(|| inspect(c, &i, col, &strides, &bytes, &offs)).map_err(|p| Fail { sig: "panic".into(), msg: format!("{what}: using the image: {p}") })??;
                    true
                }
                Err(e) => {
                    match (&e, zero) {
                        (ImageError::InvalidDimensions, true) => {}
                        (ImageError::BoundsCheck(_), false) => {}
                        _ => return fail("error-kind", format!("{what}: refused with {e}")),
                    }
                    if !zero && expect == Some(true) {
                        return fail("refuses", format!("{what}: refused sufficient memory: {e}"));
                    }
                    false
                }
            }
        }};
    }
    let accepted = match c.owner {
        0 => go!(|b: &mut Vec<u8>| b.clone()),
        1 => go!(|b: &mut Vec<u8>| -> &[u8] {
            let s: &[u8] = unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) };
            s
        }),
        _ => go!(|b: &mut Vec<u8>| b.clone().into_boxed_slice()),
    };
    // the mutable side agrees
    if accepted {
        let r = no_panic(|| {
            let mut i = if c.split {
                Image::from_planes(f.pf(), bytes.clone(), arg.clone(), c.w, c.h, col)
            } else {
                Image::from_buffer(f.pf(), bytes[0].clone(), arg.clone(), c.w, c.h, col)
            }
            .unwrap();
            let a: Vec<(usize, usize, usize)> = i.planes().map(|(s, t)| (s.as_ptr() as usize, s.len(), t)).collect();
            let b: Vec<(usize, usize, usize)> = i.planes_mut().map(|(s, t)| (s.as_ptr() as usize, s.len(), t)).collect();
            a == b
        })
        .map_err(|p| Fail { sig: "panic".into(), msg: format!("{what}: using the image: {p}") })?;
        if !r {
            return fail("planes", format!("{what}: planes and planes_mut disagree"));
        }
    }
    // blank
    if !zero && c.seed % 4 == 0 {
        let i = no_panic(|| Image::blank(f.pf(), c.w, c.h, col)).map_err(|p| Fail { sig: "panic".into(), msg: format!("blank {what}: {p}") })?;
        if i.width() != c.w || i.height() != c.h || i.format() != f.pf() || i.color() != col || i.bounds_check().is_err() {
            return fail("blank", format!("{what}: blank image is malformed"));
        }
        let mut sum = 0usize;
        for (p, (s, st)) in i.planes().enumerate() {
            if st != f.row_bytes(p, c.w) || s.len() != st * f.rows(p, c.h) || s.iter().any(|b| *b != 0) {
                return fail("blank", format!("{what}: blank plane {p} has {} bytes, stride {st}", s.len()));
            }
            sum += s.len();
        }
        let _ = sum;
    }
    cx.nontrivial = !zero && (c.strides.is_some() || c.len != 0 || c.split);
    cx.label(if accepted { "accepted" } else { "refused" });
    cx.label(match expect {
        Some(true) => "sufficient",
        Some(false) => "insufficient",
        None => "only the last row's padding missing",
    });
    Ok(())
}

fn c12() -> BoxedStrategy<Ctor> {
    let d = || prop_oneof![10 => Just(0usize), 80 => (1usize..20).prop_map(|v| v * 2), 40 => 1usize..40, 1 => 40usize..3000];
    let e = || prop_oneof![10 => Just(0usize), 80 => (1usize..8).prop_map(|v| v * 2), 40 => 1usize..16, 1 => 16usize..600];
    let st = prop_oneof![
        4 => Just(None),
        5 => prop::collection::vec(0i16..50, 3..4).prop_map(Some),
        2 => prop::collection::vec(prop_oneof![3 => 0i16..40, 1 => -6i16..0, 1 => Just(-1i16), 1 => Just(1000i16)], 3..4).prop_map(Some),
        2 => prop::collection::vec(0i16..40, 0..5).prop_map(Some),
    ];
    (
        (fmt(), d(), e(), col(sp())),
        any::<bool>(),
        (st, prop::bool::weighted(0.85)),
        prop_oneof![5 => Just(0u8), 2 => Just(1), 3 => Just(2), 2 => Just(3), 1 => Just(4), 2 => Just(5)],
        (any::<u8>(), any::<u16>(), prop_oneof![6 => Just(9u8), 1 => 0u8..5], 0u8..3, any::<u32>()),
        prop_oneof![20 => Just(0u8), 1 => any::<u8>()],
    )
        .prop_map(|((fmt, w, h, mut col), split, (mut strides, fixn), len, (which, frac, np, owner, seed), limit)| {
            if !fmt.is_rgb() {
                col.rgb = false;
            }
            if fixn {
                if let Some(s) = &mut strides {
                    s.resize(fmt.nplanes(), 3);
                }
            }
            let nplanes = if np == 9 { fmt.nplanes() as u8 } else { np };
            Ctor { fmt, w, h, col, split, strides, len, which, frac, nplanes, owner, seed, limit }
        })
        .boxed()
}

// ---- C15 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Arith {
    fmt: Fmt,
    w: usize,
    h: usize,
    pad: [u16; 3],
    extra: u16,
    explicit: bool,
    /// magnitude of an additional overflow probe
    big: (u8, u8, u16, u16),
    /// one plane made unfit for bounds_check
    flaw: u8,
    which: u8,
}

fn named(f: Fmt, b: &[u8], w: usize, h: usize, st: Option<&[usize]>) -> Option<Vec<(usize, usize)>> {
    fn d<const N: usize>(a: [&[u8]; N]) -> Option<Vec<(usize, usize)>> {
        Some(a.iter().map(|s| (s.as_ptr() as usize, s.len())).collect())
    }
    match f {
        Fmt::I420 => d(infer_i420(b, w, h, st)),
        Fmt::I422 => d(infer_i422(b, w, h, st)),
        Fmt::I444 => d(infer_i444(b, w, h, st)),
        Fmt::I010 | Fmt::I012 => d(infer_i01x(b, w, h, st)),
        Fmt::I210 | Fmt::I212 => d(infer_i21x(b, w, h, st)),
        Fmt::I410 | Fmt::I412 => d(infer_i41x(b, w, h, st)),
        Fmt::NV12 => d(infer_nv12(b, w, h, st)),
        _ => None,
    }
}

fn c15_check(c: &Arith, cx: &mut Ctx) -> Result<(), Fail> {
    let f = c.fmt;
    let np = f.nplanes();
    let pf = f.pf();
    let what = format!("{f:?} {}x{}", c.w, c.h);
    // sizes and strides
    let size: usize = (0..np).map(|p| f.row_bytes(p, c.w) * f.rows(p, c.h)).sum();
    let got = no_panic(|| pf.buffer_size(c.w, c.h)).map_err(|p| Fail { sig: "panic".into(), msg: format!("{what}: {p}") })?;
    if got != size {
        return fail("buffer_size", format!("{what}: buffer_size is {got}, the planes take {size} bytes"));
    }
    let st: Vec<usize> = (0..np).map(|p| f.row_bytes(p, c.w)).collect();
    let got = pf.packed_strides(c.w);
    if got != st {
        return fail("packed_strides", format!("{what}: packed_strides is {got:?}, expected {st:?}"));
    }
    if pf.bits_per_component() as u32 != f.bits() {
        return fail("bits", format!("{f:?}: bits_per_component is {}", pf.bits_per_component()));
    }
    let all: Vec<PixelFormat> = PixelFormat::variants().into_iter().collect();
    if all.len() != ALL.len() || !ALL.iter().all(|f| all.contains(&f.pf())) {
        return fail("variants", format!("variants() lists {all:?}"));
    }
    // no wrapped sizes: near the integer limit the answer is exact or there is none
    let (a, b, x, y) = c.big;
    let bw = (1usize << (a % 63)).wrapping_add(x as usize);
    let bh = (1usize << (b % 63)).wrapping_add(y as usize);
    let exact: u128 = (0..np).map(|p| big_row(f, p, bw) * big_rows(f, p, bh)).sum();
    if let Ok(got) = no_panic(|| pf.buffer_size(bw, bh)) {
        if got as u128 != exact {
            return fail("overflow", format!("{f:?} {bw}x{bh}: buffer_size is {got}, exact value {exact}"));
        }
    } else if exact <= usize::MAX as u128 {
        return fail("overflow", format!("{f:?} {bw}x{bh}: buffer_size panics although {exact} fits"));
    }
    // bounds_check must not accept because of a wrapped product
    let tiny = [0u8; 64];
    if exact > 64 * 4 {
        if let Ok(Ok(())) = no_panic(|| {
            let st: Vec<usize> = (0..np).map(|p| big_row(f, p, bw).min(usize::MAX as u128) as usize).collect();
            pf.bounds_check(st.iter().map(|s| (&tiny[..], *s)), bw, bh)
        }) {
            return fail("overflow", format!("{f:?}: bounds_check accepts 64-byte planes for {bw}x{bh}"));
        }
    }

    // splitting a buffer into planes: in order, adjacent, each rows * stride long
    let strides: Vec<usize> = (0..np).map(|p| st[p] + if c.explicit { c.pad[p] as usize } else { 0 }).collect();
    let lens: Vec<usize> = (0..np).map(|p| strides[p] * f.rows(p, c.h)).collect();
    let total: usize = lens.iter().sum();
    let len = total + c.extra as usize;
    let g = GBuf::new(0, len, true, 0);
    let arg = c.explicit.then_some(&strides[..]);
    let base = g.addr();
    let planes: Vec<(usize, usize)> = no_panic(|| infer(pf, g.get(), c.w, c.h, arg).map(|s| (s.as_ptr() as usize, s.len())).collect())
        .map_err(|p| Fail { sig: "panic".into(), msg: format!("infer {what} strides {strides:?} len {len}: {p}") })?;
    let mutp: Vec<(usize, usize)> = infer(pf, g.get_mut(), c.w, c.h, arg).map(|s| (s.as_ptr() as usize, s.len())).collect();
    if planes != mutp {
        return fail("infer", format!("{what}: infer on &[u8] and &mut [u8] disagree"));
    }
    if planes.len() != np {
        return fail("infer", format!("{what}: infer gives {} planes", planes.len()));
    }
    if let Some(n) = named(f, g.get(), c.w, c.h, arg) {
        if n != planes {
            return fail("infer", format!("{what}: the format's own infer function disagrees with infer"));
        }
    }
    let mut off = 0;
    for p in 0..np {
        let (a, l) = planes[p];
        if np > 1 && (a != base + off || l != lens[p]) && !(l == 0 && lens[p] == 0) {
            return fail("infer", format!("{what} strides {strides:?}: plane {p} is {l} bytes at {}, expected {} at {off}", a.wrapping_sub(base), lens[p]));
        }
        if np == 1 && (a != base || l < lens[0]) {
            return fail("infer", format!("{what}: plane is {l} bytes at {}", a.wrapping_sub(base)));
        }
        off += lens[p];
    }
    // too small: the documented panic for planar formats, never a short or overlapping plane
    if np > 1 && total > 0 {
        let cut = 1 + c.extra as usize % total;
        let s = &g.get()[..total - cut];
        if let Ok(p) = no_panic(|| infer(pf, s, c.w, c.h, arg).map(|s| s.len()).collect::<Vec<_>>()) {
            return fail("infer-short", format!("{what}: infer on a buffer {cut} bytes too short gives planes of {p:?}"));
        }
    }
    // bounds_check
    let which = c.which as usize % np;
    let mut ps: Vec<(&[u8], usize)> = vec![];
    let mut o = 0;
    for p in 0..np {
        ps.push((&g.get()[o..o + lens[p]], strides[p]));
        o += lens[p];
    }
    let flaw = c.flaw % 6;
    match flaw {
        1 => ps[which].1 = st[which].saturating_sub(1 + c.pad[0] as usize % 3),
        2 => {
            let l = lens[which];
            let need = if f.rows(which, c.h) == 0 { 0 } else { strides[which] * (f.rows(which, c.h) - 1) + st[which] };
            ps[which].0 = &ps[which].0[..need.saturating_sub(1 + c.extra as usize % 3).min(l)];
        }
        3 => ps.truncate(which),
        4 => ps.push((&tiny, 7)),
        _ => {}
    }
    let suff = sufficient(f, &ps.iter().map(|p| (p.0.len(), p.1)).collect::<Vec<_>>(), c.w, c.h);
    let r = no_panic(|| pf.bounds_check(ps.iter().copied(), c.w, c.h)).map_err(|p| Fail { sig: "panic".into(), msg: format!("bounds_check {what}: {p}") })?;
    match (&r, suff) {
        (Ok(()), Some(false)) => return fail("bounds_check", format!("{what}: accepts planes {:?}", ps.iter().map(|p| (p.0.len(), p.1)).collect::<Vec<_>>())),
        (Err(e), Some(true)) => return fail("bounds_check", format!("{what}: refuses sufficient planes: {e}")),
        (Err(BoundsCheckError::InvalidNumberOfPlanes(e)), _) if e.expected != np || e.got != ps.len() => {
            return fail("bounds_check", format!("{what}: error says {e}, there are {} of {np}", ps.len()))
        }
        (Err(BoundsCheckError::InvalidNumberOfPlanes(_)), _) if ps.len() >= np => {
            return fail("bounds_check", format!("{what}: complains about the plane count"))
        }
        (Err(BoundsCheckError::InvalidStride { plane, minimum, got }), _)
            if *plane >= np || *minimum != st[*plane] || *got != ps[*plane].1 || got >= minimum =>
        {
            return fail("bounds_check", format!("{what}: error details wrong: plane {plane} minimum {minimum} got {got}"))
        }
        (Err(BoundsCheckError::InvalidPlaneSize { plane, minimum, got }), _)
            if *plane >= np || *got != ps[*plane].0.len() || got >= minimum || *minimum > ps[*plane].1 * f.rows(*plane, c.h) =>
        {
            return fail("bounds_check", format!("{what}: error details wrong: plane {plane} minimum {minimum} got {got}"))
        }
        _ => {}
    }
    cx.nontrivial = c.w > 0 && c.h > 0;
    cx.label(format!("{f:?}"));
    cx.label(if exact > usize::MAX as u128 { "size overflows" } else { "size fits" });
    cx.label(if r.is_ok() { "bounds_check ok" } else { "bounds_check refuses" });
    Ok(())
}

pub fn big_row(f: Fmt, p: usize, w: usize) -> u128 {
    let w = w as u128;
    match f {
        Fmt::NV12 => w,
        Fmt::YUYV => w * 2,
        Fmt::RGBA | Fmt::BGRA => w * 4,
        Fmt::RGB | Fmt::BGR => w * 3,
        _ => {
            if p == 0 {
                w * f.bps() as u128
            } else {
                w / f.sub().0 as u128 * f.bps() as u128
            }
        }
    }
}
pub fn big_rows(f: Fmt, p: usize, h: usize) -> u128 {
    if p == 0 {
        h as u128
    } else {
        (h / f.sub().1) as u128
    }
}

fn c15() -> BoxedStrategy<Arith> {
    let d = || prop_oneof![10 => Just(0usize), 60 => (1usize..100).prop_map(|v| v * 2), 30 => 1usize..200, 1 => 200usize..5000];
    (
        fmt(),
        d(),
        prop_oneof![10 => Just(0usize), 60 => (1usize..30).prop_map(|v| v * 2), 30 => 1usize..60, 1 => 60usize..700],
        prop::array::uniform3(prop_oneof![1 => Just(0u16), 2 => 0u16..20, 1 => 0u16..300]),
        prop_oneof![1 => Just(0u16), 1 => 1u16..2000],
        any::<bool>(),
        (any::<u8>(), any::<u8>(), prop_oneof![Just(0u16), any::<u16>()], prop_oneof![Just(0u16), any::<u16>()]),
        any::<u8>(),
        any::<u8>(),
    )
        .prop_map(|(fmt, w, h, pad, extra, explicit, big, flaw, which)| Arith { fmt, w, h, pad, extra, explicit, big, flaw, which })
        .boxed()
}

pub fn entries() -> Vec<Entry> {
    vec![
        entry("C11", 1500000, 30000000,
            "a random image (any storage, strides, tails) cropped once or twice with windows inside, at the edges, empty, leaving the image or near the integer limit; every sample is read through the view, and written through it; non-trivial: refused, or a non-empty proper part",
            c11(), c11_check),
        entry("C12", 1500000, 30000000,
            "random constructor arguments: sizes (also zero and odd), one buffer or planes, plane and stride counts, strides, buffer lengths around the minimum, three owner types; non-trivial: non-zero size with explicit strides, split planes or an inexact length",
            c12(), c12_check),
        entry("C15", 1500000, 30000000,
            "random format, size, strides and one optional flaw; buffer_size, packed_strides, infer*, bounds_check against an independent layout description, plus one probe of up to 2^63 pixels per case; non-trivial: non-zero size",
            c15(), c15_check),
    ]
}
