//! C20: references, views, clones and the different owners of the bytes stand for the same image.

use super::convert::{call, with_threads, Api};
use crate::driver::*;
use crate::img::*;
use crate::spec::*;
use crate::strat::*;
use ezk_image::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// One layer around an image.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Wrap {
    /// `&T` (read side only, otherwise `&mut T`)
    Ref,
    /// `&mut T`
    Mut,
    /// a window of the whole image
    Full,
    /// a window leaving these margins (in chroma blocks) left, top, right, bottom
    Win([u8; 4]),
}

/// What holds the bytes.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Owner {
    VecBuffer,
    SliceBuffer,
    BoxBuffer,
    VecPlanes,
    SlicePlanes,
    BoxPlanes,
    /// a clone of a `Vec<u8>` image whose original is overwritten before the clone is used
    CloneBuffer,
    ClonePlanes,
    /// a clone is made and overwritten before the original is used
    ClonedFrom,
    /// `Image::blank`, filled through `planes_mut`
    Blank,
    /// read side only (write side: as `SliceBuffer`)
    ShrBuffer,
    ShrPlanes,
    ArcBuffer,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Side {
    fmt: Fmt,
    col: Col,
    w: usize,
    h: usize,
    owner: Owner,
    pad: [u8; 3],
    chain: Vec<Wrap>,
    content: Content,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    src: Side,
    dst: Side,
    /// 0 convert, 1 convert_multi_thread, 2 copy, 3 resize
    op: u8,
    threads: u8,
}

impl Side {
    /// margins of one layer in pixels
    fn margins(&self, w: &Wrap) -> [usize; 4] {
        let (sx, sy) = self.fmt.sub();
        match w {
            Wrap::Win(m) => [m[0] as usize * sx, m[1] as usize * sy, m[2] as usize * sx, m[3] as usize * sy],
            _ => [0; 4],
        }
    }
    fn total(&self) -> [usize; 4] {
        let mut t = [0; 4];
        for w in &self.chain {
            for (a, b) in t.iter_mut().zip(self.margins(w)) {
                *a += b;
            }
        }
        t
    }
    fn parent(&self) -> (usize, usize) {
        let [l, t, r, b] = self.total();
        (self.w + l + r, self.h + t + b)
    }
    fn strides(&self) -> Vec<usize> {
        let (pw, _) = self.parent();
        let pad = |p: usize| if self.owner == Owner::Blank { 0 } else { self.pad[p] as usize * self.fmt.bps() };
        (0..self.fmt.nplanes()).map(|p| self.fmt.row_bytes(p, pw) + pad(p)).collect()
    }
    /// the bytes of every plane of the parent
    fn bytes(&self, p: &Planes) -> Vec<Vec<u8>> {
        let st = self.strides();
        let mut out: Vec<Vec<u8>> = (0..self.fmt.nplanes()).map(|i| vec![0xA7; st[i] * self.fmt.rows(i, p.h)]).collect();
        for c in 0..self.fmt.ncomp() {
            let (cw, ch) = self.fmt.comp_dims(c, p.w, p.h);
            for y in 0..ch {
                for x in 0..cw {
                    let (i, row, off) = self.fmt.loc(c, x, y);
                    let o = row * st[i] + off;
                    let v = p.at(c, x, y).to_ne_bytes();
                    let n = self.fmt.bps();
                    out[i][o..o + n].copy_from_slice(&v[..n]);
                }
            }
        }
        out
    }
    fn unbytes(&self, b: &[Vec<u8>], w: usize, h: usize) -> Planes {
        let st = self.strides();
        let mut p = Planes::zero(self.fmt, w, h);
        for c in 0..self.fmt.ncomp() {
            let (cw, ch) = self.fmt.comp_dims(c, w, h);
            for y in 0..ch {
                for x in 0..cw {
                    let (i, row, off) = self.fmt.loc(c, x, y);
                    let o = row * st[i] + off;
                    let v = if self.fmt.bps() == 2 { u16::from_ne_bytes([b[i][o], b[i][o + 1]]) } else { b[i][o] as u16 };
                    p.set(c, x, y, v);
                }
            }
        }
        p
    }
}

fn planes_of(v: &dyn ImageRef) -> Vec<(usize, usize, usize)> {
    v.planes().map(|(p, s)| (p.as_ptr() as usize, p.len(), s)).collect()
}

/// The outermost layer reports and exposes the window of the owner it stands for.
fn stands_for(s: &Side, p: &Planes, v: &dyn ImageRef, what: &str) -> Result<(), Fail> {
    let col = s.col.lib();
    if v.format() != s.fmt.pf() || v.width() != s.w || v.height() != s.h || v.color() != col {
        return fail("meta", format!("{what}: {s:?} reports {:?} {}x{} {:?}", v.format(), v.width(), v.height(), v.color()));
    }
    let a = planes_of(v);
    if a != planes_of(v) {
        return fail("impure", format!("{what}: {s:?}: two calls of planes() differ"));
    }
    if a.iter().map(|x| x.2).collect::<Vec<_>>() != s.strides() {
        return fail("strides", format!("{what}: {s:?}: planes {a:?}, expected strides {:?}", s.strides()));
    }
    v.bounds_check().or_fail("bounds")?;
    let pl: Vec<(&[u8], usize)> = v.planes().collect();
    let [l, t, _, _] = s.total();
    for c in 0..s.fmt.ncomp() {
        let (cw, ch) = s.fmt.comp_dims(c, s.w, s.h);
        let (sx, sy) = if c == 0 || s.fmt.is_rgb() { (1, 1) } else { s.fmt.sub() };
        for y in 0..ch {
            for x in 0..cw {
                let got = super::layout::read(s.fmt, &pl, c, x, y);
                let want = p.at(c, x + l / sx, y + t / sy);
                if got != Some(want) {
                    return fail("sample", format!("{what}: {s:?}: component {} at ({x}, {y}) is {got:?} through the layers, {want} in the image", comp_name(s.fmt, c)));
                }
            }
        }
    }
    Ok(())
}

type Res = Result<(), Fail>;
type KMut<'a> = &'a mut dyn FnMut(&mut dyn ImageMut) -> Res;
type KRef<'a> = &'a mut dyn FnMut(&dyn ImageRef) -> Res;

fn window(s: &Side, w: &Wrap, cw: usize, ch: usize) -> Window {
    let [l, t, r, b] = s.margins(w);
    Window { x: l, y: t, width: cw - l - r, height: ch - t - b }
}

/// Wraps `t` by value and hands it back, taken out of the layers again.
macro_rules! layers {
    ($mu:ident, $munext:ident, $re:ident, $renext:ident) => {
        fn $mu<T: ImageMut>(mut t: T, s: &Side, i: usize, k: KMut) -> (Option<T>, Res) {
            let (w, h) = (t.width(), t.height());
            match s.chain.get(i) {
                None => {
                    let r = k(&mut t);
                    (Some(t), r)
                }
                Some(Wrap::Ref | Wrap::Mut) => {
                    let (_, r) = $munext::<&mut T>(&mut t, s, i + 1, k);
                    (Some(t), r)
                }
                Some(x) => match Cropped::new(t, window(s, x, w, h)) {
                    Err(e) => (None, fail("crop", format!("{s:?}: crop refused: {e}"))),
                    Ok(c) => {
                        let (c, r) = $munext::<Cropped<T>>(c, s, i + 1, k);
                        (c.map(|c| c.into_inner()), r)
                    }
                },
            }
        }
        fn $re<T: ImageRef>(mut t: T, s: &Side, i: usize, k: KRef) -> (Option<T>, Res) {
            let (w, h) = (t.width(), t.height());
            match s.chain.get(i) {
                None => {
                    let r = k(&t);
                    (Some(t), r)
                }
                Some(Wrap::Ref) => {
                    let (_, r) = $renext::<&T>(&t, s, i + 1, k);
                    (Some(t), r)
                }
                Some(Wrap::Mut) => {
                    let (_, r) = $renext::<&mut T>(&mut t, s, i + 1, k);
                    (Some(t), r)
                }
                Some(x) => match t.crop(window(s, x, w, h)) {
                    Err(e) => (None, fail("crop", format!("{s:?}: crop refused: {e}"))),
                    Ok(c) => {
                        let (c, r) = $renext::<Cropped<T>>(c, s, i + 1, k);
                        (c.map(|c| c.into_inner()), r)
                    }
                },
            }
        }
    };
}
layers!(m3, m2, r3, r2);
layers!(m2, m1, r2, r1);
layers!(m1, m0, r1, r0);
fn m0<T: ImageMut>(mut t: T, _: &Side, _: usize, k: KMut) -> (Option<T>, Res) {
    let r = k(&mut t);
    (Some(t), r)
}
fn r0<T: ImageRef>(t: T, _: &Side, _: usize, k: KRef) -> (Option<T>, Res) {
    let r = k(&t);
    (Some(t), r)
}

type Ctor<T> = Result<T, ImageError>;
fn ok<T>(r: Ctor<T>) -> Result<T, Fail> {
    r.or_fail("constructor")
}

fn buf<S>(s: &Side, b: S) -> Result<Image<S>, Fail>
where
    Image<S>: ImageRef,
{
    let (w, h) = s.parent();
    ok(Image::from_buffer(s.fmt.pf(), b, Some(s.strides()), w, h, s.col.lib()))
}
fn pla<S>(s: &Side, b: Vec<S>) -> Result<Image<S>, Fail>
where
    Image<S>: ImageRef,
{
    let (w, h) = s.parent();
    ok(Image::from_planes(s.fmt.pf(), b, Some(s.strides()), w, h, s.col.lib()))
}
fn owned(v: &dyn ImageRef) -> Vec<Vec<u8>> {
    v.planes().map(|p| p.0.to_vec()).collect()
}
fn scribble(v: &mut dyn ImageMut) {
    for (p, _) in v.planes_mut() {
        p.iter_mut().for_each(|b| *b = !*b);
    }
}
fn split(s: &Side, whole: &[u8]) -> Vec<Vec<u8>> {
    let (_, h) = s.parent();
    let st = s.strides();
    let mut o = 0;
    (0..s.fmt.nplanes())
        .map(|i| {
            let n = st[i] * s.fmt.rows(i, h);
            o += n;
            whole[o - n..o].to_vec()
        })
        .collect()
}

/// Run `k` on the layered mutable image; the bytes of its planes afterwards.
fn with_mut(s: &Side, bytes: &[Vec<u8>], k: KMut) -> Result<Vec<Vec<u8>>, Fail> {
    fn fin<T: ImageMut>((t, r): (Option<T>, Res)) -> Result<T, Fail> {
        r?;
        Ok(t.unwrap())
    }
    let all = || bytes.concat();
    let inverted = || -> Vec<Vec<u8>> { bytes.iter().map(|p| p.iter().map(|b| !b).collect()).collect() };
    let other = |o: Vec<Vec<u8>>| {
        if o != inverted() {
            return fail("clone", format!("{s:?}: the other image of a cloned pair was changed"));
        }
        Ok(())
    };
    Ok(match s.owner {
        Owner::VecBuffer => owned(&fin(m3(buf(s, all())?, s, 0, k))?),
        Owner::BoxBuffer => owned(&fin(m3(buf(s, all().into_boxed_slice())?, s, 0, k))?),
        Owner::SliceBuffer | Owner::ShrBuffer | Owner::ArcBuffer => {
            let mut b = all();
            fin(m3(buf(s, &mut b[..])?, s, 0, k))?;
            split(s, &b)
        }
        Owner::VecPlanes => owned(&fin(m3(pla(s, bytes.to_vec())?, s, 0, k))?),
        Owner::BoxPlanes => {
            let b = bytes.iter().map(|p| p.clone().into_boxed_slice()).collect();
            owned(&fin(m3(pla::<Box<[u8]>>(s, b)?, s, 0, k))?)
        }
        Owner::SlicePlanes | Owner::ShrPlanes => {
            let mut b = bytes.to_vec();
            fin(m3(pla(s, b.iter_mut().map(|p| &mut p[..]).collect())?, s, 0, k))?;
            b
        }
        Owner::CloneBuffer => {
            let mut orig = buf(s, all())?;
            let c = orig.clone();
            scribble(&mut orig);
            let c = fin(m3(c, s, 0, k))?;
            other(owned(&orig))?;
            owned(&c)
        }
        Owner::ClonePlanes => {
            let mut orig = pla(s, bytes.to_vec())?;
            let c = orig.clone();
            scribble(&mut orig);
            let c = fin(m3(c, s, 0, k))?;
            other(owned(&orig))?;
            owned(&c)
        }
        Owner::ClonedFrom => {
            let orig = buf(s, all())?;
            let mut c = orig.clone();
            scribble(&mut c);
            let orig = fin(m3(orig, s, 0, k))?;
            other(owned(&c))?;
            owned(&orig)
        }
        Owner::Blank => {
            let (w, h) = s.parent();
            let mut i = Image::blank(s.fmt.pf(), w, h, s.col.lib());
            for ((p, _), b) in i.planes_mut().zip(bytes) {
                if p.len() < b.len() {
                    return fail("blank", format!("{s:?}: a blank image has a plane of {} bytes, {} needed", p.len(), b.len()));
                }
                p[..b.len()].copy_from_slice(b);
            }
            owned(&fin(m3(i, s, 0, k))?)
        }
    })
}

fn with_ref(s: &Side, bytes: &[Vec<u8>], k: KRef) -> Res {
    fn fin<T: ImageRef>((t, r): (Option<T>, Res)) -> Result<T, Fail> {
        r?;
        Ok(t.unwrap())
    }
    let all = bytes.concat();
    match s.owner {
        Owner::ShrBuffer => {
            fin(r3(buf(s, &all[..])?, s, 0, k))?;
        }
        Owner::ShrPlanes => {
            let b: Vec<&[u8]> = bytes.iter().map(|p| &p[..]).collect();
            fin(r3(pla(s, b)?, s, 0, k))?;
        }
        Owner::ArcBuffer => {
            let a: std::sync::Arc<[u8]> = all.clone().into();
            let i = buf(s, a.clone())?;
            let j = i.clone();
            drop(i);
            fin(r3(j, s, 0, k))?;
        }
        Owner::VecBuffer => {
            fin(r3(buf(s, all)?, s, 0, k))?;
        }
        Owner::VecPlanes => {
            fin(r3(pla(s, bytes.to_vec())?, s, 0, k))?;
        }
        Owner::CloneBuffer => {
            let c = {
                let mut orig = buf(s, all)?;
                let c = orig.clone();
                scribble(&mut orig);
                c
            };
            fin(r3(c, s, 0, k))?;
        }
        _ => {
            let after = with_mut(s, bytes, &mut |v| k(v))?;
            if after.iter().zip(bytes).any(|(a, b)| a[..b.len()] != b[..]) {
                return fail("source", format!("{s:?}: the source was changed"));
            }
        }
    }
    Ok(())
}

#[cfg(feature = "resize")]
fn resize(s: &dyn ImageRef, d: &mut dyn ImageMut) -> Res {
    use ezk_image::resize::*;
    Resizer::new(ResizeAlg::Convolution(FilterType::Bilinear)).resize(s, d).or_fail("resize")
}
#[cfg(not(feature = "resize"))]
fn resize(_: &dyn ImageRef, _: &mut dyn ImageMut) -> Res {
    Ok(())
}

fn op(c: &Case, s: &dyn ImageRef, d: &mut dyn ImageMut) -> Res {
    let mut go = |a| call(a, s, d).or_fail("convert-error");
    match c.op {
        0 => go(Api::Convert),
        1 => go(Api::Multi),
        2 => go(Api::Copy),
        _ => resize(s, d),
    }
}

fn check(c: &Case, cx: &mut Ctx) -> Result<(), Fail> {
    let (spw, sph) = c.src.parent();
    let (dpw, dph) = c.dst.parent();
    let sp = c.src.content.fill(c.src.fmt, spw, sph);
    let dp = c.dst.content.fill(c.dst.fmt, dpw, dph);
    let cut = |s: &Side, p: &Planes| {
        let [l, t, _, _] = s.total();
        p.crop(l, t, s.w, s.h)
    };

    // what the bare images give
    let plain = |s: &Side| Side { owner: Owner::SliceBuffer, pad: [0; 3], chain: vec![], ..s.clone() };
    let (ps, pd) = (plain(&c.src), plain(&c.dst));
    let want = with_threads(c.threads as usize, || {
        let sb = ps.bytes(&cut(&c.src, &sp));
        with_mut(&pd, &pd.bytes(&cut(&c.dst, &dp)), &mut |d| with_ref(&ps, &sb, &mut |s| op(c, s, d)))
    })?;
    let want = pd.unbytes(&want, c.dst.w, c.dst.h);

    // what the layered ones give
    let sb = c.src.bytes(&sp);
    let after = with_threads(c.threads as usize, || {
        with_mut(&c.dst, &c.dst.bytes(&dp), &mut |d| {
            stands_for(&c.dst, &dp, &*d, "destination")?;
            let shared = planes_of(&*d);
            let mutable: Vec<_> = d.planes_mut().map(|(p, s)| (p.as_ptr() as usize, p.len(), s)).collect();
            if shared != mutable {
                return fail("planes-mut", format!("{:?}: planes() and planes_mut() give different memory: {shared:?} {mutable:?}", c.dst));
            }
            with_ref(&c.src, &sb, &mut |s| {
                stands_for(&c.src, &sp, s, "source")?;
                op(c, s, d)
            })
        })
    })?;
    let all = c.dst.unbytes(&after, dpw, dph);
    let mut expect = dp.clone();
    let [l, t, _, _] = c.dst.total();
    for k in 0..c.dst.fmt.ncomp() {
        let (cw, ch) = c.dst.fmt.comp_dims(k, c.dst.w, c.dst.h);
        let (sx, sy) = if k == 0 || c.dst.fmt.is_rgb() { (1, 1) } else { c.dst.fmt.sub() };
        for y in 0..ch {
            for x in 0..cw {
                expect.set(k, x + l / sx, y + t / sy, want.at(k, x, y));
            }
        }
    }
    if let Some(e) = all.diff(&expect, 0) {
        return fail("result", format!("op {} {:?} -> {:?}: {e} (layered vs bare)", c.op, c.src, c.dst));
    }
    cx.nontrivial = want != cut(&c.dst, &dp) && (!c.src.chain.is_empty() || !c.dst.chain.is_empty());
    cx.label(format!("op {}", c.op));
    cx.label(format!("source {:?}", c.src.owner));
    cx.label(format!("destination {:?}", c.dst.owner));
    cx.label(format!("layers {}+{}", c.src.chain.len(), c.dst.chain.len()));
    Ok(())
}

fn strategy() -> BoxedStrategy<Case> {
    let wrap = || {
        prop_oneof![
            2 => Just(Wrap::Ref),
            3 => Just(Wrap::Mut),
            1 => Just(Wrap::Full),
            3 => prop::array::uniform4(0u8..4).prop_map(Wrap::Win)
        ]
    };
    let owner = || {
        use Owner::*;
        prop::sample::select(vec![
            VecBuffer, SliceBuffer, BoxBuffer, VecPlanes, SlicePlanes, BoxPlanes, CloneBuffer, ClonePlanes, ClonedFrom, Blank, ShrBuffer, ShrPlanes,
            ArcBuffer,
        ])
    };
    let side = move || {
        let content = (any::<u32>(), prop::array::uniform4(any::<u16>())).prop_map(|(seed, v)| Content { kind: 5, seed, v, over: false });
        (owner(), prop::array::uniform3(prop_oneof![2 => Just(0u8), 1 => 0u8..9]), prop::collection::vec(wrap(), 0..4), content)
    };
    let dim = || prop_oneof![8 => (1usize..14).prop_map(|v| v * 2), 2 => (1usize..40).prop_map(|v| v * 2)];
    (fmt(), fmt(), cols_any(), (dim(), dim()), (dim(), dim()), side(), side(), 0u8..4, 1u8..9)
        .prop_map(|(f, g, (sc, dc), (w, h), (w2, h2), a, b, op, threads)| {
            let g = if op >= 2 { f } else { g };
            let (mut sc, mut dc) = (sc, dc);
            if !f.is_rgb() {
                sc.rgb = false;
            }
            if !g.is_rgb() {
                dc.rgb = false;
            }
            let (w2, h2) = if op == 3 { (w2, h2) } else { (w, h) };
            if op == 2 {
                dc = sc;
            }
            let mk = |fmt, col, w, h, (owner, pad, chain, content)| Side { fmt, col, w, h, owner, pad, chain, content };
            Case { src: mk(f, sc, w, h, a), dst: mk(g, dc, w2, h2, b), op, threads }
        })
        .boxed()
}

pub fn entries() -> Vec<Entry> {
    vec![entry(
        "C20",
        600000,
        12000000,
        "a source and a destination, each held by one of 13 kinds of owner (buffers and planes, owned, borrowed, shared, cloned, blank) inside up to three layers of references and windows, converted, copied or resized and compared with the same call on bare images; non-trivial: at least one layer and the call changes the destination",
        strategy(),
        check,
    )]
}
