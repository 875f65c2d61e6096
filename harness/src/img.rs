//! Generated images: content, memory layout (storage kind, strides, tails, misalignment, crop
//! windows), construction through the crate's public API, and access to samples through this
//! harness' own format description.

use crate::buf::GBuf;
use crate::spec::*;
use ezk_image::*;
use serde::{Deserialize, Serialize};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

/// Logical samples: one vector per component (Y,U,V or R,G,B[,A]).
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Planes {
    pub fmt: Fmt,
    pub w: usize,
    pub h: usize,
    pub c: Vec<Vec<u16>>,
}

impl Planes {
    pub fn zero(fmt: Fmt, w: usize, h: usize) -> Planes {
        let c = (0..fmt.ncomp())
            .map(|c| {
                let (cw, ch) = fmt.comp_dims(c, w, h);
                vec![0; cw * ch]
            })
            .collect();
        Planes { fmt, w, h, c }
    }
    pub fn at(&self, c: usize, x: usize, y: usize) -> u16 {
        let (cw, _) = self.fmt.comp_dims(c, self.w, self.h);
        self.c[c][y * cw + x]
    }
    pub fn set(&mut self, c: usize, x: usize, y: usize, v: u16) {
        let (cw, _) = self.fmt.comp_dims(c, self.w, self.h);
        self.c[c][y * cw + x] = v;
    }
    /// sample of component `c` that pixel (x, y) uses
    pub fn px(&self, c: usize, x: usize, y: usize) -> u16 {
        if c == 0 || self.fmt.is_rgb() {
            self.at(c, x, y)
        } else {
            let (sx, sy) = self.fmt.sub();
            self.at(c, x / sx, y / sy)
        }
    }
    pub fn crop(&self, x: usize, y: usize, w: usize, h: usize) -> Planes {
        let mut out = Planes::zero(self.fmt, w, h);
        for c in 0..self.fmt.ncomp() {
            let (cw, ch) = self.fmt.comp_dims(c, w, h);
            let (sx, sy) = if c == 0 || self.fmt.is_rgb() { (1, 1) } else { self.fmt.sub() };
            for yy in 0..ch {
                for xx in 0..cw {
                    out.set(c, xx, yy, self.at(c, xx + x / sx, yy + y / sy));
                }
            }
        }
        out
    }
    pub fn max_diff(&self, o: &Planes) -> u16 {
        let mut m = 0;
        for (a, b) in self.c.iter().zip(&o.c) {
            for (x, y) in a.iter().zip(b) {
                m = m.max(x.abs_diff(*y));
            }
        }
        m
    }
    /// first difference of more than `tol`, described
    pub fn diff(&self, o: &Planes, tol: u16) -> Option<String> {
        if self.fmt != o.fmt || self.w != o.w || self.h != o.h {
            return Some("different shapes".into());
        }
        for c in 0..self.fmt.ncomp() {
            let (cw, _) = self.fmt.comp_dims(c, self.w, self.h);
            for i in 0..self.c[c].len() {
                if self.c[c][i].abs_diff(o.c[c][i]) > tol {
                    return Some(format!(
                        "component {} at ({}, {}): {} vs {}",
                        comp_name(self.fmt, c),
                        i % cw,
                        i / cw,
                        self.c[c][i],
                        o.c[c][i]
                    ));
                }
            }
        }
        None
    }
}

pub fn comp_name(f: Fmt, c: usize) -> &'static str {
    if f.is_rgb() {
        ["R", "G", "B", "A"][c]
    } else {
        ["Y", "U", "V"][c]
    }
}

/// How the samples are made. Everything is derived from these few numbers, so a case stays small
/// and shrinks well.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Content {
    /// 0 constant, 1 two-valued, 2 gradient, 3 grey, 4 edge values, 5 random, 6 random near extremes,
    /// 7 random primaries-ish (each component 0 or max)
    pub kind: u8,
    pub seed: u32,
    pub v: [u16; 4],
    /// allow samples above the nominal maximum (16-bit containers only)
    pub over: bool,
}

impl Content {
    pub fn fill(&self, fmt: Fmt, w: usize, h: usize) -> Planes {
        let mut p = Planes::zero(fmt, w, h);
        let max = fmt.max();
        let lim: u32 = if self.over && fmt.bps() == 2 { 65535 } else { max as u32 };
        let sc = |v: u16| -> u16 { (v as u32 % (lim + 1)) as u16 };
        let mut rng = Rng(self.seed as u64 ^ 0xC0FFEE);
        let m = max as u64;
        let edges = [
            0,
            1,
            m / 255 * 16,
            m / 2,
            m / 2 + 1,
            m * 235 / 255,
            m * 240 / 255,
            m - 1,
            m,
            m * 16 / 255 + 1,
            m * 17 / 255,
            lim as u64,
        ];
        for c in 0..fmt.ncomp() {
            let (cw, ch) = fmt.comp_dims(c, w, h);
            for y in 0..ch {
                for x in 0..cw {
                    let r = rng.next();
                    let v = match self.kind {
                        0 => sc(self.v[c]),
                        1 => {
                            if r & 7 == 0 {
                                sc(self.v[(c + 1) % 4])
                            } else {
                                sc(self.v[c])
                            }
                        }
                        2 => {
                            let dx = (self.v[0] as usize % 7) + 1;
                            let dy = self.v[1] as usize % 5;
                            let k = (x * dx + y * dy) * (max as usize / 255).max(1) + sc(self.v[c]) as usize;
                            (k % (max as usize + 1)) as u16
                        }
                        3 => {
                            if fmt.is_rgb() {
                                let g = mix(self.seed as u64 ^ ((y * w + x) as u64) << 20);
                                (g % (m + 1)) as u16
                            } else if c == 0 {
                                (r % (m + 1)) as u16
                            } else {
                                (m / 2 + (r & 1)) as u16
                            }
                        }
                        4 => edges[(r % edges.len() as u64) as usize] as u16,
                        5 => (r % (lim as u64 + 1)) as u16,
                        6 => {
                            let d = (r >> 8) % (m / 16 + 1);
                            match r & 3 {
                                0 => d as u16,
                                1 => (m - d) as u16,
                                2 => (m / 2 + d / 2) as u16,
                                _ => (m / 2 - d / 2) as u16,
                            }
                        }
                        _ => {
                            if r & 1 == 0 {
                                0
                            } else {
                                max
                            }
                        }
                    };
                    p.set(c, x, y, v);
                }
            }
        }
        p
    }
}

/// Memory layout of an image. All fields are free numbers; `norm` makes them fit a format.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Lay {
    /// 0 one buffer, 1 one buffer per plane, 2 custom trait implementation
    pub store: u8,
    pub pad: [u16; 3],
    pub tail: [u16; 3],
    pub at_end: bool,
    pub mis: u8,
    /// crop margins left/top/right/bottom around the image
    pub crop: [u8; 4],
    pub nest: bool,
    /// end every plane right after its last sample
    pub short: bool,
    pub prefill: u32,
}

impl Lay {
    pub fn packed() -> Lay {
        Lay {
            store: 0,
            pad: [0; 3],
            tail: [0; 3],
            at_end: false,
            mis: 0,
            crop: [0; 4],
            nest: false,
            short: false,
            prefill: 0x5A,
        }
    }
    pub fn cropped(&self) -> bool {
        self.crop != [0; 4] || self.nest
    }
    pub fn nontrivial(&self) -> bool {
        self.cropped() || self.pad != [0; 3] || self.tail != [0; 3] || self.short || self.store != 0
    }
    /// Bring crop origin onto the chroma grid of `fmt`.
    pub fn aligned(mut self, fmt: Fmt) -> Lay {
        let (sx, sy) = fmt.sub();
        self.crop[0] -= self.crop[0] % sx as u8;
        self.crop[1] -= self.crop[1] % sy as u8;
        self
    }
    /// Even strides and pointers for 16-bit formats
    pub fn even16(mut self, fmt: Fmt) -> Lay {
        if fmt.bps() == 2 {
            for p in &mut self.pad {
                *p &= !1;
            }
            for p in &mut self.tail {
                *p &= !1;
            }
            self.mis &= !1;
        }
        self
    }
}

/// A user-written image type
pub struct Custom {
    pub fmt: PixelFormat,
    pub w: usize,
    pub h: usize,
    pub planes: Vec<(GBuf, usize)>,
    pub color: ColorInfo,
}
unsafe impl ImageRef for Custom {
    fn format(&self) -> PixelFormat {
        self.fmt
    }
    fn width(&self) -> usize {
        self.w
    }
    fn height(&self) -> usize {
        self.h
    }
    fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
        Box::new(self.planes.iter().map(|(b, s)| (b.get(), *s)))
    }
    fn color(&self) -> ColorInfo {
        self.color
    }
}
unsafe impl ImageMut for Custom {
    fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
        Box::new(self.planes.iter().map(|(b, s)| (b.get_mut(), *s)))
    }
}

pub struct Built {
    pub fmt: Fmt,
    pub w: usize,
    pub h: usize,
    /// parent dimensions
    pub pw: usize,
    pub ph: usize,
    pub ox: usize,
    pub oy: usize,
    pub strides: Vec<usize>,
    /// (allocation index, byte offset) of every plane
    pub base: Vec<(usize, usize)>,
    pub alloc: Vec<GBuf>,
    pub snap: Vec<Vec<u8>>,
    pub img: Box<dyn ImageMut>,
}

/// Owns an image, but only uses it through the implementations for `&T` and `&mut T`.
struct Via<T> {
    ptr: *mut T,
    /// read through `&T`, otherwise `&mut T`
    shared: bool,
}
impl<T> Via<T> {
    fn new(t: T, shared: bool) -> Self {
        Via { ptr: Box::into_raw(Box::new(t)), shared }
    }
    fn shr(&self) -> &&T {
        // Safety: points to a live box, same layout as a reference
        unsafe { &*(&raw const self.ptr).cast::<&T>() }
    }
    fn exc(&self) -> &&mut T {
        // Safety: as above, only read through while `self` is shared
        unsafe { &*(&raw const self.ptr).cast::<&mut T>() }
    }
    fn exc_mut(&mut self) -> &mut &mut T {
        unsafe { &mut *(&raw mut self.ptr).cast::<&mut T>() }
    }
}
impl<T> Drop for Via<T> {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(self.ptr) });
    }
}
macro_rules! via {
    ($s:ident, $f:ident) => {
        if $s.shared {
            ImageRef::$f($s.shr())
        } else {
            ImageRef::$f($s.exc())
        }
    };
}
unsafe impl<T: ImageMut> ImageRef for Via<T> {
    fn format(&self) -> PixelFormat {
        via!(self, format)
    }
    fn width(&self) -> usize {
        via!(self, width)
    }
    fn height(&self) -> usize {
        via!(self, height)
    }
    fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
        via!(self, planes)
    }
    fn color(&self) -> ColorInfo {
        via!(self, color)
    }
}
unsafe impl<T: ImageMut> ImageMut for Via<T> {
    fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
        self.exc_mut().planes_mut()
    }
}

fn wrap<T: ImageMut + 'static>(t: T, lay: &Lay, w: usize, h: usize) -> Result<Box<dyn ImageMut>, String> {
    if matches!(lay.prefill >> 1 & 7, 1 | 2) {
        window(Via::new(t, lay.prefill & 16 != 0), lay, w, h)
    } else {
        window(t, lay, w, h)
    }
}

fn outermost<T: ImageMut + 'static>(t: T, lay: &Lay) -> Box<dyn ImageMut> {
    if matches!(lay.prefill >> 1 & 7, 3 | 4) {
        Box::new(Via::new(t, lay.prefill & 16 != 0))
    } else {
        Box::new(t)
    }
}

fn window<T: ImageMut + 'static>(t: T, lay: &Lay, w: usize, h: usize) -> Result<Box<dyn ImageMut>, String> {
    let [l, tp, r, b] = lay.crop.map(|v| v as usize);
    if !lay.cropped() {
        return Ok(outermost(t, lay));
    }
    if lay.nest {
        // split each margin in two, keeping origins even where they were even
        let l1 = l / 2 & !1;
        let t1 = tp / 2 & !1;
        let r1 = r / 2;
        let b1 = b / 2;
        let outer = Window {
            x: l1,
            y: t1,
            width: (l - l1) + w + (r - r1),
            height: (tp - t1) + h + (b - b1),
        };
        let inner = Window { x: l - l1, y: tp - t1, width: w, height: h };
        let o = Cropped::new(t, outer).map_err(|e| format!("outer crop refused: {e}"))?;
        let i = o.crop(inner).map_err(|e| format!("inner crop refused: {e}"))?;
        Ok(outermost(i, lay))
    } else {
        let c = t
            .crop(Window { x: l, y: tp, width: w, height: h })
            .map_err(|e| format!("crop refused: {e}"))?;
        Ok(outermost(c, lay))
    }
}

impl Built {
    /// Allocate and construct; memory is filled with a deterministic pattern.
    pub fn new(slot: usize, fmt: Fmt, w: usize, h: usize, col: ColorInfo, lay: &Lay) -> Result<Built, String> {
        let [l, t, r, b] = lay.crop.map(|v| v as usize);
        let (pw, ph) = (l + w + r, t + h + b);
        let np = fmt.nplanes();
        let strides: Vec<usize> = (0..np).map(|p| fmt.row_bytes(p, pw) + lay.pad[p] as usize).collect();
        let full: Vec<usize> = (0..np).map(|p| strides[p] * fmt.rows(p, ph)).collect();
        let mut alloc = vec![];
        let mut base = vec![];
        if lay.store == 0 {
            let total: usize = full.iter().sum();
            let g = GBuf::new(slot * 4, total + lay.tail[0] as usize, lay.at_end, lay.mis as usize);
            let mut off = 0;
            for f in &full {
                base.push((0, off));
                off += f;
            }
            alloc.push(g);
        } else {
            for p in 0..np {
                let rows = fmt.rows(p, ph);
                let mut len = full[p];
                if lay.short && rows > 0 {
                    len = strides[p] * (rows - 1) + fmt.row_bytes(p, pw);
                }
                len += if lay.short { 0 } else { lay.tail[p] as usize };
                let g = GBuf::new(slot * 4 + p, len, lay.at_end, lay.mis as usize);
                base.push((p, 0));
                alloc.push(g);
            }
        }
        let mut rng = Rng(lay.prefill as u64);
        for a in &alloc {
            let m = a.get_mut();
            for ch in m.chunks_mut(8) {
                let r = rng.next().to_le_bytes();
                let n = ch.len();
                ch.copy_from_slice(&r[..n]);
            }
        }
        let color = col;
        let explicit = lay.pad != [0; 3] || lay.prefill & 1 == 1;
        let st = if explicit { Some(strides.clone()) } else { None };
        let img: Box<dyn ImageMut> = match lay.store {
            0 => {
                let i = Image::from_buffer(fmt.pf(), alloc[0], st, pw, ph, color)
                    .map_err(|e| format!("from_buffer refused a sufficient buffer: {e}"))?;
                wrap(i, lay, w, h)?
            }
            1 => {
                let i = Image::from_planes(fmt.pf(), alloc.clone(), st, pw, ph, color)
                    .map_err(|e| format!("from_planes refused sufficient planes: {e}"))?;
                wrap(i, lay, w, h)?
            }
            _ => wrap(
                Custom {
                    fmt: fmt.pf(),
                    w: pw,
                    h: ph,
                    planes: alloc.iter().copied().zip(strides.iter().copied()).collect(),
                    color,
                },
                lay,
                w,
                h,
            )?,
        };
        let snap = alloc.iter().map(|a| a.get().to_vec()).collect();
        Ok(Built { fmt, w, h, pw, ph, ox: l, oy: t, strides, base, alloc, snap, img })
    }

    fn off(&self, c: usize, x: usize, y: usize) -> (usize, usize) {
        let (sx, sy) = if c == 0 || self.fmt.is_rgb() { (1, 1) } else { self.fmt.sub() };
        let (p, row, off) = self.fmt.loc(c, x + self.ox / sx, y + self.oy / sy);
        (self.base[p].0, self.base[p].1 + row * self.strides[p] + off)
    }
    /// Write samples into the window and take the snapshot that later comparisons refer to.
    pub fn put(&mut self, p: &Planes) {
        assert!(p.fmt == self.fmt && p.w == self.w && p.h == self.h);
        for c in 0..self.fmt.ncomp() {
            let (cw, ch) = self.fmt.comp_dims(c, self.w, self.h);
            for y in 0..ch {
                for x in 0..cw {
                    let (a, o) = self.off(c, x, y);
                    let m = self.alloc[a].get_mut();
                    let v = p.c[c][y * cw + x];
                    if self.fmt.bps() == 2 {
                        m[o..o + 2].copy_from_slice(&v.to_ne_bytes());
                    } else {
                        m[o] = v as u8;
                    }
                }
            }
        }
        self.resnap();
    }
    pub fn resnap(&mut self) {
        self.snap = self.alloc.iter().map(|a| a.get().to_vec()).collect();
    }
    pub fn get(&self) -> Planes {
        let mut p = Planes::zero(self.fmt, self.w, self.h);
        for c in 0..self.fmt.ncomp() {
            let (cw, ch) = self.fmt.comp_dims(c, self.w, self.h);
            for y in 0..ch {
                for x in 0..cw {
                    let (a, o) = self.off(c, x, y);
                    let m = self.alloc[a].get();
                    p.c[c][y * cw + x] = if self.fmt.bps() == 2 {
                        u16::from_ne_bytes([m[o], m[o + 1]])
                    } else {
                        m[o] as u16
                    };
                }
            }
        }
        p
    }
    /// Err if any byte outside the window's samples differs from the snapshot.
    pub fn frame_ok(&self) -> Result<(), String> {
        let mut exp = self.snap.clone();
        for c in 0..self.fmt.ncomp() {
            let (cw, ch) = self.fmt.comp_dims(c, self.w, self.h);
            for y in 0..ch {
                for x in 0..cw {
                    let (a, o) = self.off(c, x, y);
                    for k in 0..self.fmt.bps() {
                        exp[a][o + k] = self.alloc[a].get()[o + k];
                    }
                }
            }
        }
        for (i, a) in self.alloc.iter().enumerate() {
            if let Some(o) = exp[i].iter().zip(a.get()).position(|(x, y)| x != y) {
                return Err(format!(
                    "byte {o} of buffer {i} (len {}) lies outside the window but was changed ({} -> {})",
                    a.len(),
                    exp[i][o],
                    a.get()[o]
                ));
            }
            if !a.canary_ok() {
                return Err(format!("bytes next to buffer {i} were changed"));
            }
        }
        Ok(())
    }
    /// Err if any byte at all differs from the snapshot.
    pub fn untouched(&self) -> Result<(), String> {
        for (i, a) in self.alloc.iter().enumerate() {
            if let Some(o) = self.snap[i].iter().zip(a.get()).position(|(x, y)| x != y) {
                return Err(format!("byte {o} of buffer {i} was changed"));
            }
            if !a.canary_ok() {
                return Err(format!("bytes next to buffer {i} were changed"));
            }
        }
        Ok(())
    }
    pub fn r(&self) -> &dyn ImageRef {
        &*self.img
    }
    pub fn m(&mut self) -> &mut dyn ImageMut {
        &mut *self.img
    }
}
