//! Conversion engine: C05 exact copy, C06 lossless round trips, C07 locality and layout
//! independence, C08 multi-thread equivalence, C09 frame, C10 memory safety, C13 totality.

use crate::buf::GBuf;
use crate::driver::*;
use crate::img::*;
use crate::refmodel;
use crate::spec::*;
use crate::strat::*;
use ezk_image::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[cfg(feature = "multi-thread")]
pub fn convert_mt(s: &dyn ImageRef, d: &mut dyn ImageMut) -> Result<(), ConvertError> {
    convert_multi_thread(s, d)
}
#[cfg(not(feature = "multi-thread"))]
pub fn convert_mt(s: &dyn ImageRef, d: &mut dyn ImageMut) -> Result<(), ConvertError> {
    convert(s, d)
}

/// Entry points that take (src, dst)
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Api {
    Convert,
    Multi,
    Copy,
}
pub fn call(a: Api, s: &dyn ImageRef, d: &mut dyn ImageMut) -> Result<(), ConvertError> {
    match a {
        Api::Convert => convert(s, d),
        Api::Multi => convert_mt(s, d),
        Api::Copy => copy(s, d),
    }
}

fn api() -> BoxedStrategy<Api> {
    prop::sample::select(vec![Api::Convert, Api::Multi, Api::Copy]).boxed()
}

fn varied(p: &Planes) -> bool {
    p.c.iter().any(|c| c.iter().any(|v| *v != c[0]))
}

// ---- threads -------------------------------------------------------------------------------------

pub fn with_threads<R>(n: usize, f: impl FnOnce() -> R) -> R {
    unsafe {
        let mut old: libc::cpu_set_t = std::mem::zeroed();
        let sz = std::mem::size_of::<libc::cpu_set_t>();
        if libc::sched_getaffinity(0, sz, &mut old) != 0 {
            return f();
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &old)).collect();
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        for c in cpus.iter().take(n.clamp(1, cpus.len())) {
            libc::CPU_SET(*c, &mut set);
        }
        libc::sched_setaffinity(0, sz, &set);
        struct Back(libc::cpu_set_t);
        impl Drop for Back {
            fn drop(&mut self) {
                unsafe {
                    libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &self.0);
                }
            }
        }
        let _b = Back(old);
        f()
    }
}

// ---- C05 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CopyCase {
    conv: Conv,
    api: Api,
    threads: u8,
}

fn c05_check(c: &CopyCase, cx: &mut Ctx) -> Result<(), Fail> {
    let (s, mut d, p) = c.conv.build().or_fail("build")?;
    with_threads(c.threads as usize, || call(c.api, s.r(), d.m())).or_fail("convert-error")?;
    if let Some(e) = d.get().diff(&p, 0) {
        return fail("not-exact", format!("{:?} {:?} {:?} {}x{}: {e} (got vs source)", c.api, c.conv.src, c.conv.sc, c.conv.w, c.conv.h));
    }
    cx.nontrivial = varied(&p);
    cx.label(format!("{:?}", c.conv.src));
    cx.label(format!("{:?}", c.api));
    if c.conv.content.over {
        cx.label("samples above the nominal maximum");
    }
    Ok(())
}

fn c05() -> BoxedStrategy<CopyCase> {
    (fmt(), col(sp()), dims(), content_over(), lay(), lay(), api(), 1u8..9)
        .prop_map(|(f, sc, (w, h), content, sl, dl, api, threads)| {
            let conv = Conv { src: f, dst: f, sc, dc: sc, w, h, content, sl, dl }.fix();
            CopyCase { conv, api, threads }
        })
        .boxed()
}

// ---- C06 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain {
    start: Fmt,
    sc: Col,
    steps: Vec<(Fmt, Col, Lay)>,
    w: usize,
    h: usize,
    content: Content,
    sl: Lay,
    api: Api,
    kind: u8,
}

/// 0..: can samples of `a` be carried by `b` without loss (same colour description)?
fn refines(a: Fmt, b: Fmt) -> bool {
    if a.is_rgb() != b.is_rgb() {
        return false;
    }
    if a.is_rgb() {
        return !a.has_alpha() || b.has_alpha();
    }
    let (ax, ay) = a.sub();
    let (bx, by) = b.sub();
    bx <= ax && by <= ay && b.bits() >= a.bits()
}

fn c06_check(c: &Chain, cx: &mut Ctx) -> Result<(), Fail> {
    let p = c.content.fill(c.start, c.w, c.h);
    let mut s = Built::new(0, c.start, c.w, c.h, c.sc.lib(), &c.sl).or_fail("build")?;
    s.put(&p);
    let mut cur = s;
    let mut slot = 1;
    let mut path = format!("{:?}", c.start);
    let mut steps = c.steps.clone();
    steps.push((c.start, c.sc, Lay::packed()));
    for (f, col, lay) in &steps {
        let mut d = Built::new(slot, *f, c.w, c.h, col.lib(), lay).or_fail("build")?;
        call(if c.api == Api::Copy { Api::Convert } else { c.api }, cur.r(), d.m()).or_fail("convert-error")?;
        path += &format!(" -> {f:?}");
        slot += 1;
        cur = d;
    }
    let back = cur.get();
    // 8-bit YUV cannot carry 8-bit RGB exactly; the error is bounded by the quantisation
    let tol = if c.kind == 2 { 2 } else { 0 };
    if let Some(e) = back.diff(&p, tol) {
        return fail("lossy", format!("{path} ({:?}, {}x{}): {e} (after vs before)", c.sc, c.w, c.h));
    }
    if c.kind == 0 && c.start.is_rgb() {
        // a permutation step must itself carry the components over, checked on the first step
        let (f, col, lay) = &steps[0];
        let mut s = Built::new(0, c.start, c.w, c.h, c.sc.lib(), &c.sl).or_fail("build")?;
        s.put(&p);
        let mut d = Built::new(1, *f, c.w, c.h, col.lib(), lay).or_fail("build")?;
        call(c.api_nc(), s.r(), d.m()).or_fail("convert-error")?;
        let g = d.get();
        for k in 0..3 {
            if g.c[k] != p.c[k] {
                return fail("permutation", format!("{:?} -> {f:?}: component {} not carried over", c.start, comp_name(*f, k)));
            }
        }
    }
    cx.nontrivial = varied(&p);
    cx.label(["repack within a family", "RGB8 via 10/12-bit 4:4:4", "RGB8 via 8-bit 4:4:4"][c.kind as usize]);
    cx.label(format!("{} steps", steps.len()));
    Ok(())
}
impl Chain {
    fn api_nc(&self) -> Api {
        if self.api == Api::Copy {
            Api::Convert
        } else {
            self.api
        }
    }
}

fn c06() -> BoxedStrategy<Chain> {
    (
        (fmt(), prop::collection::vec((any::<u16>(), any::<bool>(), lay_light()), 1..4)),
        col(sp_matrix()),
        dims(),
        content(),
        lay_light(),
        api(),
        0u8..5,
    )
        .prop_map(|((start, picks), mut sc, (w, h), content, sl, api, k)| {
            let kind = if k < 3 { 0 } else { k - 2 };
            let mut start = start;
            let mut steps = vec![];
            if kind == 0 {
                if !start.is_rgb() {
                    sc.rgb = false;
                }
                // every intermediate format must be able to carry everything of `start`
                let cands: Vec<Fmt> = ALL.iter().copied().filter(|f| refines(start, *f)).collect();
                for (p, rgb, l) in picks {
                    let f = cands[p as usize * cands.len() >> 16];
                    let col = if f.is_rgb() { Col { rgb, ..sc } } else { sc };
                    steps.push((f, col, l.aligned(f)));
                }
            } else {
                start = [Fmt::RGB, Fmt::BGR][start as usize % 2];
                sc.rgb = content.seed & 1 == 0;
                let (p, _, l) = &picks[0];
                let f = if kind == 1 { [Fmt::I410, Fmt::I412][*p as usize % 2] } else { Fmt::I444 };
                let col = Col { rgb: false, ..sc };
                steps.push((f, col, l.clone().aligned(f)));
            }
            Chain { start, sc, steps, w, h, content, sl: sl.aligned(start), api, kind }
        })
        .boxed()
}

// ---- C07 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tile {
    conv: Conv,
    /// tile origin and size, in units of 2 pixels, scaled to the image
    t: [u16; 4],
    l2: Lay,
    d2: Lay,
    noise: u32,
}

fn c07_check(t: &Tile, cx: &mut Ctx) -> Result<(), Fail> {
    let c = &t.conv;
    // (a) the same samples in another memory layout give the same result, bit for bit
    let p = c.content.fill(c.src, c.w, c.h);
    let mut s0 = Built::new(0, c.src, c.w, c.h, c.sc.lib(), &Lay::packed()).or_fail("build")?;
    s0.put(&p);
    let mut d0 = Built::new(1, c.dst, c.w, c.h, c.dc.lib(), &Lay::packed()).or_fail("build")?;
    convert(s0.r(), d0.m()).or_fail("convert-error")?;
    let full = d0.get();
    let (s1, mut d1, _) = c.build_slots(2, 3).or_fail("build")?;
    convert(s1.r(), d1.m()).or_fail("convert-error")?;
    if let Some(e) = d1.get().diff(&full, 0) {
        return fail("layout", format!("{:?} {:?} -> {:?} {:?} {}x{}: memory layout changes the result: {e} (this layout vs packed)", c.src, c.sc, c.dst, c.dc, c.w, c.h));
    }
    // (b) a tile converted on its own equals the same tile of the converted whole, and what lies
    // outside the tile does not matter
    let pick = |r: u16, n: usize| r as usize * n >> 16;
    let (bw, bh) = (c.w / 2, c.h / 2);
    let x = pick(t.t[0], bw);
    let y = pick(t.t[1], bh);
    let w = 1 + pick(t.t[2], bw - x);
    let h = 1 + pick(t.t[3], bh - y);
    let (x, y, w, h) = (x * 2, y * 2, w * 2, h * 2);
    let mut noisy = Content { kind: 5, seed: t.noise, v: [0; 4], over: false }.fill(c.src, c.w, c.h);
    let tile = p.crop(x, y, w, h);
    for k in 0..c.src.ncomp() {
        let (cw, ch) = c.src.comp_dims(k, w, h);
        let (sx, sy) = if k == 0 || c.src.is_rgb() { (1, 1) } else { c.src.sub() };
        for yy in 0..ch {
            for xx in 0..cw {
                noisy.set(k, x / sx + xx, y / sy + yy, tile.at(k, xx, yy));
            }
        }
    }
    let mut s2 = Built::new(4, c.src, c.w, c.h, c.sc.lib(), &t.l2).or_fail("build")?;
    s2.put(&noisy);
    let win = Window { x, y, width: w, height: h };
    let view = TileView { img: &*s2.img, win };
    let cropped = Cropped::new(&view, win).or_fail("crop")?;
    let mut d2 = Built::new(5, c.dst, w, h, c.dc.lib(), &t.d2).or_fail("build")?;
    convert(&cropped, d2.m()).or_fail("convert-error")?;
    let want = full.crop(x, y, w, h);
    let got = d2.get();
    let exact = c.linear_only();
    if let Some(e) = got.diff(&want, 0) {
        // scalar and vector code may order the arithmetic differently and have their own pow, log
        // and exp; where that shows, both must satisfy the reference
        let r = refmodel::convert_ref(&tile, &c.sc, c.dst, &c.dc).expect("valid");
        if exact || got.diff(&want, 1).is_some() {
            for (n, g) in [("alone", &got), ("whole", &want)] {
                if let Err(e2) = r.compare(g) {
                    return fail("tile", format!("{:?} {:?} -> {:?} {:?}: tile {win:?} of {}x{} differs: {e} (alone vs whole); {n}: {e2}", c.src, c.sc, c.dst, c.dc, c.w, c.h));
                }
            }
            cx.count("tiles explained by interval", 1);
        }
    }
    cx.nontrivial = varied(&p) && (w, h) != (c.w, c.h);
    cx.label(if exact { "plain arithmetic" } else { "transfer functions" });
    cx.label(match ((x / 2) % 8 != 0, w < 16) {
        (_, true) => "tile in scalar path",
        (true, _) => "tile shifts vector lanes",
        _ => "tile lane-aligned",
    });
    Ok(())
}

/// `Cropped` wants a sized image; this forwards to the trait object.
pub struct TileView<'a> {
    pub img: &'a dyn ImageRef,
    pub win: Window,
}
unsafe impl ImageRef for TileView<'_> {
    fn format(&self) -> PixelFormat {
        self.img.format()
    }
    fn width(&self) -> usize {
        self.img.width()
    }
    fn height(&self) -> usize {
        self.img.height()
    }
    fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
        self.img.planes()
    }
    fn color(&self) -> ColorInfo {
        self.img.color()
    }
}

fn c07() -> BoxedStrategy<Tile> {
    (conv_any(lay), prop::array::uniform4(any::<u16>()), lay(), lay(), any::<u32>())
        .prop_map(|(conv, t, l2, d2, noise)| {
            let l2 = l2.aligned(conv.src);
            let d2 = d2.aligned(conv.dst);
            Tile { conv, t, l2, d2, noise }
        })
        .boxed()
}

// ---- C08 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Multi {
    conv: Conv,
    threads: u8,
    tall: u8,
    /// 0..=5 valid; others make the call invalid in one way
    fault: u8,
    /// where the multi-threaded call is made: 0 plainly, 1 inside a rayon pool of `par` threads,
    /// 2 from `par` threads at the same time (each with images of its own)
    #[serde(default)]
    ctx: u8,
    #[serde(default)]
    par: u8,
}

#[cfg(feature = "multi-thread")]
fn in_pool<R: Send>(n: usize, f: impl FnOnce() -> R + Send) -> R {
    use std::sync::{Mutex, OnceLock};
    static POOLS: OnceLock<Mutex<std::collections::HashMap<usize, std::sync::Arc<rayon::ThreadPool>>>> = OnceLock::new();
    let pool = POOLS
        .get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry(n)
        .or_insert_with(|| std::sync::Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()))
        .clone();
    pool.install(f)
}
#[cfg(not(feature = "multi-thread"))]
fn in_pool<R: Send>(_: usize, f: impl FnOnce() -> R + Send) -> R {
    f()
}

pub fn err_name(e: &ConvertError) -> &'static str {
    match e {
        ConvertError::OddImageDimensions => "OddImageDimensions",
        ConvertError::MismatchedImageSize => "MismatchedImageSize",
        ConvertError::InvalidColorInfo => "InvalidColorInfo",
        ConvertError::BoundsCheck(_) => "BoundsCheck",
        ConvertError::InvalidNumberOfPlanes(_) => "InvalidNumberOfPlanes",
    }
}

fn c08_check(m: &Multi, cx: &mut Ctx) -> Result<(), Fail> {
    let mut c = m.conv.clone();
    c.h = (c.h + 2 * m.tall as usize).min(c.h.max(96));
    let (mut dw, mut dh) = (c.w, c.h);
    match m.fault {
        6 => dw += 2,
        7 => dh += 2,
        8 => {
            c.w += 1;
            dw = c.w;
        }
        9 => {
            c.h += 1;
            dh = c.h;
        }
        10 => c.sc.rgb = true,
        11 => c.dc.rgb = true,
        _ => {}
    }
    let p = c.content.fill(c.src, c.w, c.h);
    let mut outs = vec![];
    for (k, multi) in [(0usize, false), (1, true)] {
        let mut s = Built::new(0, c.src, c.w, c.h, c.sc.lib(), &c.sl).or_fail("build")?;
        s.put(&p);
        let mut d = Built::new(1 + k, c.dst, dw, dh, c.dc.lib(), &c.dl).or_fail("build")?;
        // fault 12/13: a custom image that is too small; 14: custom image of height or width zero
        let r = match m.fault {
            12..=15 => {
                let z = |b: &Built, zw: bool, zh: bool, cut: bool| Custom {
                    fmt: b.fmt.pf(),
                    w: if zw { 0 } else { b.pw & !1 },
                    h: if zh { 0 } else { b.ph & !1 },
                    planes: (0..b.fmt.nplanes())
                        .map(|i| {
                            let (a, o) = b.base[i];
                            let full = b.strides[i] * b.fmt.rows(i, b.ph);
                            let len = full.min(b.alloc[a].len() - o);
                            let len = if cut && i + 1 == b.fmt.nplanes() { len / 3 } else { len };
                            (b.alloc[a].sub(o, len), b.strides[i])
                        })
                        .collect(),
                    color: b.img.color(),
                };
                let (zw, zh) = (m.fault == 14, m.fault == 15);
                // same (parent) size on both sides
                if s.pw & !1 != d.pw & !1 || s.ph & !1 != d.ph & !1 {
                    return Ok(());
                }
                let cs = z(&s, zw, zh, m.fault == 12);
                let mut cd = z(&d, zw, zh, m.fault == 13);
                no_panic(|| {
                    if multi {
                        with_threads(m.threads as usize, || convert_mt(&cs, &mut cd))
                    } else {
                        convert(&cs, &mut cd)
                    }
                })
            }
            _ => no_panic(|| {
                if multi {
                    with_threads(m.threads as usize, || convert_mt(s.r(), d.m()))
                } else {
                    convert(s.r(), d.m())
                }
            }),
        };
        let r = r.map(|r| r.map_err(|e| err_name(&e)));
        s.untouched().map_err(|e| Fail { sig: "source".into(), msg: format!("source image modified: {e}") })?;
        let bytes: Vec<Vec<u8>> = d.alloc.iter().map(|a| a.get().to_vec()).collect();
        outs.push((r, bytes, d.alloc.iter().all(|a| a.canary_ok())));
    }
    let (a, b) = (&outs[0], &outs[1]);
    let what = format!("{:?} {:?} -> {:?} {:?} {}x{} threads {}", c.src, c.sc, c.dst, c.dc, c.w, c.h, m.threads);
    if a.0 != b.0 {
        return fail("outcome", format!("{what}: single-threaded gives {:?}, multi-threaded gives {:?}", a.0, b.0));
    }
    if let Err(pn) = &a.0 {
        return fail("panic", format!("{what}: {pn}"));
    }
    if a.1 != b.1 {
        let i = a.1.iter().zip(&b.1).position(|(x, y)| x != y).unwrap();
        let o = a.1[i].iter().zip(&b.1[i]).position(|(x, y)| x != y).unwrap();
        return fail("bytes", format!("{what}: destination byte {o} of buffer {i} is {} single-threaded and {} multi-threaded", a.1[i][o], b.1[i][o]));
    }
    if !b.2 {
        return fail("canary", format!("{what}: bytes beside the destination changed"));
    }
    // the same call in other surroundings: what else is going on must not matter
    if m.ctx > 0 && m.fault < 12 {
        let one = || -> Result<(Result<Result<(), &'static str>, String>, Vec<Vec<u8>>), Fail> {
            let mut s = Built::new(0, c.src, c.w, c.h, c.sc.lib(), &c.sl).or_fail("build")?;
            s.put(&p);
            let mut d = Built::new(3, c.dst, dw, dh, c.dc.lib(), &c.dl).or_fail("build")?;
            let r = no_panic(|| with_threads(m.threads as usize, || convert_mt(s.r(), d.m())));
            let r = r.map(|r| r.map_err(|e| err_name(&e)));
            Ok((r, d.alloc.iter().map(|a| a.get().to_vec()).collect()))
        };
        let par = m.par.clamp(1, 8) as usize;
        let all: Vec<_> = if m.ctx == 1 {
            vec![in_pool(par, one)]
        } else {
            std::thread::scope(|sc| {
                let hs: Vec<_> = (0..par).map(|_| sc.spawn(one)).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("panic", "thread panicked"))).collect()
            })
        };
        for r in all {
            let (r, bytes) = r?;
            let place = if m.ctx == 1 { format!("inside a pool of {par} threads") } else { format!("called from {par} threads at the same time") };
            if r != a.0 {
                return fail("outcome", format!("{what}, {place}: {r:?}, single-threaded gives {:?}", a.0));
            }
            if bytes != a.1 {
                return fail("bytes", format!("{what}, {place}: result differs from the single-threaded one"));
            }
        }
        cx.label(if m.ctx == 1 { "inside a rayon pool" } else { "several calls at once" });
    }
    cx.nontrivial = m.fault < 6 && varied(&p) && m.threads > 1 && !c.is_copy();
    cx.label(match &a.0 {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(e)) => format!("error {e}"),
        Err(_) => "panic".into(),
    });
    cx.label(format!("{} threads", m.threads));
    let sec = c.h / 2;
    cx.label(if sec < m.threads as usize {
        "fewer row pairs than threads"
    } else if sec % m.threads as usize == 0 {
        "even split"
    } else {
        "uneven split"
    });
    Ok(())
}

fn c08() -> BoxedStrategy<Multi> {
    (
        conv_any(lay),
        1u8..9,
        prop_oneof![2 => Just(0u8), 2 => 0u8..16, 1 => 0u8..40],
        prop_oneof![8 => 0u8..6, 2 => 6u8..16],
        prop_oneof![6 => Just(0u8), 1 => Just(1), 1 => Just(2)],
        1u8..6,
    )
        .prop_map(|(conv, threads, tall, fault, ctx, par)| Multi { conv, threads, tall, fault, ctx, par })
        .boxed()
}

// ---- C09 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Frame {
    conv: Conv,
    api: Api,
    threads: u8,
    pre2: u32,
    fault: u8,
}

fn c09_check(f: &Frame, cx: &mut Ctx) -> Result<(), Fail> {
    let mut c = f.conv.clone();
    if f.api == Api::Copy {
        // `copy` is only defined for equal formats; it ignores colour
        c.dst = c.src;
        c.dc = c.sc;
        c = c.fix();
    }
    let (mut dw, mut dh) = (c.w, c.h);
    match f.fault {
        6 => dw += 2,
        7 => dh += 2,
        8 => {
            c.w += 1;
            dw += 1
        }
        9 => {
            c.h += 1;
            dh += 1
        }
        10 => c.sc.rgb = true,
        11 => c.dc.rgb = true,
        _ => {}
    }
    let p = c.content.fill(c.src, c.w, c.h);
    let mut res = vec![];
    for pre in [c.dl.prefill, f.pre2 ^ 0x8000_0000 ^ c.dl.prefill] {
        let mut s = Built::new(0, c.src, c.w, c.h, c.sc.lib(), &c.sl).or_fail("build")?;
        s.put(&p);
        let dl = Lay { prefill: (pre & !1) | (c.dl.prefill & 1), ..c.dl.clone() };
        let mut d = Built::new(1, c.dst, dw, dh, c.dc.lib(), &dl).or_fail("build")?;
        let r = with_threads(f.threads as usize, || call(f.api, s.r(), d.m()));
        s.untouched().map_err(|e| Fail { sig: "source".into(), msg: format!("{:?}: source image modified: {e}", f.api) })?;
        let what = format!("{:?} {:?} -> {:?} {dw}x{dh}", f.api, c.src, c.dst);
        match &r {
            Ok(()) => d.frame_ok().map_err(|e| Fail { sig: "frame".into(), msg: format!("{what}: {e}") })?,
            Err(e) => {
                let e = err_name(e);
                d.untouched().map_err(|x| Fail { sig: "error-frame".into(), msg: format!("{what}: failed with {e} but {x}") })?
            }
        }
        res.push((r.is_ok(), d.get()));
    }
    if res[0].0 != res[1].0 {
        return fail("prior-content", "outcome depends on the destination's previous content".to_string());
    }
    if res[0].0 {
        if let Some(e) = res[0].1.diff(&res[1].1, 0) {
            return fail("prior-content", format!("{:?} {:?} -> {:?} {}x{}: result depends on what the destination held before: {e}", f.api, c.src, c.dst, c.w, c.h));
        }
    }
    cx.nontrivial = c.dl.nontrivial() || f.fault >= 6;
    cx.label(format!("{:?}", f.api));
    cx.label(if res[0].0 { "ok" } else { "refused" });
    Ok(())
}

fn c09() -> BoxedStrategy<Frame> {
    (conv_any(lay), api(), 1u8..9, any::<u32>(), prop_oneof![8 => 0u8..6, 2 => 6u8..12])
        .prop_map(|(conv, api, threads, pre2, fault)| Frame { conv, api, threads, pre2, fault })
        .boxed()
}

// ---- C10 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawPlane {
    /// how the stride relates to the minimum: added to it (may go below)
    dstride: i16,
    /// 0: generous, 1: exactly rows*stride, 2: minus the last row's padding, 3: one byte less,
    /// 4: random fraction, 5: empty
    len: u8,
    frac: u16,
    /// not 0: a stride near the integer limits
    #[serde(default)]
    huge: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawImg {
    fmt: Fmt,
    planes: Vec<RawPlane>,
    col: Col,
    mis: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    a: RawImg,
    b: RawImg,
    w: usize,
    h: usize,
    w2: usize,
    h2: usize,
    api: u8,
    threads: u8,
    same: bool,
    seed: u32,
    win: [u16; 4],
    /// not 0: the source / destination claims a size near the integer limits
    #[serde(default)]
    claim: [u8; 2],
}

/// numbers where arithmetic on sizes overflows
pub fn limit(k: u8, rows: usize) -> usize {
    let r = rows.max(1);
    match k % 12 {
        0 => usize::MAX,
        1 => usize::MAX - 1,
        2 => usize::MAX / 2 + 1,
        3 => isize::MAX as usize - 1,
        4 => usize::MAX / r + 1,
        5 => usize::MAX / r,
        6 => (usize::MAX / r + 2) & !1,
        7 => usize::MAX / 4 + 2,
        8 => usize::MAX / 3 + 3,
        9 => 1 << 32,
        10 => (1 << 63) / r * 2,
        _ => usize::MAX / r / 2 + 1,
    }
}

/// Is an image with these planes sufficient? Some(true) surely, Some(false) surely not, None: only
/// the last row's padding is missing, either answer is fine.
pub fn sufficient(fmt: Fmt, planes: &[(usize, usize)], w: usize, h: usize) -> Option<bool> {
    let mut sure = true;
    if planes.len() < fmt.nplanes() {
        return Some(false);
    }
    for p in 0..fmt.nplanes() {
        let (len, stride) = planes[p];
        let row = super::layout::big_row(fmt, p, w);
        let rows = super::layout::big_rows(fmt, p, h);
        let (len, stride) = (len as u128, stride as u128);
        if stride < row {
            return Some(false);
        }
        if rows > 0 && len < stride * (rows - 1) + row {
            return Some(false);
        }
        if len < stride * rows {
            sure = false;
        }
    }
    if sure {
        Some(true)
    } else {
        None
    }
}

fn raw_build(slot: usize, r: &RawImg, w: usize, h: usize, seed: u32) -> (Custom, Vec<(usize, usize)>) {
    let mut planes = vec![];
    let mut desc = vec![];
    let mut rng = Rng(seed as u64 + slot as u64);
    for (i, p) in r.planes.iter().enumerate() {
        let pi = i.min(r.fmt.nplanes() - 1);
        let row = r.fmt.row_bytes(pi, w);
        let rows = r.fmt.rows(pi, h);
        let stride = match p.huge {
            0 => (row as i64 + p.dstride as i64).max(0) as usize,
            k => limit(k - 1, rows),
        };
        let cap = row * rows + 100;
        let full = if p.huge == 0 { stride * rows } else { stride.saturating_mul(rows).min(cap) };
        let short = match rows {
            0 => 0,
            1 => row,
            _ if p.huge > 0 => stride.saturating_mul(rows - 1).min(cap),
            _ => stride * (rows - 1) + row,
        };
        let len = match p.len {
            0 => full + (p.frac as usize % 300),
            1 => full,
            2 => short,
            3 => short.saturating_sub(1 + p.frac as usize % 3),
            4 => (full + 16) * p.frac as usize >> 16,
            _ => 0,
        };
        let g = GBuf::new(slot * 4 + i, len, true, r.mis as usize);
        for b in g.get_mut() {
            *b = rng.next() as u8;
        }
        planes.push((g, stride));
        desc.push((len, stride));
    }
    (Custom { fmt: r.fmt.pf(), w, h, planes, color: r.col.lib() }, desc)
}

/// nothing but window samples may change
#[allow(clippy::too_many_arguments)]
fn changed(before: &[Vec<u8>], planes: &[GBuf], dd: &[(usize, usize)], b: &RawImg, w: usize, h: usize, refused: bool, what: &str) -> Result<(), Fail> {
    for (p, g) in planes.iter().enumerate() {
        if !g.canary_ok() {
            return fail("canary", format!("bytes before plane {p} were changed: {what}"));
        }
        let used = p < b.fmt.nplanes();
        let (len, stride) = dd[p];
        for (i, (o, n)) in before[p].iter().zip(g.get()).enumerate() {
            if o != n {
                if refused {
                    return fail("error-frame", format!("refused but the destination was modified: {what}"));
                }
                let inside = used
                    && stride > 0
                    && ((i / stride) as u128) < super::layout::big_rows(b.fmt, p, h)
                    && ((i % stride) as u128) < super::layout::big_row(b.fmt, p, w);
                if !inside {
                    return fail("frame", format!("byte {i} of plane {p} (len {len}) outside the image was changed: {what}"));
                }
            }
        }
    }
    Ok(())
}

fn c10_check(c: &Raw, cx: &mut Ctx) -> Result<(), Fail> {
    let (mut w2, mut h2) = if c.same { (c.w, c.h) } else { (c.w2, c.h2) };
    let mut a = c.a.clone();
    let mut b = c.b.clone();
    if c.api == 2 || c.api == 4 && c.seed % 16 != 0 {
        b.fmt = a.fmt;
    }
    if c.api == 4 {
        // the resizer does not take 16 bit planes at odd addresses, see C14
        for r in [&mut a, &mut b] {
            if r.fmt.bps() == 2 {
                r.mis &= !1;
                for p in &mut r.planes {
                    p.dstride &= !1;
                    p.frac &= !1;
                    p.huge = 0;
                    // the buffer ends at a page, so an odd length makes an odd address
                    if p.len == 3 || p.len == 4 {
                        p.len = 5;
                    }
                }
            }
        }
    }
    let (mut src, sd) = raw_build(0, &a, c.w, c.h, c.seed);
    let (mut dst, dd) = raw_build(1, &b, w2, h2, c.seed);
    // claim another size than the one the planes were made for
    let lie = |k: u8, w: usize, h: usize| match k {
        0 => (w, h),
        255 => (0, limit(c.seed as u8, 1) & !1),
        k if k & 1 == 1 => (limit(k >> 1, 2) & !1, h),
        k => (w.max(2), limit(k >> 1, w.max(2)) & !1),
    };
    let mut c = c.clone();
    (c.w, c.h) = lie(c.claim[0], c.w, c.h);
    (w2, h2) = if c.same && c.claim[0] != 0 { (c.w, c.h) } else { lie(c.claim[1], w2, h2) };
    (src.w, src.h, dst.w, dst.h) = (c.w, c.h, w2, h2);
    let c = c;
    let (ss, ds) = (sufficient(c.a.fmt, &sd, c.w, c.h), sufficient(b.fmt, &dd, w2, h2));
    let what = format!("src {:?} {}x{} planes(len,stride) {sd:?}; dst {:?} {w2}x{h2} planes {dd:?}", c.a.fmt, c.w, c.h, b.fmt);

    // the bounds check itself
    for (im, suff) in [(&src, ss), (&dst, ds)] {
        let r = no_panic(|| im.bounds_check()).map_err(|p| Fail { sig: "panic".into(), msg: format!("bounds_check panicked: {p}; {what}") })?;
        match (suff, r.is_ok()) {
            (Some(false), true) => return fail("bounds-check", format!("bounds_check accepts an insufficient image: {what}")),
            (Some(true), false) => return fail("bounds-check", format!("bounds_check refuses a sufficient image: {what}")),
            _ => {}
        }
    }

    let src_bytes: Vec<Vec<u8>> = src.planes.iter().map(|p| p.0.get().to_vec()).collect();
    let dst_bytes: Vec<Vec<u8>> = dst.planes.iter().map(|p| p.0.get().to_vec()).collect();
    let dst_planes: Vec<GBuf> = dst.planes.iter().map(|p| p.0).collect();
    let valid_args = (c.w, c.h) == (w2, h2)
        && c.w % 2 == 0
        && c.h % 2 == 0
        && (c.api == 2
            || ((c.a.fmt.is_rgb() || !c.a.col.rgb) && (b.fmt.is_rgb() || !b.col.rgb))
            || (c.a.fmt == b.fmt && c.a.col.same(&b.col)));

    if c.api == 3 {
        // cropping an arbitrary image and converting the view
        let pick = |r: u16, n: usize| (r as u128 * (n as u128 + 1) >> 16) as usize;
        let x = pick(c.win[0], c.w);
        let y = pick(c.win[1], c.h);
        let win = Window { x, y, width: pick(c.win[2], c.w - x) & !1, height: pick(c.win[3], c.h - y) & !1 };
        let r = no_panic(|| {
            Cropped::new(&src, win).map(|v| {
                // walk every byte the view exposes, then convert it
                let mut sum = 0u64;
                for (p, _) in v.planes() {
                    sum += p.iter().map(|b| *b as u64).sum::<u64>();
                }
                std::hint::black_box(sum);
                let bc = v.bounds_check().is_ok();
                let mut out = Image::blank(PixelFormat::RGB, win.width, win.height, Col { rgb: false, ..c.a.col }.lib());
                let r = convert(&v, &mut out).is_ok();
                (bc, r)
            })
        })
        .map_err(|p| Fail { sig: "panic".into(), msg: format!("cropping {win:?} panicked: {p}; {what}") })?;
        match (&r, ss) {
            (Ok(_), Some(false)) => return fail("crop-accept", format!("crop of an insufficient image accepted: {what}")),
            (Err(e), Some(true)) => return fail("crop-refuse", format!("crop {win:?} of a sufficient image refused ({e}): {what}")),
            (Ok((false, _)), _) => return fail("crop-view", format!("view {win:?} does not pass its own bounds check: {what}")),
            (Ok((_, false)), _) if !c.a.col.rgb || c.a.fmt.is_rgb() => {
                return fail("crop-view", format!("view {win:?} of a sufficient image cannot be converted: {what}"))
            }
            _ => {}
        }
        cx.label(if r.is_ok() { "crop accepted" } else { "crop refused" });
    } else if c.api == 4 {
        #[cfg(feature = "resize")]
        {
            use ezk_image::resize::*;
            let alg = match c.win[0] % 4 {
                0 => ResizeAlg::Nearest,
                1 => ResizeAlg::Convolution(FilterType::Bilinear),
                2 => ResizeAlg::Interpolation(FilterType::CatmullRom),
                _ => ResizeAlg::SuperSampling(FilterType::Lanczos3, 2),
            };
            let r = no_panic(|| Resizer::new(alg).resize(&src, &mut dst)).map_err(|p| Fail { sig: "panic".into(), msg: format!("resize panicked: {p}; {what}") })?;
            match &r {
                Ok(()) if ss == Some(false) || ds == Some(false) => return fail("accepted", format!("resizing with an insufficient image succeeded: {what}")),
                Ok(()) if a.fmt != b.fmt => return fail("accepted", format!("resizing between formats succeeded: {what}")),
                Err(e) if ss == Some(true) && ds == Some(true) && a.fmt == b.fmt => {
                    return fail("refused", format!("resizing between sufficient images failed with {e}: {what}"))
                }
                _ => {}
            }
            cx.label(if r.is_ok() { "resize accepted" } else { "resize refused" });
            changed(&dst_bytes, &dst_planes, &dd, &b, w2, h2, r.is_err(), &what)?;
        }
    } else {
        let r = no_panic(|| {
            with_threads(c.threads as usize, || match c.api {
                0 => convert(&src, &mut dst),
                1 => convert_mt(&src, &mut dst),
                _ => copy(&src, &mut dst),
            })
        })
        .map_err(|p| Fail { sig: "panic".into(), msg: format!("call {} panicked: {p}; {what}", c.api) })?;
        if r.is_ok() && (ss == Some(false) || ds == Some(false)) {
            return fail("accepted", format!("conversion with an insufficient image succeeded: {what}"));
        }
        if let Err(e) = &r {
            if ss == Some(true) && ds == Some(true) && valid_args {
                return fail("refused", format!("conversion between sufficient images failed with {}: {what}", err_name(e)));
            }
        }
        changed(&dst_bytes, &dst_planes, &dd, &b, w2, h2, r.is_err(), &what)?;
        cx.label(match &r {
            Ok(()) => "ok",
            Err(e) => err_name(e),
        });
    }
    for (bts, p) in src_bytes.iter().zip(&src.planes) {
        if bts != p.0.get() {
            return fail("source", format!("source was modified: {what}"));
        }
    }
    if c.claim != [0, 0] {
        cx.label("claims a size near the integer limits");
    }
    if sd.iter().chain(&dd).any(|p| p.1 >= 1 << 32) {
        cx.label("stride near the integer limits");
    }
    cx.nontrivial = ss != Some(true) || ds != Some(true) || c.api == 3;
    Ok(())
}

fn raw_img() -> BoxedStrategy<RawImg> {
    let plane = (
        prop_oneof![5 => Just(0i16), 3 => 0i16..40, 1 => -8i16..0, 1 => -300i16..300],
        prop_oneof![4 => Just(0u8), 4 => Just(1), 3 => Just(2), 1 => Just(3), 1 => Just(4), 1 => Just(5)],
        any::<u16>(),
        prop_oneof![6 => Just(0u8), 1 => 1u8..13],
    )
        .prop_map(|(dstride, len, frac, huge)| RawPlane { dstride, len, frac, huge });
    // mostly well-formed images so that one flaw at a time is common
    let good = (0i16..8, 0u8..3, any::<u16>()).prop_map(|(dstride, len, frac)| RawPlane { dstride, len, frac, huge: 0 });
    (
        fmt(),
        prop::collection::vec(good.clone(), 4..5),
        prop::option::of((0usize..4, plane.clone())),
        prop_oneof![5 => Just(0u8), 1 => Just(1u8), 1 => Just(2)],
        col(sp()),
        0u8..4,
        prop::option::weighted(0.2, prop::collection::vec(plane, 0..5)),
    )
        .prop_map(|(fmt, mut g, flaw, count, mut col, mis, all)| {
            if !fmt.is_rgb() && mis != 3 {
                col.rgb = false;
            }
            let n = fmt.nplanes();
            let planes = match all {
                Some(mut a) => {
                    a.truncate(4);
                    a
                }
                None => {
                    if let Some((i, p)) = flaw {
                        g[i % n] = p;
                    }
                    g.truncate(match count {
                        1 => n - 1,
                        2 => (n + 1).min(4),
                        _ => n,
                    });
                    g
                }
            };
            RawImg { fmt, planes, col, mis }
        })
        .boxed()
}

fn c10() -> BoxedStrategy<Raw> {
    let d = || prop_oneof![10 => Just(0usize), 60 => (1usize..40).prop_map(|v| v * 2), 20 => 0usize..70, 1 => 70usize..4200];
    let e = || prop_oneof![10 => Just(0usize), 60 => (1usize..6).prop_map(|v| v * 2), 20 => 0usize..12, 1 => 12usize..500];
    (
        (raw_img(), raw_img(), d(), e(), d(), e()),
        prop_oneof![3 => Just(0u8), 2 => Just(1), 1 => Just(2), 3 => Just(3), 2 => Just(4)],
        1u8..9,
        prop::bool::weighted(0.85),
        any::<u32>(),
        prop::array::uniform4(any::<u16>()),
        prop_oneof![40 => Just([0u8; 2]), 1 => prop::array::uniform2(prop_oneof![2 => Just(0u8), 4 => 1u8..25, 1 => Just(255)])],
    )
        .prop_map(|((a, b, w, h, w2, h2), api, threads, same, seed, win, claim)| Raw { a, b, w, h, w2, h2, api, threads, same, seed, win, claim })
        .boxed()
}

// ---- C13 -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Args {
    conv: Conv,
    dw: i8,
    dh: i8,
    odd: [bool; 2],
    rgb: [bool; 2],
    api: Api,
    threads: u8,
}

fn c13_check(a: &Args, cx: &mut Ctx) -> Result<(), Fail> {
    let mut c = a.conv.clone();
    c.w += a.odd[0] as usize;
    c.h += a.odd[1] as usize;
    c.sc.rgb = a.rgb[0];
    c.dc.rgb = a.rgb[1];
    if a.api == Api::Copy {
        c.dst = c.src;
        c.dl = c.dl.aligned(c.dst);
    }
    let dw = (c.w as i64 + a.dw as i64).max(1) as usize;
    let dh = (c.h as i64 + a.dh as i64).max(1) as usize;
    let p = c.content.fill(c.src, c.w, c.h);
    let mut s = Built::new(0, c.src, c.w, c.h, c.sc.lib(), &c.sl).or_fail("build")?;
    s.put(&p);
    let mut d = Built::new(1, c.dst, dw, dh, c.dc.lib(), &c.dl).or_fail("build")?;
    let r = no_panic(|| with_threads(a.threads as usize, || call(a.api, s.r(), d.m())))
        .map_err(|p| Fail { sig: "panic".into(), msg: format!("{a:?}: {p}") })?;
    let size = (dw, dh) != (c.w, c.h);
    let odd = c.w % 2 == 1 || c.h % 2 == 1 || dw % 2 == 1 || dh % 2 == 1;
    let copy_path = c.src == c.dst && c.sc.same(&c.dc);
    let color = a.api != Api::Copy && !copy_path && ((!c.src.is_rgb() && c.sc.rgb) || (!c.dst.is_rgb() && c.dc.rgb));
    let what = format!("{:?} {:?} {:?} {}x{} -> {:?} {:?} {dw}x{dh}", a.api, c.src, c.sc, c.w, c.h, c.dst, c.dc);
    let name = match &r {
        Ok(()) => "ok",
        Err(e) => err_name(e),
    };
    let expect: Vec<&str> = if !size && !odd && !color {
        vec!["ok"]
    } else {
        let mut v = vec![];
        if size {
            v.push("MismatchedImageSize");
        }
        if odd {
            v.push("OddImageDimensions");
        }
        if color {
            v.push("InvalidColorInfo");
        }
        v
    };
    if !expect.contains(&name) {
        return fail("outcome", format!("{what}: got {name}, expected one of {expect:?}"));
    }
    cx.nontrivial = true;
    cx.label(format!("{:?}: {name}", a.api));
    cx.label(format!("{:?}->{:?}", c.src, c.dst));
    Ok(())
}

fn c13() -> BoxedStrategy<Args> {
    (
        conv_any(lay_light),
        prop_oneof![7 => Just((0i8, 0i8)), 1 => (-4i8..5, Just(0)), 1 => (Just(0), -4i8..5), 1 => (-4i8..5, -4i8..5)],
        prop::array::uniform2(prop::bool::weighted(0.15)),
        prop::array::uniform2(prop::bool::weighted(0.25)),
        api(),
        1u8..9,
    )
        .prop_map(|(conv, (dw, dh), odd, rgb, api, threads)| Args { conv, dw, dh, odd, rgb, api, threads })
        .boxed()
}

pub fn entries() -> Vec<Entry> {
    let mut v = vec![
        entry("C05", 250000, 5000000,
            "same format and colour on both sides, random layouts on both, via convert / convert_multi_thread / copy; 16-bit containers also hold values above the nominal maximum; non-trivial: source varies",
            c05(), c05_check),
        entry("C06", 1000000, 20000000,
            "chains of 2-4 conversions through formats that can carry the start format, back to the start; non-trivial: source varies",
            c06(), c06_check),
        entry("C07", 500000, 10000000,
            "one conversion repeated in another memory layout, and one random tile of it converted alone with everything outside the tile replaced by noise; non-trivial: source varies and the tile is a proper part",
            c07(), c07_check),
        entry("C09", 250000, 5000000,
            "destination memory filled with two different patterns around and inside the window, random layouts, valid and refused calls; non-trivial: destination has memory outside its samples, or the call is refused",
            c09(), c09_check),
        entry("C10", 400000, 8000000,
            "user-implemented images with random plane counts, strides and lengths (each plane ends at an inaccessible page), odd and zero sizes, passed to convert, convert_multi_thread, copy, bounds_check and crop; non-trivial: at least one image is not fully sufficient, or a crop is taken",
            c10(), c10_check),
        entry("C13", 400000, 8000000,
            "random argument combinations, valid or with size mismatch, odd sizes or colour info that does not fit, through all entry points; every case is non-trivial",
            c13(), c13_check),
    ];
    if cfg!(feature = "multi-thread") {
        v.push(entry("C08", 200000, 4000000,
            "the same call through convert and convert_multi_thread with 1..8 CPUs visible, heights from 2 to 96 (some up to 2200), valid and invalid arguments, plainly, inside rayon pools of 1-5 threads and from 1-5 threads at once; non-trivial: valid, more than one thread, source varies and it is no plain copy",
            c08(), c08_check));
    }
    v
}
