//! Shared generators.

use crate::img::*;
use crate::spec::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

pub fn dims() -> BoxedStrategy<(usize, usize)> {
    let w = prop_oneof![
        3 => (1usize..=9).prop_map(|v| v * 2),
        4 => (1usize..=24).prop_map(|v| v * 2),
        3 => ((1usize..=6), (-1isize..=1)).prop_map(|(k, d)| (k as isize * 16 + d * 2) as usize),
        1 => (24usize..=70).prop_map(|v| v * 2),
    ];
    let h = prop_oneof![5 => (1usize..=3).prop_map(|v| v * 2), 2 => (1usize..=8).prop_map(|v| v * 2)];
    prop_oneof![80 => (w, h), 1 => big()].boxed()
}

/// Dimensions in the hundreds and thousands: nothing in the properties depends on the size
pub fn big() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        (prop_oneof![70usize..=300, 300usize..=2200], 1usize..=2).prop_map(|(w, h)| (w * 2, h * 2)),
        (1usize..=18, prop_oneof![9usize..=150, 150usize..=1100]).prop_map(|(w, h)| (w * 2, h * 2)),
        (30usize..=150, 9usize..=60).prop_map(|(w, h)| (w * 2, h * 2)),
        huge(),
    ]
    .boxed()
}

/// Too wide or too high for 16 bit
pub fn huge() -> BoxedStrategy<(usize, usize)> {
    (32700usize..=33000, any::<bool>()).prop_map(|(n, tall)| if tall { (2, n * 2) } else { (n * 2, 2) }).boxed()
}

pub fn content() -> BoxedStrategy<Content> {
    (
        prop_oneof![1 => Just(0u8), 1 => Just(1), 2 => Just(2), 1 => Just(3), 2 => Just(4), 5 => Just(5), 1 => Just(6), 1 => Just(7)],
        any::<u32>(),
        prop::array::uniform4(any::<u16>()),
    )
        .prop_map(|(kind, seed, v)| Content { kind, seed, v, over: false })
        .boxed()
}

pub fn content_over() -> BoxedStrategy<Content> {
    (content(), any::<bool>()).prop_map(|(c, over)| Content { over, ..c }).boxed()
}

fn margin() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(0u8), 4 => 0u8..8, 2 => 0u8..40].boxed()
}

/// arbitrary layouts (crop origin not necessarily aligned)
pub fn lay() -> BoxedStrategy<Lay> {
    let rnd = (
        0u8..3,
        prop::array::uniform3(prop_oneof![2 => Just(0u16), 3 => 0u16..9, 2 => 0u16..70]),
        prop::array::uniform3(prop_oneof![3 => Just(0u16), 1 => 0u16..80, 1 => 0u16..600]),
        any::<bool>(),
        prop_oneof![2 => Just(0u8), 1 => 0u8..33],
        prop_oneof![2 => Just([0u8; 4]), 3 => prop::array::uniform4(margin())],
        any::<bool>(),
        prop::bool::weighted(0.3),
        any::<u32>(),
    )
        .prop_map(|(store, pad, tail, at_end, mis, crop, nest, short, prefill)| Lay {
            store,
            pad,
            tail,
            at_end,
            mis,
            crop,
            nest: nest && crop != [0; 4],
            short: short && store > 0,
            prefill,
        });
    prop_oneof![
        1 => any::<u32>().prop_map(|prefill| Lay { prefill, ..Lay::packed() }),
        4 => rnd,
    ]
    .boxed()
}

/// mostly packed, sometimes anything
pub fn lay_light() -> BoxedStrategy<Lay> {
    prop_oneof![
        3 => any::<u32>().prop_map(|prefill| Lay { prefill, ..Lay::packed() }),
        2 => lay(),
    ]
    .boxed()
}

pub fn fmt() -> BoxedStrategy<Fmt> {
    select(&ALL[..]).boxed()
}
pub fn yuv_fmt() -> BoxedStrategy<Fmt> {
    select(&YUVS[..]).boxed()
}
pub fn rgb_fmt() -> BoxedStrategy<Fmt> {
    select(&RGBS[..]).boxed()
}
pub fn tr() -> BoxedStrategy<Tr> {
    select(&TRANSFERS[..]).boxed()
}
pub fn pr() -> BoxedStrategy<Pr> {
    select(&PRIMARIES[..]).boxed()
}
pub fn sp() -> BoxedStrategy<Sp> {
    select(&SPACES[..]).boxed()
}
pub fn sp_matrix() -> BoxedStrategy<Sp> {
    select(&SPACES[..3]).boxed()
}
pub fn col(sp: BoxedStrategy<Sp>) -> BoxedStrategy<Col> {
    (sp, tr(), pr(), any::<bool>(), any::<bool>())
        .prop_map(|(sp, tr, pr, full, rgb)| Col { rgb, sp, tr, pr, full })
        .boxed()
}

/// One conversion.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conv {
    pub src: Fmt,
    pub dst: Fmt,
    pub sc: Col,
    pub dc: Col,
    pub w: usize,
    pub h: usize,
    pub content: Content,
    pub sl: Lay,
    pub dl: Lay,
}

impl Conv {
    /// make colour info fit the formats and layouts fit the chroma grid
    pub fn fix(mut self) -> Conv {
        if !self.src.is_rgb() {
            self.sc.rgb = false;
        }
        if !self.dst.is_rgb() {
            self.dc.rgb = false;
        }
        self.sl = self.sl.aligned(self.src);
        self.dl = self.dl.aligned(self.dst);
        self
    }
    pub fn is_copy(&self) -> bool {
        self.src == self.dst && self.sc.same(&self.dc)
    }
    pub fn needs_tp(&self) -> bool {
        self.sc.tr != self.dc.tr || self.sc.pr != self.dc.pr
    }
    pub fn ictcp(&self) -> bool {
        (!self.src.is_rgb() && !self.sc.sp.is_matrix()) || (!self.dst.is_rgb() && !self.dc.sp.is_matrix())
    }
    /// No transfer function is evaluated: plain arithmetic only
    pub fn linear_only(&self) -> bool {
        self.is_copy() || (!self.ictcp() && (!self.needs_tp() || (self.sc.tr == Tr::Linear && self.dc.tr == Tr::Linear)))
    }
    pub fn build(&self) -> Result<(Built, Built, Planes), String> {
        self.build_slots(0, 1)
    }
    pub fn build_slots(&self, a: usize, b: usize) -> Result<(Built, Built, Planes), String> {
        let p = self.content.fill(self.src, self.w, self.h);
        let mut s = Built::new(a, self.src, self.w, self.h, self.sc.lib(), &self.sl)?;
        s.put(&p);
        let d = Built::new(b, self.dst, self.w, self.h, self.dc.lib(), &self.dl)?;
        Ok((s, d, p))
    }
}

pub fn conv_with(
    src: BoxedStrategy<Fmt>,
    dst: BoxedStrategy<Fmt>,
    cols: BoxedStrategy<(Col, Col)>,
    lay: fn() -> BoxedStrategy<Lay>,
    content: BoxedStrategy<Content>,
) -> BoxedStrategy<Conv> {
    (src, dst, cols, dims(), content, lay(), lay())
        .prop_map(|(src, dst, (sc, dc), (w, h), content, sl, dl)| {
            Conv { src, dst, sc, dc, w, h, content, sl, dl }.fix()
        })
        .boxed()
}

/// any colour pair: often related, so that the copy path, the matrix-only path and the full path
/// all occur
pub fn cols_any() -> BoxedStrategy<(Col, Col)> {
    (col(sp()), col(sp()), 0u8..6)
        .prop_map(|(a, b, k)| {
            let b = match k {
                0 => a,
                1 => Col { tr: a.tr, pr: a.pr, ..b },
                2 => Col { full: !a.full, ..a },
                3 => Col { sp: b.sp, ..a },
                _ => b,
            };
            (a, b)
        })
        .boxed()
}

pub fn conv_any(lay: fn() -> BoxedStrategy<Lay>) -> BoxedStrategy<Conv> {
    let pairs = (fmt(), fmt(), prop::bool::weighted(0.2));
    (pairs, cols_any(), dims(), content(), lay(), lay())
        .prop_map(|((src, dst, same), (sc, dc), (w, h), content, sl, dl)| {
            Conv { src, dst: if same { src } else { dst }, sc, dc, w, h, content, sl, dl }.fix()
        })
        .boxed()
}
