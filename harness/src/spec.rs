//! Independent description of the pixel formats: written from the format names' public meaning
//! (FourCC / README), not from the crate's own tables.

use ezk_image::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Fmt {
    I420,
    I422,
    I444,
    I010,
    I012,
    I210,
    I212,
    I410,
    I412,
    NV12,
    YUYV,
    RGBA,
    BGRA,
    RGB,
    BGR,
}
use Fmt::*;

pub const ALL: [Fmt; 15] = [
    I420, I422, I444, I010, I012, I210, I212, I410, I412, NV12, YUYV, RGBA, BGRA, RGB, BGR,
];
pub const YUVS: [Fmt; 11] = [
    I420, I422, I444, I010, I012, I210, I212, I410, I412, NV12, YUYV,
];
pub const RGBS: [Fmt; 4] = [RGBA, BGRA, RGB, BGR];

impl Fmt {
    pub fn pf(self) -> PixelFormat {
        match self {
            I420 => PixelFormat::I420,
            I422 => PixelFormat::I422,
            I444 => PixelFormat::I444,
            I010 => PixelFormat::I010,
            I012 => PixelFormat::I012,
            I210 => PixelFormat::I210,
            I212 => PixelFormat::I212,
            I410 => PixelFormat::I410,
            I412 => PixelFormat::I412,
            NV12 => PixelFormat::NV12,
            YUYV => PixelFormat::YUYV,
            RGBA => PixelFormat::RGBA,
            BGRA => PixelFormat::BGRA,
            RGB => PixelFormat::RGB,
            BGR => PixelFormat::BGR,
        }
    }
    pub fn bits(self) -> u32 {
        match self {
            I010 | I210 | I410 => 10,
            I012 | I212 | I412 => 12,
            _ => 8,
        }
    }
    pub fn max(self) -> u16 {
        ((1u32 << self.bits()) - 1) as u16
    }
    /// bytes per sample
    pub fn bps(self) -> usize {
        if self.bits() > 8 {
            2
        } else {
            1
        }
    }
    pub fn is_rgb(self) -> bool {
        matches!(self, RGBA | BGRA | RGB | BGR)
    }
    pub fn has_alpha(self) -> bool {
        matches!(self, RGBA | BGRA)
    }
    /// chroma subsampling (horizontal, vertical)
    pub fn sub(self) -> (usize, usize) {
        match self {
            I420 | I010 | I012 | NV12 => (2, 2),
            I422 | I210 | I212 | YUYV => (2, 1),
            _ => (1, 1),
        }
    }
    pub fn planar3(self) -> bool {
        !matches!(self, NV12 | YUYV) && !self.is_rgb()
    }
    pub fn nplanes(self) -> usize {
        if self.planar3() {
            3
        } else if self == NV12 {
            2
        } else {
            1
        }
    }
    /// bytes of payload in one row of plane `p` for an image `w` pixels wide
    pub fn row_bytes(self, p: usize, w: usize) -> usize {
        match self {
            NV12 => w,
            YUYV => w * 2,
            RGBA | BGRA => w * 4,
            RGB | BGR => w * 3,
            _ => {
                if p == 0 {
                    w * self.bps()
                } else {
                    w / self.sub().0 * self.bps()
                }
            }
        }
    }
    pub fn rows(self, p: usize, h: usize) -> usize {
        if p == 0 {
            h
        } else {
            h / self.sub().1
        }
    }
    /// number of logical components
    pub fn ncomp(self) -> usize {
        if self.has_alpha() {
            4
        } else {
            3
        }
    }
    pub fn comp_dims(self, c: usize, w: usize, h: usize) -> (usize, usize) {
        if self.is_rgb() || c == 0 {
            (w, h)
        } else {
            let (sx, sy) = self.sub();
            (w / sx, h / sy)
        }
    }
    /// (plane, row, byte offset inside the row) of logical component `c` (Y,U,V or R,G,B,A) at
    /// component coordinates (x, y)
    pub fn loc(self, c: usize, x: usize, y: usize) -> (usize, usize, usize) {
        match self {
            NV12 => match c {
                0 => (0, y, x),
                1 => (1, y, 2 * x),
                _ => (1, y, 2 * x + 1),
            },
            YUYV => match c {
                0 => (0, y, 2 * x),
                1 => (0, y, 4 * x + 1),
                _ => (0, y, 4 * x + 3),
            },
            RGBA => (0, y, 4 * x + c),
            RGB => (0, y, 3 * x + c),
            BGRA => (0, y, 4 * x + [2, 1, 0, 3][c]),
            BGR => (0, y, 3 * x + [2, 1, 0][c]),
            _ => (c, y, x * self.bps()),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Sp {
    BT601,
    BT709,
    BT2020,
    PQ,
    HLG,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Tr {
    Linear,
    G22,
    G28,
    SRGB,
    SDR,
    PQ,
    HLG,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Pr {
    ST240,
    BT709,
    BT2020,
}
pub const SPACES: [Sp; 5] = [Sp::BT601, Sp::BT709, Sp::BT2020, Sp::PQ, Sp::HLG];
pub const TRANSFERS: [Tr; 7] = [
    Tr::Linear,
    Tr::G22,
    Tr::G28,
    Tr::SRGB,
    Tr::SDR,
    Tr::PQ,
    Tr::HLG,
];
pub const PRIMARIES: [Pr; 3] = [Pr::ST240, Pr::BT709, Pr::BT2020];

impl Tr {
    pub fn lib(self) -> ColorTransfer {
        match self {
            Tr::Linear => ColorTransfer::Linear,
            Tr::G22 => ColorTransfer::Gamma22,
            Tr::G28 => ColorTransfer::Gamma28,
            Tr::SRGB => ColorTransfer::SRGB,
            Tr::SDR => ColorTransfer::SDR,
            Tr::PQ => ColorTransfer::BT2100PQ,
            Tr::HLG => ColorTransfer::BT2100HLG,
        }
    }
}
impl Pr {
    pub fn lib(self) -> ColorPrimaries {
        match self {
            Pr::ST240 => ColorPrimaries::ST240,
            Pr::BT709 => ColorPrimaries::BT709,
            Pr::BT2020 => ColorPrimaries::BT2020,
        }
    }
}
impl Sp {
    pub fn lib(self) -> ColorSpace {
        match self {
            Sp::BT601 => ColorSpace::BT601,
            Sp::BT709 => ColorSpace::BT709,
            Sp::BT2020 => ColorSpace::BT2020,
            Sp::PQ => ColorSpace::ICtCpPQ,
            Sp::HLG => ColorSpace::ICtCpHLG,
        }
    }
    pub fn is_matrix(self) -> bool {
        matches!(self, Sp::BT601 | Sp::BT709 | Sp::BT2020)
    }
}

/// Color information; `rgb` picks the `ColorInfo::RGB` variant.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct Col {
    pub rgb: bool,
    pub sp: Sp,
    pub tr: Tr,
    pub pr: Pr,
    pub full: bool,
}

impl Col {
    pub fn lib(&self) -> ColorInfo {
        if self.rgb {
            ColorInfo::RGB(RgbColorInfo {
                transfer: self.tr.lib(),
                primaries: self.pr.lib(),
            })
        } else {
            ColorInfo::YUV(YuvColorInfo {
                transfer: self.tr.lib(),
                primaries: self.pr.lib(),
                space: self.sp.lib(),
                full_range: self.full,
            })
        }
    }
    /// Does the crate consider the two equal?
    pub fn same(&self, o: &Col) -> bool {
        self.lib() == o.lib()
    }
}
