//! Small helpers shared by the harnesses.
use image::*;
use std::hash::{Hash, Hasher};

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub const COLORS: [ColorType; 10] = [
    ColorType::L8,
    ColorType::La8,
    ColorType::Rgb8,
    ColorType::Rgba8,
    ColorType::L16,
    ColorType::La16,
    ColorType::Rgb16,
    ColorType::Rgba16,
    ColorType::Rgb32F,
    ColorType::Rgba32F,
];

pub fn bytes_per_sample(c: ColorType) -> usize {
    (c.bytes_per_pixel() / c.channel_count()) as usize
}

/// A raw image as the encoder API takes it: native-endian sample bytes.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Raw {
    pub w: u32,
    pub h: u32,
    pub color: ColorType,
    pub data: Vec<u8>,
}
impl std::fmt::Debug for Raw {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}x{} {:?} ", self.w, self.h, self.color)?;
        for b in self.data.iter().take(96) {
            write!(f, "{b:02x}")?;
        }
        if self.data.len() > 96 {
            write!(f, "..({} bytes)", self.data.len())?;
        }
        Ok(())
    }
}
impl Raw {
    pub fn of(d: &DynamicImage) -> Raw {
        Raw { w: d.width(), h: d.height(), color: d.color(), data: d.as_bytes().to_vec() }
    }
    pub fn dynamic(&self) -> DynamicImage {
        let mut d = DynamicImage::new(self.w, self.h, self.color);
        set_bytes(&mut d, &self.data);
        d
    }
}

/// Overwrites the samples of `d` with native-endian bytes.
pub fn set_bytes(d: &mut DynamicImage, b: &[u8]) {
    fn u16s(x: &mut [u16], b: &[u8]) {
        assert_eq!(x.len() * 2, b.len());
        for (x, c) in x.iter_mut().zip(b.chunks(2)) {
            *x = u16::from_ne_bytes([c[0], c[1]]);
        }
    }
    fn f32s(x: &mut [f32], b: &[u8]) {
        assert_eq!(x.len() * 4, b.len());
        for (x, c) in x.iter_mut().zip(b.chunks(4)) {
            *x = f32::from_ne_bytes([c[0], c[1], c[2], c[3]]);
        }
    }
    match d {
        DynamicImage::ImageLuma8(p) => p.copy_from_slice(b),
        DynamicImage::ImageLumaA8(p) => p.copy_from_slice(b),
        DynamicImage::ImageRgb8(p) => p.copy_from_slice(b),
        DynamicImage::ImageRgba8(p) => p.copy_from_slice(b),
        DynamicImage::ImageLuma16(p) => u16s(p, b),
        DynamicImage::ImageLumaA16(p) => u16s(p, b),
        DynamicImage::ImageRgb16(p) => u16s(p, b),
        DynamicImage::ImageRgba16(p) => u16s(p, b),
        DynamicImage::ImageRgb32F(p) => f32s(p, b),
        DynamicImage::ImageRgba32F(p) => f32s(p, b),
        _ => panic!("variant"),
    }
}

/// Deterministic sample patterns.  0: all zero, 1: all max, 2: every sample distinct from its
/// neighbours, 3: long runs with breaks, 4: two-valued noise, 5: extremes.
pub fn pattern(w: u32, h: u32, color: ColorType, kind: usize) -> Raw {
    let n = w as usize * h as usize;
    let ch = color.channel_count() as usize;
    let bps = bytes_per_sample(color);
    let mut data = Vec::with_capacity(n * ch * bps);
    for i in 0..n {
        let (x, y) = (i % w as usize, i / w as usize);
        for c in 0..ch {
            let v: u32 = match kind {
                0 => 0,
                1 => u32::MAX,
                2 => ((x as u32 * 37 + y as u32 * 101 + c as u32 * 59 + 11).wrapping_mul(0x9E3779B1)) | 1,
                3 => (((i / 5) as u32 + c as u32).wrapping_mul(0x85EBCA6B)) ^ 0x1234567,
                4 => {
                    if (i * 7 + i / 3 + c) % 3 == 0 {
                        0x11223344
                    } else {
                        0xFEDCBA98
                    }
                }
                _ => [0u32, u32::MAX, 1 << 24, 0x7FFFFFFF, 0x80000000, 0x00010001][(i + c * 5) % 6],
            };
            match bps {
                1 => data.push((v >> 24) as u8),
                2 => data.extend_from_slice(&((v >> 16) as u16).to_ne_bytes()),
                _ => {
                    // Finite, ordinary floats in [0, 1] and a few outside.
                    let f = (v >> 8) as f32 / (1 << 24) as f32;
                    data.extend_from_slice(&f.to_ne_bytes());
                }
            }
        }
    }
    Raw { w, h, color, data }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn kind_of(e: &ImageError) -> &'static str {
    match e {
        ImageError::Decoding(_) => "Decoding",
        ImageError::Encoding(_) => "Encoding",
        ImageError::Parameter(_) => "Parameter",
        ImageError::Limits(_) => "Limits",
        ImageError::Unsupported(_) => "Unsupported",
        ImageError::IoError(_) => "IoError",
    }
}

/// Where two byte strings first differ.
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            return format!("byte {i}: {x:#04x} vs {y:#04x}");
        }
    }
    "equal".into()
}

/// An image as numbers: `n` channels of `w` x `h` samples, interleaved.
#[derive(Clone, Debug, PartialEq)]
pub struct Planes {
    pub w: u32,
    pub h: u32,
    pub n: usize,
    pub maxv: f64,
    pub float: bool,
    pub v: Vec<f64>,
}
impl Planes {
    pub fn at(&self, x: u32, y: u32, c: usize) -> f64 {
        self.v[(y as usize * self.w as usize + x as usize) * self.n + c]
    }
    pub fn alpha(&self) -> bool {
        self.n % 2 == 0
    }
}
pub fn planes(d: &DynamicImage) -> Planes {
    let c = d.color();
    let b = d.as_bytes();
    let (maxv, float, v) = match bytes_per_sample(c) {
        1 => (255., false, b.iter().map(|&x| x as f64).collect()),
        2 => (65535., false, b.chunks(2).map(|x| u16::from_ne_bytes([x[0], x[1]]) as f64).collect()),
        _ => (1., true, b.chunks(4).map(|x| f32::from_ne_bytes([x[0], x[1], x[2], x[3]]) as f64).collect()),
    };
    Planes { w: d.width(), h: d.height(), n: c.channel_count() as usize, maxv, float, v }
}
/// The image with the given samples (levels 0..maxv of the colour type).
pub fn from_levels(w: u32, h: u32, color: ColorType, v: &[f64]) -> DynamicImage {
    let mut data = Vec::new();
    for &x in v {
        match bytes_per_sample(color) {
            1 => data.push(x as u8),
            2 => data.extend_from_slice(&(x as u16).to_ne_bytes()),
            _ => data.extend_from_slice(&(x as f32).to_ne_bytes()),
        }
    }
    Raw { w, h, color, data }.dynamic()
}
pub fn max_level(color: ColorType) -> f64 {
    match bytes_per_sample(color) {
        1 => 255.,
        2 => 65535.,
        _ => 1.,
    }
}
