//! All encoders of the crate behind one enumeration, and what decoding their output must give.
use crate::util::*;
use image::codecs::{avif, bmp, farbfeld, gif, hdr, ico, jpeg, openexr, png, pnm, qoi, tga, tiff, webp};
use image::{ColorType, ExtendedColorType, ImageDecoder, ImageEncoder, ImageFormat, ImageReader, ImageResult, Limits};
use pnm::{PnmSubtype, SampleEncoding};
use std::io::{Cursor, Seek, Write};

pub const PNG_COMP: [png::CompressionType; 3] =
    [png::CompressionType::Default, png::CompressionType::Fast, png::CompressionType::Best];
pub const PNG_FILT: [png::FilterType; 6] = [
    png::FilterType::NoFilter,
    png::FilterType::Sub,
    png::FilterType::Up,
    png::FilterType::Avg,
    png::FilterType::Paeth,
    png::FilterType::Adaptive,
];

#[derive(Clone, Copy, Debug)]
pub enum Enc {
    Png(png::CompressionType, png::FilterType),
    Bmp,
    Tga(bool),
    Tiff,
    Pnm(Option<PnmSubtype>),
    Qoi,
    Farbfeld,
    Ico,
    WebP,
    Exr,
    Hdr,
    Gif(i32),
    Jpeg(u8),
    Avif(u8, u8),
}
use Enc::*;

/// One encoder per format, with default options.
pub fn basic() -> Vec<Enc> {
    vec![
        Png(png::CompressionType::Fast, png::FilterType::Adaptive),
        Bmp,
        Tga(true),
        Tiff,
        Pnm(None),
        Qoi,
        Farbfeld,
        Ico,
        WebP,
        Exr,
        Hdr,
        Gif(10),
        Jpeg(75),
    ]
}
/// Every lossless encoder configuration.
pub fn lossless() -> Vec<Enc> {
    let mut v = vec![];
    for c in PNG_COMP {
        for f in PNG_FILT {
            v.push(Png(c, f));
        }
    }
    v.extend([Bmp, Tga(true), Tga(false), Tiff, Pnm(None)]);
    for e in [SampleEncoding::Binary, SampleEncoding::Ascii] {
        v.push(Pnm(Some(PnmSubtype::Bitmap(e))));
        v.push(Pnm(Some(PnmSubtype::Graymap(e))));
        v.push(Pnm(Some(PnmSubtype::Pixmap(e))));
    }
    v.push(Pnm(Some(PnmSubtype::ArbitraryMap)));
    v.extend([Qoi, Farbfeld, Ico, WebP, Exr, Hdr]);
    v
}

impl Enc {
    pub fn format(&self) -> ImageFormat {
        match self {
            Png(..) => ImageFormat::Png,
            Bmp => ImageFormat::Bmp,
            Tga(_) => ImageFormat::Tga,
            Tiff => ImageFormat::Tiff,
            Pnm(_) => ImageFormat::Pnm,
            Qoi => ImageFormat::Qoi,
            Farbfeld => ImageFormat::Farbfeld,
            Ico => ImageFormat::Ico,
            WebP => ImageFormat::WebP,
            Exr => ImageFormat::OpenExr,
            Hdr => ImageFormat::Hdr,
            Gif(_) => ImageFormat::Gif,
            Jpeg(_) => ImageFormat::Jpeg,
            Avif(..) => ImageFormat::Avif,
        }
    }
    pub fn name(&self) -> String {
        match self {
            Png(c, f) => format!("png-{c:?}-{f:?}"),
            Pnm(Some(s)) => format!("pnm-{s:?}"),
            e => format!("{e:?}").to_lowercase(),
        }
    }
    pub fn encode<W: Write + Seek>(&self, w: &mut W, r: &Raw) -> ImageResult<()> {
        let (b, wd, h, c) = (&r.data[..], r.w, r.h, ExtendedColorType::from(r.color));
        match *self {
            Png(ct, ft) => png::PngEncoder::new_with_quality(w, ct, ft).write_image(b, wd, h, c),
            Bmp => bmp::BmpEncoder::new(w).write_image(b, wd, h, c),
            Tga(true) => tga::TgaEncoder::new(w).write_image(b, wd, h, c),
            Tga(false) => tga::TgaEncoder::new(w).disable_rle().write_image(b, wd, h, c),
            Tiff => tiff::TiffEncoder::new(w).write_image(b, wd, h, c),
            Pnm(None) => pnm::PnmEncoder::new(w).write_image(b, wd, h, c),
            Pnm(Some(s)) => pnm::PnmEncoder::new(w).with_subtype(s).write_image(b, wd, h, c),
            Qoi => qoi::QoiEncoder::new(w).write_image(b, wd, h, c),
            Farbfeld => farbfeld::FarbfeldEncoder::new(w).write_image(b, wd, h, c),
            Ico => ico::IcoEncoder::new(w).write_image(b, wd, h, c),
            WebP => webp::WebPEncoder::new_lossless(w).write_image(b, wd, h, c),
            Exr => openexr::OpenExrEncoder::new(w).write_image(b, wd, h, c),
            Hdr => hdr::HdrEncoder::new(w).write_image(b, wd, h, c),
            Gif(s) => gif::GifEncoder::new_with_speed(w, s).encode(b, wd, h, c),
            Jpeg(q) => jpeg::JpegEncoder::new_with_quality(w, q).write_image(b, wd, h, c),
            Avif(s, q) => avif::AvifEncoder::new_with_speed_quality(w, s, q).with_num_threads(Some(1)).write_image(b, wd, h, c),
        }
    }
    pub fn to_vec(&self, r: &Raw) -> ImageResult<Vec<u8>> {
        let mut c = Cursor::new(vec![]);
        self.encode(&mut c, r)?;
        Ok(c.into_inner())
    }
    /// What decoding the encoded image must give, for the combinations that are lossless.
    pub fn expect(&self, r: &Raw) -> Option<Raw> {
        use ColorType::*;
        let same = || Some(r.clone());
        let map = |color: ColorType, f: &dyn Fn(&[u8]) -> Vec<u8>| {
            Some(Raw { w: r.w, h: r.h, color, data: r.data.chunks(r.color.bytes_per_pixel() as usize).flat_map(|p| f(p)).collect() })
        };
        match (self, r.color) {
            (Png(..), L8 | La8 | Rgb8 | Rgba8 | L16 | La16 | Rgb16 | Rgba16) => same(),
            (Bmp, Rgb8 | Rgba8) => same(),
            (Bmp, L8) | (Bmp, La8) => map(Rgb8, &|p| vec![p[0]; 3]),
            (Tga(_), L8 | La8 | Rgb8 | Rgba8) => same(),
            (Tiff, L8 | Rgb8 | Rgba8 | L16 | Rgb16 | Rgba16) => same(),
            (Pnm(None), L8 | Rgb8) => same(),
            (Pnm(Some(PnmSubtype::ArbitraryMap)), L8 | Rgb8) => same(),
            (Pnm(Some(PnmSubtype::Graymap(_))), L8) => same(),
            (Pnm(Some(PnmSubtype::Pixmap(_))), Rgb8) => same(),
            (Pnm(Some(PnmSubtype::Bitmap(_))), L8) => map(L8, &|p| vec![if p[0] == 0 { 0 } else { 255 }]),
            (Qoi, Rgb8 | Rgba8) => same(),
            (Farbfeld, Rgba16) => same(),
            (Ico, Rgba8) if (1..=256).contains(&r.w) && (1..=256).contains(&r.h) => same(),
            (WebP, Rgb8 | Rgba8) => same(),
            (WebP, L8) => map(Rgb8, &|p| vec![p[0]; 3]),
            (WebP, La8) => map(Rgba8, &|p| vec![p[0], p[0], p[0], p[1]]),
            (Exr, Rgb32F | Rgba32F) => same(),
            (Hdr, Rgb32F) => same(),
            _ => None,
        }
    }
}

/// Decodes with the format given.
pub fn decode(f: ImageFormat, bytes: &[u8]) -> ImageResult<Raw> {
    let mut r = ImageReader::with_format(Cursor::new(bytes), f);
    r.no_limits();
    Ok(Raw::of(&r.decode()?))
}
/// Decodes through a boxed decoder, with the given limits.
pub fn decode_limited(f: ImageFormat, bytes: &[u8], limits: Limits) -> ImageResult<Raw> {
    let mut r = ImageReader::with_format(Cursor::new(bytes), f);
    r.limits(limits);
    Ok(Raw::of(&r.decode()?))
}
pub fn header(f: ImageFormat, bytes: &[u8]) -> ImageResult<(u32, u32, ColorType, u64)> {
    let mut r = ImageReader::with_format(Cursor::new(bytes), f);
    r.no_limits();
    let d = r.into_decoder()?;
    let (w, h) = d.dimensions();
    Ok((w, h, d.color_type(), d.total_bytes()))
}

/// Representable Radiance values only.
pub fn hdr_exact(r: &mut Raw) {
    for (i, p) in r.data.chunks_mut(12).enumerate() {
        let k = p[3] as usize; // the top byte of the first float, whatever it is
        let e: i32 = [128, 129, 120, 136, 100, 200][(k + i) % 6] - 136;
        let m = [p[0] | 128, p[4], p[8]];
        for c in 0..3 {
            let v = m[c] as f32 * (2f64.powi(e) as f32);
            p[c * 4..c * 4 + 4].copy_from_slice(&v.to_ne_bytes());
        }
    }
}
