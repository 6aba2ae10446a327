//! All ways of writing an image through the crate's encoders, as calls on any writer.
use crate::codec::*;
use crate::util::*;
use image::codecs::*;
use image::*;
use std::io::{Seek, Write};

pub type F = Box<dyn Fn(&mut dyn WS) -> ImageResult<()> + Sync>;
pub trait WS: Write + Seek {}
impl<T: Write + Seek> WS for T {}

fn frames(k: u32) -> Vec<Frame> {
    (0..k).map(|i| Frame::from_parts(pattern(5, 3, ColorType::Rgba8, i as usize).dynamic().into_rgba8(), 0, 0, Delay::from_numer_denom_ms(30 * i, 1))).collect()
}

/// Name, format and call: every encoder, configuration, colour type and entry point on small images.
pub fn all() -> Vec<(String, String, F)> {
    let mut list: Vec<(String, String, F)> = vec![];
    let sizes: &[(u32, u32)] = &[(1, 1), (3, 2), (40, 9)];
    let mut encs = lossless();
    encs.extend([Enc::Gif(1), Enc::Gif(30), Enc::Jpeg(1), Enc::Jpeg(75), Enc::Jpeg(100), Enc::Avif(10, 60)]);
    for e in encs {
        for color in COLORS {
            for &(w, h) in sizes {
                if matches!(e, Enc::Avif(..)) && (w, h) != (3, 2) {
                    continue;
                }
                let mut r = pattern(w, h, color, 3);
                if let Enc::Hdr = e {
                    r = pattern(w, h, color, 2);
                    if color == ColorType::Rgb32F {
                        hdr_exact(&mut r);
                    }
                }
                list.push((format!("{} {color:?} {w}x{h}", e.name()), format!("{:?}", e.format()), Box::new(move |mut w: &mut dyn WS| e.encode(&mut w, &r))));
            }
        }
    }
    // Other entry points.
    let d = pattern(7, 5, ColorType::Rgba8, 3).dynamic();
    let d8 = pattern(7, 5, ColorType::Rgb8, 3).dynamic();
    for f in [ImageFormat::Png, ImageFormat::Gif, ImageFormat::Bmp, ImageFormat::Tga, ImageFormat::Ico, ImageFormat::Tiff, ImageFormat::Qoi, ImageFormat::WebP] {
        let (d, d2) = (d.clone(), d.clone());
        list.push((format!("write_to {f:?}"), format!("{f:?}"), Box::new(move |mut w| d.write_to(&mut w, f))));
        list.push((format!("write_buffer_with_format {f:?}"), format!("{f:?}"), Box::new(move |mut w| write_buffer_with_format(&mut w, d2.as_bytes(), 7, 5, d2.color(), f))));
    }
    for f in [ImageFormat::Jpeg, ImageFormat::Pnm] {
        let d = d8.clone();
        list.push((format!("write_to {f:?}"), format!("{f:?}"), Box::new(move |mut w| d.write_to(&mut w, f))));
    }
    for n in 1..4 {
        list.push((format!("gif frames {n}"), "Gif".into(), Box::new(move |w| {
            let mut e = gif::GifEncoder::new(w);
            e.set_repeat(gif::Repeat::Infinite)?;
            e.encode_frames(frames(n))
        })));
        list.push((format!("gif try frames {n}"), "Gif".into(), Box::new(move |w| gif::GifEncoder::new_with_speed(w, 30).try_encode_frames(frames(n).into_iter().map(Ok)))));
        list.push((format!("ico of {n}"), "Ico".into(), Box::new(move |w| {
            let p = pattern(4 + n, 4, ColorType::Rgba8, 3);
            let fr: Vec<_> = (0..n).map(|_| ico::IcoFrame::as_png(&p.data, p.w, p.h, ExtendedColorType::Rgba8)).collect::<Result<_, _>>()?;
            ico::IcoEncoder::new(w).encode_images(&fr)
        })));
    }
    for (i, prof) in [vec![], vec![7u8; 300], vec![9u8; 70000]].into_iter().enumerate() {
        let (p1, p2, p3) = (prof.clone(), prof.clone(), prof.clone());
        let d1 = d8.clone();
        let (d2, d3) = (d1.clone(), d1.clone());
        list.push((format!("jpeg icc{i}"), "Jpeg".into(), Box::new(move |w| {
            let mut e = jpeg::JpegEncoder::new(w);
            let _ = e.set_icc_profile(p1.clone());
            d1.write_with_encoder(e)
        })));
        list.push((format!("png icc{i}"), "Png".into(), Box::new(move |w| {
            let mut e = png::PngEncoder::new(w);
            let _ = e.set_icc_profile(p2.clone());
            d2.write_with_encoder(e)
        })));
        list.push((format!("webp icc{i}"), "WebP".into(), Box::new(move |w| {
            let mut e = webp::WebPEncoder::new_lossless(w);
            let _ = e.set_icc_profile(p3.clone());
            d3.write_with_encoder(e)
        })));
    }
    list.push(("jpeg view".into(), "Jpeg".into(), Box::new(move |w| jpeg::JpegEncoder::new_with_quality(w, 50).encode_image(&pattern(17, 9, ColorType::Rgba8, 3).dynamic().into_rgba8()))));
    list
}
