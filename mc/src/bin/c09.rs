//! C09: What an encoder accepts can be decoded again with the same shape.
//! TECHNIQUE: exhaustive enumeration of formats, encoder options, all extended colour types and sizes (zero, small, each format's maxima) over the real encoders, each accepted file decoded by the library
//! LEVEL: model_checking
//! NOTE: Every call gets a buffer of the documented length, at every alignment; a call with another length is documented to panic. Sizes run through 0..=3 in both directions, and one direction around 255, 256, 16383, 16384, 65535, 65536 and 2^20 with the other at 1 or 2.
use image::codecs::*;
use image::*;
use mc::codec::{basic, lossless, Enc};
use mc::*;
use std::io::Cursor;
use ExtendedColorType as X;

const ALL: [X; 30] = [
    X::A8, X::L1, X::La1, X::Rgb1, X::Rgba1, X::L2, X::La2, X::Rgb2, X::Rgba2, X::L4, X::La4, X::Rgb4, X::Rgba4, X::L8, X::La8, X::Rgb8, X::Rgba8, X::L16, X::La16, X::Rgb16, X::Rgba16, X::Bgr8,
    X::Bgra8, X::Rgb32F, X::Rgba32F, X::Cmyk8, X::Unknown(0), X::Unknown(1), X::Unknown(8), X::Unknown(255),
];
const FORMATS: [ImageFormat; 17] = [
    ImageFormat::Png, ImageFormat::Jpeg, ImageFormat::Gif, ImageFormat::WebP, ImageFormat::Pnm, ImageFormat::Tiff, ImageFormat::Tga, ImageFormat::Dds, ImageFormat::Bmp, ImageFormat::Ico,
    ImageFormat::Hdr, ImageFormat::OpenExr, ImageFormat::Farbfeld, ImageFormat::Avif, ImageFormat::Qoi, ImageFormat::Pcx, ImageFormat::Png,
];

fn size(x: X, w: u32, h: u32) -> u64 {
    (x.bits_per_pixel() as u64 * w as u64).div_ceil(8) * h as u64
}
fn data(len: u64, kind: usize) -> Vec<u8> {
    (0..len)
        .map(|i| match kind {
            0 => (i * 37 + i / 11) as u8,
            1 => 0,
            2 => [0, 0, 0x80, 0x3f][i as usize % 4],
            _ => 255,
        })
        .collect()
}
/// The buffer at the given distance from an aligned address.
struct Placed {
    v: Vec<u64>,
    off: usize,
    len: usize,
}
impl Placed {
    fn new(d: &[u8], off: usize) -> Placed {
        let mut p = Placed { v: vec![0; d.len() / 8 + 2], off, len: d.len() };
        p.bytes_mut().copy_from_slice(d);
        p
    }
    fn bytes_mut(&mut self) -> &mut [u8] {
        let p = self.v.as_mut_ptr() as *mut u8;
        unsafe { std::slice::from_raw_parts_mut(p.add(self.off), self.len) }
    }
    fn bytes(&self) -> &[u8] {
        let p = self.v.as_ptr() as *const u8;
        unsafe { std::slice::from_raw_parts(p.add(self.off), self.len) }
    }
}

fn run(e: Enc, b: &[u8], w: u32, h: u32, x: X) -> Result<ImageResult<Vec<u8>>, String> {
    catch(std::panic::AssertUnwindSafe(|| {
        let mut o = Cursor::new(vec![]);
        match e {
            Enc::Png(c, f) => png::PngEncoder::new_with_quality(&mut o, c, f).write_image(b, w, h, x),
            Enc::Bmp => bmp::BmpEncoder::new(&mut o).write_image(b, w, h, x),
            Enc::Tga(true) => tga::TgaEncoder::new(&mut o).write_image(b, w, h, x),
            Enc::Tga(false) => tga::TgaEncoder::new(&mut o).disable_rle().write_image(b, w, h, x),
            Enc::Tiff => tiff::TiffEncoder::new(&mut o).write_image(b, w, h, x),
            Enc::Pnm(None) => pnm::PnmEncoder::new(&mut o).write_image(b, w, h, x),
            Enc::Pnm(Some(s)) => pnm::PnmEncoder::new(&mut o).with_subtype(s).write_image(b, w, h, x),
            Enc::Qoi => qoi::QoiEncoder::new(&mut o).write_image(b, w, h, x),
            Enc::Farbfeld => farbfeld::FarbfeldEncoder::new(&mut o).write_image(b, w, h, x),
            Enc::Ico => ico::IcoEncoder::new(&mut o).write_image(b, w, h, x),
            Enc::WebP => webp::WebPEncoder::new_lossless(&mut o).write_image(b, w, h, x),
            Enc::Exr => openexr::OpenExrEncoder::new(&mut o).write_image(b, w, h, x),
            Enc::Hdr => hdr::HdrEncoder::new(&mut o).write_image(b, w, h, x),
            Enc::Gif(s) => gif::GifEncoder::new_with_speed(&mut o, s).encode(b, w, h, x),
            Enc::Jpeg(q) => jpeg::JpegEncoder::new_with_quality(&mut o, q).write_image(b, w, h, x),
            Enc::Avif(s, q) => avif::AvifEncoder::new_with_speed_quality(&mut o, s, q).with_num_threads(Some(1)).write_image(b, w, h, x),
        }?;
        Ok(o.into_inner())
    }))
}
/// Known classes of failure, identified by format, colour and size; everything else is new.
fn class(f: ImageFormat, x: X, w: u32, h: u32, why: &str) -> String {
    use ImageFormat::*;
    match (f, x) {
        (Ico, x) if x != X::Rgba8 && why.contains("RGBA") => "ico-not-rgba".into(),
        (Pnm, X::La8 | X::Rgba8) if why.contains("olor") => "pnm-pam-alpha".into(),
        (WebP, _) if w.max(h) == 16384 => "webp-16384".into(),
        (Bmp, _) if w.max(h) > 65535 => "bmp-over-65535".into(),
        (Jpeg, _) if w.max(h) >= 65529 && why.contains("zune-jpeg-0.4.21/src/mcu.rs:10") => "zune-65529".into(),
        _ => format!("{f:?} {x:?} {}", if w == 0 || h == 0 { "empty" } else if w.max(h) > 255 { "large" } else { "small" }),
    }
}
fn judge(f: ImageFormat, x: X, w: u32, h: u32, r: Result<ImageResult<Vec<u8>>, String>, what: &str, ch: &mut Ch<'_>) -> Res {
    match r {
        Err(p) => viol(&class(f, x, w, h, "panic"), format!("{what}: panics: {p}")),
        Ok(Err(_)) => {
            ch.outcome(0);
            Ok(())
        }
        Ok(Ok(b)) => {
            ch.outcome(1);
            let d = catch(|| {
                let mut r = ImageReader::with_format(Cursor::new(&b[..]), f);
                r.no_limits();
                r.decode()
            });
            match d {
                Err(p) => viol(&class(f, x, w, h, &p), format!("{what}: accepted ({} bytes), but decoding panics: {p}", b.len())),
                Ok(Err(e)) => viol(&class(f, x, w, h, &e.to_string()), format!("{what}: accepted ({} bytes), but cannot be decoded: {e}", b.len())),
                Ok(Ok(d)) => {
                    need!(d.dimensions() == (w, h), &class(f, x, w, h, "size"), "{what}: accepted ({} bytes), but decoded as {:?}", b.len(), d.dimensions());
                    ch.validated();
                    Ok(())
                }
            }
        }
    }
}

fn main() {
    let mut c = Check::start("C09", "model_checking", "one execution = one image handed to one encoder and, where accepted, decoded");
    c.hang_after(300);
    let mut encs = lossless();
    for e in basic() {
        if matches!(e, Enc::Gif(_) | Enc::Jpeg(_)) {
            encs.push(e);
        }
    }
    encs.extend([Enc::Gif(1), Enc::Gif(30), Enc::Jpeg(0), Enc::Jpeg(1), Enc::Jpeg(100), Enc::Jpeg(255)]);
    let encs = &encs;
    let m = if c.quick { 3 } else { 6 };
    c.explore("small", "all encoders and their options x 30 extended colour types x sizes 0..=3 (6) in both directions x 2 contents x 2 alignments", |ch| {
        let e = encs[ch.pick(encs.len())];
        let x = ALL[ch.pick(ALL.len())];
        let (w, h) = (ch.range(0, m) as u32, ch.range(0, m) as u32);
        let d = data(size(x, w, h), ch.of(&[0, 2]));
        let p = Placed::new(&d, ch.pick(2));
        let what = format!("{} {x:?} {w}x{h} at offset {}", e.name(), p.off);
        ch.state(hash_of(&(e.name(), format!("{x:?}"), w, h)));
        ch.sample(|| what.clone());
        judge(e.format(), x, w, h, run(e, p.bytes(), w, h, x), &what, ch)
    });
    c.explore("avif", "AVIF x 30 extended colour types x sizes 0..=3", |ch| {
        let x = ALL[ch.pick(ALL.len())];
        let (w, h) = (ch.range(0, 3) as u32, ch.range(0, 3) as u32);
        let p = Placed::new(&data(size(x, w, h), 0), ch.pick(2));
        let what = format!("avif {x:?} {w}x{h} at offset {}", p.off);
        judge(ImageFormat::Avif, x, w, h, run(Enc::Avif(10, 80), p.bytes(), w, h, x), &what, ch)
    });
    c.explore("maxima", "the encoders of every format x 10 colour types x one side around 255, 256, 16383, 16384, 65535, 65536 and 2^20 x the other 0, 1, 2", |ch| {
        let b = basic();
        let i = ch.pick(b.len() + 1);
        let e = if i < b.len() { b[i] } else { Enc::Pnm(Some(pnm::PnmSubtype::ArbitraryMap)) };
        let x: X = COLORS[ch.pick(10)].into();
        let big = ch.of(&[127u32, 128, 255, 256, 257, 511, 4096, 16383, 16384, 16385, 32767, 32768, 65500, 65528, 65535, 65536, 65537, 131072, 1 << 20]);
        let other = ch.of(&[0u32, 1, 2]);
        let (w, h) = if ch.flag() { (big, other) } else { (other, big) };
        // The quantiser of GIF colours is quadratic in nothing, but slow.
        let d = data(size(x, w, h), 1);
        let what = format!("{} {x:?} {w}x{h}", e.name());
        ch.state(hash_of(&what));
        judge(e.format(), x, w, h, run(e, &d, w, h, x), &what, ch)
    });
    c.explore("empty and endless", "no pixels, and one side up to u32::MAX", |ch| {
        let b = basic();
        let e = b[ch.pick(b.len())];
        let x: X = COLORS[ch.pick(10)].into();
        let big = ch.of(&[1u32 << 24, 1 << 30, (1 << 30) + 1, i32::MAX as u32, 1 << 31, u32::MAX]);
        let (w, h) = if ch.flag() { (big, 0) } else { (0, big) };
        let what = format!("{} {x:?} {w}x{h}", e.name());
        judge(e.format(), x, w, h, run(e, &[], w, h, x), &what, ch)
    });
    c.explore("free functions", "write_buffer_with_format, save_buffer_with_format, write_to and save_with_format x all formats, with and without an encoder, x 10 colour types x sizes 0..=3 (6): the same as the format's encoder", |ch| {
        let f = FORMATS[ch.pick(16)];
        let color = COLORS[ch.pick(10)];
        let (w, h) = (ch.range(0, m) as u32, ch.range(0, m) as u32);
        let x: X = color.into();
        let d = data(size(x, w, h), 0);
        if f == ImageFormat::Avif && (w > 2 || h > 2) {
            return Ok(());
        }
        let img = Raw { w, h, color, data: d.clone() }.dynamic();
        let how = ch.pick(4);
        let dir = std::env::temp_dir().join(format!("mc-c09-{}-{:?}", std::process::id(), std::thread::current().id()));
        let path = dir.join("x.bin");
        let r = catch(std::panic::AssertUnwindSafe(|| -> ImageResult<Vec<u8>> {
            let mut o = Cursor::new(vec![]);
            match how {
                0 => write_buffer_with_format(&mut o, &d, w, h, color, f)?,
                1 => img.write_to(&mut o, f)?,
                _ => {
                    std::fs::create_dir_all(&dir).unwrap();
                    if how == 2 {
                        save_buffer_with_format(&path, &d, w, h, color, f)?
                    } else {
                        img.save_with_format(&path, f)?
                    }
                    return Ok(std::fs::read(&path).unwrap());
                }
            }
            Ok(o.into_inner())
        }));
        if how >= 2 {
            let _ = std::fs::remove_dir_all(&dir);
        }
        let what = format!("{f:?} {color:?} {w}x{h} by way {how}");
        ch.state(hash_of(&(f, color, w, h)));
        need!(f.can_write() || !matches!(r, Ok(Ok(_))), "can_write", "{what}: written, though can_write() says that the format cannot be");
        judge(f, x, w, h, r, &what, ch)
    });
    c.explore("typed buffers", "ImageBuffer::write_to and write_with_encoder of all pixel types, via every format", |ch| {
        let f = FORMATS[ch.pick(16)];
        let (w, h) = (ch.range(0, 2) as u32, ch.range(0, 2) as u32);
        let color = COLORS[ch.pick(10)];
        let img = Raw { w, h, color, data: data(size(X::from(color), w, h), 0) }.dynamic();
        let r = catch(std::panic::AssertUnwindSafe(|| -> ImageResult<Vec<u8>> {
            let mut o = Cursor::new(vec![]);
            match &img {
                DynamicImage::ImageLuma8(i) => i.write_to(&mut o, f),
                DynamicImage::ImageLumaA8(i) => i.write_to(&mut o, f),
                DynamicImage::ImageRgb8(i) => i.write_to(&mut o, f),
                DynamicImage::ImageRgba8(i) => i.write_to(&mut o, f),
                DynamicImage::ImageLuma16(i) => i.write_to(&mut o, f),
                DynamicImage::ImageLumaA16(i) => i.write_to(&mut o, f),
                DynamicImage::ImageRgb16(i) => i.write_to(&mut o, f),
                DynamicImage::ImageRgba16(i) => i.write_to(&mut o, f),
                DynamicImage::ImageRgb32F(i) => i.write_to(&mut o, f),
                DynamicImage::ImageRgba32F(i) => i.write_to(&mut o, f),
                _ => unreachable!(),
            }?;
            Ok(o.into_inner())
        }));
        judge(f, color.into(), w, h, r, &format!("typed {f:?} {color:?} {w}x{h}"), ch)
    });
    c.explore("hdr slices", "HdrEncoder::encode with sizes of usize, at and beyond what the decoder takes", |ch| {
        let big = ch.of(&[0usize, 1, 7, 8, 127, 128, 129, 32767, 32768, 65535, 65536, 1 << 20]);
        let other = ch.of(&[0usize, 1, 2]);
        let (w, h) = if ch.flag() { (big, other) } else { (other, big) };
        let px = vec![Rgb([1f32, 0.5, 0.25]); w * h];
        let r = catch(std::panic::AssertUnwindSafe(|| {
            let mut o = vec![];
            hdr::HdrEncoder::new(&mut o).encode(&px, w, h)?;
            Ok(o)
        }));
        judge(ImageFormat::Hdr, X::Rgb32F, w as u32, h as u32, r, &format!("hdr slice {w}x{h}"), ch)
    });
    c.explore("bmp palettes", "encode_with_palette: no, 1, 2, 255, 256, 257 and 65537 colours x all extended colour types x sizes", |ch| {
        let n = ch.of(&[0usize, 1, 2, 16, 255, 256, 257, 65537]);
        let x = ALL[ch.pick(ALL.len())];
        let (w, h) = (ch.range(0, 3) as u32, ch.range(0, 3) as u32);
        let pal: Vec<[u8; 3]> = (0..n).map(|i| [i as u8, (i / 2) as u8, 255 - i as u8]).collect();
        // Indices beyond the palette are the caller's mistake, so all are zero.
        let d = data(size(x, w, h), 1);
        let r = catch(std::panic::AssertUnwindSafe(|| {
            let mut o = vec![];
            bmp::BmpEncoder::new(&mut o).encode_with_palette(&d, w, h, x, Some(&pal))?;
            Ok(o)
        }));
        let what = format!("bmp with {n} colours {x:?} {w}x{h}");
        if let Ok(Ok(b)) = &r {
            if w * h > 0 && n > 0 {
                let g = load_from_memory_with_format(b, ImageFormat::Bmp).map_err(|e| Viol::new("bmp palette", format!("{what}: {e}")))?.to_rgb8();
                need!(g.pixels().all(|p| p.0 == pal[0]), "bmp palette", "{what}: decoded as {:?}", g.get_pixel(0, 0));
            }
        }
        judge(ImageFormat::Bmp, x, w, h, r, &what, ch)
    });
    c.explore("ico frames", "lists of up to 3 frames of 10 sizes each, PNG or BMP without its file header: the largest frame is what decoding gives", |ch| {
        let k = ch.range(0, 3);
        let mut frames = vec![];
        let mut sizes = vec![];
        let dims = [(1u32, 1u32), (2, 3), (16, 16), (255, 1), (256, 2), (256, 256), (1, 256), (257, 1), (0, 1), (3, 300)];
        for _ in 0..k {
            let (w, h) = ch.of(&dims);
            let d = data(w as u64 * h as u64 * 4, 0);
            let f = catch(|| ico::IcoFrame::as_png(&d, w, h, X::Rgba8)).map_err(|p| Viol::new("ico frames", format!("{w}x{h}: {p}")))?;
            match f {
                Ok(f) => {
                    need!((1..=256).contains(&w) && (1..=256).contains(&h), "ico frames", "a frame of {w}x{h} is accepted");
                    frames.push(f);
                    sizes.push((w, h));
                }
                Err(e) => {
                    need!(!((1..=256).contains(&w) && (1..=256).contains(&h)), "ico frames", "a frame of {w}x{h} is refused: {e}");
                    return Ok(());
                }
            }
        }
        let mut o = vec![];
        match catch(std::panic::AssertUnwindSafe(|| ico::IcoEncoder::new(&mut o).encode_images(&frames))) {
            Err(p) => viol("ico frames", format!("{sizes:?}: {p}")),
            Ok(Err(e)) => {
                need!(frames.is_empty(), "ico frames", "{sizes:?} is refused: {e}");
                Ok(())
            }
            Ok(Ok(())) => {
                need!(!frames.is_empty(), "ico frames", "no frames are accepted");
                let d = load_from_memory_with_format(&o, ImageFormat::Ico).map_err(|e| Viol::new("ico frames", format!("{sizes:?}: accepted but {e}")))?;
                let area = sizes.iter().map(|s| s.0 * s.1).max().unwrap();
                need!(sizes.contains(&d.dimensions()) && d.width() * d.height() == area, "ico frames", "{sizes:?} is decoded as {:?}", d.dimensions());
                ch.validated();
                Ok(())
            }
        }
    });
    c.explore("gif frames", "sequences of up to 3 frames, each of 5 sizes: all refused, or as many frames as were written, of the size of the first", |ch| {
        let k = ch.range(1, 3);
        let dims = [(1u32, 1u32), (2, 3), (3, 2), (0, 0), (65536, 1)];
        let sizes: Vec<_> = (0..k).map(|_| ch.of(&dims)).collect();
        let r = catch(|| -> ImageResult<Vec<u8>> {
            let mut o = vec![];
            {
                let mut e = gif::GifEncoder::new(&mut o);
                for (i, (w, h)) in sizes.iter().enumerate() {
                    e.encode_frame(Frame::new(RgbaImage::from_pixel(*w, *h, Rgba([i as u8 * 60, 9, 200, 255]))))?;
                }
            }
            Ok(o)
        });
        match r {
            Err(p) => viol("gif frames", format!("{sizes:?}: {p}")),
            Ok(Err(_)) => Ok(()),
            Ok(Ok(b)) => {
                let d = gif::GifDecoder::new(Cursor::new(&b[..])).map_err(|e| Viol::new("gif frames", format!("{sizes:?} is accepted but {e}")))?;
                let f = d.into_frames().collect_frames().map_err(|e| Viol::new("gif frames", format!("{sizes:?} is accepted but {e}")))?;
                need!(f.len() == k as usize, "gif frames", "{sizes:?} has {} frames", f.len());
                for f in &f {
                    need!(f.buffer().dimensions() == sizes[0], "gif frames", "{sizes:?}: a frame of {:?}", f.buffer().dimensions());
                }
                ch.validated();
                Ok(())
            }
        }
    });
    c.finish()
}
