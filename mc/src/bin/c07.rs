//! C07: a decoder's metadata agrees with the image it delivers.
//! TECHNIQUE: exhaustive enumeration of files x access paths x prior contents and lengths of the destination on the real decoders, with differential comparison of the paths
//! LEVEL: model_checking
//! NOTE: Files are the corpus of about 130 files (every colour layout of every format), all small sizes written by every encoder, and in the thorough tier every corpus file with one byte changed.
use image::codecs::*;
use image::*;
use mc::codec::*;
use mc::*;
use std::io::Cursor;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Seen {
    w: u32,
    h: u32,
    color: ColorType,
    original: ExtendedColorType,
    total: u64,
    icc: Result<Option<Vec<u8>>, ()>,
    exif: Result<Option<Vec<u8>>, ()>,
    orientation: Result<u8, ()>,
    data: Result<Vec<u8>, ()>,
}

fn look(mut d: impl ImageDecoder, fill: u8, meta: usize) -> Seen {
    let (w, h) = d.dimensions();
    let (color, original, total) = (d.color_type(), d.original_color_type(), d.total_bytes());
    let (mut icc, mut exif, mut orientation) = (Err(()), Err(()), Err(()));
    // Every order of asking.
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][meta];
    for k in order {
        match k {
            0 => icc = d.icc_profile().map_err(|_| ()),
            1 => exif = d.exif_metadata().map_err(|_| ()),
            _ => orientation = d.orientation().map(|o| o.to_exif()).map_err(|_| ()),
        }
    }
    assert_eq!((w, h, color, total), (d.dimensions().0, d.dimensions().1, d.color_type(), d.total_bytes()), "metadata changed by asking for it");
    let mut data = vec![fill; total as usize];
    let r = d.read_image(&mut data).map_err(|_| ());
    Seen { w, h, color, original, total, icc, exif, orientation, data: r.map(|_| data) }
}
/// As a plain read, without asking for anything.
fn plain(d: impl ImageDecoder, fill: u8, extra: i64) -> Result<Vec<u8>, ()> {
    let mut data = vec![fill; (d.total_bytes() as i64 + extra) as usize];
    d.read_image(&mut data).map_err(|_| ())?;
    Ok(data)
}

macro_rules! concrete {
    ($f:expr, $c:expr, |$d:ident| $e:expr) => {
        match $f {
            ImageFormat::Png => png::PngDecoder::new($c).map(|$d| $e),
            ImageFormat::Jpeg => jpeg::JpegDecoder::new($c).map(|$d| $e),
            ImageFormat::Gif => gif::GifDecoder::new($c).map(|$d| $e),
            ImageFormat::WebP => webp::WebPDecoder::new($c).map(|$d| $e),
            ImageFormat::Pnm => pnm::PnmDecoder::new($c).map(|$d| $e),
            ImageFormat::Tiff => tiff::TiffDecoder::new($c).map(|$d| $e),
            ImageFormat::Tga => tga::TgaDecoder::new($c).map(|$d| $e),
            ImageFormat::Dds => dds::DdsDecoder::new($c).map(|$d| $e),
            ImageFormat::Bmp => bmp::BmpDecoder::new($c).map(|$d| $e),
            ImageFormat::Ico => ico::IcoDecoder::new($c).map(|$d| $e),
            ImageFormat::Hdr => hdr::HdrDecoder::new($c).map(|$d| $e),
            ImageFormat::OpenExr => openexr::OpenExrDecoder::new($c).map(|$d| $e),
            ImageFormat::Farbfeld => farbfeld::FarbfeldDecoder::new($c).map(|$d| $e),
            ImageFormat::Avif => avif::AvifDecoder::new($c).map(|$d| $e),
            ImageFormat::Qoi => qoi::QoiDecoder::new($c).map(|$d| $e),
            f => panic!("{f:?}"),
        }
    };
}

fn check(ch: &mut Ch, name: &str, f: ImageFormat, b: &[u8]) -> Res {
    let Ok(a) = concrete!(f, Cursor::new(b), |d| look(d, 0x00, 0)) else {
        // The reader must refuse it too.
        ensure!(decode(f, b).is_err(), "{name}: the decoder refuses what the reader decodes");
        return Ok(());
    };
    ensure!(a.total == u64::from(a.w) * u64::from(a.h) * u64::from(a.color.bytes_per_pixel()), "{name}: {} bytes announced for {}x{} {:?}", a.total, a.w, a.h, a.color);
    ensure!(a.original.channel_count() >= 1, "{name}: {:?}", a.original);
    // formats whose files may hold what no colour type of this library is
    if !matches!(f, ImageFormat::Tga | ImageFormat::Tiff | ImageFormat::Pnm | ImageFormat::OpenExr) {
        ensure!(a.original == a.color.into(), "{name}: {:?} of originally {:?}", a.color, a.original);
    }
    let eq = |what: &str, x: &Seen| -> Res {
        if *x == a {
            return Ok(());
        }
        let d = match (&x.data, &a.data) {
            (Ok(x), Ok(a)) => first_diff(x, a),
            (x, a) => format!("{} / {}", x.is_ok(), a.is_ok()),
        };
        viol("", format!("{name}: {what}: {}x{} {:?} {:?} {} orientation {:?} against {}x{} {:?} {:?} {} orientation {:?}, icc equal {}, exif equal {}, data: {d}", x.w, x.h, x.color, x.original, x.total, x.orientation, a.w, a.h, a.color, a.original, a.total, a.orientation, x.icc == a.icc, x.exif == a.exif))
    };
    for (fill, meta) in [(0x00, 0), (0xFF, 0), (0x5A, 3), (0xA5, 1), (0, 2), (0xFF, 4), (0, 5)] {
        let x = concrete!(f, Cursor::new(b), |d| look(d, fill, meta)).map_err(|e| Viol { key: String::new(), msg: format!("{name}: opening again failed: {e}") })?;
        eq(&format!("destination filled with {fill:02x}, metadata asked in order {meta}"), &x)?;
        let x = concrete!(f, Cursor::new(b), |d| look(Box::new(d), fill, meta)).unwrap();
        eq("through a box", &x)?;
        let x = concrete!(f, Cursor::new(b), |d| {
            let d: Box<dyn ImageDecoder> = Box::new(d);
            look(Box::new(d), fill, meta)
        })
        .unwrap();
        eq("through a box of a box", &x)?;
        ch.step();
    }
    let mut r = ImageReader::with_format(Cursor::new(b), f);
    r.no_limits();
    match r.into_decoder() {
        Err(e) => return viol("", format!("{name}: into_decoder failed: {e}")),
        Ok(d) => eq("through into_decoder", &look(d, 0x77, 0))?,
    }
    for fill in [0, 0xFF] {
        let p = concrete!(f, Cursor::new(b), |d| plain(d, fill, 0)).unwrap();
        ensure!(p == a.data, "{name}: reading without asking for metadata gives something else");
    }
    // A destination of another length is refused loudly.
    for extra in [-1i64, 1, 8] {
        if a.total as i64 + extra >= 0 {
            let r = catch(|| concrete!(f, Cursor::new(b), |d| plain(d, 0, extra)).unwrap());
            ensure!(!matches!(r, Ok(Ok(_))), "{name}: a destination of {} bytes too many was accepted", extra);
        }
    }
    let high = decode(f, b);
    match (&a.data, &high) {
        (Ok(x), Ok(h)) => {
            ensure!((h.w, h.h, h.color) == (a.w, a.h, a.color), "{name}: the reader gives {}x{} {:?}", h.w, h.h, h.color);
            ensure!(h.data == *x, "{name}: the reader gives other samples: {}", first_diff(&h.data, x));
            let l = load_from_memory_with_format(b, f).map(|d| Raw::of(&d)).ok();
            ensure!(l.as_ref() == Some(h), "{name}: load_from_memory_with_format gives something else");
            let l = concrete!(f, Cursor::new(b), |d| DynamicImage::from_decoder(d)).unwrap().map(|d| Raw::of(&d)).ok();
            ensure!(l.as_ref() == Some(h), "{name}: from_decoder gives something else");
            let l = load(Cursor::new(b), f).map(|d| Raw::of(&d)).ok();
            ensure!(l.as_ref() == Some(h), "{name}: load gives something else");
            if f != ImageFormat::Tga {
                let l = load_from_memory(b).map(|d| Raw::of(&d)).ok();
                ensure!(l.as_ref() == Some(h), "{name}: load_from_memory gives something else");
            }
        }
        (Err(_), Err(_)) => {}
        (x, h) => return viol("", format!("{name}: read_image ok: {}, decode ok: {}", x.is_ok(), h.is_ok())),
    }
    ch.validated();
    ch.outcome(hash_of(&a));
    ch.sample(|| format!("{name}: {}x{} {:?}", a.w, a.h, a.color));
    Ok(())
}

fn main() {
    let mut c = Check::start("C07", "model_checking", "one execution = one file through all access paths (concrete, boxed, double boxed, reader, loaders), seven prior contents and orders of asking, and wrong destination lengths");
    c.hang_after(60);
    let files = corpus::all();
    c.explore("corpus", "all corpus files", |ch| {
        let f = &files[ch.pick(files.len())];
        check(ch, &f.name, f.format, &f.bytes)
    });
    let encs = basic();
    let max = if c.quick { 5 } else { 12 };
    c.explore("written", "every encoder x colour x sizes 1..=5 (12) squared", |ch| {
        let e = &encs[ch.pick(encs.len())];
        let color = ch.of(&COLORS);
        let (w, h) = (ch.range(1, max) as u32, ch.range(1, max) as u32);
        let Ok(b) = e.to_vec(&pattern(w, h, color, 3)) else { return Ok(()) };
        check(ch, &format!("{} {color:?} {w}x{h}", e.name()), e.format(), &b)
    });
    let lim = if c.quick { 120 } else { 700 };
    c.explore("damaged", "every corpus file with one of its first 120 (700) bytes replaced by 0, 1, its complement or 0xFF: whatever still opens agrees on all paths", |ch| {
        let f = &files[ch.pick(files.len())];
        if f.format == ImageFormat::Avif {
            return Ok(());
        }
        let i = ch.pick(f.bytes.len().min(lim));
        let v = match ch.pick(4) {
            0 => 0,
            1 => 1,
            2 => !f.bytes[i],
            _ => 0xFF,
        };
        let mut b = f.bytes.to_vec();
        if b[i] == v {
            return Ok(());
        }
        b[i] = v;
        // Not the images that have become large.
        let name = format!("{} with byte {i} set to {v:#x}", f.name);
        match catch(|| header(f.format, &b)) {
            Ok(Ok(h)) if h.3 > 1 << 20 => return Ok(()),
            Err(_) => return Ok(()), // C02
            _ => {}
        }
        // Nor those that only decode without limits, which concrete decoders may set by themselves.
        match (catch(|| decode(f.format, &b)), catch(|| decode_limited(f.format, &b, Limits::default()))) {
            (Ok(x), Ok(y)) if x.is_ok() == y.is_ok() => {}
            _ => return Ok(()), // panics are for C02
        }
        // The tiff crate has limits of its own on concrete decoders.
        if f.format == ImageFormat::Tiff && decode(f.format, &b).is_ok() && !matches!(tiff::TiffDecoder::new(Cursor::new(&b[..])).map(|d| plain(d, 0, 0)), Ok(Ok(_))) {
            return Ok(());
        }
        // The format may no longer be recognised by content.
        if guess_format(&b).ok() != Some(f.format) && f.format != ImageFormat::Tga {
            return Ok(());
        }
        check(ch, &name, f.format, &b)
    });
    c.finish()
}
