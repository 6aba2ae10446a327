//! C45: Every way of reading and writing an image gives the same result.
//! TECHNIQUE: exhaustive enumeration of all sequences of reader operations up to a depth over files x positions x formats x limits against a model of the reader's state and decoders made directly; and of every entry point x file x truncation, and every entry point x format x colour type x size x place in memory, compared with each other
//! LEVEL: model_checking
//! NOTE: Sequences have at most 4 (quick) or 6 operations before the one that ends them; OpenEXR files written by two calls may differ in the order of their chunks, so they are compared decoded.
use image::codecs::*;
use image::*;
use mc::codec::basic;
use mc::*;
use std::io::{BufReader, Cursor, Seek, SeekFrom};
use std::panic::AssertUnwindSafe;

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Image(Raw),
    Dims(u32, u32),
    Err(&'static str),
}
fn class(e: &ImageError) -> Out {
    Out::Err(match e {
        ImageError::Decoding(_) => "Decoding",
        ImageError::Encoding(_) => "Encoding",
        ImageError::Parameter(_) => "Parameter",
        ImageError::Limits(_) => "Limits",
        ImageError::Unsupported(_) => "Unsupported",
        ImageError::IoError(_) => "IoError",
    })
}
fn out(r: ImageResult<DynamicImage>) -> Out {
    match r {
        Ok(d) => Out::Image(Raw::of(&d)),
        Err(e) => class(&e),
    }
}
fn dims(r: ImageResult<(u32, u32)>) -> Out {
    match r {
        Ok((w, h)) => Out::Dims(w, h),
        Err(e) => class(&e),
    }
}
fn lim(w: Option<u32>, h: Option<u32>, a: Option<u64>) -> Limits {
    let mut l = Limits::no_limits();
    l.max_image_width = w;
    l.max_image_height = h;
    l.max_alloc = a;
    l
}

/// Runs `$e` with `$d` a decoder made directly.
macro_rules! concrete {
    ($f:expr, $c:expr, $l:expr, |$d:ident| $e:expr) => {
        match $f {
            ImageFormat::Png => png::PngDecoder::with_limits($c, $l).and_then(|mut $d| $e),
            ImageFormat::Jpeg => jpeg::JpegDecoder::new($c).and_then(|mut $d| $e),
            ImageFormat::Gif => gif::GifDecoder::new($c).and_then(|mut $d| $e),
            ImageFormat::WebP => webp::WebPDecoder::new($c).and_then(|mut $d| $e),
            ImageFormat::Pnm => pnm::PnmDecoder::new($c).and_then(|mut $d| $e),
            ImageFormat::Tiff => tiff::TiffDecoder::new($c).and_then(|mut $d| $e),
            ImageFormat::Tga => tga::TgaDecoder::new($c).and_then(|mut $d| $e),
            ImageFormat::Dds => dds::DdsDecoder::new($c).and_then(|mut $d| $e),
            ImageFormat::Bmp => bmp::BmpDecoder::new($c).and_then(|mut $d| $e),
            ImageFormat::Ico => ico::IcoDecoder::new($c).and_then(|mut $d| $e),
            ImageFormat::Hdr => hdr::HdrDecoder::new($c).and_then(|mut $d| $e),
            ImageFormat::OpenExr => openexr::OpenExrDecoder::new($c).and_then(|mut $d| $e),
            ImageFormat::Farbfeld => farbfeld::FarbfeldDecoder::new($c).and_then(|mut $d| $e),
            ImageFormat::Avif => avif::AvifDecoder::new($c).and_then(|mut $d| $e),
            ImageFormat::Qoi => qoi::QoiDecoder::new($c).and_then(|mut $d| $e),
            _ => return Out::Err("Unsupported"),
        }
    };
}
/// How much of the image is asked for.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ask {
    /// `decode`: what the image takes is taken from the allowance first.
    Decode,
    /// `into_decoder` and an image read from that.
    Decoder,
    /// `into_dimensions`
    Dimensions,
}
fn direct(f: ImageFormat, c: Cursor<&[u8]>, l: &Limits, ask: Ask) -> Out {
    fn go(d: &mut impl ImageDecoder, l: &Limits, ask: Ask) -> ImageResult<u64> {
        let n = d.total_bytes();
        let mut l = l.clone();
        if ask == Ask::Decode {
            if let Some(m) = &mut l.max_alloc {
                if *m < n {
                    return Err(ImageError::Limits(error::LimitError::from_kind(error::LimitErrorKind::InsufficientMemory)));
                }
                *m -= n;
            }
        }
        d.set_limits(l)?;
        Ok(n)
    }
    let r: ImageResult<Out> = concrete!(f, c, l.clone(), |d| {
        let n = go(&mut d, l, ask)?;
        let (w, h) = d.dimensions();
        if ask == Ask::Dimensions {
            return Ok(Out::Dims(w, h));
        }
        let color = d.color_type();
        let mut data = vec![0u8; n as usize];
        d.read_image(&mut data)?;
        Ok(Out::Image(Raw { w, h, color, data }))
    });
    r.unwrap_or_else(|e| class(&e))
}

struct Src {
    name: String,
    bytes: Vec<u8>,
    guess: Option<ImageFormat>,
}
fn sources() -> Vec<Src> {
    let mut v = vec![];
    for e in basic() {
        let f = e.format();
        if !matches!(f, ImageFormat::Png | ImageFormat::Bmp | ImageFormat::Tga | ImageFormat::Gif | ImageFormat::Pnm | ImageFormat::Qoi | ImageFormat::Tiff | ImageFormat::Ico) || v.iter().any(|s: &Src| s.name == e.name()) {
            continue;
        }
        let color = if f == ImageFormat::Ico { ColorType::Rgba8 } else { ColorType::Rgb8 };
        if let Ok(bytes) = e.to_vec(&pattern(3, 2, color, 2)) {
            v.push(Src { name: e.name(), bytes, guess: (f != ImageFormat::Tga).then_some(f) });
        }
    }
    v.push(Src { name: "junk".into(), bytes: vec![1, 2, 3], guess: None });
    v.push(Src { name: "nothing".into(), bytes: vec![], guess: None });
    v
}

/// All files, whole and cut, that the entry points are compared on.
fn entry(ch: &mut Ch, name: &str, f: ImageFormat, b: &[u8], dir: &std::path::Path) -> Res {
    let limits = Limits::default();
    let want = catch(|| direct(f, Cursor::new(b), &limits, Ask::Decode));
    let Ok(want) = want else { return Ok(()) }; // a panic of a decoder: C02
    let same = |what: &str, got: Out| -> Res {
        need!(got == want, format!("{what} {f:?}"), "{name}: {what} gives {got:?}; the decoder gives {want:?}");
        Ok(())
    };
    let run = |what: &str, g: &dyn Fn() -> Out| -> Res {
        match catch(AssertUnwindSafe(g)) {
            Ok(o) => same(what, o),
            Err(e) => viol(format!("{what} {f:?}"), format!("{name}: {what}: {e}")),
        }
    };
    run("load", &|| out(load(Cursor::new(b), f)))?;
    run("load_from_memory_with_format", &|| out(load_from_memory_with_format(b, f)))?;
    run("ImageReader::with_format", &|| out(ImageReader::with_format(Cursor::new(b), f).decode()))?;
    run("ImageReader over a small buffer", &|| out(ImageReader::with_format(BufReader::with_capacity(7, Cursor::new(b)), f).decode()))?;
    run("ImageReader over a box", &|| {
        let r: &mut dyn mc_reader::BufSeek = &mut Cursor::new(b);
        out(ImageReader::with_format(r, f).decode())
    })?;
    if guess_format(b).ok() == Some(f) {
        run("load_from_memory", &|| out(load_from_memory(b)))?;
        run("with_guessed_format", &|| out(ImageReader::new(Cursor::new(b)).with_guessed_format().unwrap().decode()))?;
    }
    // Without limits, as a decoder used by itself has none.
    let free = catch(|| direct(f, Cursor::new(b), &Limits::no_limits(), Ask::Decode));
    if let Ok(free) = free {
        let g = catch(AssertUnwindSafe(|| {
            let mut r = ImageReader::with_format(Cursor::new(b), f);
            r.no_limits();
            out(r.decode())
        }));
        need!(g == Ok(free.clone()), format!("no_limits {f:?}"), "{name}: without limits {g:?}; the decoder gives {free:?}");
    }
    let d = direct(f, Cursor::new(b), &limits, Ask::Dimensions);
    let g = catch(AssertUnwindSafe(|| dims(ImageReader::with_format(Cursor::new(b), f).into_dimensions())));
    need!(g == Ok(d.clone()), format!("into_dimensions {f:?}"), "{name}: into_dimensions gives {g:?}; the decoder gives {d:?}");
    if let Out::Image(r) = &want {
        need!(d == Out::Dims(r.w, r.h), format!("dimensions {f:?}"), "{name}: dimensions {d:?} of {r:?}");
        ch.validated();
    }
    let Some(ext) = f.extensions_str().first() else { return Ok(()) };
    let p = dir.join(format!("a.{ext}"));
    std::fs::write(&p, b).unwrap();
    run("open", &|| out(open(&p)))?;
    run("ImageReader::open", &|| match ImageReader::open(&p) {
        Ok(r) => out(r.decode()),
        Err(e) => class(&e.into()),
    })?;
    let g = catch(AssertUnwindSafe(|| dims(image_dimensions(&p))));
    need!(g == Ok(d.clone()), format!("image_dimensions {f:?}"), "{name}: image_dimensions gives {g:?}; the decoder gives {d:?}");
    ch.outcome(hash_of(&format!("{want:?}")));
    Ok(())
}
mod mc_reader {
    pub trait BufSeek: std::io::BufRead + std::io::Seek {}
    impl<T: std::io::BufRead + std::io::Seek> BufSeek for T {}
}
struct Dir(std::path::PathBuf);
impl Dir {
    fn new(tag: &str) -> Dir {
        let d = std::env::temp_dir().join(format!("mc-c45-{tag}-{}-{:?}", std::process::id(), std::thread::current().id()));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// The bytes an encoder made directly, with its defaults, writes.
fn encoder(f: ImageFormat, r: &Raw) -> Result<Vec<u8>, Out> {
    let mut c = Cursor::new(vec![]);
    let color: ExtendedColorType = r.color.into();
    let (d, w, h) = (&r.data[..], r.w, r.h);
    match f {
        ImageFormat::Png => png::PngEncoder::new(&mut c).write_image(d, w, h, color),
        ImageFormat::Jpeg => jpeg::JpegEncoder::new(&mut c).write_image(d, w, h, color),
        ImageFormat::Gif => {
            let mut e = gif::GifEncoder::new(&mut c);
            e.encode(d, w, h, color)
        }
        ImageFormat::WebP => webp::WebPEncoder::new_lossless(&mut c).write_image(d, w, h, color),
        ImageFormat::Pnm => pnm::PnmEncoder::new(&mut c).write_image(d, w, h, color),
        ImageFormat::Tiff => tiff::TiffEncoder::new(&mut c).write_image(d, w, h, color),
        ImageFormat::Tga => tga::TgaEncoder::new(&mut c).write_image(d, w, h, color),
        ImageFormat::Bmp => bmp::BmpEncoder::new(&mut c).write_image(d, w, h, color),
        ImageFormat::Ico => ico::IcoEncoder::new(&mut c).write_image(d, w, h, color),
        ImageFormat::Hdr => hdr::HdrEncoder::new(&mut c).write_image(d, w, h, color),
        ImageFormat::OpenExr => openexr::OpenExrEncoder::new(&mut c).write_image(d, w, h, color),
        ImageFormat::Farbfeld => farbfeld::FarbfeldEncoder::new(&mut c).write_image(d, w, h, color),
        ImageFormat::Avif => avif::AvifEncoder::new(&mut c).write_image(d, w, h, color),
        ImageFormat::Qoi => qoi::QoiEncoder::new(&mut c).write_image(d, w, h, color),
        _ => return Err(Out::Err("Unsupported")),
    }
    .map_err(|e| class(&e))?;
    Ok(c.into_inner())
}

fn main() {
    let mut c = Check::start("C45", "model_checking", "every sequence of reader operations does what the model says; every entry point for reading gives what the decoder gives, and every entry point for writing writes what the encoder writes");
    let src = sources();
    c.explore("reader operations", "two ways to begin x all sequences of 4 (6) of: set two formats, clear, guess, no limits, three limits; x 4 ways to end x 10 files x 3 positions", |ch| {
        let s = &src[ch.pick(src.len())];
        let lead = ch.of(&[0usize, 1, 20]);
        let mut bytes = vec![b'P'; lead];
        bytes.extend(&s.bytes);
        let mut cur = Cursor::new(&bytes[..]);
        cur.set_position(lead as u64);
        let start = ch.of(&[None, Some(ImageFormat::Bmp)]);
        let mut r = match start {
            None => ImageReader::new(cur),
            Some(f) => ImageReader::with_format(cur, f),
        };
        let (mut format, mut limits) = (start, Limits::default());
        let mut what = format!("{} at {lead}, beginning with {start:?}", s.name);
        let depth = if ch.quick { 4 } else { 6 };
        for _ in 0..depth {
            let op = ch.pick(9);
            ch.step();
            match op {
                0 => break,
                1 | 2 => {
                    let f = [ImageFormat::Png, ImageFormat::Tga][op - 1];
                    r.set_format(f);
                    format = Some(f);
                    what += &format!("; set_format {f:?}");
                }
                3 => {
                    r.clear_format();
                    format = None;
                    what += "; clear_format";
                }
                4 => {
                    r = r.with_guessed_format().map_err(|e| Viol::new("guess", format!("{what}: {e}")))?;
                    format = s.guess.or(format);
                    what += "; guess";
                }
                5 => {
                    r.no_limits();
                    limits = lim(None, None, None);
                    what += "; no_limits";
                }
                6..=8 => {
                    limits = [lim(Some(2), None, None), lim(Some(3), Some(2), Some(17)), lim(None, Some(1), Some(1 << 20))][op - 6].clone();
                    r.limits(limits.clone());
                    what += &format!("; limits {op}");
                }
                _ => unreachable!(),
            }
            need!(r.format() == format, "format", "{what}: the format is {:?}, not {format:?}", r.format());
        }
        ch.state(hash_of(&(s.name.clone(), lead, format!("{format:?} {limits:?}"))));
        let end = ch.pick(4);
        if end == 3 {
            let mut i = r.into_inner();
            need!(i.position() == lead as u64, "position", "{what}: left at {}", i.position());
            let n = i.seek(SeekFrom::End(0)).unwrap();
            need!(n == bytes.len() as u64, "position", "{what}: another reader");
            return Ok(());
        }
        let ask = [Ask::Decode, Ask::Decoder, Ask::Dimensions][end];
        let mut cur = Cursor::new(&bytes[..]);
        cur.set_position(lead as u64);
        let want = match format {
            None => Ok(Out::Err("Unsupported")),
            Some(f) => catch(AssertUnwindSafe(|| direct(f, cur, &limits, ask))),
        };
        let Ok(want) = want else { return Ok(()) };
        let got = catch(AssertUnwindSafe(|| match ask {
            Ask::Decode => out(r.decode()),
            Ask::Decoder => out(r.into_decoder().and_then(DynamicImage::from_decoder)),
            Ask::Dimensions => dims(r.into_dimensions()),
        }));
        need!(got == Ok(want.clone()), format!("{ask:?}"), "{what}; {ask:?}: {got:?} instead of {want:?}");
        // Limits on the dimensions hold whatever the decoder does about them.
        if let Out::Image(i) = &want {
            need!(limits.max_image_width.is_none_or(|m| i.w <= m) && limits.max_image_height.is_none_or(|m| i.h <= m), "limits", "{what}; {ask:?}: {i:?} beyond {limits:?}");
            ch.validated();
        }
        ch.outcome(hash_of(&format!("{want:?}")));
        Ok(())
    });
    let files = corpus::all();
    c.explore("reading", "all files of the corpus x ten entry points, and a decoder made directly", |ch| {
        let f = &files[ch.pick(files.len())];
        let d = Dir::new("r");
        entry(ch, &f.name, f.format, &f.bytes, &d.0)
    });
    c.explore("reading, cut", "all files of the corpus cut to each length up to 80 (400) and each hundredth (thousandth) part", |ch| {
        let f = &files[ch.pick(files.len())];
        let n = f.bytes.len();
        let (dense, parts) = if ch.quick { (80, 100) } else { (400, 1000) };
        let mut at: Vec<usize> = (0..n.min(dense)).collect();
        at.extend((1..parts).map(|k| n * k / parts).filter(|k| *k >= dense));
        if at.is_empty() {
            return Ok(());
        }
        let k = at[ch.pick(at.len())];
        let d = Dir::new("c");
        entry(ch, &format!("{} cut to {k}", f.name), f.format, &f.bytes[..k], &d.0)
    });
    c.explore("reading as another", "all files of the corpus read as each other format: the same refusal, or the same image, everywhere", |ch| {
        let f = &files[ch.pick(files.len())];
        let all: Vec<ImageFormat> = ImageFormat::all().collect();
        let g = ch.of(&all);
        let d = Dir::new("o");
        entry(ch, &format!("{} as {g:?}", f.name), g, &f.bytes, &d.0)
    });
    c.explore("writing", "every format and each of its extensions x 10 colour types x 4 sizes x seven entry points: what the encoder writes or refuses", |ch| {
        let all: Vec<ImageFormat> = ImageFormat::all().collect();
        let f = ch.of(&all);
        let color = ch.of(&COLORS);
        let (w, h) = ch.of(&[(1u32, 1u32), (3, 2), (5, 1), (17, 9)]);
        let r = pattern(w, h, color, 2);
        let want = encoder(f, &r);
        let img = r.dynamic();
        let dir = Dir::new("w");
        let same = |what: &str, got: Result<Vec<u8>, Out>| -> Res {
            let eq = match (&got, &want) {
                (Ok(a), Ok(b)) if f == ImageFormat::OpenExr => out(load_from_memory_with_format(a, f)) == out(load_from_memory_with_format(b, f)),
                (a, b) => a == b,
            };
            let show = |x: &Result<Vec<u8>, Out>| match x {
                Ok(b) => format!("{} bytes, {}", b.len(), hex(&b[..b.len().min(40)])),
                Err(e) => format!("{e:?}"),
            };
            need!(eq, format!("{what} {f:?}"), "{w}x{h} {color:?} as {f:?}: {what} gives {}; the encoder gives {}", show(&got), show(&want));
            Ok(())
        };
        let mem = |g: &dyn Fn(&mut Cursor<Vec<u8>>) -> ImageResult<()>| {
            let mut o = Cursor::new(vec![]);
            g(&mut o).map_err(|e| class(&e)).map(|_| o.into_inner())
        };
        let color: ExtendedColorType = r.color.into();
        same("write_buffer_with_format", mem(&|o| write_buffer_with_format(o, &r.data, w, h, color, f)))?;
        // (GIF, WebP and others take an image of another type through this one: see below.)
        let via = mem(&|o| img.write_to(o, f));
        let conv = matches!(f, ImageFormat::Gif);
        if !conv {
            same("write_to", via)?;
        } else {
            // It is the same picture.
            let a = via.map_err(|e| Viol::new("write_to", format!("{w}x{h} {:?} as {f:?}: {e:?}", r.color)))?;
            let b = encoder(f, &Raw::of(&DynamicImage::ImageRgba8(img.to_rgba8()))).unwrap();
            need!(a == b, "write_to Gif", "{w}x{h} {:?} as {f:?}: not the picture in RGBA", r.color);
        }
        let at = |p: &std::path::Path, g: &dyn Fn(&std::path::Path) -> ImageResult<()>| {
            let x = g(p).map_err(|e| class(&e)).map(|_| std::fs::read(p).unwrap());
            let _ = std::fs::remove_file(p);
            x
        };
        let p = dir.0.join("a.unknown");
        same("save_with_format", at(&p, &|p| img.save_with_format(p, f)))?;
        same("save_buffer_with_format", at(&p, &|p| save_buffer_with_format(p, &r.data, w, h, color, f)))?;
        // A file that was there, longer, is replaced.
        std::fs::write(&p, vec![0x55; 1 << 16]).unwrap();
        same("save_with_format over a file", at(&p, &|p| img.save_with_format(p, f)))?;
        for x in f.extensions_str() {
            for x in [x.to_string(), x.to_uppercase()] {
                let p = dir.0.join(format!("a.{x}"));
                same(&format!("save {x}"), at(&p, &|p| img.save(p)))?;
                same(&format!("save_buffer {x}"), at(&p, &|p| save_buffer(p, &r.data, w, h, color)))?;
                ch.step();
            }
        }
        ch.outcome(hash_of(&want.as_ref().map_err(|e| format!("{e:?}")).map(|b| b.len())));
        if want.is_ok() {
            ch.validated();
        }
        Ok(())
    });
    c.explore("placement, writing", "every format x 10 colour types x 4 sizes x 8 places relative to an aligned address: the same file, or the same refusal", |ch| {
        let all: Vec<ImageFormat> = ImageFormat::all().filter(|f| !matches!(f, ImageFormat::Pcx | ImageFormat::Dds)).collect();
        let f = ch.of(&all);
        let color = ch.of(&COLORS);
        let (w, h) = ch.of(&[(1u32, 1u32), (3, 2), (5, 1), (17, 9)]);
        let r = pattern(w, h, color, 2);
        let color: ExtendedColorType = color.into();
        let go = |off: usize| -> Result<Vec<u8>, Out> {
            let mut b = vec![0u64; r.data.len() / 8 + 2];
            let b: &mut [u8] = bytemuck_cast(&mut b);
            b[off..off + r.data.len()].copy_from_slice(&r.data);
            let mut o = Cursor::new(vec![]);
            write_buffer_with_format(&mut o, &b[off..off + r.data.len()], w, h, color, f).map_err(|e| class(&e))?;
            Ok(o.into_inner())
        };
        let want = go(0);
        for off in 1..8 {
            let got = go(off);
            let eq = match (&got, &want) {
                (Ok(a), Ok(b)) if f == ImageFormat::OpenExr => out(load_from_memory_with_format(a, f)) == out(load_from_memory_with_format(b, f)),
                (a, b) => a == b,
            };
            need!(eq, format!("placement {f:?}"), "{w}x{h} {color:?} as {f:?}, {off} bytes off: {:?} instead of {:?}", got.map(|b| b.len()), want.map(|b| b.len()));
            ch.step();
        }
        if want.is_ok() {
            ch.validated();
        }
        Ok(())
    });
    c.explore("placement, reading", "all files of the corpus, and every format x 10 colour types x 3 sizes, read to 8 places relative to an aligned address: the same image", |ch| {
        let k = ch.pick(2);
        let (f, name, bytes) = if k == 0 {
            let f = &files[ch.pick(files.len())];
            (f.format, f.name.clone(), f.bytes.to_vec())
        } else {
            let all: Vec<ImageFormat> = ImageFormat::all().collect();
            let f = ch.of(&all);
            let color = ch.of(&COLORS);
            let (w, h) = ch.of(&[(1u32, 1u32), (3, 2), (17, 9)]);
            match encoder(f, &pattern(w, h, color, 2)) {
                Ok(b) => (f, format!("{w}x{h} {color:?} as {f:?}"), b),
                Err(_) => return Ok(()),
            }
        };
        let go = |off: usize| -> Result<Vec<u8>, Out> {
            let d = ImageReader::with_format(Cursor::new(&bytes), f).into_decoder().map_err(|e| class(&e))?;
            let n = d.total_bytes() as usize;
            let mut b = vec![0u64; n / 8 + 2];
            let b: &mut [u8] = bytemuck_cast(&mut b);
            b.fill(0x77);
            d.read_image(&mut b[off..off + n]).map_err(|e| class(&e))?;
            if b[..off].iter().chain(&b[off + n..]).any(|b| *b != 0x77) {
                return Err(Out::Err("bytes beside the buffer changed"));
            }
            Ok(b[off..off + n].to_vec())
        };
        let want = go(0);
        for off in 1..8 {
            let got = catch(AssertUnwindSafe(|| go(off)));
            need!(got.as_ref() == Ok(&want), format!("placement {f:?}"), "{name}, {off} bytes off: {:?} instead of {:?}", got.map(|g| g.map(|b| hex(&b[..b.len().min(20)]))), want.map(|b| hex(&b[..b.len().min(20)])));
            ch.step();
        }
        if want.is_ok() {
            ch.validated();
        }
        Ok(())
    });
    c.finish()
}
fn bytemuck_cast(v: &mut [u64]) -> &mut [u8] {
    let n = v.len() * 8;
    unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, n) }
}
