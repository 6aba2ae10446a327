//! C44: errors name their true cause.
//! TECHNIQUE: exhaustive exploration of causes: every read, seek, write and flush of the real decoders and encoders fails in turn with errors of several kinds, every prefix and every changed header byte of the files is decoded, every colour type and size refused is offered, and every class of error is compared with the cause that was injected
//! LEVEL: model_checking
//! NOTE: One cause per execution. An end of file counts as an I/O error or a decoding error. Which of "unsupported", "encoding" and "parameter" a refused colour type or size is called is not judged, nor are texts, beyond their being there and naming the format where the error carries one. ICO errors may name the embedded format; damaged PNG animations and DDS files of odd sizes may be called parameter errors.
use image::codecs::{gif::GifDecoder, png::PngDecoder, webp::WebPDecoder};
use image::error::*;
use image::*;
use mc::codec::*;
use mc::io::{Answer, EnvReader, EnvWriter, FAULT_KIND};
use mc::paths::{applies, Path, PATHS};
use mc::*;
use std::error::Error;
use std::io::{BufReader, Cursor, ErrorKind};
use std::rc::Rc;

/// As `paths::run`, but keeping the error itself.
fn run<R: std::io::BufRead + std::io::Seek>(p: Path, f: ImageFormat, r: R) -> Result<ImageResult<()>, String> {
    catch(move || {
        match p {
            Path::Reader => {
                let mut rd = ImageReader::with_format(r, f);
                rd.no_limits();
                rd.decode()?;
            }
            Path::Guess => {
                let mut rd = ImageReader::new(r).with_guessed_format()?;
                rd.no_limits();
                rd.decode()?;
            }
            Path::Decoder => {
                let mut rd = ImageReader::with_format(r, f);
                rd.no_limits();
                let mut d = rd.into_decoder()?;
                d.icc_profile()?;
                d.exif_metadata()?;
                d.orientation()?;
                let mut data = vec![0x5A; d.total_bytes() as usize];
                d.read_image(&mut data)?;
            }
            Path::Frames => {
                let it = match f {
                    ImageFormat::Gif => GifDecoder::new(r)?.into_frames(),
                    ImageFormat::Png => PngDecoder::new(r)?.apng()?.into_frames(),
                    _ => WebPDecoder::new(r)?.into_frames(),
                };
                for fr in it.take(64) {
                    fr?;
                }
            }
        }
        Ok(())
    })
}

fn class(e: &ImageError) -> String {
    match e {
        ImageError::Decoding(d) => format!("Decoding {:?}", d.format_hint()),
        ImageError::Encoding(d) => format!("Encoding {:?}", d.format_hint()),
        ImageError::Parameter(d) => format!("Parameter {:?}", d.kind()),
        ImageError::Limits(d) => format!("Limits {:?}", d.kind()),
        ImageError::Unsupported(d) => format!("Unsupported {:?} {:?}", d.format_hint(), d.kind()),
        ImageError::IoError(d) => format!("IoError {:?}", d.kind()),
    }
}

/// Does the hint name the format, or one embedded in it?
fn names(h: &ImageFormatHint, f: ImageFormat) -> bool {
    match h {
        ImageFormatHint::Exact(g) => *g == f || f == ImageFormat::Ico && matches!(g, ImageFormat::Png | ImageFormat::Bmp),
        ImageFormatHint::Name(n) => n.to_lowercase().contains(&format!("{f:?}").to_lowercase()),
        _ => false,
    }
}

/// The text is there, names the format, and the chain of sources ends.
fn text(e: &ImageError) -> Res {
    let t = e.to_string();
    ensure!(!t.trim().is_empty() && !format!("{e:?}").is_empty(), "no text: {e:?}");
    let hint = match e {
        ImageError::Decoding(d) => Some(d.format_hint()),
        ImageError::Encoding(d) => Some(d.format_hint()),
        _ => None,
    };
    if let Some(ImageFormatHint::Exact(f)) = hint {
        ensure!(t.contains(&format!("{f:?}")), "the text {t:?} does not name {f:?}");
    }
    let mut n = 0;
    let mut s: Option<&(dyn Error + 'static)> = e.source();
    while let Some(x) = s {
        n += 1;
        ensure!(n < 20 && !format!("{x}{x:?}").is_empty(), "source {n} of {t:?}");
        s = x.source();
    }
    Ok(())
}

/// What decoding may report although the reader did not fail.
fn about_data(e: &ImageError, f: ImageFormat, cut: bool) -> Res {
    text(e)?;
    let ok = match e {
        ImageError::Decoding(d) => names(&d.format_hint(), f),
        ImageError::Unsupported(u) => names(&u.format_hint(), f),
        ImageError::IoError(i) => i.kind() == ErrorKind::UnexpectedEof || !cut && matches!(i.kind(), ErrorKind::InvalidData | ErrorKind::InvalidInput),
        ImageError::Limits(_) => !cut,
        // The png crate's "end of image" for damaged animations; DDS sizes that are no multiple of four.
        ImageError::Parameter(_) => !cut && matches!(f, ImageFormat::Png | ImageFormat::Ico | ImageFormat::Dds),
        ImageError::Encoding(_) => false,
    };
    ensure!(ok, "reported as {}: {e}", class(e));
    Ok(())
}

const KINDS: [ErrorKind; 4] = [ErrorKind::PermissionDenied, ErrorKind::TimedOut, ErrorKind::InvalidData, ErrorKind::Other];

fn the_fault(e: &ImageError, kind: ErrorKind) -> Res {
    text(e)?;
    match e {
        ImageError::IoError(i) if i.kind() == kind && i.to_string().contains("injected fault") => Ok(()),
        e => viol("class", format!("a failure of kind {kind:?} reported as {}: {e}", class(e))),
    }
}

struct File {
    f: &'static corpus::File,
    path: Path,
    calls: [usize; 2],
}
const MODES: [(usize, usize); 2] = [(usize::MAX, 0), (33, 16)];

fn all_types() -> Vec<ExtendedColorType> {
    use ExtendedColorType::*;
    vec![
        A8, L1, La1, Rgb1, Rgba1, L2, La2, Rgb2, Rgba2, L4, La4, Rgb4, Rgba4, L8, La8, Rgb8, Rgba8, L16, La16, Rgb16, Rgba16, Bgr8, Bgra8, Rgb32F, Rgba32F, Cmyk8, Unknown(3),
        Unknown(24),
    ]
}

fn main() {
    let mut c = Check::start("C44", "model_checking", "one execution is one decoding, encoding or other call with one cause of failure; it counts when the call reported an error whose class was compared with the cause");
    c.hang_after(60);
    let quick = c.quick;
    let mut files = vec![];
    for f in corpus::all() {
        for path in PATHS {
            if !applies(path, f.format, true) || !matches!(run(path, f.format, Cursor::new(&f.bytes[..])), Ok(Ok(()))) {
                continue;
            }
            let mut calls = [0; 2];
            for (m, &(chunk, wrap)) in MODES.iter().enumerate() {
                let (r, log) = EnvReader::new(Rc::new(f.bytes.to_vec()), chunk, vec![]);
                let _ = match wrap {
                    0 => run(path, f.format, r),
                    n => run(path, f.format, BufReader::with_capacity(n, r)),
                };
                let l = log.borrow();
                calls[m] = l.reads + l.seeks;
            }
            files.push(File { f, path, calls });
        }
    }
    let files = &files;
    let lim = if quick { 400 } else { 20000 };
    c.explore("reads", "every read and seek of every access path of all files with up to 400 (20000) calls in turn fails with each of four kinds of errors, delivered whole and by 33 bytes through a 16-byte buffer", |ch| {
        let k = &files[ch.pick(files.len())];
        let m = ch.pick(MODES.len());
        let n = k.calls[m];
        if n == 0 || n > lim {
            return Ok(());
        }
        let at = ch.pick(n);
        let kind = ch.of(&KINDS);
        let (chunk, wrap) = MODES[m];
        FAULT_KIND.with(|x| x.set(kind));
        let (r, log) = EnvReader::new(Rc::new(k.f.bytes.to_vec()), chunk, vec![(at, Answer::Error)]);
        let res = match wrap {
            0 => run(k.path, k.f.format, r),
            n => run(k.path, k.f.format, BufReader::with_capacity(n, r)),
        };
        FAULT_KIND.with(|x| x.set(ErrorKind::Other));
        ch.steps(log.borrow().reads as u64);
        // A fault that is swallowed or makes a panic is another property's matter.
        let Ok(Err(e)) = res else { return Ok(()) };
        ch.validated();
        ch.outcome(hash_of(&(&k.f.name, class(&e))));
        the_fault(&e, kind).map_err(|v| Viol::new(format!("read {:?}", k.f.format), format!("{} via {:?}, call {at} of {n}, delivery {:?}: {}", k.f.name, k.path, MODES[m], v.msg)))
    });

    let mut ways = vec![];
    for (name, key, f) in writers::all() {
        let (mut w, _, log) = EnvWriter::new(usize::MAX, vec![]);
        if !matches!(catch(|| f(&mut w)), Ok(Ok(()))) {
            continue;
        }
        let l = log.borrow();
        let calls = l.writes + l.seeks + l.flushes;
        drop(l);
        ways.push((name, key, f, calls));
    }
    let ways = &ways;
    c.explore("writes", "every write, seek and flush of every encoder, configuration, colour type and entry point with up to 400 (20000) calls in turn fails with each of four kinds of errors", |ch| {
        let (name, key, f, calls) = &ways[ch.pick(ways.len())];
        if *calls > lim {
            return Ok(());
        }
        let at = ch.pick(*calls);
        let kind = ch.of(&KINDS);
        FAULT_KIND.with(|x| x.set(kind));
        let (mut w, _, log) = EnvWriter::new(usize::MAX, vec![(at, Answer::Error)]);
        let res = catch(|| f(&mut w));
        FAULT_KIND.with(|x| x.set(ErrorKind::Other));
        ch.steps(log.borrow().writes as u64);
        let Ok(Err(e)) = res else { return Ok(()) };
        ch.validated();
        ch.outcome(hash_of(&(key, class(&e))));
        the_fault(&e, kind).map_err(|v| Viol::new(format!("write {key}"), format!("{name}, call {at} of {calls}: {}", v.msg)))
    });

    let max = if quick { 1500 } else { 20000 };
    c.explore("cut", "every proper prefix of all files of up to 1500 (20000) bytes by every access path", |ch| {
        let k = &files[ch.pick(files.len())];
        if k.f.bytes.len() > max {
            return Ok(());
        }
        let n = ch.pick(k.f.bytes.len());
        let Ok(Err(e)) = run(k.path, k.f.format, Cursor::new(&k.f.bytes[..n])) else { return Ok(()) };
        ch.validated();
        ch.outcome(hash_of(&(k.f.format, class(&e))));
        if k.path == Path::Guess && n < 16 {
            // The format may not be found out.
            return text(&e);
        }
        about_data(&e, k.f.format, true).map_err(|v| Viol::new(format!("cut {:?}", k.f.format), format!("{} via {:?} cut to {n} of {} bytes: {}", k.f.name, k.path, k.f.bytes.len(), v.msg)))
    });

    let (flen, hlen) = if quick { (3000, 48) } else { (20000, 200) };
    c.explore("damage", "every byte among the first 48 (200) of all files of up to 3000 (20000) bytes set to 0, 1, 0x7F, 0x80, 0xFF and with its lowest or highest bit changed, read with the default limits", |ch| {
        let k = &files[ch.pick(files.len())];
        if k.f.bytes.len() > flen || k.path == Path::Guess || k.f.format == ImageFormat::Avif && quick {
            return Ok(());
        }
        let at = ch.pick(k.f.bytes.len().min(hlen));
        let old = k.f.bytes[at];
        let new = ch.of(&[0, 1, 0x7F, 0x80, 0xFF, old ^ 1, old ^ 0x80]);
        if new == old {
            return Ok(());
        }
        let mut b = k.f.bytes.to_vec();
        b[at] = new;
        let res = if k.path == Path::Frames {
            run(k.path, k.f.format, Cursor::new(&b[..]))
        } else {
            catch(|| {
                let r = ImageReader::with_format(Cursor::new(&b[..]), k.f.format);
                if k.path == Path::Reader {
                    r.decode()?;
                    return Ok(());
                }
                let mut d = r.into_decoder()?;
                let n = d.total_bytes();
                d.icc_profile()?;
                d.exif_metadata()?;
                d.orientation()?;
                if n < 1 << 24 {
                    let mut data = vec![0; n as usize];
                    d.read_image(&mut data)?;
                }
                Ok(())
            })
        };
        let Ok(Err(e)) = res else { return Ok(()) };
        ch.validated();
        ch.outcome(hash_of(&(k.f.format, class(&e))));
        about_data(&e, k.f.format, false).map_err(|v| Viol::new(format!("damage {:?} {}", k.f.format, kind_of(&e)), format!("{} via {:?}, byte {at} set to {new:#04x}: {}", k.f.name, k.path, v.msg)))
    });

    c.explore("refused", "images of all 28 colour types and of sizes 0, 1, 3, 300, 65536 and 70000 in each direction offered to every encoder: the refusals are neither I/O nor decoding errors and name the format", |ch| {
        let mut encs = basic();
        encs.extend([Enc::Tga(false), Enc::Pnm(Some(codecs::pnm::PnmSubtype::ArbitraryMap)), Enc::Avif(10, 80)]);
        let e = ch.of(&encs);
        let types = all_types();
        let t = ch.of(&types);
        let (w, h) = ch.of(&[(1u32, 1u32), (3, 1), (0, 0), (0, 3), (3, 0), (300, 1), (1, 300), (65536, 1), (1, 65536), (70000, 1), (1, 70000)]);
        if matches!(e, Enc::Avif(..)) && w.max(h) > 3 {
            return Ok(());
        }
        let bits = u64::from(t.bits_per_pixel()) * u64::from(w);
        let data = vec![0u8; ((bits + 7) / 8) as usize * h as usize];
        let res = catch(|| {
            use image::codecs::*;
            let mut out = Cursor::new(vec![]);
            let o = &mut out;
            match e {
                Enc::Png(..) => png::PngEncoder::new(o).write_image(&data, w, h, t),
                Enc::Bmp => bmp::BmpEncoder::new(o).write_image(&data, w, h, t),
                Enc::Tga(true) => tga::TgaEncoder::new(o).write_image(&data, w, h, t),
                Enc::Tga(false) => tga::TgaEncoder::new(o).disable_rle().write_image(&data, w, h, t),
                Enc::Tiff => tiff::TiffEncoder::new(o).write_image(&data, w, h, t),
                Enc::Pnm(None) => pnm::PnmEncoder::new(o).write_image(&data, w, h, t),
                Enc::Pnm(Some(s)) => pnm::PnmEncoder::new(o).with_subtype(s).write_image(&data, w, h, t),
                Enc::Qoi => qoi::QoiEncoder::new(o).write_image(&data, w, h, t),
                Enc::Farbfeld => farbfeld::FarbfeldEncoder::new(o).write_image(&data, w, h, t),
                Enc::Ico => ico::IcoEncoder::new(o).write_image(&data, w, h, t),
                Enc::WebP => webp::WebPEncoder::new_lossless(o).write_image(&data, w, h, t),
                Enc::Exr => openexr::OpenExrEncoder::new(o).write_image(&data, w, h, t),
                Enc::Hdr => hdr::HdrEncoder::new(o).write_image(&data, w, h, t),
                Enc::Gif(s) => gif::GifEncoder::new_with_speed(o, s).encode(&data, w, h, t),
                Enc::Jpeg(q) => jpeg::JpegEncoder::new_with_quality(o, q).write_image(&data, w, h, t),
                Enc::Avif(s, q) => avif::AvifEncoder::new_with_speed_quality(o, s, q).with_num_threads(Some(1)).write_image(&data, w, h, t),
            }
        });
        // Panics on strange colour types are another property's matter.
        let Ok(Err(er)) = res else { return Ok(()) };
        ch.validated();
        ch.outcome(hash_of(&(e.format(), class(&er))));
        let what = format!("{} of {w}x{h} {t:?}", e.name());
        let key = format!("refused {:?}", e.format());
        text(&er).map_err(|v| Viol::new(key.clone(), format!("{what}: {}", v.msg)))?;
        match &er {
            ImageError::Encoding(x) => need!(names(&x.format_hint(), e.format()), key, "{what}: {}", class(&er)),
            ImageError::Unsupported(x) => {
                need!(names(&x.format_hint(), e.format()), key, "{what}: {}", class(&er));
                if let UnsupportedErrorKind::Color(c) = x.kind() {
                    need!(c == t, key, "{what}: {}", class(&er));
                }
            }
            ImageError::Parameter(_) => (),
            _ => return viol(key, format!("{what}: {}: {er}", class(&er))),
        }
        Ok(())
    });

    c.explore("limits", "every file with limits one below its width, its height, and the size of its image: the kind of limit named is the one exceeded", |ch| {
        let all = corpus::all();
        let f = &all[ch.pick(all.len())];
        let Ok(Ok((w, h, _, n))) = catch(|| header(f.format, &f.bytes)) else { return Ok(()) };
        let which = ch.pick(3);
        let mut l = Limits::no_limits();
        match which {
            0 => l.max_image_width = Some(w - 1),
            1 => l.max_image_height = Some(h - 1),
            _ => l.max_alloc = Some(n - 1),
        }
        let Ok(Err(e)) = catch(|| decode_limited(f.format, &f.bytes, l)) else { return Ok(()) };
        ch.validated();
        text(&e)?;
        let ok = match &e {
            ImageError::Limits(x) if which < 2 => x.kind() == LimitErrorKind::DimensionError,
            ImageError::Limits(x) => x.kind() == LimitErrorKind::InsufficientMemory,
            _ => false,
        };
        need!(ok, format!("limits {:?}", f.format), "{}: {}: {e}", f.name, class(&e));
        Ok(())
    });

    c.explore("reader", "readers without a format, of a format unknown, or of formats that cannot be read or written: unsupported errors that name what is unknown", |ch| {
        let formats: Vec<ImageFormat> = ImageFormat::all().collect();
        let which = ch.pick(4);
        ch.validated();
        match which {
            0 => {
                let e = ImageReader::new(Cursor::new(b"no image at all".to_vec())).with_guessed_format().unwrap().decode().unwrap_err();
                ensure!(matches!(&e, ImageError::Unsupported(u) if u.kind() == UnsupportedErrorKind::Format(ImageFormatHint::Unknown)), "{}", class(&e));
                text(&e)
            }
            1 => {
                for p in ["a.foo", "a.txt", "b/c.qqq"] {
                    let e = ImageFormat::from_path(p).unwrap_err();
                    let ext = std::path::Path::new(p).extension().unwrap();
                    ensure!(matches!(&e, ImageError::Unsupported(u) if matches!(u.kind(), UnsupportedErrorKind::Format(ImageFormatHint::PathExtension(x)) if x.as_os_str() == ext)), "{p}: {}", class(&e));
                    ensure!(e.to_string().contains(ext.to_str().unwrap()), "{p}: {e}");
                    let e = pattern(1, 1, ColorType::Rgb8, 0).dynamic().save(format!("/nonexistent/{p}")).unwrap_err();
                    ensure!(matches!(&e, ImageError::Unsupported(_)), "{p}: {}", class(&e));
                }
                let e = ImageFormat::from_path("none").unwrap_err();
                ensure!(matches!(&e, ImageError::Unsupported(u) if u.kind() == UnsupportedErrorKind::Format(ImageFormatHint::Unknown)), "{}", class(&e));
                text(&e)
            }
            2 => {
                let f = ch.of(&formats);
                if !f.can_read() {
                    let e = ImageReader::with_format(Cursor::new(vec![0; 64]), f).decode().unwrap_err();
                    ensure!(
                        match &e {
                            ImageError::Unsupported(u) => names(&u.format_hint(), f),
                            // DDS decodes although it is said not to.
                            ImageError::Decoding(d) => f == ImageFormat::Dds && names(&d.format_hint(), f),
                            _ => false,
                        },
                        "reading {f:?}: {}",
                        class(&e)
                    );
                    text(&e)?;
                }
                if !f.can_write() {
                    let e = pattern(2, 2, ColorType::Rgb8, 0).dynamic().write_to(&mut Cursor::new(vec![]), f).unwrap_err();
                    ensure!(matches!(&e, ImageError::Unsupported(u) if matches!(u.format_hint(), ImageFormatHint::Unknown) || names(&u.format_hint(), f)), "writing {f:?}: {}", class(&e));
                    text(&e)?;
                }
                Ok(())
            }
            _ => {
                // The file system's failures.
                for e in [
                    image::open("/nonexistent/a.png").unwrap_err(),
                    image::image_dimensions("/nonexistent/a.png").unwrap_err(),
                    ImageReader::open("/nonexistent/a.png").map(|_| ()).unwrap_err().into(),
                    pattern(2, 2, ColorType::Rgb8, 0).dynamic().save("/nonexistent/a.png").unwrap_err(),
                    save_buffer("/nonexistent/a.bmp", &[0; 3], 1, 1, ColorType::Rgb8).unwrap_err(),
                ] {
                    ensure!(matches!(&e, ImageError::IoError(i) if i.kind() == ErrorKind::NotFound), "{}", class(&e));
                    text(&e)?;
                }
                Ok(())
            }
        }
    });

    c.explore("parameters", "arguments that do not fit: copies outside the destination, and a colour profile too long for JPEG: parameter errors", |ch| {
        let n = ch.of(&[1u32, 2, 3]);
        let (x, y) = (ch.pick(4) as u32, ch.pick(4) as u32);
        ch.validated();
        if (x, y) == (0, 0) {
            let mut e = codecs::jpeg::JpegEncoder::new(vec![]);
            ensure!(e.set_icc_profile(vec![1; 65519 * (254 + n as usize)]).is_ok(), "set_icc_profile");
            match e.write_image(&[0; 3], 1, 1, ExtendedColorType::Rgb8) {
                Ok(()) => ensure!(n == 1, "a profile of {} chunks accepted", 254 + n),
                Err(e) => ensure!(n > 1 && matches!(&e, ImageError::Parameter(_) | ImageError::Encoding(_) | ImageError::Unsupported(_)), "{n}: {}", class(&e)),
            }
        }
        let src = RgbImage::new(n, n);
        let mut dst = RgbImage::new(3, 3);
        let fits = x + n <= 3 && y + n <= 3;
        let r = dst.copy_from(&src, x, y);
        ensure!(r.is_ok() == fits, "copy_from at {x},{y} of {n}: {r:?}");
        if let Err(e) = r {
            ensure!(matches!(&e, ImageError::Parameter(p) if p.kind() == ParameterErrorKind::DimensionMismatch), "{}", class(&e));
            text(&e)?;
        }
        Ok(())
    });

    c.explore("accessors", "errors built from every kind and hint: the accessors return what was given, the text contains it, and the source is the error given", |ch| {
        let hints = [ImageFormatHint::Exact(ImageFormat::Png), ImageFormatHint::Exact(ImageFormat::Avif), ImageFormatHint::Name("Zweck".into()), ImageFormatHint::PathExtension("xyz".into()), ImageFormatHint::Unknown];
        let texts = ["Png", "Avif", "Zweck", "xyz", ""];
        let i = ch.pick(hints.len());
        let (h, t) = (hints[i].clone(), texts[i]);
        ch.validated();
        for under in [false, true] {
            let d = if under { DecodingError::new(h.clone(), "beneath") } else { DecodingError::from_format_hint(h.clone()) };
            let e = if under { EncodingError::new(h.clone(), "beneath") } else { EncodingError::from_format_hint(h.clone()) };
            ensure!(d.format_hint() == h && e.format_hint() == h, "hint {h:?}");
            for e in [ImageError::Decoding(d), ImageError::Encoding(e)] {
                let s = e.to_string();
                ensure!(s.contains(t) && s.contains("beneath") == under, "{e:?}: {s}");
                ensure!(e.source().map(|s| s.to_string()) == under.then(|| "beneath".to_string()), "source of {e:?}");
            }
        }
        for k in [UnsupportedErrorKind::Color(ExtendedColorType::Rgb16), UnsupportedErrorKind::Format(h.clone()), UnsupportedErrorKind::GenericFeature("Zierat".into())] {
            let u = UnsupportedError::from_format_and_kind(h.clone(), k.clone());
            ensure!(u.kind() == k && u.format_hint() == h, "{u:?}");
            let s = ImageError::Unsupported(u).to_string();
            ensure!(s.contains(t) || matches!(h, ImageFormatHint::Unknown), "{s}");
            ensure!(
                match &k {
                    UnsupportedErrorKind::Color(_) => s.contains("Rgb16"),
                    UnsupportedErrorKind::GenericFeature(g) => s.contains(&g[..]),
                    _ => true,
                },
                "{s}"
            );
        }
        let u = UnsupportedError::from(h.clone());
        ensure!(u.kind() == UnsupportedErrorKind::Format(h.clone()) && u.format_hint() == h, "{u:?}");
        for k in [ParameterErrorKind::DimensionMismatch, ParameterErrorKind::FailedAlready, ParameterErrorKind::NoMoreData, ParameterErrorKind::Generic("Zierat".into())] {
            let p = ParameterError::from_kind(k.clone());
            ensure!(p.kind() == k, "{p:?}");
            let s = ImageError::Parameter(p).to_string();
            ensure!(!s.is_empty() && (!matches!(k, ParameterErrorKind::Generic(_)) || s.contains("Zierat")), "{s}");
        }
        for k in [LimitErrorKind::DimensionError, LimitErrorKind::InsufficientMemory] {
            let l = LimitError::from_kind(k.clone());
            ensure!(l.kind() == k && !ImageError::Limits(l).to_string().is_empty(), "{k:?}");
        }
        Ok(())
    });
    c.finish()
}
