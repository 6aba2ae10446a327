//! C21: Formats are identified consistently from content, extension and MIME type.
//! TECHNIQUE: exhaustive enumeration of leading bytes (all 2^24 first three, all changes of one byte and pairs of bytes of every signature, all prefixes), of extensions (all strings of up to four letters and digits, all cases), and of reader behaviours, over the real functions against an independent table of signatures
//! LEVEL: model_checking
//! NOTE: TGA has no signature, and the MIME type of farbfeld is the generic one, so neither is identified that way; both are checked to be identified as nothing else.
use image::*;
use mc::codec::{basic, lossless, Enc};
use mc::*;
use std::io::{Cursor, Read, Seek, SeekFrom};
use ImageFormat::*;

/// Signatures, with ? for any byte.
fn sigs() -> Vec<(Vec<Option<u8>>, ImageFormat)> {
    let mut v = vec![];
    let mut add = |s: &[u8], f| v.push((s.iter().map(|b| Some(*b)).collect::<Vec<_>>(), f));
    add(&[0x89, b'P', b'N', b'G', 13, 10, 26, 10], Png);
    add(&[255, 216, 255], Jpeg);
    add(b"GIF87a", Gif);
    add(b"GIF89a", Gif);
    add(b"II*\0", Tiff);
    add(b"MM\0*", Tiff);
    add(b"DDS ", Dds);
    add(b"BM", Bmp);
    add(&[0, 0, 1, 0], Ico);
    add(b"#?RADIANCE", Hdr);
    add(b"qoif", Qoi);
    for d in b"1234567" {
        add(&[b'P', *d], Pnm);
    }
    add(b"farbfeld", Farbfeld);
    v.push(([0x76, 0x2f, 0x31, 1].map(Some).to_vec(), OpenExr));
    // A box of at most 65535 bytes of type ftyp with the brand avif.
    v.push(([Some(0), Some(0), None, None].into_iter().chain(b"ftypavif".map(Some)).collect(), Avif));
    v.push((b"RIFF".map(Some).into_iter().chain([None; 4]).chain(b"WEBP".map(Some)).collect(), WebP));
    // The version of a PCX file is at most 7.
    for k in 0..8 {
        v.push((vec![Some(10), Some(k)], Pcx));
    }
    v
}
fn reference(s: &[(Vec<Option<u8>>, ImageFormat)], b: &[u8]) -> Option<ImageFormat> {
    s.iter().find(|(p, _)| b.len() >= p.len() && p.iter().zip(b).all(|(p, b)| p.is_none_or(|p| p == *b))).map(|x| x.1)
}
fn guess(b: &[u8]) -> Result<Option<ImageFormat>, Viol> {
    catch(|| guess_format(b).ok()).map_err(|e| Viol::new("guess", format!("guess_format({}): {e}", hex(&b[..b.len().min(20)]))))
}
fn exts(f: ImageFormat) -> &'static [&'static str] {
    match f {
        Png => &["png", "apng"],
        Jpeg => &["jpg", "jpeg", "jfif"],
        Gif => &["gif"],
        WebP => &["webp"],
        Pnm => &["pbm", "pgm", "ppm", "pam"],
        Tiff => &["tif", "tiff"],
        Tga => &["tga"],
        Dds => &["dds"],
        Bmp => &["bmp"],
        Ico => &["ico"],
        Hdr => &["hdr"],
        OpenExr => &["exr"],
        Farbfeld => &["ff"],
        Avif => &["avif"],
        Qoi => &["qoi"],
        Pcx => &["pcx"],
        _ => &[],
    }
}
const FORMATS: [ImageFormat; 16] = [Png, Jpeg, Gif, WebP, Pnm, Tiff, Tga, Dds, Bmp, Ico, Hdr, OpenExr, Farbfeld, Avif, Qoi, Pcx];

/// A reader that gives at most `step` bytes at a time, and may fail.
struct Slow {
    c: Cursor<Vec<u8>>,
    step: usize,
    fail_read: bool,
    fail_seek: bool,
    interrupt: bool,
}
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.fail_read {
            return Err(std::io::Error::other("injected"));
        }
        if self.interrupt {
            self.interrupt = false;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.step);
        self.c.read(&mut b[..n])
    }
}
impl std::io::BufRead for Slow {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.fail_read {
            return Err(std::io::Error::other("injected"));
        }
        let s = self.step;
        let b = std::io::BufRead::fill_buf(&mut self.c)?;
        Ok(&b[..b.len().min(s)])
    }
    fn consume(&mut self, n: usize) {
        std::io::BufRead::consume(&mut self.c, n)
    }
}
impl Seek for Slow {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        if self.fail_seek {
            return Err(std::io::Error::other("injected"));
        }
        self.c.seek(p)
    }
}

fn main() {
    let mut c = Check::start("C21", "model_checking", "one execution = one family of leading bytes, names, files or readers");
    c.hang_after(120);
    let s = sigs();
    let s = &s;
    c.explore("three bytes", "all files of 0 to 3 bytes (2^24), alone and with three continuations", |ch| {
        let a = ch.pick(256) as u8;
        let mut b = vec![a];
        for len in [0usize, 1] {
            need!(guess(&b[..len])? == reference(s, &b[..len]), "guess", "{}: {:?}", hex(&b[..len]), guess(&b[..len])?);
        }
        b = vec![a, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        let tails: [&[u8]; 3] = [&[0; 14], b"*\0typavifWEBPxx", &[255; 14]];
        for x in 0..=255u8 {
            b[1] = x;
            for y in 0..=255u8 {
                b[2] = y;
                if y == 0 {
                    need!(guess(&b[..2])? == reference(s, &b[..2]), "guess", "{}", hex(&b[..2]));
                }
                need!(guess(&b[..3])? == reference(s, &b[..3]), "guess", "{}", hex(&b[..3]));
                for t in tails {
                    b[3..17].copy_from_slice(&t[..14]);
                    let (g, r) = (guess_format(&b).ok(), reference(s, &b));
                    need!(g == r, "guess", "{}: {g:?} instead of {r:?}", hex(&b));
                }
                ch.steps(4);
            }
        }
        ch.state(hash_of(&a));
        ch.validated();
        Ok(())
    });
    c.explore("signatures", "every signature, each of its prefixes, all values of each of its bytes (and of each pair of bytes in the thorough tier), and continuations", |ch| {
        let (p, f) = &s[ch.pick(s.len())];
        let fill = ch.of(&[0u8, 255, 0x5a]);
        let base: Vec<u8> = p.iter().map(|b| b.unwrap_or(fill)).collect();
        need!(guess(&base)? == Some(*f), "guess", "the signature {} of {f:?} is taken for {:?}", hex(&base), guess(&base)?);
        for k in 0..=base.len() {
            need!(guess(&base[..k])? == reference(s, &base[..k]), "guess", "the prefix {}", hex(&base[..k]));
        }
        let quick = ch.quick;
        let n = base.len();
        for i in 0..n {
            for j in i..n {
                if quick && j != i && !(i + 1 == j) {
                    continue;
                }
                for x in 0..=255u8 {
                    for y in if j == i { 0..=0u8 } else { 0..=255 } {
                        let mut b = base.clone();
                        b[i] = x;
                        if j != i {
                            b[j] = y;
                        }
                        for tail in [0usize, 5, 100] {
                            b.resize(n + tail, fill);
                            let (g, r) = (guess_format(&b).ok(), reference(s, &b));
                            need!(g == r, "guess", "{}: {g:?} instead of {r:?}", hex(&b[..b.len().min(20)]));
                            ch.step();
                        }
                    }
                }
            }
        }
        ch.state(hash_of(&base));
        ch.validated();
        Ok(())
    });
    let mut encs = lossless();
    encs.extend(basic());
    encs.extend([Enc::Gif(30), Enc::Jpeg(1), Enc::Jpeg(100), Enc::Avif(10, 50)]);
    let encs = &encs;
    c.explore("encoded files", "every encoder and its options x 10 colour types x 3 sizes: identified by content as its own format, and the same image decoded without being told", |ch| {
        let e = encs[ch.pick(encs.len())];
        let color = COLORS[ch.pick(10)];
        let (w, h) = ch.of(&[(3u32, 2u32), (1, 1), (17, 9)]);
        let r = pattern(w, h, color, 2);
        let Ok(b) = e.to_vec(&r) else { return Ok(()) };
        let f = e.format();
        let what = format!("{} {color:?} {w}x{h}", e.name());
        let g = guess(&b)?;
        ch.state(hash_of(&(e.name(), color, w)));
        ch.sample(|| format!("{what}: {g:?}"));
        if f == Tga {
            return ensure_none(g, &what);
        }
        need!(g == Some(f), "written", "{what}: identified as {g:?}");
        // Only the leading 16 bytes matter.
        for k in 0..b.len().min(40) {
            let gk = guess(&b[..k])?;
            need!(gk == reference(s, &b[..k]), "prefix", "{what}: the first {k} bytes are identified as {gk:?}");
            need!(k < 16 || gk == Some(f), "prefix", "{what}: the first {k} bytes are identified as {gk:?}");
        }
        let (x, y) = (load_from_memory(&b), load_from_memory_with_format(&b, f));
        match (x, y) {
            (Ok(x), Ok(y)) => {
                need!(x == y, "decode", "{what}: another image without the format");
                ch.validated();
            }
            (Err(_), Err(_)) => {}
            (x, y) => return viol("decode", format!("{what}: without the format {:?}, with it {:?}", x.is_ok(), y.is_ok())),
        }
        // In the middle of a larger file, through the reader, with a wrong format preset.
        for off in [0usize, 1, 7, 100] {
            let mut v = vec![0x89u8; off];
            v.extend(&b);
            let mut cur = Cursor::new(v);
            cur.set_position(off as u64);
            let r = ImageReader::with_format(cur, if f == Png { Gif } else { Png }).with_guessed_format();
            let r = r.map_err(|e| Viol::new("reader", format!("{what}: {e}")))?;
            need!(r.format() == Some(f), "reader", "{what} at {off}: the reader identifies {:?}", r.format());
            let p = r.into_inner().position();
            need!(p == off as u64, "position", "{what} at {off}: left at {p}");
        }
        Ok(())
    });
    c.explore("corpus", "a corpus of files of all formats and of their variants", |ch| {
        let all = mc::corpus::all();
        let f = &all[ch.pick(all.len())];
        let g = guess(&f.bytes)?;
        ch.state(hash_of(&f.name));
        if f.format == Tga {
            return ensure_none(g, &f.name);
        }
        need!(g == Some(f.format) || reference(s, &f.bytes).is_none(), "corpus", "{}: identified as {g:?} instead of {:?}", f.name, f.format);
        need!(g == reference(s, &f.bytes), "corpus", "{}: identified as {g:?}", f.name);
        ch.validated();
        Ok(())
    });
    c.explore("readers", "guessing through readers: all start positions and lengths around a signature x bytes per read x preset formats x failures of reading and seeking", |ch| {
        let (p, _) = &s[ch.pick(s.len())];
        let mut b: Vec<u8> = p.iter().map(|b| b.unwrap_or(3)).collect();
        b.extend([9; 10]);
        let len = ch.pick(b.len() + 1);
        b.truncate(len);
        let off = ch.of(&[0usize, 1, 5]);
        let mut v = vec![b'B'; off];
        v.extend(&b);
        let step = ch.of(&[1usize, 3, 1000]);
        let preset = ch.of(&[None, Some(Tga), Some(Png)]);
        let fault = ch.pick(4);
        let mut cur = Cursor::new(v);
        cur.set_position(off as u64);
        let r = Slow { c: cur, step, fail_read: fault == 1, fail_seek: fault == 2, interrupt: fault == 3 };
        let mut rd = ImageReader::new(r);
        if let Some(p) = preset {
            rd.set_format(p);
        }
        let what = format!("{} at {off}, {step} at a time, preset {preset:?}, fault {fault}", hex(&b));
        match catch(std::panic::AssertUnwindSafe(|| rd.with_guessed_format())) {
            Err(e) => viol("reader", format!("{what}: {e}")),
            Ok(Err(e)) => {
                need!(fault == 1 || fault == 2, "reader", "{what}: {e}");
                Ok(())
            }
            Ok(Ok(rd)) => {
                need!(fault != 1 && fault != 2, "reader", "{what}: the failure is not reported");
                let want = reference(s, &b).or(preset);
                need!(rd.format() == want, "reader", "{what}: {:?} instead of {want:?}", rd.format());
                let at = rd.into_inner().c.position();
                need!(at == off as u64, "position", "{what}: left at {at}");
                ch.validated();
                Ok(())
            }
        }
    });
    c.explore("reader formats", "set_format, clear_format, with_format, format, into_dimensions and decode without a format", |ch| {
        let f = FORMATS[ch.pick(16)];
        let g = FORMATS[ch.pick(16)];
        let mut r = ImageReader::with_format(Cursor::new(vec![1u8, 2, 3]), f);
        need!(r.format() == Some(f), "reader", "with_format");
        r.set_format(g);
        need!(r.format() == Some(g), "reader", "set_format");
        r.clear_format();
        need!(r.format().is_none(), "reader", "clear_format");
        let r = r.with_guessed_format().map_err(|e| Viol::new("reader", e.to_string()))?;
        need!(r.format().is_none(), "reader", "guessed from 010203");
        let e = if ch.flag() { r.decode().map(|_| ()) } else { r.into_dimensions().map(|_| ()) };
        need!(matches!(e, Err(ImageError::Unsupported(_))), "reader", "without a format: {e:?}");
        Ok(())
    });
    c.explore("extensions", "all strings of up to 4 lower-case letters and digits: as the table says", |ch| {
        let al = b"abcdefghijklmnopqrstuvwxyz0123456789";
        let mut b = vec![al[ch.pick(36)]];
        b.push(al[ch.pick(36)]);
        let chk = |b: &[u8]| -> Res {
            let e = std::str::from_utf8(b).unwrap();
            let g = from_ext(e);
            let want = FORMATS.iter().copied().find(|f| exts(*f).contains(&e));
            need!(g == want, "extension", "{e}: {g:?} instead of {want:?}");
            Ok(())
        };
        chk(&b[..1])?;
        chk(&b)?;
        for x in al {
            b.truncate(2);
            b.push(*x);
            chk(&b)?;
            b.push(0);
            for y in al {
                b[3] = *y;
                chk(&b)?;
            }
            ch.steps(37);
        }
        ch.validated();
        Ok(())
    });
    c.explore("letter cases", "all extensions of all formats in all letter cases, as extensions and in paths; each listed extension and the MIME type leads back; changed ones do not", |ch| {
        let f = FORMATS[ch.pick(16)];
        let list = exts(f);
        let e = list[ch.pick(list.len())];
        for m in 0..1u32 << e.len() {
            let x: String = e.chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
            need!(from_ext(&x) == Some(f), "extension", "{x}: {:?}", from_ext(&x));
            need!(ImageFormat::from_extension(std::ffi::OsString::from(&x)) == Some(f), "extension", "{x} as an OsString");
            for p in [format!("a.{x}"), format!("/x/y.png/b.tar.{x}"), format!("..{x}"), format!("ä .{x}"), format!("a.gif.{x}")] {
                let g = ImageFormat::from_path(&p).ok();
                need!(g == Some(f), "path", "{p}: {g:?}");
            }
            for p in [format!(".{x}"), x.clone(), format!("a.{x}."), format!("a.{x}/b"), format!("a.{x}x"), format!("a.x{x}"), format!("a.{x} "), format!("a. {x}"), format!("a.{x}\0")] {
                let g = ImageFormat::from_path(&p);
                need!(matches!(g, Err(ImageError::Unsupported(_))), "path", "{p}: {g:?}");
            }
            ch.steps(16);
        }
        let mut listed = f.extensions_str().to_vec();
        for e in &listed {
            need!(from_ext(e) == Some(f), "extension", "{e}, listed for {f:?}, gives {:?}", from_ext(e));
        }
        let n = listed.len();
        listed.sort();
        listed.dedup();
        need!(n > 0 && listed.len() == n, "extension", "{f:?} lists {n} extensions");
        let m = f.to_mime_type();
        let g = ImageFormat::from_mime_type(m);
        if f == Farbfeld {
            need!(g.is_none(), "mime", "{m} gives {g:?}");
        } else {
            need!(g == Some(f), "mime", "{m} of {f:?} gives {g:?}");
            for i in 0..m.len() {
                for r in [b'x', b'/', b' '] {
                    let mut v = m.as_bytes().to_vec();
                    if v[i] != r {
                        v[i] = r;
                        let g = ImageFormat::from_mime_type(std::str::from_utf8(&v).unwrap());
                        need!(g.is_none(), "mime", "{} gives {g:?}", String::from_utf8_lossy(&v));
                    }
                }
                let g = ImageFormat::from_mime_type(&m[..i]);
                need!(g.is_none(), "mime", "{} gives {g:?}", &m[..i]);
            }
        }
        need!(ImageFormat::all().filter(|x| *x == f).count() == 1, "all", "{f:?} is listed {} times", ImageFormat::all().filter(|x| *x == f).count());
        ch.validated();
        Ok(())
    });
    c.once("odd names", "extensions that are not text, not ASCII or empty; other MIME types", |ch| {
        use std::os::unix::ffi::OsStrExt;
        for b in [&b""[..], b"\xff", b"pn\xff", b"png\xff", "pn\u{fb01}".as_bytes(), "\u{212a}".as_bytes(), "\u{130}co".as_bytes(), "g\u{131}f".as_bytes(), "t\u{131}ff".as_bytes(), " png".as_bytes(), b".png", b"png\0", b"image/png"] {
            let o = std::ffi::OsStr::from_bytes(b);
            let g = catch(|| ImageFormat::from_extension(o)).map_err(|e| Viol::new("extension", e))?;
            need!(g.is_none(), "extension", "{o:?}: {g:?}");
            let p = std::path::Path::new("dir").join(std::ffi::OsStr::from_bytes(&[b"a.", b].concat()));
            if b != b".png" {
                let g = catch(|| ImageFormat::from_path(&p)).map_err(|e| Viol::new("path", e))?;
                need!(g.is_err(), "path", "{p:?}: {g:?}");
            }
            ch.step();
        }
        for (m, f) in [("image/x-targa", Tga), ("image/x-tga", Tga), ("image/x-icon", Ico), ("image/vnd.microsoft.icon", Ico), ("image/x-portable-bitmap", Pnm), ("image/x-portable-graymap", Pnm), ("image/x-portable-pixmap", Pnm), ("image/x-portable-anymap", Pnm), ("image/x-pcx", Pcx), ("image/vnd.zbrush.pcx", Pcx)] {
            need!(ImageFormat::from_mime_type(m) == Some(f), "mime", "{m}");
        }
        for m in ["", "image", "image/", "text/plain", "image/svg+xml", "application/octet-stream", "png", "image/png; q=1"] {
            need!(ImageFormat::from_mime_type(m).is_none(), "mime", "{m}");
        }
        need!(ImageFormat::all().count() == 16, "all", "{} formats", ImageFormat::all().count());
        Ok(())
    });
    c.explore("files", "files of every written format under names of every format's extensions: open and image_dimensions go by the name, guessing by the content", |ch| {
        let b = basic();
        let e = b[ch.pick(b.len())];
        let name = FORMATS[ch.pick(16)];
        let color = if matches!(e, Enc::Hdr | Enc::Exr) { ColorType::Rgb32F } else if matches!(e, Enc::Farbfeld) { ColorType::Rgba16 } else if matches!(e, Enc::Ico) { ColorType::Rgba8 } else { ColorType::Rgb8 };
        let r = pattern(3, 2, color, 2);
        let b = e.to_vec(&r).map_err(|x| Viol::new("encode", format!("{}: {x}", e.name())))?;
        let dir = std::env::temp_dir().join(format!("mc-c21-{}-{:?}", std::process::id(), std::thread::current().id()));
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("x.{}", exts(name)[0]));
        std::fs::write(&path, &b).unwrap();
        let what = format!("{} as {path:?}", e.name());
        let by_name = load_from_memory_with_format(&b, name).ok();
        let res = (|| {
            let r = ImageReader::open(&path).map_err(|x| Viol::new("open", x.to_string()))?;
            need!(r.format() == Some(name), "open", "{what}: {:?}", r.format());
            let r = r.with_guessed_format().map_err(|x| Viol::new("open", x.to_string()))?;
            let want = if e.format() == Tga { name } else { e.format() };
            need!(r.format() == Some(want), "open", "{what}: guessed as {:?}", r.format());
            let o = catch(|| image::open(&path).ok()).map_err(|x| Viol::new("open", x))?;
            need!(o == by_name, "open", "{what}: open gives {:?}", o.map(|o| o.dimensions()));
            let d = catch(|| image_dimensions(&path).ok()).map_err(|x| Viol::new("open", x))?;
            need!(by_name.is_none() || d == by_name.as_ref().map(|o| o.dimensions()), "open", "{what}: image_dimensions gives {d:?}");
            ch.validated();
            Ok(())
        })();
        let _ = std::fs::remove_dir_all(&dir);
        res
    });
    c.explore("capabilities", "every format: what can_read, can_write, reading_enabled and writing_enabled say against reading and writing it", |ch| {
        let f = FORMATS[ch.pick(16)];
        need!(ImageFormat::all().filter(|g| *g == f).count() == 1, "all", "{f:?} is not listed once");
        // Every colour type an encoder may take, on every path that goes by the format.
        let mut wrote: Vec<Vec<u8>> = vec![];
        for color in COLORS {
            let r = pattern(3, 2, color, 2);
            let mut o = Cursor::new(vec![]);
            let a = catch(std::panic::AssertUnwindSafe(|| write_buffer_with_format(&mut o, &r.data, r.w, r.h, r.color, f).is_ok())).map_err(|e| Viol::new("capability", format!("{f:?} {color:?}: {e}")))?;
            if a {
                wrote.push(o.into_inner());
            }
            ch.step();
        }
        need!(!wrote.is_empty() == f.writing_enabled(), "capability", "{f:?}: writing_enabled {}, but {} images written", f.writing_enabled(), wrote.len());
        need!(!f.writing_enabled() || f.can_write(), "capability", "{f:?}: writing enabled, but can_write is false");
        need!(!f.reading_enabled() || f.can_read(), "capability", "{f:?}: reading enabled, but can_read is false");
        if !wrote.is_empty() {
            // (Not every written colour type can be read back: see C09.)
            let read = catch(|| wrote.iter().any(|b| load_from_memory_with_format(b, f).is_ok())).map_err(|e| Viol::new("capability", format!("{f:?}: {e}")))?;
            need!(read == f.reading_enabled(), "capability", "{f:?}: reading_enabled {}, but read: {read}", f.reading_enabled());
            let d = catch(|| wrote.iter().any(|b| ImageReader::with_format(Cursor::new(b), f).into_decoder().is_ok())).map_err(|e| Viol::new("capability", format!("{f:?}: {e}")))?;
            need!(d == f.reading_enabled(), "capability", "{f:?}: reading_enabled {}, but a decoder is made: {d}", f.reading_enabled());
            ch.validated();
        }
        ch.outcome(hash_of(&(f.can_read(), f.can_write(), f.reading_enabled(), f.writing_enabled())));
        Ok(())
    });
    c.finish()
}
fn from_ext(e: &str) -> Option<ImageFormat> {
    ImageFormat::from_extension(e)
}
fn ensure_none(g: Option<ImageFormat>, what: &str) -> Res {
    need!(g.is_none(), "tga", "{what}: a TGA file is identified as {g:?}");
    Ok(())
}
