//! C30: colour profiles, EXIF and orientation survive encoding and decoding.
//! TECHNIQUE: exhaustive enumeration of payload sizes, codecs and colours over the real encoders and decoders; EXIF blocks of every layout up to a number of entries, all their truncations and all single-byte changes, against an independent EXIF reader
//! LEVEL: model_checking
//! NOTE: Every profile length up to 600 and around every container boundary (JPEG segments, RIFF padding, zlib windows) up to the largest JPEG profile; EXIF with up to 4 entries in both byte orders. For malformed EXIF blocks only freedom from panics and the ranges of the answers are required.
use image::codecs::*;
use image::metadata::Orientation;
use image::*;
use mc::codec::*;
use mc::forge::*;
use mc::*;
use std::io::Cursor;

fn payload(n: usize, kind: usize) -> Vec<u8> {
    let mut x = 0x2545_F491u32.wrapping_add(n as u32);
    (0..n)
        .map(|i| match kind {
            0 => {
                x ^= x << 13;
                x ^= x >> 17;
                x ^= x << 5;
                x as u8
            }
            1 => 0,
            2 => 0xFF,
            _ => (i / 7) as u8,
        })
        .collect()
}

fn encode(f: ImageFormat, r: &Raw, icc: Option<Vec<u8>>) -> Result<Vec<u8>, String> {
    let mut out = Cursor::new(vec![]);
    let c = ExtendedColorType::from(r.color);
    fn go(mut e: impl ImageEncoder, icc: Option<Vec<u8>>, r: &Raw, c: ExtendedColorType) -> Result<(), String> {
        if let Some(i) = icc {
            e.set_icc_profile(i).map_err(|e| format!("set: {e}"))?;
        }
        e.write_image(&r.data, r.w, r.h, c).map_err(|e| format!("write: {e}"))
    }
    match f {
        ImageFormat::Png => go(png::PngEncoder::new(&mut out), icc, r, c),
        ImageFormat::Jpeg => go(jpeg::JpegEncoder::new_with_quality(&mut out, 90), icc, r, c),
        ImageFormat::WebP => go(webp::WebPEncoder::new_lossless(&mut out), icc, r, c),
        ImageFormat::Bmp => go(bmp::BmpEncoder::new(&mut out), icc, r, c),
        ImageFormat::Tga => go(tga::TgaEncoder::new(&mut out), icc, r, c),
        ImageFormat::Tiff => go(tiff::TiffEncoder::new(&mut out), icc, r, c),
        ImageFormat::Pnm => go(pnm::PnmEncoder::new(&mut out), icc, r, c),
        ImageFormat::Qoi => go(qoi::QoiEncoder::new(&mut out), icc, r, c),
        ImageFormat::Farbfeld => go(farbfeld::FarbfeldEncoder::new(&mut out), icc, r, c),
        ImageFormat::Ico => go(ico::IcoEncoder::new(&mut out), icc, r, c),
        ImageFormat::OpenExr => go(openexr::OpenExrEncoder::new(&mut out), icc, r, c),
        ImageFormat::Hdr => go(hdr::HdrEncoder::new(&mut out), icc, r, c),
        ImageFormat::Avif => go(avif::AvifEncoder::new_with_speed_quality(&mut out, 10, 50), icc, r, c),
        _ => unreachable!(),
    }?;
    Ok(out.into_inner())
}

#[derive(Debug, PartialEq, Clone)]
struct Meta {
    icc: Option<Vec<u8>>,
    exif: Option<Vec<u8>>,
    orientation: Orientation,
    px: Vec<u8>,
}
/// All metadata, asked for in one of several orders, directly or through the boxed decoder.
fn meta(f: ImageFormat, b: &[u8], order: usize) -> Result<Meta, String> {
    fn ask<D: ImageDecoder>(mut d: D, order: usize) -> ImageResult<Meta> {
        let mut m = Meta { icc: None, exif: None, orientation: Orientation::NoTransforms, px: vec![] };
        const ORDERS: [&[u8]; 8] = [&[0, 1, 2], &[2, 1, 0], &[1, 0, 2], &[2, 0, 1], &[0, 2, 1], &[1, 2, 0], &[2, 2, 1, 1, 0, 0, 2], &[1, 2, 1, 0, 2, 0]];
        for k in ORDERS[order % 8] {
            match k {
                0 => m.icc = d.icc_profile()?,
                1 => m.exif = d.exif_metadata()?,
                _ => m.orientation = d.orientation()?,
            }
        }
        m.px = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut m.px)?;
        Ok(m)
    }
    let c = Cursor::new(b);
    let r = catch(|| {
        if order >= 8 {
            let mut r = ImageReader::with_format(c, f);
            r.no_limits();
            return r.into_decoder().and_then(|d| ask(d, order));
        }
        match f {
            ImageFormat::Png => ask(png::PngDecoder::new(c)?, order),
            ImageFormat::Jpeg => ask(jpeg::JpegDecoder::new(c)?, order),
            ImageFormat::WebP => ask(webp::WebPDecoder::new(c)?, order),
            ImageFormat::Tiff => ask(image::codecs::tiff::TiffDecoder::new(c)?, order),
            _ => unreachable!(),
        }
    });
    match r {
        Err(p) => Err(format!("PANIC {p}")),
        Ok(r) => r.map_err(|e| e.to_string()),
    }
}

fn sizes(f: ImageFormat, quick: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..600).collect();
    let mut around = |c: usize, d: usize| v.extend(c.saturating_sub(d)..=c + d);
    around(1024, 2);
    around(4096, 2);
    around(32768, 2);
    around(65519, 3);
    around(65533, 3);
    around(65536, 3);
    around(2 * 65519, 2);
    around(3 * 65519, 2);
    if f == ImageFormat::Jpeg {
        around(10 * 65519, 1);
        around(254 * 65519, 1);
        v.extend([255 * 65519 - 1, 255 * 65519]);
    }
    if !quick {
        v.extend(600..3000);
    }
    v
}

fn containers(f: ImageFormat, exif: Option<&[u8]>, icc: Option<&[u8]>) -> Vec<u8> {
    let r = pattern(3, 2, ColorType::Rgb8, 2);
    match f {
        ImageFormat::Jpeg => {
            let b = encode(f, &r, icc.map(|i| i.to_vec())).unwrap();
            let mut o = b[..2].to_vec();
            if let Some(e) = exif {
                o.extend([0xFF, 0xE1]);
                o.extend(((e.len() + 8) as u16).to_be_bytes());
                o.extend(b"Exif\0\0");
                o.extend(e);
            }
            o.extend(&b[2..]);
            o
        }
        ImageFormat::WebP => {
            let p = webp_payload(&encode(f, &r, None).unwrap());
            webp_ext(3, 2, if icc.is_some() { 0x20 } else { 0 } | if exif.is_some() { 8 } else { 0 }, icc, None, Some(&p), exif)
        }
        _ => unreachable!(),
    }
}

/// What the first usable orientation entry of the block says; Err: the block is malformed.
fn read_exif(b: &[u8]) -> Result<u8, ()> {
    let le = match b.get(..4).ok_or(())? {
        [0x49, 0x49, 42, 0] => true,
        [0x4d, 0x4d, 0, 42] => false,
        _ => return Err(()),
    };
    let u = |at: usize, n: usize| -> Result<u32, ()> {
        let s = b.get(at..at.checked_add(n).ok_or(())?).ok_or(())?;
        let f = |a: u32, x: &u8| a << 8 | *x as u32;
        Ok(if le { s.iter().rev().fold(0, f) } else { s.iter().fold(0, f) })
    };
    let at = u(4, 4)? as usize;
    let n = u(at, 2)? as usize;
    let mut found = None;
    for i in 0..n {
        let e = at + 2 + 12 * i;
        let (tag, ty, count, v) = (u(e, 2)?, u(e + 2, 2)?, u(e + 4, 4)?, u(e + 8, 2)?);
        u(e + 8, 4)?;
        if tag == 0x112 && ty == 3 && count == 1 && found.is_none() {
            found = Some(if (1..=8).contains(&v) { v as u8 } else { 1 });
        }
    }
    Ok(found.unwrap_or(1))
}

#[derive(Clone, Debug)]
struct Exif {
    le: bool,
    gap: u32,
    entries: Vec<(u16, u16, u32, u32)>,
    tail: usize,
}
impl Exif {
    fn bytes(&self) -> Vec<u8> {
        let e16 = |v: u16| if self.le { v.to_le_bytes() } else { v.to_be_bytes() };
        let e32 = |v: u32| if self.le { v.to_le_bytes() } else { v.to_be_bytes() };
        let mut o = if self.le { vec![0x49, 0x49, 42, 0] } else { vec![0x4d, 0x4d, 0, 42] };
        o.extend(e32(8 + self.gap));
        o.resize(8 + self.gap as usize, 0xEE);
        o.extend(e16(self.entries.len() as u16));
        for &(t, ty, n, v) in &self.entries {
            o.extend(e16(t));
            o.extend(e16(ty));
            o.extend(e32(n));
            if ty == 3 {
                o.extend(e16(v as u16));
                o.extend([0, 0]);
            } else {
                o.extend(e32(v));
            }
        }
        o.resize(o.len() + self.tail, 0);
        o
    }
}

fn check_exif(f: ImageFormat, e: &[u8], order: usize, what: &str) -> Res {
    let b = containers(f, Some(e), None);
    let m = meta(f, &b, order);
    let want = read_exif(e);
    match (m, want) {
        (Err(p), _) if p.starts_with("PANIC") => viol("exif panic", format!("{what} in {f:?}: {p}")),
        (Err(p), Ok(_)) => viol("exif", format!("{what} in {f:?}: {p}")),
        (Err(_), Err(())) => Ok(()),
        (Ok(m), want) => {
            if let Ok(w) = want {
                need!(m.orientation.to_exif() == w, "exif", "{what} in {f:?} ({}) gives {:?} instead of orientation {w}", hex(e), m.orientation);
                need!(m.exif.as_deref() == Some(e), "exif bytes", "{what} in {f:?}: {} is returned as {:?}", hex(e), m.exif.as_deref().map(hex));
            }
            Ok(())
        }
    }
}

fn main() {
    let mut c = Check::start("C30", "model_checking", "one execution = one file written or generated with one metadata payload, and all its metadata read back");
    c.hang_after(120);
    c.once("orientation values", "all 256 EXIF orientation values", |ch| {
        for v in 0..=255u8 {
            let o = Orientation::from_exif(v);
            need!(o.is_some() == (1..=8).contains(&v), "values", "EXIF {v} gives {o:?}");
            need!(o.map_or(true, |o| o.to_exif() == v), "values", "EXIF {v} gives {o:?}, which is {:?}", o.map(|o| o.to_exif()));
            ch.step();
        }
        Ok(())
    });
    let q = c.quick;
    c.explore("profiles", "PNG, JPEG and WebP x every profile length up to 600 (3000) and around every boundary x 4 contents: the profile and the pixels come back", |ch| {
        let f = ch.of(&[ImageFormat::Png, ImageFormat::Jpeg, ImageFormat::WebP]);
        let s = sizes(f, q);
        let n = s[ch.pick(s.len())];
        let kind = if n > 1_000_000 { 0 } else { ch.pick(4) };
        let p = payload(n, kind);
        let color = if n % 2 == 0 { ColorType::Rgb8 } else if f == ImageFormat::Jpeg { ColorType::L8 } else { ColorType::Rgba8 };
        let r = pattern(3, 2, color, 2);
        let what = format!("a profile of {n} bytes in {f:?}");
        let b = catch(|| encode(f, &r, Some(p.clone()))).map_err(|e| Viol::new("icc panic", format!("{what}: {e}")))?;
        let b = b.map_err(|e| Viol::new("icc", format!("{what}: {e}")))?;
        let plain = encode(f, &r, None).unwrap();
        let order = n % 16;
        let m = meta(f, &b, order).map_err(|e| Viol::new("icc", format!("{what}: {e}")))?;
        let m0 = meta(f, &plain, order).map_err(|e| Viol::new("icc", format!("without a profile in {f:?}: {e}")))?;
        need!(m0.icc.is_none() && m0.exif.is_none() && m0.orientation == Orientation::NoTransforms, "icc", "metadata from nowhere in {f:?}");
        need!(m.px == m0.px, "icc pixels", "{what} changes the pixels");
        if n == 0 {
            need!(m.icc.as_ref().map_or(true, |i| i.is_empty()), "icc", "{what} comes back with content");
        } else {
            let key = if f == ImageFormat::Jpeg && n > 254 * 65519 && m.icc.is_none() { "jpeg-255-segments" } else { "icc" };
            need!(m.icc.as_ref() == Some(&p), key, "{what} is returned as {:?}", m.icc.as_ref().map(|i| (i.len(), first_diff(i, &p))));
        }
        ch.state(hash_of(&(format!("{f:?}"), n)));
        ch.outcome(hash_of(&b));
        ch.validated();
        ch.sample(|| format!("{what}: file of {} bytes", b.len()));
        Ok(())
    });
    c.once("too large", "JPEG profiles over 255 segments", |ch| {
        for n in [255 * 65519 + 1, 256 * 65519, 300 * 65519] {
            let r = catch(|| encode(ImageFormat::Jpeg, &pattern(3, 2, ColorType::Rgb8, 2), Some(payload(n, 1))));
            need!(matches!(&r, Ok(Err(e)) if e.starts_with("write")), "icc large", "a profile of {n} bytes in a JPEG: {:?}", r.map(|r| r.map(|b| b.len())));
            ch.step();
        }
        Ok(())
    });
    c.explore("colours", "every encoder and colour: a profile is either returned by the decoder or refused when set, and refusing does not spoil the encoder", |ch| {
        let f = ch.of(&[ImageFormat::Png, ImageFormat::Jpeg, ImageFormat::WebP, ImageFormat::Bmp, ImageFormat::Tga, ImageFormat::Tiff, ImageFormat::Pnm, ImageFormat::Qoi, ImageFormat::Farbfeld, ImageFormat::Ico, ImageFormat::OpenExr, ImageFormat::Hdr, ImageFormat::Avif]);
        let color = ch.of(&COLORS);
        let r = pattern(4, 3, color, 2);
        let Ok(plain) = encode(f, &r, None) else { return Ok(()) };
        let p = payload(200, 0);
        let o = catch(|| encode(f, &r, Some(p.clone()))).map_err(|e| Viol::new("icc panic", format!("{f:?} {color:?}: {e}")))?;
        ch.state(hash_of(&(format!("{f:?}"), color)));
        match o {
            Err(e) => {
                need!(e.starts_with("set"), "icc", "{f:?} {color:?}: {e}");
                need!(![ImageFormat::Png, ImageFormat::Jpeg, ImageFormat::WebP].contains(&f), "icc", "{f:?} {color:?}: {e}");
            }
            Ok(b) => {
                let get = |b: &[u8]| {
                    let mut d = ImageReader::with_format(Cursor::new(b), f).into_decoder()?;
                    let i = d.icc_profile()?;
                    Ok::<_, ImageError>((i, DynamicImage::from_decoder(d)?.as_bytes().to_vec()))
                };
                let g = get(&b).map_err(|e| Viol::new("icc", format!("{f:?} {color:?}: {e}")))?;
                need!(g.0.as_ref() == Some(&p), "icc", "{f:?} {color:?}: the profile is returned as {:?}", g.0.map(|x| x.len()));
                need!(decode(f, &plain).is_ok_and(|d| d.data == g.1), "icc pixels", "{f:?} {color:?}: the profile changes the pixels");
                ch.validated();
            }
        }
        Ok(())
    });
    c.explore("exif layouts", "JPEG and WebP x both byte orders x up to 3 (4) entries of 9 kinds in every order x 3 places of the directory: the orientation of the first usable entry, and the block itself", |ch| {
        let f = ch.of(&[ImageFormat::Jpeg, ImageFormat::WebP]);
        let le = ch.flag();
        let gap = ch.of(&[0u32, 1, 30]);
        let n = ch.pick(if q { 4 } else { 5 });
        let entries = (0..n)
            .map(|_| ch.of(&[(0x112u16, 3u16, 1u32, 6u32), (0x112, 3, 1, 3), (0x112, 3, 2, 5), (0x112, 4, 1, 8), (0x1201, 3, 1, 2), (0x111, 3, 1, 7), (0x112, 3, 0x0100_0000, 4), (0x112, 0x300, 1, 8), (0x8769, 4, 1, 26)]))
            .collect();
        let e = Exif { le, gap, entries, tail: 4 };
        check_exif(f, &e.bytes(), n + gap as usize % 16, &format!("{e:?}"))?;
        ch.state(hash_of(&e.bytes()));
        ch.validated();
        ch.sample(|| format!("{e:?}"));
        Ok(())
    });
    c.explore("exif values", "both containers and byte orders x all 65536 values of the orientation entry", |ch| {
        let f = ch.of(&[ImageFormat::Jpeg, ImageFormat::WebP]);
        let le = ch.flag();
        let hi = ch.pick(256) as u32;
        for lo in 0..256u32 {
            if f == ImageFormat::Jpeg && lo > 12 && hi > 9 {
                continue;
            }
            let e = Exif { le, gap: 0, entries: vec![(0x112, 3, 1, hi << 8 | lo)], tail: 0 };
            check_exif(f, &e.bytes(), lo as usize % 16, &format!("{e:?}"))?;
            ch.step();
        }
        ch.state(hash_of(&(le, hi)));
        Ok(())
    });
    c.explore("exif damage", "both containers, blocks of both byte orders: every truncation, every single byte changed to every value, every pair of 8 bytes of the structure set to extremes", |ch| {
        let f = ch.of(&[ImageFormat::Jpeg, ImageFormat::WebP]);
        let le = ch.flag();
        let e = Exif { le, gap: 0, entries: vec![(0x100, 4, 1, 5), (0x112, 3, 1, 8), (0x112, 3, 1, 2)], tail: 4 }.bytes();
        let kind = ch.pick(3);
        if kind == 0 {
            for n in 0..=e.len() {
                check_exif(f, &e[..n], n % 16, "truncated block")?;
                ch.step();
            }
        } else if kind == 1 {
            let at = ch.pick(e.len());
            for v in 0..=255 {
                let mut b = e.clone();
                b[at] = v;
                check_exif(f, &b, v as usize % 16, &format!("byte {at} = {v}"))?;
                ch.step();
            }
        } else {
            let (i, j) = (ch.pick(24), ch.pick(24));
            for (a, b2) in [(0u8, 255u8), (255, 255), (255, 0), (1, 1), (0x7F, 0x80)] {
                let mut b = e.clone();
                b[i] = a;
                b[j] = b2;
                check_exif(f, &b, (i + j) % 16, &format!("bytes {i}, {j}"))?;
                ch.step();
            }
        }
        Ok(())
    });
    c.explore("exif sizes", "EXIF blocks of every length up to 300, and around the largest JPEG segment, alone and with a profile", |ch| {
        let f = ch.of(&[ImageFormat::Jpeg, ImageFormat::WebP]);
        let mut s: Vec<usize> = (0..300).collect();
        s.extend([4095, 4096, 65500, 65503, 65504, 65505]);
        let mut n = s[ch.pick(s.len())];
        if f == ImageFormat::WebP && n > 65000 {
            n += 70000;
        }
        let icc = ch.of(&[None, Some(1usize), Some(70_001)]).map(|k| payload(k, 0));
        let mut e = Exif { le: n % 2 == 0, gap: 0, entries: vec![(0x112, 3, 1, 7)], tail: 0 }.bytes();
        e.extend(payload(n, 0));
        let b = containers(f, Some(&e), icc.as_deref());
        let want = Meta { icc, exif: Some(e), orientation: Orientation::Rotate270FlipH, px: vec![] };
        for order in 0..16 {
            let mut m = meta(f, &b, order).map_err(|x| Viol::new("exif", format!("{n} more bytes of EXIF in {f:?}: {x}")))?;
            m.px.clear();
            need!(m == want, "exif bytes", "{n} more bytes of EXIF in {f:?}, order {order}: {}", short(&format!("{m:?}")));
            ch.step();
        }
        ch.validated();
        Ok(())
    });
    c.explore("tiff", "TIFF files of both byte orders x orientation tags 0..=9, 255, 256, 65535 and none x profile lengths", |ch| {
        let o = ch.of(&[None, Some(0u16), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(7), Some(8), Some(9), Some(255), Some(256), Some(258), Some(65535)]);
        let n = ch.of(&[None, Some(1usize), Some(2), Some(3), Some(4), Some(5), Some(7), Some(100), Some(4097), Some(70_000)]);
        let t = Tiff { big_endian: ch.flag(), w: 2, h: 3, bits: vec![8; 3], photometric: 2, sample_format: None, extra_samples: None, orientation: o, icc: n.map(|n| payload(n, 0)), rows_per_strip: 3, strips: vec![payload(18, 0)] };
        let b = t.file();
        for order in 0..16 {
            let m = meta(ImageFormat::Tiff, &b, order).map_err(|e| Viol::new("tiff", format!("orientation {o:?}, profile {n:?}: {e}")))?;
            need!(m.icc == t.icc, "tiff", "a profile of {n:?} bytes is returned as {:?}", m.icc.map(|i| i.len()));
            let w = o.filter(|o| (1..=8).contains(o)).unwrap_or(1);
            need!(m.orientation.to_exif() as u16 == w, "tiff", "orientation {o:?} is returned as {:?}", m.orientation);
            need!(m.px == t.strips[0], "tiff", "orientation {o:?}, profile {n:?}: the pixels differ");
            ch.step();
        }
        ch.validated();
        Ok(())
    });
    c.finish()
}
