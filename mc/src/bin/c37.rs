//! C37: TIFF files decode to the pixels the format defines.
//! TECHNIQUE: exhaustive enumeration of layouts (byte order x colour x depth x strips or tiles x compression x predictor x tag types), sample values and malformed directories from a model of TIFF, each file decoded by the real decoder and compared with the model's pixels
//! LEVEL: model_checking
//! NOTE: CMYK colours may differ by one unit from (255-c)(255-k)/255. What the library documents as unsupported (palettes, fewer than 8 bits, floats) has to be refused.
use image::codecs::tiff::TiffDecoder;
use image::*;
use mc::forge::{TiffComp, TiffX};
use mc::*;
use std::io::Cursor;

type Out = Result<(u32, u32, ColorType, Vec<u8>), String>;
fn dec(b: &[u8]) -> Out {
    catch(|| -> ImageResult<_> {
        let d = TiffDecoder::new(Cursor::new(b))?;
        let ((w, h), c) = (d.dimensions(), d.color_type());
        if d.total_bytes() > 1 << 32 {
            return Err(ImageError::Limits(error::LimitError::from_kind(error::LimitErrorKind::InsufficientMemory)));
        }
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, c, o))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
fn dec_open(b: &[u8]) -> Out {
    let d = catch(|| ImageReader::new(Cursor::new(b)).with_guessed_format().unwrap().decode()).map_err(|p| format!("PANIC {p}"))?.map_err(|e| e.to_string())?;
    Ok((d.width(), d.height(), d.color(), d.as_bytes().to_vec()))
}
/// (samples, bits, photometric)
const KINDS: [(usize, u16, u16); 9] = [(1, 8, 1), (1, 8, 0), (1, 16, 1), (1, 16, 0), (3, 8, 2), (3, 16, 2), (4, 8, 2), (4, 16, 2), (4, 8, 5)];
fn color(k: (usize, u16, u16)) -> ColorType {
    match k {
        (1, 8, _) => ColorType::L8,
        (1, _, _) => ColorType::L16,
        (3, 8, _) | (4, 8, 5) => ColorType::Rgb8,
        (3, _, _) => ColorType::Rgb16,
        (_, 8, _) => ColorType::Rgba8,
        _ => ColorType::Rgba16,
    }
}
fn same(what: &str, t: &TiffX, k: (usize, u16, u16), bytes: &[u8]) -> Res {
    if let Ok(Ok(got)) = catch(|| TiffDecoder::new(Cursor::new(bytes)).map(|d| d.original_color_type())) {
        let want = if k.2 == 5 { ExtendedColorType::Cmyk8 } else { color(k).into() };
        need!(got == want, "original", "{what}: original colour type {got:?} instead of {want:?}");
    }
    for (via, got) in [("TiffDecoder", dec(bytes)), ("ImageReader", dec_open(bytes))] {
        // the signature of BigTIFF is not among those that formats are guessed from
        if t.big && via == "ImageReader" {
            continue;
        }
        let (w, h, c, v) = match got {
            Ok(g) => g,
            Err(e) => return viol(if e.starts_with("PANIC") { "panic" } else { "refused" }, format!("{what} through {via}: {e}")),
        };
        need!((w, h) == (t.w, t.h), "size", "{what} through {via}: {w}x{h} instead of {}x{}", t.w, t.h);
        need!(c == color(k), "color", "{what} through {via}: {c:?} instead of {:?}", color(k));
        if k.2 == 5 {
            need!(v.len() == (w * h * 3) as usize, "length", "{what} through {via}: {} bytes", v.len());
            for (i, p) in t.px.iter().flatten().enumerate() {
                for j in 0..3 {
                    let want = (255 - p[j]) as f64 * (255 - p[3]) as f64 / 255.;
                    let got = v[i * 3 + j] as f64;
                    need!((got - want).abs() <= 1. + 1e-9, "pixels", "{what} through {via}: pixel {i} channel {j} of CMYK {p:?} is {got}, not {want}");
                }
            }
            continue;
        }
        let mut want = vec![];
        for s in t.px.iter().flatten().flatten() {
            let s = match k {
                (_, 8, 0) => 255 - *s,
                (_, _, 0) => 65535 - *s,
                _ => *s,
            };
            if k.1 == 8 {
                want.push(s as u8);
            } else {
                want.extend(s.to_ne_bytes());
            }
        }
        need!(v == want, "pixels", "{what} through {via}: {}", util::first_diff(&v, &want));
    }
    Ok(())
}
fn mix(x: u32, y: u32, c: u32, k: u32) -> u32 {
    let mut v = x.wrapping_mul(0x9E3779B1) ^ y.wrapping_mul(0x85EBCA6B) ^ c.wrapping_mul(0xC2B2AE35) ^ k.wrapping_mul(0x27D4EB2F);
    v ^= v >> 15;
    v = v.wrapping_mul(0x2C1B3C6D);
    v ^ v >> 12
}
fn image(w: u32, h: u32, k: (usize, u16, u16), kind: u32) -> TiffX {
    TiffX::new(w, h, k.0, k.1, k.2, |x, y, c| {
        let v = match kind {
            0 => mix(x, y, c as u32, 0),
            1 => (x / 3 + y) * 0x1111,
            _ => mix(x / 4, y / 2, c as u32, 1),
        };
        (v & if k.1 == 8 { 0xFF } else { 0xFFFF }) as u16
    })
}
const COMPS: [TiffComp; 5] = [TiffComp::None, TiffComp::PackBits, TiffComp::Lzw, TiffComp::Deflate, TiffComp::OldDeflate];
fn tell(t: &TiffX, k: (usize, u16, u16)) -> String {
    format!("{k:?} {}x{} big-endian {} BigTIFF {} {:?} predictor {} rows per strip {:?} tiles {:?} long {} directory first {}", t.w, t.h, t.be, t.big, t.comp, t.predictor, t.rows_per_strip, t.tile, t.long, t.ifd_first)
}

fn main() {
    let mut c = Check::start("C37", "model_checking", "each case is one file written by an independent model of TIFF and decoded through the decoder and the reader; non-deterministic choices: byte order, colour, depth, size, strips or tiles, compression, predictor, tag types, directory position, sample values, malformed tags");
    let q = c.quick;
    c.explore("strips", "both byte orders x 9 kinds of pixels x sizes 1..=5 x 1..=5 (8 x 8) x every number of rows per strip, absent and huge x 5 compressions x predictor", |ch| {
        let k = ch.of(&KINDS);
        let n = if q { 5 } else { 8 };
        let (w, h) = (ch.range(1, n) as u32, ch.range(1, n) as u32);
        let mut t = image(w, h, k, 0);
        t.be = ch.flag();
        let r = ch.pick(h as usize + 2) as u32;
        t.rows_per_strip = match r {
            0 => None,
            r if r <= h => Some(r),
            _ => Some(u32::MAX),
        };
        t.comp = ch.of(&COMPS);
        t.predictor = matches!(t.comp, TiffComp::Lzw | TiffComp::Deflate | TiffComp::OldDeflate) && ch.flag();
        ch.state(hash_of(&(k, w, h, r, t.be, t.comp, t.predictor)));
        let b = t.file();
        ch.outcome(hash_of(&b));
        ch.validated();
        ch.steps(t.chunks().len() as u64);
        ch.sample(|| tell(&t, k));
        same(&tell(&t, k), &t, k, &b)
    });
    c.explore("directories", "tag values as SHORT or LONG, directory before or after the data, classic and BigTIFF, both byte orders, one or many strips, a second directory, unknown tags", |ch| {
        let k = ch.of(&KINDS);
        let mut t = image(5, 4, k, 0);
        t.be = ch.flag();
        t.big = ch.flag();
        t.long = ch.flag();
        t.ifd_first = ch.flag();
        t.rows_per_strip = Some(ch.of(&[1, 2, 3, 4]));
        t.comp = ch.of(&[TiffComp::None, TiffComp::Lzw]);
        match ch.pick(6) {
            0 => {}
            1 => t.tags.push((271, 2, 6, b"maker\0".to_vec())),
            2 => t.tags.push((65000, 7, 3, vec![1, 2, 3])),
            3 => t.tags.push((282, 5, 1, [t.e32(72), t.e32(1)].concat())),
            4 => t.tags.push((339, 3, k.0 as u32, (0..k.0).flat_map(|_| t.e16(1)).collect())),
            _ => t.tags.push((284, 3, 1, t.e16(1).to_vec())),
        }
        if k.0 == 4 && k.2 == 2 {
            t.tags.push((338, 3, 1, t.e16(2).to_vec()));
        }
        let b = t.file();
        ch.outcome(hash_of(&b));
        ch.validated();
        same(&format!("{} tags {:?}", tell(&t, k), t.tags), &t, k, &b)
    });
    c.explore("pages", "files of two directories of different sizes and colours: the first is the image", |ch| {
        let (k1, k2) = (ch.of(&KINDS), ch.of(&KINDS));
        let mut t = image(3, 2, k1, 0);
        t.be = ch.flag();
        let n = t.file().len() as u32 - 8;
        // The second image's bytes follow, its directory pointing into the same file.
        let mut second = image(5, 4, k2, 0);
        second.be = t.be;
        let s = second.file();
        let at = u32::from_le_bytes(if t.be { [s[7], s[6], s[5], s[4]] } else { s[4..8].try_into().unwrap() });
        t.next_ifd = n + at;
        let mut b = t.file();
        b.extend(&s[8..]);
        same(&format!("{} followed by {}", tell(&t, k1), tell(&second, k2)), &t, k1, &b)
    });
    c.explore("tiles", "tiles of 16, 32 and 48 in each direction x sizes around one and two tiles x 9 kinds x compressions x predictor x byte orders", |ch| {
        let k = ch.of(&KINDS);
        let (tw, th) = (ch.of(&[16u32, 32, 48]), ch.of(&[16u32, 32]));
        let (w, h) = (ch.of(&[1u32, 15, 16, 17, 33]), ch.of(&[1u32, 16, 17, 40]));
        let mut t = image(w, h, k, 2);
        t.be = ch.flag();
        t.tile = Some((tw, th));
        t.comp = ch.of(&[TiffComp::None, TiffComp::Lzw, TiffComp::Deflate]);
        t.predictor = t.comp != TiffComp::None && ch.flag();
        let b = t.file();
        ch.steps(t.chunks().len() as u64);
        ch.validated();
        same(&tell(&t, k), &t, k, &b)
    });
    c.explore("values", "every 8-bit value and every 16-bit value in each channel, plain and inverted, with and without the predictor", |ch| {
        let k = ch.of(&KINDS);
        let at = ch.pick(k.0);
        let p = ch.flag();
        let (w, h) = if k.1 == 8 { (16, 16) } else { (256, 256) };
        let mut t = TiffX::new(w, h, k.0, k.1, k.2, |x, y, c| if c == at { (y * w + x) as u16 } else { 7 * c as u16 + 2 });
        t.be = ch.flag();
        t.comp = if p { TiffComp::Lzw } else { TiffComp::None };
        t.predictor = p;
        t.rows_per_strip = Some(5);
        ch.steps((w * h) as u64);
        same(&format!("{} channel {at}", tell(&t, k)), &t, k, &t.file())
    });
    c.explore("CMYK", "every pair of an ink and black, each ink in turn", |ch| {
        let at = ch.pick(3);
        let t = TiffX::new(256, 256, 4, 8, 5, |x, y, c| match c {
            3 => y as u16,
            c if c == at => x as u16,
            _ => (x as u16 * 3 + y as u16 + c as u16) & 255,
        });
        ch.steps(65536);
        same(&format!("all of ink {at} and black"), &t, (4, 8, 5), &t.file())
    });
    c.explore("coding", "PackBits with every longest run 1..=128 and LZW data of every length to 5000 in steps (all code widths, table resets), over four contents", |ch| {
        let pb = ch.flag();
        let kind = ch.pick(3) as u32;
        let k = (1, 8, 1);
        if pb {
            let w = ch.of(&[1u32, 2, 3, 127, 128, 129, 130, 255, 256, 257, 300, 1000]);
            let longest = ch.range(1, 128) as usize;
            let mut t = image(w, 2, k, kind);
            t.comp = TiffComp::PackBits;
            let rows: Vec<u8> = t.px.iter().flat_map(|r| forge::packbits(&r.iter().map(|p| p[0] as u8).collect::<Vec<_>>(), longest)).collect();
            same(&format!("width {w} PackBits runs up to {longest} content {kind}"), &t, k, &t.file_with(&[rows]))
        } else {
            let w = (ch.range(1, 200) * if q { 97 } else { 131 }) as u32;
            let mut t = image(w, 1, k, kind);
            t.comp = TiffComp::Lzw;
            ch.steps(w as u64);
            same(&format!("width {w} LZW content {kind}"), &t, k, &t.file())
        }
    });
    c.explore("large", "widths and heights of 1000, 4096, 65535 and 65536 of each kind, strips of one and of many rows", |ch| {
        let k = ch.of(&KINDS);
        let n = ch.of(&[1000u32, 4096, 65535, 65536]);
        let (w, h) = if ch.flag() { (2, n) } else { (n, 2) };
        let mut t = image(w, h, k, 0);
        t.be = ch.flag();
        t.rows_per_strip = Some(ch.of(&[1, 7, 1 << 20]));
        t.comp = ch.of(&[TiffComp::None, TiffComp::PackBits]);
        ch.steps((w * h) as u64);
        same(&tell(&t, k), &t, k, &t.file())
    });
    c.explore("refused", "sample formats other than unsigned (signed, float, void, complex, unknown), depths and colour models the library does not support, missing or contradictory tags, separate planes, and files cut anywhere: an error, not an image and not a panic", |ch| {
        let kind = ch.pick(6);
        let be = ch.flag();
        let bad = |b: &[u8], key: &str, what: String| -> Res {
            for (via, r) in [("TiffDecoder", dec(b)), ("ImageReader", dec_open(b))] {
                match r {
                    Ok(g) => return viol(format!("accepted {key}"), format!("{what} through {via}: decoded as {}x{} {:?}", g.0, g.1, g.2)),
                    Err(e) => need!(!e.starts_with("PANIC"), format!("panic {key}"), "{what} through {via}: {e}"),
                }
            }
            Ok(())
        };
        match kind {
            0 => {
                let k = ch.of(&KINDS);
                for f in (0..=10u16).chain([255, 256, 257, 65535]) {
                    if f == 1 {
                        continue;
                    }
                    let mut t = image(3, 2, k, 0);
                    t.be = be;
                    t.tags.push((339, 3, k.0 as u32, (0..k.0).flat_map(|_| t.e16(f)).collect()));
                    bad(&t.file(), "format", format!("{} sample format {f}", tell(&t, k)))?;
                    // one channel differs
                    if k.0 > 1 {
                        t.tags = vec![(339, 3, k.0 as u32, (0..k.0).flat_map(|i| t.e16(if i + 1 == k.0 { f } else { 1 })).collect())];
                        bad(&t.file(), "format", format!("{} sample format {f} in the last channel", tell(&t, k)))?;
                    }
                    ch.step();
                }
                Ok(())
            }
            1 => {
                for n in 1..=5usize {
                    for bits in 0..=65u16 {
                        for ph in 0..=9u16 {
                            let fine = matches!((n, bits, ph), (1, 8 | 16, 0 | 1) | (3 | 4, 8 | 16, 2) | (4, 8, 5));
                            if fine {
                                continue;
                            }
                            let mut t = TiffX::new(2, 2, n, 16, ph, |_, _, _| 0);
                            t.be = be;
                            t.tags.push((258, 3, n as u32, (0..n).flat_map(|_| t.e16(bits)).collect()));
                            bad(&t.file_with(&[vec![0; 2 * 2 * 8 * n]]), "kind", format!("{n} samples of {bits} bits photometric {ph}"))?;
                            ch.step();
                        }
                    }
                }
                Ok(())
            }
            2 => {
                let k = ch.of(&KINDS);
                for d in [256u16, 257, 258, 262, 273, 279, 277] {
                    let mut t = image(3, 2, k, 0);
                    t.be = be;
                    t.drop = vec![d];
                    // one sample per pixel, and photometric interpretations, have defaults elsewhere
                    let b = t.file();
                    if let Ok(g) = dec(&b) {
                        need!((g.0, g.1) == (3, 2), "size", "without tag {d}: {}x{}", g.0, g.1);
                        need!(d == 258 || d == 277 || d == 279, format!("accepted without {d}"), "{} without tag {d} decoded", tell(&t, k));
                        same(&format!("{} without tag {d}", tell(&t, k)), &t, k, &b)?;
                    } else {
                        bad(&b, "missing tag", format!("{} without tag {d}", tell(&t, k)))?;
                    }
                }
                Ok(())
            }
            3 => {
                // separate planes: refused, or decoded rightly
                let k = ch.of(&KINDS);
                let mut t = image(3, 2, k, 0);
                t.be = be;
                t.planar = true;
                t.rows_per_strip = Some(ch.of(&[1, 2]));
                let b = t.file();
                match dec(&b) {
                    Ok(_) => same(&format!("{} separate planes", tell(&t, k)), &t, k, &b),
                    Err(_) => bad(&b, "planar", format!("{} separate planes", tell(&t, k))),
                }
            }
            4 => {
                // fewer strips than the image has rows for, none, or sizes of zero
                let k = ch.of(&KINDS);
                let mut t = image(3, 4, k, 0);
                t.be = be;
                t.rows_per_strip = Some(1);
                let cs = t.chunks();
                for n in 0..4 {
                    bad(&t.file_with(&cs[..n]), "strips", format!("{} with {n} of 4 strips", tell(&t, k)))?;
                }
                for (w, h) in [(0u32, 4u32), (3, 0), (0, 0)] {
                    let mut z = t.clone();
                    z.tags = vec![(256, 4, 1, z.e32(w).to_vec()), (257, 4, 1, z.e32(h).to_vec())];
                    // an empty image may be delivered as such
                    if let Err(e) = dec(&z.file()) {
                        need!(!e.starts_with("PANIC"), "panic empty", "{w}x{h}: {e}");
                    }
                }
                Ok(())
            }
            _ => {
                let k = ch.of(&KINDS);
                let mut t = image(3, 4, k, 0);
                t.be = be;
                t.ifd_first = ch.flag();
                t.rows_per_strip = Some(2);
                t.comp = ch.of(&[TiffComp::None, TiffComp::Lzw, TiffComp::Deflate, TiffComp::PackBits]);
                let b = t.file();
                // with the data last, what a decoder may do without: padding, end codes, check sums
                let spare = match t.comp {
                    TiffComp::Lzw => 4,
                    TiffComp::Deflate => 6,
                    _ => 1,
                };
                // with the directory last: the pointer to the next one
                let stop = if t.ifd_first { b.len() - spare } else { b.len() };
                for cut in 0..stop {
                    if let Ok(g) = dec(&b[..cut]) {
                        // only what is not needed may be missing
                        let w = dec(&b).unwrap();
                        need!(g == w, "accepted cut", "{} cut to {cut} of {}: another image", tell(&t, k), b.len());
                        need!(t.ifd_first && cut + 8 > b.len() || !t.ifd_first && cut + 4 + 2 * 4 * k.0 + 16 >= b.len(), "accepted cut", "{} cut to {cut} of {}", tell(&t, k), b.len());
                    } else {
                        bad(&b[..cut], "cut", format!("{} cut to {cut} of {}", tell(&t, k), b.len()))?;
                    }
                    ch.step();
                }
                Ok(())
            }
        }
    });
    c.finish();
}
