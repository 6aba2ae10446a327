//! C08: reading a rectangle equals cropping the decoded image.
//! TECHNIQUE: exhaustive exploration of histories of rectangle reads (inside, outside, degenerate, with every pitch and destination length) on the real BMP and farbfeld decoders, against a crop of the whole image
//! LEVEL: model_checking
//! NOTE: A destination or pitch that is too small may be refused by an error or by the documented panic; a panicking refusal must leave the decoder usable. Rectangles without area may be refused.
use image::codecs::{bmp::BmpDecoder, farbfeld::FarbfeldDecoder};
use image::*;
use mc::codec::*;
use mc::*;
use std::io::Cursor;
use std::panic::AssertUnwindSafe;

struct Case {
    name: String,
    f: ImageFormat,
    bytes: Vec<u8>,
    full: Raw,
}
enum Dec<'a> {
    B(BmpDecoder<Cursor<&'a [u8]>>),
    F(FarbfeldDecoder<Cursor<&'a [u8]>>),
}
impl<'a> Dec<'a> {
    fn new(k: &'a Case) -> Dec<'a> {
        match k.f {
            ImageFormat::Bmp => Dec::B(BmpDecoder::new(Cursor::new(&k.bytes[..])).unwrap()),
            _ => Dec::F(FarbfeldDecoder::new(Cursor::new(&k.bytes[..])).unwrap()),
        }
    }
    fn rect(&mut self, r: (u32, u32, u32, u32), buf: &mut [u8], pitch: usize) -> Result<ImageResult<()>, String> {
        match self {
            Dec::B(d) => catch(AssertUnwindSafe(|| d.read_rect(r.0, r.1, r.2, r.3, buf, pitch))),
            Dec::F(d) => catch(AssertUnwindSafe(|| d.read_rect(r.0, r.1, r.2, r.3, buf, pitch))),
        }
    }
    fn whole(self, buf: &mut [u8]) -> ImageResult<()> {
        match self {
            Dec::B(d) => d.read_image(buf),
            Dec::F(d) => d.read_image(buf),
        }
    }
}

/// Reads a rectangle and checks everything about it.
fn read(k: &Case, d: &mut Dec, r: (u32, u32, u32, u32), pitch: usize, len: usize, what: &dyn Fn() -> String) -> Result<&'static str, Viol> {
    let bpp = k.full.color.bytes_per_pixel() as usize;
    let (x, y, w, h) = (r.0 as u64, r.1 as u64, r.2 as u64, r.3 as u64);
    let inside = x + w <= k.full.w.into() && y + h <= k.full.h.into();
    let area = w > 0 && h > 0;
    let need = if area { (h as u128 - 1) * pitch as u128 + w as u128 * bpp as u128 } else { 0 };
    let room = len as u128 >= need && pitch as u128 >= w as u128 * bpp as u128;
    let mut buf = vec![0xEEu8; len];
    let got = d.rect(r, &mut buf, pitch);
    let e = |m: String| Err(Viol { key: String::new(), msg: format!("{}: {m}", what()) });
    match got {
        Ok(Ok(())) => {
            if !area {
                return if buf.iter().all(|b| *b == 0xEE) { Ok("empty") } else { e("an empty rectangle changed the destination".into()) };
            }
            if !inside {
                return e("a rectangle outside the image was accepted".into());
            }
            if !room {
                return e(format!("a destination of {len} bytes with pitch {pitch} was accepted"));
            }
            let mut want = vec![0xEEu8; len];
            for j in 0..h as usize {
                let s = ((y as usize + j) * k.full.w as usize + x as usize) * bpp;
                want[j * pitch..j * pitch + w as usize * bpp].copy_from_slice(&k.full.data[s..s + w as usize * bpp]);
            }
            if buf != want {
                return e(first_diff(&buf, &want));
            }
            Ok("read")
        }
        Ok(Err(x)) => {
            if inside && area && room {
                return e(format!("refused: {x}"));
            }
            if buf.iter().any(|b| *b != 0xEE) {
                return e(format!("refused ({x}), but the destination was written"));
            }
            Ok("refused")
        }
        Err(p) => {
            if room && (inside && area) {
                return e(p);
            }
            if room {
                return e(format!("a rectangle outside the image panicked: {p}"));
            }
            if buf.iter().any(|b| *b != 0xEE) {
                return e(format!("panicked ({p}) after writing to the destination"));
            }
            Ok("panicked")
        }
    }
}

fn main() {
    let mut c = Check::start("C08", "model_checking", "one execution = one history of rectangle reads on one decoder, ended by reading the whole image; it counts when every read was compared with the crop");
    let mut cases = vec![];
    for f in corpus::all() {
        if matches!(f.format, ImageFormat::Bmp | ImageFormat::Farbfeld) && f.bytes.len() < 3000 {
            let full = decode(f.format, &f.bytes).unwrap();
            cases.push(Case { name: f.name.clone(), f: f.format, bytes: f.bytes.to_vec(), full });
        }
    }
    for (w, h) in [(1, 1), (4, 1), (1, 4), (3, 3)] {
        for (e, color) in [(Enc::Bmp, ColorType::Rgb8), (Enc::Bmp, ColorType::Rgba8), (Enc::Bmp, ColorType::L8), (Enc::Farbfeld, ColorType::Rgba16)] {
            let bytes = e.to_vec(&pattern(w, h, color, 3)).unwrap();
            let full = decode(e.format(), &bytes).unwrap();
            cases.push(Case { name: format!("{} {color:?} {w}x{h}", e.name()), f: e.format(), bytes, full });
        }
    }
    let cases = &cases;
    c.explore("single", "every file x every rectangle with corners up to one beyond the image or at the maximum of u32 x pitches exact, +1, +7, one too small, zero and maximal x destination lengths exact, +3, one too small, empty; followed by an inner rectangle and the whole image", |ch| {
        let k = &cases[ch.pick(cases.len())];
        let bpp = k.full.color.bytes_per_pixel() as usize;
        let big = k.full.w > 6 || k.full.h > 6;
        let vals = |n: u32| -> Vec<u32> {
            if big { vec![0, 1, n / 2, n - 1, n, n + 1, u32::MAX] } else { (0..=n + 1).chain([u32::MAX]).collect() }
        };
        let r = (ch.of(&vals(k.full.w)), ch.of(&vals(k.full.h)), ch.of(&vals(k.full.w)), ch.of(&vals(k.full.h)));
        let row = (r.2 as usize).saturating_mul(bpp);
        let pitch = ch.of(&[row, row + 1, row + 7, row.saturating_sub(1), 0, usize::MAX / 4]);
        let need = (r.3 as u128).saturating_sub(1) * pitch as u128 + row as u128;
        let need = if need > 1 << 20 { 64 } else { need as usize };
        let len = ch.of(&[need, need + 3, need.saturating_sub(1), 0, (r.2 as u64 * r.3 as u64).min(1 << 16) as usize * bpp]);
        let mut d = Dec::new(k);
        let what = format!("{} ({}x{}) rectangle {r:?}, pitch {pitch}, destination {len}", k.name, k.full.w, k.full.h);
        let o = read(k, &mut d, r, pitch, len, &|| what.clone())?;
        ch.outcome(hash_of(&(&k.name, o)));
        ch.sample(|| format!("{what}: {o}"));
        let (w, h) = (k.full.w, k.full.h);
        let inner = (w / 2, h / 2, w - w / 2, h - h / 2);
        let p = inner.2 as usize * bpp + 2;
        read(k, &mut d, inner, p, p * inner.3 as usize, &|| format!("{what}, then {inner:?}"))?;
        let mut buf = vec![0x11; k.full.data.len()];
        match d.whole(&mut buf) {
            Ok(()) => ensure!(buf == k.full.data, "{what}, then the whole image: {}", first_diff(&buf, &k.full.data)),
            Err(e) => return viol("", format!("{what}, then the whole image: {e}")),
        }
        ch.steps(3);
        ch.validated();
        Ok(())
    });
    let depth = if c.quick { 3 } else { 4 };
    let mut large = vec![];
    // Larger than the decoders' buffers and than 16 bits.
    for (w, h) in [(300, 7), (7, 300), (700, 90), (5000, 2), (2, 40000)] {
        for (e, color) in [(Enc::Bmp, ColorType::Rgb8), (Enc::Bmp, ColorType::L8), (Enc::Farbfeld, ColorType::Rgba16)] {
            let bytes = e.to_vec(&pattern(w, h, color, 3)).unwrap();
            let full = decode(e.format(), &bytes).unwrap();
            large.push(Case { name: format!("{} {color:?} {w}x{h}", e.name()), f: e.format(), bytes, full });
        }
    }
    let large = &large;
    c.explore("large", "images of 300x7, 7x300, 700x90, 5000x2 and 2x40000 x all rectangles with corners at the ends and in the middle x two pitches, then the whole image", |ch| {
        let k = &large[ch.pick(large.len())];
        let bpp = k.full.color.bytes_per_pixel() as usize;
        let (w, h) = (k.full.w, k.full.h);
        let vals = |n: u32| [0, 1, n / 2, n - 1, n];
        let r = (ch.of(&vals(w)), ch.of(&vals(h)), ch.of(&vals(w)), ch.of(&vals(h)));
        let pitch = r.2 as usize * bpp + ch.of(&[0, 5]);
        let len = (r.3 as usize).saturating_sub(1) * pitch + r.2 as usize * bpp;
        let mut d = Dec::new(k);
        read(k, &mut d, r, pitch, len, &|| format!("{} rectangle {r:?}, pitch {pitch}", k.name))?;
        let p = w as usize * bpp;
        read(k, &mut d, (0, 0, w, h), p, p * h as usize, &|| format!("{} rectangle {r:?}, then all", k.name))?;
        ch.validated();
        Ok(())
    });
    c.explore("histories", "every file x every sequence of 3 (4) reads out of 11 rectangles (single pixels, rows, columns, all, overlapping halves, outside, with short destination), then the whole image", |ch| {
        let k = &cases[ch.pick(cases.len())];
        let bpp = k.full.color.bytes_per_pixel() as usize;
        let (w, h) = (k.full.w, k.full.h);
        let rects = [
            (0, 0, w, h),
            (0, 0, 1, 1),
            (w - 1, h - 1, 1, 1),
            (0, h - 1, w, 1),
            (w - 1, 0, 1, h),
            (0, 0, w, (h + 1) / 2),
            (0, h / 2, w, h - h / 2),
            (w / 2, 0, w - w / 2, h),
            (0, 0, w + 1, 1),
            (w, h, 1, 1),
        ];
        let mut d = Dec::new(k);
        let mut past = vec![];
        for _ in 0..depth {
            let i = ch.pick(rects.len() + 1);
            let (r, pitch, len) = if i < rects.len() {
                let r = rects[i];
                let p = r.2 as usize * bpp + i % 3;
                (r, p, p * r.3 as usize)
            } else {
                ((0, 0, w, h), w as usize * bpp, 0)
            };
            past.push((r, pitch, len));
            let p = past.clone();
            read(k, &mut d, r, pitch, len, &|| format!("{} ({w}x{h}) after {p:?}", k.name))?;
            ch.step();
        }
        let mut buf = vec![0x11; k.full.data.len()];
        match d.whole(&mut buf) {
            Ok(()) => ensure!(buf == k.full.data, "{} after {past:?}, the whole image: {}", k.name, first_diff(&buf, &k.full.data)),
            Err(e) => return viol("", format!("{} after {past:?}, the whole image: {e}", k.name)),
        }
        ch.outcome(hash_of(&(&k.name, &past)));
        ch.validated();
        Ok(())
    });
    c.finish()
}
