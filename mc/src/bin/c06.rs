//! C06: limits on dimensions and allocation are enforced.
//! TECHNIQUE: exhaustive enumeration of limit settings around every threshold against files of every format on the real readers and decoders, with a counting allocator as monitor
//! LEVEL: model_checking
//! NOTE: The dimension limits are strict and checked exactly. For the allocation limit the checks require that an output buffer beyond it is refused, that nothing is refused with four times the output buffer plus 4 MB to spare, and that a refused decoding never holds more than the limit plus what decoding a small image of the format takes; formats may refuse in between.
use image::codecs::{gif::GifDecoder, png::PngDecoder};
use image::error::LimitErrorKind;
use image::*;
use mc::codec::*;
use mc::forge::*;
use mc::*;
use std::io::Cursor;
use std::sync::Arc;

struct Case {
    name: String,
    f: ImageFormat,
    bytes: Arc<Vec<u8>>,
    base: Raw,
    total: u64,
}

fn limits(w: Option<u32>, h: Option<u32>, a: Option<u64>) -> Limits {
    let mut l = Limits::no_limits();
    l.max_image_width = w;
    l.max_image_height = h;
    l.max_alloc = a;
    l
}
fn kind(e: &ImageError) -> Option<LimitErrorKind> {
    match e {
        ImageError::Limits(l) => Some(l.kind()),
        _ => None,
    }
}

#[derive(Clone, Copy, Debug)]
enum Via {
    Decode,
    IntoDecoder,
    Dimensions,
    SetLimits,
    Guess,
    PngWithLimits,
}

/// The image if the path delivers one.
fn via(v: Via, f: ImageFormat, bytes: &[u8], l: &Limits) -> Result<ImageResult<Option<Raw>>, String> {
    catch(|| {
        let mut r = ImageReader::with_format(Cursor::new(bytes), f);
        let read = |mut d: Box<dyn ImageDecoder>| -> ImageResult<Option<Raw>> {
            let _ = &mut d;
            let (w, h) = d.dimensions();
            let color = d.color_type();
            let mut data = vec![0x33; d.total_bytes() as usize];
            d.read_image_boxed(&mut data)?;
            Ok(Some(Raw { w, h, color, data }))
        };
        match v {
            Via::Decode => {
                r.limits(l.clone());
                Ok(Some(Raw::of(&r.decode()?)))
            }
            Via::Guess => {
                let mut r = ImageReader::new(Cursor::new(bytes));
                r.limits(l.clone());
                let r = r.with_guessed_format()?;
                Ok(Some(Raw::of(&r.decode()?)))
            }
            Via::IntoDecoder => {
                r.limits(l.clone());
                let d = r.into_decoder()?;
                let (w, h) = d.dimensions();
                let color = d.color_type();
                let mut data = vec![0x33; d.total_bytes() as usize];
                d.read_image(&mut data)?;
                Ok(Some(Raw { w, h, color, data }))
            }
            Via::Dimensions => {
                r.limits(l.clone());
                r.into_dimensions()?;
                Ok(None)
            }
            Via::SetLimits => {
                r.no_limits();
                let mut d = r.into_decoder()?;
                d.set_limits(l.clone())?;
                let (w, h) = d.dimensions();
                let color = d.color_type();
                let mut data = vec![0x33; d.total_bytes() as usize];
                d.read_image(&mut data)?;
                Ok(Some(Raw { w, h, color, data }))
            }
            Via::PngWithLimits => read(Box::new(PngDecoder::with_limits(Cursor::new(bytes), l.clone())?)),
        }
    })
}

fn huge(f: ImageFormat, w: u32, h: u32) -> Option<Vec<u8>> {
    let tail = vec![0u8; 64];
    Some(match f {
        ImageFormat::Bmp => {
            let mut b = Bmp::new(40, w as i32, h as i32, 24, 0);
            b.data = tail;
            b.file()
        }
        ImageFormat::Tga => Tga { image_type: 2, w: w as u16, h: h as u16, depth: 24, data: tail, ..tga0() }.file(),
        ImageFormat::Pnm => [format!("P6 {w} {h} 255\n").into_bytes(), tail].concat(),
        ImageFormat::Farbfeld => {
            let mut b = B::default();
            b.raw(b"farbfeld").be32(w).be32(h).raw(&tail);
            b.0
        }
        ImageFormat::Qoi => {
            let mut b = B::default();
            b.raw(b"qoif").be32(w).be32(h).u8(4).u8(0).raw(&tail);
            b.0
        }
        ImageFormat::Hdr => hdr(&["FORMAT=32-bit_rle_rgbe"], w, h, &tail),
        ImageFormat::Dds => dds(b"DXT1", w, h, None, &tail),
        ImageFormat::Gif => gif(w as u16, h as u16, Some(&[[0, 0, 0], [1, 2, 3]]), 0, None, &[]),
        ImageFormat::Png => {
            let mut p = png(1, 1, 8, 6, &[], &[vec![0; 4]]);
            p[16..20].copy_from_slice(&w.to_be_bytes());
            p[20..24].copy_from_slice(&h.to_be_bytes());
            let c = crc32(&p[12..29]);
            p[29..33].copy_from_slice(&c.to_be_bytes());
            p
        }
        ImageFormat::Jpeg => {
            let mut j = corpus::all().iter().find(|f| f.format == ImageFormat::Jpeg).unwrap().bytes.to_vec();
            let p = (0..j.len() - 1).find(|&i| j[i] == 0xFF && j[i + 1] == 0xC0)?;
            j[p + 5..p + 7].copy_from_slice(&(h as u16).to_be_bytes());
            j[p + 7..p + 9].copy_from_slice(&(w as u16).to_be_bytes());
            j
        }
        ImageFormat::Tiff => Tiff { big_endian: false, w, h, bits: vec![8, 8, 8], photometric: 2, sample_format: None, extra_samples: None, orientation: None, icc: None, rows_per_strip: h, strips: vec![tail] }.file(),
        ImageFormat::WebP => webp_ext(w, h, 0, None, None, Some(&webp_payload(&Enc::WebP.to_vec(&pattern(1, 1, ColorType::Rgb8, 1)).unwrap())), None),
        _ => return None,
    })
}
fn tga0() -> Tga {
    Tga { w: 1, h: 1, ..Tga::default() }
}

fn main() {
    let mut c = Check::start("C06", "model_checking", "one execution = one file read by one access path under one setting of the limits, compared with the unlimited reading");
    let mut cases = vec![];
    for f in corpus::all() {
        if let Ok(base) = decode(f.format, &f.bytes) {
            let total = base.data.len() as u64;
            cases.push(Case { name: f.name.clone(), f: f.format, bytes: f.bytes.clone(), base, total });
        }
    }
    // Sizes of every format.
    let dims: &[(u32, u32)] = if c.quick { &[(1, 1), (1, 9), (17, 2), (64, 64)] } else { &[(1, 1), (1, 2), (2, 1), (1, 9), (9, 1), (17, 2), (3, 31), (64, 64), (300, 1), (1, 300)] };
    for e in basic() {
        for &(w, h) in dims {
            for color in COLORS {
                if e.format() == ImageFormat::Ico && (w > 256 || h > 256) {
                    continue;
                }
                let r = pattern(w, h, color, 3);
                let Ok(b) = e.to_vec(&r) else { continue };
                let Ok(base) = decode(e.format(), &b) else { continue };
                let total = base.data.len() as u64;
                cases.push(Case { name: format!("{} {color:?} {w}x{h}", e.name()), f: e.format(), bytes: Arc::new(b), base, total });
            }
        }
    }
    let cases = &cases;
    c.explore("dimensions", "every file x limits on width and height in {none, 0, w-1, w, w+1, max} each x 5 access paths (6 for PNG)", |ch| {
        let k = &cases[ch.pick(cases.len())];
        let around = |n: u32| [None, Some(0), Some(n - 1), Some(n), Some(n + 1), Some(u32::MAX)];
        let (lw, lh) = (ch.of(&around(k.base.w)), ch.of(&around(k.base.h)));
        let v = ch.of(&[Via::Decode, Via::IntoDecoder, Via::Dimensions, Via::SetLimits, Via::Guess, Via::PngWithLimits]);
        if matches!(v, Via::Guess) && matches!(k.f, ImageFormat::Tga) || matches!(v, Via::PngWithLimits) && k.f != ImageFormat::Png {
            return Ok(());
        }
        let a = ch.of(&[None, Some(u64::MAX)]);
        let l = limits(lw, lh, a);
        let over = lw.is_some_and(|x| k.base.w > x) || lh.is_some_and(|x| k.base.h > x);
        let what = format!("{} ({}x{}) {v:?} with {l:?}", k.name, k.base.w, k.base.h);
        ch.validated();
        ch.outcome(hash_of(&(&k.name, over)));
        ch.sample(|| what.clone());
        match via(v, k.f, &k.bytes, &l) {
            Err(p) => viol("", format!("{what}: {p}")),
            Ok(Ok(img)) => {
                ensure!(!over, "{what}: accepted");
                ensure!(img.as_ref().map_or(true, |i| *i == k.base || matches!(v, Via::SetLimits | Via::IntoDecoder | Via::PngWithLimits) && i.data == k.base.data), "{what}: decoded differently from without limits");
                Ok(())
            }
            Ok(Err(e)) => {
                ensure!(over, "{what}: refused: {e}");
                ensure!(kind(&e) == Some(LimitErrorKind::DimensionError), "{what}: not a dimension limit error: {e:?}");
                Ok(())
            }
        }
    });
    c.explore("allocation", "every file x allocation limits {0, 1, T/2, T-1, T, T+1, 2T, 3T, 4T+4MB, 512MB, max} around its output size T x 3 access paths", |ch| {
        let k = &cases[ch.pick(cases.len())];
        let t = k.total;
        let a = ch.of(&[0, 1, t / 2, t - 1, t, t + 1, 2 * t, 3 * t, 4 * t + (4 << 20), 512 << 20, u64::MAX]);
        let v = ch.of(&[Via::Decode, Via::Guess, Via::PngWithLimits, Via::SetLimits, Via::IntoDecoder]);
        if matches!(v, Via::Guess) && matches!(k.f, ImageFormat::Tga) || matches!(v, Via::PngWithLimits) && k.f != ImageFormat::Png {
            return Ok(());
        }
        let l = limits(None, None, Some(a));
        let what = format!("{} (output of {t} bytes) {v:?} with max_alloc {a}", k.name);
        ch.validated();
        ch.outcome(hash_of(&(&k.name, a < t)));
        ch.sample(|| what.clone());
        match via(v, k.f, &k.bytes, &l) {
            Err(p) => viol("", format!("{what}: {p}")),
            Ok(Ok(img)) => {
                // The buffer is the caller's except for the high-level reader.
                ensure!(a >= t || !matches!(v, Via::Decode | Via::Guess), "{what}: accepted");
                ensure!(img.as_ref().map_or(true, |i| i.data == k.base.data), "{what}: decoded differently from without limits");
                Ok(())
            }
            Ok(Err(e)) => {
                ensure!(a < 4 * t + (4 << 20), "{what}: refused: {e}");
                need!(matches!(kind(&e), Some(LimitErrorKind::InsufficientMemory)), format!("{:?} limit error kind", k.f), "{what}: not a memory limit error: {e:?}");
                Ok(())
            }
        }
    });
    // The most that decoding a one-pixel image of the format holds.
    let small = |f: ImageFormat| -> u64 { cases.iter().filter(|k| k.f == f && k.total < 4096).map(|k| alloc_scope(|| via(Via::Decode, f, &k.bytes, &limits(None, None, None))).1).max().unwrap_or(0) };
    let fmts = [ImageFormat::Bmp, ImageFormat::Tga, ImageFormat::Pnm, ImageFormat::Farbfeld, ImageFormat::Qoi, ImageFormat::Hdr, ImageFormat::Dds, ImageFormat::Gif, ImageFormat::Png, ImageFormat::Jpeg, ImageFormat::Tiff, ImageFormat::WebP];
    let slack: Vec<u64> = fmts.iter().map(|f| small(*f)).collect();
    c.explore("monitor", "headers declaring large images (up to 65528x65528) with hardly any data, in 12 formats, under allocation limits from 0 to 64 MB: refused, and the counting allocator never sees more than the limit plus what a small image takes", |ch| {
        let i = ch.pick(fmts.len());
        let (w, h) = ch.of(&[(4000u32, 4000u32), (65528, 1024), (1024, 65528), (16000, 16000), (65528, 65528), (65528, 4)]);
        let a = ch.of(&[0u64, 1000, 100_000, 1 << 20, 8 << 20]);
        let v = ch.of(&[Via::Decode, Via::Guess]);
        let Some(b) = huge(fmts[i], w, h) else { return Ok(()) };
        if matches!(v, Via::Guess) && fmts[i] == ImageFormat::Tga || u64::from(w) * u64::from(h) <= a {
            return Ok(());
        }
        let l = limits(None, None, Some(a));
        let (o, peak, biggest) = alloc_scope(|| via(v, fmts[i], &b, &l));
        let what = format!("{:?} of {w}x{h}, {} bytes, {v:?} with max_alloc {a}", fmts[i], b.len());
        ch.validated();
        ch.outcome(hash_of(&(i, w, h, a)));
        ch.sample(|| format!("{what}: peak {peak}, biggest {biggest}: {:?}", o.as_ref().map(|o| o.as_ref().err().map(|e| e.to_string()))));
        match o {
            Err(p) => viol("", format!("{what}: {p}")),
            Ok(Ok(_)) => viol("", format!("{what}: accepted")),
            Ok(Err(_)) => {
                need!(peak <= a + slack[i] + 100_000, format!("{:?} peak", fmts[i]), "{what}: held {peak} bytes (largest request {biggest})");
                Ok(())
            }
        }
    });
    let anims: Vec<_> = corpus::all().iter().filter(|f| matches!(f.format, ImageFormat::Gif | ImageFormat::Png)).filter_map(|f| {
        let base = frames(f.format, &f.bytes, None).ok()?.ok()?;
        (!base.0.is_empty()).then_some((f, base))
    }).collect();
    c.explore("animations", "all GIF and APNG animations x allocation and dimension limits around the canvas", |ch| {
        let (f, base) = &anims[ch.pick(anims.len())];
        let (w, h) = base.1;
        let t = 4 * u64::from(w) * u64::from(h);
        let a = ch.of(&[0, t - 1, t, t + 1, 2 * t - 1, 2 * t, 3 * t, 4 * t, 5 * t, 10 * t + (1 << 20), u64::MAX]);
        let lw = ch.of(&[None, Some(w - 1), Some(w)]);
        let lh = ch.of(&[None, Some(h - 1), Some(h)]);
        let over = lw.is_some_and(|x| w > x) || lh.is_some_and(|x| h > x);
        let l = limits(lw, lh, Some(a));
        let what = format!("{} (canvas {w}x{h}) with {l:?}", f.name);
        ch.validated();
        ch.outcome(hash_of(&(&f.name, over, a < t)));
        match catch(|| frames(f.format, &f.bytes, Some(&l))) {
            Err(p) => viol("", format!("{what}: {p}")),
            Ok(Ok(Ok(got))) => {
                ensure!(!over && a >= t, "{what}: accepted");
                ensure!(got == *base, "{what}: other frames than without limits");
                Ok(())
            }
            Ok(Ok(Err(e))) | Ok(Err(e)) => {
                // A frame that is itself larger than the canvas, and than the limit, may be refused.
                let beyond = f.name == "gif-oversize" && (lw.is_some() || lh.is_some());
                ensure!(over || beyond || a < 10 * t, "{what}: refused: {e}");
                ensure!(kind(&e).is_some(), "{what}: not a limit error: {e:?}");
                Ok(())
            }
        }
    });
    c.explore("animation memory", "GIF and APNG animations of 1000x1000 with whole and partial frames, 4 colour types, under 30 allocation limits from 1.9 to 4.8 canvases: what is held never exceeds the limit (or three canvases: the two kept ones and the delivered frame)", |ch| {
        const S: usize = 1000;
        let canvas = (S * S * 4) as u64;
        // whole, a half, a single pixel
        let parts: &[&[usize]] = &[&[0], &[0, 0], &[0, 1], &[0, 2, 0], &[1, 0], &[2, 2, 1]];
        let part = ch.pick(parts.len());
        let size = |p: usize| [(S, S), (S, S / 2), (1, 1)][p];
        let color = ch.of(&[0u8, 4, 2, 6, 255]);
        let (f, bytes) = if color == 255 {
            let fr: Vec<GifFrame> = parts[part].iter().map(|&p| GifFrame { x: 0, y: 0, w: size(p).0 as u16, h: size(p).1 as u16, dispose: 1, transparent: None, delay: 1, local: None, interlaced: false, pixels: vec![1; size(p).0 * size(p).1] }).collect();
            (ImageFormat::Gif, gif(S as u16, S as u16, Some(&[[0, 0, 0], [9, 9, 9]]), 0, None, &fr))
        } else {
            if parts[part][0] != 0 {
                return Ok(());
            }
            let n = match color { 0 => 1, 4 => 2, 2 => 3, _ => 4 };
            let fr: Vec<ApngFrame> = parts[part].iter().map(|&p| ApngFrame { x: 0, y: 0, w: size(p).0 as u32, h: size(p).1 as u32, dispose: 0, blend: 0, num: 1, den: 1, rows: vec![vec![7; size(p).0 * n]; size(p).1] }).collect();
            (ImageFormat::Png, apng(S as u32, S as u32, 8, color, &[], None, &fr))
        };
        let a = canvas * (19 + ch.pick(30) as u64) / 10;
        let l = limits(None, None, Some(a));
        let what = format!("{f:?} of colour {color} with frames {:?}, max_alloc {a}", parts[part]);
        let (o, peak, biggest) = alloc_scope(|| catch(|| hold(f, &bytes, &l)));
        ch.validated();
        ch.outcome(hash_of(&(part, color, matches!(o, Ok(Ok(_))))));
        ch.state(hash_of(&(part, color, a)));
        ch.sample(|| format!("{what}: peak {peak} ({:.2} canvases), biggest {biggest}, {o:?}", peak as f64 / canvas as f64));
        match o {
            Err(p) => return viol("", format!("{what}: {p}")),
            Ok(Ok(n)) => ensure!(n == parts[part].len(), "{what}: {n} frames"),
            Ok(Err(e)) => ensure!(kind(&e).is_some() && a < canvas * 45 / 10, "{what}: {e}"),
        }
        ensure!(peak <= a.max(3 * canvas) + canvas / 5, "{what}: held {peak} bytes, {:.2} canvases, allowed {:.2}", peak as f64 / canvas as f64, a as f64 / canvas as f64);
        Ok(())
    });
    c.explore("many frames", "GIF and APNG animations of 2 to 40 whole or partial frames, each disposal, under allocation limits in small steps: admitted for many frames exactly when for the first few", |ch| {
        const S: usize = 40;
        let canvas = (S * S * 4) as u64;
        let part = ch.of(&[(S, S), (S, S / 2), (9, 9)]);
        let color = ch.of(&[0u8, 2, 6, 255]);
        let dispose = ch.pick(if color == 255 { 4 } else { 3 }) as u8;
        let file = |n: usize| {
            if color == 255 {
                let fr: Vec<GifFrame> = (0..n).map(|_| GifFrame { x: 0, y: 0, w: part.0 as u16, h: part.1 as u16, dispose, transparent: None, delay: 1, local: None, interlaced: false, pixels: vec![1; part.0 * part.1] }).collect();
                (ImageFormat::Gif, gif(S as u16, S as u16, Some(&[[0, 0, 0], [9, 9, 9]]), 0, None, &fr))
            } else {
                let b = match color { 0 => 1, 2 => 3, _ => 4 };
                let fr: Vec<ApngFrame> = (0..n)
                    .map(|i| {
                        let (w, h) = if i == 0 { (S, S) } else { part };
                        // The first frame may not revert to what was before it.
                        let dispose = if i == 0 { 0 } else { dispose };
                        ApngFrame { x: 0, y: 0, w: w as u32, h: h as u32, dispose, blend: 0, num: 1, den: 1, rows: vec![vec![7; w * b]; h] }
                    })
                    .collect();
                (ImageFormat::Png, apng(S as u32, S as u32, 8, color, &[], None, &fr))
            }
        };
        let n = ch.of(&[4usize, 5, 12, 40]);
        let (f, many) = file(n);
        let (_, few) = file(3);
        for k in 0..96u64 {
            let a = canvas / 2 + canvas * k / 16 + ch.quick as u64;
            let l = limits(None, None, Some(a));
            let what = format!("{f:?} of colour {color} with {n} frames of {part:?}, disposal {dispose}, max_alloc {a}");
            let x = catch(|| hold(f, &few, &l).is_ok()).map_err(|e| Viol::new("", format!("{what}: {e}")))?;
            let y = catch(|| hold(f, &many, &l)).map_err(|e| Viol::new("", format!("{what}: {e}")))?;
            ensure!(x == y.is_ok(), "{what}: {:?}, but with three frames {}", y.map_err(|e| e.to_string()), if x { "admitted" } else { "refused" });
            if let Ok(m) = y {
                ensure!(m == n, "{what}: {m} frames");
                ch.validated();
            }
            ch.outcome(hash_of(&(color, part, x)));
            ch.step();
        }
        Ok(())
    });
    c.explore("accounting", "all sequences of 5 (6) operations reserve, reserve_usize, reserve_buffer, free and free_usize over boundary amounts on limits from 0 to the maximum, against exact arithmetic", |ch| {
        let start = ch.of(&[None, Some(0u64), Some(10), Some(u64::MAX)]);
        let mut l = limits(Some(5), Some(7), start);
        let mut model: Option<u128> = start.map(u128::from);
        let depth = if ch.quick { 4 } else { 6 };
        let mut held: u128 = 0;
        for _ in 0..depth {
            let op = ch.pick(5);
            let amt = ch.of(&[0u64, 1, 9, 10, u64::MAX]);
            ch.step();
            let mut reserve = |n: u128| match model.as_mut() {
                None => true,
                Some(m) if *m >= n => {
                    *m -= n;
                    true
                }
                _ => false,
            };
            let (got, want) = match op {
                0 => (l.reserve(amt).is_ok(), reserve(amt.into())),
                1 => (l.reserve_usize(amt as usize).is_ok(), reserve(amt.into())),
                2 => {
                    let (w, h) = [(0u32, 7u32), (1, 1), (5, 7), (6, 1), (1, 8)][(amt % 5) as usize];
                    (l.reserve_buffer(w, h, ColorType::La8).is_ok(), w <= 5 && h <= 7 && reserve(u128::from(w) * u128::from(h) * 2))
                }
                _ => {
                    // Only what was reserved is given back.
                    let n = (amt as u128).min(held) as u64;
                    if op == 3 {
                        l.free(n)
                    } else {
                        l.free_usize(n as usize)
                    }
                    held -= u128::from(n);
                    model = model.map(|m| (m + u128::from(n)).min(u128::from(u64::MAX)));
                    (true, true)
                }
            };
            if want && op < 2 {
                held += u128::from(amt);
            }
            ensure_eq!(got, want, "operation {op} of {amt} from {start:?}");
            ensure_eq!(l.max_alloc.map(u128::from), model, "after operation {op} of {amt} from {start:?}");
            ch.state(hash_of(&(model, held)));
        }
        ch.validated();
        Ok(())
    });
    c.finish()
}

type Frs = (Vec<Vec<u8>>, (u32, u32));
/// Goes through an animation, dropping each frame; the number of frames.
fn hold(f: ImageFormat, bytes: &[u8], l: &Limits) -> ImageResult<usize> {
    let it = match f {
        ImageFormat::Gif => {
            let mut d = GifDecoder::new(Cursor::new(bytes))?;
            d.set_limits(l.clone())?;
            d.into_frames()
        }
        _ => {
            let mut d = PngDecoder::new(Cursor::new(bytes))?;
            d.set_limits(l.clone())?;
            d.apng()?.into_frames()
        }
    };
    let mut n = 0;
    for fr in it {
        fr?;
        n += 1;
    }
    Ok(n)
}

fn frames(f: ImageFormat, bytes: &[u8], l: Option<&Limits>) -> Result<ImageResult<Frs>, ImageError> {
    let mut v = vec![];
    let (it, dims) = match f {
        ImageFormat::Gif => {
            let mut d = GifDecoder::new(Cursor::new(bytes))?;
            if let Some(l) = l {
                d.set_limits(l.clone())?;
            }
            let dims = d.dimensions();
            (d.into_frames(), dims)
        }
        _ => {
            let mut d = PngDecoder::new(Cursor::new(bytes))?;
            if let Some(l) = l {
                d.set_limits(l.clone())?;
            }
            let dims = d.dimensions();
            if !d.is_apng()? {
                return Ok(Ok((vec![], dims)));
            }
            (d.apng()?.into_frames(), dims)
        }
    };
    for fr in it.take(64) {
        match fr {
            Ok(fr) => v.push(fr.into_buffer().into_raw()),
            Err(e) => return Ok(Err(e)),
        }
    }
    Ok(Ok((v, dims)))
}
