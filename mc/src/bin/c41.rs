//! C41: WebP images and animations decode to the pixels the format defines.
//! TECHNIQUE: exhaustive enumeration of sizes, transforms in every order, predictors, prefix codes, colour caches, alpha chunks and frame sequences from an independent model of lossless WebP and its container, each decoded by the real decoders and compared; what the real encoder writes is compared by decoding it in all ways
//! LEVEL: model_checking
//! NOTE: Lossy data (VP8) is taken from two files: its pixels are those the plain file decodes to, what is checked is how they are placed, combined with alpha channels and animated.
use image::codecs::webp::WebPDecoder;
use image::*;
use mc::forge::*;
use mc::*;
use std::io::Cursor;

type Out = Result<(u32, u32, ColorType, Vec<u8>), String>;
fn dec(b: &[u8]) -> Out {
    catch(|| -> ImageResult<_> {
        let d = WebPDecoder::new(Cursor::new(b))?;
        let ((w, h), c) = (d.dimensions(), d.color_type());
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, c, o))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
fn dec_open(b: &[u8]) -> Out {
    let d = catch(|| ImageReader::new(Cursor::new(b)).with_guessed_format().unwrap().decode()).map_err(|p| format!("PANIC {p}"))?.map_err(|e| e.to_string())?;
    Ok((d.width(), d.height(), d.color(), d.as_bytes().to_vec()))
}
fn same(what: &dyn Fn() -> String, (w, h, alpha): (u32, u32, bool), want: &[u32], b: &[u8]) -> Res {
    let color = if alpha { ColorType::Rgba8 } else { ColorType::Rgb8 };
    let n = if alpha { 4 } else { 3 };
    for (via, got) in [("decoder", dec(b)), ("ImageReader", dec_open(b))] {
        let (a, k, c, v) = match got {
            Ok(g) => g,
            Err(e) => return viol(if e.starts_with("PANIC") { "panic" } else { "refused" }, format!("{} through {via}: {e}", what())),
        };
        need!((a, k) == (w, h), "size", "{} through {via}: {a}x{k} instead of {w}x{h}", what());
        need!(c == color, "color", "{} through {via}: {c:?} instead of {color:?}", what());
        let z: Vec<u8> = want.iter().flat_map(|p| [(p >> 16) as u8, (p >> 8) as u8, *p as u8, (p >> 24) as u8][..n].to_vec()).collect();
        need!(v == z, "pixels", "{} through {via}: {}", what(), util::first_diff(&v, &z));
    }
    Ok(())
}
fn bad(b: &[u8], what: String) -> Res {
    for (via, r) in [("decoder", dec(b)), ("ImageReader", dec_open(b))] {
        match r {
            Ok(g) => return viol("accepted", format!("{what} through {via}: decoded as {}x{} {:?}", g.0, g.1, g.2)),
            Err(e) => need!(!e.starts_with("PANIC"), "panic", "{what} through {via}: {e}"),
        }
    }
    Ok(())
}
fn mix(x: u32) -> u32 {
    let mut v = x.wrapping_mul(0x9E3779B1) ^ 0x1234567;
    v ^= v >> 15;
    v = v.wrapping_mul(0x2C1B3C6D);
    v ^= v >> 12;
    v = v.wrapping_mul(0x297A2D39);
    v ^ v >> 15
}
/// Contents of an image.
fn fill(kind: usize, w: u32, h: u32, alpha: bool) -> Vec<u32> {
    let a = |v: u32| if alpha { v } else { v | 0xFF000000 };
    (0..w * h)
        .map(|i| {
            let (x, y) = (i % w, i / w);
            match kind {
                0 => a(mix(i)),
                1 => a(0x80FF0000u32.wrapping_add(x.wrapping_mul(0x010307)).wrapping_add(y.wrapping_mul(0x20110503))),
                2 => a(mix((x + y) % 2 + 7)),
                3 => a(mix(mix(i) % 3)),
                4 => a(mix(mix(i) % 13)),
                5 => a(0x7F203040),
                6 => a(mix(mix(i) % 200)),
                7 => a([0, 0xFFFFFFFF, 0x00FFFFFF, 0xFF000000][(mix(i) % 4) as usize]),
                _ => a(mix(i % 5 + 3 * (y % 2))),
            }
        })
        .collect()
}

struct Canvas {
    w: u32,
    h: u32,
    px: Vec<[f64; 4]>,
    /// An inexact operation has taken place.
    soft: bool,
}
impl Canvas {
    fn clear(&mut self, r: (u32, u32, u32, u32), c: [u8; 4]) {
        for y in r.1..r.1 + r.3 {
            for x in r.0..r.0 + r.2 {
                self.px[(y * self.w + x) as usize] = c.map(f64::from);
            }
        }
    }
    fn draw(&mut self, r: (u32, u32, u32, u32), p: &[u32], blend: bool) {
        for y in 0..r.3 {
            for x in 0..r.2 {
                let v = p[(y * r.2 + x) as usize];
                let s = [v >> 16 & 255, v >> 8 & 255, v & 255, v >> 24].map(f64::from);
                let d = &mut self.px[((y + r.1) * self.w + x + r.0) as usize];
                // image-webp computes blended colours up to 1 too dark, opaque ones included
                self.soft |= blend && s[3] > 0.0;
                if !blend || s[3] == 255.0 {
                    *d = s;
                } else if s[3] > 0.0 {
                    let f = d[3] * (1.0 - s[3] / 255.0);
                    let a = s[3] + f;
                    for k in 0..3 {
                        d[k] = (s[k] * s[3] + d[k] * f) / a;
                    }
                    d[3] = a;
                }
            }
        }
    }
}
struct Lossy {
    chunk: Vec<u8>,
    w: u32,
    h: u32,
    px: Vec<u32>,
}

fn main() {
    let mut c = Check::start("C41", "model_checking", "each case is one WebP file of the model decoded by WebPDecoder (as an image and as an animation) and ImageReader; non-deterministic choices: size, contents, transforms, prefix codes, cache, groups, distances, alpha chunks, frames");
    let q = c.quick;
    let files: [&[u8]; 2] = [include_bytes!("../../corpus/simple-gray.webp"), include_bytes!("../../corpus/simple-rgb.webp")];
    let lossy: Vec<Lossy> = files
        .iter()
        .map(|f| {
            let (w, h, c, v) = dec(f).unwrap();
            assert_eq!(c, ColorType::Rgb8);
            Lossy { chunk: webp_payload(f), w, h, px: v.chunks(3).map(|p| 0xFF000000 | (p[0] as u32) << 16 | (p[1] as u32) << 8 | p[2] as u32).collect() }
        })
        .collect();

    c.explore("coding", "sizes to 9 x 5 (9 x 9), nine contents with and without alpha, four kinds of prefix codes, no colour cache or one of 1, 2, 6 or 11 bits, one or several groups of codes, repetitions at no or ten distances", |ch| {
        let (w, h) = (ch.of(if q { &[1, 2, 3, 5, 9] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9] }), ch.of(if q { &[1, 2, 5] } else { &[1, 2, 3, 4, 5, 7, 9] }));
        let alpha = ch.flag();
        let mut v = Vp8l::new(w, h, fill(ch.pick(9), w, h, alpha));
        v.alpha = alpha;
        v.code = ch.of(&[Vp8lCode::Flat, Vp8lCode::Normal, Vp8lCode::Skew, Vp8lCode::Full]);
        v.cache = ch.of(&[0, 1, 2, 6, 11]);
        v.groups = ch.of(&[None, Some((2, 2)), Some((2, 3)), Some((3, 2))]);
        if ch.flag() {
            let n = w as usize;
            v.distances = vec![1, 2, 3, n, n + 1, n - (n > 1) as usize, 2 * n, 2 * n + 1, 7, n + 5];
        }
        let b = webp_simple(b"VP8L", &v.data());
        ch.state(hash_of(&b));
        ch.steps((w * h) as u64);
        ch.validated();
        ch.sample(|| format!("{v:?}"));
        same(&|| format!("{v:?}"), (w, h, alpha), &v.pixels, &b)
    });
    c.explore("transforms", "all 65 sequences of different transforms, at sizes to 17 x 6, with five contents, three sets of predictor and colour blocks, with colour cache and repetitions", |ch| {
        let (w, h) = ch.of(if q { &[(1, 1), (3, 2), (9, 5), (17, 6)] } else { &[(1, 1), (1, 6), (2, 1), (3, 2), (4, 4), (5, 3), (7, 2), (8, 3), (9, 5), (16, 2), (17, 6), (33, 9)] });
        let (bits, modes): (u32, Vec<u8>) = ch.of(&[(2, (0..14).collect()), (3, vec![11, 13, 5]), (4, vec![12, 10, 1])]);
        let kinds = [Vp8lTransform::Predictor(bits, modes), Vp8lTransform::Color(bits, vec![[3, 200, 128], [255, 1, 77], [0, 0, 127]]), Vp8lTransform::SubtractGreen, Vp8lTransform::Palette];
        let mut left: Vec<usize> = (0..4).collect();
        let mut ts = vec![];
        while !left.is_empty() {
            let k = ch.pick(left.len() + 1);
            if k == left.len() {
                break;
            }
            ts.push(kinds[left.remove(k)].clone());
        }
        let kind = ch.of(&[0, 1, 2, 3, 4, 6]);
        // a palette has 256 entries at most; what comes before it has to leave few colours
        if ts.contains(&Vp8lTransform::Palette) && w * h > 256 {
            return Ok(());
        }
        let alpha = ch.flag();
        let mut v = Vp8l::new(w, h, fill(kind, w, h, alpha));
        v.alpha = alpha;
        v.transforms = ts;
        match ch.pick(3) {
            0 => {}
            1 => {
                v.cache = 4;
                v.code = Vp8lCode::Skew;
                v.distances = vec![1, 2, w as usize];
            }
            _ => {
                v.groups = Some((2, 2));
                v.code = Vp8lCode::Normal;
            }
        }
        let b = webp_simple(b"VP8L", &v.data());
        ch.state(hash_of(&b));
        ch.steps((w * h) as u64);
        ch.validated();
        ch.sample(|| format!("{v:?}"));
        same(&|| format!("{v:?}"), (w, h, alpha), &v.pixels, &b)
    });
    c.explore("operands", "every predictor and every pair of colour elements of a set of ten on an image with all differences; palettes of every size to 256; long repetitions; sizes to 16384", |ch| {
        let (w, h, mut v) = match ch.pick(4) {
            0 => {
                let m = ch.pick(14) as u8;
                let k = ch.pick(if q { 3 } else { 9 });
                let (w, h) = if q { (40, 17) } else { (64, 48) };
                let mut v = Vp8l::new(w, h, fill(k, w, h, true));
                v.transforms = vec![Vp8lTransform::Predictor(ch.range(2, 9) as u32, vec![m])];
                (w, h, v)
            }
            1 => {
                let mut v = Vp8l::new(256, 256, (0..65536).map(|i| 0xFF000000 | i * 0x10001).collect());
                let s: &[u8] = if q { &[0, 1, 127, 128, 224] } else { &[0, 1, 2, 31, 32, 127, 128, 129, 224, 255] };
                v.transforms = vec![Vp8lTransform::Color(9, vec![[ch.of(s), ch.of(s), 0], ])];
                if ch.flag() {
                    v.transforms = vec![Vp8lTransform::Color(9, vec![[ch.of(s), 0, ch.of(s)]])];
                }
                (256, 256, v)
            }
            2 => {
                let n = if q { ch.of(&[1u32, 2, 3, 4, 5, 15, 16, 17, 255, 256]) } else { ch.range(1, 256) as u32 };
                let (w, h) = ch.of(&[(37, 9), (1, 300), (300, 1), (64, 5)]);
                let mut v = Vp8l::new(w, h, (0..w * h).map(|i| mix(if i < n { i } else { mix(i) % n })).collect());
                v.transforms = vec![Vp8lTransform::Palette];
                (w, h, v)
            }
            _ => {
                let (w, h) = ch.of(&[(16384, 1), (1, 16384), (16383, 2), (4097, 3), (255, 257)]);
                let period = ch.of(&[1u32, 2, 3, 100, 4095, 5000]);
                let mut v = Vp8l::new(w, h, (0..w * h).map(|i| mix(i % period) | 0xFF000000).collect());
                v.distances = vec![period as usize, 1, w as usize];
                (w, h, v)
            }
        };
        v.alpha = true;
        let b = webp_simple(b"VP8L", &v.data());
        ch.state(hash_of(&b));
        ch.steps((w * h) as u64);
        ch.validated();
        let what = || format!("{w}x{h} {:?} distances {:?}", v.transforms, v.distances);
        // known: sizes of exactly 16384
        same(&what, (w, h, true), &v.pixels, &b).map_err(|e| if w == 16384 || h == 16384 { Viol::new("webp-16384", e.msg) } else { e })
    });
    c.explore("container", "lossless and lossy images with every combination of flags that fits them, in simple and extended files, with unknown chunks before and after; alpha chunks with every filter, raw and compressed, over lossy images", |ch| {
        let mode = ch.pick(3);
        if mode == 0 {
            // lossless in an extended file
            let (w, h) = (ch.of(&[1, 2, 7]), ch.of(&[1, 3]));
            let alpha = ch.flag();
            let mut v = Vp8l::new(w, h, fill(ch.pick(3), w, h, alpha));
            v.alpha = alpha;
            let mut img = vec![];
            if ch.flag() {
                img.extend(webp_chunk(b"UNKN", &[1, 2, 3]));
            }
            img.extend(webp_chunk(b"VP8L", &v.data()));
            if ch.flag() {
                img.extend(webp_chunk(b"odd ", &[9]));
            }
            let icc = ch.flag().then_some(&b"profile"[..]);
            let exif = ch.flag().then_some(&b"MM\0*\0\0\0\x08\0\0\0\0\0\0"[..]);
            let flags = (alpha as u8) << 4 | (icc.is_some() as u8) << 5 | (exif.is_some() as u8) << 3;
            let f = webp_ext(w, h, flags, icc, None, Some(&img), exif);
            ch.state(hash_of(&f));
            ch.validated();
            return same(&|| format!("extended lossless {w}x{h}, flags {flags:#x}"), (w, h, alpha), &v.pixels, &f);
        }
        let l = &lossy[ch.pick(2)];
        if mode == 1 {
            let f = webp_ext(l.w, l.h, 0, None, None, Some(&l.chunk), None);
            ch.validated();
            return same(&|| "extended lossy".into(), (l.w, l.h, false), &l.px, &f);
        }
        let k = ch.pick(9);
        let plane: Vec<u8> = fill(k, l.w, l.h, true).iter().map(|v| (v >> 11) as u8).collect();
        let filter = ch.pick(4) as u8;
        let packed = ch.flag();
        let w = l.w as usize;
        let at = |i: usize| plane[i];
        let filtered: Vec<u8> = (0..plane.len())
            .map(|i| {
                let (x, y) = (i % w, i / w);
                let p = match (filter, x, y) {
                    (0, _, _) | (_, 0, 0) => 0,
                    (1, 0, _) => at(i - w),
                    (2, _, 0) => at(i - 1),
                    (1, _, _) => at(i - 1),
                    (2, _, _) => at(i - w),
                    (_, 0, _) => at(i - w),
                    (_, _, 0) => at(i - 1),
                    _ => (at(i - 1) as i32 + at(i - w) as i32 - at(i - w - 1) as i32).clamp(0, 255) as u8,
                };
                at(i).wrapping_sub(p)
            })
            .collect();
        let mut d = vec![filter << 2 | packed as u8 | (ch.pick(2) as u8) << 4];
        if packed {
            let mut v = Vp8l::new(l.w, l.h, filtered.iter().map(|a| 0xFF000000 | (*a as u32) << 8).collect());
            match ch.pick(3) {
                0 => {}
                1 => v.transforms = vec![Vp8lTransform::Palette],
                _ => {
                    v.cache = 5;
                    v.distances = vec![1, w];
                }
            }
            d.extend(v.alph());
        } else {
            d.extend(&filtered);
        }
        let mut img = webp_chunk(b"ALPH", &d);
        img.extend(&l.chunk);
        let f = webp_ext(l.w, l.h, 0x10, None, None, Some(&img), None);
        ch.state(hash_of(&f));
        ch.validated();
        let want: Vec<u32> = l.px.iter().zip(&plane).map(|(p, a)| p & 0xFFFFFF | (*a as u32) << 24).collect();
        same(&|| format!("alpha content {k}, filter {filter}, compressed {packed}"), (l.w, l.h, true), &want, &f)
    });
    c.explore("animations", "all sequences of up to three frames: seven places and sizes (three for three frames in the quick tier) on a 6 x 4 canvas, three kinds of contents, disposal, blending, delays; with and without alpha; background colour kept or set", |ch| {
        let (w, h) = (6u32, 4u32);
        let alpha = ch.flag();
        let bg = ch.flag().then_some([10u8, 200, 60, 128]);
        let n = ch.range(1, 3) as usize;
        let all = [(0, 0, 6, 4), (0, 0, 2, 2), (2, 2, 4, 2), (4, 0, 1, 3), (0, 2, 5, 1), (2, 0, 3, 4), (0, 0, 6, 1)];
        let places = &all[..if q && n == 3 { 3 } else { 7 }];
        let mut frames = vec![];
        let mut want: Vec<(Vec<[f64; 4]>, u32, bool)> = vec![];
        let clear = bg.unwrap_or([0; 4]);
        let mut cv = Canvas { w, h, px: vec![clear.map(f64::from); (w * h) as usize], soft: false };
        let mut text = format!("alpha {alpha}, background {bg:?}");
        let mut dispose_rect: Option<(u32, u32, u32, u32)> = None;
        let mut known = false;
        for i in 0..n {
            let r = ch.of(places);
            let kind = ch.pick(if alpha { 3 } else { 1 });
            let p = match kind {
                0 => fill(i, r.2, r.3, false),
                1 => fill(7, r.2, r.3, true),
                _ => fill(i, r.2, r.3, true).iter().map(|v| v & 0xFFFFFF | if v >> 30 == 0 { 0 } else { 0x80000000 }).collect(),
            };
            let dispose = ch.flag();
            let no_blend = if kind > 0 || i == 0 { ch.flag() } else { false };
            let ms = [0u32, 70, 0xFFFFFF][(i + kind + r.0 as usize) % 3];
            let full = r == (0, 0, w, h);
            if let Some(d) = dispose_rect.take() {
                cv.clear(d, clear);
                // image-webp clears the whole canvas before a frame of its size
                if full && !no_blend && d != r {
                    known = true;
                }
            }
            cv.draw(r, &p, !no_blend);
            if dispose {
                dispose_rect = Some(r);
            }
            want.push((cv.px.clone(), ms, known));
            let mut v = Vp8l::new(r.2, r.3, p);
            v.alpha = kind > 0;
            frames.push(WebpFrame { x: r.0, y: r.1, w: r.2, h: r.3, ms, dispose, no_blend, chunk: webp_chunk(b"VP8L", &v.data()) });
            text += &format!("; {r:?} contents {kind} dispose {dispose} no blending {no_blend} {ms} ms");
        }
        let f = webp_ext(w, h, 2 | (alpha as u8) << 4, None, Some((0, 0, &frames)), None, None);
        ch.state(hash_of(&text));
        ch.validated();
        ch.sample(|| text.clone());
        let soft = cv.soft;
        let cmp = |v: &[u8], z: &[[f64; 4]], chans: usize, what: &str| -> Res {
            for (i, (g, z)) in v.chunks(chans).zip(z).enumerate() {
                for k in 0..chans.min(if alpha { 4 } else { 3 }) {
                    let tol = if soft { 2.5 } else { 0.0 };
                    // colours below no alpha at all are nobody's
                    ensure!((g[k] as f64 - z[k]).abs() <= tol || k < 3 && z[3] == 0.0 && alpha && soft, "{text}: {what}, pixel ({}, {}) channel {k}: {} instead of {:.2}", i % 6, i / 6, g[k], z[k]);
                }
                if chans == 4 && !alpha {
                    ensure!(g[3] == 255, "{text}: {what}, pixel {i}: alpha {}", g[3]);
                }
            }
            Ok(())
        };
        let r = (|| -> Res {
            let mut d = catch(|| WebPDecoder::new(Cursor::new(&f))).map_err(|p| format!("{text}: {p}"))?.map_err(|e| format!("{text}: {e}"))?;
            ensure!(d.has_animation(), "{text}: not an animation");
            if let Some(b) = bg {
                d.set_background_color(Rgba(b)).map_err(|e| e.to_string())?;
            }
            let got = catch(|| d.into_frames().collect_frames()).map_err(|p| format!("{text}: PANIC {p}"))?.map_err(|e| format!("{text}: {e}"))?;
            ensure!(got.len() == n, "{text}: {} frames instead of {n}", got.len());
            for (i, (g, z)) in got.iter().zip(&want).enumerate() {
                ensure!(g.delay().numer_denom_ms().0 as f64 / g.delay().numer_denom_ms().1 as f64 == z.1 as f64, "{text}: frame {i} lasts {:?}", g.delay());
                ensure!((g.left(), g.top()) == (0, 0) && g.buffer().dimensions() == (w, h), "{text}: frame {i} is at {},{} of {:?}", g.left(), g.top(), g.buffer().dimensions());
                cmp(g.buffer().as_raw(), &z.0, 4, &format!("frame {i}")).map_err(|e| if z.2 { Viol::new("webp-dispose-full", e.msg) } else { e })?;
            }
            // as an image, it is its first frame
            let mut d = WebPDecoder::new(Cursor::new(&f)).map_err(|e| e.to_string())?;
            if let Some(b) = bg {
                d.set_background_color(Rgba(b)).map_err(|e| e.to_string())?;
            }
            ensure!(d.dimensions() == (w, h) && d.color_type() == if alpha { ColorType::Rgba8 } else { ColorType::Rgb8 }, "{text}: {:?} {:?}", d.dimensions(), d.color_type());
            let mut o = vec![0; d.total_bytes() as usize];
            d.read_image(&mut o).map_err(|e| format!("{text}: {e}"))?;
            cmp(&o, &want[0].0, if alpha { 4 } else { 3 }, "as an image")
        })();
        r
    });
    c.explore("long animations", "up to 300 (thorough: 66000) frames", |ch| {
        let n = ch.of(&[127usize, 128, 129, 255, 256, 257, if q { 300 } else { 66000 }]);
        let frames: Vec<WebpFrame> = (0..n)
            .map(|i| WebpFrame { x: 0, y: 0, w: 2, h: 1, ms: i as u32 * 7, dispose: i % 3 == 0, no_blend: i % 2 == 0, chunk: webp_chunk(b"VP8L", &Vp8l::new(2, 1, fill(i % 50, 2, 1, false)).data()) })
            .collect();
        let f = webp_ext(2, 1, 2, None, Some((0, 0, &frames)), None, None);
        let d = catch(|| WebPDecoder::new(Cursor::new(&f))).map_err(|p| format!("{n}: {p}"))?.map_err(|e| format!("{n}: {e}"))?;
        let got = catch(|| d.into_frames().collect_frames()).map_err(|p| format!("{n}: PANIC {p}"))?.map_err(|e| format!("{n}: {e}"))?;
        ensure!(got.len() == n, "{} frames instead of {n}", got.len());
        for (i, g) in got.iter().enumerate() {
            ensure!(g.delay().numer_denom_ms() == (i as u32 * 7, 1), "frame {i} of {n} lasts {:?}", g.delay());
            let want: Vec<u8> = fill(i % 50, 2, 1, false).iter().flat_map(|v| [(v >> 16) as u8, (v >> 8) as u8, *v as u8, 255]).collect();
            // blending is not exact in image-webp
            ensure!(g.buffer().dimensions() == (2, 1) && g.buffer().as_raw().iter().zip(&want).all(|(g, z)| g.abs_diff(*z) <= 2), "frame {i} of {n} is {:?}, not {want:?}", g.buffer().as_raw());
        }
        ch.steps(n as u64);
        ch.state(hash_of(&n));
        ch.validated();
        Ok(())
    });
    c.explore("lossy frames", "all pairs of frames on a 130 x 104 canvas: lossless, lossy, or lossy with alpha, at four places, disposal and blending", |ch| {
        let (w, h) = (130u32, 104u32);
        let n = ch.range(1, 2) as usize;
        let l = &lossy[1];
        let mut frames = vec![];
        let mut cv = Canvas { w, h, px: vec![[0.0; 4]; (w * h) as usize], soft: false };
        let mut want = vec![];
        let mut dispose_rect: Option<(u32, u32, u32, u32)> = None;
        let mut text = String::new();
        let mut known = "";
        for i in 0..n {
            let kind = ch.pick(3);
            let at = ch.of(&[(0, 0), (30, 4), (2, 0), (16, 2)]);
            let r = (at.0, at.1, l.w, l.h);
            let (chunk, p) = match kind {
                0 => {
                    let v = Vp8l::new(l.w, l.h, fill(3, l.w, l.h, false));
                    (webp_chunk(b"VP8L", &v.data()), v.pixels)
                }
                1 => (l.chunk.clone(), l.px.clone()),
                _ => {
                    let a: Vec<u8> = (0..l.w * l.h).map(|k| if mix(k + i as u32) % 3 == 0 { 0 } else { 255 }).collect();
                    let mut d = vec![0u8];
                    d.extend(&a);
                    let mut c = webp_chunk(b"ALPH", &d);
                    c.extend(&l.chunk);
                    (c, l.px.iter().zip(&a).map(|(p, a)| p & 0xFFFFFF | (*a as u32) << 24).collect())
                }
            };
            let (dispose, no_blend) = (ch.flag(), ch.flag());
            if let Some(d) = dispose_rect.take() {
                cv.clear(d, [0; 4]);
                if kind == 1 {
                    known = "webp-dispose-lossy";
                }
            }
            cv.draw(r, &p, !no_blend);
            if dispose {
                dispose_rect = Some(r);
            }
            want.push((cv.px.clone(), known));
            frames.push(WebpFrame { x: r.0, y: r.1, w: r.2, h: r.3, ms: 20, dispose, no_blend, chunk });
            text += &format!("; at {at:?} kind {kind} dispose {dispose} no blending {no_blend}");
        }
        let f = webp_ext(w, h, 0x12, None, Some((0, 3, &frames)), None, None);
        ch.state(hash_of(&text));
        ch.validated();
        let d = WebPDecoder::new(Cursor::new(&f)).map_err(|e| e.to_string())?;
        let got = catch(|| d.into_frames().collect_frames()).map_err(|p| format!("{text}: PANIC {p}"))?.map_err(|e| format!("{text}: {e}"))?;
        ensure!(got.len() == n, "{text}: {} frames", got.len());
        for (i, (g, z)) in got.iter().zip(&want).enumerate() {
            let v: Vec<u8> = z.0.iter().flatten().map(|v| *v as u8).collect();
            if g.buffer().as_raw().iter().zip(&v).any(|(g, z)| z.abs_diff(*g) > cv.soft as u8) {
                let e = format!("{text}: frame {i}: {}", util::first_diff(g.buffer().as_raw(), &v));
                return viol(if z.1.is_empty() { "pixels" } else { z.1 }, e);
            }
        }
        Ok(())
    });
    c.explore("refused", "every cut of five files; other signatures and versions; frames outside the canvas; missing chunks", |ch| {
        let v = Vp8l::new(5, 3, fill(0, 5, 3, true));
        let one = webp_simple(b"VP8L", &v.data());
        match ch.pick(4) {
            0 => {
                let l = &lossy[0];
                let mut alph = vec![0u8];
                alph.extend(vec![7; (l.w * l.h) as usize]);
                let mut img = webp_chunk(b"ALPH", &alph);
                img.extend(&l.chunk);
                let fr = [WebpFrame { x: 0, y: 0, w: 5, h: 3, ms: 1, dispose: false, no_blend: false, chunk: webp_chunk(b"VP8L", &v.data()) }];
                let files = [one.clone(), webp_ext(5, 3, 0x10, None, None, Some(&webp_chunk(b"VP8L", &v.data())), None), webp_ext(5, 3, 0x12, None, Some((0, 0, &fr)), None, None), webp_ext(l.w, l.h, 0x10, None, None, Some(&img), None)];
                let k = ch.pick(4);
                let f = &files[k];
                // the last bytes of a bit stream and of lossy data may be padding
                let end = if k == 3 { f.len() - l.chunk.len() } else { f.len() - 3 };
                let step = if end > 3000 { 17 } else { 1 };
                for cut in (0..end).step_by(step) {
                    bad(&f[..cut], format!("file {k} cut to {cut} of {}", f.len()))?;
                    ch.step();
                }
            }
            1 => {
                for i in [0usize, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15] {
                    for x in 0..=255u8 {
                        // VP8L with another letter may be a lossy or an extended file
                        if one[i] != x && !(i == 15 && (x == b' ' || x == b'X')) {
                            let mut b = one.clone();
                            b[i] = x;
                            let r = dec(&b);
                            ensure!(r.is_err() && !r.as_ref().unwrap_err().starts_with("PANIC"), "byte {i} = {x}: {r:?}");
                        }
                    }
                }
                for x in (0..=255u8).filter(|x| *x != 0x2F) {
                    let mut b = one.clone();
                    b[20] = x;
                    bad(&b, format!("signature {x}"))?;
                }
                for x in 1..8u8 {
                    let mut b = one.clone();
                    b[24] = b[24] & 0x1F | x << 5;
                    bad(&b, format!("version {x}"))?;
                }
            }
            2 => {
                let (x, y) = (ch.of(&[0u32, 2, 4, 6, 8]), ch.of(&[0u32, 2, 4, 6]));
                let fr = [WebpFrame { x, y, w: 5, h: 3, ms: 1, dispose: false, no_blend: false, chunk: webp_chunk(b"VP8L", &v.data()) }];
                let f = webp_ext(9, 7, 0x12, None, Some((0, 0, &fr)), None, None);
                let ok = x + 5 <= 9 && y + 3 <= 7;
                let r = catch(|| WebPDecoder::new(Cursor::new(&f)).and_then(|d| d.into_frames().collect_frames())).map_err(|p| format!("frame at {x},{y}: {p}"))?;
                ensure!(r.is_ok() == ok, "frame of 5x3 at {x},{y} on 9x7: {:?}", r.map(|f| f.len()));
            }
            _ => {
                bad(&webp_ext(5, 3, 0x10, None, None, None, None), "no image".into())?;
                bad(&webp_ext(5, 3, 0x12, None, Some((0, 0, &[])), None, None), "no frames".into())?;
                bad(&webp_ext(5, 3, 0x10, None, None, Some(&webp_chunk(b"ALPH", &[0; 16])), None), "only alpha".into())?;
                bad(&webp_ext(lossy[0].w, lossy[0].h, 0x10, None, None, Some(&lossy[0].chunk), None), "alpha flag without alpha".into())?;
            }
        }
        Ok(())
    });
    c.finish()
}
