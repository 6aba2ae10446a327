//! C28: JPEG encoding yields close images for every size and quality.
//! TECHNIQUE: exhaustive enumeration of sizes, qualities, colours and block contents over the real encoder; every file is parsed by an independent baseline parser and each quantised coefficient compared with a double-precision DCT of the source, and the library's decoder with a double-precision reconstruction
//! LEVEL: model_checking
//! NOTE: A full block's coefficients may each differ from the exact transform by half the quantiser plus 2 (plus 4 for colours converted in integers); for blocks at the border, whose padding is the encoder's choice, the visible error is bounded by the same budget in the L2 norm. All sizes up to 17x17 (33x33), all 256 qualities, all 64 basis functions at full contrast.
use image::codecs::jpeg::*;
use image::*;
use mc::jpegmodel::*;
use mc::*;
use std::io::Cursor;

fn ycc(p: &[f64]) -> [f64; 3] {
    let (r, g, b) = (p[0], p[1], p[2]);
    [0.299 * r + 0.587 * g + 0.114 * b, -0.168736 * r - 0.331264 * g + 0.5 * b + 128., 0.5 * r - 0.418688 * g - 0.081312 * b + 128.]
}
fn rgb(p: [f64; 3]) -> [f64; 3] {
    let (y, b, r) = (p[0], p[1] - 128., p[2] - 128.);
    [y + 1.402 * r, y - 0.344136 * b - 0.714136 * r, y + 1.772 * b].map(|x| x.clamp(0., 255.))
}

/// Checks a file against the image, which has 1 or 3 channels of 0..=255.
fn check(file: &[u8], w: u32, h: u32, n: usize, px: &[f64], what: &str) -> Result<Parsed, Viol> {
    let p = parse(file).map_err(|e| Viol::new("file", format!("{what}: {e}")))?;
    need!((p.w, p.h) == (w, h), "size", "{what}: the header says {}x{}", p.w, p.h);
    need!(p.comps.len() == n, "size", "{what}: {} components", p.comps.len());
    let at = |x: usize, y: usize| -> [f64; 3] {
        let i = (y * w as usize + x) * n;
        if n == 3 {
            ycc(&px[i..i + 3])
        } else {
            [px[i], 0., 0.]
        }
    };
    let extra = if n == 3 { 4.01 } else { 0. };
    for by in 0..p.bh {
        for bx in 0..p.bw {
            let full = bx * 8 + 8 <= w as usize && by * 8 + 8 <= h as usize;
            for (c, comp) in p.comps.iter().enumerate() {
                let k = &comp.blocks[by * p.bw + bx];
                if full {
                    let mut s = [0.; 64];
                    for i in 0..64 {
                        s[i] = at(bx * 8 + i % 8, by * 8 + i / 8)[c] - 128.;
                    }
                    let d = dct(&s);
                    for i in 0..64 {
                        let e = (d[i] - k[i]).abs();
                        need!(e <= comp.q[i] / 2. + 2. + extra, "coefficient", "{what}: block {bx},{by}, component {c}, coefficient {i}: {} instead of {:.2} (quantiser {})", k[i], d[i], comp.q[i]);
                    }
                } else {
                    let r = idct(k);
                    let mut e2 = 0.;
                    for i in 0..64 {
                        let (x, y) = (bx * 8 + i % 8, by * 8 + i / 8);
                        if x < w as usize && y < h as usize {
                            e2 += (r[i] + 128. - at(x, y)[c]).powi(2);
                        }
                    }
                    let lim: f64 = comp.q.iter().map(|q| (q / 2. + 2. + extra).powi(2)).sum();
                    need!(e2 <= lim, "border", "{what}: block {bx},{by}, component {c}: visible error {:.1} over the budget of {:.1}", e2.sqrt(), lim.sqrt());
                }
            }
        }
    }
    Ok(p)
}
/// The library's decoder gives the double-precision reconstruction.
fn check_decoder(file: &[u8], p: &Parsed, what: &str) -> Res {
    let d = catch(|| load_from_memory_with_format(file, ImageFormat::Jpeg));
    let d = match d {
        Err(e) if e.contains("zune-jpeg-0.4.21/src/mcu.rs:10") && (p.w.max(p.h) >= 65529) => return viol("zune-65529", format!("{what}: {e}")),
        Err(e) => return viol("decoder", format!("{what}: {e}")),
        Ok(Err(e)) => return viol("decoder", format!("{what}: {e}")),
        Ok(Ok(d)) => d,
    };
    let n = p.comps.len();
    need!(d.dimensions() == (p.w, p.h) && d.color() == if n == 1 { ColorType::L8 } else { ColorType::Rgb8 }, "decoder", "{what}: decoded as {:?} {:?}", d.dimensions(), d.color());
    let got = d.as_bytes();
    for by in 0..p.bh {
        for bx in 0..p.bw {
            let r: Vec<[f64; 64]> = p.comps.iter().map(|c| idct(&c.blocks[by * p.bw + bx])).collect();
            for i in 0..64 {
                let (x, y) = (bx * 8 + i % 8, by * 8 + i / 8);
                if x >= p.w as usize || y >= p.h as usize {
                    continue;
                }
                let s = |c: usize| (r[c][i] + 128.).clamp(0., 255.);
                let e = if n == 1 { [s(0), 0., 0.] } else { rgb([s(0), s(1), s(2)]) };
                for c in 0..n {
                    let g = got[(y * p.w as usize + x) * n + c] as f64;
                    let lim = if n == 1 { 2. } else { 5. };
                    need!((g - e[c]).abs() <= lim, "decoder", "{what}: pixel {x},{y} channel {c} is decoded as {g} instead of {:.2}", e[c]);
                }
            }
        }
    }
    Ok(())
}

fn encode(d: &DynamicImage, q: u8) -> Result<Vec<u8>, Viol> {
    let mut o = vec![];
    let (w, h) = d.dimensions();
    match catch(std::panic::AssertUnwindSafe(|| JpegEncoder::new_with_quality(&mut o, q).encode(d.as_bytes(), w, h, d.color().into()))) {
        Ok(Ok(())) => Ok(o),
        r => viol("encode", format!("{w}x{h} {:?} at quality {q}: {r:?}", d.color())),
    }
}
fn floats(d: &DynamicImage) -> Vec<f64> {
    d.as_bytes().iter().map(|x| *x as f64).collect()
}
/// Contents: noise, gradient, extremes, columns, rows, single bright pixel last.
fn content(w: u32, h: u32, color: ColorType, kind: usize) -> DynamicImage {
    let n = color.channel_count() as u32;
    if kind < 4 {
        return pattern(w, h, color, [2usize, 0, 1, 3][kind]).dynamic();
    }
    let mut v = vec![0u8; (w * h * n) as usize];
    for y in 0..h {
        for x in 0..w {
            for c in 0..n {
                v[((y * w + x) * n + c) as usize] = match kind {
                    4 => {
                        if (x + c) % 2 == 0 {
                            255
                        } else {
                            0
                        }
                    }
                    5 => {
                        if (y + c) % 2 == 0 {
                            255
                        } else {
                            0
                        }
                    }
                    6 => {
                        if (x, y) == (w - 1, h - 1) {
                            255
                        } else {
                            0
                        }
                    }
                    _ => {
                        if x == w - 1 || y == h - 1 {
                            0
                        } else {
                            255
                        }
                    }
                };
            }
        }
    }
    Raw { w, h, color, data: v }.dynamic()
}

fn main() {
    let mut c = Check::start("C28", "model_checking", "one execution = one image encoded at one quality, parsed and compared coefficient by coefficient");
    c.hang_after(200);
    let m = if c.quick { 17 } else { 33 };
    let quick = c.quick;
    c.explore("sizes", "all sizes up to 17x17 (33x33) x L8, Rgb8 x 8 contents x 4 (7) qualities", |ch| {
        let (w, h) = (ch.range(1, m) as u32, ch.range(1, m) as u32);
        let color = ch.of(&[ColorType::L8, ColorType::Rgb8]);
        let kind = ch.pick(8);
        let d = content(w, h, color, kind);
        let q = ch.of(if quick { &[100u8, 90, 50, 10] } else { &[100u8, 99, 90, 75, 50, 25, 1] });
        let what = format!("{w}x{h} {color:?} content {kind} at quality {q}");
        let b = encode(&d, q)?;
        let p = check(&b, w, h, color.channel_count() as usize, &floats(&d), &what)?;
        if kind < 4 || w < 10 {
            check_decoder(&b, &p, &what)?;
        }
        ch.state(hash_of(&(w, h, color, kind)));
        ch.outcome(hash_of(&b));
        ch.validated();
        ch.sample(|| format!("{what}: {} bytes", b.len()));
        Ok(())
    });
    c.explore("qualities", "all 256 qualities x L8, Rgb8 x 8 contents at 16x8, 19x13 and 8x8", |ch| {
        let q = ch.pick(256) as u8;
        let color = ch.of(&[ColorType::L8, ColorType::Rgb8]);
        let (w, h) = ch.of(&[(16u32, 8u32), (19, 13), (8, 8)]);
        let kind = ch.pick(8);
        let d = content(w, h, color, kind);
        let what = format!("{w}x{h} {color:?} content {kind} at quality {q}");
        let b = encode(&d, q)?;
        let p = check(&b, w, h, color.channel_count() as usize, &floats(&d), &what)?;
        check_decoder(&b, &p, &what)?;
        // The quantisers, hence the bound, shrink as the quality grows.
        if (1..100).contains(&q) && kind == 0 {
            let better = parse(&encode(&d, q + 1)?).map_err(|e| Viol::new("file", e))?;
            for (a, b) in p.comps.iter().zip(&better.comps) {
                for i in 0..64 {
                    need!(b.q[i] <= a.q[i], "quantiser", "quantiser {i} grows from {} at quality {q} to {}", a.q[i], b.q[i]);
                }
            }
        }
        let max = p.comps.iter().flat_map(|c| c.q).fold(0., f64::max);
        need!(q < 100 || max == 1., "quantiser", "a quantiser of {max} at quality {q}");
        need!(q < 95 || max <= 12., "quantiser", "a quantiser of {max} at quality {q}");
        need!(q < 75 || max <= 64., "quantiser", "a quantiser of {max} at quality {q}");
        need!(q < 50 || max <= 128., "quantiser", "a quantiser of {max} at quality {q}");
        ch.state(hash_of(&(q, color)));
        ch.validated();
        Ok(())
    });
    c.explore("basis", "each of the 64 basis functions x both signs x 4 amplitudes, as signs and as cosines, in each component, next to a block of the opposite extreme", |ch| {
        let (u, v) = (ch.pick(8), ch.pick(8));
        let sign = if ch.flag() { 1. } else { -1. };
        let amp = ch.of(&[127.5, 64., 10., 200.]);
        let hard = ch.flag();
        let which = ch.pick(5);
        let q = ch.of(&[100u8, 97, 50, 1]);
        let f = |x: usize, y: usize| {
            let b = ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.).cos() * ((2 * y + 1) as f64 * v as f64 * std::f64::consts::PI / 16.).cos();
            let b = if hard { b.signum() } else { b };
            (127.5 + sign * amp * b).round().clamp(0., 255.) as u8
        };
        let n = if which == 0 { 1 } else { 3 };
        let mut data = vec![];
        for y in 0..16 {
            for x in 0..16 {
                let s = if (x / 8 + y / 8) % 2 == 0 { f(x % 8, y % 8) } else { 255 - f(x % 8, y % 8) };
                if n == 1 {
                    data.push(s);
                } else {
                    let o = 255 - s;
                    data.extend(match which {
                        1 => [s, 0, 0],
                        2 => [255, s, 255],
                        3 => [0, 0, s],
                        _ => [s, o, s],
                    });
                }
            }
        }
        let d = Raw { w: 16, h: 16, color: if n == 1 { ColorType::L8 } else { ColorType::Rgb8 }, data }.dynamic();
        let what = format!("basis {u},{v} sign {sign} amplitude {amp} hard {hard} in component {which} at quality {q}");
        let b = encode(&d, q)?;
        let p = check(&b, 16, 16, n, &floats(&d), &what)?;
        check_decoder(&b, &p, &what)?;
        ch.state(hash_of(&(u, v, which)));
        ch.outcome(hash_of(&b));
        ch.validated();
        ch.sample(|| what.clone());
        Ok(())
    });
    c.explore("impulses", "single deviating pixels at each of the 64 places of a block x 5 backgrounds x 3 heights x all places of a second one in the thorough tier", |ch| {
        let at = ch.pick(64);
        let bg = ch.of(&[0u8, 255, 128, 127, 60]);
        let v = ch.of(&[0u8, 255, 129]);
        let at2 = if quick { at } else { ch.pick(64) };
        let q = ch.of(&[100u8, 80]);
        let mut data = vec![bg; 64];
        data[at] = v;
        data[at2] = v;
        let d = Raw { w: 8, h: 8, color: ColorType::L8, data }.dynamic();
        let what = format!("{v} at {at}, {at2} on {bg} at quality {q}");
        let b = encode(&d, q)?;
        let p = check(&b, 8, 8, 1, &floats(&d), &what)?;
        check_decoder(&b, &p, &what)
    });
    c.explore("solid colours", "all 4096 colours of 4 bits per channel (and all grays) in 8x8 and 9x9 images at 3 qualities", |ch| {
        let (r, g) = (ch.pick(16), ch.pick(16));
        let q = ch.of(&[100u8, 75, 20]);
        let s = ch.of(&[8u32, 9]);
        for b in 0..16usize {
            let px = Rgb([(r * 17) as u8, (g * 17) as u8, (b * 17) as u8]);
            let d = DynamicImage::from(RgbImage::from_pixel(s, s, px));
            let what = format!("{px:?} {s}x{s} at quality {q}");
            let f = encode(&d, q)?;
            let p = check(&f, s, s, 3, &floats(&d), &what)?;
            check_decoder(&f, &p, &what)?;
            let gray = DynamicImage::from(GrayImage::from_pixel(s, s, Luma([(r * 16 + b) as u8])));
            let f = encode(&gray, q)?;
            let p = check(&f, s, s, 1, &floats(&gray), "gray")?;
            check_decoder(&f, &p, "gray")?;
            ch.steps(2);
        }
        ch.validated();
        Ok(())
    });
    c.explore("long runs", "DC differences and zero runs: 4x4 blocks each solid or with one coefficient, all 6^4 sequences of 4 kinds of block", |ch| {
        let kinds: Vec<usize> = (0..4).map(|_| ch.pick(6)).collect();
        let q = ch.of(&[100u8, 50]);
        let mut data = vec![0u8; 32 * 8];
        for (b, k) in kinds.iter().enumerate() {
            for i in 0..64usize {
                let (x, y) = (i % 8, i / 8);
                let (u, v) = [(0, 0), (0, 0), (0, 0), (7, 7), (3, 5), (0, 2)][*k];
                let s = ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.).cos() * ((2 * y + 1) as f64 * v as f64 * std::f64::consts::PI / 16.).cos();
                data[y * 32 + b * 8 + x] = match k {
                    0 => 0,
                    1 => 255,
                    2 => 128,
                    _ => (128. + 100. * s) as u8,
                };
            }
        }
        let d = Raw { w: 32, h: 8, color: ColorType::L8, data }.dynamic();
        let b = encode(&d, q)?;
        let p = check(&b, 32, 8, 1, &floats(&d), &format!("blocks {kinds:?} at quality {q}"))?;
        check_decoder(&b, &p, &format!("blocks {kinds:?}"))
    });
    c.explore("alpha and entry points", "images with alpha through encode_image (alpha ignored), views, dynamic images, write_to, write_image: the same file as the plain image", |ch| {
        let (w, h) = (ch.range(1, 10) as u32, ch.range(1, 10) as u32);
        let color = ch.of(&[ColorType::L8, ColorType::La8, ColorType::Rgb8, ColorType::Rgba8]);
        let d = pattern(w, h, color, 2).dynamic();
        let plain = if color.has_color() { DynamicImage::from(d.to_rgb8()) } else { DynamicImage::from(d.to_luma8()) };
        let b = encode(&plain, 80)?;
        let run = |k: usize| -> Option<Result<Vec<u8>, String>> {
            let mut o = Cursor::new(vec![]);
            let mut e = JpegEncoder::new_with_quality(&mut o, 80);
            let r = match k {
                0 => match &d {
                    DynamicImage::ImageLuma8(i) => e.encode_image(i),
                    DynamicImage::ImageLumaA8(i) => e.encode_image(i),
                    DynamicImage::ImageRgb8(i) => e.encode_image(i),
                    DynamicImage::ImageRgba8(i) => e.encode_image(i),
                    _ => unreachable!(),
                },
                1 => match &d {
                    DynamicImage::ImageLuma8(i) => e.encode_image(&*imageops::crop_imm(i, 0, 0, w, h)),
                    DynamicImage::ImageLumaA8(i) => e.encode_image(&*imageops::crop_imm(i, 0, 0, w, h)),
                    DynamicImage::ImageRgb8(i) => e.encode_image(&*imageops::crop_imm(i, 0, 0, w, h)),
                    DynamicImage::ImageRgba8(i) => e.encode_image(&*imageops::crop_imm(i, 0, 0, w, h)),
                    _ => unreachable!(),
                },
                2 if color.has_color() => e.encode_image(&d),
                3 if !color.has_alpha() => d.write_with_encoder(e),
                4 if !color.has_alpha() => e.write_image(d.as_bytes(), w, h, color.into()),
                _ => return None,
            };
            Some(r.map(|()| o.into_inner()).map_err(|e| e.to_string()))
        };
        for k in 0..5 {
            match catch(std::panic::AssertUnwindSafe(|| run(k))) {
                Ok(None) => continue,
                Ok(Some(Ok(f))) => need!(f == b, "entry points", "{w}x{h} {color:?} by way {k}: {}", first_diff(&f, &b)),
                r => return viol("entry points", format!("{w}x{h} {color:?} by way {k}: {r:?}")),
            }
            ch.step();
        }
        // What is not 8 bits deep is refused, or as close as anything else.
        if (w, h) == (3, 2) {
            for hi in [ColorType::L16, ColorType::La16, ColorType::Rgb16, ColorType::Rgba16, ColorType::Rgb32F, ColorType::Rgba32F] {
                for kind in 0..5 {
                    let x = pattern(9, 9, hi, kind).dynamic();
                    let mut o = vec![];
                    let mut e = JpegEncoder::new(&mut o);
                    let r = catch(std::panic::AssertUnwindSafe(|| match &x {
                        DynamicImage::ImageLuma16(i) => e.encode_image(i),
                        DynamicImage::ImageLumaA16(i) => e.encode_image(i),
                        DynamicImage::ImageRgb16(i) => e.encode_image(i),
                        DynamicImage::ImageRgba16(i) => e.encode_image(i),
                        DynamicImage::ImageRgb32F(i) => e.encode_image(i),
                        DynamicImage::ImageRgba32F(i) => e.encode_image(i),
                        _ => unreachable!(),
                    }));
                    drop(e);
                    match r {
                        Err(p) => return viol("deep", format!("encode_image of {hi:?}: {p}")),
                        Ok(Err(_)) => {}
                        Ok(Ok(())) => {
                            let y = if hi.has_color() { DynamicImage::from(x.to_rgb8()) } else { DynamicImage::from(x.to_luma8()) };
                            check(&o, 9, 9, if hi.has_color() { 3 } else { 1 }, &floats(&y), &format!("encode_image of {hi:?}")).map_err(|v| v.prefix("deep"))?;
                        }
                    }
                    ch.step();
                }
            }
        }
        Ok(())
    });
    c.explore("limits", "sizes at and beyond 65535, and none: stored or refused", |ch| {
        let (w, h) = ch.of(&[(65535u32, 1u32), (1, 65535), (65528, 2), (3, 65528), (65536, 1), (1, 65536), (65537, 1), (70000, 2), (1, 1 << 20), (0, 0), (0, 5), (5, 0)]);
        let color = ch.of(&[ColorType::L8, ColorType::Rgb8]);
        let d = content(w, h, color, 0);
        let mut o = vec![];
        let r = catch(std::panic::AssertUnwindSafe(|| JpegEncoder::new_with_quality(&mut o, 90).encode(d.as_bytes(), w, h, color.into())));
        let what = format!("{w}x{h} {color:?}");
        ch.state(hash_of(&(w, h)));
        match r {
            Err(p) => viol("limits", format!("{what}: {p}")),
            Ok(Err(e)) => {
                need!(w > 65535 || h > 65535 || w == 0 || h == 0, "limits", "{what} is refused: {e}");
                Ok(())
            }
            Ok(Ok(())) => {
                need!(w > 0 && h > 0, "empty", "{what}: an empty image is written, which JPEG cannot store");
                let p = check(&o, w, h, color.channel_count() as usize, &floats(&d), &what)?;
                check_decoder(&o, &p, &what)
            }
        }
    });
    c.explore("density", "all units x boundary densities: stored in the header, the pixels untouched", |ch| {
        let unit = ch.of(&[PixelDensityUnit::PixelAspectRatio, PixelDensityUnit::Inches, PixelDensityUnit::Centimeters]);
        let vals = [0u16, 1, 72, 255, 256, 300, 65535];
        let (x, y) = (ch.of(&vals), ch.of(&vals));
        let d = content(9, 9, ColorType::Rgb8, 0);
        let mut o = vec![];
        let mut e = JpegEncoder::new_with_quality(&mut o, 90);
        e.set_pixel_density(PixelDensity { density: (x, y), unit });
        e.encode(d.as_bytes(), 9, 9, ExtendedColorType::Rgb8).map_err(|e| Viol::new("density", e.to_string()))?;
        let p = check(&o, 9, 9, 3, &floats(&d), "density")?;
        let mut want = b"JFIF\0\x01\x02".to_vec();
        want.push(match unit {
            PixelDensityUnit::PixelAspectRatio => 0,
            PixelDensityUnit::Inches => 1,
            PixelDensityUnit::Centimeters => 2,
        });
        want.extend(x.to_be_bytes());
        want.extend(y.to_be_bytes());
        want.extend([0, 0]);
        need!(p.app0.as_ref() == Some(&want), "density", "{x}x{y} {unit:?}: the JFIF header holds {:?}", p.app0);
        check_decoder(&o, &p, "density")
    });
    c.finish()
}
