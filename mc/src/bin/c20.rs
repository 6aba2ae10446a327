//! C20: APNG animation compositing against a model of the specification's rules.
//! TECHNIQUE: exhaustive enumeration of all frame sequences up to a depth (rectangle, blend, dispose, content, default image in or out of the animation) on small canvases; every composited canvas is compared with a reference state machine
//! LEVEL: model_checking
//! NOTE: With partly transparent pixels, colours are compared weighted by opacity to within rounding; fully transparent and opaque pixels exactly. 16-bit animations are refused by the library as unsupported.
use image::codecs::png::PngDecoder;
use image::*;
use mc::forge::{apng, ApngFrame};
use mc::*;
use std::io::Cursor;

type Canvas = Vec<[f64; 4]>;
type Raw = (u32, u32, u32, u32, Vec<u8>, (u32, u32));
fn frames(b: &[u8]) -> Result<Vec<Result<Raw, String>>, String> {
    catch(|| -> ImageResult<_> {
        let d = PngDecoder::new(Cursor::new(b))?;
        if !d.is_apng()? {
            return Ok(vec![Err("not recognised as animated".into())]);
        }
        let mut out = vec![];
        for f in d.apng()?.into_frames() {
            match f {
                Ok(f) => {
                    let (l, t, dl) = (f.left(), f.top(), f.delay().numer_denom_ms());
                    let b = f.into_buffer();
                    out.push(Ok((b.width(), b.height(), l, t, b.into_raw(), dl)));
                }
                Err(e) => {
                    out.push(Err(e.to_string()));
                    break;
                }
            }
        }
        Ok(out)
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
fn still(b: &[u8]) -> Result<(u32, u32, ColorType, Vec<u8>), String> {
    catch(|| -> ImageResult<_> {
        let d = PngDecoder::new(Cursor::new(b))?;
        let ((w, h), c) = (d.dimensions(), d.color_type());
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, c, o))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}

/// One frame of the model: rectangle, operations, RGBA pixels.
#[derive(Clone, Debug)]
struct F {
    x: usize,
    y: usize,
    w: usize,
    h: usize,
    dispose: u8,
    blend: u8,
    num: u16,
    den: u16,
    px: Vec<[u8; 4]>,
}
fn over(d: [f64; 4], s: [f64; 4]) -> [f64; 4] {
    let (sa, da) = (s[3] / 255., d[3] / 255.);
    let a = sa + da * (1. - sa);
    if a == 0. {
        return [0.; 4];
    }
    let mut o = [0., 0., 0., a * 255.];
    for k in 0..3 {
        o[k] = (s[k] * sa + d[k] * da * (1. - sa)) / a;
    }
    o
}
/// The reference machine: output of every frame, and whether only exact pixels were involved.
fn model(cw: usize, chh: usize, fs: &[F]) -> Vec<Canvas> {
    let mut buf: Canvas = vec![[0.; 4]; cw * chh];
    let mut out = vec![];
    for (k, f) in fs.iter().enumerate() {
        let before = buf.clone();
        for j in 0..f.h {
            for i in 0..f.w {
                let s = f.px[j * f.w + i].map(|v| v as f64);
                let d = &mut buf[(f.y + j) * cw + f.x + i];
                *d = if f.blend == 0 { s } else { over(*d, s) };
            }
        }
        out.push(buf.clone());
        let dispose = if k == 0 && f.dispose == 2 { 1 } else { f.dispose };
        match dispose {
            0 => {}
            1 => {
                for j in 0..f.h {
                    for i in 0..f.w {
                        buf[(f.y + j) * cw + f.x + i] = [0.; 4];
                    }
                }
            }
            _ => buf = before,
        }
    }
    out
}
fn close(want: &[f64; 4], got: &[u8], depth: usize) -> bool {
    if want[3] == 0. {
        return got[3] == 0;
    }
    let g: Vec<f64> = got.iter().map(|v| *v as f64).collect();
    if (want[3] - g[3]).abs() > 1.01 * depth as f64 {
        return false;
    }
    (0..3).all(|k| (want[k] - g[k]).abs() * want[3] / 255. <= 2.02 * depth as f64)
}
/// Stored rows of the pixels in a PNG colour type.
fn rows(w: usize, px: &[[u8; 4]], color: u8) -> Vec<Vec<u8>> {
    px.chunks(w)
        .map(|r| {
            r.iter()
                .flat_map(|p| match color {
                    0 => vec![p[0]],
                    2 => p[..3].to_vec(),
                    4 => vec![p[0], p[3]],
                    _ => p.to_vec(),
                })
                .collect()
        })
        .collect()
}
fn as_color(p: [u8; 4], color: u8) -> [u8; 4] {
    match color {
        0 => [p[0], p[0], p[0], 255],
        2 => [p[0], p[1], p[2], 255],
        4 => [p[0], p[0], p[0], p[3]],
        _ => p,
    }
}
fn check(ch: &mut Ch, cw: usize, chh: usize, fs: &[F], default: Option<&[[u8; 4]]>, color: u8) -> Res {
    let fs: Vec<F> = fs.iter().map(|f| F { px: f.px.iter().map(|p| as_color(*p, color)).collect(), ..f.clone() }).collect();
    let af: Vec<ApngFrame> = fs
        .iter()
        .map(|f| ApngFrame { x: f.x as u32, y: f.y as u32, w: f.w as u32, h: f.h as u32, dispose: f.dispose, blend: f.blend, num: f.num, den: f.den, rows: rows(f.w, &f.px, color) })
        .collect();
    let dflt = default.map(|d| rows(cw, d, color));
    let b = apng(cw as u32, chh as u32, 8, color, &[], dflt.as_deref(), &af);
    let want = model(cw, chh, &fs);
    let got = frames(&b).map_err(|e| Viol { key: String::new(), msg: format!("{e}: {fs:?}") })?;
    for (i, w) in want.iter().enumerate() {
        ch.state(hash_of(&w.iter().map(|p| p.map(|v| v as i64)).collect::<Vec<_>>()));
        match got.get(i) {
            Some(Ok((gw, gh, l, t, c, dl))) => {
                ensure_eq!((*gw as usize, *gh as usize, *l, *t), (cw, chh, 0, 0), "frame {i} of {fs:?}");
                for (k, p) in w.iter().enumerate() {
                    ensure!(close(p, &c[4 * k..4 * k + 4], i + 1), "frame {i}, pixel {k}: got {:?}, the rules give {p:?}; frames {fs:?}", &c[4 * k..4 * k + 4]);
                }
                let den = if fs[i].den == 0 { 100 } else { fs[i].den } as u64;
                ensure!(dl.1 > 0 && dl.0 as u64 * den == fs[i].num as u64 * 1000 * dl.1 as u64, "frame {i}: delay {dl:?} ms for {}/{} s", fs[i].num, fs[i].den);
            }
            o => return viol("", format!("frame {i} of {}: {o:?}; {fs:?}", fs.len())),
        }
    }
    ensure_eq!(got.len(), fs.len(), "number of frames of {fs:?}");
    ch.sample(|| format!("{fs:?}"));
    ch.validated();
    let d: Vec<[u8; 4]> = default.map(|d| d.to_vec()).unwrap_or_else(|| fs[0].px.clone());
    let (w, h, c, px) = still(&b)?;
    let ec = match color {
        0 => ColorType::L8,
        2 => ColorType::Rgb8,
        4 => ColorType::La8,
        _ => ColorType::Rgba8,
    };
    ensure_eq!((w as usize, h as usize, c), (cw, chh, ec), "still image");
    ensure_eq!(px, rows(cw, &d, color).concat(), "still image of {fs:?}");
    Ok(())
}
fn content(k: usize, n: usize, kind: usize) -> Vec<[u8; 4]> {
    (0..n)
        .map(|i| {
            let c = |m: usize| ((k * 67 + i * 31 + m * 11) % 251 + 1) as u8;
            let a = match kind {
                0 => 255,
                1 => [0, 255][(i + k) % 2],
                2 => [128, 255, 0, 64][(i + k) % 4],
                _ => 0,
            };
            [c(1), c(2), c(3), a]
        })
        .collect()
}
fn frame(ch: &mut Ch, k: usize, rects: &[(usize, usize, usize, usize)], kinds: usize) -> F {
    let (x, y, w, h) = ch.of(rects);
    let kind = ch.pick(kinds);
    F { x, y, w, h, dispose: ch.pick(3) as u8, blend: ch.pick(2) as u8, num: [1, 0, 65535, 3][k % 4], den: [30, 0, 1, 65535][k % 4], px: content(k, w * h, kind) }
}

fn main() {
    let mut c = Check::start("C20", "model_checking", "one execution is one APNG built from the model and decoded frame by frame; every composited canvas, delay, the number of frames and the still image are compared with the reference");
    let full = [(0usize, 0usize, 2usize, 2usize)];
    let rects = [(0, 0, 2, 2), (0, 0, 1, 1), (1, 1, 1, 1), (0, 1, 2, 1), (1, 0, 1, 2)];
    let n = if c.quick { 3 } else { 4 };
    c.explore("sequences", "every sequence of 1..=3 frames on a 2x2 canvas: 5 rectangles x 2 alpha patterns x 3 disposals x 2 blends, default image inside or outside the animation; thorough also 4", |ch| {
        let n = ch.range(1, n) as usize;
        let inside = ch.flag();
        let mut fs = vec![];
        for k in 0..n {
            let r = if n == 4 { &rects[..3] } else { &rects[..] };
            fs.push(frame(ch, k, if k == 0 && !inside { &full } else if k == 0 { &rects[..2] } else { r }, 2));
        }
        let d = content(9, 4, 0);
        check(ch, 2, 2, &fs, if inside { Some(&d) } else { None }, 6)
    });
    let deep = if c.quick { 5 } else { 6 };
    c.explore("deep", "every sequence of 5 (6) frames on a 2x1 canvas: whole or one pixel, sources half transparent, 3 disposals x 2 blends", |ch| {
        let fs: Vec<F> = (0..deep).map(|k| frame(ch, k, if k == 0 { &[(0, 0, 2, 1)] } else { &[(0, 0, 2, 1), (1, 0, 1, 1)] }, 1)).map(|mut f| { f.px.iter_mut().enumerate().for_each(|(i, p)| p[3] = [255, 0][i % 2]); f }).collect();
        check(ch, 2, 1, &fs, None, 6)
    });
    c.explore("alpha", "pairs of frames with partly transparent pixels, every pair of rectangles, blends and disposals; three frames", |ch| {
        let fs: Vec<F> = (0..3).map(|k| frame(ch, k, if k == 0 { &full } else { &rects[..4] }, if k == 0 { 1 } else { 3 })).map(|mut f| { f.px.iter_mut().enumerate().for_each(|(i, p)| if p[3] == 255 { p[3] = [255, 100, 1][i % 3] }); f }).collect();
        check(ch, 2, 2, &fs, None, 6)
    });
    c.explore("over-grid", "source-over of every pair of alphas on a 18-value grid for boundary colours", |ch| {
        let g = [0u8, 1, 2, 15, 16, 64, 85, 100, 127, 128, 129, 170, 192, 200, 240, 253, 254, 255];
        let (a, b) = (ch.of(&g), ch.of(&g));
        let cols = [0u8, 1, 127, 128, 254, 255];
        let mut d = vec![];
        let mut s = vec![];
        for x in cols {
            for y in cols {
                d.push([x, y, 255 - x, a]);
                s.push([y, 255 - y, x, b]);
            }
        }
        let f = |blend, px: &Vec<[u8; 4]>| F { x: 0, y: 0, w: 6, h: 6, dispose: 0, blend, num: 1, den: 1, px: px.clone() };
        check(ch, 6, 6, &[f(0, &d), f(1, &s)], None, 6)
    });
    c.explore("colors", "grey, grey-alpha, RGB and RGBA animations of every canvas up to 3x3 with every sub-rectangle as the second frame", |ch| {
        let color = ch.of(&[0u8, 2, 4, 6]);
        let (cw, chh) = (ch.range(1, 3) as usize, ch.range(1, 3) as usize);
        let (x, y) = (ch.pick(cw), ch.pick(chh));
        let (w, h) = (1 + ch.pick(cw - x), 1 + ch.pick(chh - y));
        let inside = ch.flag();
        let mk = |k: usize, x, y, w: usize, h: usize, dispose, blend| F { x, y, w, h, dispose, blend, num: 2, den: 0, px: content(k, w * h, 1) };
        let d0 = ch.pick(3) as u8;
        let fs = vec![mk(0, 0, 0, cw, chh, d0, 0), mk(1, x, y, w, h, ch.pick(3) as u8, ch.pick(2) as u8), mk(2, 0, 0, 1, 1, 0, 1)];
        let d = content(5, cw * chh, 0);
        check(ch, cw, chh, &fs, if inside { Some(&d) } else { None }, color)
    });
    c.explore("delays", "numerators and denominators over boundary values", |ch| {
        let v = [0u16, 1, 2, 3, 10, 30, 99, 100, 101, 999, 1000, 1001, 32767, 32768, 65534, 65535];
        let fs: Vec<F> = v.iter().map(|den| F { x: 0, y: 0, w: 1, h: 1, dispose: 0, blend: 0, num: 0, den: *den, px: vec![[1, 2, 3, 255]] }).collect();
        let num = ch.of(&v);
        let fs: Vec<F> = fs.into_iter().map(|f| F { num, ..f }).collect();
        check(ch, 1, 1, &fs, None, 6)
    });
    c.explore("long", "up to 65537 (thorough: 70000) frames on a 2x1 canvas in four cycles of disposals and blends; frames 254 to 257, 32766 to 32769 and 65530 to 65537 pixels from the origin of wide and high canvases", |ch| {
        if ch.flag() {
            let n = ch.of(&[127usize, 128, 129, 255, 256, 257, 300, if ch.quick { 65537 } else { 70000 }]);
            let cycle = ch.of(&[[0u8, 0, 0], [0, 2, 1], [1, 2, 2], [1, 0, 2]]);
            let fs: Vec<F> = (0..n)
                .map(|k| {
                    let (x, y, w, h) = if k == 0 { (0, 0, 2, 1) } else { [(0, 0, 2, 1), (1, 0, 1, 1), (0, 0, 1, 1)][k % 3] };
                    F { x, y, w, h, dispose: cycle[k % 3], blend: (k % 2) as u8, num: (k % 65536) as u16, den: 1000, px: content(k % 7, w * h, 1) }
                })
                .collect();
            let d = content(9, 2, 0);
            let separate = ch.flag();
            return check(ch, 2, 1, &fs, separate.then_some(&d[..]), 6);
        }
        let tall = ch.flag();
        let far = ch.of(&[254usize, 255, 256, 257, 32766, 32767, 32768, 32769, 65530, 65535, 65536, 65537]);
        let wide = ch.of(&[1usize, 3, 300]);
        let len = if far < 300 { 600 } else { 66000 };
        let dispose = ch.range(0, 2) as u8;
        let turn = |x: usize, y: usize| if tall { (y, x) } else { (x, y) };
        let mk = |k: usize, at: (usize, usize), size: (usize, usize), dispose| F { x: at.0, y: at.1, w: size.0, h: size.1, dispose, blend: 1, num: 1, den: 1, px: content(k, size.0 * size.1, k.min(1)) };
        let (cw, chh) = turn(len, 2);
        let fs = vec![mk(0, (0, 0), (cw, chh), 0), mk(1, turn(far, 0), turn(wide, 2), dispose), mk(2, turn(far - 1, 1), turn(wide, 1), 0), mk(3, (0, 0), turn(len, 1), 0)];
        check(ch, cw, chh, &fs, None, 6)
    });
    c.explore("count", "declared number of frames 0..=4 against 1..=3 present: as many as declared, then an error or the end, never a panic or extra frames", |ch| {
        let n = ch.range(1, 3) as usize;
        let decl = ch.range(0, 4) as u32;
        let af: Vec<ApngFrame> = (0..n).map(|k| ApngFrame { x: 0, y: 0, w: 1, h: 1, dispose: 0, blend: 0, num: 1, den: 1, rows: vec![vec![k as u8 * 50, 1, 2, 255]] }).collect();
        let mut b = apng(1, 1, 8, 6, &[], None, &af);
        // acTL follows IHDR: 8 + 25 + 8 = 41.
        b[41..45].copy_from_slice(&decl.to_be_bytes());
        let crc = forge::crc32(&b[37..49]);
        b[49..53].copy_from_slice(&crc.to_be_bytes());
        ch.validated();
        match frames(&b) {
            Err(e) => ensure!(!e.starts_with("PANIC"), "{e}"),
            Ok(g) => {
                let good = g.iter().filter(|f| f.is_ok()).count();
                ensure!(decl == 0 || good == n.min(decl as usize), "{n} frames present, {decl} declared, {good} delivered: {g:?}");
                for (k, f) in g.iter().flatten().enumerate() {
                    ensure!(f.4[0] == k as u8 * 50, "frame {k} out of order");
                }
                ensure!(decl == 0 || (good == decl as usize) == g.iter().all(|f| f.is_ok()), "missing frames are not reported: {g:?}");
            }
        }
        Ok(())
    });
    c.finish()
}
