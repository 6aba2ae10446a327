//! C19: GIF animation compositing against a model of the format's rules.
//! TECHNIQUE: exhaustive enumeration of all frame sequences up to a depth (rectangle, disposal, transparency, palette) on small canvases; the composited canvas of every frame is compared with a reference state machine
//! LEVEL: model_checking
//! NOTE: The library documents that it ignores the background colour (cleared areas become transparent), as browsers do; colour channels of fully transparent pixels are not compared.
use image::codecs::gif::GifDecoder;
use image::*;
use mc::forge::{gif, GifFrame};
use mc::*;
use std::io::Cursor;

type Canvas = Vec<[u8; 4]>;
fn norm(v: &[u8]) -> Canvas {
    v.chunks(4).map(|p| if p[3] == 0 { [0; 4] } else { [p[0], p[1], p[2], p[3]] }).collect()
}
fn frames(b: &[u8]) -> Result<Vec<Result<(u32, u32, u32, u32, Canvas, (u32, u32)), String>>, String> {
    catch(|| -> ImageResult<_> {
        let d = GifDecoder::new(Cursor::new(b))?;
        let mut out = vec![];
        for f in d.into_frames() {
            match f {
                Ok(f) => {
                    let (l, t, dl) = (f.left(), f.top(), f.delay().numer_denom_ms());
                    let b = f.into_buffer();
                    out.push(Ok((b.width(), b.height(), l, t, norm(b.as_raw()), dl)));
                }
                Err(e) => {
                    out.push(Err(e.to_string()));
                    break;
                }
            }
        }
        Ok(out)
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
fn still(b: &[u8]) -> Result<(u32, u32, Canvas), String> {
    catch(|| -> ImageResult<_> {
        let d = GifDecoder::new(Cursor::new(b))?;
        let (w, h) = d.dimensions();
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, norm(&o)))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}

fn global() -> Vec<[u8; 3]> {
    (0..16).map(|i| [i * 16 + 1, 200 - i * 3, i]).collect()
}
fn local() -> Vec<[u8; 3]> {
    (0..16).map(|i| [250 - i, i * 5, 77 + i]).collect()
}

/// The reference: draws each frame over what the previous frames left.
fn model(cw: usize, chh: usize, fs: &[GifFrame]) -> Vec<Canvas> {
    let mut left: Canvas = vec![[0; 4]; cw * chh];
    let mut out = vec![];
    for f in fs {
        let pal = f.local.clone().unwrap_or_else(global);
        let mut cur = left.clone();
        let mut area = vec![];
        for j in 0..f.h as usize {
            for i in 0..f.w as usize {
                let (x, y) = (f.x as usize + i, f.y as usize + j);
                if x >= cw || y >= chh {
                    continue;
                }
                area.push(y * cw + x);
                let v = f.pixels[j * f.w as usize + i];
                if f.dispose != 255 && Some(v) == f.transparent {
                    continue;
                }
                let p = pal[v as usize];
                cur[y * cw + x] = [p[0], p[1], p[2], 255];
            }
        }
        out.push(cur.clone());
        match f.dispose {
            2 => {
                left = cur;
                for a in area {
                    left[a] = [0; 4];
                }
            }
            3 => {}
            _ => left = cur,
        }
    }
    out
}
fn check(ch: &mut Ch, cw: usize, chh: usize, fs: &[GifFrame], loops: Option<u16>, bg: u8) -> Res {
    let g = global();
    let needs = fs.iter().any(|f| f.local.is_none());
    let b = gif(cw as u16, chh as u16, if needs { Some(&g) } else { None }, bg, loops, fs);
    let want = model(cw, chh, fs);
    let got = match frames(&b) {
        Ok(g) => g,
        Err(e) => return viol("", e),
    };
    let desc = || fs.iter().map(|f| format!("[{}x{}+{}+{} dispose {} transparent {:?} pixels {:?}]", f.w, f.h, f.x, f.y, f.dispose, f.transparent, f.pixels)).collect::<String>();
    for (i, w) in want.iter().enumerate() {
        ch.state(hash_of(w));
        let f = &fs[i];
        match got.get(i) {
            Some(Ok((gw, gh, l, t, c, dl))) => {
                ensure_eq!((*gw as usize, *gh as usize, *l, *t), (cw, chh, 0, 0), "frame {i} of {}", desc());
                ensure!(c == w, "frame {i} of {}: got {c:?}, the rules give {w:?}", desc());
                let d = if f.dispose == 255 { 0 } else { f.delay as u64 };
                ensure!(dl.0 as u64 == d * 10 * dl.1 as u64 && dl.1 > 0, "frame {i}: delay {dl:?} for {d} hundredths");
            }
            o => return viol("", format!("frame {i} of {}: {o:?}", desc())),
        }
    }
    ensure_eq!(got.len(), fs.len(), "number of frames of {}", desc());
    ch.sample(desc);
    ch.validated();
    match still(&b) {
        Ok((w, h, c)) => {
            ensure_eq!((w as usize, h as usize), (cw, chh), "still image");
            ensure!(c == want[0], "still image of {}: got {c:?}, first frame is {:?}", desc(), want[0]);
        }
        Err(e) => return viol("", format!("still image of {}: {e}", desc())),
    }
    Ok(())
}
/// Pixel values of frame `k`: opaque, checkered with the transparent index, all transparent.
fn content(k: usize, w: u16, h: u16, kind: usize) -> (Option<u8>, Vec<u8>) {
    let t = 15u8;
    let px = (0..w as usize * h as usize)
        .map(|i| if kind == 2 || (kind == 1 && (i + i / w as usize) % 2 == 0) { t } else { ((i * 3 + k * 5) % 15) as u8 })
        .collect();
    // Kind 3: opaque although the transparent index occurs as a colour without the flag.
    (if kind == 0 { None } else { Some(t) }, px)
}
fn frame(ch: &mut Ch, k: usize, rects: &[(u16, u16, u16, u16)], kinds: usize) -> GifFrame {
    let (x, y, w, h) = ch.of(rects);
    let (transparent, pixels) = content(k, w, h, ch.pick(kinds));
    GifFrame { x, y, w, h, dispose: ch.pick(4) as u8, transparent, delay: [0, 1, 7, 65535][k % 4], local: if k % 2 == 1 { Some(local()) } else { None }, interlaced: k == 2, pixels }
}

fn main() {
    let mut c = Check::start("C19", "model_checking", "one execution is one GIF animation generated from the model and decoded frame by frame; every composited canvas and delay is compared with the reference");

    let rects = [(0, 0, 2, 2), (0, 0, 1, 1), (1, 1, 1, 1), (0, 1, 2, 1), (1, 0, 1, 2), (1, 0, 3, 1), (1, 1, 2, 3), (2, 0, 1, 1), (5, 5, 2, 2)];
    c.explore("sequences", "every sequence of 1..=3 frames on a 2x2 canvas: 9 rectangles (inside, crossing and outside the canvas) x 3 transparency patterns x 4 disposals", |ch| {
        let n = ch.range(1, 3) as usize;
        let fs: Vec<_> = (0..n).map(|k| frame(ch, k, &rects, 3)).collect();
        check(ch, 2, 2, &fs, None, 0)
    });
    let d = if c.quick { 4 } else { 5 };
    let few = [(0, 0, 2, 1), (0, 0, 1, 1), (1, 0, 1, 1), (1, 0, 2, 2)];
    let few = if c.quick { &few[..] } else { &few[..3] };
    c.explore("deep", "every sequence of 4 (5) frames on a 2x1 canvas: 4 (3) rectangles x opaque or checkered x 4 disposals", |ch| {
        let fs: Vec<_> = (0..d).map(|k| frame(ch, k, few, 2)).collect();
        check(ch, 2, 1, &fs, Some(0), 3)
    });
    c.explore("pairs", "every pair of frames at every position and size around a 3x3 canvas", |ch| {
        let mut fs = vec![];
        for k in 0..2 {
            let (x, y) = if k == 0 { (ch.range(0, 1), ch.range(0, 1)) } else { (ch.range(0, 4), ch.range(0, 4)) };
            let (w, h) = if k == 0 { (ch.range(2, 3), ch.range(2, 3)) } else { (ch.range(1, 4), ch.range(1, 4)) };
            let (transparent, pixels) = content(k, w as u16, h as u16, 1);
            fs.push(GifFrame { x: x as u16, y: y as u16, w: w as u16, h: h as u16, dispose: if k == 0 { ch.range(1, 3) as u8 } else { 1 }, transparent, delay: 3, local: None, interlaced: false, pixels });
        }
        check(ch, 3, 3, &fs, Some(2), 1)
    });
    c.explore("first-frame", "still image and first frame of every position and size of a frame on canvases of 1..=4 by 1..=4, transparent or not", |ch| {
        let (cw, chh) = (ch.range(1, 4) as usize, ch.range(1, 4) as usize);
        let (x, y, w, h) = (ch.range(0, 4) as u16, ch.range(0, 4) as u16, ch.range(1, 5) as u16, ch.range(1, 5) as u16);
        let (transparent, pixels) = content(0, w, h, ch.pick(2));
        let f = GifFrame { x, y, w, h, dispose: 0, transparent, delay: 3, local: None, interlaced: ch.flag(), pixels };
        check(ch, cw, chh, &[f], None, 0)
    });
    c.explore("extreme-frames", "frames whose position and size reach the ends of the 16-bit range: clipped, never a panic", |ch| {
        let v = [0u16, 1, 2, 255, 32767, 32768, 65534, 65535];
        let (x, y) = (ch.of(&v), ch.of(&v));
        let (w, h) = ch.of(&[(1u16, 1u16), (2, 2), (300, 1), (1, 300), (65535, 1), (1, 65535)]);
        let mut fs = vec![];
        for k in 0..2 {
            let (transparent, pixels) = content(k, w, h, 0);
            fs.push(GifFrame { x: if k == 0 { x } else { 0 }, y: if k == 0 { y } else { 0 }, w, h, dispose: 2, transparent, delay: 1, local: None, interlaced: false, pixels });
        }
        check(ch, 2, 3, &fs, None, 0)
    });
    c.explore("long", "up to 65537 (thorough: 70000) frames on a 2x1 canvas in four cycles of disposals; frames 254 to 257, 32766 to 32769 and 65530 to 65534 pixels from the origin of wide and high canvases", |ch| {
        if ch.flag() {
            let n = ch.of(&[127usize, 128, 129, 255, 256, 257, 300, if ch.quick { 65537 } else { 70000 }]);
            let cycle = ch.of(&[[1u8, 1, 1], [1, 3, 2], [3, 3, 1], [2, 0, 3]]);
            let fs: Vec<_> = (0..n)
                .map(|k| {
                    let (x, y, w, h) = few[k % 3];
                    let (transparent, pixels) = content(k % 7, w, h, k % 2);
                    GifFrame { x, y, w, h, dispose: cycle[k % 3], transparent, delay: (k % 65536) as u16, local: if k % 5 == 1 { Some(local()) } else { None }, interlaced: false, pixels }
                })
                .collect();
            return check(ch, 2, 1, &fs, Some(0), 3);
        }
        let tall = ch.flag();
        let far = ch.of(&[254u16, 255, 256, 257, 32766, 32767, 32768, 32769, 65530, 65533, 65534]);
        let (len, wide) = (if far < 300 { 600 } else { 65535usize }, ch.of(&[1u16, 3, 300]));
        let dispose = ch.range(0, 3) as u8;
        let turn = |x: u16, y: u16| if tall { (y, x) } else { (x, y) };
        let mk = |k: usize, at: (u16, u16), size: (u16, u16), dispose| {
            let (transparent, pixels) = content(k, size.0, size.1, k.min(1));
            GifFrame { x: at.0, y: at.1, w: size.0, h: size.1, dispose, transparent, delay: 1, local: None, interlaced: false, pixels }
        };
        let (cw, chh) = turn(len as u16, 2);
        let fs = vec![mk(0, (0, 0), (cw, chh), 1), mk(1, turn(far, 0), turn(wide, 2), dispose), mk(2, turn(far - 1, 1), turn(wide, 1), 1), mk(3, (0, 0), turn(len as u16, 1), 1)];
        check(ch, cw as usize, chh as usize, &fs, None, 0)
    });
    c.explore("no-control", "sequences of 3 frames with and without a graphic control extension", |ch| {
        let mut fs = vec![];
        for k in 0..3 {
            let mut f = frame(ch, k, &rects[..3], 2);
            if ch.flag() {
                f.dispose = 255;
            }
            fs.push(f);
        }
        check(ch, 2, 2, &fs, None, 0)
    });
    c.explore("delays", "all 65536 delays", |ch| {
        let hi = ch.range(0, 255) as u16;
        let fs: Vec<_> = (0..256u16).map(|lo| GifFrame { x: 0, y: 0, w: 1, h: 1, dispose: 1, transparent: None, delay: hi << 8 | lo, local: None, interlaced: false, pixels: vec![(lo % 15) as u8] }).collect();
        check(ch, 1, 1, &fs, None, 0)
    });
    c.explore("damaged", "every prefix and every byte set to 0, 255 and complemented of a three-frame animation: frames so far are right or an error is given, never a panic", |ch| {
        let fs: Vec<_> = (0..3).map(|k| { let (transparent, pixels) = content(k, 2, 1, 1); GifFrame { x: 0, y: k as u16 % 2, w: 2, h: 1, dispose: 1 + k as u8, transparent, delay: 2, local: None, interlaced: false, pixels } }).collect();
        let mut b = gif(2, 2, Some(&global()), 0, None, &fs);
        let i = ch.pick(b.len());
        let how = ch.pick(4);
        match how {
            0 => b.truncate(i),
            1 => b[i] = 0,
            2 => b[i] = 255,
            _ => b[i] ^= 255,
        }
        ch.validated();
        let r = frames(&b);
        if let Err(e) = &r {
            ensure!(!e.starts_with("PANIC"), "{e}");
        }
        if let (0, Ok(g)) = (how, &r) {
            let want = model(2, 2, &fs);
            for (k, f) in g.iter().enumerate() {
                if let Ok(f) = f {
                    ensure!(want.get(k) == Some(&f.4), "cut at {i}: frame {k} is {:?}", f.4);
                }
            }
        }
        let s = still(&b);
        if let Err(e) = &s {
            ensure!(!e.starts_with("PANIC"), "{e}");
        }
        Ok(())
    });
    c.finish()
}
