//! C38: GIF files decode to the colours they define, and encoding keeps up to 256 colours exactly.
//! TECHNIQUE: exhaustive enumeration of colour tables, interlacing, codings, extension blocks and sizes from a model of GIF decoded by the real decoder, and of frame sequences (positions, transparency, delays, repetition) encoded by the real encoder and decoded again
//! LEVEL: model_checking
//! NOTE: Composition of overlapping frames is C19; indices outside the colour table are left open by the format and not judged. Encoded frames with more than 256 colours are checked for shape and transparency only.
use image::codecs::gif::{GifDecoder, GifEncoder, Repeat};
use image::*;
use mc::forge::B;
use mc::*;
use std::io::Cursor;

type Out = Result<(u32, u32, Vec<u8>), String>;
fn dec(b: &[u8]) -> Out {
    catch(|| -> ImageResult<_> {
        let d = GifDecoder::new(Cursor::new(b))?;
        let (w, h) = d.dimensions();
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, o))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
fn dec_open(b: &[u8]) -> Out {
    let d = catch(|| ImageReader::new(Cursor::new(b)).with_guessed_format().unwrap().decode()).map_err(|p| format!("PANIC {p}"))?.map_err(|e| e.to_string())?;
    ensure_rgba(&d)?;
    Ok((d.width(), d.height(), d.as_bytes().to_vec()))
}
fn ensure_rgba(d: &DynamicImage) -> Result<(), String> {
    if d.color() == ColorType::Rgba8 { Ok(()) } else { Err(format!("decoded as {:?}", d.color())) }
}
/// Width, height, pixels and delay (as the decoder gives it) of every frame.
type Frames = Vec<(u32, u32, Vec<u8>, (u32, u32))>;
fn dec_frames(b: &[u8]) -> Result<Frames, String> {
    catch(|| -> ImageResult<Frames> {
        GifDecoder::new(Cursor::new(b))?
            .into_frames()
            .map(|f| {
                let f = f?;
                let d = f.delay().numer_denom_ms();
                assert_eq!((f.left(), f.top()), (0, 0));
                let i = f.into_buffer();
                Ok((i.width(), i.height(), i.into_raw(), d))
            })
            .collect()
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
fn same(what: &str, w: u32, h: u32, want: &[u8], bytes: &[u8]) -> Res {
    for (via, got) in [("GifDecoder", dec(bytes)), ("ImageReader", dec_open(bytes)), ("frames", dec_frames(bytes).and_then(|f| f.first().map(|f| (f.0, f.1, f.2.clone())).ok_or("no frame".to_string())))] {
        let (a, b, v) = match got {
            Ok(g) => g,
            Err(e) => return viol(if e.starts_with("PANIC") { "panic" } else { "refused" }, format!("{what} through {via}: {e}")),
        };
        need!((a, b) == (w, h), "size", "{what} through {via}: {a}x{b} instead of {w}x{h}");
        // the colour of a transparent pixel is not defined
        let bad = (0..want.len() / 4).find(|&i| {
            let (x, y) = (&v[4 * i..4 * i + 4], &want[4 * i..4 * i + 4]);
            x[3] != y[3] || (y[3] != 0 && x != y)
        });
        if let Some(i) = bad {
            return viol("pixels", format!("{what} through {via}: pixel {i} is {:?} instead of {:?}", &v[4 * i..4 * i + 4], &want[4 * i..4 * i + 4]));
        }
    }
    Ok(())
}
#[derive(Clone, Debug)]
struct Gif {
    v87: bool,
    w: u16,
    h: u16,
    global: Option<Vec<[u8; 3]>>,
    local: Option<Vec<[u8; 3]>>,
    transparent: Option<u8>,
    interlaced: bool,
    /// Extra bits of the screen's and the frame's flags, background index and aspect ratio.
    bits: (u8, u8, u8, u8),
    min: Option<u8>,
    clear_every: usize,
    deferred: bool,
    block: usize,
    before: Vec<u8>,
    between: Vec<u8>,
    after: Vec<u8>,
    px: Vec<u8>,
    /// Screen and position, where they are not those of the frame.
    screen: Option<(u16, u16)>,
    at: (u16, u16),
}
fn table_bits(n: usize) -> u8 {
    (1..=8).find(|b| 1usize << b >= n).unwrap()
}
impl Gif {
    fn new(w: u16, h: u16, global: Vec<[u8; 3]>, px: Vec<u8>) -> Gif {
        Gif { v87: false, w, h, global: Some(global), local: None, transparent: None, interlaced: false, bits: (0x70, 0, 0, 0), min: None, clear_every: 0, deferred: false, block: 255, before: vec![], between: vec![], after: vec![], px, screen: None, at: (0, 0) }
    }
    fn table(b: &mut B, t: &[[u8; 3]]) {
        for i in 0..1usize << table_bits(t.len()) {
            b.raw(&t.get(i).copied().unwrap_or([9, 9, 9]));
        }
    }
    fn file(&self) -> Vec<u8> {
        let mut b = B::default();
        b.raw(if self.v87 { b"GIF87a" } else { b"GIF89a" }).le16(self.canvas().0).le16(self.canvas().1);
        b.u8(self.bits.0 | self.global.as_ref().map_or(0, |g| 0x80 | (table_bits(g.len()) - 1))).u8(self.bits.2).u8(self.bits.3);
        if let Some(g) = &self.global {
            Self::table(&mut b, g);
        }
        b.raw(&self.before);
        if let Some(t) = self.transparent {
            b.raw(&[0x21, 0xF9, 4, 1, 0, 0, t, 0]);
        }
        b.raw(&self.between);
        b.u8(0x2C).le16(self.at.0).le16(self.at.1).le16(self.w).le16(self.h);
        b.u8(self.bits.1 | (self.interlaced as u8) << 6 | self.local.as_ref().map_or(0, |g| 0x80 | (table_bits(g.len()) - 1)));
        if let Some(g) = &self.local {
            Self::table(&mut b, g);
        }
        let n = self.local.as_ref().or(self.global.as_ref()).map_or(2, |g| g.len());
        let min = self.min.unwrap_or(table_bits(n).max(2));
        b.u8(min);
        let (w, h) = (self.w as usize, self.h as usize);
        let px: Vec<u8> = if self.interlaced {
            [(0, 8), (4, 8), (2, 4), (1, 2)].into_iter().flat_map(|(s, d)| (s..h).step_by(d)).flat_map(|y| self.px[y * w..(y + 1) * w].to_vec()).collect()
        } else {
            self.px.clone()
        };
        for c in forge::gif_lzw(min, &px, self.clear_every, self.deferred).chunks(self.block) {
            b.u8(c.len() as u8).raw(c);
        }
        b.u8(0).raw(&self.after).u8(0x3B);
        b.0
    }
    fn canvas(&self) -> (u16, u16) {
        self.screen.unwrap_or((self.w, self.h))
    }
    fn want(&self) -> Vec<u8> {
        let t = self.local.as_ref().or(self.global.as_ref()).unwrap();
        let (cw, ch) = self.canvas();
        let mut o = vec![0; cw as usize * ch as usize * 4];
        for y in 0..self.h as usize {
            for x in 0..self.w as usize {
                let (u, v) = (x + self.at.0 as usize, y + self.at.1 as usize);
                let i = self.px[y * self.w as usize + x];
                if u < cw as usize && v < ch as usize {
                    let c = t.get(i as usize).copied().unwrap_or([9, 9, 9]);
                    o[(v * cw as usize + u) * 4..][..4].copy_from_slice(&[c[0], c[1], c[2], if self.transparent == Some(i) { 0 } else { 255 }]);
                }
            }
        }
        o
    }
    fn check(&self, what: &str) -> Res {
        let (w, h) = self.canvas();
        same(what, w as u32, h as u32, &self.want(), &self.file())
    }
}
fn mix(x: u32) -> u32 {
    let mut v = x.wrapping_mul(0x9E3779B1) ^ 0x1234567;
    v ^= v >> 15;
    v = v.wrapping_mul(0x2C1B3C6D);
    v ^ v >> 12
}
fn pal(n: usize, k: u8) -> Vec<[u8; 3]> {
    (0..n).map(|i| [i as u8 ^ k, 255 - i as u8, (i * 37 % 256) as u8 ^ k]).collect()
}
fn encode(frames: &[Frame], speed: i32, repeat: Option<Repeat>) -> Result<Vec<u8>, String> {
    catch(|| -> ImageResult<Vec<u8>> {
        let mut o = vec![];
        {
            let mut e = GifEncoder::new_with_speed(&mut o, speed);
            if let Some(r) = repeat {
                e.set_repeat(r)?;
            }
            for f in frames {
                e.encode_frame(f.clone())?;
            }
        }
        Ok(o)
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
/// What a canvas shows of a frame: transparent outside it and where its alpha is zero, opaque elsewhere.
fn shown(w: u32, h: u32, f: &Frame) -> Vec<u8> {
    let (l, t) = (f.left(), f.top());
    let i = f.buffer();
    let mut o = vec![0; (w * h * 4) as usize];
    for y in 0..h {
        for x in 0..w {
            if x >= l && y >= t && x - l < i.width() && y - t < i.height() {
                let p = i.get_pixel(x - l, y - t).0;
                if p[3] > 0 {
                    o[((y * w + x) * 4) as usize..][..4].copy_from_slice(&[p[0], p[1], p[2], 255]);
                }
            }
        }
    }
    o
}
fn agree(what: &str, got: &[u8], want: &[u8], w: u32) -> Res {
    need!(got.len() == want.len(), "size", "{what}: {} bytes instead of {}", got.len(), want.len());
    for i in 0..want.len() / 4 {
        let (x, y) = (&got[4 * i..4 * i + 4], &want[4 * i..4 * i + 4]);
        need!(x[3] == y[3] && (y[3] == 0 || x == y), "pixels", "{what}: pixel ({}, {}) is {x:?} instead of {y:?}", i as u32 % w, i as u32 / w);
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C38", "model_checking", "each case is one file from an independent model of GIF decoded three ways, or one sequence of frames encoded and decoded again; non-deterministic choices: tables, transparency, interlacing, coding, blocks, sizes, frame sizes, positions, colours, delays");
    let q = c.quick;
    c.explore("tables", "colour tables of every length 2..=256, global, local or both (the local one wins), every index used, each of several or no transparent index, interlaced or not", |ch| {
        let n = ch.range(2, 256) as usize;
        let place = ch.pick(3);
        let t = ch.of(&[None, Some(0usize), Some(1), Some(n / 2), Some(n - 1)]);
        let w = n.min(13) as u16;
        let h = n.div_ceil(w as usize) as u16;
        let mut g = Gif::new(w, h, pal(n, 0), (0..w as usize * h as usize).map(|i| (i % n) as u8).collect());
        g.interlaced = ch.flag();
        g.transparent = t.map(|t| t as u8);
        match place {
            0 => {}
            1 => g.local = g.global.take(),
            _ => g.local = Some(pal(n, 0x55)),
        }
        g.bits.2 = (n - 1) as u8;
        ch.state(hash_of(&(n, place, t, g.interlaced)));
        let b = g.file();
        ch.outcome(hash_of(&b));
        ch.validated();
        ch.sample(|| format!("table of {n}, place {place}, transparent {t:?}"));
        g.check(&format!("table of {n} ({}), transparent {t:?}, interlaced {}", ["global", "local", "both"][place], g.interlaced))
    });
    c.explore("both tables", "a global and a local table of all pairs of sizes 2, 4 .. 256: the local one counts", |ch| {
        let (a, b) = (1usize << ch.range(1, 8), 1usize << ch.range(1, 8));
        let mut g = Gif::new(16, (b as u16).div_ceil(16), pal(a, 0), (0..16 * b.div_ceil(16)).map(|i| (i % b) as u8).collect());
        g.local = Some(pal(b, 0xAA));
        g.transparent = ch.of(&[None, Some((b - 1) as u8)]);
        g.check(&format!("global table of {a}, local of {b}"))
    });
    c.explore("sizes", "every size 1..=40 x 1..=20, interlaced or not, transparent or not; and one-pixel-high or -wide up to 65535", |ch| {
        let long = ch.flag();
        let (w, h) = if long {
            let n = ch.of(&[255u16, 256, 257, 1000, 4096, 32767, 32768, 65535]);
            if ch.flag() { (n, 1) } else { (1, n) }
        } else {
            (ch.range(1, 20) as u16, ch.range(1, 40) as u16)
        };
        let n = w as usize * h as usize;
        let mut g = Gif::new(w, h, pal(16, 0), (0..n).map(|i| (mix(i as u32) & 15) as u8).collect());
        g.interlaced = ch.flag();
        g.transparent = ch.of(&[None, Some(3)]);
        ch.state(hash_of(&(w, h, g.interlaced, g.transparent)));
        ch.steps(n as u64);
        g.check(&format!("{w}x{h} interlaced {} transparent {:?}", g.interlaced, g.transparent))
    });
    c.explore("placement", "a frame of every size 1..=4 x 1..=4 at every position 0..=4 x 0..=4 and at the ends of the range, on every screen of up to 4x4: inside, crossing and outside it, transparent or not, interlaced or not", |ch| {
        let (sw, sh) = (ch.range(1, 4) as u16, ch.range(1, 4) as u16);
        let (w, h) = (ch.range(1, 4) as u16, ch.range(1, 4) as u16);
        let pos = [0u16, 1, 2, 3, 4, 255, 256, 65534, 65535];
        let at = (ch.of(&pos), ch.of(&pos));
        let mut g = Gif::new(w, h, pal(16, 0), (0..w * h).map(|i| i as u8).collect());
        g.screen = Some((sw, sh));
        g.at = at;
        g.transparent = ch.of(&[None, Some(1)]);
        g.interlaced = (w + h + sw) % 2 == 0;
        ch.state(hash_of(&(sw, sh, w, h, at)));
        ch.validated();
        g.check(&format!("{w}x{h} at {at:?} on {sw}x{sh}, transparent {:?}", g.transparent))
    });
    c.explore("coding", "minimal code sizes from the table's to 8, clear codes every 1..=24 codes, when the table is full or never, sub-blocks of 1..=255 bytes, contents flat, periodic and noisy up to 30000 pixels", |ch| {
        let bits = ch.of(&[1u8, 2, 4, 8]);
        let n = 1usize << bits;
        let kind = ch.pick(3);
        let part = ch.pick(3);
        let mut g = match part {
            0 => {
                let mut g = Gif::new(23, 17, pal(n, 0), vec![]);
                g.min = Some(ch.range(bits.max(2) as i64, 8) as u8);
                g.clear_every = ch.range(0, 24) as usize;
                g
            }
            1 => {
                let mut g = Gif::new(23, 17, pal(n, 0), vec![]);
                g.block = ch.range(1, 255) as usize;
                g
            }
            _ => {
                let mut g = Gif::new(if q { 200 } else { 300 }, ch.of(&[20, 50, 100, 150]), pal(n, 0), vec![]);
                g.deferred = ch.flag();
                g.min = Some(ch.range(bits.max(2) as i64, 8) as u8);
                g.interlaced = ch.flag();
                g
            }
        };
        let m = g.w as usize * g.h as usize;
        g.px = (0..m)
            .map(|i| match kind {
                0 => (i / 97 % n) as u8,
                1 => (i * i / 7 % 5 % n) as u8,
                _ => (mix(i as u32) as usize % n) as u8,
            })
            .collect();
        ch.steps(m as u64);
        let b = g.file();
        ch.outcome(hash_of(&b));
        g.check(&format!("{n} colours {}x{} content {kind}: min {:?} clear every {} deferred {} blocks of {}", g.w, g.h, g.min, g.clear_every, g.deferred, g.block))
    });
    c.explore("blocks", "version 87a or 89a, sort and reserved flags, background index, aspect ratio, and comment, application and plain-text extensions (empty, one and several sub-blocks) before, between and after: the image is unaffected", |ch| {
        let mut g = Gif::new(5, 4, pal(7, 0), (0..20).map(|i| i % 7).collect());
        let exts: [&[u8]; 7] = [
            b"",
            b"\x21\xFE\x05hello\x00",
            b"\x21\xFE\x00",
            b"\x21\xFE\x01a\x02bc\x03def\x00",
            b"\x21\xFF\x0BNETSCAPE2.0\x03\x01\x05\x00\x00",
            b"\x21\xFF\x0BXMP DataXMP\x04abcd\x00",
            b"\x21\x01\x0C\x00\x00\x00\x00\x01\x00\x01\x00\x01\x01\x00\x00\x02hi\x00",
        ];
        g.v87 = ch.flag();
        g.before = ch.of(&exts).to_vec();
        g.between = ch.of(&exts).to_vec();
        g.after = ch.of(&exts).to_vec();
        g.transparent = ch.of(&[None, Some(2)]);
        g.bits = ch.of(&[(0x70, 0, 0, 0), (0x78, 0x20, 6, 49), (0, 0, 255, 255), (0x7F & 0x78, 0x38 & 0x20, 1, 1)]);
        // a plain-text extension takes the control extension before it
        if g.transparent.is_some() && g.between.starts_with(b"\x21\x01") {
            g.transparent = None;
        }
        ch.state(hash_of(&g.file()));
        let empty = |b: &[u8]| b == b"\x21\xFE\x00";
        if empty(&g.before) || empty(&g.between) || empty(&g.after) {
            return g.check(&format!("{g:?}")).map_err(|e| if e.key == "refused" { Viol::new("gif-empty-extension", e.msg) } else { e });
        }
        g.check(&format!("{g:?}"))
    });
    c.explore("refused", "files of no frame, without any colour table, with minimal code sizes beyond 12, other signatures, and cut before the pixels are complete", |ch| {
        let kind = ch.pick(4);
        let bad = |b: &[u8], what: String| -> Res {
            for (via, r) in [("GifDecoder", dec(b)), ("ImageReader", dec_open(b))] {
                match r {
                    Ok(g) => return viol("accepted", format!("{what} through {via}: decoded as {}x{}", g.0, g.1)),
                    Err(e) => ensure!(!e.starts_with("PANIC"), "{what} through {via}: {e}"),
                }
            }
            Ok(())
        };
        let g = Gif::new(5, 4, pal(7, 0), (0..20).map(|i| i % 7).collect());
        match kind {
            0 => {
                let mut b = g.file();
                b.truncate(13 + 24);
                b.push(0x3B);
                bad(&b, "no frame".into())
            }
            1 => {
                let mut x = g.clone();
                x.global = None;
                bad(&x.file(), "no colour table".into())
            }
            2 => {
                for i in 0..6 {
                    for v in 0..=255u8 {
                        let mut b = g.file();
                        if b[i] == v || (i == 4 && (v == b'7' || v == b'9')) {
                            continue;
                        }
                        b[i] = v;
                        bad(&b, format!("signature byte {i} = {v}"))?;
                        ch.step();
                    }
                }
                Ok(())
            }
            _ => {
                let mut x = g.clone();
                x.interlaced = ch.flag();
                x.block = ch.of(&[255, 1, 3]);
                let b = x.file();
                // the end code, the last block's end and the trailer are what a decoder may do without
                let spare = if x.block == 1 { 6 } else { 4 };
                for cut in 0..b.len() - spare {
                    bad(&b[..cut], format!("blocks of {} cut to {cut} of {}", x.block, b.len()))?;
                    ch.step();
                }
                Ok(())
            }
        }
    });
    c.explore("encode colours", "still images of every number of colours 1..=256 with 0, 1 or 2 different transparent colours among them and alphas 1 and 254, RGBA and RGB, two speeds: exactly the same colours", |ch| {
        let n = ch.range(1, 256) as usize;
        let tr = ch.pick(4);
        let rgb = tr == 0 && ch.flag();
        let speed = ch.of(&[1, 10, 30]);
        let w = n.min(17) as u32;
        let h = (n as u32).div_ceil(w);
        let img = RgbaImage::from_fn(w, h, |x, y| {
            let i = (y * w + x) as usize % n;
            let a = match (tr, i) {
                (1..=2, 0) => 0,
                (2, 1) => 0,
                (3, 0) => 0,
                (3, 1) => 1,
                (3, 2) => 254,
                _ => 255,
            };
            Rgba([(i * 7) as u8, 255 - i as u8, (i / 3) as u8, a])
        });
        ch.state(hash_of(&(n, tr, rgb, speed)));
        let what = format!("{n} colours, transparency {tr}, rgb {rgb}, speed {speed}");
        let f = Frame::new(img.clone());
        let mut o = vec![];
        let r = catch(|| {
            let mut e = GifEncoder::new_with_speed(&mut o, speed);
            if rgb {
                let d = DynamicImage::ImageRgba8(img.clone()).into_rgb8();
                e.encode(&d, w, h, ExtendedColorType::Rgb8)
            } else {
                e.encode(&img, w, h, ExtendedColorType::Rgba8)
            }
        })
        .map_err(|p| format!("PANIC {p}"))?;
        if let Err(e) = r {
            return viol("refused", format!("{what}: {e}"));
        }
        let want = shown(w, h, &f);
        same(&what, w, h, &want, &o)?;
        if !rgb {
            let b = encode(&[f], speed, None).map_err(|e| format!("{what}: {e}"))?;
            same(&format!("{what} as a frame"), w, h, &want, &b)?;
        }
        ch.validated();
        Ok(())
    });
    c.explore("encode frames", "every sequence of up to 3 frames over 8 frames that differ in colours, transparency, size and position inside the canvas, each of six delays, encoded and decoded: number, pixels and delays", |ch| {
        let n = ch.range(1, 3) as usize;
        let (w, h) = (4u32, 3u32);
        let mut frames = vec![];
        let mut pick = vec![];
        for k in 0..n {
            let s = if k == 0 { ch.pick(4) } else { ch.pick(8) };
            let d = ch.of(&[(0u32, 1u32), (10, 1), (25, 1), (100, 3), (655350, 1), (7000000, 1)]);
            pick.push((s, d));
            let (l, t, fw, fh) = match s {
                0..=3 => (0, 0, w, h),
                4 => (0, 0, 2, 2),
                5 => (1, 1, 2, 2),
                6 => (3, 2, 1, 1),
                _ => (0, 2, 4, 1),
            };
            let img = RgbaImage::from_fn(fw, fh, |x, y| match s {
                0 => Rgba([255, 0, 0, 255]),
                1 => Rgba([(x * 60) as u8, (y * 90) as u8, k as u8, 255]),
                2 => Rgba([9, 8, 7, if (x + y) % 2 == 0 { 255 } else { 0 }]),
                3 => Rgba([x as u8, y as u8, 3, if x < 2 { 0 } else { 200 }]),
                _ => Rgba([0, 200, (x * 10) as u8, if s == 5 && x == 0 { 0 } else { 255 }]),
            });
            frames.push(Frame::from_parts(img, l, t, Delay::from_numer_denom_ms(d.0, d.1)));
        }
        ch.state(hash_of(&pick));
        let what = format!("frames {pick:?}");
        let b = encode(&frames, 10, None).map_err(|e| format!("{what}: {e}"))?;
        let got = dec_frames(&b).map_err(|e| format!("{what}: {e}"))?;
        need!(got.len() == n, "frames", "{what}: {} frames instead of {n}", got.len());
        for (k, g) in got.iter().enumerate() {
            need!((g.0, g.1) == (w, h), "size", "{what}: frame {k} is {}x{}", g.0, g.1);
            agree(&format!("{what}: frame {k}"), &g.2, &shown(w, h, &frames[k]), w)?;
            let (a, m) = pick[k].1;
            let want = (a / m / 10).min(65535) * 10;
            need!(g.3 .0 == want * g.3 .1, "delay", "{what}: delay {k} is {:?} ms instead of {want}", g.3);
        }
        ch.validated();
        ch.steps(n as u64);
        Ok(())
    });
    c.explore("encode positions", "single and second frames of every size 1..=3 x 1..=3 at every position 0..=3 x 0..=3 and far away: the canvas of the first, each frame where it belongs", |ch| {
        let first = ch.flag();
        let (fw, fh) = (ch.range(1, 3) as u32, ch.range(1, 3) as u32);
        let (l, t) = (ch.of(&[0u32, 1, 2, 3, 300, 65530]), ch.of(&[0u32, 1, 2, 3, 300]));
        if l as u64 * t as u64 > 100000 {
            return Ok(());
        }
        let img = RgbaImage::from_fn(fw, fh, |x, y| Rgba([(x * 80) as u8, (y * 80) as u8, 1, 255]));
        let f = Frame::from_parts(img, l, t, Delay::from_numer_denom_ms(20, 1));
        let base = Frame::new(RgbaImage::from_pixel(4, 4, Rgba([1, 2, 3, 255])));
        let what = format!("{} frame {fw}x{fh} at ({l}, {t})", if first { "first" } else { "second" });
        let frames = if first { vec![f.clone()] } else { vec![base, f.clone()] };
        let b = encode(&frames, 10, None).map_err(|e| format!("{what}: {e}"))?;
        let got = dec_frames(&b).map_err(|e| format!("{what}: {e}"))?;
        need!(got.len() == frames.len(), "frames", "{what}: {} frames", got.len());
        let g = got.last().unwrap();
        let (w, h) = if first { (l + fw, t + fh) } else { (4, 4) };
        need!((g.0, g.1) == (w, h), "size", "{what}: canvas {}x{} instead of {w}x{h}", g.0, g.1);
        agree(&what, &g.2, &shown(w, h, &f), w)
    });
    c.explore("repeat", "no, endless and every number of repetitions: the NETSCAPE block says so, before the first frame", |ch| {
        let r = ch.pick(5);
        let frames = vec![Frame::new(RgbaImage::from_pixel(2, 1, Rgba([1, 2, 3, 255])))];
        let find = |b: &[u8]| b.windows(11).position(|w| w == b"NETSCAPE2.0").map(|p| (p, u16::from_le_bytes([b[p + 13], b[p + 14]])));
        match r {
            0 => {
                let b = encode(&frames, 10, None)?;
                ensure!(find(&b).is_none(), "no repetition asked for, one written");
            }
            1 => {
                let b = encode(&frames, 10, Some(Repeat::Infinite))?;
                ensure!(matches!(find(&b), Some((_, 0))), "endless repetition written as {:?}", find(&b));
                dec(&b)?;
            }
            2 => {
                let b = encode(&frames, 10, Some(Repeat::Finite(0)))?;
                ensure!(!matches!(find(&b), Some((_, 0))), "no repetition (Finite(0)) written as an endless one");
            }
            3 => {
                // asked for between the frames
                for (rep, n) in [(Repeat::Infinite, 0u16), (Repeat::Finite(1), 1), (Repeat::Finite(300), 300)] {
                    let mut b = vec![];
                    {
                        let mut e = GifEncoder::new(&mut b);
                        for k in 0..3 {
                            if k == 1 {
                                ensure!(e.set_repeat(rep).is_ok(), "set_repeat after a frame fails");
                            }
                            e.encode_frame(Frame::new(RgbaImage::from_pixel(2, 1, Rgba([1, 2, 3 + k, 255])))).map_err(|e| e.to_string())?;
                        }
                    }
                    ensure!(matches!(find(&b), Some((_, k)) if k == n), "{n} repetitions asked for after a frame written as {:?}", find(&b));
                    let f = dec_frames(&b)?;
                    ensure!(f.len() == 3 && f.iter().enumerate().all(|(k, f)| f.2[..4] == [1, 2, 3 + k as u8, 255]), "frames around a repetition count: {f:?}");
                }
            }
            _ => {
                for n in (1..=300u16).chain([1000, 32767, 32768, 65534, 65535]) {
                    let b = encode(&frames, 10, Some(Repeat::Finite(n)))?;
                    ensure!(matches!(find(&b), Some((_, k)) if k == n), "{n} repetitions written as {:?}", find(&b));
                    dec(&b)?;
                    ch.step();
                }
            }
        }
        Ok(())
    });
    c.explore("encode many colours", "images of 257..=4000 colours with and without transparent pixels of one or many colours: dimensions, frame count and which pixels are transparent", |ch| {
        let w = ch.of(&[20u32, 40, 63]);
        let tr = ch.pick(3);
        let speed = ch.of(&[1, 10, 30]);
        let img = RgbaImage::from_fn(w, w, |x, y| {
            let clear = tr > 0 && (x * 7 + y) % 11 == 0;
            let p = mix(y * w + x);
            match (clear, tr) {
                (true, 1) => Rgba([0, 0, 0, 0]),
                (true, _) => Rgba([p as u8, (p >> 8) as u8, (p >> 16) as u8, 0]),
                _ => Rgba([x as u8 * 4, y as u8 * 4, 128 + (p as u8 >> 1), 255]),
            }
        });
        let what = format!("{w}x{w} transparency {tr} speed {speed}");
        let b = encode(&[Frame::new(img.clone())], speed, None).map_err(|e| format!("{what}: {e}"))?;
        let (a, h, v) = dec(&b).map_err(|e| format!("{what}: {e}"))?;
        need!((a, h) == (w, w), "size", "{what}: {a}x{h}");
        for (i, p) in img.pixels().enumerate() {
            need!(p[3] > 0 || v[4 * i + 3] == 0, "transparency", "{what}: pixel {i} {p:?} came back as {:?}", &v[4 * i..4 * i + 4]);
            // NeuQuant is only ever this far off on such smooth images when something is wrong
            if p[3] > 0 {
                let d: i32 = (0..3).map(|k| (v[4 * i + k] as i32 - p[k] as i32).abs()).max().unwrap();
                need!(d <= 120, "colour", "{what}: pixel {i} {p:?} came back as {:?}", &v[4 * i..4 * i + 4]);
            }
        }
        ch.steps((w * w) as u64);
        Ok(())
    });
    c.finish();
}
