//! C36: PNG files decode to the pixels the format defines.
//! TECHNIQUE: exhaustive enumeration of layouts (colour type x depth x interlacing x size), filter sequences, palettes, transparent colours, chunk divisions and header fields from a model of PNG, each file decoded by the real decoder and compared with the model's pixels
//! LEVEL: model_checking
//! NOTE: Compressed data is written with stored blocks and with the fixed Huffman code; dynamic Huffman codes are read only in files the library writes itself (C01).
use image::codecs::png::PngDecoder;
use image::*;
use mc::forge::{Deflate, Png};
use mc::*;
use std::io::Cursor;

type Out = Result<(u32, u32, ColorType, Vec<u8>), String>;
fn dec(b: &[u8]) -> Out {
    catch(|| -> ImageResult<_> {
        let d = PngDecoder::new(Cursor::new(b))?;
        let ((w, h), c) = (d.dimensions(), d.color_type());
        // nothing here is that large but the sizes the format does not allow
        if d.total_bytes() > 1 << 32 {
            return Err(ImageError::Limits(error::LimitError::from_kind(error::LimitErrorKind::InsufficientMemory)));
        }
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, c, o))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
fn dec_open(b: &[u8]) -> Out {
    let d = catch(|| ImageReader::new(Cursor::new(b)).with_guessed_format().unwrap().decode()).map_err(|p| format!("PANIC {p}"))?.map_err(|e| e.to_string())?;
    Ok((d.width(), d.height(), d.color(), d.as_bytes().to_vec()))
}

/// What a PNG image means: palette (with the alphas of tRNS) or transparent colour applied.
fn model(p: &Png, palette: &[[u8; 3]], trns: Option<&[u16]>) -> (ColorType, Vec<u8>) {
    use ColorType::*;
    let deep = p.depth == 16;
    let color = match (p.color, deep, trns.is_some()) {
        (0, false, false) => L8,
        (0, false, true) => La8,
        (0, true, false) => L16,
        (0, true, true) => La16,
        (2, false, false) | (3, _, false) => Rgb8,
        (2, false, true) | (3, _, true) => Rgba8,
        (2, true, false) => Rgb16,
        (2, true, true) => Rgba16,
        (4, false, _) => La8,
        (4, true, _) => La16,
        (_, false, _) => Rgba8,
        (_, true, _) => Rgba16,
    };
    let mut o = vec![];
    let max = ((1u32 << p.depth) - 1) as u16;
    for px in p.px.iter().flatten() {
        if p.color == 3 {
            let i = px[0] as usize;
            o.extend(palette[i]);
            if let Some(t) = trns {
                o.push(t.get(i).map_or(255, |v| *v as u8));
            }
            continue;
        }
        let mut v = px.clone();
        if let (0 | 2, Some(t)) = (p.color, trns) {
            v.push(if px == t { 0 } else { max });
        }
        for s in v {
            if deep {
                o.extend(s.to_ne_bytes());
            } else {
                o.push((s as u32 * 255 / max as u32) as u8);
            }
        }
    }
    (color, o)
}
fn same(what: &str, p: &Png, palette: &[[u8; 3]], trns: Option<&[u16]>, bytes: &[u8]) -> Res {
    let (color, want) = model(p, palette, trns);
    for (via, got) in [("PngDecoder", dec(bytes)), ("ImageReader", dec_open(bytes))] {
        let (w, h, c, v) = match got {
            Ok(g) => g,
            Err(e) => return viol(if e.starts_with("PANIC") { "panic" } else { "refused" }, format!("{what} through {via}: {e}")),
        };
        need!((w, h) == (p.w, p.h), "size", "{what} through {via}: {w}x{h} instead of {}x{}", p.w, p.h);
        need!(c == color, "color", "{what} through {via}: {c:?} instead of {color:?}");
        need!(v == want, "pixels", "{what} through {via}: {}", util::first_diff(&v, &want));
    }
    Ok(())
}
/// The colour table and transparency chunks.
fn chunks(p: &mut Png, palette: &[[u8; 3]], trns: Option<&[u16]>) {
    if !palette.is_empty() {
        p.before.push((*b"PLTE", palette.concat()));
    }
    if let Some(t) = trns {
        p.before.push((*b"tRNS", if p.color == 3 { t.iter().map(|v| *v as u8).collect() } else { t.iter().flat_map(|v| v.to_be_bytes()).collect() }));
    }
}
const LAYOUTS: [(u8, u8); 15] = [(0, 1), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)];
fn mix(x: u32, y: u32, c: u32, k: u32) -> u32 {
    let mut v = x.wrapping_mul(0x9E3779B1) ^ y.wrapping_mul(0x85EBCA6B) ^ c.wrapping_mul(0xC2B2AE35) ^ k.wrapping_mul(0x27D4EB2F);
    v ^= v >> 15;
    v = v.wrapping_mul(0x2C1B3C6D);
    v ^ v >> 12
}
fn pal(n: usize) -> Vec<[u8; 3]> {
    (0..n).map(|i| [i as u8, 255 - i as u8, (i * 37 % 256) as u8]).collect()
}
fn image(w: u32, h: u32, (color, depth): (u8, u8), kind: u32) -> Png {
    Png::new(w, h, depth, color, |x, y, c| {
        let v = match kind {
            0 => mix(x, y, c as u32, 0),
            1 => x + y * w + c as u32,
            _ => u32::MAX,
        };
        (v & ((1u32 << depth) - 1)) as u16
    })
}

fn main() {
    let mut c = Check::start("C36", "model_checking", "each case is one file written by an independent model of PNG and decoded through the decoder and the reader; non-deterministic choices: layout, size, filters, palette, transparency, interlacing, division into chunks and blocks, header fields");
    let q = c.quick;
    c.explore("layouts", "all 15 colour type and depth pairs x interlaced or not x sizes 1..=9 x 1..=9 (17 x 17) x filter row patterns (none, sub, up, average, Paeth, cycling) x with and without transparency", |ch| {
        let l = ch.of(&LAYOUTS);
        let n = if q { 9 } else { 17 };
        let (w, h) = (ch.range(1, n) as u32, ch.range(1, n) as u32);
        let interlace = ch.flag();
        let f = ch.pick(6) as u8;
        let t = l.0 <= 3 && ch.flag();
        let mut p = image(w, h, l, 0);
        p.interlace = interlace;
        p.filters = if f < 5 { vec![f] } else { vec![4, 3, 2, 1, 0] };
        p.deflate = if (w + h) % 2 == 0 { Deflate::Stored(65535) } else { Deflate::Matches(&[1, 2, 3, 4, 6, 8]) };
        let palette = if l.0 == 3 { pal(1 << l.1) } else { vec![] };
        let trns: Option<Vec<u16>> = t.then(|| match l.0 {
            3 => (0..(1u16 << l.1).div_ceil(2)).map(|i| (i * 91) & 255).collect(),
            _ => p.px[(h / 2) as usize][(w / 2) as usize].clone(),
        });
        chunks(&mut p, &palette, trns.as_deref());
        ch.state(hash_of(&(l, w, h, interlace, f, t)));
        ch.steps((w * h) as u64);
        let b = p.file();
        ch.outcome(hash_of(&b));
        ch.validated();
        ch.sample(|| format!("colour {} depth {} {w}x{h} interlace {interlace} filter {f} tRNS {trns:?}", l.0, l.1));
        same(&format!("colour {} depth {} {w}x{h} interlace {interlace} filters {:?} tRNS {trns:?}", l.0, l.1, p.filters), &p, &palette, trns.as_deref(), &b)
    });
    c.explore("filter sequences", "every sequence of the five filter types over four rows (five) for each layout, plain and interlaced, two contents", |ch| {
        let l = ch.of(&LAYOUTS);
        let rows = if q { 4 } else { 5 };
        let interlace = ch.flag();
        let kind = ch.pick(2) as u32;
        let mut p = image(5, rows, l, kind);
        p.interlace = interlace;
        p.filters = (0..rows).map(|_| ch.pick(5) as u8).collect();
        let palette = if l.0 == 3 { pal(1 << l.1) } else { vec![] };
        chunks(&mut p, &palette, None);
        let b = p.file();
        ch.outcome(hash_of(&b));
        ch.validated();
        same(&format!("colour {} depth {} interlace {interlace} filters {:?}", l.0, l.1, p.filters), &p, &palette, None, &b)
    });
    c.explore("filter arithmetic", "every value of left, above and above-left in steps of 15 (5) against five differences, for every filter, one and three bytes apart", |ch| {
        let f = ch.pick(5) as u8;
        let step = if q { 15 } else { 5 };
        let n = 255 / step + 1;
        let left = ch.pick(n) as u16 * step as u16;
        let color = ch.of(&[0u8, 2]);
        // columns: all pairs (above-left, above) in turn, every second pixel of the lower row being `left`
        let mut vals = vec![];
        for a in 0..n {
            for b in 0..n {
                vals.push(((a * step) as u16, (b * step) as u16));
            }
        }
        let w = vals.len() as u32 * 2;
        let mut p = Png::new(w, 2, 8, color, |x, y, c| {
            let (ul, u) = vals[x as usize / 2];
            match (y, x % 2) {
                (0, 0) => ul,
                (0, _) => u,
                (_, 0) => left,
                _ => [0, 1, 127, 128, 255][(x as usize / 2 + c) % 5],
            }
        });
        p.filters = vec![0, f];
        ch.steps(w as u64);
        let b = p.file();
        ch.validated();
        same(&format!("filter {f} left {left} colour {color}"), &p, &[], None, &b)
    });
    c.explore("palettes", "every palette length 1..=256 at each depth that can hold it x tRNS of length none, 0, 1, half, all but one, all: every index", |ch| {
        let depth = ch.of(&[1u8, 2, 4, 8]);
        let n = ch.range(1, 1 << depth) as usize;
        let tk = ch.pick(6);
        let interlace = ch.flag();
        let palette = pal(n);
        let tl = [0, 0, 1, n / 2, n - 1, n][tk];
        // an empty tRNS chunk is not something the format defines
        let trns: Option<Vec<u16>> = (tk > 0 && tl > 0).then(|| (0..tl).map(|i| (i * 53 + 7) as u16 & 255).collect());
        let w = n.min(19) as u32;
        let h = (n as u32).div_ceil(w);
        let mut p = Png::new(w, h, depth, 3, |x, y, _| ((y * w + x) as usize % n) as u16);
        p.interlace = interlace;
        chunks(&mut p, &palette, trns.as_deref());
        ch.state(hash_of(&(depth, n, tl)));
        let b = p.file();
        ch.validated();
        same(&format!("depth {depth} palette of {n} tRNS {trns:?} interlace {interlace}"), &p, &palette, trns.as_deref(), &b)
    });
    c.explore("transparent colour", "gray of every depth with every key of that depth (16 bit: 300 keys), RGB with keys differing from the pixels in one channel or one byte", |ch| {
        let k = ch.pick(6);
        match k {
            0..=3 => {
                let depth = [1u8, 2, 4, 8][k];
                let key = ch.pick(1 << depth) as u16;
                let w = 1u32 << depth;
                let mut p = Png::new(w, 1, depth, 0, |x, _, _| x as u16);
                let t = [key];
                chunks(&mut p, &[], Some(&t));
                ch.state(hash_of(&(k, key)));
                same(&format!("gray depth {depth} key {key}"), &p, &[], Some(&t), &p.file())
            }
            4 => {
                let key = ch.pick(300) as u16 * 218;
                let mut p = Png::new(9, 1, 16, 0, |x, _, _| key.wrapping_add([0, 1, 255, 256, 257, 32768, 65535, 65280, 2][x as usize]));
                let t = [key];
                chunks(&mut p, &[], Some(&t));
                ch.state(hash_of(&(k, key)));
                same(&format!("gray depth 16 key {key}"), &p, &[], Some(&t), &p.file())
            }
            _ => {
                let depth = ch.of(&[8u8, 16]);
                let ds: &[u16] = if depth == 8 { &[0, 1, 128, 255] } else { &[0, 1, 256, 255, 0x8000] };
                let key: Vec<u16> = (0..3).map(|c| ch.of(&[0u16, 0x1234, 0xFFFF]).wrapping_add(c) & if depth == 8 { 255 } else { 0xFFFF }).collect();
                let n = ds.len() as u32;
                let mut p = Png::new(n * n, n, depth, 2, |x, y, c| {
                    let d = ds[[x % n, x / n, y][c] as usize];
                    key[c].wrapping_add(d) & if depth == 8 { 255 } else { 0xFFFF }
                });
                chunks(&mut p, &[], Some(&key));
                ch.state(hash_of(&(k, depth, &key)));
                same(&format!("RGB depth {depth} key {key:?}"), &p, &[], Some(&key), &p.file())
            }
        }
    });
    c.explore("samples", "every 8-bit value and 16-bit values (every one when thorough; all bytes in each half when quick) in each channel of each colour type", |ch| {
        let l = ch.of(&[(0u8, 8u8), (0, 16), (2, 8), (2, 16), (4, 8), (4, 16), (6, 8), (6, 16)]);
        let at = ch.pick(Png::channels(l.0));
        let (w, h) = if l.1 == 8 { (16, 16) } else if q { (32, 16) } else { (256, 256) };
        let mut p = Png::new(w, h, l.1, l.0, |x, y, c| {
            let i = y * w + x;
            let v = match (l.1, q) {
                (16, true) => if i < 256 { i } else { (i - 256) << 8 | 0x5A },
                _ => i,
            } as u16;
            if c == at { v } else { 3 * c as u16 + 1 }
        });
        p.filters = vec![0, 1, 2, 3, 4];
        ch.steps((w * h) as u64);
        same(&format!("colour {} depth {} channel {at}", l.0, l.1), &p, &[], None, &p.file())
    });
    c.explore("image data", "every division of a small image's data into two chunks and into chunks of 1..=16 bytes with empty ones between, stored blocks of every size, fixed codes with every match length 3..=258 and distances up to 32768", |ch| {
        let k = ch.pick(4);
        match k {
            0 => {
                let mut p = image(7, 5, (2, 8), 0);
                p.filters = vec![0, 1, 2, 3, 4];
                let n = forge::zlib_with(&p.stream(), p.deflate).len();
                p.idat = vec![ch.range(1, n as i64 - 1) as usize, n];
                if ch.flag() {
                    p.idat.insert(1, 0);
                }
                same(&format!("image data in chunks of {:?}", p.idat), &p, &[], None, &p.file())
            }
            1 => {
                let mut p = image(7, 5, (6, 16), 0);
                p.interlace = ch.flag();
                p.idat = vec![ch.range(1, 16) as usize];
                if ch.flag() {
                    p.idat.push(0);
                }
                p.deflate = Deflate::Stored(ch.range(1, 64) as usize);
                same(&format!("image data in chunks of {:?}, {:?}", p.idat, p.deflate), &p, &[], None, &p.file())
            }
            2 => {
                // A run of every length after a distinct prefix.
                let n = ch.range(3, 300) as u32;
                let d = ch.of(&[&[1usize][..], &[2], &[3], &[4], &[5], &[7], &[9], &[13], &[17], &[25], &[33], &[1, 2, 3]]);
                let mut p = Png::new(n + 40, 2, 8, 0, |x, y, _| if x < 40 { mix(x, y, 0, 0) as u16 & 255 } else { [11, 22, 33][(x % d[0] as u32 % 3) as usize] });
                p.deflate = Deflate::Matches(d);
                same(&format!("run of {n}, {:?}", p.deflate), &p, &[], None, &p.file())
            }
            _ => {
                // One row of noise repeated: matches exactly a row back.
                let w = ch.of(&[64u32, 100, 128, 200, 256, 400, 511, 700, 1023, 1500, 2047, 3000, 4095, 6000, 8191, 12000, 16383, 24000, 32767]);
                let mut p = Png::new(w, 3, 8, 0, |x, _, _| mix(x, 0, 0, 1) as u16 & 255);
                p.deflate = Deflate::Matches(match w {
                    64 => &[65],
                    100 => &[101],
                    128 => &[129],
                    200 => &[201],
                    256 => &[257],
                    400 => &[401],
                    511 => &[512],
                    700 => &[701],
                    1023 => &[1024],
                    1500 => &[1501],
                    2047 => &[2048],
                    3000 => &[3001],
                    4095 => &[4096],
                    6000 => &[6001],
                    8191 => &[8192],
                    12000 => &[12001],
                    16383 => &[16384],
                    24000 => &[24001],
                    _ => &[32768],
                });
                p.idat = ch.of(&[vec![], vec![8192], vec![1000, 0, 3000]]);
                ch.steps(w as u64 * 3);
                same(&format!("rows of {w} repeated, chunks {:?}", p.idat), &p, &[], None, &p.file())
            }
        }
    });
    c.explore("large", "widths and heights around 255, 256, 257, 1000, 4096, 65535..65537 of each layout, plain and interlaced", |ch| {
        let l = ch.of(&LAYOUTS);
        let n = ch.of(&[255u32, 256, 257, 1000, 4096, 65535, 65536, 65537]);
        let tall = ch.flag();
        let interlace = ch.flag();
        let (w, h) = if tall { (2, n) } else { (n, 2) };
        let mut p = image(w, h, l, 0);
        p.interlace = interlace;
        p.filters = vec![0, 1, 2, 3, 4];
        p.deflate = Deflate::Stored(30000);
        p.idat = vec![50000];
        let palette = if l.0 == 3 { pal(1 << l.1) } else { vec![] };
        chunks(&mut p, &palette, None);
        ch.steps(w as u64 * h as u64);
        same(&format!("colour {} depth {} {w}x{h} interlace {interlace}", l.0, l.1), &p, &palette, None, &p.file())
    });
    c.explore("other chunks", "every ancillary chunk of the standard and unknown ones (public, private) before, between and after, and suggested palettes in truecolour images: the pixels are unaffected", |ch| {
        let l = ch.of(&LAYOUTS);
        let all: [([u8; 4], Vec<u8>); 14] = [
            (*b"gAMA", 45455u32.to_be_bytes().to_vec()),
            (*b"gAMA", 100000u32.to_be_bytes().to_vec()),
            (*b"cHRM", [31270u32, 32900, 64000, 33000, 30000, 60000, 15000, 6000].iter().flat_map(|v| v.to_be_bytes()).collect()),
            (*b"sRGB", vec![1]),
            (*b"sBIT", vec![1; if l.0 == 3 { 3 } else { Png::channels(l.0) }]),
            (*b"bKGD", vec![0; match l.0 { 3 => 1, 0 | 4 => 2, _ => 6 }]),
            (*b"pHYs", vec![0, 0, 11, 19, 0, 0, 11, 19, 1]),
            (*b"tIME", vec![7, 0xD0, 1, 1, 0, 0, 0]),
            (*b"tEXt", b"Title\0x".to_vec()),
            (*b"zTXt", b"Title\0\0\xFF\xFF".to_vec()),
            (*b"iTXt", b"Title\0\0\0\0\0x".to_vec()),
            (*b"abCd", vec![1, 2, 3]),
            (*b"vpAg", vec![0; 9]),
            (*b"hIST", vec![0; 2 << l.1.min(8)]),
        ];
        let k = ch.pick(all.len() + 1);
        let late = ch.flag();
        let mut p = image(5, 4, l, 0);
        let palette = if l.0 == 3 { pal(1 << l.1) } else { vec![] };
        if k < all.len() {
            // colour space information has to come before the palette
            let early = matches!(&all[k].0, b"gAMA" | b"cHRM" | b"sRGB" | b"sBIT");
            if early && !late {
                p.before.push(all[k].clone());
                chunks(&mut p, &palette, None);
            } else if late && !early && !matches!(&all[k].0, b"bKGD" | b"hIST" | b"pHYs") {
                chunks(&mut p, &palette, None);
                p.after.push(all[k].clone());
            } else {
                chunks(&mut p, &palette, None);
                if !early && (&all[k].0 != b"hIST" || l.0 == 3) {
                    p.before.push(all[k].clone());
                }
            }
        } else if matches!(l.0, 2 | 6) {
            // a suggested palette
            chunks(&mut p, &pal(16), None);
        } else {
            chunks(&mut p, &palette, None);
        }
        same(&format!("colour {} depth {} with chunks {:?} / {:?}", l.0, l.1, p.before.iter().map(|x| String::from_utf8_lossy(&x.0).to_string()).collect::<Vec<_>>(), p.after.iter().map(|x| String::from_utf8_lossy(&x.0).to_string()).collect::<Vec<_>>()), &p, &palette, None, &p.file())
    });
    c.explore("gamma", "gAMA values 0, 1, powers of ten and two, the usual ones, with and without an sRGB chunk: the announced gamma", |ch| {
        let g = ch.of(&[1u32, 10, 100, 1000, 10000, 45455, 45454, 50000, 55556, 65535, 65536, 100000, 180000, 220000, 1 << 20, 1 << 30]);
        let k = ch.pick(4);
        let mut p = image(2, 2, (2, 8), 0);
        let gama = (*b"gAMA", g.to_be_bytes().to_vec());
        match k {
            0 => {}
            1 => p.before.push(gama),
            2 => p.before.push((*b"sRGB", vec![0])),
            _ => p.before.extend([gama, (*b"sRGB", vec![0])]),
        }
        let b = p.file();
        let d = PngDecoder::new(Cursor::new(&b)).map_err(|e| format!("gamma {g} kind {k}: {e}"))?;
        let got = d.gamma_value().map_err(|e| format!("gamma {g} kind {k}: {e}"))?;
        let want = match k {
            0 => None,
            1 => Some(g as f64 / 100000.),
            _ => Some(0.45455),
        };
        ensure!(got == want, "gamma {g} kind {k}: {got:?} instead of {want:?}");
        ensure!(!d.is_apng().map_err(|e| e.to_string())?, "an image without acTL is not an animation");
        Ok(())
    });
    c.explore("refused", "every undefined pair of colour type and depth (all bytes), compression and filter methods and interlacing codes other than the defined, zero sizes, no palette, bad filter types, corrupted check sums of critical chunks, and every cut before the data is complete", |ch| {
        let kind = ch.pick(6);
        let bad = |b: &[u8], what: String| -> Res {
            for (via, r) in [("PngDecoder", dec(b)), ("ImageReader", dec_open(b))] {
                match r {
                    Ok(g) => return viol("accepted", format!("{what} through {via}: decoded as {}x{} {:?}", g.0, g.1, g.2)),
                    Err(e) => ensure!(!e.starts_with("PANIC"), "{what} through {via}: {e}"),
                }
            }
            Ok(())
        };
        // rewrites a byte of IHDR and its check sum
        let patch = |b: &mut Vec<u8>, at: usize, v: u8| {
            b[16 + at] = v;
            let k = forge::crc32(&b[12..29]);
            b[29..33].copy_from_slice(&k.to_be_bytes());
        };
        match kind {
            0 => {
                let color = ch.pick(256) as u8;
                let mut n = 0;
                for depth in 0..=255u8 {
                    if LAYOUTS.contains(&(color, depth)) {
                        continue;
                    }
                    let mut p = image(1, 1, (6, 16), 0);
                    p.before.push((*b"PLTE", pal(2).concat()));
                    let mut b = p.file();
                    patch(&mut b, 8, depth);
                    patch(&mut b, 9, color);
                    bad(&b, format!("colour {color} depth {depth}"))?;
                    n += 1;
                }
                ch.steps(n);
                Ok(())
            }
            1 => {
                let (at, first) = ch.of(&[(10, 1), (11, 1), (12, 2)]);
                for v in first..=255u8 {
                    let mut b = image(3, 3, (0, 8), 0).file();
                    patch(&mut b, at, v);
                    bad(&b, format!("IHDR byte {at} = {v}"))?;
                    ch.step();
                }
                Ok(())
            }
            2 => {
                for (w, h) in [(0u32, 1u32), (1, 0), (0, 0), (0x8000_0000, 1), (1, 0x8000_0000), (u32::MAX, u32::MAX)] {
                    let mut b = image(1, 1, (0, 8), 0).file();
                    b[16..20].copy_from_slice(&w.to_be_bytes());
                    b[20..24].copy_from_slice(&h.to_be_bytes());
                    patch(&mut b, 8, 8);
                    // dimensions beyond the format's are refused, or at least the data is missing
                    bad(&b, format!("size {w}x{h}"))?;
                }
                for d in [1, 2, 4, 8] {
                    bad(&image(3, 3, (3, d), 0).file(), format!("no palette, depth {d}"))?;
                }
                Ok(())
            }
            3 => {
                let l = ch.of(&LAYOUTS);
                let row = ch.pick(3);
                for f in 5..=255u8 {
                    let mut p = image(3, 3, l, 0);
                    let palette = if l.0 == 3 { pal(1 << l.1) } else { vec![] };
                    chunks(&mut p, &palette, None);
                    p.filters = vec![0, 0, 0];
                    p.filters[row] = f;
                    bad(&p.file(), format!("colour {} depth {} filter type {f} in row {row}", l.0, l.1))?;
                    ch.step();
                }
                Ok(())
            }
            4 => {
                // check sums of IHDR, PLTE, IDAT
                let l = ch.of(&LAYOUTS);
                let mut p = image(5, 3, l, 0);
                let palette = if l.0 == 3 { pal(1 << l.1) } else { vec![] };
                chunks(&mut p, &palette, None);
                let (b, _) = p.file_end();
                let mut at = 8;
                while at < b.len() {
                    let n = u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as usize;
                    if &b[at + 4..at + 8] != b"IEND" {
                        for bit in 0..32 {
                            let mut x = b.clone();
                            x[at + 8 + n + bit / 8] ^= 1 << (bit % 8);
                            bad(&x, format!("colour {} depth {}: check sum of {} bit {bit}", l.0, l.1, String::from_utf8_lossy(&b[at + 4..at + 8])))?;
                            ch.step();
                        }
                    }
                    at += 12 + n;
                }
                Ok(())
            }
            _ => {
                let l = ch.of(&LAYOUTS);
                let interlace = ch.flag();
                let how = ch.of(&[Deflate::Stored(65535), Deflate::Stored(9), Deflate::Literals]);
                let mut p = image(5, 4, l, 0);
                p.interlace = interlace;
                p.deflate = how;
                let palette = if l.0 == 3 { pal(1 << l.1) } else { vec![] };
                chunks(&mut p, &palette, None);
                let (b, end) = p.file_end();
                // The last eight bytes before `end` are the stream's own check sum (4) and, with the
                // fixed code, up to a byte of its end mark: what a decoder may do without.
                for cut in 0..end - 4 - 2 {
                    bad(&b[..cut], format!("colour {} depth {} interlace {interlace} {how:?}: cut to {cut} of {}", l.0, l.1, b.len()))?;
                    ch.step();
                }
                Ok(())
            }
        }
    });
    c.explore("short or long data", "image data of every length below the image's (refused) and with up to 40 bytes more (the image), for each layout, plain and interlaced", |ch| {
        let l = ch.of(&LAYOUTS);
        let interlace = ch.flag();
        let mut p = image(5, 4, l, 0);
        p.interlace = interlace;
        let palette = if l.0 == 3 { pal(1 << l.1) } else { vec![] };
        chunks(&mut p, &palette, None);
        let full = p.stream();
        let with = |s: &[u8]| {
            let mut b = forge::B::default();
            b.raw(&forge::PNG_SIG);
            forge::chunk(&mut b, b"IHDR", &p.header());
            for (t, d) in &p.before {
                forge::chunk(&mut b, t, d);
            }
            forge::chunk(&mut b, b"IDAT", &forge::zlib(s));
            forge::chunk(&mut b, b"IEND", &[]);
            b.0
        };
        for n in 0..full.len() {
            let r = dec(&with(&full[..n]));
            need!(r.is_err(), "accepted", "colour {} depth {} interlace {interlace}: {n} of {} bytes of data", l.0, l.1, full.len());
            ensure!(!r.as_ref().unwrap_err().starts_with("PANIC"), "{n} bytes: {r:?}");
            ch.step();
        }
        for n in [1, 2, 7, 40] {
            let mut s = full.clone();
            s.extend(vec![0xA5; n]);
            same(&format!("colour {} depth {} interlace {interlace}: {n} bytes too many", l.0, l.1), &p, &palette, None, &with(&s))?;
        }
        Ok(())
    });
    c.finish();
}
