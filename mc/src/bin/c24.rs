//! C24: TGA decoding and encoding against an independent model of the format.
//! TECHNIQUE: exhaustive enumeration of TGA headers and packet streams generated from a model of the format, each decoded by the real decoder and compared with the model's pixels
//! LEVEL: model_checking
//! NOTE: Depths of 15 and 16 bits per colour are refused by the library as unsupported, which the check accepts; sizes are up to 4x3 pixels (and one row of up to 300 for packet lengths).
use image::codecs::tga::{TgaDecoder, TgaEncoder};
use image::*;
use mc::forge::Tga;
use mc::*;
use std::io::Cursor;

type Out = Result<(u32, u32, ColorType, Vec<u8>), String>;
fn dec(b: &[u8]) -> Out {
    catch(|| -> ImageResult<_> {
        let d = TgaDecoder::new(Cursor::new(b))?;
        let ((w, h), c) = (d.dimensions(), d.color_type());
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, c, o))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}

/// How stored values become pixels.
#[derive(Clone, Debug)]
enum Kind {
    Grey,
    GreyAlpha,
    AlphaOnly,
    Rgb,
    Rgba { attr: u8 },
    Map { index_bytes: usize, entry: usize, attr: u8, origin: u16, len: u16 },
}
impl Kind {
    fn color(&self) -> ColorType {
        match self {
            Kind::Grey | Kind::AlphaOnly => ColorType::L8,
            Kind::GreyAlpha => ColorType::La8,
            Kind::Rgb => ColorType::Rgb8,
            Kind::Rgba { .. } => ColorType::Rgba8,
            Kind::Map { entry, .. } => if *entry == 3 { ColorType::Rgb8 } else { ColorType::Rgba8 },
        }
    }
    fn stored(&self) -> usize {
        match self {
            Kind::Grey | Kind::AlphaOnly => 1,
            Kind::GreyAlpha => 2,
            Kind::Rgb => 3,
            Kind::Rgba { .. } => 4,
            Kind::Map { index_bytes, .. } => *index_bytes,
        }
    }
    /// The stored bytes of abstract pixel value `v` and the pixel it stands for.
    fn pixel(&self, v: usize) -> (Vec<u8>, Vec<u8>) {
        let s = |k: usize| (v * 37 + k * 71 + 5) as u8;
        match self {
            Kind::Grey | Kind::AlphaOnly => (vec![s(0)], vec![s(0)]),
            Kind::GreyAlpha => (vec![s(0), s(1)], vec![s(0), s(1)]),
            Kind::Rgb => (vec![s(2), s(1), s(0)], vec![s(0), s(1), s(2)]),
            Kind::Rgba { .. } => (vec![s(2), s(1), s(0), s(3)], vec![s(0), s(1), s(2), s(3)]),
            Kind::Map { index_bytes, entry, origin, len, .. } => {
                let i = v % *len as usize;
                let idx = i + *origin as usize;
                let e = Self::entry(i, *entry);
                let mut px = vec![e[2], e[1], e[0]];
                px.extend(e.get(3));
                ((0..*index_bytes).map(|k| (idx >> (8 * k)) as u8).collect(), px)
            }
        }
    }
    fn entry(i: usize, size: usize) -> Vec<u8> {
        (0..size).map(|k| (i * 29 + k * 83 + (i >> 8) * 7 + 3) as u8).collect()
    }
    fn tga(&self, rle: bool) -> Tga {
        let (t, depth, attr) = match self {
            Kind::Grey => (3, 8, 0),
            Kind::AlphaOnly => (3, 8, 8),
            Kind::GreyAlpha => (3, 16, 8),
            Kind::Rgb => (2, 24, 0),
            Kind::Rgba { attr } => (2, 32, *attr),
            Kind::Map { index_bytes, attr, .. } => (1, 8 * *index_bytes as u8, *attr),
        };
        let mut f = Tga { image_type: t + if rle { 8 } else { 0 }, depth, desc: attr, ..Default::default() };
        if let Kind::Map { entry, origin, len, .. } = self {
            f.map_type = 1;
            f.map_origin = *origin;
            f.map_length = *len;
            f.map_entry = 8 * *entry as u8;
            for i in 0..*len as usize {
                f.map.extend(Self::entry(i, *entry));
            }
        }
        f
    }
}
/// The image that stored pixels in file order describe.
fn place(px: &[Vec<u8>], w: usize, h: usize, right: bool, top: bool) -> Vec<u8> {
    let mut o = vec![];
    for y in 0..h {
        for x in 0..w {
            let sy = if top { y } else { h - 1 - y };
            let sx = if right { w - 1 - x } else { x };
            o.extend_from_slice(&px[sy * w + sx]);
        }
    }
    o
}
fn expect(ch: &mut Ch, f: &Tga, color: ColorType, want: &[u8], what: &dyn Fn() -> String) -> Res {
    let b = f.file();
    ch.step();
    ch.state(hash_of(&b));
    match dec(&b) {
        Ok((w, h, c, o)) => {
            need!((w, h) == (f.w as u32, f.h as u32), "shape", "{}: got {w}x{h}", what());
            need!(c == color, "color", "{}: got {c:?} instead of {color:?}", what());
            need!(o == want, "pixels", "{}: {} bytes {}", what(), first_diff(&o, want), hex(&b[..b.len().min(200)]));
            let alpha_only = f.image_type & 7 == 3 && f.depth == 8 && f.desc & 15 == 8;
            let orig = if alpha_only { ExtendedColorType::A8 } else { color.into() };
            let got = TgaDecoder::new(Cursor::new(&b)).map(|d| d.original_color_type()).map_err(|e| e.to_string())?;
            need!(got == orig, "original", "{}: original colour type {got:?} instead of {orig:?}", what());
            ch.outcome(hash_of(&(f.image_type, f.desc, c)));
            ch.validated();
            Ok(())
        }
        Err(e) => viol(if e.starts_with("PANIC") { "panic" } else { "refused" }, format!("{}: {e}; bytes {}", what(), hex(&b[..b.len().min(200)]))),
    }
}
fn refuse(ch: &mut Ch, b: &[u8], key: &str, what: &dyn Fn() -> String) -> Res {
    ch.step();
    ch.state(hash_of(&b));
    match dec(b) {
        Err(e) if e.starts_with("PANIC") => viol("panic", format!("{}: {e}; bytes {}", what(), hex(&b[..b.len().min(200)]))),
        Err(_) => {
            ch.outcome(1);
            ch.validated();
            Ok(())
        }
        Ok((w, h, c, _)) => viol(key, format!("{}: accepted as {w}x{h} {c:?}; bytes {}", what(), hex(&b[..b.len().min(200)]))),
    }
}
fn kinds(quick: bool) -> Vec<Kind> {
    let mut v = vec![Kind::Grey, Kind::GreyAlpha, Kind::AlphaOnly, Kind::Rgb, Kind::Rgba { attr: 0 }, Kind::Rgba { attr: 8 }];
    let lens: &[u16] = if quick { &[1, 3, 256, 300] } else { &[1, 2, 3, 7, 255, 256, 257, 300, 1000] };
    for index_bytes in 1..=2usize {
        for (entry, attr) in [(3usize, 0u8), (4, 0), (4, 8)] {
            for origin in [0u16, 1, 5, 250, 256, 0x1200] {
                for &len in lens {
                    if index_bytes == 1 && origin as usize + len as usize > 256 {
                        continue;
                    }
                    v.push(Kind::Map { index_bytes, entry, attr, origin, len });
                }
            }
        }
    }
    v
}

/// What a TGA file without a colour map says, read by the letter of the format: image type and samples in RGBA order, rows from the top.
fn read_tga(b: &[u8]) -> Result<(u8, usize, usize, usize, Vec<u8>), String> {
    let h = b.get(..18).ok_or("no header")?;
    let le = |i: usize| h[i] as usize | (h[i + 1] as usize) << 8;
    let (ty, w, ht, depth, desc) = (h[2], le(12), le(14), h[16], h[17]);
    if h[1] != 0 || le(3) != 0 || le(5) != 0 || le(8) != 0 || le(10) != 0 || desc & 0xD0 != 0 {
        return Err(format!("header {h:?}"));
    }
    let alpha = desc & 15;
    let grey = ty & 7 == 3;
    match (ty & !8, depth, alpha) {
        (2, 24, 0) | (2, 32, 8) | (3, 8, 0) | (3, 16, 8) => {}
        k => return Err(format!("image type, depth, attributes {k:?}")),
    }
    let n = depth as usize / 8;
    let mut r = &b[18 + h[0] as usize..];
    let mut px: Vec<u8> = vec![];
    if ty & 8 == 0 {
        px.extend(r);
        r = &[];
    } else {
        while px.len() < w * ht * n {
            let (c, rest) = r.split_first().ok_or("packets missing")?;
            let k = (c & 127) as usize + 1;
            let m = if c & 128 != 0 { n } else { n * k };
            let p = rest.get(..m).ok_or("packet cut short")?;
            for _ in 0..if c & 128 != 0 { k } else { 1 } {
                px.extend(p);
            }
            r = &rest[m..];
        }
    }
    if px.len() != w * ht * n || !r.is_empty() {
        return Err(format!("{} bytes of pixels for {w}x{ht}, {} bytes behind them", px.len(), r.len()));
    }
    if !grey {
        px.chunks_mut(n).for_each(|p| p.swap(0, 2));
    }
    if desc & 0x20 == 0 {
        px = px.chunks(w.max(1) * n).rev().flatten().copied().collect();
    }
    Ok((ty, w, ht, n, px))
}
fn encoded(ch: &mut Ch) -> Res {
    let color = ch.of(&[ColorType::L8, ColorType::La8, ColorType::Rgb8, ColorType::Rgba8]);
    let n = color.bytes_per_pixel() as usize;
    // Every sequence of new and repeated pixels, short or with runs around the longest packet.
    let (w, ht, px): (usize, usize, Vec<usize>) = if ch.flag() {
        let (w, ht) = ch.of(&[(1usize, 1usize), (2, 1), (1, 3), (4, 1), (2, 3), (8, 1), (3, 3)]);
        (w, ht, (0..w * ht).map(|_| ch.pick(3)).collect())
    } else {
        let l = [1usize, 2, 126, 127, 128, 129, 130, 255, 256, 257];
        let mut px: Vec<usize> = vec![];
        for k in 0..3 {
            let (len, run) = (ch.of(&l), ch.flag());
            px.extend((0..len).map(|i| if run { k } else { 3 + i }));
        }
        (px.len(), 1, px)
    };
    let data: Vec<u8> = px.iter().flat_map(|p| (0..n).map(move |c| (p * 31 + c * (p + 7)) as u8)).collect();
    for rle in [true, false] {
        let what = format!("{color:?} {w}x{ht}, run lengths {}, pixels {:?}", if rle { "on" } else { "off" }, &px[..px.len().min(300)]);
        let mut b = vec![];
        let e = TgaEncoder::new(&mut b);
        let e = if rle { e } else { e.disable_rle() };
        e.write_image(&data, w as u32, ht as u32, color.into()).map_err(|e| format!("{what}: {e}"))?;
        let (ty, gw, gh, gn, got) = read_tga(&b).map_err(|e| Viol::new("encode", format!("{what}: {e}; {}", hex(&b[..b.len().min(200)]))))?;
        need!((ty & 8 != 0) == rle, "encode", "{what}: image type {ty}");
        need!((gw, gh, gn) == (w, ht, n) && got == data, "encode", "{what}: {gw}x{gh} of {gn} bytes, {}; {}", first_diff(&got, &data), hex(&b[..b.len().min(200)]));
        // packing never loses more than one byte in a packet
        need!(!rle || b.len() <= 18 + data.len() + px.len(), "encode", "{what}: {} bytes", b.len());
        ch.step();
        ch.validated();
        ch.state(hash_of(&b));
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C24", "model_checking", "one execution = one family of TGA files generated from the model; non-trivial when the decoder delivers exactly the model's pixels, or refuses a malformed file");
    let ks = kinds(c.quick);
    let sizes: Vec<(u16, u16)> = if c.quick { vec![(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (4, 3)] } else { (1..=5).flat_map(|w| (1..=4).map(move |h| (w, h))).collect() };

    c.explore("encode", "four colour types x all sequences of up to 9 pixels of 3 values and all triples of runs and raw stretches of 1 to 257 pixels, with and without run lengths: the file is read by an independent reader", encoded);
    c.explore("raw", "every kind (grey, grey-alpha, alpha, true-colour 24/32, maps of 1/2-byte indices x 24/32-bit entries x origins x lengths) x four origins x identifier lengths {0,1,7,255} x sizes x raw or one-packet-per-row coding", |ch| {
        let k = &ks[ch.pick(ks.len())];
        let (w, h) = ch.of(&sizes);
        for desc in 0..4u8 {
            for idl in [0usize, 1, 7, 255] {
                for rle in [false, true] {
                    let n = w as usize * h as usize;
                    let px: Vec<_> = (0..n).map(|i| k.pixel(i * 3 + i / 2)).collect();
                    let mut f = k.tga(rle);
                    f.w = w;
                    f.h = h;
                    f.x = 9;
                    f.y = 300;
                    f.id = vec![0xC3; idl];
                    f.desc |= desc << 4;
                    for r in px.chunks(w as usize) {
                        if rle {
                            f.data.push(w as u8 - 1);
                        }
                        r.iter().for_each(|p| f.data.extend(&p.0));
                    }
                    let out: Vec<_> = px.iter().map(|p| p.1.clone()).collect();
                    let want = place(&out, w as usize, h as usize, desc & 1 != 0, desc & 2 != 0);
                    expect(ch, &f, k.color(), &want, &|| format!("{k:?} {w}x{h} desc {:#x} id {idl} rle {rle}", f.desc))?;
                }
            }
        }
        ch.sample(|| format!("{k:?} {w}x{h}"));
        Ok(())
    });

    c.explore("large", "every kind x extents of 129, 255 to 257, 1000, 4096, 32768 and 65535 in each direction x four origins x raw, in packets, or in packets over the ends of rows", |ch| {
        let ki = ch.pick(ks.len());
        let k = &ks[ki];
        let n = ch.of(&[129u16, 255, 256, 257, 1000, 4096, 32768, 65535]);
        let (w, h) = ch.of(&[(n, 1), (1, n), (n, 3), (3, n)]);
        let desc = ch.pick(4) as u8;
        let rle = ch.pick(3);
        if ch.quick && n >= 1000 && (ki % 5 != 0 || n >= 32768 && (desc == 1 || desc == 2 || w.min(h) == 3)) {
            return Ok(());
        }
        let n = w as usize * h as usize;
        let px: Vec<_> = (0..n).map(|i| k.pixel(i * 3 + i / 2)).collect();
        let mut f = k.tga(rle > 0);
        f.w = w;
        f.h = h;
        f.desc |= desc << 4;
        let packet = |f: &mut Tga, r: &[_]| {
            if rle > 0 {
                f.data.push(r.len() as u8 - 1);
            }
            let put = |f: &mut Tga, p: &(Vec<u8>, _)| f.data.extend(&p.0);
            r.iter().for_each(|p| put(f, p));
        };
        match rle {
            0 => px.chunks(w as usize).for_each(|r| packet(&mut f, r)),
            1 => px.chunks(w as usize).for_each(|r| r.chunks(128).for_each(|r| packet(&mut f, r))),
            _ => px.chunks(100).for_each(|r| packet(&mut f, r)),
        }
        let out: Vec<_> = px.iter().map(|p| p.1.clone()).collect();
        let want = place(&out, w as usize, h as usize, desc & 1 != 0, desc & 2 != 0);
        expect(ch, &f, k.color(), &want, &|| format!("{k:?} {w}x{h} desc {:#x} coding {rle}", f.desc))
    });

    c.explore("stray-map", "grey and true-colour images that carry a colour map they do not use: all map lengths {0,1,3,256} x origins x entry sizes {15,16,24,32} x image types x raw/RLE", |ch| {
        let k = ch.of(&[Kind::Grey, Kind::GreyAlpha, Kind::AlphaOnly, Kind::Rgb, Kind::Rgba { attr: 0 }, Kind::Rgba { attr: 8 }]);
        let rle = ch.flag();
        for len in [0u16, 1, 3, 256] {
            for origin in [0u16, 2, 0xFFFF] {
                for entry in [15u8, 16, 24, 32] {
                    let mut f = k.tga(rle);
                    (f.w, f.h, f.map_type, f.map_length, f.map_origin, f.map_entry) = (3, 2, 1, len, origin, entry);
                    f.desc |= 0x20;
                    f.map = vec![0x77; len as usize * ((entry as usize + 7) / 8)];
                    let px: Vec<_> = (0..6).map(|i| k.pixel(i)).collect();
                    if rle {
                        f.data.push(5);
                    }
                    px.iter().for_each(|p| f.data.extend(&p.0));
                    let want: Vec<u8> = px.iter().flat_map(|p| p.1.clone()).collect();
                    expect(ch, &f, k.color(), &want, &|| format!("{k:?} with unused map of {len} x {entry} bits from {origin}"))?;
                }
            }
        }
        ch.sample(|| format!("{k:?} rle {rle}"));
        Ok(())
    });

    let maxpix = if c.quick { 7 } else { 9 };
    let rk = vec![Kind::Grey, Kind::GreyAlpha, Kind::Rgb, Kind::Rgba { attr: 8 }, Kind::Map { index_bytes: 1, entry: 3, attr: 0, origin: 1, len: 9 }, Kind::Map { index_bytes: 2, entry: 4, attr: 8, origin: 250, len: 20 }];
    c.explore("packets", &format!("every split of up to {maxpix} pixels into run and raw packets (packets may cross rows), every kind, all sizes with that many pixels, two origins; and the same with the last packet longer than the image"), |ch| {
        let k = &rk[ch.pick(rk.len())];
        let n = 1 + ch.pick(maxpix);
        let mut left = n;
        let mut packs = vec![];
        while left > 0 {
            let len = 1 + ch.pick(left);
            packs.push((len, ch.flag()));
            left -= len;
        }
        let mut data = vec![];
        let mut px = vec![];
        let mut v = 0;
        for (len, run) in &packs {
            data.push((*len as u8 - 1) | if *run { 0x80 } else { 0 });
            if *run {
                let p = k.pixel(v);
                data.extend(&p.0);
                px.extend(std::iter::repeat(p.1).take(*len));
                v += 1;
            } else {
                for _ in 0..*len {
                    let p = k.pixel(v);
                    data.extend(&p.0);
                    px.push(p.1);
                    v += 1;
                }
            }
        }
        for w in 1..=n {
            if n % w != 0 {
                continue;
            }
            for top in [false, true] {
                let mut f = k.tga(true);
                (f.w, f.h, f.data) = (w as u16, (n / w) as u16, data.clone());
                f.desc |= if top { 0x20 } else { 0 };
                let want = place(&px, w, n / w, false, top);
                expect(ch, &f, k.color(), &want, &|| format!("{k:?} packets {packs:?} as {w}x{}", n / w))?;
                // Cut anywhere: refused.
                let whole = f.file();
                let head = whole.len() - data.len();
                for cut in 0..whole.len() {
                    if top && cut < head {
                        continue;
                    }
                    refuse(ch, &whole[..cut], "truncated-accepted", &|| format!("{k:?} packets {packs:?} {w}x{} cut to {cut}", n / w))?;
                }
            }
        }
        ch.sample(|| format!("{k:?} packets {packs:?}"));
        Ok(())
    });

    c.explore("lengths", "one row or one column coded as one or two packets of every length 1..128, run and raw", |ch| {
        let k = ch.of(&[Kind::Grey, Kind::Rgba { attr: 8 }, Kind::Map { index_bytes: 2, entry: 3, attr: 0, origin: 3, len: 200 }]);
        let a = 1 + ch.pick(128);
        let bl = ch.of(&[0usize, 1, 2, 63, 127, 128]);
        for (ra, rb) in [(false, false), (false, true), (true, false), (true, true)] {
            let mut f = k.tga(true);
            let mut px = vec![];
            let mut v = 0;
            for (len, run) in [(a, ra), (bl, rb)] {
                if len == 0 {
                    continue;
                }
                f.data.push((len - 1) as u8 | if run { 0x80 } else { 0 });
                for i in 0..len {
                    let p = k.pixel(v);
                    if !run || i == 0 {
                        f.data.extend(&p.0);
                    }
                    px.push(p.1);
                    if !run || i == len - 1 {
                        v += 1;
                    }
                }
            }
            f.desc |= 0x20;
            for tall in [false, true] {
                (f.w, f.h) = if tall { (1, (a + bl) as u16) } else { ((a + bl) as u16, 1) };
                expect(ch, &f, k.color(), &px.concat(), &|| format!("{k:?} packets {a} run {ra}, {bl} run {rb}, tall {tall}"))?;
            }
        }
        ch.sample(|| format!("{k:?} {a}+{bl}"));
        Ok(())
    });

    c.explore("headers", "every map type {0,1,2} x image type 0..=12,32,33,128,255 x depth {0,1,7,8,15,16,24,31,32,33,40,255} x attribute bits 0..=15 x entry size {0,8,15,16,24,32,33,255}: never a panic; decoded only where the model says what it means; a consistent file never refused", |ch| {
        let map_type = ch.of(&[0u8, 1, 2]);
        let ty = ch.of(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 32, 33, 128, 255]);
        let depth = ch.of(&[0u8, 1, 7, 8, 15, 16, 24, 31, 32, 33, 40, 255]);
        for attr in 0..16u8 {
            for entry in [0u8, 8, 15, 16, 24, 32, 33, 255] {
                for zero in [false, true] {
                    let mut f = Tga { map_type, image_type: ty, depth, desc: attr | 0x20, map_entry: entry, map_length: 4, ..Default::default() };
                    (f.w, f.h) = if zero { (0, 2) } else { (2, 2) };
                    let eb = (entry as usize + 7) / 8;
                    if map_type == 1 {
                        f.map = (0..4 * eb).map(|i| (i * 9 + 1) as u8).collect();
                    }
                    let rle = matches!(ty, 9..=11);
                    let pb = (depth as usize + 7) / 8;
                    if rle && !zero {
                        f.data.push(3);
                    }
                    // Pixel value 2 everywhere, little endian.
                    for _ in 0..if zero { 0 } else { 4 } {
                        f.data.extend((0..pb).map(|k| if k == 0 { 2 } else { 0 }));
                    }
                    let b = f.file();
                    ch.step();
                    ch.state(hash_of(&b));
                    let what = || format!("map {map_type} type {ty} depth {depth} attr {attr} entry {entry} zero {zero}");
                    let mapped = matches!(ty, 1 | 9);
                    let truecol = matches!(ty, 2 | 10);
                    let grey = matches!(ty, 3 | 11);
                    // What the model requires: Some(channels) if consistent.
                    let must = if zero {
                        None
                    } else if mapped && map_type == 1 && matches!(depth, 8 | 16) && matches!((entry, attr), (24, 0) | (32, 0) | (32, 8)) {
                        Some(eb)
                    } else if truecol && map_type < 2 && matches!((depth, attr), (24, 0) | (32, 0) | (32, 8)) {
                        Some(pb)
                    } else if grey && map_type < 2 && matches!((depth, attr), (8, 0) | (16, 8) | (8, 8)) {
                        Some(pb)
                    } else {
                        None
                    };
                    let known = mapped || truecol || grey;
                    match dec(&b) {
                        Err(e) if e.starts_with("PANIC") => return viol("panic", format!("{}: {e}; bytes {}", what(), hex(&b))),
                        Err(e) => {
                            need!(must.is_none(), "refused", "{}: {e}", what());
                            ch.outcome(1);
                        }
                        Ok((_, _, c, o)) => {
                            need!(known, "unknown-type", "{}: decoded as {c:?}", what());
                            if let Some(n) = must {
                                need!(c.bytes_per_pixel() as usize == n, "color", "{}: {c:?}", what());
                                let px: Vec<u8> = if mapped {
                                    let e = &f.map[2 * eb..3 * eb];
                                    let mut p = vec![e[2], e[1], e[0]];
                                    p.extend(e.get(3));
                                    p
                                } else if truecol {
                                    let mut p = vec![0, 0, 2];
                                    p.extend(if pb == 4 { Some(0) } else { None });
                                    p
                                } else {
                                    [2, 0][..pb].to_vec()
                                };
                                need!(o == px.repeat(4), "pixels", "{}: got {} want 4x {}", what(), hex(&o), hex(&px));
                                ch.validated();
                            }
                            ch.outcome(2);
                        }
                    }
                }
            }
        }
        ch.sample(|| format!("map {map_type} type {ty} depth {depth}"));
        Ok(())
    });

    c.explore("indices", "colour-mapped images with every index around the ends of the map (and 16-bit extremes), origins and lengths: in range decodes, out of range is refused", |ch| {
        let index_bytes = 1 + ch.pick(2);
        let (entry, attr) = ch.of(&[(3usize, 0u8), (4, 8)]);
        let origin = ch.of(&[0u16, 1, 2, 100, 254, 255, 256, 4096, 65535]);
        let len = ch.of(&[0u16, 1, 2, 5, 256, 257]);
        let rle = ch.flag();
        let k = Kind::Map { index_bytes, entry, attr, origin, len };
        let mut idx: Vec<usize> = vec![0, 1, 2, 255, 256, 65535, 0x0100, 0x0001];
        for d in 0..3usize {
            idx.extend([origin as usize + d, (origin as usize + len as usize + d).saturating_sub(1), (origin as usize).saturating_sub(d), origin as usize / 3, origin as usize * entry]);
        }
        idx.retain(|i| *i < 1 << (8 * index_bytes));
        idx.sort();
        idx.dedup();
        for i in idx {
            let mut f = k.tga(rle);
            (f.w, f.h) = (1, 1);
            f.desc |= 0x20;
            if rle {
                f.data.push(0);
            }
            f.data.extend((0..index_bytes).map(|k| (i >> (8 * k)) as u8));
            let what = || format!("{k:?} index {i} rle {rle}");
            if i >= origin as usize && i < origin as usize + len as usize {
                let e = Kind::entry(i - origin as usize, entry);
                let mut px = vec![e[2], e[1], e[0]];
                px.extend(e.get(3));
                expect(ch, &f, k.color(), &px, &what)?;
            } else {
                refuse(ch, &f.file(), "index-accepted", &what)?;
            }
        }
        ch.sample(|| format!("{k:?}"));
        Ok(())
    });
    c.finish();
}
