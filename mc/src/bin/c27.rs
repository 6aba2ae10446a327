//! C27: ICO decoding: choice of the entry, transparency mask, checks of the directory.
//! TECHNIQUE: exhaustive enumeration of icon directories, masks and payloads generated from a model of the format, each decoded by the real decoder and compared with the model
//! LEVEL: model_checking
//! NOTE: Between entries of equal depth and area any may be chosen.  PNG entries that are not 32-bit RGBA are refused by the library, which the format's description allows.
use image::codecs::ico::IcoDecoder;
use image::*;
use mc::forge::*;
use mc::*;
use std::io::Cursor;

type Out = Result<(u32, u32, ColorType, Vec<u8>), String>;
fn dec(b: &[u8]) -> Out {
    catch(|| -> ImageResult<_> {
        let d = IcoDecoder::new(Cursor::new(b))?;
        let ((w, h), c) = (d.dimensions(), d.color_type());
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, c, o))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
fn refused(what: &str, o: Out) -> Res {
    match o {
        Ok(_) => viol("", format!("{what}: accepted")),
        Err(e) if e.starts_with("PANIC") => viol("", format!("{what}: {e}")),
        Err(_) => Ok(()),
    }
}
fn same(what: &str, w: u32, h: u32, px: &[[u8; 4]], o: Out) -> Res {
    match o {
        Err(e) => viol("", format!("{what}: refused: {e}")),
        Ok((ow, oh, c, d)) => {
            ensure_eq!((ow, oh, c), (w, h, ColorType::Rgba8), "{what}");
            let e = px.concat();
            ensure!(e == d, "{what}: {} (got {}, the format defines {})", first_diff(&d, &e), short(&hex(&d)), short(&hex(&e)));
            Ok(())
        }
    }
}

/// The BMP part of an entry and its pixels before masking, top row first.
fn bmp_entry(w: usize, h: usize, bpp: u16, salt: usize, real_h: Option<i32>) -> (Vec<u8>, Vec<[u8; 4]>) {
    let mut b = Bmp::new(40, w as i32, real_h.unwrap_or(2 * h as i32), bpp, 0);
    let v = |x: usize, y: usize| (x * 5 + y * 3 + salt) as u32;
    let mut px = vec![];
    if bpp <= 8 {
        b.palette = (0..1usize << bpp).map(|i| [(i * 7 + salt) as u8, (i * 31) as u8, (255 - i) as u8]).collect();
        let rows: Vec<Vec<u32>> = (0..h).rev().map(|y| (0..w).map(|x| v(x, y) % (1 << bpp)).collect()).collect();
        b.data = pack_bits(&rows, bpp as u32, 4);
        for y in 0..h {
            for x in 0..w {
                let p = b.palette[(v(x, y) % (1 << bpp)) as usize];
                px.push([p[0], p[1], p[2], 255]);
            }
        }
    } else {
        let raw = |x: usize, y: usize| -> u32 {
            let k = v(x, y);
            match bpp {
                16 => (k & 1) * 0x1F | (k >> 1 & 1) * 0x3E0 | (k >> 2 & 1) * 0x7C00,
                24 => k.wrapping_mul(0x1_0507) & 0xFF_FFFF,
                _ => k.wrapping_mul(0x0305_0107) ^ 0x8040_2010,
            }
        };
        let rows: Vec<Vec<u32>> = (0..h).rev().map(|y| (0..w).map(|x| raw(x, y)).collect()).collect();
        b.data = pack_le(&rows, bpp as usize / 8);
        for y in 0..h {
            for x in 0..w {
                let r = raw(x, y);
                px.push(match bpp {
                    16 => [(r >> 10 & 31) as u8 * 8 | (r >> 12 & 7) as u8, (r >> 5 & 31) as u8 * 8 | (r >> 7 & 7) as u8, (r & 31) as u8 * 8 | (r >> 2 & 7) as u8, 255],
                    24 => [(r >> 16) as u8, (r >> 8) as u8, r as u8, 255],
                    _ => [(r >> 16) as u8, (r >> 8) as u8, r as u8, (r >> 24) as u8],
                });
            }
        }
    }
    (b.dib(), px)
}
fn png_entry(w: usize, h: usize, salt: usize) -> (Vec<u8>, Vec<[u8; 4]>) {
    let px: Vec<[u8; 4]> = (0..w * h).map(|i| [(i * 3 + salt) as u8, (i + 100) as u8, salt as u8, (i * 17 + 9) as u8]).collect();
    let rows: Vec<Vec<u8>> = px.chunks(w).map(|r| r.concat()).collect();
    (png(w as u32, h as u32, 8, 6, &[], &rows), px)
}
fn masked(px: &[[u8; 4]], m: &[Vec<bool>]) -> Vec<[u8; 4]> {
    px.iter().zip(m.iter().flatten()).map(|(p, m)| if *m { [p[0], p[1], p[2], 0] } else { *p }).collect()
}

fn main() {
    let mut c = Check::start("C27", "model_checking", "one execution is one icon file generated from the model and decoded; it counts when pixels or refusal were compared with the model");
    const DEPTHS: [u16; 6] = [1, 4, 8, 16, 24, 32];

    c.explore("masks", "every mask of every image up to 3x3 (3x4 in thorough), every bit depth", |ch| {
        let bpp = ch.of(&DEPTHS);
        let (w, h) = (ch.range(1, 3) as usize, ch.range(1, if ch.quick { 3 } else { 4 }) as usize);
        let bits = ch.pick(1 << (w * h));
        let m: Vec<Vec<bool>> = (0..h).map(|y| (0..w).map(|x| bits >> (y * w + x) & 1 == 1).collect()).collect();
        let (mut p, px) = bmp_entry(w, h, bpp, 3, None);
        p.extend(and_mask(&m));
        ch.validated();
        ch.outcome(hash_of(&(bpp, w, h, bits)));
        same(&format!("{w}x{h} {bpp} bits, mask {m:?}"), w as u32, h as u32, &masked(&px, &m), dec(&ico(&[IcoEntry { w: w as u8, h: h as u8, planes: 1, bpp, payload: p, len_delta: 0 }])))
    });
    c.explore("mask-rows", "rows of width 1..=256 with every single bit set, two rows, and all padding bits set", |ch| {
        let w = ch.range(1, 256) as usize;
        let at = ch.pick(2 * w);
        let pad = ch.flag();
        let m: Vec<Vec<bool>> = (0..2).map(|y| (0..w).map(|x| y * w + x == at).collect()).collect();
        let bpp = ch.of(&[1, 32]);
        let (mut p, px) = bmp_entry(w, 2, bpp, 1, None);
        let mut mb = and_mask(&m);
        if pad {
            let n = mb.len() / 2;
            for r in 0..2 {
                for x in w..n * 8 {
                    mb[r * n + x / 8] |= 0x80 >> (x % 8);
                }
            }
        }
        p.extend(mb);
        ch.validated();
        same(&format!("{w}x2, mask bit {at}, padding {pad}"), w as u32, 2, &masked(&px, &m), dec(&ico(&[IcoEntry { w: w as u8, h: 2, planes: 1, bpp, payload: p, len_delta: 0 }])))
    });
    c.explore("mask-length", "mask absent, cut at every byte, exact, and followed by extra bytes, with the directory's length telling the truth or not", |ch| {
        let bpp = ch.of(&DEPTHS);
        let (w, h) = ch.of(&[(3usize, 2usize), (33, 2), (1, 1)]);
        let m: Vec<Vec<bool>> = (0..h).map(|y| (0..w).map(|x| (x + y) % 2 == 0).collect()).collect();
        let full = and_mask(&m);
        let n = ch.pick(full.len() + 3);
        let claim = ch.pick(full.len() + 3);
        let (mut p, px) = bmp_entry(w, h, bpp, 5, None);
        let mut tail = full.clone();
        tail.extend([0xFF, 0xFF]);
        p.extend(&tail[..n]);
        let f = ico(&[IcoEntry { w: w as u8, h: h as u8, planes: 1, bpp, payload: p, len_delta: claim as i64 - n as i64 }]);
        let o = dec(&f);
        ch.validated();
        let what = format!("{w}x{h} {bpp} bits: {n} mask bytes present, {claim} claimed of {}", full.len());
        if claim >= full.len() {
            if n >= full.len() { same(&what, w as u32, h as u32, &masked(&px, &m), o) } else { refused(&what, o) }
        } else if claim == 0 {
            same(&what, w as u32, h as u32, &px, o)
        } else {
            refused(&what, o)
        }
    });

    // Directories.
    let sizes: [(usize, usize); 6] = [(1, 1), (2, 1), (1, 3), (2, 2), (255, 1), (256, 1)];
    c.explore("directory", "every directory of 1..=2 entries (3 in thorough; quick: 3 entries over fewer kinds) over six sizes incl. 256, seven depths, BMP or PNG, stored in every order with gaps", |ch| {
        let n = ch.range(1, 3) as usize;
        let few = n == 3 && ch.quick;
        let mut es = vec![];
        let mut want: Vec<(u16, usize, usize, usize, Vec<[u8; 4]>)> = vec![];
        for k in 0..n {
            let (w, h) = if few { ch.of(&[(1, 1), (2, 2), (256, 1)]) } else { ch.of(&sizes) };
            let bpp = if few { ch.of(&[0u16, 8, 32]) } else { ch.of(&[0u16, 1, 4, 8, 24, 32, 256]) };
            let is_png = if few { k == 1 } else { ch.flag() };
            let (p, px) = if is_png { png_entry(w, h, 40 * k + 1) } else { bmp_entry(w, h, 32, 60 * k + 2, None) };
            want.push((bpp, w * h, w, h, px));
            es.push(IcoEntry { w: w as u8, h: h as u8, planes: [1, 0, 256][k], bpp, payload: p, len_delta: 0 });
        }
        let mut f = ico(&es);
        // Store the payloads in another order, with a gap.
        let rot = ch.pick(n);
        if rot > 0 {
            let head = 6 + 16 * n;
            f.truncate(head);
            f.extend([0xCC; 7]);
            for i in 0..n {
                let k = (i + rot) % n;
                let at = f.len() as u32;
                f[6 + 16 * k + 12..6 + 16 * k + 16].copy_from_slice(&at.to_le_bytes());
                f.extend(&es[k].payload);
            }
        }
        let best = want.iter().map(|e| (e.0, e.1)).max().unwrap();
        let o = dec(&f);
        ch.validated();
        ch.state(hash_of(&es.iter().map(|e| (e.w, e.h, e.bpp)).collect::<Vec<_>>()));
        ch.sample(|| format!("{:?}", want.iter().map(|e| (e.0, e.2, e.3)).collect::<Vec<_>>()));
        let what = format!("entries (depth, width, height) {:?}", want.iter().map(|e| (e.0, e.2, e.3)).collect::<Vec<_>>());
        let mut r = Ok(());
        for e in want.iter().filter(|e| (e.0, e.1) == best) {
            r = same(&what, e.2 as u32, e.3 as u32, &e.4, o.clone());
            if r.is_ok() {
                break;
            }
        }
        r
    });
    c.explore("large", "entries of 255, 256 and 0-coded dimensions in both directions against each other at equal depth", |ch| {
        let pool = [(256usize, 256usize), (255, 255), (256, 255), (255, 256), (1, 256), (256, 1), (16, 16), (17, 15)];
        let (a, b) = (ch.of(&pool), ch.of(&pool));
        let es: Vec<_> = [a, b].iter().enumerate().map(|(k, &(w, h))| (png_entry(w, h, k * 77), w, h)).collect();
        let f = ico(&es.iter().map(|((p, _), w, h)| IcoEntry { w: *w as u8, h: *h as u8, planes: 1, bpp: 32, payload: p.clone(), len_delta: 0 }).collect::<Vec<_>>());
        let o = dec(&f);
        ch.validated();
        let k = if b.0 * b.1 > a.0 * a.1 { 1 } else { 0 };
        if a.0 * a.1 == b.0 * b.1 {
            return same("a", a.0 as u32, a.1 as u32, &es[0].0 .1, o.clone()).or(same("b", b.0 as u32, b.1 as u32, &es[1].0 .1, o));
        }
        same(&format!("{a:?} and {b:?}"), es[k].1 as u32, es[k].2 as u32, &es[k].0 .1, o)
    });
    c.explore("dimension-check", "directory dimensions 0..=5 against payload dimensions 1..=4, BMP and PNG: refused exactly when they differ", |ch| {
        let (w, h) = (ch.range(1, 4) as usize, ch.range(1, 4) as usize);
        let (dw, dh) = (ch.range(0, 5) as u8, ch.range(0, 5) as u8);
        let is_png = ch.flag();
        let (p, px) = if is_png { png_entry(w, h, 1) } else { bmp_entry(w, h, 32, 2, None) };
        let o = dec(&ico(&[IcoEntry { w: dw, h: dh, planes: 1, bpp: 32, payload: p, len_delta: 0 }]));
        ch.validated();
        let what = format!("directory {dw}x{dh}, payload {w}x{h} png={is_png}");
        if (dw as usize, dh as usize) == (w, h) { same(&what, w as u32, h as u32, &px, o) } else { refused(&what, o) }
    });
    c.explore("bmp-height", "the stored height must be twice the image's: heights 0..=6 and negative against a 2x2 entry", |ch| {
        let rh = ch.range(-6, 6) as i32;
        let bpp = ch.of(&DEPTHS);
        let (mut p, px) = bmp_entry(2, 2, bpp, 2, Some(rh));
        p.extend([0; 64]);
        let o = dec(&ico(&[IcoEntry { w: 2, h: 2, planes: 1, bpp, payload: p, len_delta: 0 }]));
        ch.validated();
        match (rh, &o) {
            (4, _) => same("height 4", 2, 2, &px, o),
            (-4 | -5 | 5, _) => if let Err(e) = &o { if e.starts_with("PANIC") { viol("", e.clone()) } else { Ok(()) } } else { Ok(()) },
            _ => refused(&format!("2x2 entry with stored height {rh}"), o),
        }
    });
    c.explore("png-kinds", "embedded PNGs of every colour type and depth: RGBA8 decodes, the others are refused", |ch| {
        let (ct, d) = ch.of(&[(0u8, 1u8), (0, 2), (0, 4), (0, 8), (0, 16), (2, 8), (2, 16), (3, 1), (3, 2), (3, 4), (3, 8), (4, 8), (4, 16), (6, 8), (6, 16)]);
        let nch = match ct { 0 | 3 => 1, 4 => 2, 2 => 3, _ => 4 };
        let row = (2 * nch * d as usize + 7) / 8;
        let rows = vec![vec![0u8; row]; 2];
        let extra: Vec<(&[u8; 4], Vec<u8>)> = if ct == 3 { vec![(b"PLTE", vec![1, 2, 3, 4, 5, 6])] } else { vec![] };
        let o = dec(&ico(&[IcoEntry { w: 2, h: 2, planes: 1, bpp: 32, payload: png(2, 2, d, ct, &extra, &rows), len_delta: 0 }]));
        ch.validated();
        if (ct, d) == (6, 8) { same("rgba8", 2, 2, &[[0; 4]; 4], o) } else { refused(&format!("PNG colour type {ct} depth {d}"), o) }
    });
    c.explore("truncation", "every proper prefix of icons with a BMP and a PNG entry (up to the end of the image data proper): refused", |ch| {
        let is_png = ch.flag();
        let (p, _) = if is_png {
            png_entry(2, 2, 1)
        } else {
            let (mut p, px) = bmp_entry(3, 2, 8, 2, None);
            p.extend(and_mask(&[vec![true, false, true], vec![false, true, true]]));
            (p, px)
        };
        let f = ico(&[IcoEntry { w: 2 + !is_png as u8, h: 2, planes: 1, bpp: 32, payload: p, len_delta: 0 }]);
        // The trailing IEND chunk (and the checksum before it) carries no pixels.
        let n = ch.pick(if is_png { f.len() - 16 - 4 } else { f.len() });
        ch.validated();
        refused(&format!("png={is_png}, cut at {n} of {}", f.len()), dec(&f[..n]))
    });
    c.explore("directory-fields", "no entries; planes and depth fields over 256; offsets outside the file", |ch| {
        let v = ch.of(&[0u16, 1, 255, 256, 257, 32768, 65535]);
        let which = ch.pick(4);
        let (p, px) = bmp_entry(2, 2, 32, 2, None);
        let mut e = vec![IcoEntry { w: 2, h: 2, planes: 1, bpp: 32, payload: p, len_delta: 0 }];
        let mut off = None;
        match which {
            0 => e[0].planes = v,
            1 => e[0].bpp = v,
            2 => e.clear(),
            _ => off = Some(v as u32 * 0x1_0001),
        }
        let mut f = ico(&e);
        if let Some(o) = off {
            f[18..22].copy_from_slice(&o.to_le_bytes());
        }
        ch.validated();
        let what = format!("case {which} value {v}");
        if which < 2 && v <= 256 { same(&what, 2, 2, &px, dec(&f)) } else { refused(&what, dec(&f)) }
    });
    c.explore("encoded-frames", "icons written from 1 to 3 (4 in thorough) prepared frames: dimensions 1, 2, 255 and 256 in each direction, every colour type, payloads of 0 to 300 bytes: the exact file", |ch| {
        use image::codecs::ico::*;
        use ExtendedColorType as E;
        let n = 1 + ch.pick(if ch.quick { 2 } else { 3 });
        let mut fr = vec![];
        let mut model = vec![];
        for i in 0..n {
            let (w, h) = (ch.of(&[1u32, 2, 255, 256]), ch.of(&[1u32, 3, 255, 256]));
            let col = ch.of(&[E::Rgba8, E::L1, E::Rgb8, E::La16, E::Rgba32F]);
            let len = ch.of(&[0usize, 1, 300]);
            let payload: Vec<u8> = (0..len).map(|k| (k * 7 + i) as u8).collect();
            fr.push(IcoFrame::with_encoded(payload.clone(), w, h, col).map_err(|e| Viol::new("", format!("{w}x{h} refused: {e}")))?);
            model.push(IcoEntry { w: w as u8, h: h as u8, planes: 0, bpp: col.bits_per_pixel(), payload, len_delta: 0 });
        }
        let mut out = vec![];
        let r = catch(std::panic::AssertUnwindSafe(|| IcoEncoder::new(&mut out).encode_images(&fr)));
        ensure!(matches!(r, Ok(Ok(()))), "{n} frames: {r:?}");
        let e = ico(&model);
        ensure!(out == e, "{n} frames: {}", first_diff(&out, &e));
        ch.state(hash_of(&out));
        ch.validated();
        Ok(())
    });
    c.explore("frame-dimensions", "prepared and encoded frames of widths and heights around 0 and 256: refused outside 1..=256", |ch| {
        use image::codecs::ico::*;
        let (w, h) = (ch.of(&[0u32, 1, 255, 256, 257, 512, 513, 65536, 65537, u32::MAX]), ch.of(&[0u32, 1, 256, 257, 65792, u32::MAX]));
        let ok = (1..=256).contains(&w) && (1..=256).contains(&h);
        let r = catch(|| IcoFrame::with_encoded(&[1u8, 2][..], w, h, ExtendedColorType::Rgba8).is_ok());
        ensure_eq!(r, Ok(ok), "with_encoded {w}x{h}");
        if w < 1000 && h < 1000 {
            let px = vec![9u8; (w * h * 4) as usize];
            let r = catch(|| IcoFrame::as_png(&px, w, h, ExtendedColorType::Rgba8).is_ok());
            ensure_eq!(r, Ok(ok), "as_png {w}x{h}");
            if ok {
                let mut out = vec![];
                IcoEncoder::new(&mut out).encode_images(&[IcoFrame::as_png(&px, w, h, ExtendedColorType::Rgba8).unwrap()]).unwrap();
                same("as_png", w, h, &vec![[9; 4]; (w * h) as usize], dec(&out))?;
            }
        }
        ch.validated();
        Ok(())
    });
    c.explore("frame-count", "0, 1, 2, 255, 256, 257, 65534, 65535, 65536 and 65537 frames, and frames of together over 4 GiB: the exact directory or a refusal", |ch| {
        use image::codecs::ico::*;
        struct Count(Vec<u8>, u64);
        impl std::io::Write for Count {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                if self.0.len() < 6 + 16 * 65537 {
                    self.0.extend_from_slice(&b[..b.len().min(1 << 21)]);
                }
                self.1 += b.len() as u64;
                Ok(b.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        let n = ch.of(&[0usize, 1, 2, 255, 256, 257, 65534, 65535, 65536, 65537]);
        let len = ch.of(&[1usize, 65519, 65520, 66000]);
        let p = vec![0xA5u8; len];
        let fr: Vec<_> = (0..n).map(|_| IcoFrame::with_encoded(&p[..], 3, 4, ExtendedColorType::Rgba8).unwrap()).collect();
        let mut out = Count(vec![], 0);
        let r = catch(std::panic::AssertUnwindSafe(|| IcoEncoder::new(&mut out).encode_images(&fr).is_ok()));
        // The last frame's offset must fit.
        let last = 6 + 16 * n as u64 + (n as u64).saturating_sub(1) * len as u64;
        let ok = (1..=65535).contains(&n) && last <= u32::MAX as u64;
        ensure_eq!(r, Ok(ok), "{n} frames of {len} bytes");
        if ok {
            ensure_eq!(out.1, last + len as u64, "{n} frames of {len} bytes: bytes written");
            ensure_eq!(out.0[..6], [0, 0, 1, 0, n as u8, (n >> 8) as u8], "{n} frames: header");
            for i in 0..n {
                let off = (6 + 16 * n + i * len) as u32;
                let e = [&[3u8, 4, 0, 0, 0, 0, 32, 0][..], &(len as u32).to_le_bytes(), &off.to_le_bytes()].concat();
                ensure_eq!(out.0[6 + 16 * i..][..16], e[..], "{n} frames of {len} bytes: entry {i}");
            }
        }
        ch.validated();
        Ok(())
    });
    c.finish()
}
