//! C02: no bytes make a decoder panic, abort or hang.
//! TECHNIQUE: exhaustive enumeration of a bounded fault space over files of every format (all truncations, all single-byte boundary substitutions, all header-field substitutions and pairs, all short strings), each run through the real decoders with arithmetic and bounds checks on
//! LEVEL: model_checking
//! NOTE: The fault alphabet is boundary values at every byte and every 16/32-bit field of small files, not all 256 values of all bytes; allocation is capped per decode through Limits where a decoder honours them, and images announcing more than 1 MiB are opened but not decoded.
use image::codecs::*;
use image::*;
use mc::corpus::File;
use mc::*;
use std::io::Cursor;

const CAP: u64 = 1 << 20;

fn lim() -> Limits {
    let mut l = Limits::no_limits();
    l.max_alloc = Some(16 << 20);
    l
}
fn frames<'a>(it: Frames<'a>) -> u64 {
    let mut n = 0;
    for f in it.take(8) {
        match f {
            Ok(f) => {
                let _ = (f.delay(), f.buffer().width());
                n += 1
            }
            Err(_) => return n + 100,
        }
    }
    n
}
fn dec<D: ImageDecoder>(mut d: D) -> u64 {
    let (w, h) = d.dimensions();
    let t = d.total_bytes();
    let _ = (d.color_type(), d.original_color_type());
    let _ = d.icc_profile();
    let _ = d.exif_metadata();
    let _ = d.orientation();
    if d.set_limits(lim()).is_err() {
        return 1;
    }
    if t > CAP || w as u64 * h as u64 > CAP {
        return 2;
    }
    let mut b = vec![0xA5; t as usize];
    match d.read_image(&mut b) {
        Ok(()) => 3,
        Err(_) => 4,
    }
}

/// Everything that can be done with `b` as a file of format `f`.
fn probe(f: ImageFormat, b: &[u8]) -> u64 {
    let mut o = vec![];
    let mut r = ImageReader::with_format(Cursor::new(b), f);
    r.limits(lim());
    o.push(match r.into_decoder() {
        Ok(d) => dec(d),
        Err(_) => 0,
    });
    if o[0] != 2 {
        let mut r = ImageReader::with_format(Cursor::new(b), f);
        r.limits(lim());
        o.push(r.decode().is_ok() as u64);
    }
    if let Ok(mut r) = ImageReader::new(Cursor::new(b)).with_guessed_format() {
        r.limits(lim());
        if r.format() != Some(f) {
            if let Ok(d) = r.into_decoder() {
                o.push(dec(d) + 10);
            }
        }
    }
    let small = |d: (u32, u32)| d.0 as u64 * d.1 as u64 <= CAP / 4;
    match f {
        ImageFormat::Gif => {
            if let Ok(mut d) = gif::GifDecoder::new(Cursor::new(b)) {
                if d.set_limits(lim()).is_ok() && small(d.dimensions()) {
                    o.push(frames(d.into_frames()));
                }
            }
        }
        ImageFormat::Png => {
            if let Ok(d) = png::PngDecoder::with_limits(Cursor::new(b), lim()) {
                let _ = d.gamma_value();
                let anim = d.is_apng();
                if small(d.dimensions()) {
                    if let Ok(a) = d.apng() {
                        o.push(frames(a.into_frames()) + anim.map(|x| x as u64).unwrap_or(7) * 1000);
                    }
                }
            }
        }
        ImageFormat::WebP => {
            if let Ok(mut d) = webp::WebPDecoder::new(Cursor::new(b)) {
                let _ = d.set_background_color(Rgba([1, 2, 3, 4]));
                if small(d.dimensions()) && d.has_animation() {
                    o.push(frames(d.into_frames()));
                }
            }
        }
        ImageFormat::Bmp => {
            if let Ok(mut d) = bmp::BmpDecoder::new(Cursor::new(b)) {
                d.set_indexed_color(true);
                let _ = d.get_palette().map(|p| p.len());
                o.push(dec(d));
            }
            if let Ok(mut d) = bmp::BmpDecoder::new(Cursor::new(b)) {
                let (w, h) = d.dimensions();
                if small((w, h)) && w > 1 && h > 1 {
                    let p = d.color_type().bytes_per_pixel() as usize;
                    let mut out = vec![0; p * (w as usize - 1) * (h as usize - 1)];
                    o.push(d.read_rect(1, 1, w - 1, h - 1, &mut out, p * (w as usize - 1)).is_ok() as u64);
                }
            }
            if b.len() > 14 {
                if let Ok(d) = bmp::BmpDecoder::new_without_file_header(Cursor::new(&b[14..])) {
                    o.push(dec(d));
                }
            }
        }
        ImageFormat::Farbfeld => {
            if let Ok(mut d) = farbfeld::FarbfeldDecoder::new(Cursor::new(b)) {
                let (w, h) = d.dimensions();
                if small((w, h)) && w > 1 && h > 1 {
                    let mut out = vec![0; 8 * (w as usize - 1) * (h as usize - 1)];
                    o.push(d.read_rect(1, 1, w - 1, h - 1, &mut out, 8 * (w as usize - 1)).is_ok() as u64);
                }
            }
        }
        ImageFormat::Hdr => {
            if let Ok(d) = hdr::HdrDecoder::new_nonstrict(Cursor::new(b)) {
                let _ = d.metadata();
                o.push(dec(d));
            }
        }
        ImageFormat::Pnm => {
            if let Ok(d) = pnm::PnmDecoder::new(Cursor::new(b)) {
                let (_, h) = d.into_inner();
                let _ = (h.width(), h.height(), h.maximal_sample(), h.subtype());
            }
        }
        ImageFormat::OpenExr => {
            for p in [Some(true), Some(false)] {
                if let Ok(d) = openexr::OpenExrDecoder::with_alpha_preference(Cursor::new(b), p) {
                    o.push(dec(d));
                }
            }
        }
        _ => {}
    }
    hash_of(&o)
}

fn run(ch: &mut Ch, f: ImageFormat, b: &[u8], what: &dyn Fn() -> String) -> Res {
    ch.step();
    match catch(|| probe(f, b)) {
        Ok(h) => {
            ch.outcome(hash_of(&(f as u32 as u64, h)));
            ch.state(hash_of(&b));
            Ok(())
        }
        Err(p) => {
            let loc = p.rsplit(" @ ").next().unwrap_or("").to_string();
            let key = match loc.find("/registry/src/") {
                Some(i) => loc[i + 14..].splitn(2, '/').nth(1).unwrap_or("").to_string(),
                None => loc,
            };
            viol(format!("panic {key}"), format!("{}: {p}; bytes {}", what(), hex(&b[..b.len().min(700)])))
        }
    }
}

fn fnum(f: ImageFormat) -> &'static str {
    match f {
        ImageFormat::Png => "png",
        ImageFormat::Jpeg => "jpeg",
        ImageFormat::Gif => "gif",
        ImageFormat::WebP => "webp",
        ImageFormat::Pnm => "pnm",
        ImageFormat::Tiff => "tiff",
        ImageFormat::Tga => "tga",
        ImageFormat::Dds => "dds",
        ImageFormat::Bmp => "bmp",
        ImageFormat::Ico => "ico",
        ImageFormat::Hdr => "hdr",
        ImageFormat::OpenExr => "exr",
        ImageFormat::Farbfeld => "farbfeld",
        ImageFormat::Avif => "avif",
        ImageFormat::Qoi => "qoi",
        _ => "other",
    }
}
/// Formats whose container or bit stream is parsed by a dependency: their files are costlier and the
/// code under test is thin.
fn thin(f: ImageFormat) -> bool {
    matches!(f, ImageFormat::OpenExr | ImageFormat::Avif | ImageFormat::Jpeg | ImageFormat::WebP | ImageFormat::Tiff)
}

fn main() {
    let mut c = Check::start("C02", "model_checking", "one execution = one family of corruptions of one file at one place; every variant is opened, queried, decoded and, where supported, animated through every access path; non-trivial when the outcome differs from that of the intact file");
    c.hang_after(40);
    c.assume("Resource exhaustion is bounded by the caller: decoders are run with a 16 MiB allocation limit, and images that announce more than 1 MiB of pixels are opened and queried only");
    let files = corpus::all();
    let quick = c.quick;

    // Truncations.
    c.explore("prefixes", "every file x every prefix length (files over 1200 bytes: the first 600 and then every 37th in the quick tier)", |ch| {
        let f = &files[ch.pick(files.len())];
        let n = f.bytes.len();
        let lens: Vec<usize> = (0..=n).filter(|l| !ch.quick || n <= 1200 || *l < 600 || l % 37 == 0).collect();
        let chunk = ch.pick((lens.len() + 31) / 32);
        let whole = catch(|| probe(f.format, &f.bytes)).unwrap_or(1);
        for l in lens.into_iter().skip(chunk * 32).take(32) {
            run(ch, f.format, &f.bytes[..l], &|| format!("{} cut to {l}", f.name))?;
            if l < n && catch(|| probe(f.format, &f.bytes[..l])).ok() != Some(whole) {
                ch.validated();
            }
        }
        ch.sample(|| format!("{} prefixes from {}", f.name, chunk * 32));
        Ok(())
    });

    // One byte.
    let span = |f: &File, quick: bool| -> usize {
        let n = f.bytes.len();
        if !quick {
            return n.min(if thin(f.format) { 1500 } else { 4000 });
        }
        match f.format {
            ImageFormat::Avif => n.min(0),
            ImageFormat::OpenExr => n.min(400),
            ImageFormat::Jpeg => n.min(260),
            ImageFormat::WebP => n.min(130),
            ImageFormat::Png => n.min(260),
            _ => n.min(340),
        }
    };
    let file_sel: Vec<&File> = if quick { files.iter().filter(|f| !(f.format == ImageFormat::Png && f.name.starts_with("png-") && !f.name.contains("Rgb8"))).collect() } else { files.iter().collect() };
    c.explore("byte", "every file x every byte of its leading part (quick: up to 340 bytes; AVIF excluded) x values {0,1,2,3,4,8,0x20,0x7f,0x80,0xfe,0xff, b^1, b^0x80, b+1, b-1}", |ch| {
        let f = file_sel[ch.pick(file_sel.len())];
        let n = span(f, ch.quick);
        if n == 0 {
            return Ok(());
        }
        let blk = ch.pick((n + 7) / 8);
        let mut b = f.bytes.to_vec();
        let whole = catch(|| probe(f.format, &b)).unwrap_or(1);
        for i in blk * 8..(blk * 8 + 8).min(n) {
            let o = b[i];
            let mut vals = vec![0u8, 1, 2, 3, 4, 8, 0x20, 0x7F, 0x80, 0xFE, 0xFF, o ^ 1, o ^ 0x80, o.wrapping_add(1), o.wrapping_sub(1)];
            vals.sort();
            vals.dedup();
            for v in vals {
                if v == o {
                    continue;
                }
                b[i] = v;
                run(ch, f.format, &b, &|| format!("{} byte {i} = {v:#x}", f.name))?;
            }
            b[i] = o;
        }
        let _ = whole;
        ch.validated();
        ch.sample(|| format!("{} bytes {}..", f.name, blk * 8));
        Ok(())
    });

    // Fields.
    let fields: [u32; 10] = [0, 1, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFF];
    c.explore("field", "every file x every offset of its leading part x 16- and 32-bit fields of both byte orders x ten boundary values", |ch| {
        let f = file_sel[ch.pick(file_sel.len())];
        let n = span(f, ch.quick);
        if n < 5 {
            return Ok(());
        }
        let blk = ch.pick((n - 3 + 7) / 8);
        for i in blk * 8..(blk * 8 + 8).min(n - 3) {
            for v in fields {
                for k in 0..4 {
                    let mut b = f.bytes.to_vec();
                    match k {
                        0 => b[i..i + 4].copy_from_slice(&v.to_le_bytes()),
                        1 => b[i..i + 4].copy_from_slice(&v.to_be_bytes()),
                        2 => b[i..i + 2].copy_from_slice(&(v as u16).to_le_bytes()),
                        _ => b[i..i + 2].copy_from_slice(&(v as u16).to_be_bytes()),
                    }
                    if k >= 2 && v > 0xFFFF {
                        continue;
                    }
                    run(ch, f.format, &b, &|| format!("{} field {i} kind {k} = {v:#x}", f.name))?;
                }
            }
        }
        ch.validated();
        ch.sample(|| format!("{} fields {}..", f.name, blk * 8));
        Ok(())
    });

    // Header field pairs for the formats parsed here.
    // (name, field offsets and widths, big endian)
    let heads: Vec<(&str, Vec<(usize, usize)>, bool)> = vec![
        ("bmp-rgb24", vec![(10, 4), (14, 4), (18, 4), (22, 4), (26, 2), (28, 2), (30, 4), (46, 4)], false),
        ("bmp-pal4", vec![(10, 4), (14, 4), (18, 4), (22, 4), (28, 2), (30, 4), (46, 4)], false),
        ("bmp-core4", vec![(10, 4), (14, 4), (18, 2), (20, 2), (24, 2)], false),
        ("bmp-rle8", vec![(10, 4), (18, 4), (22, 4), (28, 2), (30, 4), (46, 4)], false),
        ("bmp-v4-1555", vec![(10, 4), (14, 4), (18, 4), (22, 4), (28, 2), (30, 4), (54, 4), (58, 4), (62, 4), (66, 4)], false),
        ("tga-map24", vec![(0, 1), (1, 1), (2, 1), (3, 2), (5, 2), (7, 1), (12, 2), (14, 2), (16, 1), (17, 1)], false),
        ("tga-rgb-rle", vec![(0, 1), (1, 1), (2, 1), (3, 2), (5, 2), (7, 1), (12, 2), (14, 2), (16, 1), (17, 1)], false),
        ("tga-greya", vec![(1, 1), (2, 1), (5, 2), (7, 1), (12, 2), (14, 2), (16, 1), (17, 1)], false),
        ("acid2.ff", vec![(8, 4), (12, 4)], true),
        ("basic-test.qoi", vec![(4, 4), (8, 4), (12, 1), (13, 1)], true),
        ("dds-dxt5", vec![(4, 4), (8, 4), (12, 4), (16, 4), (76, 4), (80, 4)], false),
        ("dds-dx10", vec![(12, 4), (16, 4), (128, 4), (132, 4), (136, 4), (140, 4), (144, 4)], false),
        ("ico-bmp32", vec![(4, 2), (6, 1), (7, 1), (10, 2), (12, 2), (14, 4), (18, 4), (22, 4), (26, 4), (30, 4), (36, 2), (38, 4)], false),
        ("ico-png", vec![(4, 2), (6, 1), (7, 1), (12, 2), (14, 4), (18, 4)], false),
        ("gif-inner", vec![(6, 2), (8, 2), (10, 1), (34, 2), (36, 2), (38, 2), (40, 2), (42, 1)], false),
        ("gif-anim", vec![(6, 2), (8, 2), (10, 1)], false),
        ("apng", vec![(16, 4), (20, 4), (24, 1), (25, 1), (28, 1)], true),
        ("tiff-g8", vec![(4, 4)], false),
    ];
    let vals: [u64; 14] = [0, 1, 2, 3, 8, 9, 0x10, 0x18, 0x20, 0x7F, 0x80, 0xFF, 0x7FFFFFFF, 0xFFFFFFFF];
    c.explore("field-pairs", "header fields of representative files, all pairs of fields x all pairs of fourteen values (all triples in the thorough tier for headers of at most eight fields)", |ch| {
        let (name, fl, be) = &heads[ch.pick(heads.len())];
        let f = corpus::get(name);
        let a = ch.pick(fl.len());
        let bsel = ch.pick(fl.len());
        let va = ch.of(&vals);
        let put = |b: &mut Vec<u8>, (o, w): (usize, usize), v: u64| {
            let m = if w == 4 { v } else if v == 0x7FFFFFFF { (1u64 << (8 * w - 1)) - 1 } else if v == 0xFFFFFFFF { (1u64 << (8 * w)) - 1 } else { v };
            for k in 0..w {
                let sh = if *be { w - 1 - k } else { k };
                b[o + k] = (m >> (8 * sh)) as u8;
            }
        };
        for vb in vals {
            let mut b = f.bytes.to_vec();
            put(&mut b, fl[a], va);
            put(&mut b, fl[bsel], vb);
            run(ch, f.format, &b, &|| format!("{name} fields {:?}={va:#x} {:?}={vb:#x}", fl[a], fl[bsel]))?;
            if !ch.quick && fl.len() <= 8 {
                for t in 0..fl.len() {
                    for vc in vals {
                        let mut b = b.clone();
                        put(&mut b, fl[t], vc);
                        run(ch, f.format, &b, &|| format!("{name} fields {:?}={va:#x} {:?}={vb:#x} {:?}={vc:#x}", fl[a], fl[bsel], fl[t]))?;
                    }
                }
            }
        }
        ch.validated();
        ch.sample(|| format!("{name} {:?}={va:#x}", fl[a]));
        Ok(())
    });

    // PNG header fields need their checksum.
    c.explore("png-fields", "PNG and APNG: IHDR, acTL and fcTL fields with boundary values and a corrected checksum, all pairs of one chunk", |ch| {
        let name = ch.of(&["apng", "apng-thumb", "png-Fast-Adaptive-Rgb8", "tm3n3p02.png"]);
        let f = corpus::get(name);
        // chunks of the file
        let mut at = 8;
        let mut chunks = vec![];
        while at + 12 <= f.bytes.len() {
            let n = u32::from_be_bytes(f.bytes[at..at + 4].try_into().unwrap()) as usize;
            let ty: [u8; 4] = f.bytes[at + 4..at + 8].try_into().unwrap();
            chunks.push((at, n, ty));
            at += 12 + n;
        }
        let heads: Vec<_> = chunks.into_iter().filter(|(_, _, t)| [*b"IHDR", *b"acTL", *b"fcTL", *b"PLTE", *b"tRNS"].contains(t)).collect();
        let (at, n, ty) = heads[ch.pick(heads.len())];
        let fl: Vec<(usize, usize)> = match &ty {
            b"IHDR" => vec![(0, 4), (4, 4), (8, 1), (9, 1), (10, 1), (11, 1), (12, 1)],
            b"acTL" => vec![(0, 4), (4, 4)],
            b"fcTL" => vec![(0, 4), (4, 4), (8, 4), (12, 4), (16, 4), (20, 2), (22, 2), (24, 1), (25, 1)],
            _ => (0..n.min(3)).map(|i| (i, 1)).collect(),
        };
        let a = ch.pick(fl.len());
        let va = ch.of(&[0u64, 1, 2, 3, 4, 8, 16, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]);
        for b2 in 0..fl.len() {
            for vb in [0u64, 1, 2, 3, 4, 8, 16, 0x7FFFFFFF, 0xFFFFFFFF] {
                let mut b = f.bytes.to_vec();
                for ((o, w), v) in [(fl[a], va), (fl[b2], vb)] {
                    for k in 0..w {
                        b[at + 8 + o + k] = (v >> (8 * (w - 1 - k))) as u8;
                    }
                }
                let crc = forge::crc32(&b[at + 4..at + 8 + n]);
                b[at + 8 + n..at + 12 + n].copy_from_slice(&crc.to_be_bytes());
                run(ch, f.format, &b, &|| format!("{name} chunk {} {:?}={va:#x} {:?}={vb:#x}", String::from_utf8_lossy(&ty), fl[a], fl[b2]))?;
            }
        }
        ch.validated();
        ch.sample(|| format!("{name} {:?} {:?}={va:#x}", String::from_utf8_lossy(&ty), fl[a]));
        Ok(())
    });

    // TIFF directory entries: every field of every entry.
    c.explore("tiff-ifd", "TIFF: every directory entry's tag, type, count and value with boundary values, all pairs within an entry", |ch| {
        let name = ch.of(&["tiff-g8", "tiff-rgb8-strips", "tiff-rgba16", "tiff-cmyk8", "tiff-g16be"]);
        let f = corpus::get(name);
        let be = f.bytes[0] == b'M';
        let rd = |o: usize, n: usize| -> u64 { (0..n).fold(0, |a, k| if be { a << 8 | f.bytes[o + k] as u64 } else { a | (f.bytes[o + k] as u64) << (8 * k) }) };
        let ifd = rd(4, 4) as usize;
        let n = rd(ifd, 2) as usize;
        let e = ifd + 2 + 12 * ch.pick(n);
        let tags = [0u64, 254, 256, 257, 258, 259, 262, 273, 277, 278, 279, 284, 317, 320, 322, 324, 339, 530, 34675, 65535];
        let types: [u64; 9] = [0, 1, 2, 3, 4, 5, 7, 12, 16];
        let vals: [u64; 11] = [0, 1, 2, 3, 5, 8, 16, 32, 0x7FFF, 0x7FFFFFFF, 0xFFFFFFFF];
        let (fa, va) = {
            let k = ch.pick(tags.len() + types.len() + vals.len() * 2);
            if k < tags.len() {
                ((0usize, 2usize), tags[k])
            } else if k < tags.len() + types.len() {
                ((2, 2), types[k - tags.len()])
            } else if k < tags.len() + types.len() + vals.len() {
                ((4, 4), vals[k - tags.len() - types.len()])
            } else {
                ((8, 4), vals[k - tags.len() - types.len() - vals.len()])
            }
        };
        for (fb, vs) in [((2usize, 2usize), &types[..]), ((4, 4), &vals[..]), ((8, 4), &vals[..])] {
            for vb in vs {
                let mut b = f.bytes.to_vec();
                for ((o, w), v) in [(fa, va), (fb, *vb)] {
                    for k in 0..w {
                        let sh = if be { w - 1 - k } else { k };
                        b[e + o + k] = (v >> (8 * sh)) as u8;
                    }
                }
                run(ch, f.format, &b, &|| format!("{name} entry at {e} {fa:?}={va:#x} {fb:?}={vb:#x}"))?;
            }
        }
        ch.validated();
        ch.sample(|| format!("{name} entry at {e} {fa:?}={va:#x}"));
        Ok(())
    });

    // Short strings of a small alphabet after each signature.
    let sigs: Vec<(ImageFormat, Vec<u8>)> = vec![
        (ImageFormat::Pnm, b"P1 ".to_vec()),
        (ImageFormat::Pnm, b"P2 ".to_vec()),
        (ImageFormat::Pnm, b"P3".to_vec()),
        (ImageFormat::Pnm, b"P4 ".to_vec()),
        (ImageFormat::Pnm, b"P5 ".to_vec()),
        (ImageFormat::Pnm, b"P6\n".to_vec()),
        (ImageFormat::Pnm, b"P7\n".to_vec()),
        (ImageFormat::Pnm, b"P5 1 1 ".to_vec()),
        (ImageFormat::Pnm, b"P2 1 1 ".to_vec()),
        (ImageFormat::Hdr, b"#?RADIANCE\n".to_vec()),
        (ImageFormat::Hdr, b"#?RADIANCE\n\n-Y ".to_vec()),
    ];
    let alpha: [u8; 14] = [b'0', b'1', b'9', b' ', b'\n', b'#', b'\r', b'-', b'+', b'Y', b'X', 0, 0xFF, b'='];
    let depth = if quick { 5 } else { 6 };
    c.explore("text-headers", &format!("every string of {depth} characters over a 14-letter alphabet after each textual signature"), |ch| {
        let (f, s) = &sigs[ch.pick(sigs.len())];
        let mut b = s.clone();
        for _ in 0..depth - 2 {
            b.push(ch.of(&alpha));
        }
        for x in alpha {
            for y in alpha {
                let mut b = b.clone();
                b.push(x);
                b.push(y);
                run(ch, *f, &b, &|| format!("{:?}", String::from_utf8_lossy(&b)))?;
            }
        }
        ch.validated();
        Ok(())
    });
    let nums = ["0", "1", "2", "3", "8", "255", "256", "65535", "65536", "4294967295", "4294967296", "99999999999999999999"];
    c.explore("text-numbers", "PNM headers (P1-P7) and HDR resolution lines with every triple of twelve boundary numbers, with and without data", |ch| {
        let k = ch.pick(8);
        let a = ch.of(&nums);
        let bq = ch.of(&nums);
        for m in nums {
            for data in [&b""[..], &[0; 40], b"1 0 1 1 0 0 1 70000"] {
                let mut b = match k {
                    0..=5 => format!("P{} {a} {bq} {m}\n", k + 1).into_bytes(),
                    6 => format!("P7\nWIDTH {a}\nHEIGHT {bq}\nDEPTH 3\nMAXVAL {m}\nTUPLTYPE RGB\nENDHDR\n").into_bytes(),
                    _ => format!("#?RADIANCE\n{m}\n\n-Y {a} +X {bq}\n").into_bytes(),
                };
                if k == 0 || k == 3 {
                    b = format!("P{} {a} {bq}\n", k + 1).into_bytes();
                }
                b.extend_from_slice(data);
                run(ch, if k == 7 { ImageFormat::Hdr } else { ImageFormat::Pnm }, &b, &|| String::from_utf8_lossy(&b).to_string())?;
                if k == 6 {
                    let b2 = [format!("P7\nWIDTH {a}\nHEIGHT {bq}\nDEPTH {m}\nMAXVAL 255\nENDHDR\n").as_bytes(), data].concat();
                    run(ch, ImageFormat::Pnm, &b2, &|| String::from_utf8_lossy(&b2).to_string())?;
                }
            }
        }
        ch.validated();
        Ok(())
    });

    // All very short inputs, every format.
    let fmts = [ImageFormat::Png, ImageFormat::Jpeg, ImageFormat::Gif, ImageFormat::WebP, ImageFormat::Pnm, ImageFormat::Tiff, ImageFormat::Tga, ImageFormat::Dds, ImageFormat::Bmp, ImageFormat::Ico, ImageFormat::Hdr, ImageFormat::OpenExr, ImageFormat::Farbfeld, ImageFormat::Avif, ImageFormat::Qoi];
    c.explore("short", "all inputs of up to two bytes, and all three-byte inputs over boundary values, as each format", |ch| {
        let f = ch.of(&fmts);
        let a = ch.pick(257);
        if a == 0 {
            return run(ch, f, &[], &|| "empty".into());
        }
        let a = (a - 1) as u8;
        run(ch, f, &[a], &|| format!("{a:02x}"))?;
        for b in 0..=255u8 {
            run(ch, f, &[a, b], &|| format!("{} {a:02x}{b:02x}", fnum(f)))?;
        }
        for b in [0u8, 1, 0x7F, 0x80, 0xFF] {
            for d in [0u8, 1, 0x7F, 0x80, 0xFF] {
                run(ch, f, &[a, b, d], &|| format!("{a:02x}{b:02x}{d:02x}"))?;
            }
        }
        ch.validated();
        Ok(())
    });
    // RLE command streams.
    c.explore("rle-streams", "BMP RLE8/RLE4 and TGA run-length streams: all byte strings of a six-letter alphabet up to length 7 (quick 6)", |ch| {
        let k = ch.pick(3);
        let n = if ch.quick { 6 } else { 7 };
        let al: [u8; 6] = if k == 2 { [0, 1, 0x7F, 0x80, 0x83, 0xFF] } else { [0, 1, 2, 3, 5, 0xFF] };
        let mut d = vec![];
        for _ in 0..n - 2 {
            d.push(ch.of(&al));
        }
        for x in al {
            for y in al {
                let mut d = d.clone();
                d.extend([x, y]);
                let (f, b) = match k {
                    2 => (ImageFormat::Tga, forge::Tga { image_type: 11, w: 4, h: 2, depth: 8, data: d, ..Default::default() }.file()),
                    k => {
                        let mut b = forge::Bmp::new(40, 4, 3, if k == 0 { 8 } else { 4 }, 1 + k as u32);
                        b.palette = vec![[1, 2, 3], [4, 5, 6], [7, 8, 9]];
                        b.clrs_used = 3;
                        b.data = d;
                        (ImageFormat::Bmp, b.file())
                    }
                };
                run(ch, f, &b, &|| format!("{} stream {}", fnum(f), hex(&b[b.len() - n..])))?;
            }
        }
        ch.validated();
        Ok(())
    });
    // Going through all the frames, past errors.
    let anims: Vec<&File> = files.iter().filter(|f| matches!(f.format, ImageFormat::Gif | ImageFormat::Png | ImageFormat::WebP)).collect();
    c.explore("frames end", "every GIF, PNG and WebP file of the corpus, whole, cut anywhere, or with one byte of its first 200 (800) replaced, without limits and with four: going on past errors, the frames end after no more of them than the file has bytes", |ch| {
        let f = anims[ch.pick(anims.len())];
        let n = f.bytes.len();
        let mut b = f.bytes.to_vec();
        let what = if ch.flag() {
            let k = ch.pick(n.min(if ch.quick { 700 } else { 5000 }) + 1);
            b.truncate(if k == n.min(700) { n } else { k });
            format!("cut to {}", b.len())
        } else {
            let at = ch.pick(n.min(if ch.quick { 200 } else { 800 }));
            let v = ch.of(&[0u8, 1, 0x7F, 0xFF]);
            b[at] = v;
            format!("byte {at} = {v}")
        };
        for (w, a) in [(None, None), (None, Some(0)), (None, Some(100)), (None, Some(700)), (Some(1), None)] {
            let mut l = Limits::no_limits();
            l.max_image_width = w;
            l.max_alloc = a.or(Some(CAP));
            ch.step();
            let r = catch(std::panic::AssertUnwindSafe(|| {
                let it = match f.format {
                    ImageFormat::Gif => gif::GifDecoder::new(Cursor::new(&b)).and_then(|mut d| {
                        // (Whatever the canvas: only the frames look at the limit on memory.)
                        let _ = d.set_limits(l.clone());
                        Ok(d.into_frames())
                    }),
                    ImageFormat::Png => png::PngDecoder::with_limits(Cursor::new(&b), lim()).and_then(|mut d| {
                        let _ = d.set_limits(l.clone());
                        Ok(d.apng()?.into_frames())
                    }),
                    _ => webp::WebPDecoder::new(Cursor::new(&b)).and_then(|mut d| {
                        d.set_limits(l.clone())?;
                        let (w, h) = d.dimensions();
                        if u64::from(w) * u64::from(h) > CAP / 4 {
                            return Ok(Frames::new(Box::new(std::iter::empty())));
                        }
                        Ok(d.into_frames())
                    }),
                };
                it.map(|it| it.take(n + 3).fold((0usize, 0usize), |a, f| (a.0 + 1, a.1 + f.is_err() as usize)))
            }));
            // (Panics are the other parts' business.)
            if let Ok(Ok((items, errors))) = r {
                need!(items <= n + 2, "endless", "{} {what}, width limit {w:?}, allocation limit {a:?}: more than {} frames, {errors} errors", f.name, n + 2);
                ch.outcome(hash_of(&(items, errors)));
                ch.validated();
            }
        }
        Ok(())
    });
    c.finish();
}
