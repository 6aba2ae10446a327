//! C31: AVIF encoding accepts every image and option without panicking.
//! TECHNIQUE: exhaustive enumeration of sizes, colour types, buffer alignments and encoder options over the real encoder; every file is parsed by an independent box parser, decoded and compared, and files of other colour types compared with those of the converted image
//! LEVEL: model_checking
//! NOTE: Sizes 1..=12 (24) in both directions and around the 64-pixel superblocks; speeds, qualities and thread counts at, inside and outside the documented ranges. Closeness is a bound on the mean error (and the greatest, for plain images) that grows as the quality falls; it is measured through the library's decoder.
use image::codecs::avif::{AvifEncoder, ColorSpace};
use image::*;
use mc::*;
use ExtendedColorType as X;

fn be(b: &[u8], at: usize, n: usize) -> Option<u64> {
    b.get(at..at + n).map(|s| s.iter().fold(0, |a, x| a << 8 | *x as u64))
}
/// Boxes of a range: (type, start of the content, end).
fn boxes(b: &[u8], mut at: usize, end: usize) -> Result<Vec<([u8; 4], usize, usize)>, String> {
    let mut v = vec![];
    while at < end {
        let len = be(b, at, 4).ok_or("truncated box")? as usize;
        let t: [u8; 4] = b.get(at + 4..at + 8).ok_or("truncated box")?.try_into().unwrap();
        if len < 8 || at + len > end {
            return Err(format!("box {} of {len} bytes at {at} of {end}", String::from_utf8_lossy(&t)));
        }
        v.push((t, at + 8, at + len));
        at += len;
    }
    Ok(v)
}
struct Avif {
    sizes: Vec<(u32, u32)>,
    items: usize,
}
fn parse(b: &[u8]) -> Result<Avif, String> {
    let top = boxes(b, 0, b.len())?;
    let find = |l: &[([u8; 4], usize, usize)], t: &[u8; 4]| l.iter().find(|x| &x.0 == t).copied().ok_or(format!("no {} box", String::from_utf8_lossy(t)));
    if top.first().map(|t| &t.0) != Some(b"ftyp") {
        return Err("does not start with ftyp".into());
    }
    let f = top[0];
    if b.get(f.1..f.1 + 4) != Some(b"avif") {
        return Err("the major brand is not avif".into());
    }
    let meta = find(&top, b"meta")?;
    let mdat = find(&top, b"mdat")?;
    let m = boxes(b, meta.1 + 4, meta.2)?;
    find(&m, b"hdlr")?;
    find(&m, b"pitm")?;
    let iloc = find(&m, b"iloc")?;
    let ver = b[iloc.1];
    let sizes = be(b, iloc.1 + 4, 2).ok_or("iloc")?;
    let (os, ls, bs) = ((sizes >> 12) as usize, (sizes >> 8 & 15) as usize, (sizes >> 4 & 15) as usize);
    let mut at = iloc.1 + 6;
    let n = be(b, at, 2).ok_or("iloc")? as usize;
    at += 2;
    for _ in 0..n {
        at += 2;
        if ver >= 1 {
            at += 2;
        }
        at += 2;
        let base = be(b, at, bs).ok_or("iloc")?;
        at += bs;
        let e = be(b, at, 2).ok_or("iloc")?;
        at += 2;
        for _ in 0..e {
            let o = base + be(b, at, os).ok_or("iloc")?;
            let l = be(b, at + os, ls).ok_or("iloc")?;
            at += os + ls;
            if l == 0 || o < mdat.1 as u64 || o + l > mdat.2 as u64 {
                return Err(format!("an item of {l} bytes at {o}, outside mdat {}..{}", mdat.1, mdat.2));
            }
        }
    }
    if at != iloc.2 {
        return Err("iloc does not end where its entries do".into());
    }
    let iprp = find(&m, b"iprp")?;
    let p = boxes(b, iprp.1, iprp.2)?;
    let ipco = find(&p, b"ipco")?;
    let mut s = vec![];
    for x in boxes(b, ipco.1, ipco.2)? {
        if &x.0 == b"ispe" {
            s.push((be(b, x.1 + 4, 4).ok_or("ispe")? as u32, be(b, x.1 + 8, 4).ok_or("ispe")? as u32));
        }
    }
    Ok(Avif { sizes: s, items: n })
}

struct Placed {
    v: Vec<u64>,
    off: usize,
    len: usize,
}
impl Placed {
    fn new(d: &[u8], off: usize) -> Placed {
        let mut p = Placed { v: vec![0; d.len() / 8 + 2], off, len: d.len() };
        let q = p.v.as_mut_ptr() as *mut u8;
        unsafe { std::slice::from_raw_parts_mut(q.add(off), p.len).copy_from_slice(d) };
        p
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts((self.v.as_ptr() as *const u8).add(self.off), self.len) }
    }
}
#[derive(Clone, Copy, Debug)]
struct Opt {
    speed: u8,
    quality: u8,
    /// None: not set.
    threads: Option<Option<usize>>,
    space: Option<ColorSpace>,
}
fn encode(b: &[u8], w: u32, h: u32, x: X, o: Opt) -> Result<ImageResult<Vec<u8>>, String> {
    catch(std::panic::AssertUnwindSafe(|| {
        let mut v = vec![];
        let mut e = AvifEncoder::new_with_speed_quality(&mut v, o.speed, o.quality);
        if let Some(t) = o.threads {
            e = e.with_num_threads(t);
        }
        if let Some(s) = o.space {
            e = e.with_colorspace(s);
        }
        e.write_image(b, w, h, x)?;
        Ok(v)
    }))
}
const GOOD: Opt = Opt { speed: 10, quality: 100, threads: Some(Some(1)), space: None };
const COL8: [ColorType; 8] = [ColorType::L8, ColorType::La8, ColorType::Rgb8, ColorType::Rgba8, ColorType::L16, ColorType::La16, ColorType::Rgb16, ColorType::Rgba16];

fn image(w: u32, h: u32, color: ColorType, kind: usize) -> DynamicImage {
    match kind {
        0..=1 => {
            // Plain: one colour.
            let mut r = pattern(w, h, color, 2);
            let bpp = color.bytes_per_pixel() as usize;
            let px = r.data[..bpp].to_vec();
            for p in r.data.chunks_mut(bpp) {
                p.copy_from_slice(&px);
            }
            if kind == 1 && color.has_alpha() {
                let a = bytes_per_sample(color);
                for p in r.data.chunks_mut(bpp) {
                    p[bpp - a..].fill(255);
                }
            }
            r.dynamic()
        }
        2 => {
            // Smooth
            let d = RgbaImage::from_fn(w, h, |x, y| Rgba([(x * 6 + 30) as u8, (y * 5 + 60) as u8, ((x + y) * 3 + 20) as u8, 255 - (x * 3) as u8]));
            convert_to(&DynamicImage::from(d), color)
        }
        _ => pattern(w, h, color, kind - 1).dynamic(),
    }
}

fn convert_to(d: &DynamicImage, c: ColorType) -> DynamicImage {
    match c {
        ColorType::L8 => d.to_luma8().into(),
        ColorType::La8 => d.to_luma_alpha8().into(),
        ColorType::Rgb8 => d.to_rgb8().into(),
        ColorType::Rgba8 => d.to_rgba8().into(),
        ColorType::L16 => d.to_luma16().into(),
        ColorType::La16 => d.to_luma_alpha16().into(),
        ColorType::Rgb16 => d.to_rgb16().into(),
        _ => d.to_rgba16().into(),
    }
}
/// Parses and decodes the file and compares it with the image.
fn check(file: &[u8], img: &DynamicImage, kind: usize, q: u8, what: &str) -> Res {
    let a = parse(file).map_err(|e| Viol::new("file", format!("{what}: {e}")))?;
    let dim = img.dimensions();
    need!(!a.sizes.is_empty() && a.sizes.iter().all(|s| *s == dim), "size", "{what}: the file says {:?}", a.sizes);
    need!(a.items == 1 || img.color().has_alpha(), "items", "{what}: {} items", a.items);
    let d = match catch(|| load_from_memory_with_format(file, ImageFormat::Avif)) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => return viol("decode", format!("{what}: {e}")),
        Err(e) => return viol("decode", format!("{what}: {e}")),
    };
    need!(d.dimensions() == dim, "size", "{what}: decoded as {:?}", d.dimensions());
    let (x, y) = (img.to_rgba8(), d.to_rgba8());
    let (mut sum, mut n, mut most) = (0f64, 0f64, 0f64);
    for (p, q) in x.pixels().zip(y.pixels()) {
        let e = (p[3] as f64 - q[3] as f64).abs();
        most = most.max(e);
        sum += e;
        n += 1.;
        // Colours count as much as they can be seen.
        let al = p[3].min(q[3]) as f64 / 255.;
        for c in 0..3 {
            let e = (p[c] as f64 - q[c] as f64).abs() * al;
            most = most.max(e);
            sum += e;
            n += 1.;
        }
    }
    let mean = sum / n;
    if std::env::var("SHOW").is_ok() {
        eprintln!("SHOW {kind} {q} {mean:.2} {most:.2} {what}");
    }
    let (lm, lmost) = limits(kind, q);
    need!(mean <= lm && most <= lmost, "content", "{what}: mean error {mean:.2} of at most {lm}, greatest {most:.1} of at most {lmost}");
    Ok(())
}
fn limits(kind: usize, q: u8) -> (f64, f64) {
    let k = (100 - q.clamp(1, 100)) as f64;
    match kind {
        0 | 1 => (2. + k * 0.2, 3. + k * 0.4),
        2 => (2. + k * 0.3, 24. + k),
        _ => (4. + k, 255.),
    }
}

fn main() {
    let mut c = Check::start("C31", "model_checking", "one execution = one image encoded, the file parsed, decoded and compared");
    c.hang_after(300);
    let quick = c.quick;
    let m = if quick { 12 } else { 24 };
    c.explore("sizes", "all sizes up to 12x12 (24x24) x 8 colour types x 3 contents", |ch| {
        let (w, h) = (ch.range(1, m) as u32, ch.range(1, m) as u32);
        let color = COL8[ch.pick(8)];
        let kind = ch.of(&[0usize, 2, 3]);
        let img = image(w, h, color, kind);
        let what = format!("{w}x{h} {color:?} content {kind}");
        let f = match encode(img.as_bytes(), w, h, color.into(), GOOD) {
            Ok(Ok(f)) => f,
            r => return viol("encode", format!("{what}: {:?}", r.map(|r| r.map(|v| v.len())))),
        };
        ch.state(hash_of(&(w, h, color, kind)));
        ch.outcome(hash_of(&f));
        ch.validated();
        ch.sample(|| what.clone());
        check(&f, &img, kind, 100, &what)
    });
    c.explore("superblocks", "sizes around 16, 32, 64 and 128 in one direction or both x 4 colour types x 3 contents", |ch| {
        let s = if quick { &[1u32, 63, 64, 65][..] } else { &[1u32, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129] };
        let (w, h) = (ch.of(s), ch.of(s));
        let color = ch.of(&[ColorType::L8, ColorType::Rgb8, ColorType::Rgba8, ColorType::Rgba16]);
        let kind = ch.of(&[0usize, 2, 3]);
        let img = image(w, h, color, kind);
        let what = format!("{w}x{h} {color:?} content {kind}");
        match encode(img.as_bytes(), w, h, color.into(), Opt { threads: None, ..GOOD }) {
            Ok(Ok(f)) => check(&f, &img, kind, 100, &what),
            r => viol("encode", format!("{what}: {:?}", r.map(|r| r.map(|v| v.len())))),
        }
    });
    c.explore("options", "speeds 0..=12, 255 x qualities 0, 1, 2, 50, 99, 100, 101, 255 x 5 thread settings x 3 colour spaces x 4 colour types x 2 sizes", |ch| {
        let speed = ch.of(if quick { &[10u8, 0, 1, 9, 11, 255][..] } else { &[10, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 255] });
        let quality = ch.of(&[80u8, 0, 1, 2, 50, 99, 100, 101, 255]);
        let threads = ch.of(&[Some(Some(1)), None, Some(None), Some(Some(0)), Some(Some(3))]);
        let space = ch.of(&[None, Some(ColorSpace::Srgb), Some(ColorSpace::Bt709)]);
        if quick && threads != Some(Some(1)) && (speed < 10 && speed > 0) {
            return Ok(());
        }
        let (w, h) = ch.of(&[(5u32, 3u32), (1, 1)]);
        let color = ch.of(&[ColorType::Rgb8, ColorType::Rgba8, ColorType::L8, ColorType::La16]);
        let kind = ch.of(&[0, 2]);
        let o = Opt { speed, quality, threads, space };
        let img = image(w, h, color, kind);
        let what = format!("{w}x{h} {color:?} content {kind} with {o:?}");
        ch.state(hash_of(&(speed, quality, format!("{threads:?}{space:?}"))));
        match encode(img.as_bytes(), w, h, color.into(), o) {
            Ok(Ok(f)) => {
                ch.validated();
                check(&f, &img, kind, quality, &what)
            }
            r => viol("options", format!("{what}: {:?}", r.map(|r| r.map(|v| v.len())))),
        }
    });
    c.explore("alignment", "all 8 colour types x 8 alignments x sizes: the same file", |ch| {
        let color = COL8[ch.pick(8)];
        let (w, h) = (ch.range(1, 4) as u32, ch.range(1, 3) as u32);
        let kind = ch.range(0, 4) as usize;
        let img = image(w, h, color, kind);
        let base = encode(Placed::new(img.as_bytes(), 0).bytes(), w, h, color.into(), GOOD);
        let Ok(Ok(base)) = base else { return viol("encode", format!("{w}x{h} {color:?}")) };
        for off in 1..8 {
            let p = Placed::new(img.as_bytes(), off);
            match encode(p.bytes(), w, h, color.into(), GOOD) {
                Ok(Ok(f)) => need!(f == base, "alignment", "{w}x{h} {color:?} content {kind} at offset {off}: another file"),
                r => return viol("alignment", format!("{w}x{h} {color:?} at offset {off}: {:?}", r.map(|r| r.map(|v| v.len())))),
            }
            ch.step();
        }
        ch.validated();
        Ok(())
    });
    c.explore("conversion", "images of other colour types give the file of the same image converted to 8-bit RGBA", |ch| {
        let color = COL8[ch.pick(8)];
        let (w, h) = (ch.range(1, 4) as u32, ch.range(1, 4) as u32);
        let kind = ch.range(0, 6) as usize;
        let img = image(w, h, color, kind);
        let conv = DynamicImage::from(img.to_rgba8());
        let r = (encode(img.as_bytes(), w, h, color.into(), GOOD), encode(conv.as_bytes(), w, h, X::Rgba8, GOOD));
        match r {
            (Ok(Ok(a)), Ok(Ok(b))) => {
                if color != ColorType::Rgb8 {
                    need!(a == b, "conversion", "{w}x{h} {color:?} content {kind}: not the file of the converted image");
                }
                let (a, b) = (parse(&a), parse(&b));
                need!(a.is_ok() && b.is_ok(), "file", "{w}x{h} {color:?}");
                ch.validated();
                Ok(())
            }
            _ => viol("encode", format!("{w}x{h} {color:?} content {kind}")),
        }
    });
    c.explore("entry points", "write_to, write_buffer_with_format and the encoder's defaults", |ch| {
        let color = COLORS[ch.pick(10)];
        let (w, h) = (ch.range(1, 5) as u32, ch.range(1, 5) as u32);
        let img = image(w, h, color, 3);
        let how = ch.pick(3);
        let r = catch(std::panic::AssertUnwindSafe(|| -> ImageResult<Vec<u8>> {
            let mut o = std::io::Cursor::new(vec![]);
            match how {
                0 => img.write_to(&mut o, ImageFormat::Avif)?,
                1 => write_buffer_with_format(&mut o, img.as_bytes(), w, h, color, ImageFormat::Avif)?,
                _ => img.write_with_encoder(AvifEncoder::new(&mut o))?,
            }
            Ok(o.into_inner())
        }));
        let what = format!("{w}x{h} {color:?} by way {how}");
        let float = matches!(color, ColorType::Rgb32F | ColorType::Rgba32F);
        match r {
            Err(p) => viol("entry points", format!("{what}: {p}")),
            Ok(Err(e)) => {
                need!(float, "entry points", "{what}: {e}");
                Ok(())
            }
            Ok(Ok(f)) => check(&f, &img, 3, 80, &what),
        }
    });
    c.explore("refused", "all other extended colour types, empty images: an error", |ch| {
        let x = ch.of(&[X::A8, X::L1, X::La1, X::Rgb1, X::Rgba1, X::L2, X::La2, X::Rgb2, X::Rgba2, X::L4, X::La4, X::Rgb4, X::Rgba4, X::Bgr8, X::Bgra8, X::Rgb32F, X::Rgba32F, X::Cmyk8, X::Unknown(8), X::L8, X::La8, X::Rgb8, X::Rgba8, X::L16, X::La16, X::Rgb16, X::Rgba16]);
        let known = COL8.iter().any(|c| X::from(*c) == x);
        let (w, h) = (ch.range(0, 3) as u32, ch.range(0, 3) as u32);
        if known && w > 0 && h > 0 {
            return Ok(());
        }
        let n = (x.bits_per_pixel() as usize * w as usize).div_ceil(8) * h as usize;
        match encode(&vec![7; n], w, h, x, GOOD) {
            Ok(Err(_)) => Ok(()),
            r => viol("refused", format!("{w}x{h} {x:?}: {:?}", r.map(|r| r.map(|v| v.len())))),
        }
    });
    c.finish()
}
