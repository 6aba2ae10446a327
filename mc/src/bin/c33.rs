//! C33: colour maps and dithering choose the nearest colours and stay in bounds.
//! TECHNIQUE: exhaustive enumeration of image sizes, contents and palettes over the real dithering and indexing, in lockstep with a reference error-diffusion machine
//! LEVEL: model_checking
//! NOTE: All sizes up to the bound (incl. empty, one column, one row), all contents over a small alphabet for tiny images and patterns beyond, palettes of 1 to 4 colours for grey, RGB and RGBA pixels plus BiLevel and NeuQuant; every access is bounds-checked by the image itself (a panic is a violation).
use image::imageops::*;
use image::*;
use mc::*;

/// A palette: the nearest entry by squared distance, the first of equals.
struct Palette<P> {
    colours: Vec<P>,
}
impl<P: Pixel<Subpixel = u8> + Clone> ColorMap for Palette<P> {
    type Color = P;
    fn index_of(&self, c: &P) -> usize {
        let d = |p: &P| -> u32 { p.channels().iter().zip(c.channels()).map(|(&a, &b)| (a as i32 - b as i32).pow(2) as u32).sum() };
        (0..self.colours.len()).min_by_key(|&i| d(&self.colours[i])).unwrap()
    }
    fn lookup(&self, i: usize) -> Option<P> {
        self.colours.get(i).cloned()
    }
    fn has_lookup(&self) -> bool {
        true
    }
    fn map_color(&self, c: &mut P) {
        *c = self.colours[self.index_of(c)];
    }
}

/// Floyd-Steinberg: 7, 3, 5, 1 sixteenths to the right, below left, below, below right; samples saturate;
/// the (up to three) colour channels carry errors.
fn reference<P: Pixel<Subpixel = u8>>(img: &ImageBuffer<P, Vec<u8>>, map: &dyn ColorMap<Color = P>) -> ImageBuffer<P, Vec<u8>> {
    let (w, h) = img.dimensions();
    let mut o = img.clone();
    for y in 0..h {
        for x in 0..w {
            let old = *o.get_pixel(x, y);
            let mut new = old;
            map.map_color(&mut new);
            o.put_pixel(x, y, new);
            for c in 0..old.channels().len().min(3) {
                let e = old.channels()[c] as i32 - new.channels()[c] as i32;
                for (dx, dy, f) in [(1i64, 0i64, 7), (-1, 1, 3), (0, 1, 5), (1, 1, 1)] {
                    let (nx, ny) = (x as i64 + dx, y as i64 + dy);
                    if nx >= 0 && nx < w as i64 && ny < h as i64 {
                        let v = &mut o.get_pixel_mut(nx as u32, ny as u32).channels_mut()[c];
                        *v = (*v as i32 + e * f / 16).clamp(0, 255) as u8;
                    }
                }
            }
        }
    }
    o
}

fn check<P>(what: &str, img: &ImageBuffer<P, Vec<u8>>, map: &(impl ColorMap<Color = P> + 'static), colours: &[P]) -> Res
where
    P: Pixel<Subpixel = u8> + PartialEq + std::fmt::Debug + 'static,
{
    let (w, h) = img.dimensions();
    let what = format!("{what} {w}x{h} {:?}", short(&format!("{:?}", img.as_raw())));
    let mut d = img.clone();
    if let Err(p) = catch(std::panic::AssertUnwindSafe(|| dither(&mut d, map))) {
        return viol("panic", format!("dithering {what}: {p}"));
    }
    ensure!(d.dimensions() == (w, h), "dithering {what} changed the dimensions");
    for p in d.pixels() {
        ensure!(colours.contains(p), "dithering {what} leaves {p:?}, which is not in the map");
    }
    let e = reference(img, map);
    ensure!(d == e, "dithering {what}: {:?}, expected {:?}", short(&format!("{:?}", d.as_raw())), short(&format!("{:?}", e.as_raw())));
    // an image of the map's colours stays (colours the map maps to themselves)
    let mut again = d.clone();
    dither(&mut again, map);
    let fixed = colours.iter().all(|c| {
        let mut k = *c;
        map.map_color(&mut k);
        k == *c
    });
    if fixed {
        ensure!(again == d, "dithering {what} again changes it");
    }
    // indices
    let idx = index_colors(img, map);
    ensure!(idx.dimensions() == (w, h), "index_colors of {what} changed the dimensions");
    for (p, i) in img.pixels().zip(idx.pixels()) {
        ensure!(i.0[0] as usize == map.index_of(p), "index_colors of {what}: {p:?} has index {}", i.0[0]);
        if map.has_lookup() {
            let mut q = *p;
            map.map_color(&mut q);
            ensure!(map.lookup(i.0[0] as usize) == Some(q), "{what}: index {} of {p:?} stands for {:?}, but the map maps it to {q:?}", i.0[0], map.lookup(i.0[0] as usize));
        }
    }
    Ok(())
}

/// All contents of tiny grey images over an alphabet.
fn tiny(ch: &mut Ch) -> Res {
    let m = if ch.quick { 3 } else { 4 };
    let (w, h) = (ch.range(0, m) as u32, ch.range(0, m) as u32);
    let n = (w * h) as usize;
    let alphabet: &[u8] = if n <= 4 { &[0, 1, 60, 127, 128, 200, 254, 255] } else if n <= 6 { &[0, 100, 128, 255] } else if n <= 9 { &[40, 127, 230] } else { &[90, 160] };
    let mut v = vec![0u8; n];
    let head = n.min(3);
    for k in v.iter_mut().take(head) {
        *k = ch.of(alphabet);
    }
    let rest = alphabet.len().pow((n - head) as u32);
    for i in 0..rest {
        let mut r = i;
        for k in v.iter_mut().skip(head) {
            *k = alphabet[r % alphabet.len()];
            r /= alphabet.len();
        }
        let img: GrayImage = ImageBuffer::from_raw(w, h, v.clone()).unwrap();
        check("grey to black and white", &img, &BiLevel, &[Luma([0]), Luma([255])])?;
        ch.steps(1);
    }
    ch.state(hash_of(&(w, h, v.first().copied())));
    ch.outcome(hash_of(&(w.min(2), h.min(2))));
    Ok(())
}

fn palettes(ch: &mut Ch) -> Res {
    let m = if ch.quick { 5 } else { 9 };
    let (w, h) = if ch.flag() { (ch.of(&[17, 40]), ch.of(&[1u32, 2, 13])) } else { (ch.range(0, m) as u32, ch.range(0, m) as u32) };
    let k = ch.range(1, 4) as usize;
    let kind = ch.pick(6);
    match ch.pick(4) {
        0 => {
            let all = [Luma([90u8]), Luma([0]), Luma([255]), Luma([130])];
            let c = all[..k].to_vec();
            let img = pattern(w, h, ColorType::L8, kind).dynamic().into_luma8();
            check("grey", &img, &Palette { colours: c.clone() }, &c)?;
        }
        1 => {
            let all = [Rgb([200u8, 10, 90]), Rgb([0, 0, 0]), Rgb([255, 255, 255]), Rgb([10, 250, 128])];
            let c = all[..k].to_vec();
            let img = pattern(w, h, ColorType::Rgb8, kind).dynamic().into_rgb8();
            check("RGB", &img, &Palette { colours: c.clone() }, &c)?;
        }
        2 => {
            let all = [Rgba([200u8, 10, 90, 255]), Rgba([0, 0, 0, 0]), Rgba([255, 255, 255, 128]), Rgba([10, 250, 128, 255])];
            let c = all[..k].to_vec();
            let img = pattern(w, h, ColorType::Rgba8, kind).dynamic().into_rgba8();
            check("RGBA", &img, &Palette { colours: c.clone() }, &c)?;
        }
        _ => {
            // NeuQuant: the map is whatever it learned; it has to be consistent
            let n = [4usize, 16, 64, 256][k - 1];
            let src = pattern(37, 31, ColorType::Rgba8, 2);
            let q = color_quant::NeuQuant::new(1 + k as i32 * 3, n, &src.data);
            let colours: Vec<Rgba<u8>> = q.color_map_rgba().chunks(4).map(|c| Rgba([c[0], c[1], c[2], c[3]])).collect();
            ensure!(colours.len() == n, "NeuQuant has {} colours", colours.len());
            let img = pattern(w, h, ColorType::Rgba8, kind).dynamic().into_rgba8();
            let mut d = img.clone();
            if let Err(p) = catch(std::panic::AssertUnwindSafe(|| dither(&mut d, &q))) {
                return viol("panic", format!("dithering {w}x{h} to NeuQuant: {p}"));
            }
            ensure!(d.pixels().all(|p| colours.contains(p)), "dithering to NeuQuant leaves a colour outside the map");
            ensure!(d == reference(&img, &q), "dithering to NeuQuant differs from the reference");
            let idx = index_colors(&img, &q);
            for (p, i) in img.pixels().zip(idx.pixels()) {
                ensure!(ColorMap::lookup(&q, i.0[0] as usize) == Some(colours[i.0[0] as usize]), "NeuQuant lookup of {}", i.0[0]);
                let mut c = *p;
                q.map_color(&mut c);
                ensure!(colours[i.0[0] as usize] == c, "NeuQuant: index {} and map_color disagree for {p:?}", i.0[0]);
                ensure!(ColorMap::index_of(&q, p) == i.0[0] as usize, "NeuQuant: index_colors differs from index_of");
            }
            ensure!(q.has_lookup(), "NeuQuant has lookup");
            for i in [n, n + 1, 1000, usize::MAX] {
                match catch(std::panic::AssertUnwindSafe(|| ColorMap::lookup(&q, i))) {
                    Ok(r) => ensure!(r.is_none(), "NeuQuant of {n} colours has an entry {i}: {r:?}"),
                    Err(p) => return viol("panic", format!("NeuQuant::lookup({i}): {p}")),
                }
            }
        }
    }
    ch.state(hash_of(&(w, h, k, kind)));
    ch.outcome(hash_of(&k));
    Ok(())
}

fn bilevel(ch: &mut Ch) -> Res {
    let v = ch.pick(256) as u8;
    let i = BiLevel.index_of(&Luma([v]));
    ensure!(i == (v > 127) as usize, "BiLevel: {v} has index {i}");
    let mut c = Luma([v]);
    BiLevel.map_color(&mut c);
    ensure!(c == BiLevel.lookup(i).unwrap() && c.0[0] == if v > 127 { 255 } else { 0 }, "BiLevel maps {v} to {c:?}");
    ensure!(BiLevel.has_lookup(), "BiLevel has lookup");
    ensure!(BiLevel.lookup(v as usize + 2).is_none() && BiLevel.lookup(usize::MAX - v as usize).is_none(), "BiLevel has an entry beyond 1");
    // a map that does not override lookup reports nothing
    struct Plain;
    impl ColorMap for Plain {
        type Color = Luma<u8>;
        fn index_of(&self, _: &Luma<u8>) -> usize {
            0
        }
        fn map_color(&self, _: &mut Luma<u8>) {}
    }
    ensure!(!Plain.has_lookup() && Plain.lookup(v as usize).is_none(), "the default lookup has entries");
    Ok(())
}

/// Expanding a palette: every index becomes its colour, transparent where asked, at every size.
fn expands(ch: &mut Ch) -> Res {
    let m = if ch.quick { 7 } else { 13 };
    let (w, h) = match ch.pick(3) {
        0 => (ch.range(0, m) as u32, ch.range(0, m) as u32),
        1 => (ch.of(&[64u32, 100]), ch.range(0, 5) as u32),
        _ => ch.of(&[(65537, 2), (2, 65537), (300, 300)]),
    };
    let size = ch.of(&[1usize, 2, 3, 16, 255, 256]);
    let t = ch.of(&[None, Some(0u8), Some(1), Some(255)]);
    let shift = ch.of(&[0u32, 1, 100]);
    let pal: Vec<(u8, u8, u8)> = (0..size).map(|i| (i as u8, (i * 7 + 3) as u8, 255 - i as u8)).collect();
    let img = GrayImage::from_fn(w, h, |x, y| Luma([((x * 5 + y * 11 + shift) % size as u32) as u8]));
    let o = match catch(|| img.clone().expand_palette(&pal, t)) {
        Ok(o) => o,
        Err(p) => return viol("panic", format!("expand_palette of {w}x{h}: {p}")),
    };
    ensure!(o.dimensions() == (w, h), "expand_palette changed the dimensions");
    for (x, y, p) in o.enumerate_pixels() {
        let i = img.get_pixel(x, y).0[0];
        let c = pal[i as usize];
        let e = [c.0, c.1, c.2, if t == Some(i) { 0 } else { 255 }];
        ensure!(p.0 == e, "expand_palette of {w}x{h}: pixel ({x}, {y}) of index {i} is {p:?}, expected {e:?}");
    }
    ch.state(hash_of(&(w, h, size, t)));
    Ok(())
}

fn main() {
    let mut c = Check::start("C33", "model_checking", "dithering diffuses errors as Floyd-Steinberg over the map's nearest colours and leaves only colours of the map; index_colors, lookup and palette expansion agree with the map");
    c.explore("tiny grey images", "all contents over an alphabet of 2-8 values for all sizes up to 3x3 (4x4)", tiny);
    c.explore("palettes", "all sizes up to 5 (9) and some larger, 6 contents, 1-4 colours (NeuQuant: 4-256), four maps", palettes);
    c.explore("long images", "two long sizes, grey and RGBA, dithered and indexed", |ch| {
        let (w, h) = ch.of(&[(65537u32, 2u32), (2, 65537), (300, 300)]);
        let kind = ch.of(&[1usize, 2]);
        ch.state(hash_of(&(w, h, kind)));
        if ch.flag() {
            let img = pattern(w, h, ColorType::L8, kind).dynamic().into_luma8();
            check("grey", &img, &BiLevel, &[Luma([0]), Luma([255])])
        } else {
            let c = vec![Rgba([200u8, 10, 90, 255]), Rgba([0, 0, 0, 0]), Rgba([255, 255, 255, 128])];
            let img = pattern(w, h, ColorType::Rgba8, kind).dynamic().into_rgba8();
            check("RGBA", &img, &Palette { colours: c.clone() }, &c)
        }
    });
    c.explore("BiLevel", "all 256 values, all indices near the ends", bilevel);
    c.explore("palette expansion", "all sizes up to 7 (13) and some larger, palettes of 1-256 entries, transparent indices", expands);
    c.finish();
}
