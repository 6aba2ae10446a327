//! C14: flips and rotations are exact permutations obeying the dihedral group laws.
//! TECHNIQUE: explicit-state exploration of all words over the real transformations, in lockstep with a model of the dihedral group acting on coordinates
//! LEVEL: model_checking
//! NOTE: All image sizes up to the bound (and strips longer than any plausible block), all ten colour types, all implementors of the traits, all words up to the bound; pixels carry distinct values, so that equality of the images is equality of the permutations.
use image::imageops::*;
use image::metadata::Orientation;
use image::*;
use mc::*;

/// An element of the dihedral group: number of quarter turns clockwise, after an optional horizontal flip.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct G {
    flip: bool,
    turns: u8,
}
const ID: G = G { flip: false, turns: 0 };
impl G {
    /// First self, then `o`.
    fn then(self, o: G) -> G {
        // o.flip turns self's rotation around: F R^a = R^-a F
        if o.flip {
            G { flip: !self.flip, turns: (o.turns + 4 - self.turns) % 4 }
        } else {
            G { flip: self.flip, turns: (o.turns + self.turns) % 4 }
        }
    }
    /// Where the pixel (x, y) of a w x h image goes, and the new size.
    fn place(self, x: u32, y: u32, w: u32, h: u32) -> (u32, u32) {
        let (mut x, mut y, mut w, mut h) = (x, y, w, h);
        if self.flip {
            x = w - 1 - x;
        }
        for _ in 0..self.turns {
            (x, y) = (h - 1 - y, x);
            (w, h) = (h, w);
        }
        (x, y)
    }
    fn apply(self, r: &Raw) -> Raw {
        let (w, h) = if self.turns % 2 == 1 { (r.h, r.w) } else { (r.w, r.h) };
        let b = r.color.bytes_per_pixel() as usize;
        let mut data = vec![0; r.data.len()];
        for y in 0..r.h {
            for x in 0..r.w {
                let (nx, ny) = self.place(x, y, r.w, r.h);
                let (i, j) = ((y * r.w + x) as usize * b, (ny * w + nx) as usize * b);
                data[j..j + b].copy_from_slice(&r.data[i..i + b]);
            }
        }
        Raw { w, h, color: r.color, data }
    }
}
const R90: G = G { flip: false, turns: 1 };
const R180: G = G { flip: false, turns: 2 };
const R270: G = G { flip: false, turns: 3 };
const FH: G = G { flip: true, turns: 0 };
const FV: G = G { flip: true, turns: 2 };
const ORI: [(Orientation, G, u8); 8] = [
    (Orientation::NoTransforms, ID, 1),
    (Orientation::FlipHorizontal, FH, 2),
    (Orientation::Rotate180, R180, 3),
    (Orientation::FlipVertical, FV, 4),
    // rotate by 90 and then flip: the transposition
    (Orientation::Rotate90FlipH, G { flip: true, turns: 3 }, 5),
    (Orientation::Rotate90, R90, 6),
    (Orientation::Rotate270FlipH, G { flip: true, turns: 1 }, 7),
    (Orientation::Rotate270, R270, 8),
];

/// Distinct samples.
fn source(w: u32, h: u32, color: ColorType) -> Raw {
    let n = (w * h) as usize * color.channel_count() as usize;
    let data = match bytes_per_sample(color) {
        1 => (0..n).map(|i| i.wrapping_mul(37) as u8 ^ (i >> 8) as u8).collect(),
        2 => (0..n).flat_map(|i| ((i * 257 + 3) as u16).to_ne_bytes()).collect(),
        _ => (0..n).flat_map(|i| (i as f32 + 0.5).to_ne_bytes()).collect(),
    };
    Raw { w, h, color, data }
}

/// The 13 ways of a dynamic image.
fn dynop(k: usize, d: &mut DynamicImage) -> G {
    let g;
    *d = match k {
        0 => {
            g = FH;
            d.fliph()
        }
        1 => {
            g = FV;
            d.flipv()
        }
        2 => {
            g = R90;
            d.rotate90()
        }
        3 => {
            g = R180;
            d.rotate180()
        }
        4 => {
            g = R270;
            d.rotate270()
        }
        k => {
            let (o, og, _) = ORI[k - 5];
            d.apply_orientation(o);
            return og;
        }
    };
    g
}

fn words(ch: &mut Ch, sizes: &[(u32, u32)], depth: usize) -> Res {
    let (w, h) = ch.of(sizes);
    let color = ch.of(&COLORS);
    let r = source(w, h, color);
    let mut d = r.dynamic();
    let mut g = ID;
    let mut word = vec![];
    for _ in 0..depth {
        let k = ch.pick(13);
        word.push(k);
        g = g.then(dynop(k, &mut d));
        let want = g.apply(&r);
        let got = Raw::of(&d);
        ensure!(got == want, "{w}x{h} {color:?}: the word {word:?} should be {g:?}: {got:?}, expected {want:?}");
        ch.step();
        ch.state(hash_of(&(w, h, color, g)));
    }
    ch.outcome(hash_of(&g));
    ch.validated();
    Ok(())
}

type Out<P> = ImageBuffer<P, Vec<<P as Pixel>::Subpixel>>;
fn typed<P: Pixel + PartialEq + std::fmt::Debug + 'static>(ch: &mut Ch, color: ColorType, src: &Out<P>) -> Res
where
    P::Subpixel: std::fmt::Debug,
    Out<P>: PartialEq,
{
    let (w, h) = src.dimensions();
    let want = |g: G| -> Out<P> {
        let (nw, nh) = if g.turns % 2 == 1 { (h, w) } else { (w, h) };
        let mut o = Out::<P>::new(nw, nh);
        for (x, y, p) in src.enumerate_pixels() {
            let (nx, ny) = g.place(x, y, w, h);
            o.put_pixel(nx, ny, *p);
        }
        o
    };
    let gs = [FH, FV, R90, R180, R270];
    let k = ch.pick(5);
    let g = gs[k];
    let want_g = want(g);
    ch.step();
    ch.state(hash_of(&(w, h, k, color)));
    // From a buffer, from a view in a larger image, from flat samples.
    let mut big = Out::<P>::from_fn(w + 3, h + 2, |x, y| if w > 0 && h > 0 { *src.get_pixel((x * 7 + 1) % w, (y * 5 + 1) % h) } else { *P::from_slice(&vec![P::Subpixel::DEFAULT_MAX_VALUE; P::CHANNEL_COUNT as usize]) });
    big.copy_from(src, 2, 1).unwrap();
    let flat = src.as_flat_samples();
    let run = |s: usize| -> Out<P> {
        macro_rules! go {
            ($i:expr) => {
                match k {
                    0 => flip_horizontal($i),
                    1 => flip_vertical($i),
                    2 => rotate90($i),
                    3 => rotate180($i),
                    _ => rotate270($i),
                }
            };
        }
        match s {
            0 => go!(src),
            1 => go!(&*big.view(2, 1, w, h)),
            _ => go!(&flat.as_view::<P>().unwrap()),
        }
    };
    for s in 0..3 {
        ensure!(run(s) == want_g, "{w}x{h} {color:?}: operation {k} on source kind {s} gave {:?}, expected {want_g:?}", run(s));
    }
    // Into destinations of every nearby size, over a container with a surplus.
    for dw in 0..=w.max(h) + 1 {
        for dh in 0..=w.max(h) + 1 {
            let fill = P::Subpixel::DEFAULT_MAX_VALUE;
            let n = (dw * dh) as usize * P::CHANNEL_COUNT as usize;
            let mut raw = vec![fill; n + 3];
            let mut dst = ImageBuffer::<P, &mut [P::Subpixel]>::from_raw(dw, dh, &mut raw).unwrap();
            let r = match k {
                0 => flip_horizontal_in(src, &mut dst),
                1 => flip_vertical_in(src, &mut dst),
                2 => rotate90_in(src, &mut dst),
                3 => rotate180_in(src, &mut dst),
                _ => rotate270_in(src, &mut dst),
            };
            let fits = (dw, dh) == want_g.dimensions();
            ensure!(r.is_ok() == fits, "{w}x{h}: operation {k} into {dw}x{dh}: {r:?}");
            let expect: Vec<P::Subpixel> = if fits { want_g.as_raw().clone() } else { vec![fill; n] };
            ensure!(raw[..n].iter().eq(expect.iter()) && raw[n..].iter().all(|x| *x == fill), "{w}x{h}: operation {k} into {dw}x{dh} (fits {fits}) left {raw:?}");
        }
    }
    // In place, on a buffer and on a view.
    if k != 2 && k != 4 {
        let mut a = src.clone();
        let mut b = big.clone();
        {
            let mut v = b.sub_image(2, 1, w, h);
            match k {
                0 => {
                    flip_horizontal_in_place(&mut a);
                    flip_horizontal_in_place(&mut *v)
                }
                1 => {
                    flip_vertical_in_place(&mut a);
                    flip_vertical_in_place(&mut *v)
                }
                _ => {
                    rotate180_in_place(&mut a);
                    rotate180_in_place(&mut *v)
                }
            }
        }
        ensure!(a == want_g, "{w}x{h} {color:?}: operation {k} in place gave {a:?}, expected {want_g:?}");
        let mut wb = big.clone();
        wb.copy_from(&want_g, 2, 1).unwrap();
        ensure!(b == wb, "{w}x{h} {color:?}: operation {k} in place on a view gave {b:?}, expected {wb:?}");
    }
    ch.validated();
    Ok(())
}

fn main() {
    let mut c = Check::start("C14", "model_checking", "one execution = one word of transformations, or one transformation through every interface; non-trivial when the resulting image was compared with the model");
    let (n, depth) = if c.quick { (3, 3) } else { (4, 4) };
    let sizes: Vec<(u32, u32)> = (0..=n).flat_map(|w| (0..=n).map(move |h| (w, h))).collect();
    c.explore("words", &format!("all sizes up to {n}x{n}, ten colour types, all words of {depth} over the 13 operations of a dynamic image (5 methods, 8 orientations)"), |ch| words(ch, &sizes, depth));
    let m = if c.quick { 6 } else { 9 };
    let mut more: Vec<(u32, u32)> = (0..=m).flat_map(|w| (0..=m).map(move |h| (w, h))).collect();
    more.extend([(1, 17), (17, 1), (33, 2), (2, 33), (3, 65), (64, 4), (16, 16), (17, 31)]);
    let long = [(257, 300), (65536, 1), (1, 65536), (66000, 3), (3, 66000)];
    c.explore("sizes", &format!("all sizes up to {m}x{m} and 8 longer ones, ten colour types, every single operation of a dynamic image"), |ch| words(ch, &more, 1));
    c.explore("long", "the single operations on five sizes beyond 2^8 and 2^16 in either direction, ten colour types", |ch| words(ch, &long, 1));
    c.explore("typed", &format!("the same sizes and colour types: 5 operations from 3 kinds of source, into destinations of every size around the right one, and in place on buffers and views"), |ch| {
        let (w, h) = ch.of(&more);
        let color = ch.of(&COLORS);
        match source(w, h, color).dynamic() {
            DynamicImage::ImageLuma8(b) => typed(ch, color, &b),
            DynamicImage::ImageLumaA8(b) => typed(ch, color, &b),
            DynamicImage::ImageRgb8(b) => typed(ch, color, &b),
            DynamicImage::ImageRgba8(b) => typed(ch, color, &b),
            DynamicImage::ImageLuma16(b) => typed(ch, color, &b),
            DynamicImage::ImageLumaA16(b) => typed(ch, color, &b),
            DynamicImage::ImageRgb16(b) => typed(ch, color, &b),
            DynamicImage::ImageRgba16(b) => typed(ch, color, &b),
            DynamicImage::ImageRgb32F(b) => typed(ch, color, &b),
            DynamicImage::ImageRgba32F(b) => typed(ch, color, &b),
            _ => unreachable!(),
        }
    });
    c.explore("exif", "all 256 orientation codes, all 8 orientations, all pairs of orientations composed", |ch| {
        let code = ch.range(0, 255) as u8;
        let o = Orientation::from_exif(code);
        let want = ORI.iter().find(|t| t.2 == code).map(|t| t.0);
        ensure!(o == want, "from_exif({code}) = {o:?}");
        if let Some(o) = o {
            ensure!(o.to_exif() == code, "to_exif({o:?}) = {}", o.to_exif());
            // The geometry the EXIF codes are defined by: where row 0 and column 0 of the stored image are shown.
            let r = source(3, 2, ColorType::L8);
            let mut d = r.dynamic();
            d.apply_orientation(o);
            let s = Raw::of(&d);
            let first = r.data[0];
            let pos = s.data.iter().position(|x| *x == first).unwrap() as u32;
            let (x, y) = (pos % s.w, pos / s.w);
            let corner = (x == 0, y == 0);
            let want = match code {
                1 | 5 => (true, true),
                2 | 6 => (false, true),
                3 | 7 => (false, false),
                _ => (true, false),
            };
            ensure!(corner == want && (s.w == 2) == (code >= 5), "orientation {code} puts the first pixel at ({x},{y}) of {}x{}", s.w, s.h);
        }
        ch.step();
        ch.state(code as u64);
        ch.outcome(o.is_some() as u64);
        ch.validated();
        Ok(())
    });
    c.finish()
}
