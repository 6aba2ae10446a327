//! C15: colour conversions are in range, monotone, consistent and lossless when widening.
//! TECHNIQUE: exhaustive enumeration of sample values over all ordered pairs of pixel types of the real conversions, compared with an exact model of the conversion
//! LEVEL: model_checking
//! NOTE: Every ordered pair of the twelve pixel types (L, LA, RGB, RGBA of u8, u16, f32), every value of a channel (all of u8, all of u16, a boundary set of f32 incl. NaN and infinities) against several settings of the other channels, all 2^24 colours for the 8-bit luminance; f32 colours by a boundary set.
use image::buffer::ConvertBuffer;
use image::*;
use mc::*;

trait Sub: Primitive + 'static + Send + Sync + std::fmt::Debug {
    const MAXV: f64;
    const FLOAT: bool;
    fn f(self) -> f64;
    /// Every value of the type (all integers; a set of floats), ascending for the finite ones.
    fn all() -> Vec<Self>;
    fn some() -> Vec<Self>;
    fn bits(self) -> u64;
}
impl Sub for u8 {
    const MAXV: f64 = 255.;
    const FLOAT: bool = false;
    fn f(self) -> f64 {
        self as f64
    }
    fn all() -> Vec<u8> {
        (0..=255).collect()
    }
    fn some() -> Vec<u8> {
        vec![0, 1, 2, 63, 64, 100, 127, 128, 129, 200, 253, 254, 255]
    }
    fn bits(self) -> u64 {
        self as u64
    }
}
impl Sub for u16 {
    const MAXV: f64 = 65535.;
    const FLOAT: bool = false;
    fn f(self) -> f64 {
        self as f64
    }
    fn all() -> Vec<u16> {
        (0..=65535).collect()
    }
    fn some() -> Vec<u16> {
        vec![0, 1, 127, 128, 129, 256, 257, 1000, 32767, 32768, 40000, 65280, 65406, 65407, 65534, 65535]
    }
    fn bits(self) -> u64 {
        self as u64
    }
}
impl Sub for f32 {
    const MAXV: f64 = 1.;
    const FLOAT: bool = true;
    fn f(self) -> f64 {
        self as f64
    }
    fn all() -> Vec<f32> {
        let mut v = vec![f32::NEG_INFINITY, f32::MIN, -1.0, -1e-3, -f32::MIN_POSITIVE, -1e-45, -0.0, 0.0, 1e-45, f32::MIN_POSITIVE, 1e-10, 1.5, 2.0, 255.0, 1e10, f32::MAX, f32::INFINITY];
        for k in 0..=255u32 {
            let x = (k as f64 / 255.) as f32;
            let h = ((k as f64 + 0.5) / 255.) as f32;
            v.extend([x, f32::from_bits(x.to_bits() + 1), h, f32::from_bits(h.to_bits() + 1), f32::from_bits(h.to_bits() - 1)]);
        }
        for k in 0..=65535u32 {
            v.push((k as f64 / 65535.) as f32);
            v.push(((k as f64 + 0.5) / 65535.) as f32);
        }
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.push(f32::NAN);
        v.push(-f32::NAN);
        v
    }
    fn some() -> Vec<f32> {
        vec![0.0, 1e-6, 0.25, 0.3, 0.5, 0.7, 0.999, 1.0]
    }
    fn bits(self) -> u64 {
        // both zeroes are the same sample
        if self == 0.0 {
            0
        } else {
            self.to_bits() as u64
        }
    }
}

/// How the pixel of channel count `n` is seen: (grey?, alpha?)
const fn shape(n: usize) -> (bool, bool) {
    (n < 3, n == 2 || n == 4)
}

/// Expected level of the sample `v` (of `S`) in `T`, and the allowed deviation.
fn depth<S: Sub, T: Sub>(v: f64) -> (f64, f64) {
    if S::FLOAT && T::FLOAT {
        return (v, 0.0);
    }
    if S::FLOAT {
        // NaN is white; the rest is clamped
        let c = if v.is_nan() { 1.0 } else { v.clamp(0.0, 1.0) };
        return (c * T::MAXV, 0.5 + T::MAXV * 1e-7);
    }
    let x = v / S::MAXV * T::MAXV;
    if T::FLOAT {
        return (x, 6e-8 * x.max(1e-30));
    }
    if S::MAXV == T::MAXV {
        return (v, 0.0);
    }
    // an odd number of steps: there are no ties
    (x.round(), 0.0)
}

fn check_pixel<S: Sub, T: Sub>(p: &[S], q: &[T]) -> Res {
    let ((sg, sa), (tg, ta)) = (shape(p.len()), shape(q.len()));
    let colours = |n: usize| if n < 3 { 1 } else { 3 };
    for c in 0..colours(q.len()) {
        let v = q[c].f();
        if !T::FLOAT {
            ensure!((0.0..=T::MAXV).contains(&v), "{p:?} -> {q:?}: out of range");
        }
        if sg || !tg {
            let s = if sg { p[0].f() } else { p[c].f() };
            let (e, tol) = depth::<S, T>(s);
            ensure!((v - e).abs() <= tol || v == e || (v.is_nan() && e.is_nan()), "{p:?} -> {q:?}: channel {c} should be {e}");
        } else {
            let l: f64 = (2126. * p[0].f() + 7152. * p[1].f() + 722. * p[2].f()) / 10000.;
            // one unit of the source before, a rounding after
            let (e, tol) = if S::FLOAT { depth::<S, T>(l) } else { (l / S::MAXV * T::MAXV, 0.5) };
            let unit = if S::FLOAT { T::MAXV * 2e-7 * l.abs().max(1.0) } else { T::MAXV / S::MAXV * 1.01 };
            let tol = if S::FLOAT && T::FLOAT {
                l.abs() * 2e-7 + 1e-44
            } else if S::MAXV == T::MAXV {
                1.0
            } else if T::FLOAT {
                unit
            } else {
                tol + unit
            };
            ensure!((v - e).abs() <= tol || v == e || (v.is_nan() && e.is_nan()), "{p:?} -> {q:?}: the luminance should be {e} +- {tol}");
            if p[0] == p[1] && p[1] == p[2] && !S::FLOAT {
                let (e, tol) = depth::<S, T>(p[0].f());
                ensure!((v - e).abs() <= tol, "{p:?} -> {q:?}: grey should stay {e}");
            }
        }
    }
    if ta {
        let a = q[q.len() - 1];
        if sa {
            let (e, tol) = depth::<S, T>(p[p.len() - 1].f());
            let v = a.f();
            ensure!((v - e).abs() <= tol || v == e || (v.is_nan() && e.is_nan()), "{p:?} -> {q:?}: alpha should be {e}");
        } else {
            ensure!(a.f() == T::MAXV, "{p:?} -> {q:?}: added alpha is not opaque");
        }
    }
    Ok(())
}

/// Settings of one pixel in which channel `c` runs through all values and the others are `bg`.
fn sweep<P: Pixel>(c: usize, bg: P::Subpixel, all: &[P::Subpixel]) -> ImageBuffer<P, Vec<P::Subpixel>>
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let mut v = Vec::with_capacity(all.len() * n);
    for &a in all {
        for k in 0..n {
            v.push(if k == c { a } else { bg });
        }
    }
    ImageBuffer::from_raw(all.len() as u32, 1, v).unwrap()
}

fn pair<P, Q>(ch: &mut Ch) -> Res
where
    P: Pixel + Send + Sync + 'static,
    Q: Pixel + Send + Sync + 'static,
    P::Subpixel: Sub,
    Q::Subpixel: Sub,
    ImageBuffer<P, Vec<P::Subpixel>>: ConvertBuffer<ImageBuffer<Q, Vec<Q::Subpixel>>>,
    ImageBuffer<Q, Vec<Q::Subpixel>>: ConvertBuffer<ImageBuffer<P, Vec<P::Subpixel>>>,
{
    let (n, m) = (P::CHANNEL_COUNT as usize, Q::CHANNEL_COUNT as usize);
    let some = <P::Subpixel as Sub>::some();
    // the combinations of boundary values in all channels at once
    let c = ch.pick(n + 1);
    let img: ImageBuffer<P, Vec<P::Subpixel>> = if c == n {
        let count = some.len().pow(n as u32);
        let mut v = Vec::with_capacity(count * n);
        for i in 0..count {
            let mut r = i;
            for _ in 0..n {
                v.push(some[r % some.len()]);
                r /= some.len();
            }
        }
        ImageBuffer::from_raw(count as u32, 1, v).unwrap()
    } else {
        let bg = ch.of(&[some[0], some[some.len() / 2], some[some.len() - 1], some[some.len() - 2]]);
        sweep::<P>(c, bg, &<P::Subpixel as Sub>::all())
    };
    let run = || -> ImageBuffer<Q, Vec<Q::Subpixel>> { img.convert() };
    let out = catch(run).map_err(|p| Viol::new("panic", format!("converting {} of {} to {} of {}: {p}", P::COLOR_MODEL, std::any::type_name::<P::Subpixel>(), Q::COLOR_MODEL, std::any::type_name::<Q::Subpixel>())))?;
    ensure!(out.dimensions() == img.dimensions(), "the conversion changed the dimensions");
    let mut last: Option<&[Q::Subpixel]> = None;
    for (p, q) in img.pixels().zip(out.pixels()) {
        let (p, q) = (p.channels(), q.channels());
        check_pixel(p, q).map_err(|e| e.prefix(&format!("{}<{}> to {}<{}>", P::COLOR_MODEL, std::any::type_name::<P::Subpixel>(), Q::COLOR_MODEL, std::any::type_name::<Q::Subpixel>())))?;
        if c < n && !p[c].f().is_nan() {
            // the channel ascends: so must everything that depends on it
            if let Some(l) = last {
                for k in 0..m {
                    ensure!(q[k].f() >= l[k].f(), "not monotone: {l:?} then {q:?} for {p:?}");
                }
            }
            last = Some(q);
        }
    }
    ch.steps((img.len() / n) as u64);
    ch.state(hash_of(&(P::COLOR_MODEL, Q::COLOR_MODEL, <P::Subpixel as Sub>::MAXV as u64, <Q::Subpixel as Sub>::MAXV as u64, c)));
    // widening in depth and channels and coming back
    let deeper = <Q::Subpixel as Sub>::FLOAT || <Q::Subpixel as Sub>::MAXV >= <P::Subpixel as Sub>::MAXV;
    let exact: bool = !<P::Subpixel as Sub>::FLOAT || n >= 3 || m < 3;
    let keeps = |n: usize, m: usize| (n < 3 || m >= 3) && (n % 2 == 1 || m % 2 == 0);
    if deeper && keeps(n, m) && (!<P::Subpixel as Sub>::FLOAT || <Q::Subpixel as Sub>::FLOAT) {
        let back: ImageBuffer<P, Vec<P::Subpixel>> = out.convert();
        for (p, q) in img.pixels().zip(back.pixels()) {
            for (a, b) in p.channels().iter().zip(q.channels()) {
                let same = a.bits() == b.bits() || (a.f().is_nan() && b.f().is_nan()) || (!exact && (a.f() - b.f()).abs() <= a.f().abs() * 1.3e-7);
                ensure!(same, "{}<{}> through {}<{}> and back: {:?} became {:?}", P::COLOR_MODEL, std::any::type_name::<P::Subpixel>(), Q::COLOR_MODEL, std::any::type_name::<Q::Subpixel>(), p.channels(), q.channels());
            }
        }
    }
    ch.outcome(hash_of(&(c, keeps(n, m))));
    Ok(())
}

/// All 2^24 colours: 8-bit luminance by every route.
fn luma8(ch: &mut Ch) -> Res {
    let r = ch.pick(256) as u8;
    let img = RgbImage::from_fn(256, 256, |x, y| Rgb([r, x as u8, y as u8]));
    let l: GrayImage = img.convert();
    let mut above = vec![0u8; 256];
    for y in 0..256u32 {
        let mut left = 0;
        for x in 0..256u32 {
            let (v, e) = (l.get_pixel(x, y).0[0], (2126 * r as u32 + 7152 * x + 722 * y) as f64 / 10000.);
            ensure!((v as f64 - e).abs() <= 1.0, "({r}, {x}, {y}) has luminance {e}, not {v}");
            ensure!(v >= left && v >= above[x as usize], "the luminance is not monotone at ({r}, {x}, {y})");
            if r as u32 == x && x == y {
                ensure!(v == r, "grey {r} became {v}");
            }
            left = v;
            above[x as usize] = v;
        }
    }
    // monotone in r, and the same by every other route
    if r > 0 {
        let dim = RgbImage::from_fn(256, 256, |x, y| Rgb([r - 1, x as u8, y as u8]));
        let d: GrayImage = dim.convert();
        ensure!(d.pixels().zip(l.pixels()).all(|(a, b)| a.0[0] <= b.0[0]), "the luminance is not monotone in red at {r}");
    }
    let d = DynamicImage::ImageRgb8(img.clone());
    ensure!(d.to_luma8() == l, "DynamicImage::to_luma8 differs at red {r}");
    ensure!(imageops::grayscale(&img) == l, "imageops::grayscale differs at red {r}");
    ensure!(d.grayscale().to_luma8() == l, "DynamicImage::grayscale differs at red {r}");
    let rgba = d.to_rgba8();
    let (a, b): (GrayAlphaImage, GrayImage) = (rgba.convert(), rgba.convert());
    ensure!(b == l, "RGBA to luminance differs at red {r}");
    ensure!(a.pixels().zip(l.pixels()).all(|(a, b)| a.0 == [b.0[0], 255]), "RGBA to LA differs at red {r}");
    for (p, l) in img.pixels().zip(l.pixels()) {
        ensure!(p.to_luma() == *l && p.to_luma_alpha().0 == [l.0[0], 255] && p.to_rgba().to_luma() == *l, "Pixel::to_luma differs at {p:?}");
    }
    ch.steps(65536);
    ch.outcome(hash_of(&r));
    Ok(())
}

/// Converting a whole image is converting each pixel; every route agrees; dimensions and places are kept.
fn whole(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let (w, h) = ch.of(&[(0, 0), (1, 1), (3, 2), (2, 5), (7, 1), (1, 9), (0, 3), (17, 4)]);
    let to = ch.pick(12);
    let kind = ch.pick(2);
    let raw = pattern(w, h, color, kind);
    let d = raw.dynamic();
    macro_rules! route {
        ($to:ident, $t:ty, $p:ident) => {{
            let o: $t = d.$to();
            // pixel by pixel: one-pixel images
            ensure!(o.dimensions() == (w, h), "{color:?} {w}x{h}: {} changed the dimensions", stringify!($to));
            for y in 0..h {
                for x in 0..w {
                    let one: $t = d.crop_imm(x, y, 1, 1).$to();
                    ensure!(one.get_pixel(0, 0).0.map(|v| v.bits()) == o.get_pixel(x, y).0.map(|v| v.bits()), "{color:?} {w}x{h}: pixel ({x}, {y}) converts differently in the image ({})", stringify!($to));
                }
            }
            o.into_raw().into_iter().map(|v| v.bits()).collect::<Vec<_>>()
        }};
    }
    let bits = match to {
        0 => route!(to_luma8, GrayImage, Luma),
        1 => route!(to_luma_alpha8, GrayAlphaImage, LumaA),
        2 => route!(to_rgb8, RgbImage, Rgb),
        3 => route!(to_rgba8, RgbaImage, Rgba),
        4 => route!(to_luma16, ImageBuffer<Luma<u16>, Vec<u16>>, Luma),
        5 => route!(to_luma_alpha16, ImageBuffer<LumaA<u16>, Vec<u16>>, LumaA),
        6 => route!(to_rgb16, ImageBuffer<Rgb<u16>, Vec<u16>>, Rgb),
        7 => route!(to_rgba16, ImageBuffer<Rgba<u16>, Vec<u16>>, Rgba),
        8 => route!(to_rgb32f, Rgb32FImage, Rgb),
        9 => route!(to_rgba32f, Rgba32FImage, Rgba),
        10 => route!(to_luma32f, ImageBuffer<Luma<f32>, Vec<f32>>, Luma),
        _ => route!(to_luma_alpha32f, ImageBuffer<LumaA<f32>, Vec<f32>>, LumaA),
    };
    // typed conversion and the into_ variant
    macro_rules! typed {
        ($i:expr) => {
            match to {
                0 => ConvertBuffer::<GrayImage>::convert($i).into_raw().into_iter().map(|v| v.bits()).collect::<Vec<_>>(),
                1 => ConvertBuffer::<GrayAlphaImage>::convert($i).into_raw().into_iter().map(|v| v.bits()).collect(),
                2 => ConvertBuffer::<RgbImage>::convert($i).into_raw().into_iter().map(|v| v.bits()).collect(),
                3 => ConvertBuffer::<RgbaImage>::convert($i).into_raw().into_iter().map(|v| v.bits()).collect(),
                4 => ConvertBuffer::<ImageBuffer<Luma<u16>, Vec<u16>>>::convert($i).into_raw().into_iter().map(|v| v.bits()).collect(),
                5 => ConvertBuffer::<ImageBuffer<LumaA<u16>, Vec<u16>>>::convert($i).into_raw().into_iter().map(|v| v.bits()).collect(),
                6 => ConvertBuffer::<ImageBuffer<Rgb<u16>, Vec<u16>>>::convert($i).into_raw().into_iter().map(|v| v.bits()).collect(),
                7 => ConvertBuffer::<ImageBuffer<Rgba<u16>, Vec<u16>>>::convert($i).into_raw().into_iter().map(|v| v.bits()).collect(),
                8 => ConvertBuffer::<Rgb32FImage>::convert($i).into_raw().into_iter().map(|v| v.bits()).collect(),
                9 => ConvertBuffer::<Rgba32FImage>::convert($i).into_raw().into_iter().map(|v| v.bits()).collect(),
                10 => ConvertBuffer::<ImageBuffer<Luma<f32>, Vec<f32>>>::convert($i).into_raw().into_iter().map(|v| v.bits()).collect(),
                _ => ConvertBuffer::<ImageBuffer<LumaA<f32>, Vec<f32>>>::convert($i).into_raw().into_iter().map(|v| v.bits()).collect(),
            }
        };
    }
    let t: Vec<u64> = match &d {
        DynamicImage::ImageLuma8(i) => typed!(i),
        DynamicImage::ImageLumaA8(i) => typed!(i),
        DynamicImage::ImageRgb8(i) => typed!(i),
        DynamicImage::ImageRgba8(i) => typed!(i),
        DynamicImage::ImageLuma16(i) => typed!(i),
        DynamicImage::ImageLumaA16(i) => typed!(i),
        DynamicImage::ImageRgb16(i) => typed!(i),
        DynamicImage::ImageRgba16(i) => typed!(i),
        DynamicImage::ImageRgb32F(i) => typed!(i),
        DynamicImage::ImageRgba32F(i) => typed!(i),
        _ => return viol("type", "unknown variant"),
    };
    ensure!(t == bits, "{color:?} {w}x{h} to type {to}: the typed conversion and DynamicImage differ");
    let c = d.clone();
    let i: Option<Vec<u64>> = match to {
        0 => Some(c.into_luma8().into_raw().into_iter().map(|v| v.bits()).collect()),
        1 => Some(c.into_luma_alpha8().into_raw().into_iter().map(|v| v.bits()).collect()),
        2 => Some(c.into_rgb8().into_raw().into_iter().map(|v| v.bits()).collect()),
        3 => Some(c.into_rgba8().into_raw().into_iter().map(|v| v.bits()).collect()),
        4 => Some(c.into_luma16().into_raw().into_iter().map(|v| v.bits()).collect()),
        5 => Some(c.into_luma_alpha16().into_raw().into_iter().map(|v| v.bits()).collect()),
        6 => Some(c.into_rgb16().into_raw().into_iter().map(|v| v.bits()).collect()),
        7 => Some(c.into_rgba16().into_raw().into_iter().map(|v| v.bits()).collect()),
        8 => Some(c.into_rgb32f().into_raw().into_iter().map(|v| v.bits()).collect()),
        9 => Some(c.into_rgba32f().into_raw().into_iter().map(|v| v.bits()).collect()),
        _ => None,
    };
    if let Some(i) = i {
        ensure!(i == bits, "{color:?} {w}x{h} to type {to}: into and to differ");
    }
    ch.state(hash_of(&(bits.len(), color, to)));
    ch.outcome(hash_of(&to));
    Ok(())
}

/// The conversions between pixels of the same samples, for every sample type, signed and wide ones included.
fn other_samples<P: Pixel<Subpixel = S> + PartialEq + 'static, S: samples::Sample>(ch: &mut Ch) -> Res {
    let i: ImageBuffer<P, Vec<S>> = samples::pick_image(ch, &[(1, 1)]);
    let p = *i.get_pixel(0, 0);
    let c = p.channels();
    let n = c.len();
    let what = format!("{} {c:?}", S::NAME);
    let max = S::DEFAULT_MAX_VALUE;
    let (l, la, rgb, rgba) = catch(|| (p.to_luma(), p.to_luma_alpha(), p.to_rgb(), p.to_rgba())).map_err(|e| Viol::new("panic", format!("{what}: {e}")))?;
    let a = if n % 2 == 0 { c[n - 1] } else { max };
    let color = if n < 3 { [c[0]; 3] } else { [c[0], c[1], c[2]] };
    need!(rgb.0 == color, "rgb", "{what} as RGB is {rgb:?}");
    need!(rgba.0[..3] == color && rgba.0[3] == a, "rgba", "{what} as RGBA is {rgba:?}");
    need!(la.0[0] == l.0[0] && la.0[1] == a, "luma-alpha", "{what} is {l:?} without and {la:?} with alpha");
    if n < 3 {
        need!(l.0[0] == c[0], "luma", "{what} as grey is {l:?}");
    } else {
        let v: Vec<f64> = c[..3].iter().map(|x| x.f()).collect();
        let e = 0.2126 * v[0] + 0.7152 * v[1] + 0.0722 * v[2];
        let tol = match S::BITS { 0 => 1e-6, 64 => 16384., _ => 1. };
        need!((l.0[0].f() - e).abs() <= tol, "luma", "{what} as grey is {l:?}, not {e}");
        if c[0] == c[1] && c[1] == c[2] && !S::float() {
            need!(l.0[0] == c[0], "grey", "the grey {what} becomes {l:?}");
        }
    }
    // pixel methods that take functions see each channel once
    let m = p.map_with_alpha(|x| x, |_| max);
    need!(m.channels()[..n - (n + 1) % 2] == c[..n - (n + 1) % 2] && (n % 2 == 1 || m.channels()[n - 1] == max), "map", "{what}: map_with_alpha gives {:?}", m.channels());
    let m = p.map_without_alpha(|_| max);
    need!(m.channels()[..n - (n + 1) % 2].iter().all(|x| *x == max) && (n % 2 == 1 || m.channels()[n - 1] == c[n - 1]), "map", "{what}: map_without_alpha gives {:?}", m.channels());
    ch.steps(6);
    ch.outcome(hash_of(&format!("{what}{l:?}")));
    Ok(())
}

fn main() {
    let mut c = Check::start("C15", "model_checking", "converting between any two pixel types keeps black, white and grey, is monotone, rounds to nearest, adds opaque alpha, is exact there and back when widening, and gives the luminance within one unit");
    macro_rules! all {
        ($ch:expr, $s:expr, $t:expr; $(($i:literal, $p:ty)),*) => {
            match $s { $( $i => all!(@t $ch, $t, $p; (0, Luma<u8>), (1, LumaA<u8>), (2, Rgb<u8>), (3, Rgba<u8>), (4, Luma<u16>), (5, LumaA<u16>), (6, Rgb<u16>), (7, Rgba<u16>), (8, Luma<f32>), (9, LumaA<f32>), (10, Rgb<f32>), (11, Rgba<f32>)), )* _ => unreachable!() }
        };
        (@t $ch:expr, $t:expr, $p:ty; $(($i:literal, $q:ty)),*) => {
            match $t { $( $i => pair::<$p, $q>($ch), )* _ => unreachable!() }
        };
    }
    c.explore("pairs of pixel types", "12 x 12 pairs; each channel through all its values (u8, u16) or 132 k values (f32) with 4 backgrounds, and all combinations of 8-16 boundary values", |ch| {
        let (s, t) = (ch.pick(12), ch.pick(12));
        all!(ch, s, t; (0, Luma<u8>), (1, LumaA<u8>), (2, Rgb<u8>), (3, Rgba<u8>), (4, Luma<u16>), (5, LumaA<u16>), (6, Rgb<u16>), (7, Rgba<u16>), (8, Luma<f32>), (9, LumaA<f32>), (10, Rgb<f32>), (11, Rgba<f32>))
    });
    c.explore("all 8-bit colours", "2^24 RGB triples, every route to luminance", luma8);
    c.explore("whole images", "10 colour types x 12 targets x 8 sizes x 2 contents", whole);
    c.explore("other sample types", "12 sample types x 4 pixel types x 81 pixels at the ends of the range", |ch| for_sample_types!(ch, other_samples));
    c.assume("f32 samples are covered by a boundary set (all k/255 and k/65535, their midpoints and neighbours, non-finite values), not all 2^32");
    c.finish();
}
