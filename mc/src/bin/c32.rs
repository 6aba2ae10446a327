//! C32: a dynamic image behaves as the typed image it holds.
//! TECHNIQUE: exhaustive enumeration of colour types x shapes x operations x parameters on the real code: each dispatch compared with the same operation on the typed image, and sequences of pixel accesses with a step-by-step model
//! LEVEL: model_checking
//! NOTE: All ten colour types with every operation of the type, on empty, single-pixel, odd and over-long images; all pairs of colour types for clone_from and equality; all sequences of pixel writes and blends up to a depth; writing compared byte by byte for every format; rebuilding from a decoder that reports every small and several impossible sizes.
use image::imageops::FilterType;
use image::metadata::Orientation;
use image::*;
use mc::codec::decode;
use mc::*;
use std::io::Cursor;

macro_rules! typed {
    ($d:expr, $i:ident => $e:expr) => {
        match $d {
            DynamicImage::ImageLuma8($i) => $e,
            DynamicImage::ImageLumaA8($i) => $e,
            DynamicImage::ImageRgb8($i) => $e,
            DynamicImage::ImageRgba8($i) => $e,
            DynamicImage::ImageLuma16($i) => $e,
            DynamicImage::ImageLumaA16($i) => $e,
            DynamicImage::ImageRgb16($i) => $e,
            DynamicImage::ImageRgba16($i) => $e,
            DynamicImage::ImageRgb32F($i) => $e,
            DynamicImage::ImageRgba32F($i) => $e,
            _ => unreachable!(),
        }
    };
}

fn same(what: &str, a: &DynamicImage, b: &DynamicImage) -> Res {
    let (x, y) = (Raw::of(a), Raw::of(b));
    ensure!((x.w, x.h, x.color) == (y.w, y.h, y.color), "{what}: {}x{} {:?} instead of {}x{} {:?}", x.w, x.h, x.color, y.w, y.h, y.color);
    ensure!(x.data == y.data, "{what} {:?} {}x{}: differs from the typed image: {}", x.color, x.w, x.h, first_diff(&x.data, &y.data));
    Ok(())
}

/// Both sides run; when one panics the other has to as well.
fn both(what: &str, a: impl FnOnce() -> DynamicImage, b: impl FnOnce() -> DynamicImage) -> Res {
    match (catch(a), catch(b)) {
        (Ok(a), Ok(b)) => same(what, &a, &b),
        (Err(_), Err(_)) => Ok(()),
        (Err(e), _) => viol("panic", format!("{what}: only the dynamic image panicked: {e}")),
        (_, Err(e)) => viol("panic", format!("{what}: only the typed image panicked: {e}")),
    }
}

/// An image whose buffer is longer than the image.
fn overlong(d: &DynamicImage) -> DynamicImage {
    fn grow<P: Pixel>(i: &ImageBuffer<P, Vec<P::Subpixel>>, v: P::Subpixel) -> ImageBuffer<P, Vec<P::Subpixel>> {
        let mut r = i.as_raw().clone();
        r.extend([v; 7]);
        ImageBuffer::from_raw(i.width(), i.height(), r).unwrap()
    }
    match d {
        DynamicImage::ImageLuma8(i) => grow(i, 77).into(),
        DynamicImage::ImageLumaA8(i) => grow(i, 77).into(),
        DynamicImage::ImageRgb8(i) => grow(i, 77).into(),
        DynamicImage::ImageRgba8(i) => grow(i, 77).into(),
        DynamicImage::ImageLuma16(i) => grow(i, 777).into(),
        DynamicImage::ImageLumaA16(i) => grow(i, 777).into(),
        DynamicImage::ImageRgb16(i) => grow(i, 777).into(),
        DynamicImage::ImageRgba16(i) => grow(i, 777).into(),
        DynamicImage::ImageRgb32F(i) => grow(i, 0.3).into(),
        DynamicImage::ImageRgba32F(i) => grow(i, 0.3).into(),
        _ => unreachable!(),
    }
}

const SHAPES: &[(u32, u32)] = &[(0, 0), (0, 3), (3, 0), (1, 1), (1, 4), (4, 1), (2, 3), (5, 4), (3, 7)];

fn subject(ch: &mut Ch<'_>) -> DynamicImage {
    let c = ch.of(&COLORS);
    let (w, h) = ch.of(SHAPES);
    let kind = ch.pick(if ch.quick { 3 } else { 6 });
    let d = pattern(w, h, c, kind).dynamic();
    if ch.flag() { overlong(&d) } else { d }
}

fn pixels_only(d: &DynamicImage) -> Vec<u8> {
    let n = d.width() as usize * d.height() as usize * d.color().bytes_per_pixel() as usize;
    d.as_bytes()[..n].to_vec()
}

fn accessors(ch: &mut Ch<'_>) -> Res {
    let mut d = subject(ch);
    let (w, h) = d.dimensions();
    let c = d.color();
    ensure!((d.width(), d.height()) == (w, h), "width and height disagree with dimensions");
    typed!(&d, i => ensure!(i.dimensions() == (w, h) && GenericImageView::dimensions(i) == (w, h), "dimensions differ"));
    ch.step();
    // exactly one accessor answers, and with the same image
    macro_rules! acc {
        ($c:ident, $get:ident, $mutget:ident, $v:ident) => {
            let has = c == ColorType::$c;
            ensure!(d.$get().is_some() == has, "{}() of {c:?}: {}", stringify!($get), d.$get().is_some());
            let copy = d.clone();
            match (d.$get(), &copy) { (Some(a), DynamicImage::$v(b)) => ensure!(a == b, "{}() gives another image", stringify!($get)), (None, _) => (), _ => unreachable!() }
            ensure!(d.$mutget().is_some() == has, "{}() of {c:?}", stringify!($mutget));
            if let Some(m) = d.$mutget() {
                // changes are visible in the dynamic image
                if w > 0 && h > 0 {
                    let p = *m.get_pixel(w - 1, h - 1);
                    let mut q = p;
                    q.apply(|v| if v == Default::default() { MaxVal::max() } else { Default::default() });
                    m.put_pixel(w - 1, h - 1, q);
                    ensure!(d != copy, "a change through {}() was not made in the image", stringify!($mutget));
                    d.$mutget().unwrap().put_pixel(w - 1, h - 1, p);
                    ensure!(d == copy, "the change was not undone");
                }
            }
        };
    }
    acc!(L8, as_luma8, as_mut_luma8, ImageLuma8);
    acc!(La8, as_luma_alpha8, as_mut_luma_alpha8, ImageLumaA8);
    acc!(Rgb8, as_rgb8, as_mut_rgb8, ImageRgb8);
    acc!(Rgba8, as_rgba8, as_mut_rgba8, ImageRgba8);
    acc!(L16, as_luma16, as_mut_luma16, ImageLuma16);
    acc!(La16, as_luma_alpha16, as_mut_luma_alpha16, ImageLumaA16);
    acc!(Rgb16, as_rgb16, as_mut_rgb16, ImageRgb16);
    acc!(Rgba16, as_rgba16, as_mut_rgba16, ImageRgba16);
    acc!(Rgb32F, as_rgb32f, as_mut_rgb32f, ImageRgb32F);
    acc!(Rgba32F, as_rgba32f, as_mut_rgba32f, ImageRgba32F);
    // flat samples
    let (b, n) = (bytes_per_sample(c), c.channel_count());
    macro_rules! flat {
        ($f:ident, $bytes:expr) => {
            let s = d.$f();
            ensure!(s.is_some() == (b == $bytes), "{}() of {c:?}: {}", stringify!($f), s.is_some());
            if let Some(s) = s {
                let l = s.layout;
                ensure!((l.channels, l.width, l.height) == (n, w, h), "{} of {c:?}: {l:?}", stringify!($f));
                ensure!(l.channel_stride == 1 && l.width_stride == n as usize && l.height_stride == n as usize * w as usize, "{} of {c:?}: {l:?}", stringify!($f));
                // the pixels themselves, reached through the strides
                let all = d.as_bytes();
                for y in 0..h { for x in 0..w { for k in 0..n {
                    let at = s.index(k, x, y);
                    let e = ((y * w + x) as usize * n as usize + k as usize) * b;
                    let at = match at { Some(a) => a, None => return viol("flat", format!("{}: no sample at {k},{x},{y}", stringify!($f))) };
                    let raw = s.samples[at].to_ne_bytes();
                    ensure!(raw[..] == all[e..e + b], "{} of {c:?}: sample {k},{x},{y} differs", stringify!($f));
                } } }
            }
        };
    }
    flat!(as_flat_samples_u8, 1);
    flat!(as_flat_samples_u16, 2);
    flat!(as_flat_samples_f32, 4);
    // bytes
    let raw: Vec<u8> = typed!(&d, i => i.as_raw().iter().flat_map(|s| s.to_ne_bytes()).collect());
    ensure!(d.as_bytes() == raw, "as_bytes differs from the samples");
    ensure!(d.clone().into_bytes() == raw, "into_bytes differs from the samples");
    // per-pixel reading
    let want = d.to_rgba8();
    for y in 0..h { for x in 0..w {
        ensure!(d.get_pixel(x, y) == *want.get_pixel(x, y), "get_pixel({x},{y}) of {c:?} is {:?}, as RGBA it is {:?}", d.get_pixel(x, y), want.get_pixel(x, y));
    } }
    let it: Vec<(u32, u32, Rgba<u8>)> = d.pixels().collect();
    ensure!(it.len() == w as usize * h as usize, "pixels() gives {} items", it.len());
    for (i, (x, y, p)) in it.iter().enumerate() {
        ensure!((*x, *y) == (i as u32 % w, i as u32 / w) && p == want.get_pixel(*x, *y), "pixels(): item {i} is {:?}", it[i]);
    }
    for (x, y) in [(0, 0), (w, 0), (0, h), (w.wrapping_sub(1), h.wrapping_sub(1)), (u32::MAX, 0), (0, u32::MAX)] {
        ensure!(d.in_bounds(x, y) == (x < w && y < h), "in_bounds({x},{y}) of {w}x{h}");
        if !(x < w && y < h) {
            ensure!(catch(|| d.get_pixel(x, y)).is_err(), "get_pixel({x},{y}) outside {w}x{h} did not panic");
        }
    }
    // copies
    let e = d.clone();
    ensure!(e == d && e.color() == c && e.as_bytes() == d.as_bytes(), "a clone differs");
    let back: DynamicImage = typed!(e, i => i.into());
    ensure!(back == d, "held image turned back into a dynamic one differs");
    ensure!(back.color() == c, "held image turned back into {:?}", back.color());
    ch.outcome(hash_of(&(c as u8, w, h, b)));
    Ok(())
}

trait MaxVal { fn max() -> Self; }
impl MaxVal for u8 { fn max() -> u8 { 255 } }
impl MaxVal for u16 { fn max() -> u16 { 65535 } }
impl MaxVal for f32 { fn max() -> f32 { 1. } }

fn pairs(ch: &mut Ch<'_>) -> Res {
    let a = subject_small(ch);
    let b = subject_small(ch);
    let mut x = a.clone();
    x.clone_from(&b);
    ensure!(x.color() == b.color() && x.dimensions() == b.dimensions() && x.as_bytes() == b.as_bytes(), "{:?} clone_from {:?}: differs", a.color(), b.color());
    ensure!(x == b, "{:?} clone_from {:?}: not equal", a.color(), b.color());
    let eq = a.color() == b.color() && a.dimensions() == b.dimensions() && a.as_bytes() == b.as_bytes();
    ensure!((a == b) == eq, "{:?} {:?} == {:?} {:?} is {}", a.color(), a.dimensions(), b.color(), b.dimensions(), a == b);
    Ok(())
}
fn subject_small(ch: &mut Ch<'_>) -> DynamicImage {
    let c = ch.of(&COLORS);
    let (w, h) = ch.of(&[(0u32, 0u32), (1, 1), (2, 3), (3, 2)]);
    let k = ch.pick(2);
    pattern(w, h, c, k + 1).dynamic()
}

fn creation(ch: &mut Ch<'_>) -> Res {
    let c = ch.of(&COLORS);
    let (w, h) = ch.of(SHAPES);
    let d = DynamicImage::new(w, h, c);
    let named = match c {
        ColorType::L8 => DynamicImage::new_luma8(w, h),
        ColorType::La8 => DynamicImage::new_luma_a8(w, h),
        ColorType::Rgb8 => DynamicImage::new_rgb8(w, h),
        ColorType::Rgba8 => DynamicImage::new_rgba8(w, h),
        ColorType::L16 => DynamicImage::new_luma16(w, h),
        ColorType::La16 => DynamicImage::new_luma_a16(w, h),
        ColorType::Rgb16 => DynamicImage::new_rgb16(w, h),
        ColorType::Rgba16 => DynamicImage::new_rgba16(w, h),
        ColorType::Rgb32F => DynamicImage::new_rgb32f(w, h),
        _ => DynamicImage::new_rgba32f(w, h),
    };
    for d in [d, named] {
        ensure!(d.color() == c && d.dimensions() == (w, h), "new({w},{h},{c:?}) is {:?} {:?}", d.color(), d.dimensions());
        ensure!(d.as_bytes().len() == w as usize * h as usize * c.bytes_per_pixel() as usize && d.as_bytes().iter().all(|&b| b == 0), "new({w},{h},{c:?}): not all zero");
    }
    let z = DynamicImage::default();
    ensure!(z.dimensions() == (0, 0), "the default image is not empty");
    Ok(())
}

fn conversions(ch: &mut Ch<'_>) -> Res {
    let d = subject(ch);
    let c = d.color();
    macro_rules! conv {
        ($col:expr, $to:ident, $into:ident, $t:ty) => {
            let a = d.$to();
            let b = d.clone().$into();
            let t: ImageBuffer<$t, Vec<<$t as Pixel>::Subpixel>> = typed!(&d, i => buffer::ConvertBuffer::convert(i));
            ensure!(a.dimensions() == d.dimensions() && b.dimensions() == d.dimensions(), "{} changes the size", stringify!($to));
            ensure!(a.pixels().eq(t.pixels()), "{} of {c:?} differs from converting the typed image", stringify!($to));
            ensure!(b.pixels().eq(t.pixels()), "{} of {c:?} differs from converting the typed image", stringify!($into));
            if Some(c) == $col {
                let p: Vec<u8> = a.pixels().flat_map(|p| p.channels().to_vec()).flat_map(|s| s.to_ne_bytes()).collect();
                ensure!(p == pixels_only(&d), "{} of {c:?} changes the pixels: {}", stringify!($to), first_diff(&p, &pixels_only(&d)));
                ensure!(b.as_raw().iter().flat_map(|s| s.to_ne_bytes()).collect::<Vec<u8>>() == d.as_bytes(), "{} of {c:?} does not return the image as it is", stringify!($into));
            }
            ch.step();
        };
    }
    conv!(Some(ColorType::L8), to_luma8, into_luma8, Luma<u8>);
    conv!(Some(ColorType::La8), to_luma_alpha8, into_luma_alpha8, LumaA<u8>);
    conv!(Some(ColorType::Rgb8), to_rgb8, into_rgb8, Rgb<u8>);
    conv!(Some(ColorType::Rgba8), to_rgba8, into_rgba8, Rgba<u8>);
    conv!(Some(ColorType::L16), to_luma16, into_luma16, Luma<u16>);
    conv!(Some(ColorType::La16), to_luma_alpha16, into_luma_alpha16, LumaA<u16>);
    conv!(Some(ColorType::Rgb16), to_rgb16, into_rgb16, Rgb<u16>);
    conv!(Some(ColorType::Rgba16), to_rgba16, into_rgba16, Rgba<u16>);
    conv!(Some(ColorType::Rgb32F), to_rgb32f, into_rgb32f, Rgb<f32>);
    conv!(Some(ColorType::Rgba32F), to_rgba32f, into_rgba32f, Rgba<f32>);
    conv!(None::<ColorType>, to_luma32f, to_luma32f, Luma<f32>);
    conv!(None::<ColorType>, to_luma_alpha32f, to_luma_alpha32f, LumaA<f32>);
    // gray f32 images become colour ones with equal channels
    let l = d.to_luma32f();
    let e: DynamicImage = l.clone().into();
    ensure!(e.color() == ColorType::Rgb32F && e.as_rgb32f().unwrap().pixels().zip(l.pixels()).all(|(a, b)| a.0 == [b.0[0]; 3]), "a gray f32 image does not become a colour one of the same level");
    let l = d.to_luma_alpha32f();
    let e: DynamicImage = l.clone().into();
    ensure!(e.color() == ColorType::Rgba32F && e.as_rgba32f().unwrap().pixels().zip(l.pixels()).all(|(a, b)| a.0 == [b.0[0], b.0[0], b.0[0], b.0[1]]), "a gray+alpha f32 image does not become a colour one of the same level");
    Ok(())
}

fn gray_model(d: &DynamicImage) -> DynamicImage {
    match d {
        DynamicImage::ImageLuma8(_) | DynamicImage::ImageLumaA8(_) | DynamicImage::ImageLuma16(_) | DynamicImage::ImageLumaA16(_) => Raw { w: d.width(), h: d.height(), color: d.color(), data: pixels_only(d) }.dynamic(),
        DynamicImage::ImageRgb8(_) => d.to_luma8().into(),
        DynamicImage::ImageRgba8(_) => d.to_luma_alpha8().into(),
        DynamicImage::ImageRgb16(_) => d.to_luma16().into(),
        DynamicImage::ImageRgba16(_) => d.to_luma_alpha16().into(),
        DynamicImage::ImageRgb32F(_) => d.to_luma32f().into(),
        _ => d.to_luma_alpha32f().into(),
    }
}

const FILTERS: [FilterType; 5] = [FilterType::Nearest, FilterType::Triangle, FilterType::CatmullRom, FilterType::Gaussian, FilterType::Lanczos3];

fn trim(d: &DynamicImage) -> DynamicImage {
    Raw { w: d.width(), h: d.height(), color: d.color(), data: pixels_only(d) }.dynamic()
}

fn operations(ch: &mut Ch<'_>) -> Res {
    let d = subject(ch);
    let (w, h) = d.dimensions();
    let c = d.color();
    macro_rules! op {
        ($what:expr, $dy:expr, $i:ident => $ty:expr) => {{
            let what = format!("{} of {c:?} {w}x{h}", $what);
            both(&what, || trim(&$dy), || trim(&typed!(&d, $i => DynamicImage::from($ty))))?;
            ch.step();
        }};
    }
    match ch.pick(12) {
        0 => {
            let (x, y) = (ch.of(&[0u32, 1, 2, 9]), ch.of(&[0u32, 1, 3, u32::MAX]));
            let (cw, chh) = (ch.of(&[0u32, 1, 2, 5, u32::MAX]), ch.of(&[0u32, 1, 3, 8]));
            op!(format!("crop({x},{y},{cw},{chh})"), d.clone().crop(x, y, cw, chh), i => imageops::crop_imm(i, x, y, cw, chh).to_image());
            op!(format!("crop_imm({x},{y},{cw},{chh})"), d.crop_imm(x, y, cw, chh), i => imageops::crop_imm(i, x, y, cw, chh).to_image());
            // and from the definition
            let (x0, y0) = (x.min(w), y.min(h));
            let (x1, y1) = (x.saturating_add(cw).min(w).max(x0), y.saturating_add(chh).min(h).max(y0));
            let bpp = c.bytes_per_pixel() as usize;
            let p = pixels_only(&d);
            let mut e = vec![];
            for yy in y0..y1 { for xx in x0..x1 { let o = (yy * w + xx) as usize * bpp; e.extend_from_slice(&p[o..o + bpp]); } }
            let out = d.crop_imm(x, y, cw, chh);
            ensure!(out.dimensions() == (x1 - x0, y1 - y0) && out.as_bytes() == e, "crop({x},{y},{cw},{chh}) of {c:?} {w}x{h} is {:?}, not the rectangle's {}x{} pixels", out.dimensions(), x1 - x0, y1 - y0);
        }
        1 => {
            let before = trim(&d);
            let mut inv = d.clone();
            inv.invert();
            op!("invert", inv.clone(), i => { let mut j = i.clone(); imageops::invert(&mut j); j });
            same("the original after invert on a copy", &trim(&d), &before)?;
            same("grayscale", &trim(&d.grayscale()), &gray_model(&d))?;
        }
        2 => {
            op!("flipv", d.flipv(), i => imageops::flip_vertical(i));
            op!("fliph", d.fliph(), i => imageops::flip_horizontal(i));
            op!("rotate90", d.rotate90(), i => imageops::rotate90(i));
            op!("rotate180", d.rotate180(), i => imageops::rotate180(i));
            op!("rotate270", d.rotate270(), i => imageops::rotate270(i));
        }
        3 => {
            let mut a = vec![];
            for o in [Orientation::NoTransforms, Orientation::Rotate90, Orientation::Rotate180, Orientation::Rotate270, Orientation::FlipHorizontal, Orientation::FlipVertical, Orientation::Rotate90FlipH, Orientation::Rotate270FlipH] {
                let mut e = d.clone();
                e.apply_orientation(o);
                let t = typed!(&d, i => { let i = i.clone(); DynamicImage::from(match o {
                    Orientation::NoTransforms => i,
                    Orientation::Rotate90 => imageops::rotate90(&i),
                    Orientation::Rotate180 => imageops::rotate180(&i),
                    Orientation::Rotate270 => imageops::rotate270(&i),
                    Orientation::FlipHorizontal => imageops::flip_horizontal(&i),
                    Orientation::FlipVertical => imageops::flip_vertical(&i),
                    Orientation::Rotate90FlipH => imageops::flip_horizontal(&imageops::rotate90(&i)),
                    Orientation::Rotate270FlipH => imageops::flip_horizontal(&imageops::rotate270(&i)),
                }) });
                same(&format!("apply_orientation({o:?}) of {c:?} {w}x{h}"), &trim(&e), &trim(&t))?;
                a.push(hash_of(&e.as_bytes()));
            }
            ch.outcome(hash_of(&a));
        }
        4 => {
            let f = ch.of(&FILTERS);
            let (nw, nh) = (ch.of(&[0u32, 1, 3, 6]), ch.of(&[0u32, 2, 5]));
            op!(format!("resize_exact({nw},{nh},{f:?})"), d.resize_exact(nw, nh, f), i => imageops::resize(i, nw, nh, f));
        }
        5 => {
            let (nw, nh) = (ch.of(&[0u32, 1, 3, 6]), ch.of(&[0u32, 2, 5]));
            op!(format!("thumbnail_exact({nw},{nh})"), d.thumbnail_exact(nw, nh), i => imageops::thumbnail(i, nw, nh));
        }
        6 => {
            let s = ch.of(&[-1f32, 0., 0.4, 1.0, 3.7, f32::NAN]);
            op!(format!("blur({s})"), d.blur(s), i => imageops::blur(i, s));
            let t = ch.of(&[0i32, 1, 40, -5, i32::MAX]);
            op!(format!("unsharpen({s},{t})"), d.unsharpen(s, t), i => imageops::unsharpen(i, s, t));
        }
        7 => {
            let s = ch.of(&[0f32, 0.4, 1.0, 2.5, 6.]);
            op!(format!("fast_blur({s})"), d.fast_blur(s), i => imageops::fast_blur(i, s));
        }
        8 => {
            let k = ch.of(&[[0f32, 0., 0., 0., 1., 0., 0., 0., 0.], [1., 2., 3., 4., 5., 6., 7., 8., 9.], [-1., 0., 1., -2., 0., 2., -1., 0., 1.], [0.; 9]]);
            op!(format!("filter3x3({k:?})"), d.filter3x3(&k), i => imageops::filter3x3(i, &k));
            for n in [0, 1, 8, 10] {
                ensure!(catch(|| d.filter3x3(&vec![1.; n])).is_err(), "filter3x3 took {n} kernel elements");
            }
        }
        9 => {
            let v = ch.of(&[0f32, 1., -20.5, 37., 300., -300., f32::NAN, f32::INFINITY]);
            op!(format!("adjust_contrast({v})"), d.adjust_contrast(v), i => imageops::contrast(i, v));
        }
        10 => {
            let v = ch.of(&[0i32, 1, -1, 13, -200, 70000, i32::MAX, i32::MIN]);
            op!(format!("brighten({v})"), d.brighten(v), i => imageops::brighten(i, v));
        }
        _ => {
            let v = ch.of(&[0i32, 1, 90, 179, -45, 360, 725, i32::MAX, i32::MIN]);
            op!(format!("huerotate({v})"), d.huerotate(v), i => imageops::huerotate(i, v));
        }
    }
    Ok(())
}

/// The pixel an RGBA8 colour becomes in the image's own colour type, per channel as a fraction, with the tolerance of computing luminance in 8 bits.
fn drawing(ch: &mut Ch<'_>) -> Res {
    let c = ch.of(&COLORS);
    let (w, h) = ch.of(&[(1u32, 1u32), (2, 2), (3, 1)]);
    let mut d = pattern(w, h, c, 1).dynamic();
    let mut t = d.clone();
    let depth = if ch.quick { 2 } else { 3 };
    for _ in 0..depth {
        let (x, y) = (ch.pick(w as usize) as u32, ch.pick(h as usize) as u32);
        let p = Rgba(ch.of(&[[0u8, 0, 0, 0], [255, 255, 255, 255], [200, 30, 90, 255], [10, 220, 130, 128], [77, 77, 77, 1], [3, 2, 1, 254]]));
        let blend = ch.flag();
        // the colour in each type, by whole-image conversion
        let one: DynamicImage = RgbaImage::from_pixel(1, 1, p).into();
        let before = t.clone();
        if blend {
            d.blend_pixel(x, y, p);
        } else {
            d.put_pixel(x, y, p);
        }
        macro_rules! put {
            ($i:ident, $e:expr) => {{
                let q = *$e.get_pixel(0, 0);
                if blend { $i.get_pixel_mut(x, y).blend(&q) } else { $i.put_pixel(x, y, q) }
            }};
        }
        match &mut t {
            DynamicImage::ImageLuma8(i) => put!(i, one.to_luma8()),
            DynamicImage::ImageLumaA8(i) => put!(i, one.to_luma_alpha8()),
            DynamicImage::ImageRgb8(i) => put!(i, one.to_rgb8()),
            DynamicImage::ImageRgba8(i) => put!(i, one.to_rgba8()),
            DynamicImage::ImageLuma16(i) => put!(i, one.to_luma16()),
            DynamicImage::ImageLumaA16(i) => put!(i, one.to_luma_alpha16()),
            DynamicImage::ImageRgb16(i) => put!(i, one.to_rgb16()),
            DynamicImage::ImageRgba16(i) => put!(i, one.to_rgba16()),
            DynamicImage::ImageRgb32F(i) => put!(i, one.to_rgb32f()),
            DynamicImage::ImageRgba32F(i) => put!(i, one.to_rgba32f()),
            _ => unreachable!(),
        }
        let what = format!("{} {p:?} at {x},{y} of {c:?} {w}x{h}", if blend { "blend_pixel" } else { "put_pixel" });
        let (a, b, o) = (planes(&d), planes(&t), planes(&before));
        // luminance may be rounded in 8 bits before it is widened
        let tol = match c { ColorType::L16 | ColorType::La16 => 257., ColorType::L8 | ColorType::La8 => 0., _ => 0. };
        for yy in 0..h { for xx in 0..w { for k in 0..a.n {
            let (u, v) = (a.at(xx, yy, k), b.at(xx, yy, k));
            if (xx, yy) != (x, y) {
                ensure!(u == o.at(xx, yy, k), "{what}: the pixel at {xx},{yy} changed");
            } else {
                ensure!((u - v).abs() <= tol, "{what}: channel {k} is {u}, on the typed image {v}");
            }
        } } }
        t = d.clone();
        ch.state(hash_of(&d.as_bytes()));
        ch.step();
    }
    for (x, y) in [(w, 0), (0, h), (u32::MAX, u32::MAX)] {
        let mut e = d.clone();
        ensure!(catch(|| e.put_pixel(x, y, Rgba([1, 2, 3, 4]))).is_err(), "put_pixel({x},{y}) outside {w}x{h} did not panic");
    }
    Ok(())
}

/// Views, copies and overlays of dynamic images, compared with the same on their RGBA8 pictures.
fn generic(ch: &mut Ch<'_>) -> Res {
    let c = ch.of(&COLORS);
    let (w, h) = ch.of(&[(3u32, 2u32), (4, 5)]);
    let d = pattern(w, h, c, 2).dynamic();
    let rgba = d.to_rgba8();
    match ch.pick(3) {
        0 => {
            let (x, y) = (ch.pick(w as usize + 1) as u32, ch.pick(h as usize + 1) as u32);
            let (sw, sh) = (ch.pick((w - x) as usize + 1) as u32, ch.pick((h - y) as usize + 1) as u32);
            let v = d.view(x, y, sw, sh);
            ensure!(v.dimensions() == (sw, sh), "view size");
            let im = v.to_image();
            for yy in 0..sh { for xx in 0..sw { ensure!(im.get_pixel(xx, yy) == rgba.get_pixel(x + xx, y + yy), "view({x},{y},{sw},{sh}) of {c:?}: {xx},{yy}"); } }
        }
        1 => {
            let s = ch.of(&COLORS);
            let (ow, oh) = ch.of(&[(1u32, 1u32), (2, 2), (3, 2), (4, 4)]);
            let o = pattern(ow, oh, s, 1).dynamic();
            let (x, y) = (ch.pick(3) as u32, ch.pick(3) as u32);
            let mut e = d.clone();
            let r = e.copy_from(&o, x, y);
            let fits = x + ow <= w && y + oh <= h;
            ensure!(r.is_ok() == fits, "copy_from {ow}x{oh} at {x},{y} of {w}x{h}: {r:?}");
            let mut m = d.clone();
            if fits { for yy in 0..oh { for xx in 0..ow { m.put_pixel(x + xx, y + yy, o.get_pixel(xx, yy)); } } }
            same(&format!("copy_from {s:?} {ow}x{oh} at {x},{y}"), &e, &m)?;
        }
        _ => {
            let s = ch.of(&COLORS);
            let (ow, oh) = ch.of(&[(1u32, 1u32), (2, 2), (4, 4)]);
            let o = pattern(ow, oh, s, 1).dynamic();
            let (x, y) = (ch.of(&[-3i64, -1, 0, 1, 4]), ch.of(&[-2i64, 0, 2, i64::MAX]));
            let mut e = d.clone();
            imageops::overlay(&mut e, &o, x, y);
            let mut m = d.clone();
            for yy in 0..oh { for xx in 0..ow {
                let (px, py) = (x.saturating_add(xx as i64), y.saturating_add(yy as i64));
                if px >= 0 && py >= 0 && px < w as i64 && py < h as i64 { m.blend_pixel(px as u32, py as u32, o.get_pixel(xx, yy)); }
            } }
            same(&format!("overlay {s:?} {ow}x{oh} at {x},{y} on {c:?}"), &e, &m)?;
            let mut e = d.clone();
            imageops::replace(&mut e, &o, x, y);
            let mut m = d.clone();
            for yy in 0..oh { for xx in 0..ow {
                let (px, py) = (x.saturating_add(xx as i64), y.saturating_add(yy as i64));
                if px >= 0 && py >= 0 && px < w as i64 && py < h as i64 { m.put_pixel(px as u32, py as u32, o.get_pixel(xx, yy)); }
            } }
            same(&format!("replace {s:?} {ow}x{oh} at {x},{y} on {c:?}"), &e, &m)?;
        }
    }
    Ok(())
}

const FORMATS: &[ImageFormat] = &[
    ImageFormat::Png, ImageFormat::Jpeg, ImageFormat::Gif, ImageFormat::WebP, ImageFormat::Pnm, ImageFormat::Tiff, ImageFormat::Tga, ImageFormat::Dds,
    ImageFormat::Bmp, ImageFormat::Ico, ImageFormat::Hdr, ImageFormat::OpenExr, ImageFormat::Farbfeld, ImageFormat::Qoi, ImageFormat::Pcx,
];

fn outcome(r: Result<ImageResult<()>, String>, bytes: Vec<u8>) -> Result<Vec<u8>, String> {
    match r {
        Err(p) => Err(format!("panic {p}")),
        Ok(Err(e)) => Err(kind_of(&e).to_string()),
        Ok(Ok(())) => Ok(bytes),
    }
}

fn agree(what: &str, f: ImageFormat, a: Result<Vec<u8>, String>, b: Result<Vec<u8>, String>) -> Res {
    match (a, b) {
        (Ok(a), Ok(b)) if f == ImageFormat::OpenExr => {
            // its chunks are ordered by the threads that finish first
            let (x, y) = (decode(f, &a), decode(f, &b));
            ensure!(x.is_ok() && y.is_ok(), "{what}: does not decode");
            let (x, y) = (x.unwrap(), y.unwrap());
            ensure!((x.w, x.h, x.color, &x.data) == (y.w, y.h, y.color, &y.data), "{what}: different pictures");
            Ok(())
        }
        (Ok(a), Ok(b)) => {
            ensure!(a == b, "{what}: the files differ: {}", first_diff(&a, &b));
            Ok(())
        }
        (Err(a), Err(b)) => {
            ensure!(!a.starts_with("panic"), "{what}: {a}");
            ensure!(a == b, "{what}: {a} for the dynamic image, {b} for the typed one");
            Ok(())
        }
        (a, b) => viol("write", format!("{what}: {} for the dynamic image, {} for the typed one", a.map_or_else(|e| e, |_| "written".into()), b.map_or_else(|e| e, |_| "written".into()))),
    }
}

fn writing(ch: &mut Ch<'_>, dir: &std::path::Path) -> Res {
    let d = subject(ch);
    let f = ch.of(FORMATS);
    let c = d.color();
    let mem = |r: &dyn Fn(&mut Cursor<Vec<u8>>) -> ImageResult<()>| {
        let mut v = Cursor::new(vec![]);
        let r = catch(std::panic::AssertUnwindSafe(|| r(&mut v)));
        outcome(r, v.into_inner())
    };
    let name = format!("{f:?} of {c:?} {}x{}", d.width(), d.height());
    let a = mem(&|v| d.write_to(v, f));
    // GIF pictures always have transparency
    let gif = f == ImageFormat::Gif;
    let b = if gif { let r = d.to_rgba8(); mem(&|v| r.write_to(v, f)) } else { mem(&|v| typed!(&d, i => i.write_to(v, f))) };
    agree(&format!("write_to {name}"), f, a, b.clone())?;
    ch.step();
    let n = std::sync::atomic::AtomicUsize::fetch_add(&COUNT, 1, std::sync::atomic::Ordering::Relaxed);
    let p = dir.join(format!("{n}.bin"));
    let file = |r: &dyn Fn(&std::path::Path) -> ImageResult<()>, p: &std::path::Path| {
        let r = catch(std::panic::AssertUnwindSafe(|| r(p)));
        let bytes = std::fs::read(p).unwrap_or_default();
        let _ = std::fs::remove_file(p);
        outcome(r, bytes)
    };
    let a = file(&|p| d.save_with_format(p, f), &p);
    let b2 = file(&|p| typed!(&d, i => i.save_with_format(p, f)), &p);
    agree(&format!("save_with_format {name}"), f, a, b2.clone())?;
    if !gif {
        agree(&format!("saving and writing {name}"), f, b2.clone(), b.clone())?;
    }
    if let Some(e) = f.extensions_str().first() {
        let q = dir.join(format!("{n}.{e}"));
        let a = file(&|p| d.save(p), &q);
        let b = file(&|p| typed!(&d, i => i.save(p)), &q);
        agree(&format!("save {name}"), f, a.clone(), b)?;
        if f != ImageFormat::Pnm { // the extension chooses the subtype
            agree(&format!("save and save_with_format {name}"), f, a, b2)?;
        }
    }
    if let Ok(x) = &b {
        ch.outcome(hash_of(x));
        if decode(f, x).is_ok() { ch.validated(); }
    }
    let via = mem(&|v| d.write_with_encoder(codecs::png::PngEncoder::new(v)));
    let ty = mem(&|v| typed!(&d, i => i.write_with_encoder(codecs::png::PngEncoder::new(v))));
    agree(&format!("write_with_encoder png {c:?}"), ImageFormat::Png, via, ty)?;
    let via = mem(&|v| d.write_with_encoder(Recorder(v)));
    let ty = mem(&|v| { v.set_position(0); let mut o = vec![c as u8, d.width() as u8, d.height() as u8]; o.extend(pixels_only(&d)); std::io::Write::write_all(v, &o).map_err(ImageError::IoError) });
    agree(&format!("write_with_encoder {c:?}"), ImageFormat::Png, via, ty)?;
    Ok(())
}
static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Writes down what it was given.
struct Recorder<'a>(&'a mut Cursor<Vec<u8>>);
impl ImageEncoder for Recorder<'_> {
    fn write_image(self, buf: &[u8], w: u32, h: u32, c: ExtendedColorType) -> ImageResult<()> {
        use std::io::Write;
        let c = COLORS.iter().find(|k| ExtendedColorType::from(**k) == c).unwrap();
        self.0.write_all(&[*c as u8, w as u8, h as u8])?;
        self.0.write_all(buf)?;
        Ok(())
    }
}

/// Reports a size and a colour type and fills the buffer.
struct Fake { w: u32, h: u32, c: ColorType, fail: bool }
impl ImageDecoder for Fake {
    fn dimensions(&self) -> (u32, u32) { (self.w, self.h) }
    fn color_type(&self) -> ColorType { self.c }
    fn read_image(self, buf: &mut [u8]) -> ImageResult<()> {
        if self.fail {
            return Err(ImageError::IoError(std::io::Error::new(std::io::ErrorKind::Other, "no")));
        }
        let r = pattern(self.w, self.h, self.c, 1);
        assert_eq!(buf.len(), r.data.len());
        buf.copy_from_slice(&r.data);
        Ok(())
    }
    fn read_image_boxed(self: Box<Self>, buf: &mut [u8]) -> ImageResult<()> { (*self).read_image(buf) }
}

fn decoding(ch: &mut Ch<'_>) -> Res {
    let c = ch.of(&COLORS);
    let (w, h) = ch.of(&[(0u32, 0u32), (0, 5), (7, 0), (1, 1), (2, 3), (5, 4), (u32::MAX, u32::MAX), (u32::MAX, 0)]);
    let fail = ch.flag();
    let r = catch(|| DynamicImage::from_decoder(Fake { w, h, c, fail }));
    let r = match r { Ok(r) => r, Err(p) => return viol("panic", format!("from_decoder {c:?} {w}x{h}: {p}")) };
    if fail || w as u64 * h as u64 > 1 << 40 {
        ensure!(r.is_err(), "from_decoder {c:?} {w}x{h} fail {fail}: succeeded");
        return Ok(());
    }
    let d = match r { Ok(d) => d, Err(e) => return viol("decoder", format!("from_decoder {c:?} {w}x{h}: {e}")) };
    same("from_decoder", &d, &pattern(w, h, c, 1).dynamic())
}

fn rebuilding(ch: &mut Ch<'_>) -> Res {
    fn go<P: Pixel>(w: u32, h: u32, len: usize, make: fn(ImageBuffer<P, Vec<P::Subpixel>>) -> DynamicImage, v: P::Subpixel) -> Option<DynamicImage> {
        ImageBuffer::<P, Vec<P::Subpixel>>::from_raw(w, h, vec![v; len]).map(make)
    }
    let c = ch.of(&COLORS);
    let (w, h) = ch.of(&[(0u32, 0u32), (1, 1), (2, 3), (4, 1), (u32::MAX, u32::MAX), (u32::MAX, 0), (1 << 31, 2), (1 << 16, 1 << 16)]);
    let n = c.channel_count() as u128;
    let need = w as u128 * h as u128 * n;
    let len = match ch.pick(4) { 0 => 0, 1 => need.min(64).saturating_sub(1) as usize, 2 => need.min(64) as usize, _ => need.min(64) as usize + 1 };
    let r = catch(|| match c {
        ColorType::L8 => go::<Luma<u8>>(w, h, len, Into::into, 9),
        ColorType::La8 => go::<LumaA<u8>>(w, h, len, Into::into, 9),
        ColorType::Rgb8 => go::<Rgb<u8>>(w, h, len, Into::into, 9),
        ColorType::Rgba8 => go::<Rgba<u8>>(w, h, len, Into::into, 9),
        ColorType::L16 => go::<Luma<u16>>(w, h, len, Into::into, 9),
        ColorType::La16 => go::<LumaA<u16>>(w, h, len, Into::into, 9),
        ColorType::Rgb16 => go::<Rgb<u16>>(w, h, len, Into::into, 9),
        ColorType::Rgba16 => go::<Rgba<u16>>(w, h, len, Into::into, 9),
        ColorType::Rgb32F => go::<Rgb<f32>>(w, h, len, Into::into, 9.),
        _ => go::<Rgba<f32>>(w, h, len, Into::into, 9.),
    });
    let r = match r { Ok(r) => r, Err(p) => return viol("panic", format!("from_raw {c:?} {w}x{h} with {len} samples: {p}")) };
    ensure!(r.is_some() == (len as u128 >= need), "from_raw {c:?} {w}x{h} with {len} samples: {}", r.is_some());
    if let Some(d) = r {
        ensure!(d.color() == c && d.dimensions() == (w, h), "from_raw: {:?} {:?}", d.color(), d.dimensions());
        ensure!(d.as_bytes().len() == len * bytes_per_sample(c), "from_raw: lost samples");
        ensure!(d.into_bytes().len() == len * bytes_per_sample(c), "into_bytes: lost samples");
    }
    Ok(())
}

fn colour_types(ch: &mut Ch) -> Res {
    use ExtendedColorType::*;
    let all = [A8, L1, La1, Rgb1, Rgba1, L2, La2, Rgb2, Rgba2, L4, La4, Rgb4, Rgba4, L8, La8, Rgb8, Rgba8, L16, La16, Rgb16, Rgba16, Bgr8, Bgra8, Rgb32F, Rgba32F, Cmyk8];
    let named = |n: &str| -> (u8, u16) {
        let n = n.trim_end_matches('F');
        let (name, bits) = n.split_at(n.find(|c: char| c.is_ascii_digit()).unwrap());
        let chans = match name {
            "A" | "L" => 1,
            "La" => 2,
            "Rgb" | "Bgr" => 3,
            _ => 4,
        };
        (chans, bits.parse().unwrap())
    };
    for e in all {
        let (chans, bits) = named(&format!("{e:?}"));
        ensure!(e.channel_count() == chans && e.bits_per_pixel() == chans as u16 * bits, "{e:?}: {} channels, {} bits", e.channel_count(), e.bits_per_pixel());
        ch.step();
    }
    for n in 0..=255u8 {
        ensure!(Unknown(n).channel_count() == 1 && Unknown(n).bits_per_pixel() == n as u16, "Unknown({n}): {} channels, {} bits", Unknown(n).channel_count(), Unknown(n).bits_per_pixel());
    }
    for c in COLORS {
        let (chans, bits) = named(&format!("{c:?}"));
        ensure!(c.channel_count() == chans && c.bits_per_pixel() == chans as u16 * bits && c.bytes_per_pixel() as u16 * 8 == chans as u16 * bits, "{c:?}: {} channels, {} bits, {} bytes", c.channel_count(), c.bits_per_pixel(), c.bytes_per_pixel());
        ensure!(c.has_alpha() == (chans % 2 == 0) && c.has_color() == (chans > 2), "{c:?}: alpha {}, colour {}", c.has_alpha(), c.has_color());
        let e = ExtendedColorType::from(c);
        ensure!(format!("{e:?}") == format!("{c:?}"), "{c:?} becomes {e:?}");
        ch.state(hash_of(&format!("{c:?}")));
    }
    macro_rules! px {
        ($($t:ty, $n:expr, $m:expr);*) => { $(
            ensure!(<$t as Pixel>::CHANNEL_COUNT == $n && <$t as Pixel>::COLOR_MODEL == $m, "{}: {} channels, model {}", stringify!($t), <$t as Pixel>::CHANNEL_COUNT, <$t as Pixel>::COLOR_MODEL);
        )* };
    }
    px!(Luma<u8>, 1, "Y"; LumaA<u8>, 2, "YA"; Rgb<u8>, 3, "RGB"; Rgba<u8>, 4, "RGBA"; Luma<f64>, 1, "Y"; Rgba<i16>, 4, "RGBA");
    Ok(())
}

fn main() {
    let mut c = Check::start("C32", "model_checking", "all operations of DynamicImage agree with the typed images, for all ten colour types");
    let dir = std::env::temp_dir().join(format!("mc-c32-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    c.once("colour types", "all colour types: what they say of channels and bits is what their names say, and the pixel types agree", colour_types);
    c.explore("creation", "10 colour types x 9 sizes", creation);
    c.explore("accessors", "10 colour types x 9 sizes x patterns x exact and over-long buffers", accessors);
    c.explore("pairs", "all pairs of 10 colour types x 4 sizes x 2 patterns", pairs);
    c.explore("conversions", "10 colour types x 12 targets x sizes x patterns x buffers", conversions);
    c.explore("operations", "10 colour types x all operations x parameters x sizes x patterns x buffers", operations);
    c.explore("drawing", "10 colour types x 3 sizes x all sequences of 2 (thorough 3) writes and blends of 6 colours", drawing);
    c.explore("generic", "views, copies, overlays: 10 x 10 colour types x offsets", generic);
    c.explore("decoding", "10 colour types x 8 sizes x failure", decoding);
    c.explore("rebuilding", "10 colour types x 8 sizes x 4 lengths", rebuilding);
    c.explore("writing", "10 colour types x sizes x patterns x buffers x 15 formats x 4 ways", |ch| writing(ch, &dir));
    let _ = std::fs::remove_dir_all(&dir);
    c.finish();
}
