//! C17: point-wise colour operations follow their definition and never panic.
//! TECHNIQUE: exhaustive enumeration of samples, parameters and colour types over the real operations, compared with an exact point-wise model
//! LEVEL: model_checking
//! NOTE: Images whose channels run through every 8-bit and a dense boundary set of 16-bit and f32 values, all ten colour types, parameter sets reaching the ends of their types (incl. NaN and infinite contrast); copying, in-place, view and whole-image variants have to agree bit by bit.
use image::imageops::*;
use image::*;
use mc::*;

/// An image in which every channel takes every value of a set, the channels being out of step with each other.
fn spread(color: ColorType) -> DynamicImage {
    let m = max_level(color);
    let mut s: Vec<f64> = if m == 255. {
        (0..256).map(|x| x as f64).collect()
    } else if m == 65535. {
        let mut v: Vec<f64> = (0..=512).map(|x| (x * 128) as f64).map(|x: f64| x.min(m)).collect();
        v.extend([1., 2., 127., 128., 254., 255., 256., 257., 1000., 32766., 32767., 32769., 65279., 65280., 65533., 65534.]);
        v
    } else {
        let mut v: Vec<f64> = (0..=300).map(|x| x as f64 / 300.).collect();
        v.extend([1e-7, 1e-3, 0.5, 0.999999]);
        v
    };
    s.push(m);
    let k = s.len();
    let n = color.channel_count() as usize;
    // steps coprime to nothing in particular: channel c is shifted by a third and stepped differently per row
    let w = k;
    let rows = 12usize;
    let mut v = Vec::new();
    for y in 0..rows {
        for x in 0..w {
            for c in 0..n {
                v.push(s[match y {
                    0 => x,                              // grey
                    1 => (x + c * k / 3) % k,
                    _ => (x * (1 + (c * y) % 5) + c * y * 29 + y * 7) % k,
                }]);
            }
        }
    }
    from_levels(w as u32, rows as u32, color, &v)
}

/// Compares `out` with `model(channel levels) -> levels` for every pixel.
fn compare(what: &str, d: &DynamicImage, out: &DynamicImage, tol: f64, model: impl Fn(&[f64], usize) -> f64) -> Res {
    ensure!(out.color() == d.color() && out.dimensions() == d.dimensions(), "{what}: the shape changed: {:?} {:?}", out.color(), out.dimensions());
    let (a, b) = (planes(d), planes(out));
    for (i, (p, q)) in a.v.chunks(a.n).zip(b.v.chunks(a.n)).enumerate() {
        for c in 0..a.n {
            let e = model(p, c);
            ensure!((q[c] - e).abs() <= tol, "{what} {:?}: pixel {i} {p:?} became {q:?}; channel {c} should be {e}", d.color());
        }
    }
    Ok(())
}

macro_rules! typed {
    ($d:expr, $i:ident => $e:expr) => {
        match $d {
            DynamicImage::ImageLuma8($i) => $e,
            DynamicImage::ImageLumaA8($i) => $e,
            DynamicImage::ImageRgb8($i) => $e,
            DynamicImage::ImageRgba8($i) => $e,
            DynamicImage::ImageLuma16($i) => $e,
            DynamicImage::ImageLumaA16($i) => $e,
            DynamicImage::ImageRgb16($i) => $e,
            DynamicImage::ImageRgba16($i) => $e,
            DynamicImage::ImageRgb32F($i) => $e,
            DynamicImage::ImageRgba32F($i) => $e,
            _ => unreachable!(),
        }
    };
}

fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    catch(std::panic::AssertUnwindSafe(f)).map_err(|p| Viol::new("panic", format!("{what}: {p}")))
}

fn inverts(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let d = spread(color);
    let m = max_level(color);
    let mut o = d.clone();
    o.invert();
    let alpha = color.has_alpha();
    let n = color.channel_count() as usize;
    compare("invert", &d, &o, if m == 1. { 1e-7 } else { 0. }, |p, c| if alpha && c == n - 1 { p[c] } else { m - p[c] })?;
    let mut twice = o.clone();
    twice.invert();
    compare("inverting twice", &d, &twice, if m == 1. { 1e-7 } else { 0. }, |p, c| p[c])?;
    typed!(d.clone(), i => {
        let mut a = i.clone();
        colorops::invert(&mut a);
        ensure!(a.as_flat_samples().samples.len() == i.len(), "invert changed the size");
        ensure!(DynamicImage::from(a).as_bytes() == o.as_bytes(), "{color:?}: imageops::invert and DynamicImage::invert differ");
        // pixel by pixel
        let mut a = i.clone();
        for p in a.pixels_mut() { p.invert(); }
        ensure!(DynamicImage::from(a).as_bytes() == o.as_bytes(), "{color:?}: Pixel::invert differs");
    });
    ch.steps(d.as_bytes().len() as u64);
    ch.outcome(hash_of(&color));
    Ok(())
}

/// The operations with copying and in-place variants: everything agrees.
fn variants(d: &DynamicImage, what: &str, o: &DynamicImage, op: usize, iv: i32, fv: f32) -> Res {
    let color = d.color();
    typed!(d.clone(), i => {
        let run = |i: &_| DynamicImage::from(match op { 0 => colorops::brighten(i, iv), 1 => colorops::contrast(i, fv), _ => colorops::huerotate(i, iv) });
        let copied = guarded(what, || run(&i))?;
        ensure!(copied.as_bytes() == o.as_bytes(), "{what} {color:?}: the typed operation and DynamicImage differ");
        let mut a = i.clone();
        guarded(what, || match op { 0 => colorops::brighten_in_place(&mut a, iv), 1 => colorops::contrast_in_place(&mut a, fv), _ => colorops::huerotate_in_place(&mut a, iv) })?;
        let inplace = DynamicImage::from(a);
        ensure!(inplace.as_bytes() == o.as_bytes(), "{what} {color:?}: in place and copying differ: {}", first_diff(inplace.as_bytes(), o.as_bytes()));
        // a view in a larger image: changed inside, untouched outside
        let (w, h) = i.dimensions();
        let (x, y) = (w / 3, 1);
        let (vw, vh) = (w / 2, h / 2);
        let part = guarded(what, || match op { 0 => colorops::brighten(&*i.view(x, y, vw, vh), iv), 1 => colorops::contrast(&*i.view(x, y, vw, vh), fv), _ => colorops::huerotate(&*i.view(x, y, vw, vh), iv) })?;
        ensure!(DynamicImage::from(part).as_bytes() == o.crop_imm(x, y, vw, vh).as_bytes(), "{what} {color:?}: on a view it differs");
        let mut a = i.clone();
        { let mut v = a.sub_image(x, y, vw, vh); match op { 0 => colorops::brighten_in_place(&mut *v, iv), 1 => colorops::contrast_in_place(&mut *v, fv), _ => colorops::huerotate_in_place(&mut *v, iv) } }
        let a = DynamicImage::from(a);
        let mut e = d.clone();
        let (pa, po) = (planes(&a), planes(o));
        let pe = planes(&mut e);
        for py in 0..h { for px in 0..w { for c in 0..pe.n {
            let inside = px >= x && px < x + vw && py >= y && py < y + vh;
            let want = if inside { po.at(px, py, c) } else { pe.at(px, py, c) };
            ensure!(pa.at(px, py, c) == want, "{what} {color:?}: in place on a view: pixel ({px}, {py})");
        } } }
    });
    Ok(())
}

fn brightens(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let d = spread(color);
    let m = max_level(color);
    let mut vals: Vec<i32> = vec![i32::MIN, i32::MIN + 1, i32::MIN + 255, -(1 << 24), -65536, -65535, -65534, -32768, 32767, 65534, 65535, 65536, 1 << 24, i32::MAX - 65535, i32::MAX - 255, i32::MAX - 254, i32::MAX - 1, i32::MAX];
    if ch.quick {
        vals.extend([-256, -255, -254, -128, -100, -2, -1, 0, 1, 2, 3, 77, 127, 128, 254, 255, 256]);
    } else {
        vals.extend(-300..=300);
        vals.extend((-65..=65).map(|x| x * 1000));
    }
    let value = ch.of(&vals);
    let what = format!("brighten by {value}");
    let o = guarded(&format!("{what} {color:?}"), || d.brighten(value))?;
    let n = color.channel_count() as usize;
    compare(&what, &d, &o, if m == 1. { 1e-6 } else { 0. }, |p, c| if color.has_alpha() && c == n - 1 { p[c] } else { (p[c] + value as f64).clamp(0., m) })?;
    variants(&d, &what, &o, 0, value, 0.)?;
    ch.steps(d.as_bytes().len() as u64);
    ch.state(hash_of(&(color, value)));
    ch.outcome(hash_of(&color));
    Ok(())
}

fn contrasts(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let d = spread(color);
    let m = max_level(color);
    let mut vals: Vec<f32> = vec![0.0, -0.0, 1.0, -1.0, 10.0, 50.0, -50.0, 99.0, -99.0, 100.0, -100.0, -101.0, -200.0, -300.0, 300.0, 1000.0, 1e6, -1e6, 1e19, 1e30, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e-45, 0.1, 33.3];
    if !ch.quick {
        vals.extend((-250..=250).map(|x| x as f32 * 1.5));
    }
    let value = ch.of(&vals);
    let what = format!("contrast by {value}");
    let o = guarded(&format!("{what} {color:?}"), || d.adjust_contrast(value))?;
    let n = color.channel_count() as usize;
    if value.is_finite() {
        let percent = ((100. + value as f64) / 100.).powi(2);
        let (a, b) = (planes(&d), planes(&o));
        for (p, q) in a.v.chunks(n).zip(b.v.chunks(n)) {
            for c in 0..n {
                let e = (((p[c] / m - 0.5) * percent + 0.5) * m).clamp(0., m);
                // f32 arithmetic in the code
                let tol = if m == 1. { 2e-6 } else { 1.0 + m * 1e-6 } + m * percent * 3e-7;
                // (whether alpha counts as a channel is not documented)
                ensure!((q[c] - e).abs() <= tol || (color.has_alpha() && c == n - 1 && q[c] == p[c]), "{what} {color:?}: {p:?} became {q:?}; channel {c} should be {e}");
            }
        }
        if value == 0.0 {
            compare("contrast by 0", &d, &o, if m == 1. { 1e-6 } else { 1.0 }, |p, c| p[c])?;
        }
    }
    for (x, y, p) in o.pixels().take(5) {
        let _ = (x, y, p);
    }
    variants(&d, &what, &o, 1, 0, value)?;
    ch.steps(d.as_bytes().len() as u64);
    ch.state(hash_of(&(color, value.to_bits())));
    ch.outcome(hash_of(&color));
    Ok(())
}

fn hues(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let d = spread(color);
    let m = max_level(color);
    let mut vals: Vec<i32> = vec![0, 1, 30, 45, 60, 90, 120, 180, 240, 270, 300, 359, 360, 361, 720, -1, -90, -180, -360, i32::MAX, i32::MIN, 1_000_000_007];
    if !ch.quick {
        vals.extend(2..360);
    }
    let value = ch.of(&vals);
    let what = format!("hue rotation by {value}");
    let o = guarded(&format!("{what} {color:?}"), || d.huerotate(value))?;
    let n = color.channel_count() as usize;
    let r = ((value as i64 % 360) as f64).to_radians();
    let (co, si) = (r.cos(), r.sin());
    let mat = [
        [0.213 + co * 0.787 - si * 0.213, 0.715 - co * 0.715 - si * 0.715, 0.072 - co * 0.072 + si * 0.928],
        [0.213 - co * 0.213 + si * 0.143, 0.715 + co * 0.285 + si * 0.140, 0.072 - co * 0.072 - si * 0.283],
        [0.213 - co * 0.213 - si * 0.787, 0.715 - co * 0.715 + si * 0.715, 0.072 + co * 0.928 + si * 0.072],
    ];
    // identity for multiples of a full turn and for grey, to the last bit of an integer
    let tol = if m == 1. { 1e-5 } else { 1.0 };
    let full = value as i64 % 360 == 0;
    compare(&what, &d, &o, tol, |p, c| {
        if n < 3 || c == 3 {
            p[c]
        } else {
            (mat[c][0] * p[0] + mat[c][1] * p[1] + mat[c][2] * p[2]).clamp(0., m)
        }
    })?;
    if full {
        compare(&format!("{what} (nothing)"), &d, &o, if m == 1. { 1e-6 } else { 0. }, |p, c| p[c])?;
    }
    variants(&d, &what, &o, 2, value, 0.)?;
    ch.steps(d.as_bytes().len() as u64);
    ch.state(hash_of(&(color, value)));
    ch.outcome(hash_of(&color));
    Ok(())
}

/// Non-finite and out-of-range floats never panic.
fn floats(ch: &mut Ch) -> Res {
    let v = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 1e-45, -0.0, 2.0, -1.0, 3e9, -3e9];
    let (a, b) = (ch.of(&v), ch.of(&v));
    let op = ch.pick(9);
    let iv = ch.of(&[0, 1, -1, i32::MAX, i32::MIN]);
    let rgb = ch.flag();
    let d = if rgb { DynamicImage::ImageRgb32F(ImageBuffer::from_pixel(3, 2, Rgb([a, b, 0.5]))) } else { DynamicImage::ImageRgba32F(ImageBuffer::from_pixel(3, 2, Rgba([a, 0.1, 0.5, b]))) };
    guarded(&format!("operation {op} with {iv} on floats {a}, {b}"), || {
        match op {
            0 => d.brighten(iv),
            1 => d.adjust_contrast(iv as f32),
            2 => d.huerotate(iv),
            3 => d.grayscale(),
            4 => {
                let mut d = d.clone();
                d.invert();
                d
            }
            5 => d.to_rgb8().into(),
            6 => d.to_luma_alpha16().into(),
            7 => d.to_rgba16().into(),
            _ => d.unsharpen(1.0, iv),
        };
    })?;
    ch.outcome(hash_of(&(op, a.to_bits())));
    Ok(())
}

fn greys(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let d = spread(color);
    let g = d.grayscale();
    let m = max_level(color);
    let n = color.channel_count() as usize;
    let expect = match (color, m as u32) {
        (_, 1) => color,
        (_, 255) => if color.has_alpha() { ColorType::La8 } else { ColorType::L8 },
        _ => if color.has_alpha() { ColorType::La16 } else { ColorType::L16 },
    };
    ensure!(g.color() == expect, "{color:?}: grayscale gives {:?}", g.color());
    let (a, b) = (planes(&d), planes(&g));
    for (p, q) in a.v.chunks(n).zip(b.v.chunks(b.n)) {
        let l = if n < 3 { p[0] } else { (2126. * p[0] + 7152. * p[1] + 722. * p[2]) / 10000. };
        let tol = if n < 3 { 0. } else if m == 1. { 1e-6 } else { 1. };
        for c in 0..b.n {
            if b.n % 2 == 0 && c == b.n - 1 {
                ensure!(q[c] == p[n - 1], "{color:?}: grayscale changed alpha: {p:?} to {q:?}");
            } else {
                ensure!((q[c] - l).abs() <= tol, "{color:?}: grayscale of {p:?} is {q:?}, expected {l}");
            }
        }
    }
    // the generic variants
    typed!(d.clone(), i => {
        let (a, b) = (colorops::grayscale(&i), colorops::grayscale_alpha(&i));
        for ((p, q), s) in a.pixels().zip(b.pixels()).zip(i.pixels()) {
            ensure!(p.0 == s.to_luma().0 && q.0 == s.to_luma_alpha().0, "{color:?}: imageops::grayscale differs from Pixel::to_luma");
        }
        ensure!(a.dimensions() == i.dimensions() && b.dimensions() == i.dimensions(), "grayscale changed the dimensions");
        macro_rules! into {
            ($($T:ident < $S:ty >),*) => {$(
                let (a, b) = (colorops::grayscale_with_type::<$T<$S>, _>(&i), colorops::grayscale_with_type_alpha::<$T<$S>, _>(&i));
                ensure!(a.dimensions() == i.dimensions() && b.dimensions() == i.dimensions(), "grayscale_with_type changed the dimensions");
                let x: ImageBuffer<$T<$S>, Vec<$S>> = image::buffer::ConvertBuffer::convert(&colorops::grayscale(&i));
                let y: ImageBuffer<$T<$S>, Vec<$S>> = image::buffer::ConvertBuffer::convert(&colorops::grayscale_alpha(&i));
                ensure!(a == x && b == y, "{color:?}: grayscale_with_type into {} is not the conversion of the grayscale image", stringify!($T<$S>));
            )*};
        }
        into!(Luma<u8>, LumaA<u16>, Rgb<f32>, Rgba<u8>, Rgba<u16>);
    });
    ch.steps(d.as_bytes().len() as u64);
    ch.outcome(hash_of(&color));
    Ok(())
}

/// Pixel::map and its relatives: every channel once, in order, alpha apart.
fn maps(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let d = spread(color);
    let n = color.channel_count() as usize;
    let alpha = color.has_alpha();
    typed!(d.clone(), i => {
        for (k, p) in i.pixels().enumerate() {
            let src: Vec<_> = p.channels().to_vec();
            let mut seen = vec![];
            let q = p.map(|v| { seen.push(v); src[n - seen.len()] });
            ensure!(seen == src, "{color:?}: map sees {seen:?} for {src:?}");
            let rev: Vec<_> = src.iter().rev().copied().collect();
            ensure!(q.channels() == rev, "{color:?}: map puts the results elsewhere");
            let mut q = *p;
            let mut at = 0;
            q.apply(|_| { at += 1; src[n - at] });
            ensure!(q.channels() == rev && at == n, "{color:?}: apply differs from map");
            // alpha apart
            let (mut cs, mut als) = (vec![], vec![]);
            let q = p.map_with_alpha(|v| { cs.push(v); src[0] }, |v| { als.push(v); src[n - 1] });
            let colours = if alpha { n - 1 } else { n };
            ensure!(cs == src[..colours] && als == src[colours..], "{color:?}: map_with_alpha sees {cs:?} and {als:?} for {src:?}");
            let mut e = vec![src[0]; colours];
            if alpha { e.push(src[n - 1]); }
            ensure!(q.channels() == e, "{color:?}: map_with_alpha gives {:?}", q.channels());
            let mut q2 = *p;
            q2.apply_with_alpha(|_| src[0], |_| src[n - 1]);
            ensure!(q2 == q, "{color:?}: apply_with_alpha differs");
            let without = p.map_without_alpha(|_| src[0]);
            let mut e = vec![src[0]; colours];
            e.extend_from_slice(&src[colours..]);
            ensure!(without.channels() == e, "{color:?}: map_without_alpha gives {:?}", without.channels());
            let mut q3 = *p;
            q3.apply_without_alpha(|_| src[0]);
            ensure!(q3 == without, "{color:?}: apply_without_alpha differs");
            // two pixels
            let other = *i.get_pixel((k as u32 * 7 + 3) % i.width(), 1);
            let mut pairs = vec![];
            let q = p.map2(&other, |a, b| { pairs.push((a, b)); b });
            let e: Vec<_> = src.iter().copied().zip(other.channels().iter().copied()).collect();
            ensure!(pairs == e && q == other, "{color:?}: map2 sees {pairs:?}");
            let mut q = *p;
            q.apply2(&other, |a, b| if a < b { a } else { b });
            ensure!(q.channels().iter().zip(&e).all(|(x, (a, b))| *x == if a < b { *a } else { *b }), "{color:?}: apply2 differs");
        }
    });
    ch.steps(d.as_bytes().len() as u64);
    ch.outcome(hash_of(&color));
    Ok(())
}

/// Every size: nothing depends on the shape.
fn sizes(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let m = if ch.quick { 4 } else { 9 };
    let (w, h) = (ch.range(0, m) as u32, ch.range(0, m) as u32);
    let d = pattern(w, h, color, ch.of(&[2, 5])).dynamic();
    for op in 0..5 {
        let f = |d: &DynamicImage| match op {
            0 => d.brighten(40),
            1 => d.adjust_contrast(20.),
            2 => d.huerotate(77),
            3 => d.grayscale(),
            _ => {
                let mut d = d.clone();
                d.invert();
                d
            }
        };
        let o = guarded(&format!("operation {op} on {w}x{h} {color:?}"), || f(&d))?;
        ensure!(o.dimensions() == (w, h), "operation {op} on {w}x{h} {color:?} gives {:?}", o.dimensions());
        for y in 0..h {
            for x in 0..w {
                let one = f(&d.crop_imm(x, y, 1, 1));
                ensure!(one.as_bytes() == o.crop_imm(x, y, 1, 1).as_bytes(), "operation {op} on {w}x{h} {color:?}: pixel ({x}, {y}) depends on its surroundings");
            }
        }
        ch.steps(1);
    }
    ch.state(hash_of(&(color, w, h)));
    Ok(())
}

/// Every sample type the generic operations accept, signed and wide ones included.
fn other_samples<P: Pixel<Subpixel = S> + PartialEq + Send + Sync + 'static, S: samples::Sample>(ch: &mut Ch) -> Res
where
    Rgb<S>: Pixel<Subpixel = S>,
{
    let i: ImageBuffer<P, Vec<S>> = samples::pick_image(ch, &samples::SIZES);
    let n = P::CHANNEL_COUNT as usize;
    let alpha = n % 2 == 0;
    let what = format!("{n} channels of {}", S::NAME);
    let (lo, hi) = (S::DEFAULT_MIN_VALUE, S::DEFAULT_MAX_VALUE);
    let max = hi.f();
    // inverting reflects in the middle of the range
    let mut o = i.clone();
    guarded(&what, || invert(&mut o))?;
    for (j, (a, b)) in i.iter().zip(o.iter()).enumerate() {
        let ok = if alpha && j % n == n - 1 {
            a == b
        } else if S::float() {
            (lo.f() + hi.f() - a.f() - b.f()).abs() < 1e-6
        } else {
            a.to_i128().unwrap() + b.to_i128().unwrap() == lo.to_i128().unwrap() + hi.to_i128().unwrap()
        };
        need!(ok, "invert", "{what}: invert made {a:?} {b:?}");
    }
    guarded(&what, || invert(&mut o))?;
    for (a, b) in i.iter().zip(o.iter()) {
        need!(if S::float() { (a.f() - b.f()).abs() < 1e-6 } else { a == b }, "invert", "{what}: inverting twice made {a:?} {b:?}");
    }
    for v in [0, 1, -1, 255, -255, i32::MAX, i32::MIN] {
        let o = guarded(&format!("{what} brighten {v}"), || brighten(&i, v))?;
        let mut p = i.clone();
        guarded(&format!("{what} brighten {v}"), || colorops::brighten_in_place(&mut p, v))?;
        need!(o == p, "brighten", "{what}: brightening by {v} in place differs from copying");
        for (j, (a, b)) in i.iter().zip(o.iter()).enumerate() {
            let e = if alpha && j % n == n - 1 { a.f() } else { (a.f() + v as f64).clamp(0., max) };
            let tol = match S::BITS { 0 => 1e-6, 64 => 4096., _ => 0. };
            need!((b.f() - e).abs() <= tol, "brighten", "{what}: brightening {a:?} by {v} made {b:?}, not {e}");
        }
    }
    for v in [0f32, -100., 50., f32::NAN, f32::INFINITY, -1e30] {
        let o = guarded(&format!("{what} contrast {v}"), || contrast(&i, v))?;
        let mut p = i.clone();
        guarded(&format!("{what} contrast {v}"), || colorops::contrast_in_place(&mut p, v))?;
        need!(o == p, "contrast", "{what}: contrast {v} in place differs from copying");
        if v.abs() <= 100. {
            let k = ((100. + v as f64) / 100.).powi(2);
            for (a, b) in i.iter().zip(o.iter()) {
                let e = (((a.f() / max - 0.5) * k + 0.5) * max).clamp(0., max);
                need!((b.f() - e).abs() <= S::tolerance(max), "contrast", "{what}: contrast {v} of {a:?} made {b:?}, not {e}");
            }
        }
    }
    for v in [0, 90, 180, -45, 360, i32::MAX, i32::MIN] {
        let o = guarded(&format!("{what} huerotate {v}"), || huerotate(&i, v))?;
        let mut p = i.clone();
        guarded(&format!("{what} huerotate {v}"), || colorops::huerotate_in_place(&mut p, v))?;
        need!(o == p, "huerotate", "{what}: rotating the hue by {v} in place differs from copying");
        if v == 0 || v == 360 || n < 3 {
            for (a, b) in i.iter().zip(o.iter()) {
                let e = if n < 3 { a.f() } else { a.f().clamp(0., max) };
                need!((b.f() - e).abs() <= S::tolerance(max), "huerotate", "{what}: rotating the hue of {a:?} by {v} made {b:?}");
            }
        }
    }
    let luma = guarded(&what, || grayscale(&i))?;
    let luma_a = guarded(&what, || grayscale_alpha(&i))?;
    need!(luma.dimensions() == i.dimensions() && luma_a.dimensions() == i.dimensions(), "grayscale", "{what}: the greyscale image has another size");
    for ((p, l), la) in i.pixels().zip(luma.pixels()).zip(luma_a.pixels()) {
        let c = p.channels();
        let e = if n < 3 { c[0].f() } else { 0.2126 * c[0].f() + 0.7152 * c[1].f() + 0.0722 * c[2].f() };
        need!((l.0[0].f() - e).abs() <= S::tolerance(max), "grayscale", "{what}: the grey of {c:?} is {l:?}, not {e}");
        need!(la.0[0] == l.0[0], "grayscale", "{what}: grey with and without alpha differ for {c:?}");
        need!(la.0[1] == if alpha { c[n - 1] } else { hi }, "grayscale", "{what}: grey with alpha of {c:?} has alpha {:?}", la.0[1]);
    }
    ch.steps(26 * i.len() as u64);
    ch.outcome(hash_of(&format!("{what}{:?}", luma.as_raw())));
    Ok(())
}

fn main() {
    let mut c = Check::start("C17", "model_checking", "invert, brighten, contrast, hue rotation, greyscale and pixel maps are their documented point-wise functions, saturating, never panicking, the same in place and for every colour type");
    c.explore("invert", "10 colour types, all sample values", inverts);
    c.explore("brighten", "10 colour types, values to the ends of i32", brightens);
    c.explore("contrast", "10 colour types, values incl. NaN and infinities", contrasts);
    c.explore("hue rotation", "10 colour types, all degrees and the ends of i32", hues);
    c.explore("odd floats", "all operations on non-finite and out-of-range floats", floats);
    c.explore("greyscale", "10 colour types", greys);
    c.explore("pixel maps", "10 colour types, map/apply variants", maps);
    c.explore("every size", "10 colour types, all sizes up to 4 (9), five operations", sizes);
    c.explore("long images", "10 colour types, four sizes beyond 2^8 and 2^16 pixels a side filled with a repeating row of pixels, five operations and the greyscale", |ch| {
        let color = ch.of(&COLORS);
        let (w, h) = ch.of(&[(65537u32, 2u32), (2, 65537), (1, 66000), (300, 300)]);
        let op = ch.pick(5);
        let unit = pattern(7, 1, color, 5);
        let n = unit.data.len() / 7;
        let big = Raw { w, h, color, data: (0..w * h).flat_map(|i| { let k = ((i % w + 3 * (i / w)) % 7) as usize; unit.data[k * n..k * n + n].to_vec() }).collect() };
        let f = |d: &DynamicImage| match op {
            0 => d.brighten(19),
            1 => d.adjust_contrast(20.),
            2 => d.huerotate(77),
            3 => d.grayscale(),
            _ => {
                let mut d = d.clone();
                d.invert();
                d
            }
        };
        let o = guarded(&format!("operation {op} on {w}x{h} {color:?}"), || f(&big.dynamic()))?;
        let e = f(&unit.dynamic());
        ensure!(o.dimensions() == (w, h) && o.color() == e.color(), "operation {op} on {w}x{h} {color:?} gives {:?} {:?}", o.dimensions(), o.color());
        let n = e.as_bytes().len() / 7;
        for (i, p) in o.as_bytes().chunks(n).enumerate() {
            let (x, y) = (i as u32 % w, i as u32 / w);
            let k = ((x + 3 * y) % 7) as usize;
            ensure!(*p == e.as_bytes()[k * n..k * n + n], "operation {op} on {w}x{h} {color:?}: pixel ({x}, {y}) is {p:?}, not {:?}", &e.as_bytes()[k * n..k * n + n]);
        }
        ch.steps((w * h) as u64);
        ch.state(hash_of(&(color, w, h, op)));
        Ok(())
    });
    c.explore("other sample types", "12 sample types x 4 pixel types x 5 sizes x 81 fillings with the ends of the range", |ch| for_sample_types!(ch, other_samples));
    c.assume("samples are u8, u16 or f32; contrast of NaN has no defined value and only has to return");
    c.finish();
}
