//! C34: filters keep dimensions, range and constants at every size.
//! TECHNIQUE: exhaustive enumeration of image sizes, colour types, contents, kernels and blur widths over the real filters, compared with double-precision reference models
//! LEVEL: model_checking
//! NOTE: All sizes up to the bound incl. empty, one-row and one-column images, all ten colour types, blur widths from 0 and denormals to infinity and NaN, kernels incl. zero-sum and huge ones; impulses at every position of small images, constants at every level of a set.
use image::imageops::*;
use image::*;
use mc::resample::*;
use mc::*;

fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    catch(std::panic::AssertUnwindSafe(f)).map_err(|p| Viol::new("panic", format!("{what}: {p}")))
}
fn same_shape(what: &str, d: &DynamicImage, o: &DynamicImage) -> Res {
    ensure!(o.color() == d.color() && o.dimensions() == d.dimensions(), "{what} {:?} {:?}: the result is {:?} {:?}", d.color(), d.dimensions(), o.color(), o.dimensions());
    Ok(())
}
/// |o - e| within tol for ints and a relative bound for floats.
fn close(what: &str, o: &Planes, e: &Planes, tol: f64) -> Res {
    let tol = if o.float { 2e-5 } else { tol };
    for (i, (a, b)) in o.v.iter().zip(&e.v).enumerate() {
        ensure!((a - b.clamp(0., o.maxv)).abs() <= tol, "{what}: {}x{}: sample {i} is {a}, expected {b}", o.w, o.h);
    }
    Ok(())
}
/// Each channel stays between its least and greatest sample.
fn in_range(what: &str, d: &Planes, o: &Planes) -> Res {
    for c in 0..d.n {
        let ch = |p: &Planes| -> Vec<f64> { p.v.iter().skip(c).step_by(p.n).copied().collect() };
        let (i, j) = (ch(d), ch(o));
        let (lo, hi) = i.iter().fold((f64::MAX, f64::MIN), |(a, b), &x| (a.min(x), b.max(x)));
        let slack = if d.float { 1e-5 } else { 0. };
        for x in j {
            ensure!(x >= lo - slack && x <= hi + slack, "{what} {}x{}: channel {c} holds {lo}..{hi}, the result {x}", d.w, d.h);
        }
    }
    Ok(())
}

fn sizes(ch: &mut Ch) -> (u32, u32) {
    let m = if ch.quick { 4 } else { 7 };
    match ch.pick(3) {
        0 | 1 => (ch.range(0, m) as u32, ch.range(0, m) as u32),
        _ => ch.of(&[(1, 40), (40, 1), (2, 33), (33, 3), (13, 11), (0, 9), (9, 0)]),
    }
}

fn kernel3(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let (w, h) = sizes(ch);
    let kernels: [[f32; 9]; 12] = [
        [0., 0., 0., 0., 1., 0., 0., 0., 0.],
        [1., 1., 1., 1., 1., 1., 1., 1., 1.],
        [1., 2., 1., 2., 4., 2., 1., 2., 1.],
        [-1., -1., -1., -1., 8., -1., -1., -1., -1.],
        [0., -1., 0., -1., 5., -1., 0., -1., 0.],
        [1., 0., 0., 0., 0., 0., 0., 0., 0.],
        [0., 0., 0., 0., 0., 0., 0., 3., 0.],
        [0., 0., 1., 0., 0., 0., 0., 0., 0.],
        [0.1, -0.2, 0.3, -0.4, 0.5, -0.6, 0.7, -0.8, 0.9],
        [-1., 0., 0., 0., 0., 0., 0., 0., 0.],
        [0.; 9],
        [1., -2., 1., 0.5, 0., 0.25, -3., 0., 2.],
    ];
    let kind = ch.of(&[2, 3, 5, 1]);
    let d = pattern(w, h, color, kind).dynamic();
    for k in &kernels {
        let what = format!("filter3x3 {k:?} on {w}x{h} {color:?}");
        let o = guarded(&what, || d.filter3x3(k))?;
        same_shape(&what, &d, &o)?;
        let (p, q) = (planes(&d), planes(&o));
        let sum: f64 = k.iter().map(|&x| x as f64).sum();
        let sum = if sum.abs() < 1e-6 { 1. } else { sum };
        for y in 1..h.max(1) - (h > 0) as u32 {
            for x in 1..w.max(1) - (w > 0) as u32 {
                for c in 0..p.n {
                    let mut t = 0.;
                    for (i, &kk) in k.iter().enumerate() {
                        t += kk as f64 * p.at(x + i as u32 % 3 - 1, y + i as u32 / 3 - 1, c);
                    }
                    let e = (t / sum).clamp(0., p.maxv);
                    let tol = if p.float { 1e-4 } else { 1.0 + p.maxv * 4e-6 };
                    ensure!((q.at(x, y, c) - e).abs() <= tol, "{what}: sample ({x}, {y}, {c}) is {}, expected {e}", q.at(x, y, c));
                }
            }
        }
        // the typed function on a view
        if w >= 3 && h >= 3 {
            if let DynamicImage::ImageRgb8(i) = &d {
                let v = filter3x3(&*i.view(0, 0, w - 1, h), k);
                ensure!(v.dimensions() == (w - 1, h), "{what}: on a view the dimensions differ");
                for y in 1..h - 1 {
                    for x in 1..w - 2 {
                        ensure!(v.get_pixel(x, y).0[0] as f64 == q.at(x, y, 0), "{what}: on a view ({x}, {y}) differs");
                    }
                }
            }
        }
        ch.steps(1);
    }
    ch.state(hash_of(&(color, w, h, kind)));
    ch.outcome(hash_of(&(w.min(3), h.min(3))));
    Ok(())
}

/// Extreme kernels only have to return.
fn kernel_odd(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let v = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 1e-45, 0.0, 1.0];
    let (a, b, c) = (ch.of(&v), ch.of(&v), ch.of(&v));
    let mut k = [a; 9];
    k[4] = b;
    k[7] = c;
    let d = pattern(4, 4, color, 5).dynamic();
    let what = format!("filter3x3 {k:?} on 4x4 {color:?}");
    let o = guarded(&what, || d.filter3x3(&k))?;
    same_shape(&what, &d, &o)?;
    ch.outcome(hash_of(&color));
    Ok(())
}

fn odd_sigma() -> Vec<f32> {
    vec![0.0, -0.0, -1.0, -1e30, 1e-45, 1e-30, 1e-23, 1e-20, 1e-10, 1e-3, 1e5, 1e10, 1e19, 1e20, 1e38, 2e38, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::NAN]
}

fn blurs(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let (w, h) = sizes(ch);
    let d = pattern(w, h, color, ch.of(&[2, 5, 4])).dynamic();
    let p = planes(&d);
    let sigma = ch.of(&[0.3f32, 0.6, 0.8, 1.1, 1.7, 2.9, 7.3, 30.1]);
    let what = format!("blur {sigma} {color:?} {w}x{h}");
    let o = guarded(&what, || d.blur(sigma))?;
    same_shape(&what, &d, &o)?;
    let q = planes(&o);
    in_range(&what, &p, &q)?;
    if w > 0 && h > 0 {
        let k = |x: f64| gaussian(x, sigma as f64);
        let e = separable(&p, &weights(w, w, &k, 2. * sigma as f64), &weights(h, h, &k, 2. * sigma as f64));
        close(&what, &q, &e, 0.5 + p.maxv * 2e-6)?;
    }
    // commutes with the symmetries of the image
    let t = |what: &str, a: DynamicImage, b: DynamicImage| -> Res {
        let (a, b) = (planes(&a), planes(&b));
        let tol = if a.float { 1e-5 } else { 1.0 };
        ensure!((a.w, a.h) == (b.w, b.h) && a.v.iter().zip(&b.v).all(|(x, y)| (x - y).abs() <= tol), "{what} does not commute with a symmetry of the image");
        Ok(())
    };
    t(&what, d.fliph().blur(sigma), o.fliph())?;
    t(&what, d.flipv().blur(sigma), o.flipv())?;
    t(&what, d.rotate90().blur(sigma), o.rotate90())?;
    ch.steps(4);
    ch.state(hash_of(&(color, w, h, sigma.to_bits())));
    ch.outcome(hash_of(&(w.min(3), h.min(3))));
    Ok(())
}

fn odd_blurs(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let (w, h) = ch.of(&[(0u32, 0u32), (0, 3), (3, 0), (1, 1), (1, 4), (5, 1), (4, 5)]);
    let d = pattern(w, h, color, ch.of(&[1, 2])).dynamic();
    let sigma = ch.of(&odd_sigma());
    for op in 0..2 {
        let what = format!("{} {sigma:e} {color:?} {w}x{h}", ["blur", "unsharpen"][op]);
        let o = guarded(&what, || if op == 0 { d.blur(sigma) } else { d.unsharpen(sigma, 3) })?;
        same_shape(&what, &d, &o)?;
        let (p, q) = (planes(&d), planes(&o));
        if op == 0 {
            ensure!(q.v.iter().all(|x| x.is_finite()), "{what} gives samples that are not numbers");
            in_range(&what, &p, &q)?;
        }
        if op == 0 && sigma > 0. && sigma < 0.01 {
            // narrower than any pixel: nothing happens
            ensure!(o.as_bytes() == d.as_bytes(), "{what} changes the image");
        }
        ch.steps(1);
    }
    ch.state(hash_of(&(color, w, h, sigma.to_bits())));
    ch.outcome(hash_of(&sigma.to_bits()));
    Ok(())
}

/// Box radii after Kovesi: the integer odd widths around the ideal one, the first m smaller.
fn boxes(sigma: f64) -> Vec<i64> {
    let n = 3.;
    let ideal = (12. * sigma * sigma / n + 1.).sqrt();
    let mut l = ideal.floor();
    if l as i64 % 2 == 0 {
        l -= 1.;
    }
    let m = ((12. * sigma * sigma - n * l * l - 4. * n * l - 3. * n) / (-4. * l - 4.)).round();
    (0..3).map(|i| ((if (i as f64) < m { l } else { l + 2. }) as i64 - 1) / 2).collect()
}

fn fast(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let (w, h) = sizes(ch);
    let d = pattern(w, h, color, ch.of(&[2, 5, 4, 1])).dynamic();
    let p = planes(&d);
    let sigma = ch.of(&[0.0f32, 0.2, 0.5, 0.8, 1.3, 2.0, 3.7, 8.0, 21.0, 58.3]);
    let what = format!("fast_blur {sigma} {color:?} {w}x{h}");
    let o = guarded(&what, || d.fast_blur(sigma))?;
    same_shape(&what, &d, &o)?;
    let q = planes(&o);
    in_range(&what, &p, &q)?;
    if sigma == 0.0 {
        ensure!(o.as_bytes() == d.as_bytes(), "{what} changes the image");
    }
    // three box passes, each sample cut to the sample type after each direction
    let mut cur = p.clone();
    if w > 0 && h > 0 {
        for r in boxes(sigma as f64) {
            for vertical in [false, true] {
                let mut next = cur.clone();
                for y in 0..h {
                    for x in 0..w {
                        for c in 0..p.n {
                            let mut s = 0.;
                            for k in -r..=r {
                                let (sx, sy) = if vertical { (x, (y as i64 + k).clamp(0, h as i64 - 1) as u32) } else { ((x as i64 + k).clamp(0, w as i64 - 1) as u32, y) };
                                s += cur.at(sx, sy, c);
                            }
                            let v = s / (2 * r + 1) as f64;
                            next.v[(y as usize * w as usize + x as usize) * p.n + c] = if p.float { v } else { v.floor() };
                        }
                    }
                }
                cur = next;
            }
        }
        // truncation may go the other way by one in each of the six passes where single precision rounds
        close(&what, &q, &cur, if p.maxv == 255. { 0. } else { 6. })?;
    }
    let t = |a: DynamicImage, b: DynamicImage| -> Res {
        let (a, b) = (planes(&a), planes(&b));
        let tol = if a.float { 2e-5 } else if a.maxv == 255. { 0. } else { 6. };
        ensure!((a.w, a.h) == (b.w, b.h) && a.v.iter().zip(&b.v).all(|(x, y)| (x - y).abs() <= tol), "{what} does not commute with a flip of the image");
        Ok(())
    };
    t(d.fliph().fast_blur(sigma), o.fliph())?;
    t(d.flipv().fast_blur(sigma), o.flipv())?;
    t(d.rotate180().fast_blur(sigma), o.rotate180())?;
    ch.steps(4);
    ch.state(hash_of(&(color, w, h, sigma.to_bits())));
    ch.outcome(hash_of(&(w.min(3), h.min(3))));
    Ok(())
}

fn odd_fast(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let (w, h) = ch.of(&[(0u32, 0u32), (0, 3), (3, 0), (1, 1), (1, 4), (5, 1), (4, 5)]);
    let d = pattern(w, h, color, ch.of(&[1, 2])).dynamic();
    let sigma = ch.of(&[-0.0f32, -1.0, -7.5, 1e-45, 1e-20, 1e-3, 500.0, 3e3, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 1e19, 1e30]);
    let what = format!("fast_blur {sigma:e} {color:?} {w}x{h}");
    let o = guarded(&what, || d.fast_blur(sigma))?;
    same_shape(&what, &d, &o)?;
    ensure!(planes(&o).v.iter().all(|x| x.is_finite()), "{what} gives samples that are not numbers");
    // wide boxes lose precision in single precision arithmetic: the range only holds for moderate widths
    if sigma.abs() < 10. {
        in_range(&what, &planes(&d), &planes(&o))?;
    }
    ch.state(hash_of(&(color, w, h, sigma.to_bits())));
    ch.outcome(hash_of(&sigma.to_bits()));
    Ok(())
}

fn constants(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let m = max_level(color);
    let mut levels: Vec<f64> = vec![0., 1., m / 255., 77. * m / 255., 0.5 * m, 0.999 * m, m - m / 65535., m];
    if m == 255. {
        levels = (0..=255).step_by(if ch.quick { 5 } else { 1 }).map(|x| x as f64).collect();
    } else if m == 65535. {
        levels = levels.iter().map(|x| x.round()).collect();
        levels.extend([256., 32767., 40001., 65281.]);
    } else {
        levels[1] = 1e-6;
    }
    let lv = ch.of(&levels);
    let n = color.channel_count() as usize;
    for (w, h) in [(1u32, 1u32), (1, 7), (6, 1), (5, 4), (31, 2)] {
        let v: Vec<f64> = (0..(w * h) as usize * n).map(|i| if i % n == 0 { lv } else { levels[i % n * 3 % levels.len()] }).collect();
        let d = from_levels(w, h, color, &v);
        let p = planes(&d);
        let tol = if p.float { 1e-5 } else { 0. };
        for op in 0..4 {
            for sigma in [0.4f32, 0.9, 2.2, 5.0, 17.0] {
                let what = format!("{} {sigma} of a constant {w}x{h} {color:?} of {lv}", ["blur", "fast_blur", "unsharpen", "filter3x3"][op]);
                let o = guarded(&what, || match op {
                    0 => d.blur(sigma),
                    1 => d.fast_blur(sigma),
                    2 => d.unsharpen(sigma, 0),
                    _ => d.filter3x3(&[1., 2., 1., 2., 4., 2., 1., 2., 1.]),
                })?;
                let q = planes(&o);
                for y in 0..h {
                    for x in 0..w {
                        if op == 3 && (x == 0 || y == 0 || x + 1 >= w || y + 1 >= h) {
                            continue;
                        }
                        for c in 0..n {
                            ensure!((q.at(x, y, c) - p.at(x, y, c)).abs() <= tol, "{what}: sample ({x}, {y}, {c}) became {}", q.at(x, y, c));
                        }
                    }
                }
                ch.steps(1);
            }
        }
    }
    ch.state(hash_of(&(color, lv.to_bits())));
    ch.outcome(hash_of(&color));
    Ok(())
}

/// Unsharpening: c + (c - blurred) where they differ by more than the threshold.
fn unsharpens(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let (w, h) = sizes(ch);
    let d = pattern(w, h, color, ch.of(&[2, 5, 3])).dynamic();
    let p = planes(&d);
    let sigma = ch.of(&[0.5f32, 1.3, 4.0]);
    let b = planes(&d.blur(sigma));
    for threshold in [0, 1, 5, 40, 255, 1000, 65535, -1, i32::MAX, i32::MIN] {
        let what = format!("unsharpen {sigma} {threshold} {color:?} {w}x{h}");
        let o = guarded(&what, || d.unsharpen(sigma, threshold))?;
        same_shape(&what, &d, &o)?;
        let q = planes(&o);
        for (i, ((c, bl), r)) in p.v.iter().zip(&b.v).zip(&q.v).enumerate() {
            let diff = c - bl;
            let e = if diff.abs() > threshold as f64 { (c + diff).clamp(0., p.maxv) } else { *c };
            ensure!((r - e).abs() <= if p.float { 1e-5 } else { 0. }, "{what}: sample {i} is {c}, blurred {bl}, sharpened {r}, expected {e}");
        }
        ch.steps(1);
    }
    ch.state(hash_of(&(color, w, h, sigma.to_bits())));
    Ok(())
}

/// The filters on every sample type, signed and wide ones included.
fn other_samples<P: Pixel<Subpixel = S> + PartialEq + 'static, S: samples::Sample>(ch: &mut Ch) -> Res {
    let (w, h) = ch.of(&samples::SIZES);
    let start = ch.pick(S::values().len());
    let step = ch.pick(S::values().len());
    let i: ImageBuffer<P, Vec<S>> = samples::image(w, h, start, step);
    let n = P::CHANNEL_COUNT as usize;
    let what = format!("{w}x{h}, {n} channels of {}", S::NAME);
    let max = S::DEFAULT_MAX_VALUE.f();
    let tol = S::tolerance(max);
    let run = |op: String, f: &dyn Fn() -> ImageBuffer<P, Vec<S>>| -> Result<ImageBuffer<P, Vec<S>>, Viol> {
        let o = catch(std::panic::AssertUnwindSafe(f)).map_err(|e| Viol::new("panic", format!("{what}: {op}: {e}")))?;
        need!(o.dimensions() == (w, h), "size", "{what}: {op} gives {:?}", o.dimensions());
        Ok(o)
    };
    for k in [[0f32, 0., 0., 0., 1., 0., 0., 0., 0.], [1., -3., 2., 1., 1., 1., 0., 5., -2.], [0., -1., 0., -1., 4., -1., 0., -1., 0.]] {
        let o = run(format!("filter3x3 {k:?}"), &|| filter3x3(&i, &k))?;
        let sum = k.iter().map(|x| *x as f64).sum::<f64>();
        let sum = if sum == 0. { 1. } else { sum };
        let t = S::tolerance(max * k.iter().map(|x| x.abs() as f64).sum::<f64>() / sum.abs());
        for y in 1..h.max(1) - 1 {
            for x in 1..w.max(1) - 1 {
                for c in 0..n {
                    let s: f64 = (0..9).map(|j| i.get_pixel(x + j % 3 - 1, y + j / 3 - 1).channels()[c].f() * k[j as usize] as f64).sum();
                    let (e, g) = ((s / sum).clamp(0., max), o.get_pixel(x, y).channels()[c]);
                    need!((g.f() - e).abs() <= t, "filter3x3", "{what}: {k:?} at ({x}, {y}) channel {c} gives {g:?}, not {e}");
                }
            }
        }
    }
    let within = |op: &str, o: &ImageBuffer<P, Vec<S>>| -> Res {
        for c in 0..n {
            let s = i.pixels().map(|p| p.channels()[c].f());
            let (a, b) = (s.clone().fold(f64::MAX, f64::min), s.fold(f64::MIN, f64::max));
            for p in o.pixels() {
                let v = p.channels()[c];
                need!(v.f() >= a - tol && v.f() <= b + tol, "range", "{what}: {op} gives {v:?} from channel {c} within {a}..={b}");
            }
        }
        Ok(())
    };
    for s in [0.5f32, 3.0, 0.0, -1.0, f32::NAN] {
        within(&format!("blur {s}"), &run(format!("blur {s}"), &|| blur(&i, s))?)?;
    }
    for s in [0.5f32, 1.0, 3.0] {
        within(&format!("fast_blur {s}"), &run(format!("fast_blur {s}"), &|| fast_blur(&i, s))?)?;
    }
    for t in [0, 5, -5, i32::MIN, i32::MAX] {
        let o = run(format!("unsharpen {t}"), &|| unsharpen(&i, 1.0, t))?;
        if t == i32::MAX && S::BITS < 32 {
            need!(o == i, "unsharpen", "{what}: unsharpen with an unreachable threshold changes the image");
        }
    }
    ch.steps(16 * i.len() as u64);
    ch.outcome(hash_of(&format!("{what}{start} {step}")));
    Ok(())
}

fn main() {
    let mut c = Check::start("C34", "model_checking", "3x3 filters give the clamped weighted sum, blurs keep dimensions, constants and range and commute with symmetries, unsharpening follows its definition, and none panics for any size or parameter");
    c.hang_after(120);
    c.explore("3x3 kernels", "10 colour types x all sizes up to 4 (7) and some longer x 4 contents x 12 kernels", kernel3);
    c.explore("extreme kernels", "10 colour types x 8^3 settings of non-finite and huge weights", kernel_odd);
    c.explore("blur", "10 colour types x sizes x 3 contents x 8 widths, three symmetries", blurs);
    c.explore("odd blur widths", "10 colour types x 7 sizes x 21 widths from denormals to infinity and NaN, blur and unsharpen", odd_blurs);
    c.explore("fast blur", "10 colour types x sizes x 4 contents x 10 widths, three symmetries", fast);
    c.explore("odd fast blur widths", "10 colour types x 7 sizes x 15 widths", odd_fast);
    c.explore("constants", "10 colour types x levels x 5 sizes x 4 filters x 5 widths", constants);
    c.explore("unsharpen", "10 colour types x sizes x 3 widths x 10 thresholds", unsharpens);
    c.explore("long images", "10 colour types, four sizes beyond 2^8 and 2^16 pixels a side, four filters: at both ends and around 2^8, 2^15 and 2^16, the same as the filter of the surrounding 80 pixels", |ch| {
        let color = ch.of(&COLORS);
        let (w, h) = ch.of(&[(65700u32, 3u32), (3, 65700), (66000, 1), (300, 300)]);
        let op = ch.pick(4);
        let d = pattern(w, h, color, 5).dynamic();
        let f = |d: &DynamicImage| match op {
            0 => d.filter3x3(&[1., -2., 1., 2., 4., 2., 1., 2., 1.]),
            1 => d.blur(1.2),
            2 => d.fast_blur(2.0),
            _ => d.unsharpen(0.8, 3),
        };
        let what = format!("filter {op} of {w}x{h} {color:?}");
        let o = guarded(&what, || f(&d))?;
        same_shape(&what, &d, &o)?;
        let p = planes(&o);
        let m = max_level(color);
        let tol = if m == 1. { 2e-5 } else if op == 2 { 1. } else { 0. };
        for around in [0u32, 128, 256, 32768, 65536, u32::MAX] {
            // the window around a place, and how far its inside is from edges that are not the image's
            let cut = |len: u32| {
                let a = around.min(len).saturating_sub(40);
                let b = (around.min(len) + 40).min(len);
                (a, b, if a == 0 { 0 } else { a + 16 }, if b == len { len } else { b - 16 })
            };
            let ((xa, xb, xi, xj), (ya, yb, yi, yj)) = (cut(w), cut(h));
            let e = planes(&f(&d.crop_imm(xa, ya, xb - xa, yb - ya)));
            for y in yi..yj {
                for x in xi..xj {
                    for c in 0..p.n {
                        let (g, z) = (p.at(x, y, c), e.at(x - xa, y - ya, c));
                        ensure!((g - z).abs() <= tol, "{what}: sample ({x}, {y}, {c}) is {g}, from its surroundings alone {z}");
                    }
                }
            }
        }
        ch.steps(6);
        ch.state(hash_of(&(color, w, h, op)));
        Ok(())
    });
    c.explore("other sample types", "12 sample types x 4 pixel types x 5 sizes x 81 fillings with the ends of the range, all filters", |ch| for_sample_types!(ch, other_samples));
    c.assume("fast_blur runs in time proportional to its width; widths above 3000 pixels are only tried where they are not taken literally");
    c.finish();
}
