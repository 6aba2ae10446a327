//! C18: resizing keeps shape, range and constancy for every size and filter.
//! TECHNIQUE: exhaustive enumeration of source sizes, target sizes, filters, colour types and contents over the real resampling, compared with double-precision reference models of each filter and of the documented regions
//! LEVEL: model_checking
//! NOTE: All source sizes up to the bound into all target sizes up to the bound (0 included) for every filter, larger and very uneven sizes for selected pairs; blocks of more than 2^16 and 2^24 pixels averaged into one; fit and fill dimensions for boundary values up to 2^32-1.
use image::imageops::*;
use image::*;
use mc::resample::*;
use mc::*;

const FILTERS: [FilterType; 5] = [FilterType::Nearest, FilterType::Triangle, FilterType::CatmullRom, FilterType::Gaussian, FilterType::Lanczos3];

fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    catch(std::panic::AssertUnwindSafe(f)).map_err(|p| Viol::new("panic", format!("{what}: {p}")))
}
fn bounds(p: &Planes, c: usize) -> (f64, f64) {
    p.v.iter().skip(c).step_by(p.n).fold((f64::MAX, f64::MIN), |(a, b), &x| (a.min(x), b.max(x)))
}

/// The source positions that count as the nearest to output `o`: two at a tie.
fn nearest(n: u32, m: u32, o: u32) -> Vec<u32> {
    let (num, den) = ((2 * o as u64 + 1) * n as u64, 2 * m as u64);
    let k = (num / den).min(n as u64 - 1) as u32;
    let mut v = vec![k];
    if num % den == 0 && k > 0 {
        v.push(k - 1);
    }
    v
}

fn check_resize(d: &DynamicImage, nw: u32, nh: u32, filter: FilterType) -> Res {
    let (w, h) = d.dimensions();
    let color = d.color();
    let what = format!("resizing {w}x{h} {color:?} to {nw}x{nh} with {filter:?}");
    let o = guarded(&what, || d.resize_exact(nw, nh, filter))?;
    ensure!(o.dimensions() == (nw, nh) && o.color() == color, "{what} gives {:?} {:?}", o.dimensions(), o.color());
    if (nw, nh) == (w, h) {
        ensure!(o.as_bytes() == d.as_bytes(), "{what} changes the image");
        return Ok(());
    }
    let (p, q) = (planes(d), planes(&o));
    if w == 0 || h == 0 {
        ensure!(q.v.iter().all(|&x| x == 0.), "{what}: an empty image gives content");
        return Ok(());
    }
    if nw == 0 || nh == 0 {
        return Ok(());
    }
    // constants
    for c in 0..p.n {
        let (lo, hi) = bounds(&p, c);
        let (a, b) = bounds(&q, c);
        let slack = if p.float { 1e-5 } else { 0. };
        if lo == hi || !matches!(filter, FilterType::CatmullRom | FilterType::Lanczos3) {
            ensure!(a >= lo - slack && b <= hi + slack, "{what}: channel {c} holds {lo}..{hi}, the result {a}..{b}");
        }
    }
    if filter == FilterType::Nearest {
        for y in 0..nh {
            for x in 0..nw {
                let px: Vec<f64> = (0..p.n).map(|c| q.at(x, y, c)).collect();
                let ok = nearest(w, nw, x).iter().any(|&sx| nearest(h, nh, y).iter().any(|&sy| (0..p.n).all(|c| (p.at(sx, sy, c) - px[c]).abs() < if p.float { 1e-6 } else { 0.5 })));
                ensure!(ok, "{what}: pixel ({x}, {y}) is {px:?}, not its nearest source pixel at {:?} {:?}", nearest(w, nw, x), nearest(h, nh, y));
            }
        }
        return Ok(());
    }
    let (k, s): (&dyn Fn(f64) -> f64, f64) = match filter {
        FilterType::Triangle => (&triangle, 1.),
        FilterType::CatmullRom => (&catmull_rom, 2.),
        FilterType::Gaussian => (&|x| gaussian(x, 0.5), 3.),
        _ => (&lanczos3, 3.),
    };
    let e = separable(&p, &weights(w, nw, k, s), &weights(h, nh, k, s));
    let tol = if p.float { 3e-5 } else { 0.5 + p.maxv * 2e-5 };
    for (i, (a, b)) in q.v.iter().zip(&e.v).enumerate() {
        ensure!((a - b.clamp(0., p.maxv)).abs() <= tol, "{what}: sample {i} is {a}, expected {b}");
    }
    Ok(())
}

fn small(ch: &mut Ch) -> Res {
    let m = if ch.quick { 5 } else { 8 };
    let color = ch.of(&COLORS);
    let (w, h) = (ch.range(0, m) as u32, ch.range(0, m) as u32);
    let nw = ch.range(0, m + 2) as u32;
    let kind = ch.of(&[2, 5]);
    let d = pattern(w, h, color, kind).dynamic();
    for nh in 0..=m as u32 + 2 {
        for f in FILTERS {
            check_resize(&d, nw, nh, f)?;
            ch.steps(1);
        }
    }
    ch.state(hash_of(&(color, w, h, nw)));
    ch.outcome(hash_of(&(w.cmp(&nw), h == 0)));
    Ok(())
}

fn larger(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let (w, h) = ch.of(&[(49u32, 3u32), (3, 49), (100, 1), (1, 100), (37, 23), (64, 2)]);
    let (nw, nh) = ch.of(&[(1u32, 1u32), (49, 49), (7, 3), (200, 2), (2, 200), (33, 31), (98, 6), (1, 300), (300, 1), (63, 1)]);
    let d = pattern(w, h, color, ch.of(&[2, 1, 4])).dynamic();
    check_resize(&d, nw, nh, ch.of(&FILTERS))?;
    ch.state(hash_of(&(color, w, h, nw, nh)));
    Ok(())
}

fn constants(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let m = max_level(color);
    let levels: Vec<f64> = if m == 255. {
        (0..=255).step_by(if ch.quick { 3 } else { 1 }).map(|x| x as f64).collect()
    } else if m == 65535. {
        vec![0., 1., 255., 256., 257., 12345., 32767., 32768., 40003., 65279., 65533., 65534., 65535.]
    } else {
        vec![0., 1e-6, 0.1, 0.25, 1. / 3., 0.5, 0.7, 0.999999, 1.]
    };
    let lv = ch.of(&levels);
    let n = color.channel_count() as usize;
    let (w, h) = ch.of(&[(1u32, 1u32), (2, 3), (7, 5), (3, 1), (1, 6), (40, 3)]);
    let v: Vec<f64> = (0..(w * h) as usize * n).map(|i| if i % n == 0 { lv } else { levels[(i % n * 5 + 2) % levels.len()] }).collect();
    let d = from_levels(w, h, color, &v);
    let p = planes(&d);
    let tol = if p.float { 1e-5 } else { 0. };
    for (nw, nh) in [(1u32, 1u32), (2, 2), (3, 5), (10, 1), (13, 11), (1, 17), (6, 7), (41, 4)] {
        for op in 0..6 {
            let what = format!("{} of a constant {w}x{h} {color:?} of {lv} to {nw}x{nh}", if op == 5 { "thumbnail".into() } else { format!("resize with {:?}", FILTERS[op]) });
            let o = guarded(&what, || if op == 5 { d.thumbnail_exact(nw, nh) } else { d.resize_exact(nw, nh, FILTERS[op]) })?;
            let q = planes(&o);
            ensure!((q.w, q.h) == (nw, nh), "{what}: {:?}", o.dimensions());
            for (i, a) in q.v.iter().enumerate() {
                let e = p.v[i % n];
                ensure!((a - e).abs() <= tol, "{what}: sample {i} is {a}, expected {e}");
            }
            ch.steps(1);
        }
    }
    ch.state(hash_of(&(color, lv.to_bits(), w, h)));
    ch.outcome(hash_of(&color));
    Ok(())
}

/// First source index that may belong to the region of output `o`: one more at an exact boundary, where
/// single precision decides.
fn edge(n: u32, m: u32, o: u32) -> Vec<u32> {
    let (num, den) = (o as u64 * n as u64, m as u64);
    let k = num.div_ceil(den) as u32;
    let mut v = vec![k.min(n)];
    if num % den == 0 && o > 0 {
        v.push((k + 1).min(n));
    }
    v
}

/// Thumbnails: the average of the region, or between the nearest pixels where the region holds none.
fn thumbs(ch: &mut Ch) -> Res {
    let m = if ch.quick { 6 } else { 11 };
    let color = ch.of(&COLORS);
    let (w, h) = if ch.flag() { ch.of(&[(49, 6), (6, 49), (100, 1), (1, 100), (37, 23)]) } else { (ch.range(0, m) as u32, ch.range(0, m) as u32) };
    let nw = ch.range(0, m + 2) as u32;
    let d = pattern(w, h, color, ch.of(&[2, 5, 1])).dynamic();
    let p = planes(&d);
    for nh in 0..=m as u32 + 2 {
        let what = format!("thumbnail of {w}x{h} {color:?} to {nw}x{nh}");
        let o = guarded(&what, || d.thumbnail_exact(nw, nh))?;
        ensure!(o.dimensions() == (nw, nh) && o.color() == color, "{what} gives {:?} {:?}", o.dimensions(), o.color());
        let q = planes(&o);
        ch.steps(1);
        if w == 0 || h == 0 {
            ensure!(q.v.iter().all(|&x| x == 0.), "{what}: an empty image gives content");
            continue;
        }
        for y in 0..nh {
            for x in 0..nw {
                // candidate regions: [a, b) in both directions; empty ones stand for the two pixels around
                let spans = |n: u32, m: u32, o: u32| -> Vec<(u32, u32, bool)> {
                    let mut v = vec![];
                    for a in edge(n, m, o) {
                        for b in edge(n, m, o + 1) {
                            let a = a.min(n - 1);
                            let b = b.max(a);
                            v.push(if a == b { (a.saturating_sub(1), a + 1, true) } else { (a, b, false) });
                        }
                    }
                    v
                };
                let mut ok = false;
                let mut last = String::new();
                for (x0, x1, fx) in spans(w, nw, x) {
                    for (y0, y1, fy) in spans(h, nh, y) {
                        if ok {
                            continue;
                        }
                        ok = (0..p.n).all(|c| {
                            let a = q.at(x, y, c);
                            let all: Vec<f64> = (y0..y1).flat_map(|sy| (x0..x1).map(move |sx| (sx, sy))).map(|(sx, sy)| p.at(sx, sy, c)).collect();
                            let avg = all.iter().sum::<f64>() / all.len() as f64;
                            if !fx && !fy {
                                last = format!("sample {c} is {a}, the average of {x0}..{x1} x {y0}..{y1} is {avg}");
                                (a - avg).abs() <= if p.float { 1e-5 } else { 0.51 }
                            } else {
                                // between the averages of the two (or the four pixels)
                                let part = |xs: (u32, u32), ys: (u32, u32)| {
                                    let v: Vec<f64> = (ys.0..ys.1).flat_map(|sy| (xs.0..xs.1).map(move |sx| (sx, sy))).map(|(sx, sy)| p.at(sx, sy, c)).collect();
                                    v.iter().sum::<f64>() / v.len() as f64
                                };
                                let xs: Vec<(u32, u32)> = if fx { (x0..x1).map(|k| (k, k + 1)).collect() } else { vec![(x0, x1)] };
                                let ys: Vec<(u32, u32)> = if fy { (y0..y1).map(|k| (k, k + 1)).collect() } else { vec![(y0, y1)] };
                                let parts: Vec<f64> = xs.iter().flat_map(|&a| ys.iter().map(move |&b| (a, b))).map(|(a, b)| part(a, b)).collect();
                                let (lo, hi) = parts.iter().fold((f64::MAX, f64::MIN), |(l, h), &v| (l.min(v), h.max(v)));
                                last = format!("sample {c} is {a}, not between {lo} and {hi}");
                                // rounding down or to the nearest
                                let s = if p.float { 1e-5 } else { 1.0 };
                                a >= lo - s && a <= hi + s
                            }
                        });
                    }
                }
                ensure!(ok, "{what}: pixel ({x}, {y}): {last}");
            }
        }
    }
    ch.state(hash_of(&(color, w, h, nw)));
    ch.outcome(hash_of(&(w.cmp(&nw), h == 0)));
    Ok(())
}

/// Averages over many pixels do not run over.
fn blocks(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let (w, h) = ch.of(&[(300u32, 300u32), (1000, 70), (66000, 1), (1, 70000), (4200, 4100)]);
    if w as u64 * h as u64 > 1 << 20 && !matches!(color, ColorType::L8 | ColorType::L16 | ColorType::La8) {
        return Ok(());
    }
    let op = ch.pick(2);
    let (nw, nh) = ch.of(&[(1u32, 1u32), (2, 1), (1, 2)]);
    let m = max_level(color);
    let n = color.channel_count() as usize;
    // bright everywhere, one dark quarter row
    let v: Vec<f64> = (0..(w as usize * h as usize) * n).map(|i| if i < n * (w as usize / 4) { 0. } else { m }).collect();
    let d = from_levels(w, h, color, &v);
    drop(v);
    let what = format!("{} of {w}x{h} {color:?} to {nw}x{nh}", ["thumbnail", "resize"][op]);
    let o = guarded(&what, || if op == 0 { d.thumbnail_exact(nw, nh) } else { d.resize_exact(nw, nh, FilterType::Triangle) })?;
    let q = planes(&o);
    let dark = 0.25 / h as f64; // share of dark pixels
    for x in &q.v {
        ensure!(*x >= m * (1. - 4. * dark) - m / 200. - 1. && *x <= m * 1.001 || h <= 2, "{what}: a sample is {x}");
        ensure!(*x <= m + 1e-4, "{what}: a sample is {x}");
        if h == 1 && nw == 1 && op == 0 {
            ensure!((*x - 0.75 * m).abs() <= 0.01 * m, "{what}: a sample is {x}");
        }
    }
    ch.steps(w as u64 * h as u64);
    ch.outcome(hash_of(&(color, op)));
    Ok(())
}

/// The documented dimensions of the aspect-preserving variants.
fn fits(ch: &mut Ch) -> Res {
    let m = if ch.quick { 9 } else { 20 };
    let (w, h) = if ch.flag() { ch.of(&[(100u32, 1u32), (1, 100), (97, 13), (300, 2), (2, 299)]) } else { (ch.range(0, m) as u32, ch.range(0, m) as u32) };
    let nw = ch.of(&[0u32, 1, 2, 3, 5, 7, 10, 17, 50, 100, 151]);
    let d = pattern(w, h, ColorType::L8, 2).dynamic();
    for nh in [0u32, 1, 2, 3, 4, 8, 11, 19, 50, 99, 150] {
        for op in 0..3 {
            let what = format!("{} of {w}x{h} to {nw}x{nh}", ["resize", "thumbnail", "resize_to_fill"][op]);
            let o = guarded(&what, || match op {
                0 => d.resize(nw, nh, FilterType::Nearest),
                1 => d.thumbnail(nw, nh),
                _ => d.resize_to_fill(nw, nh, FilterType::Triangle),
            })?;
            ch.steps(1);
            let (ow, oh) = o.dimensions();
            if op == 2 {
                ensure!((ow, oh) == (nw, nh), "{what} gives {ow}x{oh}");
                // the middle of the picture scaled so that it covers the target
                if w > 0 && h > 0 && nw > 0 && nh > 0 {
                    let r = (nw as f64 / w as f64).max(nh as f64 / h as f64);
                    let (ew, eh) = (w as f64 * r, h as f64 * r);
                    if (ew.fract() - 0.5).abs() > 1e-6 && (eh.fract() - 0.5).abs() > 1e-6 && ew < 3000. && eh < 3000. {
                        let (fw, fh) = ((ew.round() as u32).max(1), (eh.round() as u32).max(1));
                        let full = d.resize_exact(fw, fh, FilterType::Triangle);
                        let (dx, dy) = (fw - nw, fh - nh);
                        let ok = [(dx / 2, dy / 2), ((dx + 1) / 2, dy / 2), (dx / 2, (dy + 1) / 2)].iter().any(|&(x, y)| full.crop_imm(x, y, nw, nh) == o);
                        ensure!(ok, "{what} is not the middle of the picture scaled to {fw}x{fh}");
                        ch.validated();
                    }
                }
                continue;
            }
            if (nw, nh) == (w, h) && op == 0 {
                ensure!((ow, oh) == (w, h), "{what} gives {ow}x{oh}");
                continue;
            }
            ensure!(ow > 0 && oh > 0, "{what} gives an empty image {ow}x{oh}");
            ensure!(ow <= nw.max(1) && oh <= nh.max(1), "{what} gives {ow}x{oh}, which does not fit");
            if w > 0 && h > 0 {
                // the largest fitting size: one side is met, the other follows the aspect ratio
                let r = (nw as f64 / w as f64).min(nh as f64 / h as f64);
                let e = |x: u32| (x as f64 * r).round().max(1.);
                ensure!((ow as f64 - e(w)).abs() <= 0.51 && (oh as f64 - e(h)).abs() <= 0.51, "{what} gives {ow}x{oh}, expected {}x{}", e(w), e(h));
            }
        }
    }
    ch.state(hash_of(&(w, h, nw)));
    ch.outcome(hash_of(&(w == 0, h == 0)));
    Ok(())
}

/// Sides near 2^32: only one-pixel-thick images can exist.
fn huge(ch: &mut Ch) -> Res {
    let (w, h) = ch.of(&[(1u32, 1u32), (2, 1), (1, 3), (100, 1), (5, 5)]);
    let (nw, nh) = ch.of(&[(1u32, u32::MAX), (u32::MAX, 1), (u32::MAX, 2), (3, u32::MAX), (u32::MAX - 1, 4), (1, 1 << 31)]);
    let d = pattern(w, h, ColorType::L8, 2).dynamic();
    let what = format!("resize of {w}x{h} to fit {nw}x{nh}");
    let o = guarded(&what, || d.resize(nw, nh, FilterType::Nearest))?;
    let t = guarded(&what, || d.thumbnail(nw, nh))?;
    let (ow, oh) = o.dimensions();
    ensure!(ow > 0 && oh > 0 && ow <= nw && oh <= nh && t.dimensions() == (ow, oh), "{what} gives {ow}x{oh}");
    Ok(())
}

/// Point samples: in the documented domain exactly, None outside.
fn points(ch: &mut Ch) -> Res {
    let m = if ch.quick { 5 } else { 9 };
    let color = ch.of(&COLORS);
    let (w, h) = (ch.range(0, m) as u32, ch.range(0, m) as u32);
    let d = pattern(w, h, color, ch.of(&[2, 5, 1])).dynamic();
    let p = planes(&d);
    let mut us = vec![-1.0f32, -1e-9, -0.0, 0.0, 0.1, 0.25, 0.5, 0.6, 0.9, 0.999999, 1.0, 1.0000001, 2.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY];
    for k in 0..=2 * w.max(h) {
        us.push(k as f32 / (2 * w.max(h).max(1)) as f32);
    }
    let mut xs = vec![-1.0f32, -1e-9, -0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1e10, 0.3, 0.75];
    for k in 0..=2 * w.max(h) + 2 {
        xs.push(k as f32 / 2.);
        xs.push(k as f32 / 2. + 0.126);
    }
    macro_rules! go {
        ($i:expr) => {{
            let i = $i;
            let get = |p: Option<_>| -> Option<Vec<f64>> {
                p.map(|p| {
                    let mut one = i.clone();
                    let _ = &mut one;
                    planes(&DynamicImage::from(ImageBuffer::from_pixel(1, 1, p))).v
                })
            };
            for &u in &us {
                for &v in &us {
                    let what = format!("sampling {w}x{h} {color:?} at ({u}, {v})");
                    let (n, b) = guarded(&what, || (get(sample_nearest(i, u, v)), get(sample_bilinear(i, u, v))))?;
                    let inside = w > 0 && h > 0 && (0.0..=1.0).contains(&u) && (0.0..=1.0).contains(&v);
                    ensure!(n.is_some() == inside && b.is_some() == inside, "{what}: nearest {n:?}, bilinear {b:?}");
                    if inside {
                        let at = |u: f32, n: u32| ((u as f64 * n as f64) - 0.5).clamp(0., n as f64 - 1.);
                        point(&what, &p, at(u, w), at(v, h), &n.unwrap(), &b.unwrap())?;
                    }
                }
            }
            for &x in &xs {
                for &y in &xs {
                    let what = format!("interpolating {w}x{h} {color:?} at ({x}, {y})");
                    let (n, b) = guarded(&what, || (get(interpolate_nearest(i, x, y)), get(interpolate_bilinear(i, x, y))))?;
                    let inside = w > 0 && h > 0 && x >= 0. && y >= 0. && x <= (w - 1) as f32 && y <= (h - 1) as f32;
                    ensure!(n.is_some() == inside && b.is_some() == inside, "{what}: nearest {n:?}, bilinear {b:?}");
                    if inside {
                        point(&what, &p, x as f64, y as f64, &n.unwrap(), &b.unwrap())?;
                    }
                }
            }
        }};
    }
    match &d {
        DynamicImage::ImageLuma8(i) => go!(i),
        DynamicImage::ImageLumaA8(i) => go!(i),
        DynamicImage::ImageRgb8(i) => go!(i),
        DynamicImage::ImageRgba8(i) => go!(i),
        DynamicImage::ImageLuma16(i) => go!(i),
        DynamicImage::ImageLumaA16(i) => go!(i),
        DynamicImage::ImageRgb16(i) => go!(i),
        DynamicImage::ImageRgba16(i) => go!(i),
        DynamicImage::ImageRgb32F(i) => go!(i),
        DynamicImage::ImageRgba32F(i) => go!(i),
        _ => unreachable!(),
    }
    ch.steps((us.len() * us.len() + xs.len() * xs.len()) as u64);
    ch.state(hash_of(&(color, w, h)));
    Ok(())
}
/// An image too wide or high to hold, whose pixels tell their coordinates.
#[derive(Clone, Copy)]
struct Vast(u32, u32);
#[derive(Clone, Copy)]
struct Ramp(Vast, bool);
impl GenericImageView for Vast {
    type Pixel = LumaA<u32>;
    fn dimensions(&self) -> (u32, u32) {
        (self.0, self.1)
    }
    fn get_pixel(&self, x: u32, y: u32) -> LumaA<u32> {
        assert!(x < self.0 && y < self.1, "pixel ({x}, {y}) of {}x{} read", self.0, self.1);
        LumaA([x, y])
    }
}
impl GenericImageView for Ramp {
    type Pixel = LumaA<f32>;
    fn dimensions(&self) -> (u32, u32) {
        (self.0 .0, self.0 .1)
    }
    fn get_pixel(&self, x: u32, y: u32) -> LumaA<f32> {
        let p = self.0.get_pixel(x, y);
        if self.1 {
            LumaA([0.75, 0.25])
        } else {
            LumaA([p.0[0] as f32, p.0[1] as f32])
        }
    }
}
fn vast(ch: &mut Ch) -> Res {
    const N: [u32; 14] = [1, 2, 3, 1000, (1 << 22) + 1, (1 << 23) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 2, (1 << 24) + 4, (1 << 25) + 6, 1 << 31, u32::MAX - 1, u32::MAX];
    let (w, h) = (ch.of(&N), ch.of(&N));
    let i = Vast(w, h);
    let step = |f: f32, k: i32| f32::from_bits((f.to_bits() as i32 + k).max(0) as u32);
    let near = |n: u32| -> Vec<f32> {
        let e = (n - 1) as f32;
        let mut v = vec![0., 0.5, 0.75, 1., e / 3., e / 2., 16777214.5, 16777215., 16777216., 16777218., 16777220.];
        v.extend((-3..=2).map(|k| step(e, k)));
        v.extend([e - 0.5, e - 1.]);
        v
    };
    for x in near(w) {
        for y in near(h) {
            let what = format!("interpolating {w}x{h} at ({x}, {y})");
            let (n, b, k) = guarded(&what, || (interpolate_nearest(&i, x, y), interpolate_bilinear(&Ramp(i, false), x, y), interpolate_bilinear(&Ramp(i, true), x, y)))?;
            let sure = x >= 0. && y >= 0. && x as f64 <= (w - 1) as f64 && y as f64 <= (h - 1) as f64;
            let not = !(x >= 0. && y >= 0. && x as f64 <= w as f64 + 128. && y as f64 <= h as f64 + 128.);
            ensure!(!sure || (n.is_some() && b.is_some() && k.is_some()), "{what}: no pixel");
            ensure!(!not || (n.is_none() && b.is_none() && k.is_none()), "{what}: {n:?} {b:?} outside");
            tell(&what, [x as f64, y as f64], n, b, k)?;
        }
    }
    let us: Vec<f32> = [0., 1e-9, 0.25, 1. / 3., 0.5, 0.75].into_iter().chain((-4..=0).map(|k| step(1., k))).collect();
    for &u in &us {
        for &v in &us {
            let what = format!("sampling {w}x{h} at ({u}, {v})");
            let (n, b, k) = guarded(&what, || (sample_nearest(&i, u, v), sample_bilinear(&Ramp(i, false), u, v), sample_bilinear(&Ramp(i, true), u, v)))?;
            ensure!(n.is_some() && b.is_some() && k.is_some(), "{what}: no pixel");
            let at = |u: f32, n: u32| ((u as f64 * n as f64) - 0.5).clamp(0., n as f64 - 1.);
            tell(&what, [at(u, w), at(v, h)], n, b, k)?;
        }
    }
    ch.steps(400);
    ch.state(hash_of(&(w, h)));
    Ok(())
}
fn tell(what: &str, at: [f64; 2], n: Option<LumaA<u32>>, b: Option<LumaA<f32>>, k: Option<LumaA<f32>>) -> Res {
    for c in 0..2 {
        // single precision knows the point up to this
        let slack = at[c] / (1 << 22) as f64 + 1e-6;
        if let Some(n) = n {
            ensure!((n.0[c] as f64 - at[c]).abs() <= 0.5 + slack, "{what}: pixel {n:?} is not the nearest to {at:?}");
        }
        if let Some(b) = b {
            ensure!((b.0[c] as f64 - at[c]).abs() <= slack, "{what}: interpolating pixels that hold their coordinates gives {b:?}, not {at:?}");
        }
        if let Some(k) = k {
            ensure!((k.0[c] - [0.75, 0.25][c]).abs() <= 1e-5, "{what}: interpolating equal pixels gives {k:?}");
        }
    }
    Ok(())
}
fn point(what: &str, p: &Planes, x: f64, y: f64, n: &[f64], b: &[f64]) -> Res {
    // nearest: any pixel within half a pixel (ties and single precision)
    let around = |x: f64, n: u32| -> Vec<u32> { (0..n).filter(|&k| (k as f64 - x).abs() <= 0.50001).collect() };
    let ok = around(x, p.w).iter().any(|&i| around(y, p.h).iter().any(|&j| (0..p.n).all(|c| p.at(i, j, c) == n[c])));
    ensure!(ok, "{what}: {n:?} is no nearest pixel");
    let (x0, y0) = (x.floor() as u32, y.floor() as u32);
    let (x1, y1) = ((x0 + 1).min(p.w - 1), (y0 + 1).min(p.h - 1));
    let (fx, fy) = (x - x0 as f64, y - y0 as f64);
    for c in 0..p.n {
        let e = (p.at(x0, y0, c) * (1. - fx) + p.at(x1, y0, c) * fx) * (1. - fy) + (p.at(x0, y1, c) * (1. - fx) + p.at(x1, y1, c) * fx) * fy;
        let tol = if p.float { 1e-5 } else { 0.5 + p.maxv * 1e-5 };
        ensure!((b[c] - e).abs() <= tol, "{what}: bilinear channel {c} is {}, expected {e}", b[c]);
    }
    Ok(())
}

/// Resizing images of every sample type, signed and wide ones included.
fn other_samples<P: Pixel<Subpixel = S> + PartialEq + 'static, S: samples::Sample>(ch: &mut Ch, thumb: &dyn Fn(&ImageBuffer<P, Vec<S>>, u32, u32) -> ImageBuffer<P, Vec<S>>) -> Res {
    let (w, h) = ch.of(&samples::SIZES);
    let (tw, th) = ch.of(&[(4, 3), (2, 2), (7, 9), (1, 1), (9, 1), (2, 5)]);
    let start = ch.pick(S::values().len());
    let step = ch.pick(S::values().len());
    let i: ImageBuffer<P, Vec<S>> = samples::image(w, h, start, step);
    let n = P::CHANNEL_COUNT as usize;
    let tol = S::tolerance(S::DEFAULT_MAX_VALUE.f());
    for op in 0..6 {
        let f = [FilterType::Nearest, FilterType::Triangle, FilterType::Gaussian, FilterType::CatmullRom, FilterType::Lanczos3];
        let what = format!("{w}x{h} to {tw}x{th}, {n} channels of {}, {}", S::NAME, if op == 5 { "thumbnail".to_string() } else { format!("{:?}", f[op]) });
        let o = catch(std::panic::AssertUnwindSafe(|| if op == 5 { thumb(&i, tw, th) } else { imageops::resize(&i, tw, th, f[op]) })).map_err(|e| Viol::new("panic", format!("{what}: {e}")))?;
        need!(o.dimensions() == (tw, th), "size", "{what}: the result is {:?}", o.dimensions());
        if op < 5 && (w, h) == (tw, th) {
            need!(o == i, "same-size", "{what}: resizing to the same size changed the image");
        }
        for c in 0..n {
            let s: Vec<f64> = i.pixels().map(|p| p.channels()[c].f()).collect();
            let (a, b) = (s.iter().cloned().fold(f64::MAX, f64::min), s.iter().cloned().fold(f64::MIN, f64::max));
            for p in o.pixels() {
                let v = p.channels()[c];
                if op == 0 {
                    need!(s.iter().any(|x| (x - v.f()).abs() <= tol), "nearest", "{what}: {v:?} is none of the samples of channel {c}, {s:?}");
                } else if a == b || op != 3 && op != 4 {
                    // a constant stays that constant, up to what single precision holds
                    let t = if a == b { S::tolerance(a) - if S::BITS > 0 && S::BITS <= 16 { 1. } else { 0. } } else { tol };
                    need!(v.f() >= a - t && v.f() <= b + t, "range", "{what}: {v:?} is outside of channel {c}'s {a}..={b}");
                }
            }
        }
        ch.steps(o.len() as u64);
    }
    ch.outcome(hash_of(&format!("{w} {h} {tw} {th} {start} {step} {n} {}", S::NAME)));
    Ok(())
}

macro_rules! other_samples {
    ($ch:ident, $($i:literal $T:ty),*) => {
        match ($ch.pick(12), $ch.pick(4)) {
            $(
                ($i, 0) => other_samples::<Luma<$T>, $T>($ch, &|i, w, h| imageops::thumbnail(i, w, h)),
                ($i, 1) => other_samples::<LumaA<$T>, $T>($ch, &|i, w, h| imageops::thumbnail(i, w, h)),
                ($i, 2) => other_samples::<Rgb<$T>, $T>($ch, &|i, w, h| imageops::thumbnail(i, w, h)),
                ($i, 3) => other_samples::<Rgba<$T>, $T>($ch, &|i, w, h| imageops::thumbnail(i, w, h)),
            )*
            _ => unreachable!(),
        }
    };
}

fn main() {
    let mut c = Check::start("C18", "model_checking", "resizing and thumbnails have the requested or documented dimensions, keep constants, stay in range, equal the documented filter's weighted sums, and never panic");
    c.hang_after(120);
    c.explore("small sizes", "10 colour types x all sources up to 5 (8) x all targets up to 7 (10), five filters, 2 contents", small);
    c.explore("larger sizes", "10 colour types x 6 sources x 10 targets x five filters x 3 contents", larger);
    c.explore("constants", "10 colour types x levels x 6 sources x 8 targets, five filters and thumbnail", constants);
    c.explore("thumbnails", "10 colour types x all sources up to 6 (11) and some longer x all targets up to 8 (13)", thumbs);
    c.explore("large blocks", "averages over up to 2^24 pixels", blocks);
    c.explore("fit and fill", "all sources up to 9 (20) and some longer into 121 targets", fits);
    c.explore("huge bounds", "bounds near 2^32", huge);
    c.explore("point samples of vast images", "14^2 sizes up to 2^32-1 x coordinates around every change of single precision", vast);
    c.explore("point samples", "10 colour types x all sizes up to 5 (9) x coordinates in and out of the domain", points);
    c.explore("other sample types", "12 sample types x 4 pixel types x 5 sources x 6 targets x 81 fillings with the ends of the range, five filters and thumbnail", |ch| other_samples!(ch, 0 u8, 1 i8, 2 u16, 3 i16, 4 u32, 5 i32, 6 u64, 7 i64, 8 usize, 9 isize, 10 f32, 11 f64));
    c.assume("f32 samples lie in 0..=1, the documented range of float samples; at exact ties between two source pixels either counts as nearest");
    c.finish();
}
