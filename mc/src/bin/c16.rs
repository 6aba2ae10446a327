//! C16: blending and overlaying implement source-over compositing in bounds.
//! TECHNIQUE: exhaustive enumeration of alpha pairs, samples, positions and sizes over the real blending, overlaying, tiling and gradient code, compared with an exact compositing model and a coordinate-set model
//! LEVEL: model_checking
//! NOTE: All 256 x 256 alpha pairs for 8-bit pixels against a grid of colours, a boundary grid for u16 and f32; every small bottom and top size at every offset near and far from the destination (incl. the extremes of i64), also with images 2^32-1 pixels wide that exist only as accessors; every access is checked to be in bounds.
use image::imageops::*;
use image::*;
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

/// Source over of one channel: (colour, alpha), levels in 0..=1.
fn over(b: f64, ba: f64, f: f64, fa: f64) -> Option<(f64, f64)> {
    let a = ba + fa - ba * fa;
    if a == 0.0 {
        return None;
    }
    Some(((f * fa + b * ba * (1. - fa)) / a, a))
}

trait S: Primitive + std::fmt::Debug + 'static {
    const M: f64;
    fn f(self) -> f64;
    fn of(v: f64) -> Self;
}
impl S for u8 {
    const M: f64 = 255.;
    fn f(self) -> f64 {
        self as f64
    }
    fn of(v: f64) -> u8 {
        v as u8
    }
}
impl S for u16 {
    const M: f64 = 65535.;
    fn f(self) -> f64 {
        self as f64
    }
    fn of(v: f64) -> u16 {
        v as u16
    }
}
impl S for f32 {
    const M: f64 = 1.;
    fn f(self) -> f64 {
        self as f64
    }
    fn of(v: f64) -> f32 {
        v as f32
    }
}

/// One blend of a pixel whose last channel is alpha.
fn check_blend<T: S, P: Pixel<Subpixel = T> + std::fmt::Debug>(bg: P, fg: P) -> Res {
    let mut out = bg;
    out.blend(&fg);
    let (b, f, o) = (bg.channels(), fg.channels(), out.channels());
    let n = b.len();
    let (ba, fa) = (b[n - 1].f() / T::M, f[n - 1].f() / T::M);
    if fa == 0.0 {
        need!(o == b, "transparent", "{f:?} over {b:?} gives {o:?}: a transparent source changed the pixel");
        return Ok(());
    }
    if fa == 1.0 {
        need!(o == f, "opaque", "{f:?} over {b:?} gives {o:?}: an opaque source does not replace");
        return Ok(());
    }
    // truncation or rounding, in single precision
    let tol = if T::M == 1. { 4e-6 } else { 1.0 + T::M * 3e-6 };
    for c in 0..n - 1 {
        let (e, a) = over(b[c].f() / T::M, ba, f[c].f() / T::M, fa).unwrap();
        let (x, y) = (o[c].f(), o[n - 1].f());
        ensure!((x - e * T::M).abs() <= tol, "{f:?} over {b:?} gives {o:?}: channel {c} should be {}", e * T::M);
        ensure!((y - a * T::M).abs() <= tol, "{f:?} over {b:?} gives {o:?}: alpha should be {}", a * T::M);
    }
    Ok(())
}

fn grid<T: S>(quick: bool) -> Vec<T> {
    let mut v: Vec<f64> = vec![0., 1. / T::M.max(255.), 0.25, 0.5, 0.7, 1. - 1. / T::M.max(255.), 1.];
    if !quick {
        v.extend([0.01, 0.1, 1. / 3., 0.4, 0.6, 0.9, 0.99]);
    }
    v.iter().map(|x| T::of((x * T::M * if T::M == 1. { 1. } else { 1. }).round_if(T::M))).collect()
}
trait RoundIf {
    fn round_if(self, m: f64) -> f64;
}
impl RoundIf for f64 {
    fn round_if(self, m: f64) -> f64 {
        if m == 1. {
            self
        } else {
            self.round()
        }
    }
}

fn alphas<T: S>(quick: bool) -> Vec<T> {
    if T::M == 255. {
        return (0..=255).map(|x| T::of(x as f64)).collect();
    }
    let n = if quick { 60 } else { 240 };
    let mut v: Vec<f64> = (0..=n).map(|i| i as f64 / n as f64 * T::M).collect();
    if T::M > 1. {
        v.extend([1., 2., 255., 256., 257., 32767., 32768., 65533., 65534.]);
    } else {
        v.extend([1e-10, 1e-30, 1e-7, 1. - 1e-7]);
    }
    v.into_iter().map(|x| T::of(x.round_if(T::M))).collect()
}

fn blends<T: S>(ch: &mut Ch) -> Res
where
    Rgba<T>: Pixel<Subpixel = T> + std::fmt::Debug,
    LumaA<T>: Pixel<Subpixel = T> + std::fmt::Debug,
    Rgb<T>: Pixel<Subpixel = T> + std::fmt::Debug,
    Luma<T>: Pixel<Subpixel = T> + std::fmt::Debug,
{
    let a = alphas::<T>(ch.quick);
    let g = grid::<T>(ch.quick);
    let ba = ch.of(&a);
    let mut k = 0usize;
    for &fa in &a {
        for &b in &g {
            for &f in &g {
                k += 1;
                // the other two channels run through the grid as well
                let (b1, f1, b2, f2) = (g[k % g.len()], g[(k / 3) % g.len()], g[(k / 5) % g.len()], g[(k / 7) % g.len()]);
                check_blend(Rgba([b, b1, b2, ba]), Rgba([f, f1, f2, fa]))?;
                check_blend(Rgba([b1, b2, b, ba]), Rgba([f1, f2, f, fa]))?;
                check_blend(LumaA([b, ba]), LumaA([f, fa])).map_err(|e| e.prefix("LumaA"))?;
                let mut p = Rgb([b, b1, b2]);
                p.blend(&Rgb([f, f1, f2]));
                ensure!(p.0 == [f, f1, f2], "blending an RGB pixel does not replace it");
                let mut p = Luma([b]);
                p.blend(&Luma([f]));
                ensure!(p.0 == [f], "blending a grey pixel does not replace it");
            }
        }
    }
    ch.steps(4 * k as u64);
    ch.state(hash_of(&(T::M as u64, (ba.f() * 1e6) as u64)));
    ch.outcome(hash_of(&(ba.f() as u64)));
    Ok(())
}

/// Odd floats never panic.
fn floats(ch: &mut Ch) -> Res {
    let v = [0.0f32, 1.0, 0.5, -1.0, 2.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 1e-45, -0.0];
    let (ba, fa, b, f) = (ch.of(&v), ch.of(&v), ch.of(&v), ch.of(&v));
    let r = catch(|| {
        let mut p = Rgba([b, f, 0.5, ba]);
        p.blend(&Rgba([f, b, 0.25, fa]));
        let mut q = LumaA([b, ba]);
        q.blend(&LumaA([f, fa]));
    });
    if let Err(p) = r {
        return viol("panic", format!("blending floats {f} alpha {fa} over {b} alpha {ba}: {p}"));
    }
    ch.outcome(hash_of(&(ba.to_bits(), fa.to_bits())));
    Ok(())
}

/// A destination that exists only as the set of written pixels; accesses outside are a violation.
struct Ghost {
    w: u32,
    h: u32,
    px: BTreeMap<(u32, u32), Rgba<u8>>,
    bad: RefCell<Option<String>>,
}
fn content(x: u32, y: u32) -> Rgba<u8> {
    let k = (x.wrapping_mul(31) ^ y.wrapping_mul(17)).wrapping_add(x / 7);
    Rgba([k as u8, (k >> 3) as u8, (x as u8) ^ 0x5A, [255, 128, 0, 77][(x.wrapping_add(y) % 4) as usize]])
}
impl GenericImageView for Ghost {
    type Pixel = Rgba<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Rgba<u8> {
        if x >= self.w || y >= self.h {
            self.bad.borrow_mut().get_or_insert(format!("read of ({x}, {y}) in {}x{}", self.w, self.h));
        }
        self.px.get(&(x, y)).copied().unwrap_or_else(|| content(x, y))
    }
}
#[allow(deprecated)]
impl GenericImage for Ghost {
    fn get_pixel_mut(&mut self, _: u32, _: u32) -> &mut Rgba<u8> {
        unimplemented!()
    }
    fn put_pixel(&mut self, x: u32, y: u32, p: Rgba<u8>) {
        if x >= self.w || y >= self.h {
            self.bad.borrow_mut().get_or_insert(format!("write to ({x}, {y}) in {}x{}", self.w, self.h));
        }
        self.px.insert((x, y), p);
    }
    fn blend_pixel(&mut self, x: u32, y: u32, p: Rgba<u8>) {
        let mut q = self.get_pixel(x, y);
        q.blend(&p);
        self.put_pixel(x, y, q);
    }
}
fn ghost(w: u32, h: u32) -> Ghost {
    Ghost { w, h, px: BTreeMap::new(), bad: RefCell::new(None) }
}

/// The top image, recording what is read.
struct Top {
    w: u32,
    h: u32,
    bad: RefCell<Option<String>>,
}
fn top_content(x: u32, y: u32) -> Rgba<u8> {
    let k = x.wrapping_mul(131) ^ y.wrapping_mul(71) ^ 0xC3;
    Rgba([k as u8, (k >> 2) as u8, y as u8, [128, 255, 0, 1][(x.wrapping_mul(3).wrapping_add(y) % 4) as usize]])
}
impl GenericImageView for Top {
    type Pixel = Rgba<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Rgba<u8> {
        if x >= self.w || y >= self.h {
            self.bad.borrow_mut().get_or_insert(format!("read of ({x}, {y}) in the top of {}x{}", self.w, self.h));
        }
        top_content(x, y)
    }
}

/// Puts `top` at (x, y) and compares with the definition, for destinations small enough to look at whole or
/// overlaps small enough to enumerate.
fn place(bw: u32, bh: u32, tw: u32, th: u32, x: i64, y: i64, blend: bool) -> Res {
    let mut b = ghost(bw, bh);
    let t = Top { w: tw, h: th, bad: RefCell::new(None) };
    let what = format!("{} {tw}x{th} at ({x}, {y}) of {bw}x{bh}", if blend { "overlaying" } else { "replacing with" });
    if let Err(p) = catch(std::panic::AssertUnwindSafe(|| if blend { overlay(&mut b, &t, x, y) } else { replace(&mut b, &t, x, y) })) {
        return viol("panic", format!("{what}: {p}"));
    }
    let bad = b.bad.borrow().clone().or(t.bad.borrow().clone());
    if let Some(m) = bad {
        return viol("bounds", format!("{what}: {m}"));
    }
    let (x, y) = (x as i128, y as i128);
    let span = |at: i128, top: u32, bottom: u32| -> (i128, i128) { (at.max(0), (at + top as i128).min(bottom as i128)) };
    let ((x0, x1), (y0, y1)) = (span(x, tw, bw), span(y, th, bh));
    let mut expect = BTreeMap::new();
    let mut py = y0;
    while py < y1 {
        let mut px = x0;
        while px < x1 {
            let f = top_content((px - x) as u32, (py - y) as u32);
            let mut p = content(px as u32, py as u32);
            if blend {
                p.blend(&f);
            } else {
                p = f;
            }
            expect.insert((px as u32, py as u32), p);
            px += 1;
        }
        py += 1;
    }
    // pixels that are written with the value they had are not a difference
    for (k, v) in &b.px {
        ensure!(expect.get(k).copied().unwrap_or_else(|| content(k.0, k.1)) == *v, "{what}: pixel {k:?} became {v:?}, expected {:?}", expect.get(k));
    }
    for (k, v) in &expect {
        ensure!(b.get_pixel(k.0, k.1) == *v, "{what}: pixel {k:?} was not written");
    }
    Ok(())
}

fn small(ch: &mut Ch) -> Res {
    let m = if ch.quick { 4 } else { 6 };
    let (bw, bh, tw, th) = (ch.range(0, m), ch.range(0, m), ch.range(0, m), ch.range(0, m));
    let far = [i64::MIN, i64::MIN + 1, i64::MIN + 5, -(1 << 62), -(1 << 32) - 1, -(1 << 32), -(1 << 31), 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, 1 << 62, i64::MAX - 5, i64::MAX - 1, i64::MAX];
    let mut at: Vec<i64> = (-(m as i64) - 1..=m as i64 + 1).collect();
    at.extend(far);
    let x = ch.of(&at);
    for &y in &at {
        place(bw as u32, bh as u32, tw as u32, th as u32, x, y, true)?;
        place(bw as u32, bh as u32, tw as u32, th as u32, x, y, false)?;
        ch.steps(2);
    }
    ch.state(hash_of(&(bw, bh, tw, th, x)));
    ch.outcome(hash_of(&(x > bw as i64, x < 0)));
    Ok(())
}

/// Images as wide as can be, of which only a few pixels overlap.
fn huge(ch: &mut Ch) -> Res {
    let max = u32::MAX;
    let sizes = [3, max - 1, max];
    let (bw, tw) = (ch.of(&sizes), ch.of(&sizes));
    let rows = ch.of(&[(3u32, 2u32), (1, 3)]);
    let flip = ch.flag();
    // offsets that leave at most 4 columns of overlap
    let mut at: Vec<i64> = vec![i64::MIN, -(tw as i64) - 1, -(tw as i64), -(tw as i64) + 1, -(tw as i64) + 3, bw as i64 - 3, bw as i64 - 1, bw as i64, bw as i64 + 1, i64::MAX, i64::MAX - tw as i64];
    if bw == 3 || tw == 3 {
        at.extend([-2, -1, 0, 1, 2, 5, (1 << 31) - 1, 1 << 31, -(1 << 31)]);
    }
    let x = ch.of(&at);
    for y in -3..=3 {
        for blend in [true, false] {
            if flip {
                place(rows.0, bw, rows.1, tw, y, x, blend)?;
            } else {
                place(bw, rows.0, tw, rows.1, x, y, blend)?;
            }
            ch.steps(1);
        }
    }
    ch.state(hash_of(&(bw, tw, x, flip)));
    Ok(())
}

/// overlay_bounds: the largest range that fits, for boundary values of everything.
fn bounds(ch: &mut Ch) -> Res {
    let v = [0u32, 1, 2, 5, 100, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX - 2, u32::MAX - 1, u32::MAX];
    let (b, t, x) = (ch.of(&v), ch.of(&v), ch.of(&v));
    for &b2 in &v {
        for &t2 in &v {
            for &y in &v {
                let (rw, rh) = overlay_bounds((b, b2), (t, t2), x, y);
                let e = |b: u32, t: u32, x: u32| ((t as u64 + x as u64).min(b as u64)).saturating_sub(x as u64) as u32;
                ensure!((rw, rh) == (e(b, t, x), e(b2, t2, y)), "overlay_bounds(({b}, {b2}), ({t}, {t2}), {x}, {y}) = ({rw}, {rh})");
                ch.steps(1);
            }
        }
    }
    Ok(())
}

fn tiles(ch: &mut Ch) -> Res {
    let m = if ch.quick { 6 } else { 9 };
    let (bw, bh, tw, th) = (ch.range(0, m) as u32, ch.range(0, m) as u32, ch.range(0, 4) as u32, ch.range(0, 4) as u32);
    let mut b = ghost(bw, bh);
    let t = Top { w: tw, h: th, bad: RefCell::new(None) };
    if let Err(p) = catch(std::panic::AssertUnwindSafe(|| tile(&mut b, &t))) {
        return viol("panic", format!("tiling {bw}x{bh} with {tw}x{th}: {p}"));
    }
    let bad = b.bad.borrow().clone().or(t.bad.borrow().clone());
    if let Some(m) = bad {
        return viol("bounds", format!("tiling {bw}x{bh} with {tw}x{th}: {m}"));
    }
    for y in 0..bh {
        for x in 0..bw {
            let mut e = content(x, y);
            if tw > 0 && th > 0 {
                e.blend(&top_content(x % tw, y % th));
            }
            ensure!(b.get_pixel(x, y) == e, "tiling {bw}x{bh} with {tw}x{th}: pixel ({x}, {y})");
        }
    }
    ch.state(hash_of(&(bw, bh, tw, th)));
    Ok(())
}

fn gradients(ch: &mut Ch) -> Res {
    let m = if ch.quick { 9 } else { 40 };
    let (w, h) = if ch.flag() { (ch.of(&[0, 1, 2, 255, 256, 257, 1000]) as u32, ch.range(0, 2) as u32) } else { (ch.range(0, m) as u32, ch.range(0, m) as u32) };
    let vertical = ch.flag();
    macro_rules! run {
        ($p:ty, $s:expr, $e:expr, $tol:expr) => {{
            for swap in [false, true] {
                let (w, h) = if swap { (h, w) } else { (w, h) };
                let (start, stop): ($p, $p) = ($s, $e);
                let mut i: ImageBuffer<$p, Vec<_>> = ImageBuffer::new(w, h);
                if let Err(p) = catch(std::panic::AssertUnwindSafe(|| if vertical { vertical_gradient(&mut i, &start, &stop) } else { horizontal_gradient(&mut i, &start, &stop) })) {
                    return viol("panic", format!("{} gradient of {w}x{h} from {:?} to {:?}: {p}", if vertical { "vertical" } else { "horizontal" }, start.0, stop.0));
                }
                let n = if vertical { h } else { w };
                for (x, y, p) in i.enumerate_pixels() {
                    let k = if vertical { y } else { x };
                    let r = if n > 1 { k as f64 / (n - 1) as f64 } else { 0. };
                    for c in 0..p.0.len() {
                        let (a, b) = (start.0[c] as f64, stop.0[c] as f64);
                        let e = a + (b - a) * r;
                        ensure!((p.0[c] as f64 - e).abs() <= $tol, "{} gradient of {w}x{h} from {:?} to {:?}: {:?} at ({x}, {y})", if vertical { "vertical" } else { "horizontal" }, start.0, stop.0, p.0);
                        if k == 0 {
                            ensure!(p.0[c] == start.0[c], "the gradient of {w}x{h} from {:?} does not start there: {:?}", start.0, p.0);
                        } else if k == n - 1 {
                            ensure!(p.0[c] == stop.0[c], "the gradient of {w}x{h} to {:?} does not stop there: {:?}", stop.0, p.0);
                        }
                    }
                }
                ch.steps(1);
            }
        }};
    }
    run!(Rgba<u8>, Rgba([0, 255, 7, 0]), Rgba([255, 0, 7, 128]), 1.01);
    run!(Rgb<u8>, Rgb([250, 3, 0]), Rgb([251, 1, 255]), 1.01);
    run!(Luma<u8>, Luma([9]), Luma([200]), 1.01);
    run!(LumaA<u8>, LumaA([0, 255]), LumaA([0, 0]), 1.01);
    run!(Luma<u16>, Luma([65535]), Luma([0]), 1.05);
    run!(Rgba<u16>, Rgba([0, 65535, 256, 1]), Rgba([65535, 0, 255, 2]), 1.05);
    run!(Rgb<f32>, Rgb([0.0, 1.0, 0.25]), Rgb([1.0, 0.0, 0.5]), 1e-5);
    ch.state(hash_of(&(w, h, vertical)));
    ch.outcome(hash_of(&(w.min(2), h.min(2))));
    Ok(())
}

/// Overlaying typed and dynamic images and views of them gives what the definition says.
fn real(ch: &mut Ch) -> Res {
    let color = ch.of(&COLORS);
    let (x, y) = (ch.range(0, 8) as i64 - 4, ch.range(0, 8) as i64 - 4);
    let (bw, bh) = ch.of(&[(4u32, 3u32), (1, 1), (3, 5)]);
    let (tw, th) = ch.of(&[(2u32, 2u32), (5, 6), (1, 3)]);
    let (b, t) = (pattern(bw, bh, color, 2), pattern(tw, th, color, ch.of(&[2, 5])));
    macro_rules! go {
        ($i:expr, $as:ident) => {{
            let td = t.dynamic();
            let tt = td.$as().unwrap();
            let mut e = $i.clone();
            for ty in 0..th as i64 {
                for tx in 0..tw as i64 {
                    let (px, py) = (x + tx, y + ty);
                    if px >= 0 && py >= 0 && px < bw as i64 && py < bh as i64 {
                        e.get_pixel_mut(px as u32, py as u32).blend(tt.get_pixel(tx as u32, ty as u32));
                    }
                }
            }
            let mut o = $i.clone();
            overlay(&mut o, tt, x, y);
            ensure!(o == e, "{color:?}: overlaying {tw}x{th} at ({x}, {y}) of {bw}x{bh}");
            // a view onto a larger image: nothing outside the view changes
            let mut big: ImageBuffer<_, Vec<_>> = ImageBuffer::from_pixel(bw + 4, bh + 4, *tt.get_pixel(0, 0));
            replace(&mut big, &$i, 2, 2);
            let before = big.clone();
            overlay(&mut *big.sub_image(2, 2, bw, bh), &*tt.view(0, 0, tw, th), x, y);
            for (px, py, p) in big.enumerate_pixels() {
                let inside = px >= 2 && py >= 2 && px < 2 + bw && py < 2 + bh;
                let want = if inside { e.get_pixel(px - 2, py - 2) } else { before.get_pixel(px, py) };
                ensure!(p == want, "{color:?}: overlaying a view at ({x}, {y}): pixel ({px}, {py})");
            }
        }};
    }
    match b.dynamic() {
        DynamicImage::ImageLuma8(i) => go!(i, as_luma8),
        DynamicImage::ImageLumaA8(i) => go!(i, as_luma_alpha8),
        DynamicImage::ImageRgb8(i) => go!(i, as_rgb8),
        DynamicImage::ImageRgba8(i) => go!(i, as_rgba8),
        DynamicImage::ImageLuma16(i) => go!(i, as_luma16),
        DynamicImage::ImageLumaA16(i) => go!(i, as_luma_alpha16),
        DynamicImage::ImageRgb16(i) => go!(i, as_rgb16),
        DynamicImage::ImageRgba16(i) => go!(i, as_rgba16),
        DynamicImage::ImageRgb32F(i) => go!(i, as_rgb32f),
        DynamicImage::ImageRgba32F(i) => go!(i, as_rgba32f),
        _ => unreachable!(),
    }
    ch.state(hash_of(&(color, x, y, bw, tw)));
    Ok(())
}

/// Blending and overlaying for every sample type, signed and wide ones included.
fn other_samples<P: Pixel<Subpixel = S> + PartialEq + 'static, S: samples::Sample>(ch: &mut Ch) -> Res {
    let (a, b): (ImageBuffer<P, Vec<S>>, ImageBuffer<P, Vec<S>>) = (samples::pick_image(ch, &[(1, 1)]), samples::pick_image(ch, &[(1, 1)]));
    let (p, q) = (*a.get_pixel(0, 0), *b.get_pixel(0, 0));
    let n = P::CHANNEL_COUNT as usize;
    let what = format!("{n} channels of {}", S::NAME);
    let mut r = p;
    catch(|| r.blend(&q)).map_err(|e| Viol::new("panic", format!("{what}: {:?} onto {:?}: {e}", q.channels(), p.channels())))?;
    let (pc, qc, rc) = (p.channels().to_vec(), q.channels().to_vec(), r.channels().to_vec());
    let (hi, zero) = (S::DEFAULT_MAX_VALUE, S::values()[2]);
    if n % 2 == 1 || qc[n - 1] == hi {
        need!(rc == qc, "blend", "{what}: {qc:?} onto {pc:?} gives {rc:?} instead of replacing");
    } else if qc[n - 1] == zero {
        need!(rc == pc, "blend", "{what}: {qc:?} onto {pc:?} gives {rc:?} instead of doing nothing");
    } else if pc.iter().chain(&qc).all(|x| x.f() >= 0.) {
        let m = hi.f();
        let (fa, ba) = (qc[n - 1].f() / m, pc[n - 1].f() / m);
        let fin = fa + ba - fa * ba;
        for c in 0..n {
            let e = if c == n - 1 { fin * m } else { (qc[c].f() * fa + pc[c].f() * ba * (1. - fa)) / fin };
            need!((rc[c].f() - e).abs() <= S::tolerance(m), "blend", "{what}: {qc:?} onto {pc:?} gives {rc:?}, channel {c} should be {e}");
        }
    }
    // an overlay is the blend of each pixel
    let mut big: ImageBuffer<P, Vec<S>> = ImageBuffer::from_pixel(2, 2, p);
    catch(std::panic::AssertUnwindSafe(|| overlay(&mut big, &b, 1, 0))).map_err(|e| Viol::new("panic", format!("{what}: overlay: {e}")))?;
    for (x, y, o) in big.enumerate_pixels() {
        let e = if (x, y) == (1, 0) { &rc } else { &pc };
        need!(o.channels() == &e[..], "overlay", "{what}: after an overlay, ({x}, {y}) holds {:?}, not {e:?}", o.channels());
    }
    ch.steps(5);
    ch.outcome(hash_of(&format!("{what}{rc:?}")));
    Ok(())
}

fn main() {
    let mut c = Check::start("C16", "model_checking", "blending is source-over compositing (transparent changes nothing, opaque replaces), and overlaying, replacing, tiling and gradients affect exactly the intersection with the destination");
    c.explore("blend u8", "all 65536 alpha pairs x a grid of colours", blends::<u8>);
    c.explore("blend u16", "a grid of alpha pairs incl. the extremes x a grid of colours", blends::<u16>);
    c.explore("blend f32", "a grid of alpha pairs incl. tiny ones x a grid of colours", blends::<f32>);
    c.explore("odd floats", "12^4 combinations of special floats", floats);
    c.explore("small overlays", "all sizes up to 4 (6) x all near and 16 far offsets in both directions, overlay and replace", small);
    c.explore("huge overlays", "sizes 2^32-1 with few overlapping pixels", huge);
    c.explore("overlay_bounds", "11^6 boundary arguments", bounds);
    c.explore("tiling", "all destinations up to 6 (9) and tiles up to 4, incl. empty ones", tiles);
    c.explore("gradients", "all sizes up to 9 (40) and some long ones, both directions, seven pixel types", gradients);
    c.explore("typed images and views", "10 colour types x offsets -4..4 x sizes, also through sub-images", real);
    c.explore("other sample types", "12 sample types x 4 pixel types x 81 x 81 pairs of pixels at the ends of the range", |ch| for_sample_types!(ch, other_samples));
    c.assume("samples are u8, u16 or f32, the sample types of the colour types");
    c.finish();
}
