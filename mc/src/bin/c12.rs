//! C12: views and copies touch exactly the requested rectangle.
//! TECHNIQUE: exhaustive enumeration of rectangles and of operation histories on the real views and copies, in lockstep with a matrix model
//! LEVEL: model_checking
//! NOTE: All rectangles (inside, touching and outside, with extreme coordinates) of all images up to the stated size, for every implementor of the trait (buffer, view, nested view, flat view, dynamic image), and all histories up to the stated depth; larger images are not enumerated.
use image::math::Rect;
use image::*;
use mc::*;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct M {
    w: u32,
    h: u32,
    d: Vec<u8>,
}
impl M {
    fn new(w: u32, h: u32, base: u8) -> M {
        M { w, h, d: (0..w * h).map(|i| base.wrapping_add(i as u8 * 5)).collect() }
    }
    fn at(&self, x: u32, y: u32) -> u8 {
        self.d[(y * self.w + x) as usize]
    }
    fn set(&mut self, x: u32, y: u32, v: u8) {
        self.d[(y * self.w + x) as usize] = v
    }
    fn crop(&self, x: u32, y: u32, w: u32, h: u32) -> M {
        M { w, h, d: (0..w * h).map(|i| self.at(x + i % w, y + i / w)).collect() }
    }
    fn fits(&self, x: u32, y: u32, w: u32, h: u32) -> bool {
        x as u64 + w as u64 <= self.w as u64 && y as u64 + h as u64 <= self.h as u64
    }
    fn put(&mut self, o: &M, x: u32, y: u32) {
        for j in 0..o.h {
            for i in 0..o.w {
                self.set(x + i, y + j, o.at(i, j));
            }
        }
    }
    fn image(&self) -> RgbaImage {
        RgbaImage::from_raw(self.w, self.h, self.d.iter().flat_map(|v| px(*v).0).collect()).unwrap()
    }
}
/// Four distinct samples per pixel, so that misplaced channels show.
fn px(v: u8) -> Rgba<u8> {
    Rgba([v, v ^ 0x55, v.wrapping_mul(3), 255 - v])
}
fn read<I: GenericImageView<Pixel = Rgba<u8>>>(i: &I) -> Result<M, Viol> {
    let (w, h) = i.dimensions();
    let mut d = vec![];
    for y in 0..h {
        for x in 0..w {
            let p = i.get_pixel(x, y);
            if p != px(p.0[0]) {
                viol("", format!("pixel ({x},{y}) of {w}x{h} has samples of different pixels: {p:?}"))?;
            }
            d.push(p.0[0]);
        }
    }
    let viait: Vec<(u32, u32, Rgba<u8>)> = i.pixels().collect();
    let want: Vec<(u32, u32, Rgba<u8>)> = (0..w * h).map(|k| (k % w, k / w, px(d[k as usize]))).collect();
    if viait != want {
        viol("", format!("pixels() of a {w}x{h} view gave {viait:?}"))?;
    }
    Ok(M { w, h, d })
}
fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch(f).is_err()
}
const BIG: [u32; 3] = [u32::MAX, u32::MAX - 1, 1 << 31];

fn coord(ch: &mut Ch, n: u32) -> u32 {
    let k = ch.pick(n as usize + 3);
    if k <= n as usize + 1 {
        k as u32
    } else {
        ch.of(&BIG)
    }
}
fn sizes(max: u32) -> Vec<(u32, u32)> {
    (0..=max).flat_map(|w| (0..=max).map(move |h| (w, h))).collect()
}

fn views(ch: &mut Ch, max: u32) -> Res {
    let (w, h) = ch.of(&sizes(max));
    let m = M::new(w, h, 10);
    let mut img = m.image();
    let (x, y) = (coord(ch, w), coord(ch, h));
    let (vw, vh) = (coord(ch, w), coord(ch, h));
    let fits = m.fits(x, y, vw, vh);
    ch.step();
    ch.state(hash_of(&(w, h, x, y, vw, vh)));
    ch.outcome(fits as u64);
    let what = format!("({x},{y}) {vw}x{vh} of {w}x{h}");
    // Clamping crops.
    let (cx, cy) = (x.min(w), y.min(h));
    let (cw, chh) = (vw.min(w - cx), vh.min(h - cy));
    let want = m.crop(cx, cy, cw, chh);
    ensure!(read(&*imageops::crop_imm(&img, x, y, vw, vh))? == want, "crop_imm {what}");
    ensure!(read(&imageops::crop_imm(&img, x, y, vw, vh).to_image())? == want, "crop_imm {what} to_image");
    ensure!(read(&*imageops::crop(&mut img, x, y, vw, vh))? == want, "crop {what}");
    ensure!(panics(|| img.view(x, y, vw, vh)) != fits, "view {what}: accepted {}", !fits);
    ensure!(panics(|| GenericImage::sub_image(&mut img, x, y, vw, vh)) != fits, "sub_image {what}: accepted {}", !fits);
    if !fits {
        ensure!(read(&img)? == m, "a refused view changed the image");
        return Ok(());
    }
    let want = m.crop(x, y, vw, vh);
    {
        let v = img.view(x, y, vw, vh);
        ensure!(v.offsets() == (x, y) && v.dimensions() == (vw, vh), "view {what}: offsets {:?}", v.offsets());
        ensure!(read(&*v)? == want && read(&v.to_image())? == want, "view {what} shows other pixels");
        ensure!(read(v.inner())? == m, "view {what}: inner");
        for (ox, oy) in [(vw, 0), (0, vh), (u32::MAX, 0), (0, u32::MAX), (u32::MAX - x, u32::MAX - y), (0u32.wrapping_sub(x), 0u32.wrapping_sub(y))] {
            if ox < vw && oy < vh {
                continue;
            }
            ensure!(!v.in_bounds(ox, oy), "view {what}: in_bounds({ox},{oy})");
            need!(panics(|| v.get_pixel(ox, oy)), "view-outside", "view {what}: reading ({ox},{oy}) outside the view did not panic");
        }
    }
    // Nested.
    let (nx, ny) = (coord(ch, vw), coord(ch, vh));
    let nw = ch.of(&[0, 1, vw.saturating_sub(nx), vw.wrapping_sub(nx).wrapping_add(1), u32::MAX]);
    let nh = ch.of(&[0, 1, vh.saturating_sub(ny), vh.wrapping_sub(ny).wrapping_add(1), u32::MAX]);
    let nfits = want.fits(nx, ny, nw, nh);
    let what = format!("({nx},{ny}) {nw}x{nh} within {what}");
    ensure!(panics(|| { img.view(x, y, vw, vh).view(nx, ny, nw, nh); }) != nfits, "nested view {what}: accepted {}", !nfits);
    ensure!(panics(|| { img.sub_image(x, y, vw, vh).sub_image(nx, ny, nw, nh); }) != nfits, "nested sub_image {what}: accepted {}", !nfits);
    ensure!(panics(|| { GenericImageView::view(&*img.view(x, y, vw, vh), nx, ny, nw, nh); }) != nfits, "nested generic view {what}: accepted {}", !nfits);
    ch.step();
    if nfits {
        let nwant = want.crop(nx, ny, nw, nh);
        {
            let v = img.view(x, y, vw, vh);
            let n = v.view(nx, ny, nw, nh);
            ensure!(read(&*n)? == nwant && read(&n.to_image())? == nwant && n.offsets() == (x + nx, y + ny), "nested view {what}");
            let g = GenericImageView::view(&*v, nx, ny, nw, nh);
            ensure!(read(&*g)? == nwant, "nested generic view {what}");
            let mut moved = v;
            moved.change_bounds(x + nx, y + ny, nw, nh);
            ensure!(read(&*moved)? == nwant, "change_bounds {what}");
        }
        // Write every pixel of the nested mutable view, by each interface.
        let mut m2 = m.clone();
        let mut k = 100u8;
        {
            let mut v = img.sub_image(x, y, vw, vh);
            let mut n = v.sub_image(nx, ny, nw, nh);
            for j in 0..nh {
                for i in 0..nw {
                    k = k.wrapping_add(3);
                    match (i + j) % 4 {
                        0 => n.put_pixel(i, j, px(k)),
                        #[allow(deprecated)]
                        3 => {
                            // blending is that of the pixel type
                            let mut e = m2.image().get_pixel(x + nx + i, y + ny + j).clone();
                            e.blend(&px(k));
                            n.blend_pixel(i, j, px(k));
                            ensure!(n.get_pixel(i, j) == e, "blend_pixel of nested view ({nx},{ny}) {nw}x{nh} within {what}: {:?}, not {e:?}", n.get_pixel(i, j));
                            n.put_pixel(i, j, px(k));
                        }
                        #[allow(deprecated)]
                        1 => *n.get_pixel_mut(i, j) = px(k),
                        _ => unsafe { n.unsafe_put_pixel(i, j, px(k)) },
                    }
                    m2.set(x + nx + i, y + ny + j, k);
                }
            }
            need!(panics(|| n.put_pixel(nw, 0, px(1))) && panics(|| n.put_pixel(0, nh, px(1))), "view-outside", "view {what}: writing outside the view did not panic");
            #[allow(deprecated)]
            {
                need!(panics(|| *n.get_pixel_mut(nw, 0) = px(1)), "view-outside", "view {what}: get_pixel_mut outside the view did not panic");
                need!(panics(|| n.blend_pixel(0, nh, px(1))), "view-outside", "view {what}: blend_pixel outside the view did not panic");
            }
        }
        ensure!(read(&img)? == m2, "writing through {what} gave {:?}, expected {m2:?}", read(&img)?);
        ch.state(hash_of(&(w, h, x, y, vw, vh, nx, ny, nw, nh)));
    }
    ch.validated();
    Ok(())
}

/// Runs `body` on an implementor that shows the matrix `m`; what surrounds it must not change.
macro_rules! on_target {
    ($ch:expr, $m:expr, $t:ident, $after:ident, $body:expr) => {{
        let m: &M = $m;
        match $ch.pick(6) {
            0 => {
                let mut b = m.image();
                {
                    let $t = &mut b;
                    $body
                }
                $after(read(&b)?)
            }
            1 => {
                // a buffer over a larger container
                let mut raw = m.image().into_raw();
                raw.extend([1, 2, 3, 4, 5]);
                let mut b = RgbaImage::from_raw(m.w, m.h, raw).unwrap();
                {
                    let $t = &mut b;
                    $body
                }
                ensure!(b.as_raw()[(m.w * m.h * 4) as usize..] == [1, 2, 3, 4, 5], "wrote beyond the image");
                $after(read(&b)?)
            }
            2 => {
                // a view with a frame around it
                let mut big = M::new(m.w + 3, m.h + 2, 200);
                big.put(m, 2, 1);
                let mut b = big.image();
                {
                    let mut v = b.sub_image(2, 1, m.w, m.h);
                    let $t = &mut *v;
                    $body
                }
                let r = read(&b)?;
                let inner = r.crop(2, 1, m.w, m.h);
                big.put(&inner, 2, 1);
                ensure!(r == big, "changed pixels outside the view");
                $after(inner)
            }
            3 => {
                // a view of a view
                let mut big = M::new(m.w + 3, m.h + 3, 200);
                big.put(m, 2, 2);
                let mut b = big.image();
                {
                    let mut v = b.sub_image(1, 1, m.w + 1, m.h + 2);
                    let mut v = v.sub_image(1, 1, m.w, m.h);
                    let $t = &mut *v;
                    $body
                }
                let r = read(&b)?;
                let inner = r.crop(2, 2, m.w, m.h);
                big.put(&inner, 2, 2);
                ensure!(r == big, "changed pixels outside the nested view");
                $after(inner)
            }
            4 => {
                let mut b = m.image();
                {
                    let mut f = b.as_flat_samples_mut();
                    let mut v = f.as_view_mut::<Rgba<u8>>().unwrap();
                    let $t = &mut v;
                    $body
                }
                $after(read(&b)?)
            }
            _ => {
                let mut b = DynamicImage::ImageRgba8(m.image());
                {
                    let $t = &mut b;
                    $body
                }
                ensure!(matches!(b, DynamicImage::ImageRgba8(_)), "variant changed");
                $after(read(&b)?)
            }
        }
    }};
}

fn copy_from(ch: &mut Ch, max: u32) -> Res {
    let (w, h) = ch.of(&sizes(max));
    let m = M::new(w, h, 10);
    let (sw, sh) = ch.of(&sizes(max + 1));
    let s = M::new(sw, sh, 130);
    let (x, y) = (coord(ch, w), coord(ch, h));
    let fits = m.fits(x, y, sw, sh);
    let mut want = m.clone();
    if fits {
        want.put(&s, x, y);
    }
    let srckind = ch.pick(3);
    let simg = s.image();
    let mut big = M::new(sw + 2, sh + 1, 60);
    big.put(&s, 1, 1);
    let bigimg = big.image();
    ch.step();
    ch.state(hash_of(&(w, h, sw, sh, x, y)));
    let mut ok = None;
    let after = |got: M| -> Res {
        ensure!(got == want, "copy_from {sw}x{sh} at ({x},{y}) into {w}x{h}: fits {fits}, result {got:?}, expected {want:?}");
        Ok(())
    };
    on_target!(ch, &m, t, after, {
        ok = Some(match srckind {
            0 => t.copy_from(&simg, x, y).is_ok(),
            1 => t.copy_from(&*bigimg.view(1, 1, sw, sh), x, y).is_ok(),
            _ => {
                let f = simg.as_flat_samples();
                let v = f.as_view::<Rgba<u8>>().unwrap();
                t.copy_from(&v, x, y).is_ok()
            }
        })
    })?;
    ensure!(ok == Some(fits), "copy_from {sw}x{sh} at ({x},{y}) into {w}x{h}: accepted {ok:?}, fits {fits}");
    ch.outcome(fits as u64);
    ch.validated();
    Ok(())
}

fn copy_within(ch: &mut Ch, max: u32) -> Res {
    let (w, h) = ch.of(&sizes(max));
    let m = M::new(w, h, 10);
    let (sx, sy) = (coord(ch, w), coord(ch, h));
    let (rw, rh) = (coord(ch, w), coord(ch, h));
    let (x, y) = (coord(ch, w), coord(ch, h));
    let inside = m.fits(sx, sy, rw, rh) && m.fits(x, y, rw, rh);
    let starts = sx < w && x < w && sy < h && y < h;
    let mut want = m.clone();
    if inside {
        want.put(&m.crop(sx, sy, rw, rh), x, y);
    }
    let what = format!("copy_within ({sx},{sy}) {rw}x{rh} to ({x},{y}) in {w}x{h}");
    ch.step();
    ch.state(hash_of(&(w, h, sx, sy, rw, rh, x, y)));
    let mut done = Err(String::new());
    let after = |got: M| -> Res {
        ensure!(got == want, "{what}: fits {inside}, result {got:?}, expected {want:?}");
        Ok(())
    };
    on_target!(ch, &m, t, after, { done = catch(|| t.copy_within(Rect { x: sx, y: sy, width: rw, height: rh }, x, y)) })?;
    // A start outside the image is documented by an assertion; everything else answers.
    match done {
        Ok(d) => ensure!(d == inside, "{what}: returned {d}, fits {inside}"),
        Err(e) => ensure!(!starts && e.contains("assertion failed"), "{what}: {e}"),
    }
    ch.outcome(inside as u64);
    ch.validated();
    Ok(())
}

fn histories(ch: &mut Ch, depth: usize) -> Res {
    let (w, h) = ch.of(&[(3u32, 3u32), (3, 2)]);
    let mut m = M::new(w, h, 10);
    let mut img = m.image();
    for step in 0..depth {
        // A window, chosen from all proper ones of at least 2 pixels in one direction; then a copy inside it.
        let wins: Vec<(u32, u32, u32, u32)> = (0..w).flat_map(|x| (0..h).flat_map(move |y| (1..=w - x).flat_map(move |ww| (1..=h - y).map(move |hh| (x, y, ww, hh))))).filter(|v| v.2 * v.3 >= 4).collect();
        let (vx, vy, vw, vh) = ch.of(&wins);
        let v0 = m.crop(vx, vy, vw, vh);
        let mut v1 = v0.clone();
        let sx = ch.range(0, vw as i64 - 1) as u32;
        let sy = ch.range(0, vh as i64 - 1) as u32;
        let rw = ch.range(1, (vw - sx) as i64) as u32;
        let rh = ch.range(1, (vh - sy) as i64) as u32;
        let dx = ch.range(0, (vw - rw) as i64) as u32;
        let dy = ch.range(0, (vh - rh) as i64) as u32;
        let by_view = step == 0 || ch.flag();
        v1.put(&v0.crop(sx, sy, rw, rh), dx, dy);
        if by_view {
            let mut s = img.sub_image(vx, vy, vw, vh);
            ensure!(s.copy_within(Rect { x: sx, y: sy, width: rw, height: rh }, dx, dy), "refused");
        } else {
            let mut f = img.as_flat_samples_mut();
            let mut fv = f.as_view_mut::<Rgba<u8>>().unwrap();
            ensure!(fv.copy_within(Rect { x: vx + sx, y: vy + sy, width: rw, height: rh }, vx + dx, vy + dy), "refused");
        }
        m.put(&v1, vx, vy);
        let got = read(&img)?;
        ensure!(got == m, "step {step}: window ({vx},{vy}) {vw}x{vh}, ({sx},{sy}) {rw}x{rh} to ({dx},{dy}): {got:?}, expected {m:?}");
        ch.step();
        ch.state(hash_of(&m));
    }
    ch.validated();
    Ok(())
}

fn main() {
    let mut c = Check::start("C12", "model_checking", "one execution = one view, copy or history of copies on one implementor; non-trivial when the whole image was compared with the model");
    let q = c.quick;
    let vmax = if q { 3 } else { 4 };
    c.explore("views", &format!("images up to {vmax}x{vmax}, all rectangles with coordinates and sizes in 0..=size+1 and {BIG:?}, all nested views (sizes 0, 1, the rest, one more, huge), reads and writes inside and outside, crop"), |ch| views(ch, vmax));
    let m1 = if q { 3 } else { 4 };
    c.explore("copy-from", &format!("destinations up to {m1}x{m1}, sources up to one larger, all positions in 0..=size+1 and {BIG:?}; 6 destination implementors x 3 source implementors"), |ch| copy_from(ch, m1));
    let m2 = if q { 2 } else { 3 };
    c.explore("copy-within", &format!("images up to {m2}x{m2}, all source rectangles and positions as above, 6 implementors"), |ch| copy_within(ch, m2));
    c.explore("copy-within-inner", "images 4x3 and 3x4 (thorough: also 4x4, 5x2), all source rectangles inside and all destinations inside, 6 implementors", |ch| {
        let l: Vec<(u32, u32)> = if ch.quick { vec![(4, 3), (3, 4)] } else { vec![(4, 3), (3, 4), (4, 4), (5, 2)] };
        let (w, h) = ch.of(&l);
        let m = M::new(w, h, 10);
        let sx = ch.range(0, w as i64 - 1) as u32;
        let sy = ch.range(0, h as i64 - 1) as u32;
        let rw = ch.range(1, (w - sx) as i64) as u32;
        let rh = ch.range(1, (h - sy) as i64) as u32;
        let x = ch.range(0, (w - rw) as i64) as u32;
        let y = ch.range(0, (h - rh) as i64) as u32;
        let mut want = m.clone();
        want.put(&m.crop(sx, sy, rw, rh), x, y);
        let mut done = false;
        let after = |got: M| -> Res {
            ensure!(got == want, "copy_within ({sx},{sy}) {rw}x{rh} to ({x},{y}) in {w}x{h}: {got:?}, expected {want:?}");
            Ok(())
        };
        on_target!(ch, &m, t, after, { done = t.copy_within(Rect { x: sx, y: sy, width: rw, height: rh }, x, y) })?;
        ensure!(done, "copy_within ({sx},{sy}) {rw}x{rh} to ({x},{y}) in {w}x{h} was refused");
        ch.step();
        ch.state(hash_of(&(w, h, sx, sy, rw, rh, x, y)));
        ch.validated();
        Ok(())
    });
    let depth = if q { 2 } else { 3 };
    c.explore("long", "images of 66000x3 and 3x66000: views, nested views, copies in and copies within at positions around 2^8, 2^15 and 2^16", |ch| {
        let tall = ch.flag();
        let turn = |x: u32, y: u32| if tall { (y, x) } else { (x, y) };
        let (w, h) = turn(66000, 3);
        let pixel = |x: u32, y: u32| { let k = x.wrapping_mul(0x9E3779B1) ^ y.wrapping_mul(0x85EBCA6B); Luma([(k >> 13) as u16]) };
        let b: ImageBuffer<Luma<u16>, Vec<u16>> = ImageBuffer::from_fn(w, h, pixel);
        let at = [0u32, 1, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 65999];
        let (x, y) = turn(ch.of(&at), 1);
        let len = ch.of(&[1u32, 2, 255, 257, 1000]).min(66000 - x.max(y));
        let (vw, vh) = turn(len, 2);
        ch.state(hash_of(&(tall, x, y, len)));
        ch.validated();
        let what = format!("{vw}x{vh} at ({x}, {y}) of {w}x{h}");
        let v = b.view(x, y, vw, vh);
        ensure!(v.dimensions() == (vw, vh), "{what}: the view is {:?}", v.dimensions());
        for (i, j, p) in v.pixels() {
            ensure!(p == pixel(x + i, y + j), "{what}: pixel ({i}, {j}) of the view is {p:?}");
        }
        let (dx, dy) = turn(len / 2, 1);
        let (nw, nh) = turn(len - len / 2, 1);
        for (i, j, p) in v.view(dx, dy, nw, nh).pixels() {
            ensure!(p == pixel(x + dx + i, y + dy + j), "{what}: pixel ({i}, {j}) of the nested view is {p:?}");
        }
        let c = imageops::crop_imm(&b, x, y, vw, vh).to_image();
        ensure!(c.enumerate_pixels().all(|(i, j, p)| *p == pixel(x + i, y + j)), "{what}: the crop holds other pixels");
        // writing through a view and copying an image in
        let mut m = b.clone();
        let mut s = m.sub_image(x, y, vw, vh);
        s.put_pixel(vw - 1, vh - 1, Luma([7]));
        ensure!(m.enumerate_pixels().all(|(i, j, p)| *p == if (i, j) == (x + vw - 1, y + vh - 1) { Luma([7]) } else { pixel(i, j) }), "{what}: writing through the view changed other pixels");
        let src = ImageBuffer::from_fn(vw, vh, |i, j| Luma([(i * 31 + j * 17) as u16]));
        let mut m = b.clone();
        ensure!(m.copy_from(&src, x, y).is_ok(), "{what}: refused to copy in");
        let inside = |i: u32, j: u32| i >= x && i < x + vw && j >= y && j < y + vh;
        ensure!(m.enumerate_pixels().all(|(i, j, p)| *p == if inside(i, j) { *src.get_pixel(i - x, j - y) } else { pixel(i, j) }), "{what}: copying in changed other pixels");
        // and copying it elsewhere within the image, near and far
        for to in [0, 1, 256, 65536, 66000 - len] {
            let (tx, ty) = turn(to, 0);
            let mut m = b.clone();
            let fits = to + len <= 66000;
            ensure!(m.copy_within(image::math::Rect { x, y, width: vw, height: vh }, tx, ty) == fits, "{what}: copying within to ({tx}, {ty}) {}", if fits { "is refused" } else { "is accepted" });
            let inside = |i: u32, j: u32| fits && i >= tx && i < tx + vw && j >= ty && j < ty + vh;
            ensure!(m.enumerate_pixels().all(|(i, j, p)| *p == if inside(i, j) { pixel(i - tx + x, j - ty + y) } else { pixel(i, j) }), "{what}: copying within to ({tx}, {ty}) gives other pixels");
        }
        Ok(())
    });
    c.explore("histories", &format!("all histories of {depth} copies, each within any window of at least 4 pixels of a 3x3 or 3x2 image, from any rectangle to any position in it, through a view or the flat view"), |ch| histories(ch, depth));
    c.finish()
}
