//! C13: flat sample layouts address exactly the samples they describe.
//! TECHNIQUE: explicit-choice exhaustive exploration of the real layout code against an unbounded-arithmetic model
//! LEVEL: model_checking
//! NOTE: Every layout over small and extreme extents and strides and every buffer length around the minimum is run through the real predicates, accessors and conversions and compared with a model in 128-bit arithmetic; trusts the model (about 60 lines).
use image::flat::{Error, FlatSamples, NormalForm, SampleLayout};
use image::*;
use mc::*;
use std::collections::HashMap;

const BIG: [usize; 8] = [usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 3 + 1, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX - 3];

/// The address of a sample in unbounded arithmetic.
fn addr(l: &SampleLayout, c: u128, x: u128, y: u128) -> u128 {
    c * l.channel_stride as u128 + x * l.width_stride as u128 + y * l.height_stride as u128
}
fn fitsz(a: u128) -> Option<usize> {
    usize::try_from(a).ok()
}
fn nonempty(l: &SampleLayout) -> bool {
    l.channels > 0 && l.width > 0 && l.height > 0
}
fn model_min_len(l: &SampleLayout) -> Option<usize> {
    if !nonempty(l) {
        return Some(0);
    }
    fitsz(addr(l, l.channels as u128 - 1, l.width as u128 - 1, l.height as u128 - 1) + 1)
        .filter(|_| fitsz(addr(l, l.channels as u128 - 1, l.width as u128 - 1, l.height as u128 - 1)).is_some())
}
/// Exhaustive: two coordinates share an address, or one has no address.
fn model_aliased(l: &SampleLayout) -> bool {
    let mut seen = HashMap::new();
    for y in 0..l.height {
        for x in 0..l.width {
            for c in 0..l.channels {
                let a = addr(l, c as u128, x as u128, y as u128);
                if fitsz(a).is_none() || seen.insert(a, ()).is_some() {
                    return true;
                }
            }
        }
    }
    false
}
/// Strides nest: walking a dimension stays inside one step of the next.
fn nested(l: &SampleLayout) -> bool {
    let mut d = [
        (l.channel_stride as u128, l.channels as u128),
        (l.width_stride as u128, l.width as u128),
        (l.height_stride as u128, l.height as u128),
    ];
    d.sort();
    d.iter().all(|d| d.0 > 0 && d.1 > 0 && fitsz(d.0 * d.1).is_some()) && d[0].0 * d[0].1 <= d[1].0 && d[1].0 * d[1].1 <= d[2].0
}

fn layout_facts(l: &SampleLayout, ch: &mut Ch) -> Res {
    // Addresses, inside the bounds, one step outside in every direction, and far outside.
    for c in [0u8, 1, 2, 3, 4, 5, 255] {
        for x in [0u32, 1, 2, 3, 4, u32::MAX] {
            for y in [0u32, 1, 2, 3, 4, u32::MAX] {
                let inb = c < l.channels && x < l.width && y < l.height;
                ensure_eq!(l.in_bounds(c, x, y), inb, "in_bounds({c},{x},{y})");
                let a = addr(l, c as u128, x as u128, y as u128);
                let want = fitsz(a);
                ensure_eq!(l.index_ignoring_bounds(c as usize, x as usize, y as usize), want, "index_ignoring_bounds({c},{x},{y})");
                ensure_eq!(l.index(c, x, y), want.filter(|_| inb), "index({c},{x},{y})");
                if inb {
                    if let Some(w) = want {
                        ensure_eq!(l.in_bounds_index(c, x, y), w, "in_bounds_index({c},{x},{y})");
                    }
                }
                ch.step();
            }
        }
    }
    let min = model_min_len(l);
    ensure_eq!(l.min_length(), min, "min_length");
    match min {
        Some(m) => {
            ensure!(l.fits(m) && l.fits(usize::MAX), "fits(min_length) is false");
            ensure!(m == 0 || !l.fits(m - 1), "fits(min_length - 1) is true");
        }
        None => ensure!(!l.fits(usize::MAX), "an unaddressable layout fits"),
    }
    ensure_eq!(l.strides_cwh(), (l.channel_stride, l.width_stride, l.height_stride), "strides");
    ensure_eq!(l.extents(), (l.channels as usize, l.width as usize, l.height as usize), "extents");
    ensure_eq!(l.bounds(), (l.channels, l.width, l.height), "bounds");

    let aliased = l.has_aliased_samples();
    if model_aliased(l) {
        ensure!(aliased, "two samples share an address but the layout is reported as unaliased");
    } else if nonempty(l) && nested(l) {
        ensure!(!aliased, "a layout with nested strides is reported as aliased");
    }
    let n = |f| l.is_normal(f);
    use NormalForm::*;
    if !nonempty(l) {
        return Ok(());
    }
    let all: Vec<u128> = (0..l.height)
        .flat_map(|y| (0..l.width).flat_map(move |x| (0..l.channels).map(move |c| (c, x, y))))
        .map(|(c, x, y)| addr(l, c as u128, x as u128, y as u128))
        .collect();
    let total = l.channels as u128 * l.width as u128 * l.height as u128;
    let unal = !model_aliased(l);
    if n(Unaliased) {
        ensure!(unal, "Unaliased form with aliases");
    }
    if n(PixelPacked) {
        ensure!(unal && l.channel_stride == 1, "PixelPacked form without packed pixels");
    }
    if n(ImagePacked) {
        ensure!(unal && all.iter().all(|a| *a < total), "ImagePacked form with holes");
    }
    let row = (0..l.height).all(|y| (0..l.width).all(|x| (0..l.channels).all(|c| addr(l, c as u128, x as u128, y as u128) == ((y as u128 * l.width as u128) + x as u128) * l.channels as u128 + c as u128)));
    let col = (0..l.height).all(|y| (0..l.width).all(|x| (0..l.channels).all(|c| addr(l, c as u128, x as u128, y as u128) == ((x as u128 * l.height as u128) + y as u128) * l.channels as u128 + c as u128)));
    if n(RowMajorPacked) {
        ensure!(row, "RowMajorPacked form of another order");
        ensure!(n(PixelPacked) && n(ImagePacked) && n(Unaliased), "RowMajorPacked does not imply the weaker forms");
    }
    if n(ColumnMajorPacked) {
        ensure!(col, "ColumnMajorPacked form of another order");
        ensure!(n(PixelPacked) && n(ImagePacked) && n(Unaliased), "ColumnMajorPacked does not imply the weaker forms");
    }
    if nested(l) {
        ensure!(n(Unaliased), "nested layout is not Unaliased");
        ensure_eq!(n(PixelPacked), l.channel_stride == 1, "PixelPacked of a nested layout");
    }
    ch.validated();
    Ok(())
}

/// Views over a buffer holding its own index as content.
fn views<P>(l: SampleLayout, len: usize, ch: &mut Ch) -> Res
where
    P: Pixel<Subpixel = u16> + PartialEq + std::fmt::Debug + 'static,
{
    let buf: Vec<u16> = (0..len as u16).map(|i| i * 3 + 1).collect();
    let fs = FlatSamples { samples: buf.clone(), layout: l, color_hint: None };
    let fits = model_min_len(&l).map_or(false, |m| m <= len);
    let chan_ok = l.channels == P::CHANNEL_COUNT;
    let want_pixel = |x: u32, y: u32| -> Vec<u16> { (0..P::CHANNEL_COUNT).map(|c| buf[addr(&l, c as u128, x as u128, y as u128) as usize]).collect() };
    // sample access
    for y in 0..=l.height {
        for x in 0..=l.width {
            for c in 0..=l.channels {
                let want = l.index(c, x, y).and_then(|i| buf.get(i)).copied();
                ensure_eq!(fs.get_sample(c, x, y).copied(), want, "get_sample({c},{x},{y})");
                let mut m = fs.clone();
                ensure_eq!(m.get_mut_sample(c, x, y).copied(), want, "get_mut_sample({c},{x},{y})");
                let got = catch(|| fs[(c, x, y)]);
                ensure_eq!(got.ok(), want, "index operator ({c},{x},{y})");
                if let Some(w) = want {
                    m[(c, x, y)] = 60000;
                    let i = l.index(c, x, y).unwrap();
                    for (k, v) in m.samples.iter().enumerate() {
                        ensure_eq!(*v, if k == i { 60000 } else { buf[k] }, "sample {k} after writing ({c},{x},{y}) = {w}");
                    }
                }
                ch.step();
            }
        }
    }
    match fs.image_slice() {
        Some(s) => ensure!(fits && s == &buf[..model_min_len(&l).unwrap()], "image_slice is wrong"),
        None => ensure!(!fits, "no image_slice of a layout that fits"),
    }
    ensure!(fs.as_slice::<u16>() == &buf[..], "as_slice");
    {
        let mut m = fs.clone();
        ensure!(m.as_mut_slice::<u16>() == &buf[..], "as_mut_slice");
        match (m.image_mut_slice::<u16>().map(|s| s.to_vec()), fits) {
            (Some(s), true) => ensure!(s == buf[..model_min_len(&l).unwrap()], "image_mut_slice is wrong"),
            (None, false) => {}
            (o, _) => return viol("", format!("image_mut_slice: {} for a layout that fits: {fits}", o.is_some())),
        }
    }
    // read-only view
    match fs.as_view::<P>() {
        Ok(v) => {
            ensure!(chan_ok && fits, "as_view accepted channels {} of {} / fits {}", l.channels, P::CHANNEL_COUNT, fits);
            ensure_eq!(v.dimensions(), (l.width, l.height), "view dimensions");
            ensure_eq!(v.min_length(), model_min_len(&l).unwrap(), "view min_length");
            for y in 0..=l.height {
                for x in 0..=l.width {
                    let inb = x < l.width && y < l.height;
                    match catch(|| v.get_pixel(x, y)) {
                        Ok(p) => {
                            ensure!(inb, "get_pixel({x},{y}) outside the view returned {p:?}");
                            ensure_eq!(p.channels().to_vec(), want_pixel(x, y), "view pixel ({x},{y})");
                        }
                        Err(e) => ensure!(!inb, "get_pixel({x},{y}) inside the view: {e}"),
                    }
                    for c in 0..=l.channels {
                        let want = if inb && c < l.channels { Some(buf[addr(&l, c as u128, x as u128, y as u128) as usize]) } else { None };
                        ensure_eq!(v.get_sample(c, x, y).copied(), want, "view sample");
                        let mut fm = fs.clone();
                        let mut vm = fm.as_view_with_mut_samples::<P>().ok().unwrap();
                        ensure_eq!(vm.get_mut_sample(c, x, y).copied(), want, "view sample, to write");
                        if let Some(s) = vm.get_mut_sample(c, x, y) {
                            *s = 50000;
                            let i = l.index(c, x, y).unwrap();
                            ensure!(vm.samples().iter().enumerate().all(|(k, v)| *v == if k == i { 50000 } else { buf[k] }), "samples after writing ({c},{x},{y}) of a view");
                        }
                    }
                    ch.step();
                }
            }
            let px: Vec<_> = v.pixels().map(|(x, y, p)| (x, y, p.channels().to_vec())).collect();
            let want: Vec<_> = (0..l.height).flat_map(|y| (0..l.width).map(move |x| (x, y))).map(|(x, y)| (x, y, want_pixel(x, y))).collect();
            ensure_eq!(px, want, "view pixels()");
            // shrinking keeps the addresses
            for (sw, sh) in [(0u32, 0u32), (1, 1), (l.width, 1), (1, l.height), (u32::MAX, u32::MAX), (l.width.saturating_sub(1), l.height.saturating_sub(1))] {
                let mut v2 = fs.as_view::<P>().ok().unwrap();
                v2.shrink_to(sw, sh);
                ensure_eq!(v2.dimensions(), (l.width.min(sw), l.height.min(sh)), "shrunk dimensions");
                for y in 0..v2.dimensions().1 {
                    for x in 0..v2.dimensions().0 {
                        ensure_eq!(v2.get_pixel(x, y).channels().to_vec(), want_pixel(x, y), "shrunk view pixel");
                    }
                }
                ensure!(v2.image_slice().len() == v2.min_length(), "image slice length");
                ch.step();
            }
        }
        Err(e) => {
            ensure!(!(chan_ok && fits), "as_view refused a valid layout: {e:?}");
            match e {
                Error::ChannelCountMismatch(a, b) => ensure!(!chan_ok && a == l.channels && b == P::CHANNEL_COUNT, "wrong mismatch"),
                Error::TooLarge => ensure!(!fits, "TooLarge but it fits"),
                e => return Err(format!("as_view: unexpected error {e:?}").into()),
            }
        }
    }
    // mutable view
    let packed = l.is_normal(NormalForm::PixelPacked);
    let mut fm = fs.clone();
    let upgraded = fm.as_view_with_mut_samples::<P>().ok().map(|v| v.try_upgrade().is_ok());
    if let Some(u) = upgraded {
        ensure_eq!(u, packed, "try_upgrade");
    }
    if let Ok(mut v) = fm.as_view_with_mut_samples::<P>() {
        let n = model_min_len(&l).unwrap();
        ensure!(v.image_mut_slice() == &buf[..n] && v.image_slice() == &buf[..n], "image slices of a view with mutable samples");
        ensure!(v.samples().to_vec() == buf && v.min_length() == n, "samples of a view with mutable samples");
    }
    if let Ok(mut v) = fm.as_view_mut::<P>() {
        let n = model_min_len(&l).unwrap();
        ensure!(v.image_mut_slice() == &buf[..n] && v.image_slice() == &buf[..n], "image slices of a mutable view");
        ensure!(v.samples().to_vec() == buf && v.min_length() == n, "samples of a mutable view");
    }
    match fm.as_view_mut::<P>() {
        Ok(mut v) => {
            ensure!(chan_ok && fits, "as_view_mut accepted an invalid layout");
            ensure!(packed, "as_view_mut without packed pixels");
            ensure!(!model_aliased(&l), "as_view_mut of a layout whose pixels alias");
            ensure_eq!(v.dimensions(), (l.width, l.height), "mut view dimensions");
            let mut model = buf.clone();
            let mut k = 0u16;
            for y in 0..=l.height {
                for x in 0..=l.width {
                    let inb = x < l.width && y < l.height;
                    for c in 0..=l.channels {
                        let want = if inb && c < l.channels { Some(buf[addr(&l, c as u128, x as u128, y as u128) as usize]) } else { None };
                        ensure_eq!(v.get_sample(c, x, y).copied(), want, "mutable view sample ({c},{x},{y})");
                        ensure_eq!(v.get_mut_sample(c, x, y).copied(), want, "mutable view sample ({c},{x},{y}), to write");
                    }
                    #[allow(deprecated)]
                    if inb {
                        // blending is that of the pixel type
                        let old = v.get_pixel(x, y);
                        let (mut want, by) = (old, old.map(|s| s.wrapping_mul(7) | 0x4000));
                        want.blend(&by);
                        v.blend_pixel(x, y, by);
                        ensure!(v.get_pixel(x, y) == want, "blend_pixel({x},{y}) of a mutable view");
                        v.put_pixel(x, y, old);
                    } else {
                        let p = *P::from_slice(&[1, 2, 3, 4][..P::CHANNEL_COUNT as usize]);
                        ensure!(catch(|| v.blend_pixel(x, y, p)).is_err() && catch(|| v.get_pixel(x, y)).is_err(), "a pixel outside a mutable view was accessed");
                    }
                }
            }
            ensure!(v.samples().to_vec() == buf, "the buffer after reading it through a mutable view");
            for y in 0..=l.height {
                for x in 0..=l.width {
                    k += 1;
                    let chans: Vec<u16> = (0..P::CHANNEL_COUNT as u16).map(|c| 40000 + k * 8 + c).collect();
                    let inb = x < l.width && y < l.height;
                    match catch(|| v.put_pixel(x, y, *P::from_slice(&chans))) {
                        Ok(()) => {
                            ensure!(inb, "put_pixel outside the view");
                            for c in 0..P::CHANNEL_COUNT {
                                model[addr(&l, c as u128, x as u128, y as u128) as usize] = chans[c as usize];
                            }
                            ensure_eq!(v.get_pixel(x, y).channels().to_vec(), chans, "read back");
                        }
                        Err(e) => ensure!(!inb, "put_pixel inside the view: {e}"),
                    }
                    ch.step();
                }
            }
            drop(v);
            ensure_eq!(fm.samples, model, "buffer after writing every pixel once");
            for (sw, sh) in [(0u32, 0u32), (1, 1), (l.width, 1), (1, u32::MAX), (u32::MAX, u32::MAX), (l.width.saturating_sub(1), l.height.saturating_sub(1))] {
                let mut f2 = fs.clone();
                let mut v2 = f2.as_view_mut::<P>().ok().unwrap();
                v2.shrink_to(sw, sh);
                let d = (l.width.min(sw), l.height.min(sh));
                ensure_eq!(v2.dimensions(), d, "shrunk dimensions of a mutable view");
                for y in 0..d.1 {
                    for x in 0..d.0 {
                        ensure_eq!(v2.get_pixel(x, y).channels().to_vec(), want_pixel(x, y), "pixel of a shrunk mutable view");
                    }
                }
                ensure!(catch(|| v2.get_pixel(d.0, 0)).is_err() && catch(|| v2.get_pixel(0, d.1)).is_err() && v2.get_mut_sample(0, d.0, 0).is_none() && v2.get_sample(0, 0, d.1).is_none(), "a shrunk mutable view shows more");
                ensure!(v2.image_slice().len() == v2.min_length() && v2.image_mut_slice().len() == v2.min_length(), "slices of a shrunk mutable view");
            }
        }
        Err(e) => {
            ensure!(!(chan_ok && fits && packed), "as_view_mut refused a valid layout: {e:?}");
        }
    }
    // conversion
    let rowm = l.is_normal(NormalForm::RowMajorPacked);
    match fs.clone().try_into_buffer::<P>() {
        Ok(b) => {
            ensure!(rowm && chan_ok && fits, "try_into_buffer accepted an invalid layout");
            ensure_eq!(b.dimensions(), (l.width, l.height), "buffer dimensions");
            for (x, y, p) in b.enumerate_pixels() {
                ensure_eq!(p.channels().to_vec(), want_pixel(x, y), "buffer pixel ({x},{y})");
            }
        }
        Err((_, back)) => {
            ensure!(!(rowm && chan_ok && fits), "try_into_buffer refused a valid layout");
            ensure_eq!(back.samples, buf, "buffer handed back");
        }
    }
    ch.outcome(hash_of(&(chan_ok, fits, packed, rowm, model_aliased(&l))));
    ch.validated();
    Ok(())
}

fn main() {
    let mut c = Check::start(
        "C13",
        "model_checking",
        "One execution is one sample layout (and, in the second part, one buffer length and pixel type): every address, normal form, view and write of it is compared with unbounded-integer addressing; it is non-trivial when the layout has samples.",
    );
    let strides: Vec<usize> = if c.quick { vec![0, 1, 2, 3, 4, 6, 9, 12, 16, BIG[0], BIG[1], BIG[2], BIG[4]] } else { [vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 27, 36, 48, 64], BIG.to_vec()].concat() };
    let ext: Vec<u32> = vec![0, 1, 2, 3, 4];
    let chans: Vec<u8> = vec![0, 1, 2, 3, 4, 5];
    c.explore("layouts", "all layouts with channels 0..5, extents 0..4 and strides from a fixed set including overflowing ones", |ch| {
        let channels = ch.of(&chans);
        let width = ch.of(&ext);
        let height = ch.of(&ext);
        let (cs, ws) = (ch.of(&strides), ch.of(&strides));
        for hs in &strides {
            let l = SampleLayout { channels, channel_stride: cs, width, width_stride: ws, height, height_stride: *hs };
            ch.sample(|| format!("{l:?}"));
            layout_facts(&l, ch).map_err(|v| Viol { key: v.key, msg: format!("{l:?}: {}", v.msg) })?;
            ch.state(hash_of(&l));
        }
        Ok(())
    });
    let vs: Vec<usize> = if c.quick { vec![0, 1, 2, 3, 4, 6, 8, 12, BIG[0], BIG[4]] } else { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, BIG[0], BIG[1], BIG[4], BIG[6]] };
    let vext: Vec<u32> = if c.quick { vec![0, 1, 2, 3] } else { vec![0, 1, 2, 3, 4] };
    c.explore("views", "all layouts with channels 1..4 (and one mismatch), extents 0..3, small and overflowing strides, buffers one short, exact, one long", |ch| {
        let pc = 1 + ch.pick(4) as u8;
        let channels = if ch.flag() { pc % 4 + 1 } else { pc };
        let width = ch.of(&vext);
        let height = ch.of(&vext);
        let cs = ch.of(&vs);
        let ws = ch.of(&vs);
        for hs in &vs {
            let l = SampleLayout { channels, channel_stride: cs, width, width_stride: ws, height, height_stride: *hs };
            let min = model_min_len(&l).unwrap_or(usize::MAX);
            let lens: Vec<usize> = if min > 4096 { vec![0, 7] } else { vec![min.saturating_sub(1), min, min + 1, min + 5] };
            for len in lens {
                ch.sample(|| format!("{l:?} over {len} samples as {pc}-channel pixels"));
                let r = match pc {
                    1 => views::<Luma<u16>>(l, len, ch),
                    2 => views::<LumaA<u16>>(l, len, ch),
                    3 => views::<Rgb<u16>>(l, len, ch),
                    _ => views::<Rgba<u16>>(l, len, ch),
                };
                r.map_err(|v| Viol { key: v.key, msg: format!("{l:?} len {len} as {pc} channels: {}", v.msg) })?;
                ch.state(hash_of(&(l, len, pc)));
            }
        }
        Ok(())
    });
    c.explore("canonical", "row/column-major constructors and the layouts of image buffers, extents 0..7, channels 0..5 / 1..4", |ch| {
        let (w, h) = (ch.pick(8) as u32, ch.pick(8) as u32);
        for n in 0..=5u8 {
            let r = SampleLayout::row_major_packed(n, w, h);
            let k = SampleLayout::column_major_packed(n, w, h);
            ensure_eq!((r.channels, r.width, r.height), (n, w, h), "row major extents");
            ensure_eq!((k.channels, k.width, k.height), (n, w, h), "column major extents");
            ensure!(r.is_normal(NormalForm::RowMajorPacked), "row_major_packed({n},{w},{h}) is not in RowMajorPacked form");
            ensure!(k.is_normal(NormalForm::ColumnMajorPacked), "column_major_packed({n},{w},{h}) is not in ColumnMajorPacked form");
            for y in 0..h {
                for x in 0..w {
                    for c in 0..n {
                        ensure_eq!(r.index(c, x, y), Some(((y * w + x) * n as u32 + c as u32) as usize), "row major index");
                        ensure_eq!(k.index(c, x, y), Some(((x * h + y) * n as u32 + c as u32) as usize), "column major index");
                    }
                }
            }
            ensure_eq!(r.min_length(), Some(n as usize * w as usize * h as usize), "row major min_length");
            ensure_eq!(k.min_length(), Some(n as usize * w as usize * h as usize), "column major min_length");
            ch.state(hash_of(&(r, k)));
        }
        fn roundtrip<P: Pixel<Subpixel = u16> + PartialEq + std::fmt::Debug + 'static>(w: u32, h: u32, extra: usize) -> Res {
            let n = P::CHANNEL_COUNT as usize * (w * h) as usize;
            let data: Vec<u16> = (0..(n + extra) as u16).collect();
            let mut b: ImageBuffer<P, Vec<u16>> = ImageBuffer::from_raw(w, h, data.clone()).ok_or("from_raw")?;
            ensure!(b.sample_layout() == SampleLayout::row_major_packed(P::CHANNEL_COUNT, w, h), "sample_layout");
            {
                let f = b.as_flat_samples();
                let v = f.as_view::<P>().map_err(|e| Viol::from(format!("as_view of a {w}x{h} buffer: {e:?}")))?;
                ensure_eq!(v.dimensions(), (w, h), "dimensions");
                for y in 0..h {
                    for x in 0..w {
                        ensure_eq!(v.get_pixel(x, y), *b.get_pixel(x, y), "pixel");
                    }
                }
            }
            {
                let mut f = b.as_flat_samples_mut();
                let v = f.as_view_mut::<P>().map_err(|e| Viol::from(format!("as_view_mut of a {w}x{h} buffer: {e:?}")))?;
                ensure_eq!(v.dimensions(), (w, h), "dimensions");
            }
            let f = b.clone().into_flat_samples();
            let back = f.try_into_buffer::<P>().map_err(|e| Viol::from(format!("try_into_buffer of a {w}x{h} buffer: {:?}", e.0)))?;
            ensure!(back.dimensions() == (w, h) && back.into_raw() == data, "round trip through flat samples");
            Ok(())
        }
        for extra in [0, 1, 5] {
            roundtrip::<Luma<u16>>(w, h, extra)?;
            roundtrip::<LumaA<u16>>(w, h, extra)?;
            roundtrip::<Rgb<u16>>(w, h, extra)?;
            roundtrip::<Rgba<u16>>(w, h, extra)?;
            ch.step();
        }
        // one pixel repeated
        let p = Rgb([7u16, 8, 9]);
        let f = FlatSamples::with_monocolor(&p, w, h);
        let v = f.as_view::<Rgb<u16>>().map_err(|e| Viol::from(format!("monocolor {w}x{h}: {e:?}")))?;
        ensure_eq!(v.dimensions(), (w, h), "monocolor dimensions");
        ensure_eq!(v.pixels().filter(|q| q.2 == p).count(), (w * h) as usize, "monocolor pixels");
        ensure!(w * h <= 1 || f.has_aliased_samples(), "the {w}x{h} single-pixel raster is reported as unaliased");
        ch.sample(|| format!("{w}x{h}"));
        ch.validated();
        Ok(())
    });
    c.finish()
}
