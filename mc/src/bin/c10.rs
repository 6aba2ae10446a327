//! C10: pixel buffers behave as a matrix of pixels.
//! TECHNIQUE: explicit-state exploration of operation sequences on the real ImageBuffer, in lockstep with a matrix / deque model
//! LEVEL: model_checking
//! NOTE: Every construction (small and extreme dimensions, all container lengths around the needed one, three container kinds), every operation sequence up to the depth, and every interleaving of iterator calls from both ends on all small images; the bounds are the sizes and depths stated per part.
use image::*;
use mc::*;
use std::collections::VecDeque;
use std::fmt::Debug;

trait Px: Pixel<Subpixel = Self::S> + Send + Sync + 'static + PartialEq + Debug {
    type S: Primitive + Send + Sync + 'static;
    fn name() -> &'static str;
    fn sample(v: u32) -> Self::S;
    /// A pixel whose samples all carry the number.
    fn tag(v: u32) -> Self {
        let n = Self::CHANNEL_COUNT as u32;
        let s: Vec<Self::S> = (0..n).map(|c| Self::sample((v * 7 + c * 61 + 1) % 251)).collect();
        *Self::from_slice(&s)
    }
}
macro_rules! px {
    ($($t:ty, $s:ty, $n:literal, $f:expr;)*) => {$(
        impl Px for $t {
            type S = $s;
            fn name() -> &'static str { $n }
            fn sample(v: u32) -> $s { let f: fn(u32) -> $s = $f; f(v) }
        }
    )*};
}
px! {
    Luma<u8>, u8, "L8", |v| v as u8;
    LumaA<u8>, u8, "La8", |v| v as u8;
    Rgb<u8>, u8, "Rgb8", |v| v as u8;
    Rgba<u8>, u8, "Rgba8", |v| v as u8;
    LumaA<u16>, u16, "La16", |v| v as u16 * 257;
    Rgb<f32>, f32, "Rgb32F", |v| v as f32 / 256.0;
    Rgba<f64>, f64, "Rgba64F", |v| v as f64 / 256.0;
    Luma<i32>, i32, "LI32", |v| v as i32 - 100;
}
macro_rules! each {
    ($ch:expr, $f:ident) => {
        match $ch.pick(8) {
            0 => $f::<Luma<u8>>($ch),
            1 => $f::<LumaA<u8>>($ch),
            2 => $f::<Rgb<u8>>($ch),
            3 => $f::<Rgba<u8>>($ch),
            4 => $f::<LumaA<u16>>($ch),
            5 => $f::<Rgb<f32>>($ch),
            6 => $f::<Rgba<f64>>($ch),
            _ => $f::<Luma<i32>>($ch),
        }
    };
}

/// Whether the call panics (as documented for coordinates outside), judged by unwinding.
fn panics<T>(f: impl FnOnce() -> T) -> bool {
    catch(f).is_err()
}

/// Everything readable about the image equals the matrix `m` of size w x h.
fn same<P: Px, C: std::ops::Deref<Target = [P::S]>>(b: &ImageBuffer<P, C>, w: u32, h: u32, m: &[P], coords: &[u32]) -> Res {
    ensure!(b.dimensions() == (w, h) && (b.width(), b.height()) == (w, h), "{} dimensions {:?} for {w}x{h}", P::name(), b.dimensions());
    ensure!(GenericImageView::dimensions(b) == (w, h), "GenericImageView::dimensions");
    for &x in coords {
        for &y in coords {
            let inside = x < w && y < h;
            ensure!(b.in_bounds(x, y) == inside, "{} {w}x{h}: in_bounds({x},{y}) is {}", P::name(), !inside);
            let got = b.get_pixel_checked(x, y);
            if inside {
                let want = &m[(y * w + x) as usize];
                ensure!(got == Some(want), "{} {w}x{h}: get_pixel_checked({x},{y}) = {got:?}, expected {want:?}", P::name());
                ensure!(b.get_pixel(x, y) == want && &b[(x, y)] == want, "{} {w}x{h}: get_pixel({x},{y})", P::name());
                ensure!(GenericImageView::get_pixel(b, x, y) == *want, "{} {w}x{h}: GenericImageView::get_pixel({x},{y})", P::name());
                ensure!(unsafe { b.unsafe_get_pixel(x, y) } == *want, "{} {w}x{h}: unsafe_get_pixel({x},{y})", P::name());
            } else {
                need!(got.is_none(), "checked-outside", "{} {w}x{h} over {} samples: get_pixel_checked({x},{y}) = {got:?} although outside", P::name(), b.as_raw().len());
                ensure!(panics(|| *b.get_pixel(x, y)), "{} {w}x{h}: get_pixel({x},{y}) outside did not panic", P::name());
                ensure!(panics(|| b[(x, y)]), "{} {w}x{h}: index ({x},{y}) outside did not panic", P::name());
                ensure!(panics(|| GenericImageView::get_pixel(b, x, y)), "{} {w}x{h}: GenericImageView::get_pixel({x},{y}) outside did not panic", P::name());
            }
        }
    }
    let n = if w == 0 || h == 0 { 0 } else { w as usize * h as usize };
    ensure!(b.pixels().len() == n && b.pixels().eq(m.iter()), "{} {w}x{h}: pixels()", P::name());
    ensure!(b.enumerate_pixels().len() == n, "{} {w}x{h}: enumerate_pixels().len()", P::name());
    for (i, (x, y, p)) in b.enumerate_pixels().enumerate() {
        ensure!((x, y) == (i as u32 % w, i as u32 / w) && *p == m[i], "{} {w}x{h}: enumerate_pixels item {i} is {:?}", P::name(), (x, y, p));
    }
    let g: Vec<(u32, u32, P)> = GenericImageView::pixels(b).collect();
    let want: Vec<(u32, u32, P)> = (0..n).map(|i| (i as u32 % w, i as u32 / w, m[i])).collect();
    ensure!(g == want, "{} {w}x{h}: GenericImageView::pixels() = {g:?}", P::name());
    let mut k = 0;
    for row in b.rows() {
        ensure!(row.len() == w as usize, "{} {w}x{h}: a row of {} pixels", P::name(), row.len());
        for p in row {
            ensure!(*p == m[k], "{} {w}x{h}: row pixel {k}", P::name());
            k += 1;
        }
    }
    ensure!(k == n && b.rows().len() == if w == 0 { 0 } else { h as usize }, "{} {w}x{h}: rows() gave {k} pixels, len {}", P::name(), b.rows().len());
    let f = b.sample_layout();
    ensure!((f.channels, f.width, f.height) == (P::CHANNEL_COUNT, w, h), "{} {w}x{h}: sample_layout {f:?}", P::name());
    Ok(())
}

fn construct<P: Px>(ch: &mut Ch) -> Res {
    const D: [u32; 9] = [0, 1, 2, 3, 5, 1 << 16, 1 << 31, u32::MAX - 1, u32::MAX];
    let w = ch.of(&D);
    let h = ch.of(&D);
    let n = P::CHANNEL_COUNT as u128;
    let need = w as u128 * h as u128 * n;
    let lens: Vec<usize> = if need < 1000 {
        let mut l: Vec<usize> = (need.saturating_sub(2 * n) as usize..=(need + 2 * n + 1) as usize).collect();
        l.push((need * 2) as usize);
        l.push(0);
        l
    } else {
        vec![0, 1, n as usize, 64, ((need as u64) as usize) % 97, (need as u64 as u32) as usize % 4096]
    };
    let len = ch.of(&lens);
    let data: Vec<P::S> = (0..len as u32).map(|i| P::sample((i * 13 + 5) % 251)).collect();
    let fits = need <= len as u128;
    let coords = [0, 1, 2, 3, 4, 5, 6, 65535, 1 << 31, u32::MAX];
    ch.step();
    ch.state(hash_of(&(P::name(), w, h, len)));
    ch.outcome(fits as u64);
    let m: Vec<P> = if fits { data.chunks(n as usize).take(need as usize / n as usize).map(|c| *P::from_slice(c)).collect() } else { vec![] };
    let mut d2 = data.clone();
    let a = ImageBuffer::<P, Vec<P::S>>::from_raw(w, h, data.clone());
    ensure!(a.is_some() == fits, "{} {w}x{h}: from_raw over {len} samples gave {}", P::name(), a.is_some());
    ensure!(ImageBuffer::<P, Vec<P::S>>::from_vec(w, h, data.clone()).is_some() == fits, "{} {w}x{h}: from_vec over {len}", P::name());
    let s = ImageBuffer::<P, &[P::S]>::from_raw(w, h, &data[..]);
    let z = ImageBuffer::<P, &mut [P::S]>::from_raw(w, h, &mut d2[..]);
    ensure!(s.is_some() == fits && z.is_some() == fits, "{} {w}x{h}: from_raw over a slice of {len}", P::name());
    let (Some(mut a), Some(s), Some(z)) = (a, s, z) else { return Ok(()) };
    same(&a, w, h, &m, &coords)?;
    same(&s, w, h, &m, &coords)?;
    same(&z, w, h, &m, &coords)?;
    ensure!(a.as_raw().len() == len && a.as_raw()[..] == data[..], "as_raw");
    same(&a.clone(), w, h, &m, &coords)?;
    let mut other = ImageBuffer::<P, Vec<P::S>>::new(2, 1);
    other.clone_from(&a);
    same(&other, w, h, &m, &coords)?;
    // Writing everywhere through the mutable interfaces stays inside the image.
    for &x in &coords {
        for &y in &coords {
            let inside = x < w && y < h;
            need!(a.get_pixel_mut_checked(x, y).is_some() == inside, "checked-outside", "{} {w}x{h} over {len}: get_pixel_mut_checked({x},{y})", P::name());
            if !inside {
                ensure!(panics(|| a.put_pixel(x, y, P::tag(1))), "{} {w}x{h}: put_pixel({x},{y}) outside did not panic", P::name());
                ensure!(panics(|| GenericImage::put_pixel(&mut a, x, y, P::tag(1))), "put_pixel outside did not panic");
                ensure!(panics(|| *a.get_pixel_mut(x, y) = P::tag(1)), "get_pixel_mut outside did not panic");
                ensure!(panics(|| a[(x, y)] = P::tag(1)), "index_mut outside did not panic");
            }
        }
    }
    for p in a.pixels_mut() {
        *p = P::tag(9);
    }
    for r in a.rows_mut() {
        for p in r {
            *p = P::tag(10);
        }
    }
    for (_, r) in a.enumerate_rows_mut() {
        for (_, _, p) in r {
            *p = P::tag(11);
        }
    }
    ensure!(a.as_raw()[need as usize..] == data[need as usize..], "{} {w}x{h}: a write reached beyond the image", P::name());
    same(&a, w, h, &vec![P::tag(11); m.len()], &coords)?;
    ensure!(a.into_raw().len() == len, "into_raw");
    ch.validated();
    Ok(())
}

fn makers<P: Px>(ch: &mut Ch) -> Res {
    let w = ch.range(0, 5) as u32;
    let h = ch.range(0, 5) as u32;
    let coords = [0, 1, 2, 3, 4, 5, 6];
    let n = (w * h) as usize;
    let zero = vec![<P::S as num_zero::Z>::z(); P::CHANNEL_COUNT as usize];
    same(&ImageBuffer::<P, Vec<P::S>>::new(w, h), w, h, &vec![*P::from_slice(&zero); n], &coords)?;
    same(&ImageBuffer::<P, _>::from_pixel(w, h, P::tag(3)), w, h, &vec![P::tag(3); n], &coords)?;
    let mut calls = vec![];
    let b = ImageBuffer::<P, _>::from_fn(w, h, |x, y| {
        calls.push((x, y));
        P::tag(x * 16 + y)
    });
    let order: Vec<(u32, u32)> = (0..n as u32).map(|i| (i % w, i / w)).collect();
    ensure!({ calls.sort(); let mut o = order.clone(); o.sort(); calls == o }, "{} {w}x{h}: from_fn called at {calls:?}", P::name());
    same(&b, w, h, &order.iter().map(|(x, y)| P::tag(x * 16 + y)).collect::<Vec<_>>(), &coords)?;
    same(&ImageBuffer::<P, Vec<P::S>>::default(), 0, 0, &[], &coords)?;
    ensure!(b.clone() == b, "clone differs");
    ch.step();
    ch.validated();
    ch.state(hash_of(&(P::name(), w, h)));
    Ok(())
}
mod num_zero {
    pub trait Z {
        fn z() -> Self;
    }
    impl<T: image::Primitive> Z for T {
        fn z() -> Self {
            num_traits_zero()
        }
    }
    fn num_traits_zero<T: image::Primitive>() -> T {
        // Primitive is a NumCast: zero without naming num_traits.
        T::DEFAULT_MIN_VALUE - T::DEFAULT_MIN_VALUE
    }
}

fn ops<P: Px>(ch: &mut Ch) -> Res {
    let (w, h) = ch.of(&[(1u32, 1u32), (2, 1), (1, 2), (2, 2), (3, 2), (0, 2), (2, 0)]);
    let extra = ch.of(&[0usize, 1, 2 * P::CHANNEL_COUNT as usize]);
    let need = (w * h) as usize * P::CHANNEL_COUNT as usize;
    let mut b = ImageBuffer::<P, Vec<P::S>>::from_raw(w, h, vec![P::sample(0); need + extra]).unwrap();
    let z = *P::from_slice(&vec![P::sample(0); P::CHANNEL_COUNT as usize]);
    let mut m = vec![z; (w * h) as usize];
    let depth = if ch.quick { 2 } else { 3 };
    let coords: Vec<u32> = (0..=w.max(h)).collect();
    for k in 0..depth {
        let x = ch.range(0, w as i64) as u32;
        let y = ch.range(0, h as i64) as u32;
        let v = P::tag(k as u32 + 1 + x * 4 + y * 16);
        let inside = x < w && y < h;
        let op = ch.pick(7);
        let done = match op {
            0 => !panics(|| b.put_pixel(x, y, v)),
            1 => !panics(|| *b.get_pixel_mut(x, y) = v),
            2 => !panics(|| b[(x, y)] = v),
            3 => !panics(|| GenericImage::put_pixel(&mut b, x, y, v)),
            4 => b.get_pixel_mut_checked(x, y).map(|p| *p = v).is_some(),
            5 if inside => {
                unsafe { b.unsafe_put_pixel(x, y, v) };
                true
            }
            5 => false,
            _ => {
                let mut hit = false;
                for (px, py, p) in b.enumerate_pixels_mut() {
                    if (px, py) == (x, y) {
                        *p = v;
                        hit = true;
                    }
                }
                hit
            }
        };
        need!(done == inside, if op == 4 { "checked-outside" } else { "" }, "{} {w}x{h}+{extra}: write {op} at ({x},{y}) accepted: {done}", P::name());
        if inside {
            m[(y * w + x) as usize] = v;
        }
        ch.step();
        same(&b, w, h, &m, &coords)?;
        ensure!(b.as_raw()[need..].iter().all(|s| *s == P::sample(0)), "{} {w}x{h}: write {op} at ({x},{y}) reached beyond the image", P::name());
        ch.state(hash_of(&(P::name(), w, h, extra, format!("{m:?}"))));
    }
    ch.validated();
    Ok(())
}

/// Forward-only driver.
fn drive<I: ExactSizeIterator, T: PartialEq + Debug>(ch: &mut Ch, what: &str, mut it: I, want: Vec<T>, key: impl Fn(&I::Item) -> T) -> Result<Vec<I::Item>, Viol> {
    let mut m: VecDeque<T> = want.into();
    let mut out = vec![];
    let mut past = 0;
    while past < 2 {
        if it.len() != m.len() || it.size_hint() != (m.len(), Some(m.len())) {
            viol("", format!("{what}: len {} size_hint {:?}, {} remain", it.len(), it.size_hint(), m.len()))?;
        }
        let skip = ch.pick(3);
        let got = if skip == 0 { it.next() } else { it.nth(skip - 1 + (skip > 1) as usize) };
        for _ in 0..[0, 0, 2][skip] {
            m.pop_front();
        }
        let w = m.pop_front();
        let g = got.as_ref().map(&key);
        if g != w {
            viol("", format!("{what}: action {skip} yielded {g:?}, expected {w:?}"))?;
        }
        ch.step();
        ch.state(hash_of(&(what, m.len(), past)));
        match got {
            Some(x) => out.push(x),
            None => past += 1,
        }
    }
    Ok(out)
}
/// Driver for iterators that can be consumed from both ends.
fn drive2<I: ExactSizeIterator + DoubleEndedIterator, T: PartialEq + Debug>(ch: &mut Ch, what: &str, mut it: I, want: Vec<T>, key: impl Fn(&I::Item) -> T) -> Result<Vec<I::Item>, Viol> {
    let mut m: VecDeque<T> = want.into();
    let mut out = vec![];
    let mut past = 0;
    while past < 1 {
        if it.len() != m.len() || it.size_hint() != (m.len(), Some(m.len())) {
            viol("", format!("{what}: len {} size_hint {:?}, {} remain", it.len(), it.size_hint(), m.len()))?;
        }
        let a = ch.pick(4);
        let (got, w) = match a {
            0 => (it.next(), m.pop_front()),
            1 => (it.next_back(), m.pop_back()),
            2 => (it.nth(1), {
                m.pop_front();
                m.pop_front()
            }),
            _ => (it.nth_back(1), {
                m.pop_back();
                m.pop_back()
            }),
        };
        let g = got.as_ref().map(&key);
        if g != w {
            viol("", format!("{what}: action {a} yielded {g:?}, expected {w:?}"))?;
        }
        ch.step();
        ch.state(hash_of(&(what, a, m.len(), format!("{:?}", m.front()))));
        match got {
            Some(x) => out.push(x),
            None => past += 1,
        }
    }
    // Exhausted: stays exhausted from both ends.
    if m.is_empty() && (it.next().is_some() || it.next_back().is_some() || it.len() != 0) {
        viol("", format!("{what}: yields again after its end"))?;
    }
    Ok(out)
}
fn addr<P>(p: &P) -> usize {
    p as *const P as usize
}

fn iterators<P: Px>(ch: &mut Ch) -> Res {
    let max = if ch.quick { 3 } else { 4 };
    let w = ch.range(0, max) as u32;
    let h = ch.range(0, if w > 2 { 2 } else { 3 }) as u32;
    let extra = ch.of(&[0usize, 1]);
    let c = P::CHANNEL_COUNT as usize;
    let need = (w * h) as usize * c;
    let mut b = ImageBuffer::<P, Vec<P::S>>::from_raw(w, h, vec![P::sample(0); need + extra]).unwrap();
    let base = b.as_raw().as_ptr() as usize;
    let size = std::mem::size_of::<P::S>() * c;
    let at = |x: u32, y: u32| base + (y * w + x) as usize * size;
    let order: Vec<(u32, u32)> = (0..w * h).map(|i| (i % w, i / w)).collect();
    let addrs: Vec<usize> = order.iter().map(|(x, y)| at(*x, *y)).collect();
    let enumerated: Vec<(u32, u32, usize)> = order.iter().map(|(x, y)| (*x, *y, at(*x, *y))).collect();
    let rows: Vec<Vec<usize>> = if w == 0 { vec![] } else { (0..h).map(|y| (0..w).map(|x| at(x, y)).collect()).collect() };
    let erows: Vec<(u32, Vec<(u32, u32, usize)>)> = if w == 0 { vec![] } else { (0..h).map(|y| (y, (0..w).map(|x| (x, y, at(x, y))).collect())).collect() };
    let kind = ch.pick(12);
    let what = format!("{} {w}x{h}+{extra} iterator {kind}", P::name());
    let mut written: Vec<usize> = vec![];
    match kind {
        0 => drop(drive2(ch, &what, b.pixels(), addrs, |p| addr(*p))?),
        1 => {
            // All yielded references are alive together.
            for p in drive2(ch, &what, b.pixels_mut(), addrs, |p| addr(&**p))? {
                written.push(addr(p));
                *p = P::tag(77);
            }
        }
        2 => drop(drive(ch, &what, b.enumerate_pixels(), enumerated, |(x, y, p)| (*x, *y, addr(*p)))?),
        3 => {
            for (_, _, p) in drive(ch, &what, b.enumerate_pixels_mut(), enumerated, |(x, y, p)| (*x, *y, addr(&**p)))? {
                written.push(addr(p));
                *p = P::tag(77);
            }
        }
        4 => drop(drive2(ch, &what, b.rows(), rows, |r| r.clone().map(addr).collect::<Vec<_>>())?),
        5 => {
            let firsts: Vec<usize> = rows.iter().map(|r| r.len()).collect();
            for r in drive2(ch, &what, b.rows_mut(), firsts, |r| r.len())? {
                for p in r {
                    written.push(addr(p));
                    *p = P::tag(77);
                }
            }
        }
        6 => drop(drive(ch, &what, b.enumerate_rows(), erows, |(y, r)| (*y, r.clone().map(|(x, y, p)| (x, y, addr(p))).collect::<Vec<_>>()))?),
        7 => {
            let ys: Vec<(u32, usize)> = erows.iter().map(|r| (r.0, r.1.len())).collect();
            for (y, r) in drive(ch, &what, b.enumerate_rows_mut(), ys, |(y, r)| (*y, r.len()))? {
                for (i, (x, yy, p)) in r.enumerate() {
                    ensure!((x, yy) == (i as u32, y) && addr(p) == at(x, y), "{what}: pixel {i} of row {y} is ({x},{yy})");
                    written.push(addr(p));
                    *p = P::tag(77);
                }
            }
        }
        // Both ends inside one row; and clones in the middle of an iteration.
        8 => {
            for (y, r) in b.rows().enumerate() {
                drop(drive2(ch, &what, r, rows[y].clone(), |p| addr(*p))?);
                if y > 0 {
                    break;
                }
            }
        }
        9 => {
            let k = ch.range(0, addrs.len() as i64) as usize;
            let j = ch.range(0, (addrs.len() - k) as i64) as usize;
            let mut it = b.pixels();
            let mut en = b.enumerate_pixels();
            for _ in 0..k {
                it.next();
                en.next();
            }
            for _ in 0..j {
                it.next_back();
            }
            let rest: Vec<usize> = it.clone().map(addr).collect();
            ensure!(rest == addrs[k..addrs.len() - j], "{what}: clone after {k}+{j} differs");
            ensure!(it.map(addr).collect::<Vec<_>>() == rest, "{what}: cloning disturbed the iterator");
            let e: Vec<_> = en.clone().map(|(x, y, p)| (x, y, addr(p))).collect();
            ensure!(e == enumerated[k..], "{what}: enumerating clone after {k} = {e:?}");
            ensure!(en.clone().count() == enumerated.len() - k, "{what}: count");
            ensure!(en.last().map(|(x, y, _)| (x, y)) == if k < order.len() { order.last().copied() } else { None }, "{what}: last");
        }
        10 => {
            let k = ch.range(0, erows.len() as i64) as usize;
            let mut er = b.enumerate_rows();
            let mut r = b.rows();
            for _ in 0..k {
                er.next();
                r.next();
            }
            ensure!(er.clone().map(|(y, _)| y as usize).collect::<Vec<_>>() == (k..erows.len()).collect::<Vec<_>>(), "{what}: clone of enumerate_rows after {k}");
            ensure!(r.clone().rev().map(|r| addr(r.clone().next().unwrap())).eq((k..erows.len()).rev().map(|y| at(0, y as u32))), "{what}: reversed clone of rows after {k}");
        }
        _ => {
            // The generic iterator of views.
            let mut it = GenericImageView::pixels(&b);
            let k = ch.range(0, order.len() as i64 + 1) as usize;
            for _ in 0..k {
                it.next();
            }
            let rest: Vec<(u32, u32)> = it.clone().map(|(x, y, _)| (x, y)).collect();
            ensure!(rest == order[k.min(order.len())..], "{what}: generic pixels after {k}: {rest:?}");
            for _ in 0..order.len() + 3 {
                it.next();
            }
            ensure!(it.next().is_none(), "{what}: generic pixels do not end");
        }
    }
    if !written.is_empty() {
        let mut u = written.clone();
        u.sort();
        u.dedup();
        ensure!(u.len() == written.len(), "{what}: the same pixel was handed out twice");
        for (x, y) in &order {
            let t = *b.get_pixel(*x, *y) == P::tag(77);
            ensure!(t == u.contains(&at(*x, *y)), "{what}: pixel ({x},{y}) written: {t}");
        }
        ensure!(b.as_raw()[need..].iter().all(|s| *s == P::sample(0)), "{what}: wrote beyond the image");
    }
    ch.validated();
    Ok(())
}

/// Images more than 2^8 and 2^16 pixels long: every way of walking over them sees the matrix.
fn long(ch: &mut Ch) -> Res {
    let (w, h) = ch.of(&[(65537u32, 2u32), (2, 65537), (1, 66000), (66000, 1), (300, 301)]);
    let at = |x: u32, y: u32| { let k = (x.wrapping_mul(0x9E3779B1) ^ y.wrapping_mul(0x85EBCA6B)) >> 7; Rgb([k as u16, (k >> 4) as u16, x as u16 ^ y as u16]) };
    let mut calls = 0u64;
    let b = ImageBuffer::from_fn(w, h, |x, y| { let due = (x, y) == ((calls % w as u64) as u32, (calls / w as u64) as u32); calls += 1; if due { at(x, y) } else { Rgb([0; 3]) } });
    let n = (w * h) as usize;
    let pos = |i: usize| ((i as u32) % w, (i as u32) / w);
    // one after the other, skipping some, from the back
    let plan = ch.of(&[(0usize, 0usize), (1, 0), (254, 3), (255, 0), (256, 1), (299, 0), (65535, 0), (65536, 0), (65537, 1), (70000, 0)]);
    let kind = ch.pick(8);
    ch.state(hash_of(&(w, h, plan, kind)));
    ch.validated();
    let what = format!("{w}x{h}, walk {kind}, skipping {plan:?}");
    macro_rules! forth {
        ($it:expr, $i:ident, $g:ident, $ok:expr, $len:expr) => {{
            let mut it = $it;
            let mut $i = 0usize;
            loop {
                ensure!(it.len() == $len - $i.min($len), "{what}: {} remain after {}", it.len(), $i);
                let k = if $i % 2 == 0 { plan.0 } else { plan.1 };
                match it.nth(k) {
                    None => break ensure!($i + k >= $len, "{what}: ends after {}", $i),
                    Some($g) => {
                        $i += k;
                        ensure!($i < $len && $ok, "{what}: element {} is wrong", $i);
                        $i += 1;
                    }
                }
            }
        }};
    }
    let mut m = b.clone();
    match kind {
        0 => forth!(b.pixels(), i, g, *g == at(pos(i).0, pos(i).1), n),
        1 => forth!(b.enumerate_pixels(), i, g, (g.0, g.1) == pos(i) && *g.2 == at(g.0, g.1), n),
        2 => forth!(m.pixels_mut(), i, g, *g == at(pos(i).0, pos(i).1), n),
        3 => forth!(m.enumerate_pixels_mut(), i, g, (g.0, g.1) == pos(i) && *g.2 == at(g.0, g.1), n),
        4 => forth!(b.rows(), i, g, g.len() == w as usize && g.enumerate().all(|(x, p)| *p == at(x as u32, i as u32)), h as usize),
        5 => forth!(b.enumerate_rows(), i, g, g.0 == i as u32 && g.1.enumerate().all(|(x, (gx, gy, p))| (gx, gy) == (x as u32, i as u32) && *p == at(gx, gy)), h as usize),
        6 => {
            // from both ends towards the middle
            let (mut p, mut r) = (b.pixels(), b.rows());
            let (mut i, mut j) = (0, n);
            while i < j {
                j -= 1;
                ensure!(p.next_back() == Some(&at(pos(j).0, pos(j).1)), "{what}: pixel {j} from the back is wrong");
                if i < j {
                    ensure!(p.next() == Some(&at(pos(i).0, pos(i).1)), "{what}: pixel {i} is wrong");
                    i += 1;
                }
            }
            ensure!(p.next().is_none() && p.next_back().is_none(), "{what}: there are pixels left");
            for y in (0..h).rev() {
                ensure!(r.next_back().map_or(false, |r| r.enumerate().all(|(x, p)| *p == at(x as u32, y))), "{what}: row {y} from the back is wrong");
            }
        }
        _ => {
            let mut i = 0;
            for (x, y, p) in GenericImageView::pixels(&b) {
                ensure!((x, y) == pos(i) && p == at(x, y), "{what}: pixel {i} through the trait is at ({x}, {y})");
                i += 1;
            }
            ensure!(i == n, "{what}: {i} pixels through the trait");
            for (x, y) in [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1), (w / 2, h / 2)] {
                ensure!(*b.get_pixel(x, y) == at(x, y) && b.get_pixel_checked(x, y) == Some(&at(x, y)) && b[(x, y)] == at(x, y), "{what}: ({x}, {y}) reads another pixel");
                m.put_pixel(x, y, Rgb([1, 2, 3]));
                ensure!(m.as_raw().chunks(3).position(|c| c == [1, 2, 3]) == Some((y as usize) * w as usize + x as usize), "{what}: ({x}, {y}) writes another pixel");
                m.put_pixel(x, y, at(x, y));
                ensure!(b.get_pixel_checked(x + w, y).is_none() && b.get_pixel_checked(x, y + h).is_none(), "{what}: ({x}, {y}) one image further exists");
            }
        }
    }
    ch.steps(n as u64);
    Ok(())
}

fn main() {
    let mut c = Check::start("C10", "model_checking", "one execution = one construction or one operation / iterator-call sequence on a real buffer; non-trivial when the model was compared");
    c.explore("construct", "8 pixel types x (w,h) in {0,1,2,3,5,2^16,2^31,2^32-2,2^32-1}^2 x container lengths around the needed one x 3 container kinds, all coordinates of a grid with extremes", |ch| each!(ch, construct));
    c.explore("makers", "8 pixel types x all w,h in 0..=5: new, from_pixel, from_fn, default, clone", |ch| each!(ch, makers));
    c.explore("ops", "8 pixel types x 7 shapes x 3 container surpluses x all sequences of 2 (thorough: 3) writes by 7 interfaces at every coordinate inside and one outside", |ch| each!(ch, ops));
    c.explore("iterators", "8 pixel types x w in 0..=3 (thorough 4), h in 0..=3 x 12 iterator kinds x every sequence of next / next_back / nth / nth_back to beyond the end", |ch| each!(ch, iterators));
    c.explore("long images", "five sizes beyond 2^8 and 2^16 pixels a side x 8 ways of walking x 10 step widths up to 70000", long);
    c.finish()
}
