//! C46: colour types and pixels describe their samples faithfully.
//! TECHNIQUE: exhaustive enumeration of every colour type, every pixel and sample type and every way of looking at a pixel, against a model read off the types' names
//! LEVEL: model_checking
//! NOTE: All 27 kinds of ExtendedColorType (Unknown with all 256 depths), all ten of ColorType; every pixel type over twelve sample types with every sample set to each of nine values; slices of every length 0 to 9; whole images of every colour type in 36 sizes.
#![allow(deprecated)]
use image::*;
use mc::*;

const EXT: [ExtendedColorType; 26] = {
    use ExtendedColorType::*;
    [A8, L1, La1, Rgb1, Rgba1, L2, La2, Rgb2, Rgba2, L4, La4, Rgb4, Rgba4, L8, La8, Rgb8, Rgba8, L16, La16, Rgb16, Rgba16, Bgr8, Bgra8, Rgb32F, Rgba32F, Cmyk8]
};

/// (channels, bits per sample, alpha, colour) as the name says.
fn named(name: &str) -> (u16, u16, bool, bool) {
    let k = name.find(|c: char| c.is_ascii_digit()).unwrap();
    let bits: u16 = name[k..].trim_end_matches('F').parse().unwrap();
    let letters = &name[..k];
    (letters.len() as u16, bits, letters.to_lowercase().ends_with('a'), letters.len() >= 3)
}

fn extended(ch: &mut Ch) -> Res {
    let k = ch.pick(EXT.len() + 1);
    if k == EXT.len() {
        let bits = ch.pick(256) as u8;
        let t = ExtendedColorType::Unknown(bits);
        let got = catch(|| (t.channel_count(), t.bits_per_pixel())).map_err(|e| Viol::new("panic", format!("{t:?}: {e}")))?;
        need!(got == (1, bits as u16), "unknown", "{t:?} has (channels, bits) {got:?}");
        ch.outcome(hash_of(&bits));
        return Ok(());
    }
    let t = EXT[k];
    let (n, b, _, _) = named(&format!("{t:?}"));
    need!(t.channel_count() as u16 == n, "channels", "{t:?} has {} channels, not {n}", t.channel_count());
    need!(t.bits_per_pixel() == n * b, "bits", "{t:?} has {} bits, not {}", t.bits_per_pixel(), n * b);
    for (j, u) in EXT.iter().enumerate() {
        need!((t == *u) == (j == k), "equality", "{t:?} == {u:?} is {}", t == *u);
    }
    ch.steps(2);
    ch.outcome(hash_of(&(n, b)));
    Ok(())
}

fn plain(ch: &mut Ch) -> Res {
    let t = ch.of(&util::COLORS);
    let name = format!("{t:?}");
    let (n, b, a, c) = named(&name);
    let e: ExtendedColorType = t.into();
    need!(format!("{e:?}") == name, "extended", "{t:?} becomes {e:?}");
    need!(t.channel_count() as u16 == n, "channels", "{t:?} has {} channels, not {n}", t.channel_count());
    need!(t.bits_per_pixel() == n * b, "bits", "{t:?} has {} bits, not {}", t.bits_per_pixel(), n * b);
    need!(t.bytes_per_pixel() as u16 * 8 == n * b, "bytes", "{t:?} has {} bytes, not {}", t.bytes_per_pixel(), n * b / 8);
    need!(t.has_alpha() == a, "alpha", "{t:?}: has_alpha is {}", t.has_alpha());
    need!(t.has_color() == c, "colour", "{t:?}: has_color is {}", t.has_color());
    ch.steps(6);
    ch.outcome(hash_of(&(n, b, a, c)));
    // images of the type
    let (w, h) = (ch.pick(6) as u32, ch.pick(6) as u32);
    let i = catch(|| DynamicImage::new(w, h, t)).map_err(|e| Viol::new("panic", format!("{t:?} {w}x{h}: {e}")))?;
    need!(i.color() == t, "image", "a new {t:?} image is {:?}", i.color());
    need!((i.width(), i.height()) == (w, h) && i.dimensions() == (w, h), "image", "a new {w}x{h} image has {:?}", i.dimensions());
    need!(i.as_bytes().len() as u32 == w * h * (n * b / 8) as u32, "image", "a new {t:?} {w}x{h} image has {} bytes", i.as_bytes().len());
    need!(i.as_bytes().iter().all(|b| *b == 0), "image", "a new {t:?} image is not zero");
    let by = i.as_bytes().to_vec();
    need!(i.into_bytes() == by, "image", "{t:?} {w}x{h}: into_bytes and as_bytes differ");
    Ok(())
}

fn layouts<P, S: samples::Sample>(ch: &mut Ch) -> Res
where
    P: Pixel<Subpixel = S> + PartialEq + std::ops::Index<usize, Output = S> + std::ops::IndexMut<usize> + std::fmt::Debug + 'static,
{
    let n = P::CHANNEL_COUNT as usize;
    need!(P::COLOR_MODEL == ["Y", "YA", "RGB", "RGBA"][n - 1], "model", "{} channels are called {}", n, P::COLOR_MODEL);
    need!(std::mem::size_of::<P>() == n * std::mem::size_of::<S>(), "size", "a pixel of {n} {} has {} bytes", S::NAME, std::mem::size_of::<P>());
    let v = S::values();
    let max = S::DEFAULT_MAX_VALUE;
    let c: Vec<S> = {
        let (s, d) = (ch.pick(v.len()), ch.pick(v.len()));
        (0..4).map(|k| v[(s + k * d) % v.len()]).collect()
    };
    let what = format!("{} x {} {c:?}", P::COLOR_MODEL, S::NAME);
    let p = P::from_channels(c[0], c[1], c[2], c[3]);
    need!(p.channels() == &c[..n], "from-channels", "{what}: from_channels gives {p:?}");
    let q = p.channels4();
    let q = [q.0, q.1, q.2, q.3];
    need!(q[..n] == c[..n] && q[n..].iter().all(|x| *x == max), "channels4", "{what}: channels4 gives {q:?}");
    need!(*P::from_slice(&c[..n]) == p, "from-slice", "{what}: from_slice gives {:?}", P::from_slice(&c[..n]));
    for k in 0..n {
        need!(p[k] == c[k], "index", "{what}: [{k}] is {:?}", p[k]);
        // writing one channel through each view changes that one
        let mut e = c[..n].to_vec();
        e[k] = v[1];
        let mut w = p;
        w[k] = v[1];
        need!(w.channels() == &e[..], "index-mut", "{what}: writing [{k}] gives {w:?}");
        let mut w = p;
        w.channels_mut()[k] = v[1];
        need!(w.channels() == &e[..], "channels-mut", "{what}: writing channels_mut()[{k}] gives {w:?}");
        let mut s = c[..n].to_vec();
        P::from_slice_mut(&mut s)[k] = v[1];
        need!(s == e, "from-slice-mut", "{what}: writing from_slice_mut()[{k}] gives {s:?}");
    }
    for k in [n, n + 1, usize::MAX] {
        need!(catch(|| p[k]).is_err(), "index", "{what}: [{k}] can be read");
    }
    // a pixel is never seen in a slice of another length
    let len = ch.pick(10);
    let s = vec![v[1]; len];
    let r = catch(|| *P::from_slice(&s)).is_ok();
    need!(r == (len == n), "slice-length", "{what}: a slice of {len} samples {} as a pixel", if r { "passes" } else { "does not pass" });
    let mut s = s;
    let r = catch(|| *P::from_slice_mut(&mut s)).is_ok();
    need!(r == (len == n), "slice-length", "{what}: a mutable slice of {len} samples {} as a pixel", if r { "passes" } else { "does not pass" });
    // an image's layout is the pixel's
    let i: ImageBuffer<P, Vec<S>> = ImageBuffer::from_fn(3, 2, |x, y| P::from_channels(c[(x + y) as usize % 4], c[(x + y + 1) as usize % 4], c[2], c[3]));
    let l = i.sample_layout();
    need!((l.channels as usize, l.channel_stride, l.width, l.width_stride, l.height, l.height_stride) == (n, 1, 3, n, 2, 3 * n), "layout", "{what}: a 3x2 image is laid out as {l:?}");
    for (x, y, p) in i.enumerate_pixels() {
        for k in 0..n {
            let at = l.index(k as u8, x, y).ok_or_else(|| Viol::new("layout", format!("{what}: ({x}, {y}) has no sample {k}")))?;
            need!(i.as_raw()[at] == p.channels()[k], "layout", "{what}: sample {k} of ({x}, {y}) is not at {at}");
        }
    }
    ch.steps(5 * n as u64 + 12);
    ch.outcome(hash_of(&what));
    Ok(())
}

fn type_of<P: PixelWithColorType>(expect: ExtendedColorType) -> Res {
    need!(P::COLOR_TYPE == expect, "colour-type", "{expect:?} pixels are called {:?}", P::COLOR_TYPE);
    Ok(())
}

fn bytes_of<T: PartialEq + std::fmt::Debug, const N: usize>(v: &[T], bytes: impl Fn(&T) -> [u8; N]) -> Res
where
    [T]: EncodableLayout,
{
    let e: Vec<u8> = v.iter().flat_map(bytes).collect();
    need!(v.as_bytes() == &e[..], "layout", "{v:?} has the bytes {:?}", v.as_bytes());
    Ok(())
}

fn limits_of<T: Primitive + std::fmt::Debug>(ch: &mut Ch, min: T, max: T) -> Res {
    need!(T::DEFAULT_MIN_VALUE == min && T::DEFAULT_MAX_VALUE == max, "range", "{} has the range {:?} to {:?}", std::any::type_name::<T>(), T::DEFAULT_MIN_VALUE, T::DEFAULT_MAX_VALUE);
    ch.steps(1);
    Ok(())
}

fn main() {
    let mut c = Check::start("C46", "model_checking", "channel counts, depths, alpha and colour of a colour type are what its name says, and every view of a pixel shows the same samples");
    c.explore("extended colour types", "26 colour types and Unknown(0..=255)", extended);
    c.explore("colour types", "10 colour types x 36 sizes of image", plain);
    c.explore("pixels", "12 sample types x 4 pixel types x 81 settings of the samples x slices of 0 to 9 samples", |ch| for_sample_types!(ch, layouts));
    c.once("pixels with a colour type", "10 pixel types, 12 sample types", |ch| {
        use ExtendedColorType as E;
        type_of::<Luma<u8>>(E::L8)?;
        type_of::<LumaA<u8>>(E::La8)?;
        type_of::<Rgb<u8>>(E::Rgb8)?;
        type_of::<Rgba<u8>>(E::Rgba8)?;
        type_of::<Luma<u16>>(E::L16)?;
        type_of::<LumaA<u16>>(E::La16)?;
        type_of::<Rgb<u16>>(E::Rgb16)?;
        type_of::<Rgba<u16>>(E::Rgba16)?;
        type_of::<Rgb<f32>>(E::Rgb32F)?;
        type_of::<Rgba<f32>>(E::Rgba32F)?;
        ch.steps(10);
        limits_of(ch, u8::MIN, u8::MAX)?;
        limits_of(ch, i8::MIN, i8::MAX)?;
        limits_of(ch, u16::MIN, u16::MAX)?;
        limits_of(ch, i16::MIN, i16::MAX)?;
        limits_of(ch, u32::MIN, u32::MAX)?;
        limits_of(ch, i32::MIN, i32::MAX)?;
        limits_of(ch, u64::MIN, u64::MAX)?;
        limits_of(ch, i64::MIN, i64::MAX)?;
        limits_of(ch, usize::MIN, usize::MAX)?;
        limits_of(ch, isize::MIN, isize::MAX)?;
        limits_of(ch, 0f32, 1.)?;
        limits_of(ch, 0f64, 1.)
    });
    c.explore("bytes of samples", "all u8 and u16, 600 f32, slices of 0 to 5", |ch| {
        let n = ch.pick(6);
        for a in (0..=65535u16).step_by(if n == 1 { 1 } else { 251 }) {
            let v: Vec<u16> = (0..n as u16).map(|k| a.wrapping_add(k * 771)).collect();
            bytes_of(&v, |x| x.to_ne_bytes())?;
            bytes_of(&v.iter().map(|x| *x as u8).collect::<Vec<_>>(), |x| [*x])?;
            bytes_of(&v.iter().map(|x| f32::from_bits((*x as u32) << 16 | 5)).collect::<Vec<_>>(), |x| x.to_ne_bytes())?;
        }
        ch.steps(200);
        ch.outcome(n as u64);
        Ok(())
    });
    c.finish();
}
