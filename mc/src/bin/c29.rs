//! C29: frame delays are exact ratios and convert without overflow.
//! TECHNIQUE: exhaustive enumeration of numerators, denominators and durations over the real conversions, compared with 128-bit integer models (best bounded approximation by continued fractions, cross-checked by brute force); every delay a file can hold is decoded from generated animations
//! LEVEL: model_checking
//! NOTE: All 10^6 nanosecond parts for selected milliseconds (each of the nine magnitudes of the denominator bound), all pairs and quadruples of 60 boundary integers, all 65536 GIF delays both ways, all 65536 APNG numerators by boundary denominators. A zero denominator has no ratio: it has to be refused by the documented panic.
use image::codecs::{gif, png, webp};
use image::*;
use mc::forge::*;
use mc::*;
use std::cmp::Ordering;
use std::io::Cursor;
use std::time::Duration;

fn interesting() -> Vec<u32> {
    let mut v: Vec<u32> = (0..=10).collect();
    for p in [99u32, 100, 101, 999, 1000, 1001, 999_999, 1_000_000, 1_000_001, 41_700, 333_333_333, 0xFFFF, 0x1_0000, 0x1_0001] {
        v.push(p);
    }
    for b in [7u32, 8, 15, 20, 24, 30, 31] {
        v.extend([(1u32 << b) - 1, 1 << b, (1 << b) + 1]);
    }
    v.extend([u32::MAX / 3, u32::MAX / 2, u32::MAX - 2, u32::MAX - 1, u32::MAX, 4_294_967, 4_294_968, 1000003]);
    v.sort();
    v.dedup();
    v
}
fn delay(n: u32, d: u32) -> Result<Delay, Viol> {
    catch(|| Delay::from_numer_denom_ms(n, d)).map_err(|p| Viol::new("panic", format!("{n}/{d}: {p}")))
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
/// Smallest |x - p/q| * (q * den) style error of any fraction with a denominator up to `max`, as a fraction (num, den).
fn best_error(nom: u128, den: u128, max: u128) -> (u128, u128) {
    // Walk the continued fraction; candidates are the last convergent and the best semiconvergent.
    let err = |p: u128, q: u128| ((p * den).abs_diff(nom * q), q * den);
    let (mut a, mut b) = (nom, den);
    let (mut p0, mut q0, mut p1, mut q1) = (0u128, 1u128, 1u128, 0u128);
    let mut best = err((nom * 2 > den) as u128, 1);
    let mut take = |e: (u128, u128)| {
        if e.0 * best.1 < best.0 * e.1 {
            best = e;
        }
    };
    while b != 0 {
        let k = a / b;
        if q0 + k * q1 > max {
            let t = (max - q0) / q1;
            if t > 0 {
                take(err(p0 + t * p1, q0 + t * q1));
            }
            break;
        }
        (p0, q0, p1, q1) = (p1, q1, p0 + k * p1, q0 + k * q1);
        take(err(p1, q1));
        (a, b) = (b, a % b);
    }
    best
}

fn check_duration(d: Duration) -> Result<(u32, u32), Viol> {
    let dl = catch(|| Delay::from_saturating_duration(d)).map_err(|p| Viol::new("from duration", format!("{d:?}: {p}")))?;
    let (n, m) = dl.numer_denom_ms();
    need!(m != 0, "from duration", "{d:?} becomes {n}/{m}");
    let back = catch(|| Duration::from(dl)).map_err(|p| Viol::new("to duration", format!("{n}/{m}: {p}")))?;
    let ns = d.as_nanos();
    if ns >= u32::MAX as u128 * 1_000_000 {
        need!(n == u32::MAX && m == 1, "from duration", "{d:?} becomes {n}/{m} ms instead of the maximum");
        return Ok((n, m));
    }
    // within half of a millisecond, and within the best any fraction of that magnitude can do
    let (n, m) = (n as u128, m as u128);
    let e = (n * 1_000_000).abs_diff(ns * m); // / (m * 10^6) ms
    need!(2 * e <= m * 1_000_000, "from duration", "{d:?} becomes {n}/{m} ms, off by more than half a millisecond");
    let ms = ns / 1_000_000;
    let max = if ms == 0 { u32::MAX as u128 } else { (1u128 << 32) / (ms + 1) };
    let (bn, bd) = best_error(ns % 1_000_000, 1_000_000, max);
    need!(e * bd <= bn * m * 1_000_000, "from duration", "{d:?} becomes {n}/{m} ms, although a closer fraction with a denominator up to {max} exists");
    if bn == 0 {
        need!(back == d, "to duration", "{d:?} becomes {n}/{m} ms and {back:?} again");
    }
    Ok((n as u32, m as u32))
}

fn delays(frames: Frames) -> Result<Vec<(u32, u32)>, String> {
    frames.map(|f| f.map(|f| f.delay().numer_denom_ms()).map_err(|e| e.to_string())).collect()
}
fn same(a: (u32, u32), n: u64, m: u64) -> bool {
    a.0 as u64 * m == n * a.1 as u64
}

fn main() {
    let mut c = Check::start("C29", "model_checking", "one execution = one ratio, pair of ratios, block of durations or generated animation");
    c.hang_after(120);
    // The model of the best approximation, by brute force.
    for den in [1u128, 2, 3, 7, 10, 24, 97, 100] {
        for nom in 0..den {
            for max in 1..40 {
                let mut b = (1u128, 1u128);
                for q in 1..=max {
                    for p in 0..=q {
                        let e = ((p * den).abs_diff(nom * q), q * den);
                        if e.0 * b.1 < b.0 * e.1 {
                            b = e;
                        }
                    }
                }
                let a = best_error(nom, den, max);
                assert!(a.0 * b.1 == b.0 * a.1, "{nom}/{den} {max}: {a:?} {b:?}");
            }
        }
    }
    let v = &interesting();
    c.explore("ratios", "all pairs of boundary numerators and denominators: exact parts, exact duration", |ch| {
        let (n, d) = (ch.of(v), ch.of(v));
        if d == 0 {
            need!(catch(|| Delay::from_numer_denom_ms(n, 0)).is_err(), "zero", "{n}/0 is accepted");
            return Ok(());
        }
        let dl = delay(n, d)?;
        need!(dl.numer_denom_ms() == (n, d), "ratio", "{n}/{d} is kept as {:?}", dl.numer_denom_ms());
        let t = catch(|| Duration::from(dl)).map_err(|p| Viol::new("to duration", format!("{n}/{d}: {p}")))?;
        let ns = n as u128 * 1_000_000 / d as u128;
        need!(t.as_nanos() == ns, "to duration", "{n}/{d} ms becomes {t:?} instead of {ns} ns");
        let f = Frame::from_parts(RgbaImage::new(1, 1), 3, 4, dl);
        need!(f.delay().numer_denom_ms() == (n, d) && f.clone().delay() == dl && (f.left(), f.top()) == (3, 4), "frame", "the frame loses {n}/{d}");
        let again = Delay::from_saturating_duration(t);
        let (an, am) = again.numer_denom_ms();
        let diff = (an as u128 * d as u128).abs_diff(n as u128 * am as u128);
        need!(diff <= am as u128 * d as u128, "to duration", "{n}/{d} comes back from a duration as {an}/{am}");
        ch.state(hash_of(&(n, d)));
        ch.outcome(hash_of(&ns));
        ch.sample(|| format!("{n}/{d} ms = {t:?}"));
        Ok(())
    });
    c.explore("order", "all pairs of ratios of boundary integers: comparisons agree with the exact cross products", |ch| {
        let (a, b) = (ch.of(v), ch.of(v));
        if b == 0 {
            return Ok(());
        }
        let x = delay(a, b)?;
        for &p in v {
            for &q in v {
                if q == 0 {
                    continue;
                }
                let y = delay(p, q)?;
                let o = (a as u128 * q as u128).cmp(&(p as u128 * b as u128));
                need!(x.partial_cmp(&y) == Some(o), "order", "{a}/{b} against {p}/{q}: {:?} instead of {o:?}", x.partial_cmp(&y));
                need!((x == y) == (o == Ordering::Equal) && (x < y) == (o == Ordering::Less) && (x >= y) == (o != Ordering::Less), "order", "{a}/{b} against {p}/{q}: operators disagree");
                ch.step();
            }
        }
        Ok(())
    });
    let q = c.quick;
    let mut ms: Vec<u64> = vec![0, 1, 4294, 65535, 1 << 20, (1 << 31) - 1, 1 << 31, u32::MAX as u64 - 1];
    if !q {
        ms.extend([2, 3, 9, 41, 99, 999, 4293, 4295, 1 << 24, 1 << 28, u32::MAX as u64 / 2 - 1, u32::MAX as u64 / 3, u32::MAX as u64 / 1000]);
    }
    let ms = &ms;
    c.explore("durations", "all 10^6 nanosecond parts behind 8 (21) numbers of milliseconds", |ch| {
        let m = ch.of(ms);
        let block = ch.pick(1000) as u64;
        for k in 0..1000u64 {
            let ns = block * 1000 + k;
            check_duration(Duration::new(m / 1000, (m % 1000) as u32 * 1_000_000 + ns as u32))?;
        }
        ch.steps(1000);
        ch.state(hash_of(&(m, block)));
        ch.validated();
        ch.sample(|| format!("{m} ms + {}..{} ns", block * 1000, block * 1000 + 999));
        Ok(())
    });
    c.explore("boundaries", "durations around 0, every power of two and every power of ten of milliseconds, the representable maximum, and the greatest duration", |ch| {
        let mut base: Vec<Duration> = (0..63).map(|b| Duration::from_millis(1 << b)).collect();
        base.extend((0..19).map(|b| Duration::from_millis(10u64.pow(b))));
        base.extend([Duration::ZERO, Duration::MAX, Duration::from_secs(u64::MAX), Duration::from_millis(u64::MAX), Duration::from_millis(u32::MAX as u64), Duration::from_millis(i32::MAX as u64), Duration::from_secs(u32::MAX as u64)]);
        let b = base[ch.pick(base.len())];
        for off in [0u64, 1, 2, 499_999, 500_000, 500_001, 600_000, 999_999, 1_000_000, 1_000_001, 1_500_000, 333_333, 666_667, 999_999_999] {
            let o = Duration::from_nanos(off);
            check_duration(b.saturating_add(o))?;
            check_duration(b.saturating_sub(o))?;
            ch.steps(2);
        }
        ch.state(hash_of(&b));
        Ok(())
    });
    let rgba = || RgbaImage::from_pixel(1, 1, Rgba([1, 2, 3, 255]));
    c.explore("frames", "all pairs of 3 sizes x 4 places x 4 delays: a frame keeps its parts, and so do its copies", |ch| {
        let mk = |ch: &mut Ch| {
            let (w, h) = ch.of(&[(1u32, 1u32), (3, 2), (0, 0)]);
            let (l, t) = ch.of(&[(0u32, 0u32), (1, 2), (70000, 3), (u32::MAX, u32::MAX)]);
            let (n, d) = ch.of(&[(0u32, 1u32), (10, 1), (1000, 30), (u32::MAX, 7)]);
            (RgbaImage::from_fn(w, h, |x, y| Rgba([x as u8, y as u8, (l % 251) as u8, n as u8])), l, t, Delay::from_numer_denom_ms(n, d))
        };
        let (a, b) = (mk(ch), mk(ch));
        let is = |f: &Frame, p: &(RgbaImage, u32, u32, Delay), how: &str| -> Res {
            let got = (f.buffer().clone(), f.left(), f.top(), f.delay());
            ensure!(got == *p && f.clone().into_buffer() == p.0, "{how}: {got:?} instead of {p:?}");
            Ok(())
        };
        let of = |p: &(RgbaImage, u32, u32, Delay)| Frame::from_parts(p.0.clone(), p.1, p.2, p.3);
        let (mut f, g) = (of(&a), of(&b));
        is(&f, &a, "from_parts")?;
        is(&f.clone(), &a, "clone")?;
        is(&Frame::new(a.0.clone()), &(a.0.clone(), 0, 0, Delay::from_numer_denom_ms(0, 1)), "new")?;
        *f.buffer_mut() = b.0.clone();
        is(&f, &(b.0.clone(), a.1, a.2, a.3), "buffer_mut")?;
        f = of(&a);
        f.clone_from(&g);
        is(&f, &b, "clone_from")?;
        is(&g, &b, "the source of clone_from")?;
        let mut i = a.0.clone();
        i.clone_from(&b.0);
        ensure!(i == b.0, "clone_from of a buffer");
        let v = Frames::new(Box::new(vec![Ok(of(&a)), Ok(of(&b))].into_iter())).collect_frames().map_err(|e| e.to_string())?;
        ensure!(v.len() == 2, "{} of 2 frames collected", v.len());
        is(&v[0], &a, "collect_frames")?;
        is(&v[1], &b, "collect_frames")?;
        ch.state(hash_of(&format!("{a:?} {b:?}")));
        Ok(())
    });
    c.explore("gif", "all 65536 delays of GIF frames, decoded; all delays written, at every multiple of 10 ms and around it, and saturating ones", |ch| {
        let (chunk, write) = (ch.pick(64) as u32, ch.pick(4) as u32);
        let ks: Vec<u32> = (chunk * 1024..(chunk + 1) * 1024).collect();
        if write == 0 {
            let fr: Vec<GifFrame> = ks.iter().map(|&k| GifFrame { x: 0, y: 0, w: 1, h: 1, dispose: 1, transparent: None, delay: k as u16, local: None, interlaced: false, pixels: vec![1] }).collect();
            let b = gif(1, 1, Some(&[[0, 0, 0], [9, 9, 9]]), 0, None, &fr);
            let d = delays(gif::GifDecoder::new(Cursor::new(&b)).unwrap().into_frames());
            let Ok(d) = d else { return viol("gif", format!("{d:?}")) };
            need!(d.len() == ks.len(), "gif", "{} frames", d.len());
            for (k, d) in ks.iter().zip(d) {
                need!(same(d, *k as u64 * 10, 1), "gif", "delay {k} is read as {d:?} ms");
            }
        } else {
            // as whole milliseconds, as a ratio slightly above, and just below the next step
            let ds: Vec<(u32, u32)> = ks.iter().map(|&k| [(k * 10, 1), (k * 60 + 1, 6), (k * 10 + 9, 1)][write as usize - 1]).collect();
            let mut out = vec![];
            let mut e = gif::GifEncoder::new_with_speed(&mut out, 30);
            let r = catch(std::panic::AssertUnwindSafe(|| e.encode_frames(ds.iter().map(|&(n, m)| Frame::from_parts(rgba(), 0, 0, Delay::from_numer_denom_ms(n, m))))));
            drop(e);
            need!(matches!(r, Ok(Ok(()))), "gif", "writing the delays {:?}..: {r:?}", ds[0]);
            let d = delays(gif::GifDecoder::new(Cursor::new(&out)).unwrap().into_frames());
            let Ok(d) = d else { return viol("gif", format!("{d:?}")) };
            need!(d.len() == ks.len(), "gif", "{} frames", d.len());
            for ((k, d), w) in ks.iter().zip(d).zip(ds) {
                need!(same(d, *k as u64 * 10, 1), "gif", "the delay {w:?} is written and read as {d:?} ms");
            }
        }
        ch.steps(1024);
        ch.state(hash_of(&(chunk, write)));
        ch.validated();
        Ok(())
    });
    c.once("gif saturates", "delays over 655350 ms", |ch| {
        for (n, m) in [(655_350u32, 1u32), (655_359, 1), (655_360, 1), (u32::MAX, 1), (u32::MAX, 2), (u32::MAX, u32::MAX), (655_360 * 3, 3)] {
            let mut out = vec![];
            let r = catch(|| gif::GifEncoder::new(&mut out).encode_frame(Frame::from_parts(rgba(), 0, 0, Delay::from_numer_denom_ms(n, m))));
            need!(matches!(r, Ok(Ok(()))), "gif", "writing the delay {n}/{m}: {r:?}");
            let d = delays(gif::GifDecoder::new(Cursor::new(&out)).unwrap().into_frames());
            let e = (n as u64 / m as u64 / 10).min(65535) * 10;
            need!(d.as_ref().is_ok_and(|d| d.len() == 1 && same(d[0], e, 1)), "gif", "the delay {n}/{m} is read as {d:?}");
            ch.step();
        }
        Ok(())
    });
    c.explore("apng", "all 65536 numerators by boundary denominators (0 stands for 100) of APNG frames, in seconds", |ch| {
        let den = ch.of(&[0u16, 1, 2, 3, 7, 10, 30, 99, 100, 101, 255, 256, 999, 1000, 1001, 4097, 32767, 32768, 65534, 65535]);
        let chunk = ch.pick(64) as u32;
        let ks: Vec<u32> = (chunk * 1024..(chunk + 1) * 1024).collect();
        let fr: Vec<ApngFrame> = ks.iter().map(|&k| ApngFrame { x: 0, y: 0, w: 1, h: 1, dispose: 0, blend: 0, num: k as u16, den, rows: vec![vec![1, 2, 3, 255]] }).collect();
        let b = apng(1, 1, 8, 6, &[], None, &fr);
        let d = catch(|| delays(png::PngDecoder::new(Cursor::new(&b)).unwrap().apng().unwrap().into_frames()));
        let Ok(Ok(d)) = d else { return viol("apng", format!("{d:?}")) };
        need!(d.len() == ks.len(), "apng", "{} frames", d.len());
        for (k, d) in ks.iter().zip(d) {
            let m = if den == 0 { 100 } else { den as u64 };
            need!(same(d, *k as u64 * 1000, m), "apng", "delay {k}/{den} s is read as {d:?} ms");
        }
        ch.steps(1024);
        ch.state(hash_of(&(chunk, den)));
        ch.validated();
        Ok(())
    });
    c.once("webp", "durations of WebP frames at every bit boundary of their 24 bits", |ch| {
        let mut one = vec![];
        rgba().write_with_encoder(webp::WebPEncoder::new_lossless(&mut one)).unwrap();
        let p = webp_payload(&one);
        let mut ms: Vec<u32> = (0..300).collect();
        for b in 8..24 {
            ms.extend([(1u32 << b) - 1, 1 << b, (1 << b) + 1]);
        }
        ms.push(0xFF_FFFF);
        let fr: Vec<WebpFrame> = ms.iter().map(|&ms| WebpFrame { x: 0, y: 0, w: 1, h: 1, ms, dispose: false, no_blend: true, chunk: p.clone() }).collect();
        let b = webp_ext(1, 1, 0x12, None, Some((0, 0, &fr)), None, None);
        let d = catch(|| delays(webp::WebPDecoder::new(Cursor::new(&b)).unwrap().into_frames()));
        let Ok(Ok(d)) = d else { return viol("webp", format!("{d:?}")) };
        need!(d.len() == ms.len(), "webp", "{} frames", d.len());
        for (k, d) in ms.iter().zip(d) {
            need!(same(d, *k as u64, 1), "webp", "duration {k} is read as {d:?} ms");
            ch.step();
        }
        Ok(())
    });
    c.finish()
}
