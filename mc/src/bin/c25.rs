//! C25: Radiance HDR decoding and encoding against an independent model of the format.
//! TECHNIQUE: exhaustive enumeration of scanline token streams, header lines and sample values generated from a model of RGBE files, each decoded (or encoded and decoded) by the real codec and compared with the model
//! LEVEL: model_checking
//! NOTE: Only the -Y +X orientation is supported by the library; other orientations must be refused.
use image::codecs::hdr::{HdrDecoder, HdrEncoder};
use image::*;
use mc::forge::hdr;
use mc::*;
use std::io::Cursor;

type Px = [u8; 4];
type Out = Result<(u32, u32, Vec<f32>), String>;
fn dec_with(b: &[u8], strict: bool) -> Out {
    catch(|| -> ImageResult<_> {
        let d = HdrDecoder::with_strictness(Cursor::new(b), strict)?;
        let (w, h) = d.dimensions();
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, o.chunks_exact(4).map(|c| f32::from_ne_bytes(c.try_into().unwrap())).collect()))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
fn dec(b: &[u8]) -> Out {
    dec_with(b, true)
}
fn value(p: Px) -> [f32; 3] {
    std::array::from_fn(|i| if p[3] == 0 { 0.0 } else { (p[i] as f64 * 2f64.powi(p[3] as i32 - 136)) as f32 })
}
fn same(what: &str, w: u32, h: u32, want: &[Px], got: &Out) -> Res {
    match got {
        Err(e) => viol("", format!("{what}: refused: {e}")),
        Ok((ow, oh, v)) => {
            ensure_eq!((*ow, *oh), (w, h), "{what}: dimensions");
            let e: Vec<f32> = want.iter().flat_map(|p| value(*p)).collect();
            if let Some(i) = (0..e.len().max(v.len())).find(|&i| e.get(i).map(|f| f.to_bits()) != v.get(i).map(|f| f.to_bits())) {
                return viol("", format!("{what}: sample {i}: got {:?}, the format defines {:?}", v.get(i), e.get(i)));
            }
            Ok(())
        }
    }
}
fn refused(what: &str, got: &Out) -> Res {
    match got {
        Ok(_) => viol("", format!("{what}: accepted")),
        Err(e) if e.starts_with("PANIC") => viol("", format!("{what}: {e}")),
        Err(_) => Ok(()),
    }
}

const A: Px = [200, 10, 3, 130];
const B: Px = [7, 255, 0, 127];
const FMT: &[&str] = &["FORMAT=32-bit_rle_rgbe"];

/// One channel of a new-style scanline: `plan` is a list of (run?, length).
fn code(data: &[u8], plan: &[(bool, usize)]) -> Vec<u8> {
    let (mut o, mut at) = (vec![], 0);
    for &(run, n) in plan {
        if run {
            o.extend([128 + n as u8, data[at]]);
        } else {
            o.push(n as u8);
            o.extend(&data[at..at + n]);
        }
        at += n;
    }
    o
}
/// The values a plan can express: constant within runs, changing everywhere else.
fn data_for(plan: &[(bool, usize)], salt: u8) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    for (k, &(run, n)) in plan.iter().enumerate() {
        for i in 0..n {
            o.push(salt.wrapping_add((k as u8).wrapping_mul(53)).wrapping_add(if run { 0 } else { (i as u8).wrapping_mul(29).wrapping_add(1) }));
        }
    }
    o
}

fn main() {
    let mut c = Check::start("C25", "model_checking", "one execution is one Radiance file generated from the model (or written by the encoder) and decoded; it counts when samples or refusal were compared with the model");

    // Every mantissa with every exponent.
    c.explore("values", "all 256 exponents x all 256 mantissas in each channel", |ch| {
        let e = ch.range(0, 255) as u8;
        let k = ch.pick(3);
        let px: Vec<Px> = (0..256).flat_map(|m| {
            let mut p = [200, 201, 202, e];
            p[k] = m as u8;
            [A, p]
        }).collect();
        let d: Vec<u8> = px.concat();
        ch.steps(256);
        ch.outcome(hash_of(&(e, k)));
        ch.validated();
        same(&format!("exponent {e}"), 2, 256, &px, &dec(&hdr(FMT, 2, 256, &d)))
    });

    // Flat and old-style run-length scanlines.
    let (maxw, toks) = if c.quick { (6, 7) } else { (8, 9) };
    c.explore("old-rle", "every stream of literals (two colours) and run markers 0..4 for one or two scanlines of width 1..=6 (8), up to 7 (9) tokens per line, including overlong runs and markers in first place", |ch| {
        let w = ch.range(1, maxw) as usize;
        let h = ch.range(1, 2) as usize;
        let (mut d, mut px): (Vec<u8>, Vec<Px>) = (vec![], vec![]);
        let mut bad = false;
        'rows: for y in 0..h {
            let (mut row, mut shift): (Vec<Px>, usize) = (vec![], 0);
            let mut n = 0;
            while row.len() < w {
                if n == toks as usize {
                    return Ok(());
                }
                n += 1;
                // The second line only explores its first two tokens.
                let t = if y == 1 && n > 2 { 1 } else { ch.pick(7) };
                if t < 2 {
                    let p = [A, B][t];
                    row.push(p);
                    d.extend(p);
                    shift = 0;
                } else {
                    let r = t - 2;
                    d.extend([1, 1, 1, r as u8]);
                    let Some(&last) = row.last() else {
                        bad = true;
                        break 'rows;
                    };
                    let run = r << shift;
                    shift += 8;
                    if row.len() + run > w {
                        bad = true;
                        break 'rows;
                    }
                    row.extend(std::iter::repeat(last).take(run));
                }
            }
            px.extend(row);
            ch.step();
            ch.state(hash_of(&px));
        }
        if bad {
            // Let the rest of the file be long enough for the error to be the run's.
            d.extend(A.repeat(w * h));
        }
        let out = dec(&hdr(FMT, w as u32, h as u32, &d));
        ch.validated();
        ch.sample(|| format!("{w}x{h} {} bad={bad}", hex(&d)));
        if bad { refused("ill-formed old-style line", &out) } else { same(&format!("old-style {w}x{h} {}", hex(&d)), w as u32, h as u32, &px, &out) }
    });
    c.explore("old-rle-long", "runs longer than 255 from two and three consecutive markers, at every remainder", |ch| {
        let lo = ch.of(&[0usize, 1, 2, 254, 255]);
        let mid = ch.of(&[0usize, 1, 2, 3, 255]);
        let hi = ch.of(&[None, Some(0usize), Some(1)]);
        let brk = ch.flag();
        let tail = ch.of(&[0usize, 1, 3]);
        let mut d = A.to_vec();
        d.extend([1, 1, 1, lo as u8, 1, 1, 1, mid as u8]);
        let mut n = lo + (mid << 8);
        if let Some(h) = hi {
            d.extend([1, 1, 1, h as u8]);
            n += h << 16;
        }
        let mut px = vec![A; 1 + n];
        if brk {
            // A literal ends the chain: the next marker counts ones again.
            d.extend(B);
            d.extend([1, 1, 1, 3]);
            px.extend([B; 4]);
        }
        d.extend(A.repeat(tail));
        px.extend(vec![A; tail]);
        ch.validated();
        same(&format!("markers {lo} {mid} {hi:?}"), px.len() as u32, 1, &px, &dec(&hdr(FMT, px.len() as u32, 1, &d)))
    });
    c.explore("old-rle-zero-chain", "chains of 0..=12 empty run markers, then a run or a literal", |ch| {
        let n = ch.range(0, 12) as usize;
        let tail = ch.of(&[0u8, 1, 2, 255]);
        let mut d = A.to_vec();
        d.extend([1u8, 1, 1, 0].repeat(n));
        d.extend([1, 1, 1, tail]);
        d.extend(A.repeat(8));
        ch.validated();
        match dec(&hdr(FMT, 5, 1, &d)) {
            Err(e) if e.starts_with("PANIC") => viol("", format!("{n} empty run markers: {e}")),
            _ => Ok(()),
        }
    });

    // New-style run-length scanlines.
    let w8 = if c.quick { 8 } else { 10 };
    c.explore("new-rle", "every division of an 8-pixel (10-pixel) channel into literal blocks and runs, for each channel in turn, also overlong and with empty literal blocks", |ch| {
        let w = ch.range(8, w8) as usize;
        let which = ch.pick(4);
        let (mut plan, mut left, mut over) = (vec![], w, false);
        while left > 0 {
            let k = ch.pick(left + 1);
            let run = ch.flag();
            // k == left means: one more than fits.
            let n = if k == left { left + 1 } else { k + 1 };
            over = n > left;
            plan.push((run, n));
            if over {
                break;
            }
            left -= n;
        }
        let empty = ch.flag();
        let base: Vec<(bool, usize)> = vec![(false, 3), (true, w - 3)];
        let mut line = vec![2, 2, 0, w as u8];
        let mut chans = vec![];
        for k in 0..4 {
            let p = if k == which { &plan } else { &base };
            let salt = if k == 3 { 120 } else { 40 * k as u8 + 9 };
            let d = data_for(p, salt);
            let mut cd = code(&d, p);
            if k == which && empty {
                cd.insert(0, 0);
            }
            line.extend(cd);
            chans.push(d);
        }
        if over {
            line.extend([3; 64]);
        }
        let two = [line.clone(), line].concat();
        let out = dec(&hdr(FMT, w as u32, 2, &two));
        ch.validated();
        ch.state(hash_of(&(which, &plan)));
        if over {
            return refused(&format!("channel {which} {plan:?} overlong"), &out);
        }
        let px: Vec<Px> = (0..2 * w).map(|i| std::array::from_fn(|k| chans[k][i % w])).collect();
        same(&format!("new-style channel {which} {plan:?} empty={empty}"), w as u32, 2, &px, &out)
    });
    c.explore("new-rle-long", "widths around 127, 128, 255, 256, 512 and 32767 cut into runs and literals of every extreme length", |ch| {
        let w = ch.of(&[8usize, 126, 127, 128, 129, 130, 254, 255, 256, 257, 300, 512, 1000, 32767]);
        let (rl, ll) = (ch.of(&[1usize, 2, 126, 127]), ch.of(&[1usize, 127, 128]));
        let first_run = ch.flag();
        let (mut plan, mut left, mut run) = (vec![], w, first_run);
        while left > 0 {
            let n = left.min(if run { rl } else { ll });
            plan.push((run, n));
            left -= n;
            run = !run;
        }
        let mut line = vec![2, 2, (w >> 8) as u8, w as u8];
        let chans: Vec<Vec<u8>> = (0..4).map(|k| data_for(&plan, 31 * k + 90)).collect();
        for d in &chans {
            line.extend(code(d, &plan));
        }
        let px: Vec<Px> = (0..w).map(|i| std::array::from_fn(|k| chans[k][i])).collect();
        ch.validated();
        same(&format!("new-style width {w} runs {rl} literals {ll}"), w as u32, 1, &px, &dec(&hdr(FMT, w as u32, 1, &line)))
    });
    c.explore("mixed-lines", "every sequence of flat, old-style and new-style scanlines in an image of width 8, three lines", |ch| {
        let w = 8;
        let (mut d, mut px): (Vec<u8>, Vec<Px>) = (vec![], vec![]);
        for y in 0..3u8 {
            match ch.pick(3) {
                0 => {
                    let row: Vec<Px> = (0..w).map(|x| [200, x as u8, y, 128]).collect();
                    d.extend(row.concat());
                    px.extend(row);
                }
                1 => {
                    d.extend([[200, y, 9, 130], [1, 1, 1, 6], [5, 5, 5, 5]].concat());
                    px.extend([[200, y, 9, 130]; 7]);
                    px.push([5, 5, 5, 5]);
                }
                _ => {
                    d.extend([2, 2, 0, 8]);
                    let p = vec![(true, 4), (false, 4)];
                    let cs: Vec<Vec<u8>> = (0..4).map(|k| data_for(&p, y * 3 + k * 50)).collect();
                    for c in &cs {
                        d.extend(code(c, &p));
                    }
                    px.extend((0..w).map(|i| -> Px { std::array::from_fn(|k| cs[k][i]) }));
                }
            }
        }
        ch.validated();
        same("mixed", 8, 3, &px, &dec(&hdr(FMT, 8, 3, &d)))
    });
    c.explore("truncation", "every proper prefix of a flat, an old-style and a new-style file: refused", |ch| {
        let f = match ch.pick(3) {
            0 => hdr(FMT, 3, 2, &A.repeat(6)),
            1 => hdr(FMT, 5, 1, &[A, [1, 1, 1, 4]].concat()),
            _ => {
                let p = vec![(false, 5), (true, 4)];
                let mut l = vec![2, 2, 0, 9];
                for k in 0..4 {
                    l.extend(code(&data_for(&p, k * 60), &p));
                }
                hdr(&["# c", "FORMAT=32-bit_rle_rgbe", "EXPOSURE=2"], 9, 1, &l)
            }
        };
        let n = ch.pick(f.len());
        ch.validated();
        refused(&format!("cut at {n} of {}", f.len()), &dec(&f[..n]))
    });

    // Header lines.
    c.explore("header", "every sequence of up to 3 (4) header lines out of 22 kinds, strict and lenient: acceptance, dimensions, pixels and metadata", |ch| {
        const LINES: [&str; 22] = [
            "FORMAT=32-bit_rle_rgbe", "FORMAT= 32-bit_rle_rgbe ", "FORMAT=32-bit_rle_xyze", "# comment", "#EXPOSURE=9", "EXPOSURE=2.5", "EXPOSURE= 4 ", "EXPOSURE=x", "PIXASPECT=0.5", "PIXASPECT=", "PIXASPECT=-",
            "COLORCORR=1 2 3", "COLORCORR= 0.5 0.5  2 ", "COLORCORR=1 2", "COLORCORR=1 2 3 4", "SOFTWARE=a=b", "rpict -x 1", "=", "=x", " GAMMA =1", "EXPOSURE", "\t",
        ];
        let strict = ch.flag();
        let n = ch.pick(if ch.quick { 4 } else { 5 });
        let ls: Vec<&str> = (0..n).map(|_| ch.of(&LINES)).collect();
        let (mut ok, mut exp, mut asp, mut cc): (bool, Option<f32>, Option<f32>, Option<(f32, f32, f32)>) = (true, None, None, None);
        let mut attrs: Vec<(String, String)> = vec![];
        for l in &ls {
            if l.starts_with('#') {
                continue;
            }
            let kv = match l.find('=') {
                Some(p) if p > 0 && p + 1 < l.len() => Some((l[..p].trim(), &l[p + 1..])),
                _ => None,
            };
            attrs.push(kv.map(|(k, v)| (k.into(), v.into())).unwrap_or((String::new(), l.to_string())));
            match kv {
                Some(("FORMAT", v)) => ok &= v.trim() == "32-bit_rle_rgbe",
                Some(("EXPOSURE", v)) => match v.trim().parse::<f32>() {
                    Ok(x) => exp = Some(exp.unwrap_or(1.0) * x),
                    Err(_) => ok &= !strict,
                },
                Some(("PIXASPECT", v)) => match v.trim().parse::<f32>() {
                    Ok(x) => asp = Some(asp.unwrap_or(1.0) * x),
                    Err(_) => ok &= !strict,
                },
                Some(("COLORCORR", v)) => {
                    let x: Vec<f32> = v.split_whitespace().map(|s| s.parse().unwrap()).collect();
                    if x.len() < 3 || (strict && x.len() > 3) {
                        ok &= !strict;
                    } else {
                        let (a, b, c) = cc.unwrap_or((1., 1., 1.));
                        cc = Some((a * x[0], b * x[1], c * x[2]));
                    }
                }
                _ => {}
            }
        }
        let f = hdr(&ls, 2, 1, &[A, B].concat());
        let out = dec_with(&f, strict);
        ch.validated();
        ch.outcome(hash_of(&(strict, &ls)));
        ch.sample(|| format!("{ls:?} strict={strict} ok={ok}"));
        if !ok {
            return refused(&format!("{ls:?} strict={strict}"), &out);
        }
        // Without strictness the signature line itself is a header line.
        same(&format!("{ls:?} strict={strict}"), 2, 1, &[A, B], &out)?;
        let m = HdrDecoder::with_strictness(Cursor::new(&f[..]), strict).map_err(|e| e.to_string())?.metadata();
        ensure_eq!((m.exposure, m.pixel_aspect_ratio, m.color_correction), (exp, asp, cc), "{ls:?} strict={strict}: metadata");
        ensure_eq!(m.custom_attributes, attrs, "{ls:?}: attributes");
        ensure_eq!((m.width, m.height, m.orientation), (2, 1, ((1, 0), (0, 1))), "metadata");
        Ok(())
    });
    c.explore("dimensions-line", "dimension lines with every axis pair, spacing and malformed number", |ch| {
        let (a, b) = (ch.of(&["-Y", "+Y", "-X", "+X", "Y", ""]), ch.of(&["+X", "-X", "+Y", "-Y", "x"]));
        let (na, nb) = (ch.of(&["1", "2", "0", "-1", "x", "4294967296", "01"]), ch.of(&["2", "1", "0", "1.0", "99999999999"]));
        let (s1, s2) = (ch.of(&[" ", "  ", "\t"]), ch.of(&["", " ", " z"]));
        let mut f = b"#?RADIANCE\n\n".to_vec();
        f.extend(format!("{a}{s1}{na} {b}{s1}{nb}{s2}\n").bytes());
        f.extend([A; 4].concat());
        let out = dec(&f);
        ch.validated();
        let (h, w) = (na.parse::<u32>(), nb.parse::<u32>());
        if let (true, Ok(h), Ok(w)) = ((a, b) == ("-Y", "+X") && s2 != " z", h, w) {
            return same("dimension line", w, h, &vec![A; (w * h) as usize], &out);
        }
        refused(&format!("dimensions {a}{s1}{na} {b}{s1}{nb}{s2}"), &out)
    });
    c.explore("signature", "every single-byte change of the signature is refused; text after it is ignored", |ch| {
        let i = ch.pick(11);
        let v = ch.range(0, 255) as u8;
        let mut f = hdr(FMT, 1, 1, &A);
        if i == 10 {
            f.splice(10..10, [b' ', v]);
            if v == b'\n' {
                return Ok(());
            }
            ch.validated();
            return same("text after the signature", 1, 1, &[A], &dec(&f));
        }
        let same_byte = f[i] == v;
        f[i] = v;
        ch.validated();
        if same_byte { same("signature", 1, 1, &[A], &dec(&f)) } else { refused(&format!("signature byte {i} = {v}"), &dec(&f)) }
    });

    // Encoding.
    let ms: Vec<u32> = if c.quick { vec![0, 1, 0x3F_FFFF, 0x40_0000, 0x7F_0000, 0x7F_FFFF, 0x55_5555, 0x08_0000] } else { (0..64).map(|k| k * 0x1_FFFF % 0x80_0000).chain([0, 1, 2, 0x7F_FFFF, 0x7F_FFFE, 0x40_0000, 0x3F_FFFF]).collect() };
    c.explore("encode", "every float exponent x boundary mantissas as the largest channel x 16 ratios of the others x each channel order, narrow (flat) and wide (run-length) rows: within one quantum, never wild", |ch| {
        let e = ch.range(0, 254) as u32;
        let m = ch.of(&ms);
        let wide = ch.flag();
        let big = f32::from_bits(e << 23 | m);
        let rat = [1.0f32, 0.99999994, 0.5, 0.50000006, 0.25, 0.003, 0.0039, 1. / 256., 1. / 512., 0.0, -0.0, 1e-30, 0.75, 0.9961, 0.7, 0.1];
        let mut px: Vec<Rgb<f32>> = vec![];
        for (i, r) in rat.iter().enumerate() {
            let s = rat[(i * 7 + 3) % 16];
            for o in [[0, 1, 2], [1, 2, 0], [2, 0, 1]] {
                let t = [big, big * r, big * s];
                px.push(Rgb([t[o[0]], t[o[1]], t[o[2]]]));
            }
        }
        let w = if wide { 16 } else { 3 };
        let h = px.len() / w;
        let mut f = vec![];
        if let Err(e) = catch(|| HdrEncoder::new(&mut f).encode(&px, w, h)).map_err(|p| format!("PANIC {p}"))? {
            return viol("", format!("encoding {big:e}: {e}"));
        }
        let (ow, oh, v) = match dec(&f) {
            Ok(o) => o,
            Err(e) => return viol("", format!("file of {big:e} refused: {e}")),
        };
        ensure_eq!((ow as usize, oh as usize), (w, h), "dimensions");
        ch.steps(px.len() as u64);
        ch.outcome(hash_of(&(e, m, wide)));
        ch.validated();
        ch.sample(|| format!("largest channel {big:e}"));
        const MAX: f64 = 255.0 * 664613997892457936451903530140172288.0; // 255 * 2^119
        for (i, p) in px.iter().enumerate() {
            let mx = p.0.iter().fold(0f64, |a, b| a.max(*b as f64)).min(MAX);
            // The shared exponent's quantum is at most mx / 128, and nothing below 2^-127 is representable.
            let tol = (mx / 128.0).max(2f64.powi(-127)) * 1.0000001;
            for k in 0..3 {
                let (want, got) = ((p.0[k] as f64).min(MAX), v[i * 3 + k] as f64);
                ensure!((want - got).abs() <= tol && got.is_finite(), "pixel {:?} comes back as {:?} (tolerance {tol:e})", p.0, &v[i * 3..i * 3 + 3]);
            }
        }
        Ok(())
    });
    c.explore("encode-odd", "rows of every width 0..=12 and around 128 and 32767 of values incl. negative, infinite and NaN: decodes, ordinary neighbours unharmed", |ch| {
        let w = ch.of(&[0usize, 1, 2, 3, 7, 8, 9, 12, 127, 128, 129, 130, 256, 32766, 32767, 32768, 65535, 65536, 70000]);
        let odd = ch.of(&[-1.0f32, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN_POSITIVE, 1e-45, 0.0]);
        let at = ch.of(&[0usize, 1, 5]);
        let h = if w > 1000 { 1 } else { 2 };
        let mut px = vec![Rgb([1.0f32, 0.5, 0.25]); w * h];
        if let Some(p) = px.get_mut(at) {
            p.0[1] = odd;
        }
        let mut f = vec![];
        catch(|| HdrEncoder::new(&mut f).encode(&px, w, h)).map_err(|p| format!("PANIC {p}"))?.map_err(|e| e.to_string())?;
        let (ow, oh, v) = dec(&f).map_err(|e| format!("width {w} with {odd}: {e}"))?;
        ensure_eq!((ow as usize, oh as usize), (w, h), "dimensions");
        ch.validated();
        for (i, p) in v.chunks(3).enumerate() {
            ensure!(i == at || p == [1.0, 0.5, 0.25], "width {w}: pixel {i} next to {odd} came back as {p:?}");
            ensure!(p.iter().all(|x| x.is_finite() && *x >= 0.0), "width {w}: {odd} came back as {p:?}");
        }
        Ok(())
    });
    c.finish()
}
