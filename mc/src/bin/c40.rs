//! C40: OpenEXR files decode to the samples the format defines and are written exactly.
//! TECHNIQUE: exhaustive enumeration of windows, sizes, channel lists, sample kinds, compressions, tilings, levels, chunk orders and lists of parts from an independent model of the format, each decoded by the real decoder and compared bit by bit; what the real encoder writes is read by the model
//! LEVEL: model_checking
//! NOTE: PIZ, B44 and DWA compression are not modelled. Everything from the file's header to the pixels in the display window is.
use image::codecs::openexr::{OpenExrDecoder, OpenExrEncoder};
use image::*;
use mc::forge::{exr, ExrPart};
use mc::*;
use std::collections::HashMap;
use std::io::Cursor;

type Out = Result<(u32, u32, ColorType, Vec<f32>), String>;
fn run(b: &[u8], alpha: Option<bool>) -> Out {
    catch(|| -> ImageResult<_> {
        let d = OpenExrDecoder::with_alpha_preference(Cursor::new(b), alpha)?;
        let ((w, h), c) = (d.dimensions(), d.color_type());
        let mut o = vec![0x5Au8; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, c, o.chunks(4).map(|v| f32::from_ne_bytes(v.try_into().unwrap())).collect()))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
fn dec_open(b: &[u8]) -> Out {
    let d = catch(|| ImageReader::new(Cursor::new(b)).with_guessed_format().unwrap().decode()).map_err(|p| format!("PANIC {p}"))?.map_err(|e| e.to_string())?;
    Ok((d.width(), d.height(), d.color(), d.as_bytes().chunks(4).map(|v| f32::from_ne_bytes(v.try_into().unwrap())).collect()))
}
fn half(v: u32) -> f32 {
    let s = if v & 0x8000 != 0 { -1.0f64 } else { 1.0 };
    let (e, m) = ((v >> 10 & 31) as i32, (v & 1023) as f64);
    (match e {
        0 => s * m * 2f64.powi(-24),
        31 if m == 0.0 => s * f64::INFINITY,
        31 => f64::NAN,
        _ => s * (1.0 + m / 1024.0) * 2f64.powi(e - 15),
    }) as f32
}
fn value(kind: u32, bits: u32) -> f32 {
    match kind {
        0 => bits as f32,
        1 => half(bits),
        _ => f32::from_bits(bits),
    }
}
fn mix(a: u32, b: u32, c: u32, d: u32) -> u32 {
    let mut v = a.wrapping_mul(0x9E3779B1) ^ b.wrapping_mul(0x85EBCA6B) ^ c.wrapping_mul(0xC2B2AE35) ^ d.wrapping_mul(0x27D4EB2F) ^ 0x1234567;
    v ^= v >> 15;
    v = v.wrapping_mul(0x2C1B3C6D);
    v ^= v >> 12;
    v
}
/// A sample that differs between parts, channels, levels and positions; finite, and exact in PXR24.
fn sample(p: usize, name: &str, l: (u32, u32), x: u32, y: u32, kind: u32) -> u32 {
    let v = mix(x + 100 * y, name.bytes().map(|b| b as u32).sum(), l.0 * 8 + l.1, p as u32);
    match kind {
        0 => v >> 6,
        1 => v & 0xBFFF & !0x4000 | 0x0400,
        _ => v & 0x3FFF_FF00 | v << 31,
    }
}
/// What the decoder has to deliver for a part.
fn want(p: usize, part: &ExrPart, display: [i32; 4], alpha: bool, f: &mut dyn FnMut(usize, &str, u32, u32, u32) -> u32) -> Vec<f32> {
    let mut out = vec![];
    let kind: HashMap<&str, u32> = part.channels.iter().map(|c| (c.0, c.1)).collect();
    for y in display[1]..=display[3] {
        for x in display[0]..=display[2] {
            let inside = x >= part.data[0] && x <= part.data[2] && y >= part.data[1] && y <= part.data[3];
            for c in if alpha { &["R", "G", "B", "A"][..] } else { &["R", "G", "B"] } {
                out.push(match kind.get(c) {
                    _ if !inside => 0.0,
                    None => 1.0,
                    Some(k) => value(*k, f(p, c, (x - part.data[0]) as u32, (y - part.data[1]) as u32, *k)),
                });
            }
        }
    }
    out
}
fn eq(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}
fn check(what: &str, parts: &[ExrPart], chosen: usize, display: [i32; 4], shuffle: usize, f: &mut dyn FnMut(usize, &str, (u32, u32), u32, u32, u32) -> u32) -> Res {
    let b = exr(parts, display, shuffle, &mut |p, c, l, x, y| {
        let k = parts[p].channels.iter().find(|q| q.0 == c).unwrap().1;
        f(p, c, l, x, y, k)
    });
    let (w, h) = ((display[2] - display[0] + 1) as u32, (display[3] - display[1] + 1) as u32);
    let has = parts[chosen].channels.iter().any(|c| c.0 == "A");
    for (via, pref, got) in [("new", None, run(&b, None)), ("with alpha", Some(true), run(&b, Some(true))), ("without alpha", Some(false), run(&b, Some(false))), ("ImageReader", None, dec_open(&b))] {
        let (a, k, c, v) = match got {
            Ok(g) => g,
            Err(e) => return viol(if e.starts_with("PANIC") { "panic" } else { "refused" }, format!("{what} {via}: {e}")),
        };
        need!((a, k) == (w, h), "size", "{what} {via}: {a}x{k} instead of {w}x{h}");
        let alpha = pref.unwrap_or(has);
        let color = if alpha { ColorType::Rgba32F } else { ColorType::Rgb32F };
        need!(c == color, "color", "{what} {via}: {c:?} instead of {color:?}");
        let z = want(chosen, &parts[chosen], display, alpha, &mut |p, c, x, y, k| f(p, c, (0, 0), x, y, k));
        need!(z.len() == v.len(), "pixels", "{what} {via}: {} samples instead of {}", v.len(), z.len());
        if let Some(i) = (0..z.len()).find(|i| !eq(z[*i], v[*i])) {
            let n = if alpha { 4 } else { 3 };
            return viol("pixels", format!("{what} {via}: pixel ({}, {}) channel {}: {:?} instead of {:?}", i / n % w as usize, i / n / w as usize, i % n, v[i], z[i]));
        }
    }
    Ok(())
}
fn bad(b: &[u8], what: &str) -> Res {
    for (via, r) in [("decoder", run(b, None)), ("ImageReader", dec_open(b))] {
        match r {
            Ok(g) => return viol("accepted", format!("{what} through {via}: decoded as {}x{} {:?}", g.0, g.1, g.2)),
            Err(e) => need!(!e.starts_with("PANIC"), "panic", "{what} through {via}: {e}"),
        }
    }
    Ok(())
}

/// Reads a file of one part, flat, uncompressed or RLE, in scan lines or tiles of one level.
fn model_read(b: &[u8]) -> Result<([i32; 4], [i32; 4], Vec<(String, u32)>, HashMap<(String, i32, i32), u32>), String> {
    let le = |at: usize| -> Result<u32, String> { Ok(u32::from_le_bytes(b.get(at..at + 4).ok_or("short")?.try_into().unwrap())) };
    if b[..4] != [0x76, 0x2F, 0x31, 0x01] {
        return Err("signature".into());
    }
    let flags = le(4)?;
    if flags & 0xFF != 2 || flags & !0x6FF != 0 {
        return Err(format!("version {flags:#x}"));
    }
    let mut at = 8;
    let mut attrs: HashMap<String, (String, Vec<u8>)> = HashMap::new();
    let text = |at: &mut usize| -> Result<String, String> {
        let n = b[*at..].iter().position(|v| *v == 0).ok_or("no end")?;
        let s = String::from_utf8(b[*at..*at + n].to_vec()).map_err(|e| e.to_string())?;
        *at += n + 1;
        Ok(s)
    };
    while b[at] != 0 {
        let (n, t) = (text(&mut at)?, text(&mut at)?);
        let len = le(at)? as usize;
        attrs.insert(n, (t, b[at + 4..at + 4 + len].to_vec()));
        at += 4 + len;
    }
    at += 1;
    let get = |n: &str, t: &str| -> Result<&Vec<u8>, String> {
        let (k, v) = attrs.get(n).ok_or(format!("no {n}"))?;
        if k != t { Err(format!("{n} is {k}")) } else { Ok(v) }
    };
    let box2 = |v: &[u8]| -> [i32; 4] { [0, 4, 8, 12].map(|k| i32::from_le_bytes(v[k..k + 4].try_into().unwrap())) };
    let data = box2(get("dataWindow", "box2i")?);
    let disp = box2(get("displayWindow", "box2i")?);
    for (n, t) in [("lineOrder", "lineOrder"), ("pixelAspectRatio", "float"), ("screenWindowCenter", "v2f"), ("screenWindowWidth", "float")] {
        get(n, t)?;
    }
    let mut ch = vec![];
    let v = get("channels", "chlist")?;
    let mut i = 0;
    while v[i] != 0 {
        let n = v[i..].iter().position(|x| *x == 0).unwrap();
        let name = String::from_utf8(v[i..i + n].to_vec()).unwrap();
        i += n + 1;
        let g = |k: usize| u32::from_le_bytes(v[i + k..i + k + 4].try_into().unwrap());
        if (g(8), g(12)) != (1, 1) {
            return Err("sampling".into());
        }
        ch.push((name, g(0)));
        i += 16;
    }
    if ch.windows(2).any(|p| p[0].0 >= p[1].0) {
        return Err("channels out of order".into());
    }
    let (w, h) = ((data[2] - data[0] + 1) as usize, (data[3] - data[1] + 1) as usize);
    let comp = get("compression", "compression")?[0];
    let tiled = flags & 0x200 != 0;
    let (tw, th) = if tiled {
        let v = get("tiles", "tiledesc")?;
        if v[8] & 15 != 0 {
            return Err("levels".into());
        }
        (u32::from_le_bytes(v[..4].try_into().unwrap()) as usize, u32::from_le_bytes(v[4..8].try_into().unwrap()) as usize)
    } else {
        (w, [1, 1, 1, 16][comp as usize])
    };
    let n = w.div_ceil(tw) * h.div_ceil(th);
    let mut out = HashMap::new();
    for k in 0..n {
        let mut p = u64::from_le_bytes(b[at + 8 * k..at + 8 * k + 8].try_into().unwrap()) as usize;
        let (x0, y0) = if tiled {
            let t = (le(p)? as usize, le(p + 4)? as usize);
            if (le(p + 8)?, le(p + 12)?) != (0, 0) || k != t.1 * w.div_ceil(tw) + t.0 {
                return Err(format!("chunk {k} is tile {t:?}"));
            }
            p += 16;
            (t.0 * tw, t.1 * th)
        } else {
            p += 4;
            (0, le(p - 4)? as usize)
        };
        let (x1, y1) = ((x0 + tw).min(w), (y0 + th).min(h));
        let size: usize = ch.iter().map(|c| if c.1 == 1 { 2 } else { 4 }).sum::<usize>() * (x1 - x0) * (y1 - y0);
        let len = le(p)? as usize;
        let d = b.get(p + 4..p + 4 + len).ok_or("short chunk")?;
        let raw = if comp == 0 || len == size {
            d.to_vec()
        } else if comp == 1 {
            let mut o: Vec<u8> = vec![];
            let mut i = 0;
            while i < d.len() {
                let c = d[i] as i8 as i32;
                if c < 0 {
                    o.extend(&d[i + 1..i + 1 + (-c) as usize]);
                    i += 1 + (-c) as usize;
                } else {
                    o.extend(std::iter::repeat(d[i + 1]).take(c as usize + 1));
                    i += 2;
                }
            }
            for i in 1..o.len() {
                o[i] = o[i].wrapping_add(o[i - 1]).wrapping_sub(128);
            }
            let m = o.len().div_ceil(2);
            (0..o.len()).map(|i| if i % 2 == 0 { o[i / 2] } else { o[m + i / 2] }).collect()
        } else {
            return Err(format!("compression {comp}"));
        };
        if raw.len() != size {
            return Err(format!("chunk {k} has {} bytes instead of {size}", raw.len()));
        }
        let mut i = 0;
        for y in y0..y1 {
            for (c, kind) in &ch {
                for x in x0..x1 {
                    let v = if *kind == 1 { u16::from_le_bytes([raw[i], raw[i + 1]]) as u32 } else { u32::from_le_bytes(raw[i..i + 4].try_into().unwrap()) };
                    i += if *kind == 1 { 2 } else { 4 };
                    if out.insert((c.clone(), x as i32, y as i32), v).is_some() {
                        return Err(format!("{c} at {x},{y} twice"));
                    }
                }
            }
        }
    }
    if out.len() != w * h * ch.len() {
        return Err("incomplete".into());
    }
    Ok((data, disp, ch, out))
}

fn main() {
    let mut c = Check::start("C40", "model_checking", "each case is one file of the model decoded four ways by the real decoder, or one image written by the real encoder and read by the model; non-deterministic choices: windows, sizes, channels, sample kinds and values, compression, tiles and levels, chunk order, parts");
    let q = c.quick;
    let rgb: &[(&str, u32)] = &[("B", 2), ("G", 2), ("R", 2)];
    let rgba: &[(&str, u32)] = &[("A", 2), ("B", 2), ("G", 2), ("R", 2)];
    c.explore("windows", "display windows at 2 (4) origins of sizes to 3 x 2, data windows at every offset from -4 to 4 of sizes to 5 x 4, RGB and RGBA, lines and tiles", |ch| {
        let (dx, dy) = ch.of(if q { &[(0, 0), (-2, 3)] } else { &[(0, 0), (-2, 3), (5, -7), (1000, 1)] });
        let (dw, dh) = (ch.range(1, 3) as i32, ch.range(1, 2) as i32);
        let display = [dx, dy, dx + dw - 1, dy + dh - 1];
        let (ox, oy) = (ch.range(-4, 4) as i32, ch.range(-4, 4) as i32);
        let (w, h) = if q { ch.of(&[(1, 1), (2, 3), (5, 2)]) } else { (ch.range(1, 5) as i32, ch.range(1, 4) as i32) };
        let data = [dx + ox, dy + oy, dx + ox + w - 1, dy + oy + h - 1];
        let mut p = ExrPart::new(if ch.flag() { rgba } else { rgb }, data);
        if ch.flag() {
            p.tiles = Some((2, 2, 0));
        }
        p.compression = if (ox + oy) % 2 == 0 { 0 } else { 1 };
        ch.state(hash_of(&(display, data)));
        ch.validated();
        ch.sample(|| format!("display {display:?}, data {data:?}"));
        check(&format!("display {display:?}, data {data:?}"), &[p], 0, display, 0, &mut sample)
    });
    c.explore("layouts", "sizes to 9 x 5 and ones around 16 and 64, five compressions, lines in three orders and tiles of 8 sizes with all level modes and roundings, RGB or RGBA of each sample kind, with other channels", |ch| {
        let (w, h) = if ch.flag() { (ch.range(1, if q { 3 } else { 9 }) as i32, ch.range(1, if q { 2 } else { 5 }) as i32) } else { ch.of(&[(1, 15), (2, 16), (3, 17), (17, 33), (64, 2), (65, 3), (2, 65), (130, 1)]) };
        let k = ch.of(if q { &[1u32, 3] } else { &[0, 1, 2, 3] });
        let kinds = if k == 3 { [1, 2, 0, 1] } else { [k; 4] };
        let list = ch.of(if q { &[0usize, 3] } else { &[0, 1, 2, 3] });
        let mut cs: Vec<(&'static str, u32)> = vec![("B", kinds[0]), ("G", kinds[1]), ("R", kinds[2])];
        if list % 2 == 1 {
            cs.push(("A", kinds[3]));
        }
        if list >= 2 {
            cs.extend([("AR", 2), ("Z", 1), ("C", 0), ("left.R", 1), ("a", 2), ("r", 2)]);
        }
        cs.sort();
        let mut p = ExrPart::new(&cs, [0, 0, w - 1, h - 1]);
        p.compression = ch.of(&[0, 1, 2, 3, 5]);
        let layout = ch.pick(2);
        if layout == 0 {
            p.order = ch.pick(3) as u8;
            if q && w > 9 && k != 3 {
                return Ok(());
            }
        } else {
            let (tw, th) = ch.of(&[(1, 1), (2, 3), (4, 4), (5, 1), (1, 16), (16, 16), (64, 64), (200, 100)]);
            p.tiles = Some((tw, th, ch.of(&[0, 1, 17, 2, 18])));
            p.order = ch.of(&[0, 2]);
            if q && (tw, th) == (4, 4) || (w > 9 || h > 9) && (q && list != 3 || tw < 4 && (q || list != 3)) {
                return Ok(());
            }
        }
        let shift = if (w + h) % 2 == 0 { [0; 4] } else { [-3, 7, -3, 7] };
        for i in 0..4 {
            p.data[i] += shift[i];
        }
        let display = p.data;
        ch.steps((w * h) as u64);
        ch.state(hash_of(&(w, h, kinds, list, p.compression, p.tiles, p.order)));
        ch.validated();
        ch.sample(|| format!("{p:?}"));
        check(&format!("{p:?}"), &[p.clone()], 0, display, 1 + (w as usize), &mut sample)
    });
    c.explore("values", "all 65536 half floats in every channel; floats of every exponent and sign with extreme mantissas; integers of every bit length, exact to the nearest float", |ch| {
        let kind = ch.pick(3) as u32;
        let at = ch.of(&["R", "G", "B", "A"]);
        let vals: Vec<u32> = match kind {
            1 => (0..65536).collect(),
            2 => (0..=255u32).flat_map(|e| [0u32, 1, 0x400000, 0x7FFFFF, 0x2AAAAA].into_iter().flat_map(move |m| [e << 23 | m, 1 << 31 | e << 23 | m])).collect(),
            _ => (0..=32u32).flat_map(|b| { let v = if b == 32 { u32::MAX } else { 1u32 << b }; [v, v.wrapping_sub(1), v.wrapping_add(1), v ^ (v >> 3), v | v >> 24, v | v >> 25] }).collect(),
        };
        let w = 256.min(vals.len());
        let h = vals.len().div_ceil(w);
        let mut p = ExrPart::new(&[("A", kind), ("B", kind), ("G", kind), ("R", kind)], [0, 0, w as i32 - 1, h as i32 - 1]);
        p.compression = ch.of(&[0, 1, 3]);
        if ch.flag() {
            p.tiles = Some((64, 32, 0));
        }
        ch.steps(vals.len() as u64);
        ch.validated();
        let display = p.data;
        check(&format!("values of kind {kind} in {at}"), &[p], 0, display, 0, &mut |_, c, _, x, y, _| if c == at { vals[(y as usize * w + x as usize) % vals.len()] } else { x })
    });
    let kinds: [(&str, &[(&'static str, u32)], bool); 6] = [("rgb", rgb, false), ("rgba", rgba, false), ("gray", &[("Y", 1)], false), ("half rgba", &[("A", 1), ("B", 1), ("G", 1), ("R", 1)], false), ("rg", &[("G", 2), ("R", 2), ("a", 2)], false), ("deep rgb", rgb, true)];
    c.explore("parts", "all lists of up to three (four) parts of six kinds, lines or tiles, each with its own data window: the first one with red, green and blue is decoded; files with deep parts are refused", |ch| {
        let n = ch.range(1, if q { 3 } else { 4 }) as usize;
        let display = ch.of(&[[0, 0, 3, 2], [-1, 2, 2, 2]]);
        let names = ["one", "two", "three", "four"];
        let mut parts = vec![];
        let mut text = String::new();
        for i in 0..n {
            let k = ch.pick(6);
            let (name, cs, deep) = kinds[k as usize];
            text += name;
            text += ", ";
            let data = [[0, 0, 3, 2], [-2, 1, 2, 4], [3, 2, 3, 2], [-1, -1, 5, 5]][(i + k) % 4];
            let mut p = ExrPart::new(cs, data);
            p.name = Some(names[i]);
            p.deep = deep;
            p.compression = if deep { 0 } else { [0, 1, 3, 2][i] };
            if !deep && (if n < 3 { ch.flag() } else { i % 2 == 0 }) {
                p.tiles = Some((2, 2, 0));
            }
            parts.push(p);
        }
        ch.state(hash_of(&text));
        ch.sample(|| text.clone());
        // The exr crate refuses files with any deep part.
        let deep = parts.iter().any(|p| p.deep);
        match parts.iter().position(|p| !deep && ["R", "G", "B"].iter().all(|c| p.channels.iter().any(|d| d.0 == *c))) {
            Some(k) => {
                ch.validated();
                check(&format!("parts {text}display {display:?}"), &parts, k, display, 0, &mut sample)
            }
            None => bad(&exr(&parts, display, 0, &mut |_, _, _, _, _| 0), &format!("parts {text}")),
        }
    });
    c.explore("refused", "every incomplete set of channels; sub-sampled channels; every cut; wrong signatures and versions; empty and extreme windows", |ch| {
        let p = ExrPart::new(rgba, [0, 0, 4, 3]);
        let file = |p: &ExrPart, d: [i32; 4]| exr(&[p.clone()], d, 0, &mut |q, c, l, x, y| sample(q, c, l, x, y, 2));
        match ch.pick(6) {
            0 => {
                for set in 1..256u32 {
                    let all = ["A", "B", "G", "R", "RY", "Y", "b", "r"];
                    let cs: Vec<(&'static str, u32)> = (0..8).filter(|i| set >> i & 1 == 1).map(|i| (all[i], 2)).collect();
                    if set & 14 == 14 {
                        let p = ExrPart::new(&cs, [0, 0, 2, 1]);
                        check(&format!("channels {cs:?}"), &[p], 0, [0, 0, 2, 1], 0, &mut sample)?;
                    } else {
                        bad(&file(&ExrPart::new(&cs, [0, 0, 2, 1]), [0, 0, 2, 1]), &format!("channels {cs:?}"))?;
                    }
                    ch.step();
                }
            }
            1 => {
                for i in 0..4 {
                    let mut p = ExrPart::new(rgba, [0, 0, 3, 3]);
                    p.channels[i].2 = 2;
                    let f = exr(&[p.clone()], [0, 0, 3, 3], 0, &mut |_, _, _, _, _| 0);
                    bad(&f, &format!("{} of every second pixel", p.channels[i].0))?;
                }
            }
            2 => {
                let comp = ch.of(&[0, 1, 2, 3, 5]);
                let mut p = p.clone();
                p.compression = comp;
                if ch.flag() {
                    p.tiles = Some((3, 2, 0));
                }
                let f = file(&p, [0, 0, 4, 3]);
                for cut in 0..f.len() {
                    bad(&f[..cut], &format!("compression {comp} cut to {cut} of {}", f.len()))?;
                    ch.step();
                }
            }
            3 => {
                let f = file(&p, [0, 0, 4, 3]);
                for i in 0..4 {
                    for v in 0..=255u8 {
                        if f[i] != v {
                            let mut b = f.clone();
                            b[i] = v;
                            bad(&b, &format!("signature byte {i} = {v}"))?;
                        }
                    }
                }
                for v in 3..=15u8 {
                    let mut b = f.clone();
                    b[4] = v;
                    bad(&b, &format!("version {v}"))?;
                }
            }
            4 => {
                // windows at the edges of what positions can express
                let m = i32::MAX / 2;
                let at = [-m + 1, -m + 2, -5, 0, 5, m - 10, m - 6];
                let (dx, dy) = (ch.of(&at), ch.of(&at));
                let (x, y) = (ch.of(&at), ch.of(&at));
                let display = [dx, dy, dx + 2, dy + 1];
                let data = [x, y, x + 1, y + 2];
                check(&format!("display {display:?}, data {data:?}"), &[ExrPart::new(rgb, data)], 0, display, 0, &mut sample)?;
            }
            _ => {
                let e = ch.of(&[i32::MIN, i32::MIN + 1, -1, 0, 1, i32::MAX - 1, i32::MAX]);
                let i = ch.pick(4);
                let mut f = file(&p, [0, 0, 4, 3]);
                for name in [&b"dataWindow"[..], b"displayWindow"] {
                    let at = f.windows(name.len()).position(|v| v == name).unwrap() + name.len() + 1 + 6 + 4;
                    f[at + 4 * i..at + 4 * i + 4].copy_from_slice(&e.to_le_bytes());
                    for (via, r) in [("decoder", run_small(&f)), ("header", head(&f))] {
                        if let Err(e) = r {
                            ensure!(!e.starts_with("PANIC"), "{} coordinate {i} = {e} through {via}: {e}", String::from_utf8_lossy(name));
                        }
                    }
                }
            }
        }
        Ok(())
    });
    c.explore("writing", "all sizes to 7 x 7 and ones around 64 and 128, RGB and RGBA, five contents including every special value, through the encoder and DynamicImage: the model reads back every bit", |ch| {
        let (w, h) = if ch.flag() { (ch.range(1, 7) as u32, ch.range(1, 7) as u32) } else { ch.of(&[(63, 2), (64, 1), (65, 1), (1, 64), (1, 65), (64, 64), (65, 65), (128, 3), (129, 66), (200, 1)]) };
        let n = ch.of(&[3usize, 4]);
        let kind = ch.pick(5);
        let special = [0.0f32, -0.0, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN_POSITIVE, 1e-45, 65504.0, 0.1];
        let v: Vec<f32> = (0..(w * h) as usize * n)
            .map(|i| match kind {
                0 => 0.5,
                1 => special[(i * 7 + i / 12) % 12],
                2 => f32::from_bits(mix(i as u32, 1, 2, 3)),
                3 => (i / n % w as usize) as f32 / 8.0,
                _ => (i % n) as f32,
            })
            .collect();
        let raw: Vec<u8> = v.iter().flat_map(|v| v.to_ne_bytes()).collect();
        let via = ch.pick(2);
        let out = if via == 0 {
            let mut o = Cursor::new(vec![]);
            OpenExrEncoder::new(&mut o).write_image(&raw, w, h, if n == 3 { ExtendedColorType::Rgb32F } else { ExtendedColorType::Rgba32F }).map_err(|e| e.to_string())?;
            o.into_inner()
        } else {
            let d = if n == 3 { DynamicImage::ImageRgb32F(ImageBuffer::from_raw(w, h, v.clone()).unwrap()) } else { DynamicImage::ImageRgba32F(ImageBuffer::from_raw(w, h, v.clone()).unwrap()) };
            let mut o = Cursor::new(vec![]);
            d.write_to(&mut o, ImageFormat::OpenExr).map_err(|e| e.to_string())?;
            o.into_inner()
        };
        let what = format!("{w}x{h} of {n} channels, content {kind}, way {via}");
        let (data, disp, cs, px) = catch(|| model_read(&out)).map_err(|p| format!("{what}: the model cannot read it: {p}"))?.map_err(|e| format!("{what}: {e}"))?;
        ensure!(data == disp && data == [0, 0, w as i32 - 1, h as i32 - 1], "{what}: windows {data:?} {disp:?}");
        let names: Vec<&str> = cs.iter().map(|c| c.0.as_str()).collect();
        ensure!(names == if n == 3 { vec!["B", "G", "R"] } else { vec!["A", "B", "G", "R"] } && cs.iter().all(|c| c.1 == 2), "{what}: channels {cs:?}");
        for (i, f) in v.iter().enumerate() {
            let at = (["R", "G", "B", "A"][i % n].to_string(), (i / n % w as usize) as i32, (i / n / w as usize) as i32);
            let got = f32::from_bits(px[&at]);
            ensure!(eq(got, *f), "{what}: {at:?} is {got:?} instead of {f:?}");
        }
        ch.steps(v.len() as u64);
        ch.outcome(hash_of(&(w, h, n, kind)));
        ch.validated();
        Ok(())
    });
    c.finish()
}
fn head(b: &[u8]) -> Result<(u32, u32), String> {
    catch(|| OpenExrDecoder::new(Cursor::new(b)).map(|d| d.dimensions())).map_err(|p| format!("PANIC {p}"))?.map_err(|e| e.to_string())
}
/// Decodes only what is small.
fn run_small(b: &[u8]) -> Result<(u32, u32), String> {
    let (w, h) = head(b)?;
    if w as u64 * h as u64 > 1 << 20 {
        return Err("large".into());
    }
    run(b, None).map(|r| (r.0, r.1))
}
