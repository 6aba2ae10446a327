//! C23: PNM decoding and encoding against an independent model of the formats.
//! TECHNIQUE: exhaustive enumeration of PNM headers, token separators, maxima and samples generated from a model of the formats, decoded by the real decoder; every header kind x colour x maximum encoded by the real encoder and parsed by an independent parser
//! LEVEL: model_checking
//! NOTE: Samples above the maximum may be clamped or refused; scaling may be off the exact value by 0.01 of a unit before rounding; tuple types with alpha are refused by the decoder, which the check accepts.
use image::codecs::pnm::*;
use image::*;
use mc::*;
use std::io::Cursor;

type Out = Result<(u32, u32, ColorType, Vec<u32>), String>;
fn dec(b: &[u8]) -> Out {
    catch(|| -> ImageResult<_> {
        let d = PnmDecoder::new(Cursor::new(b))?;
        let ((w, h), c) = (d.dimensions(), d.color_type());
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        let s = if util::bytes_per_sample(c) == 2 { o.chunks(2).map(|p| u16::from_ne_bytes([p[0], p[1]]) as u32).collect() } else { o.iter().map(|v| *v as u32).collect() };
        Ok((w, h, c, s))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
fn esc(b: &[u8]) -> String {
    b[..b.len().min(220)].escape_ascii().to_string()
}
/// `got` is `v` of `max` scaled to `target`, rounded to nearest.
fn scaled(got: u32, v: u32, max: u32, target: u32) -> bool {
    let exact = v as f64 * target as f64 / max as f64;
    (got as f64 - exact).abs() <= 0.5 + 0.01 && (v != max || got == target)
}
fn refuse(ch: &mut Ch, b: &[u8], key: &str, what: &dyn Fn() -> String) -> Res {
    ch.step();
    ch.state(hash_of(&b));
    match dec(b) {
        Err(e) if e.starts_with("PANIC") => viol("panic", format!("{}: {e}; {}", what(), esc(b))),
        Err(_) => {
            ch.validated();
            ch.outcome(0);
            Ok(())
        }
        Ok((w, h, c, s)) => viol(key, format!("{}: accepted as {w}x{h} {c:?} {:?}; {}", what(), &s[..s.len().min(12)], esc(b))),
    }
}
/// The bytes decode to `samples` of `max`, with `chans` channels; `bits`: 1 means black.
fn expect(ch: &mut Ch, b: &[u8], w: u32, h: u32, chans: usize, max: u32, samples: &[u32], what: &dyn Fn() -> String) -> Res {
    ch.step();
    ch.state(hash_of(&b));
    match dec(b) {
        Ok((gw, gh, c, s)) => {
            need!((gw, gh) == (w, h), "shape", "{}: got {gw}x{gh}; {}", what(), esc(b));
            let want = match (chans, max > 255) {
                (1, false) => ColorType::L8,
                (1, true) => ColorType::L16,
                (3, false) => ColorType::Rgb8,
                _ => ColorType::Rgb16,
            };
            need!(c == want, "color", "{}: got {c:?} instead of {want:?}; {}", what(), esc(b));
            let target = if max > 255 { 65535 } else { 255 };
            need!(s.len() == samples.len(), "length", "{}: {} samples", what(), s.len());
            for (i, (g, v)) in s.iter().zip(samples).enumerate() {
                need!(scaled(*g, *v, max, target), "samples", "{}: sample {i} = {v} of {max} became {g}; {}", what(), esc(b));
            }
            let bits = matches!(b[1], b'1' | b'4') || b[1] == b'7' && max == 1 && b.windows(13).any(|w| w == b"BLACKANDWHITE");
            let orig = if bits { ExtendedColorType::L1 } else { want.into() };
            let got = PnmDecoder::new(Cursor::new(b)).map(|d| d.original_color_type()).map_err(|e| e.to_string())?;
            need!(got == orig, "original", "{}: original colour type {got:?} instead of {orig:?}", what());
            ch.outcome(hash_of(&(c, b[1])));
            ch.validated();
            Ok(())
        }
        Err(e) => viol(if e.starts_with("PANIC") { "panic" } else { "refused" }, format!("{}: {e}; {}", what(), esc(b))),
    }
}
fn raster(kind: u8, w: usize, max: u32, s: &[u32]) -> Vec<u8> {
    let mut o = vec![];
    match kind {
        1 => s.iter().for_each(|v| o.push(if *v == 0 { b'1' } else { b'0' })),
        2 | 3 => s.iter().for_each(|v| o.extend(format!("{v}\n").bytes())),
        4 => {
            if w > 0 {
                let rows: Vec<Vec<u32>> = s.chunks(w).map(|r| r.iter().map(|v| 1 - v.min(&1)).collect()).collect();
                o = forge::pack_bits(&rows, 1, 1);
            }
        }
        _ => s.iter().for_each(|v| {
            if max > 255 {
                o.push((v >> 8) as u8);
            }
            o.push(*v as u8)
        }),
    }
    o
}
fn header(kind: u8, w: u32, h: u32, max: u32, chans: usize, tupl: Option<&str>) -> Vec<u8> {
    match kind {
        1 | 4 => format!("P{kind}\n{w} {h}\n").into_bytes(),
        7 => format!("P7\nWIDTH {w}\nHEIGHT {h}\nDEPTH {chans}\nMAXVAL {max}\n{}ENDHDR\n", tupl.map(|t| format!("TUPLTYPE {t}\n")).unwrap_or_default()).into_bytes(),
        _ => format!("P{kind}\n{w} {h}\n{max}\n").into_bytes(),
    }
}
/// (kind, channels, tuple type)
const KINDS: [(u8, usize, Option<&str>); 11] = [(1, 1, None), (4, 1, None), (2, 1, None), (5, 1, None), (3, 3, None), (6, 3, None), (7, 1, None), (7, 3, None), (7, 1, Some("GRAYSCALE")), (7, 3, Some("RGB")), (7, 1, Some("BLACKANDWHITE"))];

// An independent parser of what the encoder writes.
#[derive(Debug)]
struct Parsed {
    kind: u8,
    w: u32,
    h: u32,
    depth: usize,
    max: u32,
    tupl: Option<String>,
    samples: Vec<u32>,
}
fn parse(b: &[u8]) -> Result<Parsed, String> {
    if b.len() < 3 || b[0] != b'P' || !(b'1'..=b'7').contains(&b[1]) {
        return Err("magic".into());
    }
    let kind = b[1] - b'0';
    let mut p = Parsed { kind, w: 0, h: 0, depth: 1, max: 1, tupl: None, samples: vec![] };
    let mut at = 2;
    if kind == 7 {
        let mut seen = vec![];
        loop {
            let n = b[at..].iter().position(|c| *c == b'\n').ok_or("line")?;
            let line = std::str::from_utf8(&b[at..at + n]).map_err(|e| e.to_string())?;
            at += n + 1;
            if line.is_empty() {
                if seen.is_empty() {
                    seen.push("".to_string());
                    continue;
                }
                return Err("empty line".into());
            }
            let (k, v) = line.split_once(' ').unwrap_or((line, ""));
            if seen.contains(&k.to_string()) {
                return Err(format!("duplicate {k}"));
            }
            seen.push(k.to_string());
            let num = || v.trim().parse::<u32>().map_err(|e| format!("{line:?}: {e}"));
            match k {
                "WIDTH" => p.w = num()?,
                "HEIGHT" => p.h = num()?,
                "DEPTH" => p.depth = num()? as usize,
                "MAXVAL" => p.max = num()?,
                "TUPLTYPE" => p.tupl = Some(v.to_string()),
                "ENDHDR" => break,
                _ => return Err(format!("line {line:?}")),
            }
        }
        for k in ["WIDTH", "HEIGHT", "DEPTH", "MAXVAL"] {
            if !seen.iter().any(|s| s == k) {
                return Err(format!("no {k}"));
            }
        }
    } else {
        let mut num = || -> Result<u32, String> {
            let s = at;
            while at < b.len() && b[at].is_ascii_whitespace() {
                at += 1;
            }
            if s == at {
                return Err("no whitespace".into());
            }
            let s = at;
            while at < b.len() && b[at].is_ascii_digit() {
                at += 1;
            }
            std::str::from_utf8(&b[s..at]).unwrap().parse().map_err(|_| format!("number at {s}"))
        };
        p.w = num()?;
        p.h = num()?;
        if kind != 1 && kind != 4 {
            p.max = num()?;
        }
        if at >= b.len() || !b[at].is_ascii_whitespace() {
            return Err("no separator before the raster".into());
        }
        at += 1;
        p.depth = if kind % 3 == 0 { 3 } else { 1 };
    }
    let n = p.w as usize * p.h as usize * p.depth;
    let r = &b[at..];
    match kind {
        1..=3 => {
            if r.split(|c| *c == b'\n').any(|l| l.len() > 70) {
                return Err("line of more than 70 characters".into());
            }
            for t in std::str::from_utf8(r).map_err(|e| e.to_string())?.split_ascii_whitespace() {
                let v: u32 = t.parse().map_err(|_| format!("sample {t:?}"))?;
                if v > p.max {
                    return Err(format!("sample {v} over {}", p.max));
                }
                p.samples.push(if kind == 1 { 1 - v } else { v });
            }
        }
        4 => {
            let rb = (p.w as usize + 7) / 8;
            if r.len() != rb * p.h as usize {
                return Err(format!("raster of {} bytes", r.len()));
            }
            for y in 0..p.h as usize {
                for x in 0..p.w as usize {
                    p.samples.push(1 - (r[y * rb + x / 8] >> (7 - x % 8) & 1) as u32);
                }
            }
        }
        _ => {
            let bs = if p.max > 255 { 2 } else { 1 };
            if r.len() != bs * n {
                return Err(format!("raster of {} bytes for {n} samples of {bs}", r.len()));
            }
            p.samples = r.chunks(bs).map(|c| c.iter().fold(0, |a, v| a << 8 | *v as u32)).collect();
            if let Some(v) = p.samples.iter().find(|v| **v > p.max) {
                return Err(format!("sample {v} over {}", p.max));
            }
        }
    }
    if p.samples.len() != n {
        return Err(format!("{} samples instead of {n}", p.samples.len()));
    }
    if p.max == 0 || p.max > 65535 {
        return Err(format!("maximum {}", p.max));
    }
    Ok(p)
}

fn main() {
    let mut c = Check::start("C23", "model_checking", "one execution = one family of PNM files or encodings; non-trivial when decoded or parsed pixels equal the model's, or a malformed file is refused");
    let quick = c.quick;
    let mut maxima: Vec<u32> = (1..=255).collect();
    maxima.extend([256, 257, 258, 511, 512, 999, 1000, 1023, 4095, 10000, 32766, 32767, 32768, 40000, 65533, 65534, 65535]);
    if !quick {
        maxima.extend((300..65535).step_by(61));
    }

    c.explore("maxima", "every kind x every maximum 1..=255 and boundary maxima to 65535 x all samples up to 255 or boundary samples", |ch| {
        let (kind, chans, tupl) = KINDS[ch.pick(KINDS.len())];
        let max = maxima[ch.pick(maxima.len())];
        if max > 1 && (matches!(kind, 1 | 4) || tupl == Some("BLACKANDWHITE")) {
            return Ok(());
        }
        let mut s: Vec<u32> = (0..=max.min(255)).collect();
        if max > 255 {
            for k in [max / 4, max / 3, max / 2, max - 1, max, 256, 257, 0x100, 0x0102, 0xFF00, 0x1234] {
                s.extend([k.saturating_sub(1), k, k + 1]);
            }
            s.retain(|v| *v <= max);
        }
        while s.len() % (2 * chans) != 0 {
            s.push(max);
        }
        let (w, h) = ((s.len() / chans / 2) as u32, 2);
        let mut b = header(kind, w, h, max, chans, tupl);
        b.extend(raster(kind, w as usize, max, &s));
        let what = || format!("kind {kind} {tupl:?} maximum {max}");
        expect(ch, &b, w, h, chans, max, &s, &what)?;
        // Short rasters (leaving out the last digit or byte) and samples over the maximum.
        if matches!(kind, 4..=7) {
            refuse(ch, &b[..b.len() - 1], "short-raster", &what)?;
        }
        ch.sample(what);
        Ok(())
    });

    c.explore("sizes", "every kind x widths 0..=18 x heights 0..=3 x two maxima", |ch| {
        let (kind, chans, tupl) = KINDS[ch.pick(KINDS.len())];
        let w = ch.pick(19);
        let max = if matches!(kind, 1 | 4) || tupl == Some("BLACKANDWHITE") { 1 } else { ch.of(&[255u32, 1000]) };
        for h in 0..=3usize {
            let n = w * h * chans;
            let s: Vec<u32> = (0..n as u32).map(|i| (i * i * 7 + i / 3) % (max + 1)).collect();
            let mut b = header(kind, w as u32, h as u32, max, chans, tupl);
            let hl = b.len();
            b.extend(raster(kind, w, max, &s));
            let what = || format!("kind {kind} {tupl:?} {w}x{h} of {max}");
            expect(ch, &b, w as u32, h as u32, chans, max, &s, &what)?;
            // Trailing data does not matter.
            b.extend(b"\nP5 trailing");
            expect(ch, &b, w as u32, h as u32, chans, max, &s, &what)?;
            b.truncate(b.len() - 12);
            let last = if matches!(kind, 2 | 3) { b.len() - 1 } else { b.len() };
            if n > 0 {
                for cut in 0..last {
                    // A number cut inside its digits is another number: cut at whole samples there.
                    if matches!(kind, 2 | 3) && cut >= hl && b[cut - 1] != b'\n' && cut > last - 6 {
                        continue;
                    }
                    refuse(ch, &b[..cut], "truncated-accepted", &|| format!("{} cut to {cut} of {}", what(), b.len()))?;
                }
            }
        }
        ch.sample(|| format!("kind {kind} width {w}"));
        Ok(())
    });

    c.explore("large", "every kind x extents of 255 to 257, 1000, 4096 and 65535 to 70001 in each direction x maxima", |ch| {
        let (kind, chans, tupl) = KINDS[ch.pick(KINDS.len())];
        let max = if matches!(kind, 1 | 4) || tupl == Some("BLACKANDWHITE") { 1 } else { ch.of(&[255u32, 254, 1000, 65535]) };
        let n = ch.of(&[255usize, 256, 257, 1000, 1023, 4096, 65535, 65536, 70001]);
        let (w, h) = ch.of(&[(n, 1), (1, n), (n, 3), (9, n)]);
        let n = w * h * chans;
        if n > 400_000 {
            return Ok(());
        }
        let s: Vec<u32> = (0..n as u32).map(|i| (i.wrapping_mul(i).wrapping_mul(7) / 5 + i / 3) % (max + 1)).collect();
        let mut b = header(kind, w as u32, h as u32, max, chans, tupl);
        b.extend(raster(kind, w, max, &s));
        let what = || format!("kind {kind} {tupl:?} {w}x{h} of {max}");
        // (Failures print the file's beginning only.)
        expect(ch, &b, w as u32, h as u32, chans, max, &s, &what)?;
        b.pop();
        if !matches!(kind, 2 | 3) && n > 0 {
            refuse(ch, &b, "truncated-accepted", &|| format!("{} without its last byte", what()))?;
        }
        Ok(())
    });

    // Separators.
    let seps: [&[u8]; 12] = [b"\n", b" ", b"\t", b"\r", b"\x0b", b"\x0c", b"   \n\n\t", b"#c\n ", b" #c 5 6\n", b"\n#a\n#b#\r", b"\r\n", b" #\n\t#\r "];
    c.explore("separators", "P1-P6: every combination of twelve separators (whitespace kinds, runs, comments) in every gap of the header, and every whitespace byte before the raster", |ch| {
        let kind = 1 + ch.pick(6) as u8;
        let chans = if kind % 3 == 0 { 3 } else { 1 };
        let (max, w, h) = (if kind % 3 == 1 { 1 } else { 200u32 }, 11usize, 2usize);
        let s: Vec<u32> = (0..(w * h * chans) as u32).map(|i| (i * 37 + 3) % (max + 1)).collect();
        let (a, b2) = (ch.of(&seps), ch.of(&seps));
        for c3 in seps {
            for last in [b'\n', b' ', b'\t', b'\r', 0x0b, 0x0c] {
                let mut b = format!("P{kind}").into_bytes();
                b.extend(a);
                b.extend(b"11");
                b.extend(b2);
                b.extend(b"2");
                if kind % 3 != 1 {
                    b.extend(c3);
                    b.extend(b"200");
                }
                b.push(last);
                b.extend(raster(kind, w, max, &s));
                expect(ch, &b, w as u32, h as u32, chans, max, &s, &|| format!("kind {kind} separators {} {} {} {last:#x}", esc(a), esc(b2), esc(c3)))?;
            }
            if kind % 3 == 1 {
                break;
            }
        }
        ch.sample(|| format!("kind {kind} separators {} {}", esc(a), esc(b2)));
        Ok(())
    });
    c.explore("raster-text", "P1-P3: every combination of separators between the samples of a small raster, leading and trailing ones, digits without separators in P1", |ch| {
        let kind = 1 + ch.pick(3) as u8;
        let ws: [&[u8]; 6] = [b" ", b"\n", b"\t", b"\r\n", b"  \x0b", b"\x0c"];
        let chans = if kind == 3 { 3 } else { 1 };
        let max = if kind == 1 { 1 } else { 300 };
        let s: Vec<u32> = if kind == 1 { vec![0, 1, 1, 0] } else { vec![0, 300, 7][..].to_vec() };
        let (w, h) = ((s.len() / chans) as u32, 1);
        let mut b = header(kind, w, h, max, chans, None);
        let k = ch.pick(7);
        b.extend(if k < 6 { ws[k] } else { b"" });
        for v in &s {
            b.extend(if kind == 1 { (1 - v).to_string() } else { v.to_string() }.bytes());
            let k = ch.pick(if kind == 1 { 7 } else { 6 });
            b.extend(if k < 6 { ws[k] } else { b"" });
        }
        expect(ch, &b, w, h, chans, max, &s, &|| format!("kind {kind}"))?;
        // Without trailing whitespace.
        let mut e = b.clone();
        while !e.last().unwrap().is_ascii_digit() {
            e.pop();
        }
        expect(ch, &e, w, h, chans, max, &s, &|| format!("kind {kind} trimmed"))?;
        // A stray character is refused wherever it stands within the raster.
        let hl = header(kind, w, h, max, chans, None).len();
        for i in hl..e.len() {
            for x in [b'x', b'-', b'#', 0u8, 0xFF, b'.', b'2'] {
                if x == b'2' && kind != 1 {
                    continue;
                }
                let mut m = e.clone();
                m[i] = x;
                refuse(ch, &m, "stray-accepted", &|| format!("kind {kind} byte {i} = {x:#x}"))?;
            }
        }
        ch.sample(|| esc(&b));
        Ok(())
    });
    c.explore("pam-lines", "P7: every order of the header lines, with comments and tuple types in any place; lines missing, repeated or unknown are refused", |ch| {
        let mut lines: Vec<String> = ["WIDTH 2", "HEIGHT 3", "DEPTH 1", "MAXVAL 255", "TUPLTYPE GRAYSCALE", "# any comment WIDTH 9"].iter().map(|s| s.to_string()).collect();
        let mut order = vec![];
        while !lines.is_empty() {
            let i = ch.pick(lines.len());
            order.push(lines.remove(i));
        }
        let data: Vec<u8> = vec![1, 2, 3, 10, 13, 35];
        let s: Vec<u32> = data.iter().map(|v| *v as u32).collect();
        let mk = |l: &[String]| [b"P7\n", l.join("\n").as_bytes(), b"\nENDHDR\n", &data[..]].concat();
        expect(ch, &mk(&order), 2, 3, 1, 255, &s, &|| order.join("|"))?;
        let spaced: Vec<String> = order.iter().map(|l| l.replacen(' ', " \t ", 1) + " ").collect();
        expect(ch, &mk(&spaced), 2, 3, 1, 255, &s, &|| spaced.join("|"))?;
        for i in 0..order.len() {
            let mut m = order.clone();
            let l = m.remove(i);
            if l.starts_with('#') || l.starts_with("TUPL") {
                expect(ch, &mk(&m), 2, 3, 1, 255, &s, &|| m.join("|"))?;
                if l.starts_with('T') {
                    // the values of all these lines are one tuple type, which the format does not define
                    let mut d = order.clone();
                    d.insert(ch.quick as usize * i, l.clone());
                    refuse(ch, &mk(&d), "duplicate-type", &|| d.join("|"))?;
                }
            } else {
                refuse(ch, &mk(&m), "missing-line", &|| m.join("|"))?;
                let mut d = order.clone();
                d.insert(ch.quick as usize * i, l.clone());
                refuse(ch, &mk(&d), "duplicate-line", &|| d.join("|"))?;
                for bad in ["x", "-1", "4294967296", "", "1 2", "0x2", "2.5"] {
                    let mut d = order.clone();
                    d[i] = format!("{} {bad}", l.split(' ').next().unwrap());
                    refuse(ch, &mk(&d), "bad-number", &|| d.join("|"))?;
                }
            }
            for unknown in ["FOO 1", "WIDTHS 2", "width 2", "TUPL", "\u{fc} 3"] {
                let mut d = order.clone();
                d.insert(i, unknown.to_string());
                refuse(ch, &mk(&d), "unknown-line", &|| d.join("|"))?;
            }
        }
        ch.sample(|| order.join("|"));
        Ok(())
    });
    c.explore("pam-types", "P7: every tuple type (standard, unknown, none) x depth 0..=5 x maximum {0,1,2,255,256,65535,65536}: decoded exactly where the format defines a grey or RGB image, refused otherwise (images with alpha: refused or decoded right)", |ch| {
        let t = ch.of(&[None, Some("BLACKANDWHITE"), Some("GRAYSCALE"), Some("RGB"), Some("BLACKANDWHITE_ALPHA"), Some("GRAYSCALE_ALPHA"), Some("RGB_ALPHA"), Some("CMYK"), Some("grayscale"), Some("")]);
        let depth = ch.pick(6);
        for max in [0u32, 1, 2, 255, 256, 65535, 65536] {
            let s: Vec<u32> = (0..6 * depth as u32).map(|i| if i % 3 == 1 { max } else { (i * 13) % (max + 1) }).collect();
            let mut b = header(7, 3, 2, max, depth, t);
            b.extend(raster(7, 3, max, &s));
            let what = || format!("tuple {t:?} depth {depth} maximum {max}");
            let good = (1..=65535).contains(&max)
                && match (t, depth) {
                    (None, 1 | 3) | (Some("GRAYSCALE"), 1) | (Some("RGB"), 3) => true,
                    (Some("BLACKANDWHITE"), 1) => max == 1,
                    _ => false,
                };
            if good {
                expect(ch, &b, 3, 2, depth, max, &s, &what)?;
            } else if (1..=65535).contains(&max) && matches!((t, depth), (None, 2 | 4) | (Some("GRAYSCALE_ALPHA"), 2) | (Some("RGB_ALPHA"), 4) | (Some("BLACKANDWHITE_ALPHA"), 2)) {
                ch.step();
                match dec(&b) {
                    Ok((3, 2, _, got)) => {
                        let target = if max > 255 { 65535 } else { 255 };
                        need!(got.len() == s.len() && got.iter().zip(&s).all(|(g, v)| scaled(*g, *v, max, target)), "alpha", "{}", what());
                    }
                    Ok(_) => return viol("alpha", what()),
                    Err(e) => need!(!e.starts_with("PANIC"), "panic", "{}: {e}", what()),
                }
            } else {
                refuse(ch, &b, "bad-type", &what)?;
            }
        }
        ch.sample(|| format!("tuple {t:?} depth {depth}"));
        Ok(())
    });
    c.explore("bad-tokens", "P1-P6: every token of the header replaced by each malformed one; unknown magic numbers", |ch| {
        let kind = 1 + ch.pick(6) as u8;
        let n = if kind % 3 == 1 { 2 } else { 3 };
        let k = ch.pick(n);
        for bad in ["x", "-1", "4294967296", "99999999999", "1.5", "0x1", "\u{e9}", "2,", "P", "\0"] {
            let mut t = vec!["2".to_string(), "2".to_string(), "255".to_string()];
            t[k] = bad.into();
            let mut b = format!("P{kind}\n{}\n", t[..n].join(" ")).into_bytes();
            b.extend(b"1 0 1 1 0 1 1 1 1 0 0 0 1 1 1 1");
            refuse(ch, &b, "bad-token", &|| format!("kind {kind} token {k} = {bad:?}"))?;
        }
        if n == 3 {
            for max in [0u32, 65536, 65537, 1 << 20, u32::MAX] {
                let mut b = header(kind, 1, 1, max, 1, None);
                b.extend(b"0 0 0 0 0 0 0 0 0");
                refuse(ch, &b, "bad-maximum", &|| format!("kind {kind} maximum {max}"))?;
            }
        }
        for m in (0..=255u8).filter(|m| !(b'1'..=b'7').contains(m)) {
            refuse(ch, &[b'P', m, b'\n', b'1', b' ', b'1', b'\n', b'1', b'\n', 1, 1, 1], "bad-magic", &|| format!("P{m}"))?;
            if m == b'P' {
                continue;
            }
            refuse(ch, &[m, b'0' + kind, b'\n', b'1', b' ', b'1', b'\n', b'1', b'\n', 1, 1, 1], "bad-magic", &|| format!("{m}{kind}"))?;
        }
        ch.sample(|| format!("kind {kind} token {k}"));
        Ok(())
    });
    c.explore("mid-token", "P1-P6: comments inside of and next to tokens count as nothing", |ch| {
        let kind = 1 + ch.pick(6) as u8;
        let chans = if kind % 3 == 0 { 3 } else { 1 };
        let max = if kind % 3 == 1 { 1 } else { 117 };
        let s: Vec<u32> = (0..(12 * 10 * chans) as u32).map(|i| i % (max + 1)).collect();
        let plain = if kind % 3 == 1 { b"12 10\n".to_vec() } else { b"12 10 117\n".to_vec() };
        let at = ch.pick(plain.len());
        for cm in [&b"#\n"[..], b"# 99 comment\n", b"##\r", b"#a\n#b\n"] {
            let mut b = format!("P{kind}\n").into_bytes();
            b.extend(&plain[..at]);
            b.extend(cm);
            b.extend(&plain[at..]);
            b.extend(raster(kind, 12, max, &s));
            expect(ch, &b, 12, 10, chans, max, &s, &|| format!("kind {kind} comment {} at {at}", esc(cm)))?;
        }
        ch.sample(|| format!("kind {kind} at {at}"));
        Ok(())
    });

    // Encoding.
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum H {
        Dynamic,
        Sub(PnmSubtype),
        Bitmap(SampleEncoding),
        Gray(SampleEncoding, u32),
        Pix(SampleEncoding, u32),
        Pam(u32, u32, usize),
    }
    let tt = |i: usize| match i {
        0 => None,
        1 => Some(ArbitraryTuplType::BlackAndWhite),
        2 => Some(ArbitraryTuplType::BlackAndWhiteAlpha),
        3 => Some(ArbitraryTuplType::Grayscale),
        4 => Some(ArbitraryTuplType::GrayscaleAlpha),
        5 => Some(ArbitraryTuplType::RGB),
        6 => Some(ArbitraryTuplType::RGBAlpha),
        _ => Some(ArbitraryTuplType::Custom("SPECIAL".into())),
    };
    let tname = |t: &ArbitraryTuplType| -> String {
        match t {
            ArbitraryTuplType::BlackAndWhite => "BLACKANDWHITE".into(),
            ArbitraryTuplType::BlackAndWhiteAlpha => "BLACKANDWHITE_ALPHA".into(),
            ArbitraryTuplType::Grayscale => "GRAYSCALE".into(),
            ArbitraryTuplType::GrayscaleAlpha => "GRAYSCALE_ALPHA".into(),
            ArbitraryTuplType::RGB => "RGB".into(),
            ArbitraryTuplType::RGBAlpha => "RGB_ALPHA".into(),
            ArbitraryTuplType::Custom(s) => s.clone(),
        }
    };
    let encs = [SampleEncoding::Ascii, SampleEncoding::Binary];
    let hm: Vec<u32> = if quick { vec![1, 2, 100, 254, 255, 256, 1000, 65534, 65535] } else { (1..=258).chain([999, 1000, 4095, 32767, 65534, 65535]).collect() };
    let mut hs = vec![H::Dynamic, H::Sub(PnmSubtype::ArbitraryMap)];
    for e in encs {
        hs.extend([H::Sub(PnmSubtype::Bitmap(e)), H::Sub(PnmSubtype::Graymap(e)), H::Sub(PnmSubtype::Pixmap(e)), H::Bitmap(e)]);
        for m in &hm {
            hs.extend([H::Gray(e, *m), H::Pix(e, *m)]);
        }
    }
    for d in 0..=5 {
        for m in &hm {
            for t in 0..8 {
                hs.push(H::Pam(d, *m, t));
            }
        }
    }
    let colors = [ExtendedColorType::L1, ExtendedColorType::L8, ExtendedColorType::L16, ExtendedColorType::La8, ExtendedColorType::La16, ExtendedColorType::Rgb8, ExtendedColorType::Rgb16, ExtendedColorType::Rgba8, ExtendedColorType::Rgba16, ExtendedColorType::Bgr8, ExtendedColorType::Rgb32F, ExtendedColorType::La1, ExtendedColorType::Unknown(8), ExtendedColorType::Unknown(16), ExtendedColorType::Unknown(17)];
    c.explore("encode", "every header kind (dynamic, subtype, chosen with maxima and tuple types and depths) x colour x sizes x sample sets up to, at and one over the maximum, as 8- and 16-bit samples; the output is parsed independently and decoded", |ch| {
        let h = hs[ch.pick(hs.len())];
        let color = ch.of(&colors);
        let chans = color.channel_count() as usize;
        let wide = matches!(color, ExtendedColorType::L16 | ExtendedColorType::La16 | ExtendedColorType::Rgb16 | ExtendedColorType::Rgba16);
        let bitcap = match color {
            ExtendedColorType::L1 | ExtendedColorType::La1 => 1,
            _ if wide => 65535,
            _ => 255,
        };
        let max = match h {
            H::Gray(_, m) | H::Pix(_, m) | H::Pam(_, m, _) => m,
            H::Bitmap(_) | H::Sub(PnmSubtype::Bitmap(_)) => bitcap,
            _ => bitcap,
        };
        let bitmap = matches!(h, H::Bitmap(_) | H::Sub(PnmSubtype::Bitmap(_)));
        for (w, ht) in [(1u32, 1u32), (9, 2), (17, 3), (8, 1), (0, 3), (3, 0)] {
            for set in 0..4 {
                for as16 in [false, true] {
                    let n = w as usize * ht as usize * chans;
                    let top = max.min(bitcap);
                    let over = max < bitcap && set == 3;
                    if (set == 3 && (!over || n == 0)) || (!as16 && wide && top > 255) {
                        continue;
                    }
                    let mut s: Vec<u32> = (0..n as u32)
                        .map(|i| match set {
                            0 => (i * 7 + 1) % (top + 1),
                            1 => top,
                            2 => if i % 3 == 0 { 0 } else { top - i % (top.min(9) + 1) },
                            _ => i % (top + 1),
                        })
                        .collect();
                    if over {
                        s[n / 2] = max + 1;
                        if !as16 && max + 1 > 255 {
                            continue;
                        }
                    }
                    if !as16 && s.iter().any(|v| *v > 255) {
                        continue;
                    }
                    let what = || format!("{h:?} {color:?} {w}x{ht} set {set} 16-bit {as16} top {top}");
                    let s8: Vec<u8> = s.iter().map(|v| *v as u8).collect();
                    let s16: Vec<u16> = s.iter().map(|v| *v as u16).collect();
                    let r = catch(|| {
                        let mut out = vec![];
                        let e = PnmEncoder::new(&mut out);
                        let mut e = match h {
                            H::Dynamic => e.with_dynamic_header(),
                            H::Sub(x) => e.with_subtype(x),
                            H::Bitmap(encoding) => e.with_header(BitmapHeader { encoding, width: w, height: ht }.into()),
                            H::Gray(encoding, maxwhite) => e.with_header(GraymapHeader { encoding, width: w, height: ht, maxwhite }.into()),
                            H::Pix(encoding, maxval) => e.with_header(PixmapHeader { encoding, width: w, height: ht, maxval }.into()),
                            H::Pam(depth, maxval, t) => e.with_header(ArbitraryHeader { width: w, height: ht, depth, maxval, tupltype: tt(t) }.into()),
                        };
                        let r = if as16 { e.encode(&s16[..], w, ht, color) } else { e.encode(&s8[..], w, ht, color) };
                        drop(e);
                        r.map(|_| out).map_err(|e| e.to_string())
                    });
                    ch.step();
                    let r = match r {
                        Err(p) => return viol("encode-panic", format!("{}: {p}", what())),
                        Ok(r) => r,
                    };
                    // Header and image agree by the documented pairings.
                    let must = match (h, color) {
                        (H::Dynamic | H::Sub(PnmSubtype::ArbitraryMap), ExtendedColorType::L1 | ExtendedColorType::L8 | ExtendedColorType::L16 | ExtendedColorType::La8 | ExtendedColorType::Rgb8 | ExtendedColorType::Rgba8) => true,
                        (H::Sub(PnmSubtype::Bitmap(_)), ExtendedColorType::L1 | ExtendedColorType::L8) => true,
                        (H::Sub(PnmSubtype::Graymap(_)), ExtendedColorType::L8) => true,
                        (H::Sub(PnmSubtype::Pixmap(_)), ExtendedColorType::Rgb8) => true,
                        (H::Bitmap(_) | H::Gray(..), ExtendedColorType::L1 | ExtendedColorType::L8 | ExtendedColorType::L16) => true,
                        (H::Pix(..), ExtendedColorType::Rgb8) => true,
                        (H::Pam(1, _, 3), ExtendedColorType::L1 | ExtendedColorType::L8 | ExtendedColorType::L16) | (H::Pam(1, _, 1), ExtendedColorType::L1) => true,
                        (H::Pam(2, _, 4), ExtendedColorType::La8) | (H::Pam(3, _, 5), ExtendedColorType::Rgb8) | (H::Pam(4, _, 6), ExtendedColorType::Rgba8) => true,
                        (H::Pam(d, _, 0 | 7), ExtendedColorType::L1 | ExtendedColorType::L8 | ExtendedColorType::L16 | ExtendedColorType::La8 | ExtendedColorType::La16 | ExtendedColorType::Rgb8 | ExtendedColorType::Rgb16 | ExtendedColorType::Rgba8 | ExtendedColorType::Rgba16 | ExtendedColorType::Bgr8) => d as usize == chans,
                        _ => false,
                    };
                    match r {
                        Ok(out) => {
                            ch.state(hash_of(&out));
                            need!(!over || bitmap, "over-accepted", "{}: sample {} over the maximum {max} was written", what(), max + 1);
                            let p = match parse(&out) {
                                Ok(p) => p,
                                Err(e) => return viol("malformed", format!("{}: {e}; {}", what(), esc(&out))),
                            };
                            need!((p.w, p.h, p.depth) == (w, ht, chans), "encode-shape", "{}: {p:?}", what());
                            let want: Vec<u32> = if bitmap { s.iter().map(|v| (*v != 0) as u32).collect() } else { s.clone() };
                            need!(p.samples == want, "encode-samples", "{}: {} {:?}", what(), esc(&out), &want[..want.len().min(20)]);
                            if let H::Gray(_, m) | H::Pix(_, m) | H::Pam(_, m, _) = h {
                                need!(p.max == m, "encode-max", "{}: {}", what(), p.max);
                            }
                            // And by this library's decoder, if it reads the kind.
                            if let Ok((dw, dh, _, got)) = dec(&out) {
                                let target = if p.max > 255 { 65535 } else { 255 };
                                need!((dw, dh) == (w, ht) && got.len() == want.len() && got.iter().zip(&want).all(|(g, v)| scaled(*g, *v, p.max, target)), "roundtrip", "{}: {got:?}", what());
                            } else {
                                let ok_refuse = !(matches!(p.depth, 1 | 3) && (p.kind != 7 || matches!(p.tupl.as_deref(), None | Some("GRAYSCALE") | Some("RGB"))));
                                need!(ok_refuse || matches!(p.tupl.as_deref(), Some("BLACKANDWHITE")) && p.max != 1, "undecodable", "{}: {:?}; {}", what(), dec(&out).err(), esc(&out));
                            }
                            ch.validated();
                            ch.outcome(hash_of(&(p.kind, p.tupl, p.depth)));
                        }
                        Err(e) => {
                            need!(over || !must, "encode-refused", "{}: {e}", what());
                            ch.outcome(1);
                        }
                    }
                }
            }
        }
        ch.sample(|| format!("{h:?} {color:?}"));
        Ok(())
    });
    c.explore("headers", "headers of every kind x extents x maxima x depths x tuple types: what their accessors say, the line they write, and what a decoder makes of it", |ch| {
        let exts = [0u32, 1, 9, 255, 65536, u32::MAX];
        let (w, ht) = (ch.of(&exts), ch.of(&exts));
        let maxval = ch.of(&[0u32, 1, 2, 255, 256, 65535, 65536, u32::MAX]);
        let encoding = ch.of(&[SampleEncoding::Ascii, SampleEncoding::Binary]);
        let kind = ch.pick(4);
        let (depth, t) = if kind == 3 { (ch.of(&[0u32, 1, 4, u32::MAX]), ch.pick(8)) } else { (0, 0) };
        let h: PnmHeader = match kind {
            0 => BitmapHeader { encoding, width: w, height: ht }.into(),
            1 => GraymapHeader { encoding, width: w, height: ht, maxwhite: maxval }.into(),
            2 => PixmapHeader { encoding, width: w, height: ht, maxval }.into(),
            _ => ArbitraryHeader { width: w, height: ht, depth, maxval, tupltype: tt(t) }.into(),
        };
        let what = format!("kind {kind} {encoding:?} {w}x{ht} maximum {maxval} depth {depth} tuple {t}");
        let bin = encoding == SampleEncoding::Binary || kind == 3;
        let magic = match kind { 3 => 7, k => k + 1 + if bin { 3 } else { 0 } };
        let check = |h: &PnmHeader, what: &str| -> Res {
            let st = h.subtype();
            need!(st.magic_constant() == format!("P{magic}").as_bytes(), "header", "{what}: magic {}", esc(st.magic_constant()));
            need!((st.sample_encoding() == SampleEncoding::Binary) == bin, "header", "{what}: {:?}", st.sample_encoding());
            need!((h.width(), h.height()) == (w, ht), "header", "{what}: {}x{}", h.width(), h.height());
            need!(h.maximal_sample() == if kind == 0 { 1 } else { maxval }, "header", "{what}: maximum {}", h.maximal_sample());
            let a = h.as_bitmap().map(|b| (b.width, b.height, (b.encoding == SampleEncoding::Binary) as u32));
            let b = h.as_graymap().map(|b| (b.width, b.height, b.maxwhite, (b.encoding == SampleEncoding::Binary) as u32));
            let c = h.as_pixmap().map(|b| (b.width, b.height, b.maxval, (b.encoding == SampleEncoding::Binary) as u32));
            let d = h.as_arbitrary().map(|b| (b.width, b.height, b.maxval, b.depth, b.tupltype.as_ref().map(|t| format!("{t:?}"))));
            need!(a == (kind == 0).then_some((w, ht, bin as u32)), "header", "{what}: as_bitmap {a:?}");
            need!(b == (kind == 1).then_some((w, ht, maxval, bin as u32)), "header", "{what}: as_graymap {b:?}");
            need!(c == (kind == 2).then_some((w, ht, maxval, bin as u32)), "header", "{what}: as_pixmap {c:?}");
            need!(d == (kind == 3).then(|| (w, ht, maxval, depth, tt(t).map(|t| format!("{t:?}")))), "header", "{what}: as_arbitrary {d:?}");
            Ok(())
        };
        check(&h, &what)?;
        let mut out = vec![];
        need!(h.write(&mut out).is_ok(), "header", "{what}: write fails");
        // The written header names every value once, in the format's order, and ends the line.
        let mut line: Vec<String> = vec![format!("P{magic}")];
        if kind == 3 {
            line.extend(["WIDTH".into(), w.to_string(), "HEIGHT".into(), ht.to_string(), "DEPTH".into(), depth.to_string(), "MAXVAL".into(), maxval.to_string()]);
            if let Some(t) = tt(t) {
                line.extend(["TUPLTYPE".into(), tname(&t)]);
            }
            line.push("ENDHDR".into());
        } else {
            line.extend([w.to_string(), ht.to_string()]);
            if kind > 0 {
                line.push(maxval.to_string());
            }
        }
        let txt = String::from_utf8_lossy(&out).into_owned();
        need!(txt.split_whitespace().collect::<Vec<_>>() == line && txt.ends_with('\n'), "header", "{what}: {}", esc(&out));
        // Decoders that accept it see the same header, and stand at the raster.
        let n = out.len();
        out.extend([1, 2, 3]);
        let r = catch(|| PnmDecoder::new(Cursor::new(&out[..])).ok().map(|d| d.into_inner())).map_err(|e| Viol::new("header", format!("{what}: {e}")))?;
        if let Some((r, h)) = r {
            check(&h, &format!("{what}, read back"))?;
            need!(r.position() as usize == n, "header", "{what}: read to {} of {n}", r.position());
            ch.outcome(1);
        }
        ch.state(hash_of(&what));
        ch.validated();
        Ok(())
    });
    c.finish();
}
