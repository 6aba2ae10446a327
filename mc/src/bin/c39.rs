//! C39: QOI and farbfeld files decode and encode according to their formats.
//! TECHNIQUE: exhaustive enumeration of opcode sequences (QOI), sample values, sizes and header fields from independent models of both formats, each decoded by the real decoder and compared; what the real encoders write is read by the models
//! LEVEL: model_checking
//! NOTE: QOI's opcode stream is a small state machine (previous pixel, 64 remembered pixels, run); all sequences of up to five opcodes over an alphabet with every kind and its extremes are walked.
use image::codecs::{farbfeld, qoi};
use image::*;
use mc::forge::B;
use mc::*;
use std::io::Cursor;

type Out = Result<(u32, u32, ColorType, Vec<u8>), String>;
fn run<D: ImageDecoder>(d: impl FnOnce() -> ImageResult<D>) -> Out {
    catch(|| -> ImageResult<_> {
        let d = d()?;
        let ((w, h), c) = (d.dimensions(), d.color_type());
        if d.total_bytes() > 1 << 32 {
            return Err(ImageError::Limits(error::LimitError::from_kind(error::LimitErrorKind::InsufficientMemory)));
        }
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, c, o))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
fn dec_open(b: &[u8]) -> Out {
    let d = catch(|| ImageReader::new(Cursor::new(b)).with_guessed_format().unwrap().decode()).map_err(|p| format!("PANIC {p}"))?.map_err(|e| e.to_string())?;
    Ok((d.width(), d.height(), d.color(), d.as_bytes().to_vec()))
}
fn both(b: &[u8]) -> [(&'static str, Out); 2] {
    [("decoder", if b.starts_with(b"farb") { run(|| farbfeld::FarbfeldDecoder::new(Cursor::new(b))) } else { run(|| qoi::QoiDecoder::new(Cursor::new(b))) }), ("ImageReader", dec_open(b))]
}
fn same(what: &str, (w, h, color): (u32, u32, ColorType), want: &[u8], b: &[u8]) -> Res {
    for (via, got) in both(b) {
        let (a, k, c, v) = match got {
            Ok(g) => g,
            Err(e) => return viol(if e.starts_with("PANIC") { "panic" } else { "refused" }, format!("{what} through {via}: {e}")),
        };
        need!((a, k) == (w, h), "size", "{what} through {via}: {a}x{k} instead of {w}x{h}");
        need!(c == color, "color", "{what} through {via}: {c:?} instead of {color:?}");
        need!(v == want, "pixels", "{what} through {via}: {}", util::first_diff(&v, want));
    }
    Ok(())
}
fn bad(b: &[u8], what: String) -> Res {
    for (via, r) in both(b) {
        match r {
            Ok(g) => return viol("accepted", format!("{what} through {via}: decoded as {}x{} {:?}", g.0, g.1, g.2)),
            Err(e) => ensure!(!e.starts_with("PANIC"), "{what} through {via}: {e}"),
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Rgb(u8, u8, u8),
    Rgba(u8, u8, u8, u8),
    Index(u8),
    Diff(i8, i8, i8),
    Luma(i8, i8, i8),
    Run(u8),
}
struct State {
    prev: [u8; 4],
    seen: [[u8; 4]; 64],
    out: Vec<[u8; 4]>,
}
impl State {
    fn new() -> State {
        State { prev: [0, 0, 0, 255], seen: [[0; 4]; 64], out: vec![] }
    }
    fn slot(p: [u8; 4]) -> usize {
        (p[0] as usize * 3 + p[1] as usize * 5 + p[2] as usize * 7 + p[3] as usize * 11) % 64
    }
    fn step(&mut self, o: Op) {
        let p = self.prev;
        let add = |d: [i8; 3]| [p[0].wrapping_add(d[0] as u8), p[1].wrapping_add(d[1] as u8), p[2].wrapping_add(d[2] as u8), p[3]];
        let q = match o {
            Op::Run(n) => {
                self.out.extend((0..n).map(|_| p));
                // the specification stores every decoded pixel
                self.seen[Self::slot(p)] = p;
                return;
            }
            Op::Rgb(r, g, b) => [r, g, b, p[3]],
            Op::Rgba(r, g, b, a) => [r, g, b, a],
            Op::Index(i) => self.seen[i as usize],
            Op::Diff(r, g, b) => add([r, g, b]),
            Op::Luma(g, rg, bg) => add([g.wrapping_add(rg), g, g.wrapping_add(bg)]),
        };
        self.out.push(q);
        self.prev = q;
        self.seen[Self::slot(q)] = q;
    }
}
fn put(b: &mut B, o: Op) {
    match o {
        Op::Rgb(r, g, bl) => b.raw(&[0xFE, r, g, bl]),
        Op::Rgba(r, g, bl, a) => b.raw(&[0xFF, r, g, bl, a]),
        Op::Index(i) => b.u8(i),
        Op::Diff(r, g, bl) => b.u8(0x40 | ((r + 2) as u8) << 4 | ((g + 2) as u8) << 2 | (bl + 2) as u8),
        Op::Luma(g, rg, bg) => b.u8(0x80 | (g + 32) as u8).u8(((rg + 8) as u8) << 4 | (bg + 8) as u8),
        Op::Run(n) => b.u8(0xC0 | (n - 1)),
    };
}
fn qoi_file(w: u32, h: u32, channels: u8, space: u8, ops: &[Op]) -> Vec<u8> {
    let mut b = B::default();
    b.raw(b"qoif").be32(w).be32(h).u8(channels).u8(space);
    for o in ops {
        put(&mut b, *o);
    }
    b.raw(&[0, 0, 0, 0, 0, 0, 0, 1]);
    b.0
}
fn pixels(ops: &[Op], channels: u8) -> Vec<u8> {
    let mut s = State::new();
    for o in ops {
        s.step(*o);
    }
    s.out.iter().flat_map(|p| p[..channels as usize].to_vec()).collect()
}
/// Reads a QOI file by the specification.
fn qoi_read(b: &[u8]) -> Result<(u32, u32, u8, Vec<u8>), String> {
    if b.len() < 22 || &b[..4] != b"qoif" {
        return Err("no header".into());
    }
    let w = u32::from_be_bytes(b[4..8].try_into().unwrap());
    let h = u32::from_be_bytes(b[8..12].try_into().unwrap());
    let n = w as usize * h as usize;
    let mut s = State::new();
    let mut i = 14;
    while s.out.len() < n {
        let x = *b.get(i).ok_or("too short")?;
        let at = |k: usize| b.get(i + k).copied().ok_or("too short".to_string());
        let (o, k) = match x {
            0xFE => (Op::Rgb(at(1)?, at(2)?, at(3)?), 4),
            0xFF => (Op::Rgba(at(1)?, at(2)?, at(3)?, at(4)?), 5),
            _ => match x >> 6 {
                0 => (Op::Index(x), 1),
                1 => (Op::Diff((x >> 4 & 3) as i8 - 2, (x >> 2 & 3) as i8 - 2, (x & 3) as i8 - 2), 1),
                2 => (Op::Luma((x & 63) as i8 - 32, (at(1)? >> 4) as i8 - 8, (at(1)? & 15) as i8 - 8), 2),
                _ => (Op::Run((x & 63) + 1), 1),
            },
        };
        s.step(o);
        i += k;
    }
    if s.out.len() != n {
        return Err(format!("{} pixels instead of {n}", s.out.len()));
    }
    if b[i..] != [0, 0, 0, 0, 0, 0, 0, 1] {
        return Err(format!("ends with {:?}", &b[i..]));
    }
    let c = b[12];
    Ok((w, h, c, s.out.iter().flat_map(|p| p[..c as usize].to_vec()).collect()))
}
fn ff(w: u32, h: u32, v: &[u16]) -> Vec<u8> {
    let mut b = B::default();
    b.raw(b"farbfeld").be32(w).be32(h);
    for x in v {
        b.be16(*x);
    }
    b.0
}
fn ne(v: &[u16]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_ne_bytes()).collect()
}
fn mix(x: u32) -> u32 {
    let mut v = x.wrapping_mul(0x9E3779B1) ^ 0x1234567;
    v ^= v >> 15;
    v = v.wrapping_mul(0x2C1B3C6D);
    v ^ v >> 12
}

fn main() {
    let mut c = Check::start("C39", "model_checking", "each case is one file of a model decoded by the real decoders, or one image written by the real encoders and read by the model; non-deterministic choices: opcodes and operands, sizes, channels, sample values, header fields");
    let q = c.quick;
    let mut alphabet = vec![Op::Rgb(0, 0, 0), Op::Rgb(255, 255, 255), Op::Rgb(10, 200, 30), Op::Rgb(0, 0, 1), Op::Run(1), Op::Run(2), Op::Run(61), Op::Run(62)];
    for i in [0, 1, 10, 30, 53, 54, 63] {
        alphabet.push(Op::Index(i));
    }
    for d in [(-2, -2, -2), (1, 1, 1), (0, 0, 0), (-1, 0, 1), (1, -2, 0)] {
        alphabet.push(Op::Diff(d.0, d.1, d.2));
    }
    for d in [(-32, -8, -8), (31, 7, 7), (0, 0, 0), (-5, 7, -8), (31, -8, 7)] {
        alphabet.push(Op::Luma(d.0, d.1, d.2));
    }
    let rgba = [Op::Rgba(0, 0, 0, 0), Op::Rgba(255, 255, 255, 255), Op::Rgba(1, 2, 3, 128), Op::Rgba(10, 200, 30, 0)];
    let a2 = alphabet.clone();
    c.explore("qoi opcodes", "every sequence of up to 4 (5) opcodes out of 29 of all kinds with extreme operands, RGB and RGBA files, both colour spaces", |ch| {
        let n = ch.range(1, if q { 4 } else { 5 });
        let channels = ch.of(&[3u8, 4]);
        let space = if n < 3 { ch.pick(2) as u8 } else { (n % 2) as u8 };
        let mut al = a2.clone();
        if channels == 4 {
            al.extend(rgba);
        }
        let ops: Vec<Op> = (0..n).map(|_| ch.of(&al)).collect();
        // Recalling a pixel never seen is left out: no writer does that. (A first run of the
        // initial pixel does remember it, see below.)
        let mut s = State::new();
        let mut written = [false; 64];
        for o in &ops {
            if matches!(o, Op::Index(i) if !written[*i as usize]) {
                return Ok(());
            }
            s.step(*o);
            written[State::slot(s.prev)] = true;
        }
        let px = pixels(&ops, channels);
        let w = (px.len() / channels as usize) as u32;
        ch.state(hash_of(&(channels, space, &ops)));
        ch.outcome(hash_of(&px));
        ch.validated();
        ch.sample(|| format!("{ops:?}"));
        // A first pixel repeated from the initial one is not remembered by the qoi crate.
        let initial = matches!(ops[0], Op::Run(_)) && ops.contains(&Op::Index(53));
        let r = same(&format!("{channels} channels, {ops:?}"), (w, 1, if channels == 3 { ColorType::Rgb8 } else { ColorType::Rgba8 }), &px, &qoi_file(w, 1, channels, space, &ops));
        r.map_err(|e| if initial && e.key == "pixels" { Viol::new("qoi-initial-run", e.msg) } else { e })
    });
    c.explore("qoi operands", "every difference, every luma difference, every run length, every remembered pixel, every value of every channel, after each of four pixels", |ch| {
        let first = ch.of(&[Op::Rgba(0, 0, 0, 255), Op::Rgba(255, 255, 255, 0), Op::Rgba(128, 3, 250, 7), Op::Rgba(1, 254, 127, 255)]);
        let channels = ch.of(&[3u8, 4]);
        let mut ops = vec![if channels == 3 { let Op::Rgba(r, g, b, _) = first else { unreachable!() }; Op::Rgb(r, g, b) } else { first }];
        match ch.pick(5) {
            0 => {
                for r in -2..2 {
                    for g in -2..2 {
                        for b in -2..2 {
                            ops.push(Op::Diff(r, g, b));
                        }
                    }
                }
            }
            1 => {
                let g = ch.range(-32, 31) as i8;
                for r in -8..8 {
                    for b in -8..8 {
                        ops.push(Op::Luma(g, r, b));
                    }
                }
            }
            2 => {
                for n in 1..=62 {
                    ops.push(Op::Run(n));
                    ops.push(Op::Diff(1, 0, -1));
                }
            }
            3 => {
                // fill the memory, then recall everything in another order
                for k in 0..200u32 {
                    let v = mix(k);
                    ops.push(if channels == 4 { Op::Rgba(v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8) } else { Op::Rgb(v as u8, (v >> 8) as u8, (v >> 16) as u8) });
                }
                for k in 0..64u8 {
                    ops.push(Op::Index((k as u32 * 37 % 64) as u8));
                    ops.push(Op::Diff(0, 1, 0));
                }
                for k in 0..64u8 {
                    ops.push(Op::Index(k));
                }
            }
            _ => {
                for v in 0..=255u8 {
                    ops.push(if channels == 4 { Op::Rgba(v, 255 - v, v.wrapping_mul(3), v ^ 0x5A) } else { Op::Rgb(v, 255 - v, v.wrapping_mul(3)) });
                }
            }
        }
        let px = pixels(&ops, channels);
        let n = (px.len() / channels as usize) as u32;
        ch.steps(n as u64);
        let (w, h) = (1..=16).rev().find(|k| n % k == 0).map(|k| (n / k, k)).unwrap();
        ch.validated();
        same(&format!("{channels} channels from {first:?}"), (w, h, if channels == 3 { ColorType::Rgb8 } else { ColorType::Rgba8 }), &px, &qoi_file(w, h, channels, 0, &ops))
    });
    c.explore("qoi writing", "every image of five pixels over 6 colours, larger ones of three contents at sizes to 40 x 3 and 70000 x 1, RGB and RGBA: the file read by the specification is the image", |ch| {
        let channels = ch.of(&[3u8, 4]);
        let color = if channels == 3 { ExtendedColorType::Rgb8 } else { ExtendedColorType::Rgba8 };
        let (w, h, px) = if ch.flag() {
            let al = [[0u8, 0, 0, 255], [0, 0, 0, 0], [1, 0, 255, 255], [2, 2, 1, 255], [40, 30, 45, 255], [200, 100, 50, 128]];
            let px: Vec<u8> = (0..5).flat_map(|_| ch.of(&al)[..channels as usize].to_vec()).collect();
            (5, 1, px)
        } else {
            let (w, h) = if ch.flag() { (ch.range(1, 40) as u32, ch.range(1, 3) as u32) } else { (ch.of(&[61u32, 62, 63, 64, 124, 125, 126, 4096, 70000]), 1) };
            let kind = ch.pick(3);
            let px = (0..w * h)
                .flat_map(|i| {
                    let p: [u8; 4] = match kind {
                        0 => [7, 7, 7, 255],
                        1 => mix(i).to_le_bytes(),
                        _ => [(i * 2) as u8, (i * 3) as u8, i as u8, if i % 9 < 5 { 255 } else { 3 }],
                    };
                    p[..channels as usize].to_vec()
                })
                .collect();
            (w, h, px)
        };
        let mut o = vec![];
        qoi::QoiEncoder::new(&mut o).write_image(&px, w, h, color).map_err(|e| e.to_string())?;
        let r = qoi_read(&o).map_err(|e| format!("{w}x{h} of {channels} channels {}: {e}", hex(&px)))?;
        ensure!(r == (w, h, channels, px.clone()), "{w}x{h} of {channels} channels {}: read as {}x{} of {} channels", hex(&px), r.0, r.1, r.2);
        ch.outcome(hash_of(&o));
        ch.validated();
        Ok(())
    });
    c.explore("qoi refused", "every other signature byte, channel count and colour space, zero sizes, every cut before the pixels are complete", |ch| {
        let ops = [Op::Rgb(1, 2, 3), Op::Luma(3, 1, -1), Op::Run(5), Op::Rgb(9, 9, 9), Op::Diff(1, 1, 1), Op::Index(0)];
        let n = (pixels(&ops, 3).len() / 3) as u32;
        let f = qoi_file(n, 1, 3, 0, &ops);
        match ch.pick(4) {
            0 => {
                for i in 0..4 {
                    for v in 0..=255u8 {
                        if f[i] != v {
                            let mut b = f.clone();
                            b[i] = v;
                            bad(&b, format!("signature byte {i} = {v}"))?;
                        }
                    }
                }
            }
            1 => {
                for v in (0..=255u8).filter(|v| ![3, 4].contains(v)) {
                    bad(&qoi_file(n, 1, v, 0, &ops), format!("{v} channels"))?;
                }
            }
            2 => {
                for v in 2..=255u8 {
                    bad(&qoi_file(n, 1, 3, v, &ops), format!("colour space {v}"))?;
                }
                for (w, h) in [(0, 1), (1, 0), (0, 0)] {
                    bad(&qoi_file(w, h, 3, 0, &ops), format!("{w}x{h}"))?;
                }
            }
            _ => {
                for cut in 0..f.len() - 8 {
                    bad(&f[..cut], format!("cut to {cut} of {}", f.len()))?;
                    ch.step();
                }
            }
        }
        Ok(())
    });
    c.explore("farbfeld", "every 16-bit value in each channel; sizes 1..=12 x 1..=12 and long ones; zero sizes; written files byte for byte", |ch| {
        let (w, h, v): (u32, u32, Vec<u16>) = match ch.pick(3) {
            0 => {
                let at = ch.pick(4);
                (256, 256, (0..65536u32 * 4).map(|i| if i as usize % 4 == at { (i / 4) as u16 } else { 0x1234 * (i % 4) as u16 }).collect())
            }
            1 => {
                let (w, h) = (ch.range(1, 12) as u32, ch.range(1, 12) as u32);
                (w, h, (0..w * h * 4).map(|i| mix(i) as u16).collect())
            }
            _ => {
                let n = ch.of(&[255u32, 256, 257, 8191, 8192, 16384, 65535, 65536, 70000]);
                let (w, h) = if ch.flag() { (n, 1) } else { (1, n) };
                (w, h, (0..n * 4).map(|i| mix(i) as u16).collect())
            }
        };
        let f = ff(w, h, &v);
        ch.steps((w * h) as u64);
        ch.outcome(hash_of(&f));
        same(&format!("farbfeld {w}x{h}"), (w, h, ColorType::Rgba16), &ne(&v), &f)?;
        let mut o = vec![];
        farbfeld::FarbfeldEncoder::new(&mut o).write_image(&ne(&v), w, h, ExtendedColorType::Rgba16).map_err(|e| e.to_string())?;
        ensure!(o == f, "{w}x{h} written differently: {}", util::first_diff(&o, &f));
        let mut o = vec![];
        farbfeld::FarbfeldEncoder::new(&mut o).encode(&ne(&v), w, h).map_err(|e| e.to_string())?;
        ensure!(o == f, "{w}x{h} written differently by encode: {}", util::first_diff(&o, &f));
        ch.validated();
        Ok(())
    });
    c.explore("farbfeld refused", "every other signature byte, every cut before the pixels are complete, sizes beyond memory; bytes after the image are ignored", |ch| {
        let f = ff(3, 2, &(0..24).map(|i| mix(i) as u16).collect::<Vec<_>>());
        match ch.pick(4) {
            0 => {
                for i in 0..8 {
                    for v in 0..=255u8 {
                        if f[i] != v {
                            let mut b = f.clone();
                            b[i] = v;
                            let r = run(|| farbfeld::FarbfeldDecoder::new(Cursor::new(&b)));
                            ensure!(r.is_err() && !r.as_ref().unwrap_err().starts_with("PANIC"), "signature byte {i} = {v}: {r:?}");
                        }
                    }
                }
            }
            1 => {
                for cut in 0..f.len() {
                    let r = run(|| farbfeld::FarbfeldDecoder::new(Cursor::new(&f[..cut])));
                    ensure!(r.is_err() && !r.as_ref().unwrap_err().starts_with("PANIC"), "cut to {cut}: {r:?}");
                    let r = dec_open(&f[..cut]);
                    ensure!(r.is_err() && !r.as_ref().unwrap_err().starts_with("PANIC"), "cut to {cut} through ImageReader: {r:?}");
                }
            }
            2 => {
                for (w, h) in [(u32::MAX, u32::MAX), (u32::MAX, 1), (1, u32::MAX), (0x8000_0000, 0x4000_0000), (0x1_0000, 0x1_0000)] {
                    bad(&ff(w, h, &[1, 2, 3, 4]), format!("farbfeld {w}x{h}"))?;
                }
            }
            _ => {
                let v: Vec<u16> = (0..24).map(|i| mix(i) as u16).collect();
                for k in 1..20 {
                    let mut b = f.clone();
                    b.extend(vec![0xEE; k]);
                    same(&format!("{k} bytes after the image"), (3, 2, ColorType::Rgba16), &ne(&v), &b)?;
                }
            }
        }
        Ok(())
    });
    c.finish();
}
