//! C42: JPEG files decode to the pixels the format defines.
//! TECHNIQUE: exhaustive enumeration of image sizes, sampling factors, restart intervals, divisions into scans, coefficients, tables and colour transforms, written by an independent coefficient-level JPEG writer; each file is decoded by the real decoder and compared with a double-precision inverse transform
//! LEVEL: model_checking
//! NOTE: The inverse transform and colour conversion are only defined up to rounding, and upsampling is left to the decoder: pixels are compared with a small tolerance, and subsampled chroma with the range of its 3x3 neighbourhood.
use image::codecs::jpeg;
use image::*;
use mc::jpegforge::*;
use mc::*;
use std::io::Cursor;

type Out = Result<(u32, u32, ColorType, Vec<u8>), String>;
fn both(b: &[u8]) -> [(&'static str, Out); 2] {
    let direct = catch(|| -> ImageResult<_> {
        let d = jpeg::JpegDecoder::new(Cursor::new(b))?;
        let ((w, h), c) = (d.dimensions(), d.color_type());
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, c, o))
    });
    let open = catch(|| ImageReader::new(Cursor::new(b)).with_guessed_format().unwrap().decode().map(|d| (d.width(), d.height(), d.color(), d.as_bytes().to_vec())));
    let f = |r: Result<ImageResult<_>, String>| r.map_err(|p| format!("PANIC {p}"))?.map_err(|e| e.to_string());
    [("decoder", f(direct)), ("ImageReader", f(open))]
}
/// The samples of a component's padded plane.
fn plane(j: &Jpeg, c: usize) -> (usize, usize, Vec<f64>) {
    let p = &j.parts[c];
    let (bw, bh) = j.plane(p.h, p.v);
    let q = &j.quant[p.tq as usize];
    let mut o = vec![0.; bw * bh * 64];
    for (i, b) in p.blocks.iter().enumerate() {
        let t = jpegmodel::idct(&std::array::from_fn(|k| b[k] as f64 * q[k] as f64));
        for k in 0..64 {
            o[(i / bw * 8 + k / 8) * bw * 8 + i % bw * 8 + k % 8] = (t[k] + 128.).clamp(0., 255.);
        }
    }
    // the samples that count
    let (mh, mv) = j.max();
    ((j.w * p.h).div_ceil(mh), (j.h * p.v).div_ceil(mv), o)
}
type Range = (f64, f64);
/// What the sample at a pixel may be, when the plane is enlarged by interpolation.
fn at(j: &Jpeg, c: usize, p: &(usize, usize, Vec<f64>), x: usize, y: usize) -> Range {
    let (mh, mv) = j.max();
    let (h, v) = (j.parts[c].h, j.parts[c].v);
    let stride = j.plane(h, v).0 * 8;
    let (cx, cy) = (x * h / mh, y * v / mv);
    let near = |i: usize, full: bool, n: usize| if full { i..=i } else { i.saturating_sub(1)..=(i + 1).min(n - 1) };
    let (mut lo, mut hi) = (f64::MAX, f64::MIN);
    // the padding may take part in the interpolation at the right and the bottom
    for yy in near(cy, v == mv, p.2.len() / stride) {
        for xx in near(cx, h == mh, stride) {
            let s = p.2[yy * stride + xx];
            lo = lo.min(s);
            hi = hi.max(s);
        }
    }
    (lo, hi)
}
fn ycc(y: Range, b: Range, r: Range) -> [Range; 3] {
    let f = |y: f64, b: f64, r: f64| [y + 1.402 * (r - 128.), y - 0.344136 * (b - 128.) - 0.714136 * (r - 128.), y + 1.772 * (b - 128.)];
    let (lo, hi) = (f(y.0, b.0, r.0), f(y.1, b.1, r.1));
    let (glo, ghi) = (f(y.0, b.1, r.1)[1], f(y.1, b.0, r.0)[1]);
    [(lo[0], hi[0]), (glo, ghi), (lo[2], hi[2])].map(|(a, z)| (a.clamp(0., 255.), z.clamp(0., 255.)))
}
fn same(j: &Jpeg, tol: f64, what: &str) -> Res {
    let b = j.file();
    let planes: Vec<_> = (0..j.parts.len()).map(|c| plane(j, c)).collect();
    for (via, got) in both(&b) {
        let (w, h, c, v) = match got {
            Ok(g) => g,
            Err(e) => return viol(if e.starts_with("PANIC") { "panic" } else { "refused" }, format!("{what} through {via}: {e}")),
        };
        need!((w as usize, h as usize) == (j.w, j.h), "size", "{what} through {via}: {w}x{h} instead of {}x{}", j.w, j.h);
        let color = if j.parts.len() == 1 { ColorType::L8 } else { ColorType::Rgb8 };
        need!(c == color, "color", "{what} through {via}: {c:?} instead of {color:?}");
        let n = color.channel_count() as usize;
        for y in 0..j.h {
            for x in 0..j.w {
                let s: Vec<Range> = (0..j.parts.len()).map(|c| at(j, c, &planes[c], x, y)).collect();
                let inv = |r: Range| (255. - r.1, 255. - r.0);
                let times = |a: Range, b: Range| (a.0 * b.0 / 255., a.1 * b.1 / 255.);
                let want: Vec<Range> = match (s.len(), j.adobe) {
                    (1, _) => vec![s[0]],
                    (3, Some(0)) => s,
                    (3, _) => ycc(s[0], s[1], s[2]).to_vec(),
                    // Adobe stores inverted inks: 255 is none
                    (_, Some(2)) => ycc(s[0], s[1], s[2]).map(|c| times(inv(c), s[3])).to_vec(),
                    _ => s[..3].iter().map(|c| times(*c, s[3])).collect(),
                };
                for k in 0..n {
                    let g = v[(y * j.w + x) * n + k] as f64;
                    need!(g >= want[k].0 - tol && g <= want[k].1 + tol, "pixels", "{what} through {via}: sample {k} of pixel ({x}, {y}) of {}x{} is {g}, not in {:.1}..={:.1}", j.w, j.h, want[k].0, want[k].1);
                }
            }
        }
    }
    Ok(())
}
fn bad(b: &[u8], what: String) -> Res {
    for (via, r) in both(b) {
        match r {
            Ok(g) => return viol("accepted", format!("{what} through {via}: decoded as {}x{} {:?}", g.0, g.1, g.2)),
            Err(e) => ensure!(!e.starts_with("PANIC"), "{what} through {via}: {e}"),
        }
    }
    Ok(())
}
/// A picture with blocks that all differ: levels, and slopes when `ac`.
fn picture(w: usize, h: usize, samp: &[(usize, usize)], q: u16, ac: bool) -> Jpeg {
    let mut j = Jpeg {
        w,
        h,
        parts: samp.iter().enumerate().map(|(i, (h, v))| Part { id: i as u8 + 1, h: *h, v: *v, tq: 0, blocks: vec![] }).collect(),
        quant: vec![[q; 64]],
        jfif: true,
        adobe: None,
        restart: 0,
        sof: 0xC0,
        scans: vec![Scan((0..samp.len()).collect(), 0, 63, 0, 0)],
        skew: false,
        wide: false,
        before: vec![],
        pad: 0,
    };
    for (c, (hh, vv)) in samp.iter().enumerate() {
        let (bw, bh) = j.plane(*hh, *vv);
        j.parts[c].blocks = (0..bw * bh)
            .map(|i| {
                let (x, y) = (i % bw, i / bw);
                let mut b = [0i32; 64];
                let q = q as i32;
                b[0] = ((x * 97 + y * 59 + c * 31) % 9) as i32 * 120 / q - 480 / q;
                if ac {
                    b[1] = ((x * 5 + y * 3 + c) % 7) as i32 * 20 / q - 60 / q;
                    b[8] = ((x * 3 + y * 7 + c) % 5) as i32 * 24 / q - 48 / q;
                    b[(x * 11 + y * 13 + c * 17) % 62 + 2] += 24 / q;
                }
                b
            })
            .collect();
    }
    j
}
const SAMP: [(&str, [(usize, usize); 3]); 4] = [("4:4:4", [(1, 1); 3]), ("4:2:2", [(2, 1), (1, 1), (1, 1)]), ("4:4:0", [(1, 2), (1, 1), (1, 1)]), ("4:2:0", [(2, 2), (1, 1), (1, 1)])];

fn main() {
    let mut c = Check::start("C42", "model_checking", "every file of the coefficient-level writer decodes to its pixels: size and colour type exact, samples within rounding of the double-precision transform");
    let q = c.quick;
    c.explore("layouts", "gray with sampling factors 1, 2, 4 and YCbCr 4:4:4, 4:2:2, 4:4:0, 4:2:0; widths and heights around every multiple of 8 and 16; restart intervals 0, 1, 2, 3, 5; interleaved", |ch| {
        let gray = ch.flag();
        let sizes: &[usize] = if q { &[1, 7, 8, 9, 15, 16, 17, 24, 25, 33] } else { &[1, 2, 3, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 65] };
        let (w, h) = (ch.of(sizes), ch.of(sizes));
        let r = ch.of(&[0u16, 1, 2, 3, 5]);
        let ac = ch.flag();
        let (name, mut j) = if gray {
            let s = ch.of(&[(1usize, 1usize), (2, 1), (1, 2), (2, 2), (4, 4)]);
            (format!("gray with sampling {}x{}", s.0, s.1), picture(w, h, &[s], 4, ac))
        } else {
            let (n, s) = ch.of(&SAMP);
            (n.to_string(), picture(w, h, &s, 4, ac))
        };
        j.restart = r;
        ch.state(hash_of(&(gray, w, h, r, ac, &name)));
        same(&j, 4., &format!("{name}, {w}x{h}, restart interval {r}"))
    });
    c.explore("scans", "YCbCr and gray, baseline in one scan or one per component, progressive with 1 to 4 bands and with DC refinement, restart intervals 0, 1, 3", |ch| {
        let gray = ch.flag();
        let (w, h) = (ch.of(&[8usize, 17, 33]), ch.of(&[8usize, 17, 33]));
        let samp: Vec<_> = if gray { vec![(1, 1)] } else { ch.of(&SAMP).1.to_vec() };
        let mut j = picture(w, h, &samp, 4, true);
        j.restart = ch.of(&[0u16, 1, 3]);
        let all: Vec<usize> = (0..samp.len()).collect();
        let mode = ch.pick(7);
        let bands: &[usize] = match mode {
            2 => &[63],
            3 | 5 | 6 => &[5, 63],
            _ => &[1, 2, 27, 63],
        };
        match mode {
            0 => j.sof = 0xC1,
            1 => j.scans = all.iter().map(|c| Scan(vec![*c], 0, 63, 0, 0)).collect(),
            _ => {
                j.sof = 0xC2;
                let low = if mode >= 5 { 1 } else { 0 };
                j.scans = vec![Scan(all.clone(), 0, 0, 0, low)];
                if mode == 6 {
                    j.scans = all.iter().map(|c| Scan(vec![*c], 0, 0, 0, low)).collect();
                }
                for c in all.iter().rev() {
                    let mut first = 1;
                    for b in bands {
                        j.scans.push(Scan(vec![*c], first, *b, 0, 0));
                        first = b + 1;
                    }
                }
                if low > 0 {
                    j.scans.push(Scan(all.clone(), 0, 0, 1, 0));
                }
            }
        }
        ch.state(hash_of(&(gray, w, h, &samp, j.restart, mode)));
        let r = same(&j, 4., &format!("{w}x{h} with sampling {samp:?}, restart interval {}, scans {:?}", j.restart, j.scans));
        if mode == 1 && !gray {
            r.map_err(|v| if v.key == "pixels" || v.key == "refused" { Viol::new("baseline-scans", v.msg) } else { v })
        } else if mode > 1 && j.restart > 0 {
            r.map_err(|v| if v.key == "pixels" || v.key == "refused" { Viol::new("progressive-restart", v.msg) } else { v })
        } else {
            r
        }
    });
    c.explore("coefficients", "one gray block with each of the 64 coefficients at 1, -1, 15, -16, 100, -100, 1023 and -1023, over three levels, alone or with another coefficient; baseline and progressive", |ch| {
        let k = ch.pick(64);
        let v = ch.of(&[1i32, -1, 15, -16, 100, -100, 1023, -1023]);
        let dc = ch.of(&[0, -1024, 1016]);
        let other = ch.of(&[0usize, 1, 8, 35, 63]);
        let prog = ch.flag();
        let mut j = picture(8, 8, &[(1, 1)], 1, false);
        let b = &mut j.parts[0].blocks[0];
        *b = [0; 64];
        b[0] = dc;
        if other > 0 {
            b[other] = 40;
        }
        b[k] = v;
        if prog {
            j.sof = 0xC2;
            j.scans = vec![Scan(vec![0], 0, 0, 0, 0), Scan(vec![0], 1, 63, 0, 0)];
        }
        ch.state(hash_of(&(k, v, dc, other, prog)));
        same(&j, 3., &format!("coefficient {k} of {v}, the first {dc}, {other} of 40, progressive {prog}"))
    });
    c.explore("levels", "flat blocks: every level of gray; all triples of a grid of levels as YCbCr (JFIF, Adobe or no marker) and RGB (Adobe); all quadruples as Adobe CMYK and YCCK; widths 1, 5, 16, 17", |ch| {
        let kind = ch.pick(7);
        let name = ["gray", "YCbCr JFIF", "YCbCr Adobe", "YCbCr without marker", "CMYK Adobe", "YCCK Adobe", "RGB Adobe"][kind];
        let n = [1, 3, 3, 3, 4, 4, 3][kind];
        let grid: Vec<i32> = if n == 1 { (0..256).collect() } else if n == 3 { (0..=255).step_by(if q { 51 } else { 17 }).collect() } else if q { vec![0, 64, 191, 255] } else { vec![0, 32, 64, 128, 191, 224, 255] };
        let levels: Vec<i32> = (0..n).map(|_| grid[ch.pick(grid.len())]).collect();
        let w = ch.of(&[1usize, 5, 16, 17]);
        let mut j = picture(w, 3, &vec![(1, 1); n], 1, false);
        j.jfif = kind <= 1;
        j.adobe = [None, None, Some(1), None, Some(0), Some(2), Some(0)][kind];
        for (p, l) in j.parts.iter_mut().zip(&levels) {
            for b in &mut p.blocks {
                b[0] = (l - 128) * 8;
            }
        }
        ch.state(hash_of(&(kind, &levels, w)));
        same(&j, 3., &format!("{name} {levels:?} of width {w}"))
    });
    c.explore("tables", "8- and 16-bit quantisation tables with every position at another value, a table per component, Huffman codes of equal and of very different lengths, fill bytes before markers, and comments and application segments before the frame", |ch| {
        let wide = ch.flag();
        let skew = ch.flag();
        let pad = ch.of(&[0usize, 1, 3]);
        let restart = ch.of(&[0u16, 1]);
        let at = ch.pick(64);
        let step = ch.of(if wide { &[2u16, 99, 300, 65535] } else { &[2u16, 99, 128, 255] });
        let extra = ch.pick(4);
        let mut j = picture(17, 9, &SAMP[0].1, 4, true);
        j.wide = wide;
        j.skew = skew;
        j.pad = pad;
        j.restart = restart;
        let mut t = [4u16; 64];
        t[at] = step;
        j.quant.push(t);
        j.quant.push(std::array::from_fn(|k| 3 + k as u16 / 8));
        j.parts[1].tq = 1;
        j.parts[2].tq = 2;
        // a coefficient there in every block
        for b in &mut j.parts[1].blocks {
            *b = [0; 64];
            b[at] = if step < 1000 { 400 / step as i32 } else { 0 };
        }
        j.before = match extra {
            0 => vec![],
            1 => vec![(0xFE, b"a comment with \xff\xd8\xff\xc0".to_vec())],
            2 => vec![(0xE5, vec![]), (0xE1, vec![7; 300])],
            _ => vec![(0xEF, vec![0xFF; 65533])],
        };
        ch.state(hash_of(&(wide, skew, pad, restart, at, step, extra)));
        same(&j, 4., &format!("quantiser {step} at {at}, 16-bit {wide}, uneven codes {skew}, {pad} fill bytes, restart {restart}, segments {extra}"))
    });
    c.explore("refused", "lossless, hierarchical and arithmetic-coded frames, other sample precisions, sizes of zero, no components, frames cut in the header", |ch| {
        let mut j = picture(9, 9, &SAMP[0].1, 4, true);
        let what = match ch.pick(5) {
            0 => {
                j.sof = ch.of(&[0xC3u8, 0xC5, 0xC6, 0xC7, 0xC9, 0xCA, 0xCB, 0xCD, 0xCE, 0xCF]);
                ch.state(hash_of(&j.sof));
                return bad(&j.file(), format!("frame type {:#x}", j.sof));
            }
            1 => (4usize, ch.of(&[0u8, 1, 7, 9, 12, 16]), "precision"),
            2 => (ch.of(&[6usize, 8]), 0, "size"),
            3 => (9, 0, "number of components"),
            _ => {
                let b = j.file();
                let sos = b.windows(2).position(|w| w == [0xFF, 0xDA]).unwrap();
                let k = ch.pick(sos + 10);
                ch.state(hash_of(&k));
                return bad(&b[..k], format!("the first {k} bytes"));
            }
        };
        let mut b = j.file();
        let at = b.windows(4).position(|w| w[..4] == [0xFF, 0xC0, 0, 17]).unwrap();
        b[at + what.0] = what.1;
        if what.2 == "size" {
            b[at + what.0 - 1] = 0;
        }
        ch.state(hash_of(&what));
        bad(&b, format!("{} {} (at {})", what.2, what.1, what.0))
    });
    c.finish()
}
