//! C22: BMP decoding and encoding against an independent model of the format.
//! TECHNIQUE: exhaustive enumeration of BMP headers, mask layouts and run-length command streams generated from a model of the format, each decoded by the real decoder and compared with the model's pixels
//! LEVEL: model_checking
//! NOTE: Pixels that a run-length stream skips are undefined by the format; the check holds the decoder to the black it documents. Channels of more than 8 bits may be off by one from exact scaling.
use image::codecs::bmp::{BmpDecoder, BmpEncoder};
use image::*;
use mc::forge::{pack_bits, pack_le, Bmp};
use mc::*;
use std::io::Cursor;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Via {
    File,
    Dib,
    Indexed,
}
type Out = Result<(u32, u32, ColorType, Vec<u8>), String>;
fn dec(f: &Bmp, via: Via) -> Out {
    let b = if via == Via::Dib { f.dib() } else { f.file() };
    dec_bytes(&b, via)
}
fn dec_bytes(b: &[u8], via: Via) -> Out {
    catch(|| -> ImageResult<_> {
        let mut d = if via == Via::Dib { BmpDecoder::new_without_file_header(Cursor::new(b))? } else { BmpDecoder::new(Cursor::new(b))? };
        if via == Via::Indexed {
            d.set_indexed_color(true);
        }
        let ((w, h), c) = (d.dimensions(), d.color_type());
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, c, o))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}
/// `tol`: per-channel tolerance.
fn expect(ch: &mut Ch, f: &Bmp, via: Via, color: ColorType, rows: &[Vec<Vec<u8>>], tol: [u8; 4], what: &dyn Fn() -> String) -> Res {
    ch.step();
    let want: Vec<u8> = rows.iter().flatten().flatten().cloned().collect();
    let b = || hex(&f.file()[..f.file().len().min(300)]);
    ch.state(hash_of(&(f.hdr, f.bpp, f.comp, f.w, f.h, &f.data, f.masks, f.clrs_used, f.palette.len())));
    match dec(f, via) {
        Ok((w, h, c, o)) => {
            need!((w, h) == (f.w as u32, f.h.unsigned_abs()), "shape", "{}: got {w}x{h}", what());
            need!(c == color, "color", "{}: got {c:?} instead of {color:?}; {}", what(), b());
            let n = c.channel_count() as usize;
            let ok = o.len() == want.len() && o.iter().zip(&want).enumerate().all(|(i, (a, b))| a.abs_diff(*b) <= tol[i % n]);
            need!(ok, "pixels", "{} via {via:?}: {}; got {} want {}; {}", what(), first_diff(&o, &want), hex(&o[..o.len().min(80)]), hex(&want[..want.len().min(80)]), b());
            ch.outcome(hash_of(&(f.hdr, f.bpp, f.comp, via as u8, c)));
            ch.validated();
            Ok(())
        }
        Err(e) => viol(if e.starts_with("PANIC") { "panic" } else { "refused" }, format!("{} via {via:?}: {e}; {}", what(), b())),
    }
}
/// Rows in file order for the image rows top to bottom.
fn order<T: Clone>(rows: &[T], top_down: bool) -> Vec<T> {
    let mut v = rows.to_vec();
    if !top_down {
        v.reverse();
    }
    v
}
fn pal(n: usize, seed: usize) -> Vec<[u8; 3]> {
    (0..n).map(|i| [(i * 53 + seed * 7 + 1) as u8, (i * 101 + 77 + seed) as u8, (i * 29 + 200 + seed * 3) as u8]).collect()
}
fn scale(v: u32, bits: u32) -> u8 {
    let m = if bits == 32 { u32::MAX as u64 } else { (1u64 << bits) - 1 };
    ((v as u64 * 510 + m) / (2 * m)) as u8
}

/// What a written BMP file says, read by the letter of the format: size, samples per pixel, and RGB(A) samples from the top.
fn read_bmp(b: &[u8]) -> Result<(u32, u32, usize, Vec<u8>), String> {
    let u32_at = |i: usize| b.get(i..i + 4).map(|p| u32::from_le_bytes(p.try_into().unwrap())).ok_or("short header");
    let u16_at = |i: usize| b.get(i..i + 2).map(|p| u16::from_le_bytes(p.try_into().unwrap())).ok_or("short header");
    if b.get(..2) != Some(b"BM") || u32_at(2)? as usize != b.len() || u32_at(6)? != 0 {
        return Err(format!("file header with a size of {} in a file of {}", u32_at(2)?, b.len()));
    }
    let (start, hdr, w, h) = (u32_at(10)? as usize, u32_at(14)? as usize, u32_at(18)?, u32_at(22)?);
    let (planes, bpp, comp, size, used) = (u16_at(26)?, u16_at(28)? as usize, u32_at(30)?, u32_at(34)? as usize, u32_at(46)? as usize);
    let entries = match (bpp, used) {
        (8, 0) => 256,
        (_, n) => n,
    };
    if planes != 1 || w > i32::MAX as u32 || h > i32::MAX as u32 || start != 14 + hdr + entries * 4 || entries > 256 || bpp != 8 && entries > 0 {
        return Err(format!("{planes} planes, {w}x{h}, {bpp} bits, pixels at {start} behind a header of {hdr} and {entries} colours"));
    }
    match (hdr, bpp, comp) {
        (40, 8 | 24, 0) => {}
        (108 | 124, 32, 3) if [54, 58, 62, 66].map(|i| u32_at(i).unwrap()) == [0xFF0000, 0xFF00, 0xFF, 0xFF000000] => {}
        k => return Err(format!("header size, bits, compression {k:?}")),
    }
    let n = bpp / 8;
    let stride = (w as usize * n).div_ceil(4) * 4;
    if b.len() != start + stride * h as usize || size != 0 && size != stride * h as usize || size == 0 && comp != 0 {
        return Err(format!("{} bytes of pixels ({size} announced) for {w}x{h} of {n} bytes", b.len() - start.min(b.len())));
    }
    let mut o = vec![];
    for row in b[start..].chunks(stride).rev() {
        if row[w as usize * n..].iter().any(|p| *p != 0) {
            return Err("padding that is not zero".into());
        }
        for p in row[..w as usize * n].chunks(n) {
            match n {
                1 => {
                    let e = (p[0] as usize) < entries;
                    let i = 14 + hdr + p[0] as usize * 4;
                    if !e {
                        return Err(format!("index {} of {entries} colours", p[0]));
                    }
                    o.extend([b[i + 2], b[i + 1], b[i]]);
                }
                3 => o.extend([p[2], p[1], p[0]]),
                _ => o.extend([p[2], p[1], p[0], p[3]]),
            }
        }
    }
    Ok((w, h, if n == 4 { 4 } else { 3 }, o))
}
fn encoded(ch: &mut Ch) -> Res {
    let m = if ch.quick { 9 } else { 33 };
    let color = ch.of(&[ColorType::L8, ColorType::La8, ColorType::Rgb8, ColorType::Rgba8]);
    let (w, h) = (ch.range(1, m) as u32, ch.range(1, 4) as u32);
    let content = ch.of(&[2usize, 5, 1]);
    let img = pattern(w, h, color, content as _);
    let n = color.bytes_per_pixel() as usize;
    // Palettes have as many colours as the image uses, and more.
    let mut pals: Vec<Option<Vec<[u8; 3]>>> = vec![None];
    if n < 3 {
        let top = img.data.chunks(n).map(|p| p[0] as usize).max().unwrap() + 1;
        pals.extend([top, (top + 1).min(256), 256].map(|k| Some(pal(k, content))));
    }
    for p in pals {
        let what = format!("{color:?} {w}x{h} content {content}, palette of {:?}", p.as_ref().map(|p| p.len()));
        let mut b = vec![];
        BmpEncoder::new(&mut b).encode_with_palette(&img.data, w, h, color.into(), p.as_deref()).map_err(|e| format!("{what}: {e}"))?;
        let want: Vec<u8> = img
            .data
            .chunks(n)
            .flat_map(|px| match (n, &p) {
                (1 | 2, None) => vec![px[0]; 3],
                (1 | 2, Some(p)) => p[px[0] as usize].to_vec(),
                _ => px.to_vec(),
            })
            .collect();
        let (gw, gh, gn, got) = read_bmp(&b).map_err(|e| Viol::new("encode", format!("{what}: {e}; {}", hex(&b[..b.len().min(160)]))))?;
        need!((gw, gh, gn) == (w, h, if n == 4 { 4 } else { 3 }) && got == want, "encode", "{what}: {gw}x{gh}, {}; {}", first_diff(&got, &want), hex(&b[..b.len().min(160)]));
        ch.step();
        ch.validated();
        ch.state(hash_of(&b));
    }
    Ok(())
}
/// Takes the first bytes and refuses the rest.
struct Head(Vec<u8>);
impl std::io::Write for Head {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() > 1 << 16 {
            return Err(std::io::ErrorKind::StorageFull.into());
        }
        self.0.extend(&b[..b.len().min(1 << 17)]);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn vast(ch: &mut Ch) -> Res {
    // sizes about the ends of the header's fields; the pixels are zero and never touched
    let (w, h, color) = ch.of(&[
        (1u32, 1_431_655_766u32, ColorType::L8),
        (1, 1 << 30, ColorType::L8),
        (1, (1 << 30) - 1000, ColorType::L8),
        (1 << 31, 1, ColorType::L8),
        ((1 << 31) - 4, 1, ColorType::L8),
        (1, 1 << 31, ColorType::L8),
        (u32::MAX, 1, ColorType::L8),
        (1 << 30, 1, ColorType::Rgba8),
        ((1 << 30) + 1, 1, ColorType::Rgba8),
        ((1 << 30) - 64, 1, ColorType::Rgba8),
        (1_431_655_766, 1, ColorType::Rgb8),
        (1 << 16, 1 << 15, ColorType::La8),
    ]);
    let n = color.bytes_per_pixel() as u64;
    let len = w as u64 * h as u64 * n;
    let what = format!("{color:?} {w}x{h}");
    // past the harness's own bounds on memory, which is for the code under test
    let layout = std::alloc::Layout::from_size_align(len as usize, 1).unwrap();
    let mem = unsafe { std::alloc::GlobalAlloc::alloc_zeroed(&std::alloc::System, layout) };
    ensure!(!mem.is_null(), "no memory for the test");
    let data = unsafe { std::slice::from_raw_parts(mem, len as usize) };
    let mut o = Head(vec![]);
    let r = catch(|| BmpEncoder::new(&mut o).encode(data, w, h, color.into()));
    unsafe { std::alloc::GlobalAlloc::dealloc(&std::alloc::System, mem, layout) };
    let r = r.map_err(|e| Viol::new("encode-panic", format!("{what}: {e}")))?;
    ch.step();
    ch.outcome(o.0.is_empty() as u64);
    let written = if n == 2 { 1 } else { n };
    let size = 14 + if n == 4 { 108 } else { 40 } + if n < 3 { 1024 } else { 0 } + (w as u64 * written).div_ceil(4) * 4 * h as u64;
    let fits = w <= i32::MAX as u32 && h <= i32::MAX as u32 && size <= u32::MAX as u64;
    need!(fits || o.0.is_empty() && r.is_err(), "encode-vast", "{what}, whose sizes no header can say, is being written: {}", hex(&o.0[..o.0.len().min(64)]));
    if !o.0.is_empty() {
        let at = |i: usize| u32::from_le_bytes(o.0[i..i + 4].try_into().unwrap());
        need!(at(2) as u64 == size && at(18) == w && at(22) == h, "encode-vast", "{what} of {size} bytes: the header says {} bytes, {}x{}", at(2), at(18), at(22));
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C22", "model_checking", "one execution = one family of BMP files generated from the model; non-trivial when the decoder delivers exactly the model's pixels, or refuses a malformed file");
    let quick = c.quick;

    c.explore("encode", "four colour types x sizes up to 9x4 (33x4) x 3 contents x palettes: the file is read by an independent reader", encoded);
    c.explore("encode vast", "12 sizes about the ends of the header's fields: the header is exact, or nothing is written", vast);
    c.explore("palette", "header sizes {12,40,52,56,108,124} x depths {1,2,4,8} x widths 1..=18 (17 and 33 for one bit) x heights 1..=3 x row order x colours used {0,1,2,3,all} x gap before the pixels {0,1,7} x as file, as bare DIB and as indices", |ch| {
        let hdr = ch.of(&[12u32, 40, 52, 56, 108, 124]);
        let bpp = ch.of(&[1u16, 2, 4, 8]);
        if hdr == 12 && bpp == 2 {
            return Ok(());
        }
        let w = ch.range(1, 18) as usize;
        let w = if w == 18 { 33 } else { w };
        let all = 1usize << bpp;
        for h in 1..=3usize {
            for top in [false, true] {
                if hdr == 12 && top {
                    continue;
                }
                for used in [0usize, 1, 2, 3, all] {
                    if used > all || (hdr == 12 && used != 0) {
                        continue;
                    }
                    for gap in [0usize, 1, 7] {
                        let n = if used == 0 { all } else { used };
                        let p = pal(n, w + h);
                        let idx: Vec<Vec<u32>> = (0..h).map(|y| (0..w).map(|x| ((x * 7 + y * 5 + x * x / 3 + w) % n) as u32).collect()).collect();
                        let mut f = Bmp::new(hdr, w as i32, if top { -(h as i32) } else { h as i32 }, bpp, 0);
                        f.palette = p.clone();
                        f.clrs_used = used as u32;
                        f.gap = gap;
                        f.data = pack_bits(&order(&idx, top), bpp as u32, 4);
                        let rgb: Vec<Vec<Vec<u8>>> = idx.iter().map(|r| r.iter().map(|i| p[*i as usize].to_vec()).collect()).collect();
                        let raw: Vec<Vec<Vec<u8>>> = idx.iter().map(|r| r.iter().map(|i| vec![*i as u8]).collect()).collect();
                        let what = || format!("palette hdr {hdr} {bpp} bpp {w}x{h} top {top} used {used} gap {gap}");
                        expect(ch, &f, Via::File, ColorType::Rgb8, &rgb, [0; 4], &what)?;
                        expect(ch, &f, Via::Indexed, ColorType::L8, &raw, [0; 4], &what)?;
                        if gap == 0 {
                            expect(ch, &f, Via::Dib, ColorType::Rgb8, &rgb, [0; 4], &what)?;
                        }
                    }
                }
            }
        }
        ch.sample(|| format!("hdr {hdr} bpp {bpp} width {w}"));
        Ok(())
    });

    c.explore("large", "palettes of each depth and true colours of each, extents of 255 to 257, 1000, 4096 and 65535 in each direction, both row orders", |ch| {
        let bpp = ch.of(&[1u16, 2, 4, 8, 16, 24, 32]);
        let n = ch.of(&[255usize, 256, 257, 1000, 4096, 32767, 32768, 65535]);
        let (w, h) = ch.of(&[(n, 1), (1, n), (n, 3), (3, n)]);
        let top = ch.flag();
        let mut f = Bmp::new(40, w as i32, if top { -(h as i32) } else { h as i32 }, bpp, 0);
        let val = |x: usize, y: usize| -> u32 { (x as u32).wrapping_mul(0x01234567).wrapping_add((y as u32).wrapping_mul(0x89ABCDEF)).wrapping_add(0x13579BDF).rotate_left((x + y) as u32) };
        let vals: Vec<Vec<u32>> = (0..h).map(|y| (0..w).map(|x| if bpp <= 8 { (val(x, y) >> 7) % (1 << bpp) } else { val(x, y) }).collect()).collect();
        let p = pal(1 << bpp.min(8), w + h);
        if bpp <= 8 {
            f.palette = p.clone();
            f.data = pack_bits(&order(&vals, top), bpp as u32, 4);
        } else {
            f.data = pack_le(&order(&vals, top), bpp as usize / 8);
        }
        let rgb: Vec<Vec<Vec<u8>>> = vals
            .iter()
            .map(|r| {
                r.iter()
                    .map(|v| match bpp {
                        16 => vec![scale(v >> 10 & 31, 5), scale(v >> 5 & 31, 5), scale(v & 31, 5)],
                        24 | 32 => vec![(v >> 16) as u8, (v >> 8) as u8, *v as u8],
                        _ => p[*v as usize].to_vec(),
                    })
                    .collect()
            })
            .collect();
        expect(ch, &f, Via::File, ColorType::Rgb8, &rgb, [0; 4], &|| format!("large {bpp} bpp {w}x{h} top {top}"))
    });

    c.explore("direct", "true-colour images without masks: header sizes x depths {16,24,32} x widths 1..=9 x heights 1..=3 x row order x gap; and as bare DIB and with indexed output asked for", |ch| {
        let hdr = ch.of(&[12u32, 40, 52, 56, 108, 124]);
        let bpp = ch.of(&[16u16, 24, 32]);
        if hdr == 12 && bpp != 24 {
            return Ok(());
        }
        let w = ch.range(1, 9) as usize;
        for h in 1..=3usize {
            for top in [false, true] {
                if hdr == 12 && top {
                    continue;
                }
                for gap in [0usize, 1, 2, 70] {
                    let bytes = bpp as usize / 8;
                    let val = |x: usize, y: usize| -> u32 { (x as u32).wrapping_mul(0x01234567).wrapping_add((y as u32).wrapping_mul(0x89ABCDEF)).wrapping_add(0x13579BDF).rotate_left((x + y) as u32) };
                    let vals: Vec<Vec<u32>> = (0..h).map(|y| (0..w).map(|x| val(x, y)).collect()).collect();
                    let mut f = Bmp::new(hdr, w as i32, if top { -(h as i32) } else { h as i32 }, bpp, 0);
                    f.gap = gap;
                    // Masks that do not apply without BI_BITFIELDS.
                    f.masks = [0xFF, 0xFF00, 0xFF0000, 0xFF000000];
                    f.data = pack_le(&order(&vals, top), bytes);
                    let rgb: Vec<Vec<Vec<u8>>> = vals
                        .iter()
                        .map(|r| {
                            r.iter()
                                .map(|v| {
                                    if bpp == 16 {
                                        vec![scale(v >> 10 & 31, 5), scale(v >> 5 & 31, 5), scale(v & 31, 5)]
                                    } else {
                                        vec![(v >> 16) as u8, (v >> 8) as u8, *v as u8]
                                    }
                                })
                                .collect()
                        })
                        .collect();
                    let what = || format!("direct hdr {hdr} {bpp} bpp {w}x{h} top {top} gap {gap}");
                    expect(ch, &f, Via::File, ColorType::Rgb8, &rgb, [0; 4], &what)?;
                    expect(ch, &f, Via::Indexed, ColorType::Rgb8, &rgb, [0; 4], &what)?;
                    if gap == 0 {
                        expect(ch, &f, Via::Dib, ColorType::Rgb8, &rgb, [0; 4], &what)?;
                    }
                }
            }
        }
        ch.sample(|| format!("hdr {hdr} bpp {bpp} width {w}"));
        Ok(())
    });

    // Every value of every narrow channel.
    c.explore("sixteen", "all 65536 values of 16-bit pixels in the default layout and with 565, 4444, 1555 and 256-wide masks", |ch| {
        let (masks, hdr, comp) = ch.of(&[([0u32; 4], 40u32, 0u32), ([0xF800, 0x7E0, 0x1F, 0], 40, 3), ([0xF00, 0xF0, 0xF, 0xF000], 108, 3), ([0x7C00, 0x3E0, 0x1F, 0x8000], 124, 3), ([0xFF00, 0xFE, 1, 0], 40, 3), ([0xFE00, 0x1C0, 0x38, 7], 56, 3)]);
        let blk = ch.pick(64) as u32;
        let m = if comp == 0 { [0x7C00, 0x3E0, 0x1F, 0] } else { masks };
        let vals: Vec<Vec<u32>> = (0..4).map(|y| (0..256).map(|x| blk * 1024 + y * 256 + x).collect()).collect();
        let mut f = Bmp::new(hdr, 256, -4, 16, comp);
        f.masks = masks;
        f.data = pack_le(&vals, 2);
        let n = if m[3] != 0 { 4 } else { 3 };
        let rows: Vec<Vec<Vec<u8>>> = vals.iter().map(|r| r.iter().map(|v| m[..n].iter().map(|k| scale((v & k) >> k.trailing_zeros(), k.count_ones())).collect()).collect()).collect();
        expect(ch, &f, Via::File, if n == 4 { ColorType::Rgba8 } else { ColorType::Rgb8 }, &rows, [0; 4], &|| format!("masks {m:x?} block {blk}"))?;
        ch.sample(|| format!("masks {m:x?} block {blk}"));
        Ok(())
    });

    // Mask layouts.
    let run = |ch: &mut Ch, hdr: u32, bpp: u32, masks: [u32; 4], via: Via| -> Res {
        // Pixel values: each channel at 0, 1, top bit, all ones, and a pattern, and junk outside the masks.
        let n = if masks[3] != 0 { 4 } else { 3 };
        let junk = !(masks[0] | masks[1] | masks[2] | masks[3]);
        let mut vals = vec![];
        for k in 0..6 {
            let mut v = if k % 2 == 0 { junk } else { 0 };
            for (i, m) in masks.iter().enumerate() {
                if *m == 0 {
                    continue;
                }
                let len = m.count_ones();
                let full = if len == 32 { u32::MAX } else { (1u32 << len) - 1 };
                let p = [0, full, 1, 1u32 << (len - 1), 0x5A5A5A5A & full, 0x33CC33CC & full][(k + i) % 6];
                v |= p << m.trailing_zeros();
            }
            vals.push(if bpp == 16 { v & 0xFFFF } else { v });
        }
        let rows: Vec<Vec<Vec<u8>>> = vec![vals.iter().map(|v| masks[..n].iter().map(|k| scale((v & k) >> k.trailing_zeros(), k.count_ones())).collect()).collect()];
        let mut f = Bmp::new(hdr, 6, 1, bpp as u16, 3);
        f.masks = masks;
        f.data = pack_le(&[vals], bpp as usize / 8);
        let mut tol = [0; 4];
        for i in 0..4 {
            tol[i] = (masks[i].count_ones() > 8) as u8;
        }
        expect(ch, &f, via, if n == 4 { ColorType::Rgba8 } else { ColorType::Rgb8 }, &rows, tol, &|| format!("hdr {hdr} {bpp} bpp masks {masks:x?}"))
    };
    let contig = |bpp: u32, maxlen: u32| -> Vec<u32> {
        let mut v = vec![];
        for len in 1..=maxlen.min(bpp) {
            for s in 0..=bpp - len {
                v.push((((1u64 << len) - 1) << s) as u32);
            }
        }
        v
    };
    let m16 = contig(16, 14);
    c.explore("masks16", "16-bit pixels: every triple of disjoint contiguous masks, without alpha and with every alpha mask next to or apart from them (headers 40, 52, 56, 108, 124, and as bare DIB)", |ch| {
        let r = m16[ch.pick(m16.len())];
        let g = m16[ch.pick(m16.len())];
        if r & g != 0 {
            return Ok(());
        }
        let mut k = 0usize;
        for &b in &m16 {
            if b & (r | g) != 0 {
                continue;
            }
            k += 1;
            if ch.quick && k % 2 != 0 && k % 5 != (r.trailing_zeros() as usize + g.trailing_zeros() as usize) % 5 {
                continue;
            }
            let hdr = [40, 52, 56, 108, 124][k % 5];
            run(ch, hdr, 16, [r, g, b, 0], Via::File)?;
            if k % 7 == 0 {
                run(ch, hdr, 16, [r, g, b, 0], Via::Dib)?;
            }
            let hdr = [56, 108, 124][k % 3];
            for (j, &a) in m16.iter().enumerate() {
                if a & (r | g | b) == 0 && (!ch.quick || (j + k) % 3 == 0) {
                    run(ch, hdr, 16, [r, g, b, a], if j % 5 == 0 { Via::Dib } else { Via::File })?;
                }
            }
        }
        ch.sample(|| format!("masks {r:x} {g:x}"));
        Ok(())
    });
    let m32 = contig(32, 32);
    c.explore("masks32", "32-bit pixels: every contiguous mask for one channel x every split of a neighbouring free range for the others, all channel permutations, with and without alpha", |ch| {
        let m = m32[ch.pick(m32.len())];
        let perm = ch.of(&[[0usize, 1, 2, 3], [1, 2, 0, 3], [2, 0, 1, 3], [0, 2, 1, 3], [3, 1, 2, 0], [1, 3, 2, 0]]);
        // Free ranges below and above.
        let lo = m.trailing_zeros();
        let hi = 32 - m.leading_zeros();
        let mut free = vec![];
        for (a, b) in [(0, lo), (hi, 32)] {
            if b - a >= 1 {
                free.push((a, b));
            }
        }
        let mk = |a: u32, b: u32| (((1u64 << (b - a)) - 1) << a) as u32;
        let mut n = 0;
        for (fa, fb) in &free {
            for x in fa + 1..*fb {
                for y in x..*fb {
                    // [fa,x) [x,y) [y,fb): two or three further masks.
                    let mut parts = vec![mk(*fa, x)];
                    if y > x {
                        parts.push(mk(x, y));
                    }
                    parts.push(mk(y, *fb));
                    n += 1;
                    if ch.quick && n % 3 != 0 && !(x - fa == 8 || y - x == 8) {
                        continue;
                    }
                    let mut ms = [0u32; 4];
                    ms[perm[0]] = m;
                    for (i, p) in parts.iter().enumerate() {
                        ms[perm[i + 1]] = *p;
                    }
                    if ms[0] == 0 || ms[1] == 0 || ms[2] == 0 {
                        continue;
                    }
                    let hdr = if ms[3] != 0 { [56, 108, 124][n % 3] } else { [40, 52, 56, 108, 124][n % 5] };
                    run(ch, hdr, 32, ms, if n % 5 == 0 { Via::Dib } else { Via::File })?;
                }
            }
        }
        ch.sample(|| format!("mask {m:x} perm {perm:?}"));
        Ok(())
    });
    c.explore("bytemasks", "32-bit pixels: all assignments of red, green, blue and alpha (or none) to whole bytes, sizes 1..=5 x 1..=2, both row orders", |ch| {
        let p: Vec<usize> = (0..4).map(|_| ch.pick(4)).collect();
        let alpha = ch.flag();
        let used = if alpha { 4 } else { 3 };
        if !alpha && p[3] != 0 {
            return Ok(());
        }
        for i in 0..used {
            for j in 0..i {
                if p[i] == p[j] {
                    return Ok(());
                }
            }
        }
        for w in 1..=5usize {
            for h in 1..=2usize {
                for top in [false, true] {
                    let mut masks = [0u32; 4];
                    for i in 0..used {
                        masks[i] = 0xFF << (8 * p[i]);
                    }
                    let vals: Vec<Vec<u32>> = (0..h).map(|y| (0..w).map(|x| 0x10305070u32.wrapping_mul(1 + x as u32 + 7 * y as u32)).collect()).collect();
                    let mut f = Bmp::new(if alpha { 124 } else { 40 }, w as i32, if top { -(h as i32) } else { h as i32 }, 32, 3);
                    f.masks = masks;
                    f.data = pack_le(&order(&vals, top), 4);
                    let rows: Vec<Vec<Vec<u8>>> = vals.iter().map(|r| r.iter().map(|v| p[..used].iter().map(|k| (v >> (8 * k)) as u8).collect()).collect()).collect();
                    for via in [Via::File, Via::Dib] {
                        expect(ch, &f, via, if alpha { ColorType::Rgba8 } else { ColorType::Rgb8 }, &rows, [0; 4], &|| format!("bytes {p:?} alpha {alpha} {w}x{h} top {top}"))?;
                    }
                }
            }
        }
        ch.sample(|| format!("bytes {p:?} alpha {alpha}"));
        Ok(())
    });

    // Run-length streams: a machine whose every step is a choice among the commands that fit.
    let depth = if quick { 5 } else { 6 };
    c.explore("rle", &format!("RLE8 and RLE4: every stream of up to {depth} commands (runs, absolute groups, deltas, end of line, end of bitmap) that stays inside a 5x3 image (and 1x1, 2x4), output as colours and as indices"), |ch| {
        let four = ch.flag();
        let (w, h) = ch.of(&[(5usize, 3usize), (1, 1), (2, 4)]);
        let mut img = vec![vec![None::<u8>; w]; h]; // file order: bottom row first
        let (mut x, mut y) = (0usize, 0usize);
        let mut data: Vec<u8> = vec![];
        let mut v = 1u8;
        let mut left = depth;
        let mut log = vec![];
        let modulus = if four { 16 } else { 23 };
        let nxt = |v: &mut u8| {
            *v = (*v + 5) % modulus;
            *v
        };
        // The decoder stops by itself after the last row's end of line.
        while y < h {
            let room = w - x;
            #[derive(Clone, Debug)]
            enum Cmd {
                Run(usize),
                Abs(usize),
                Delta(usize, usize),
                Eol,
                Eof,
            }
            let mut cs = vec![Cmd::Eof, Cmd::Eol];
            if left > 0 {
                for n in 1..=room {
                    cs.push(Cmd::Run(n));
                    if n >= 3 {
                        cs.push(Cmd::Abs(n));
                    }
                }
                for dx in 0..=room.min(3) {
                    for dy in 0..h - y {
                        cs.push(Cmd::Delta(dx, dy));
                    }
                }
                left -= 1;
            } else {
                cs.truncate(1);
            }
            let cmd = ch.of(&cs);
            log.push(format!("{cmd:?}"));
            match cmd {
                Cmd::Run(n) => {
                    let (a, b) = (nxt(&mut v), nxt(&mut v));
                    data.push(n as u8);
                    if four {
                        data.push(a << 4 | b);
                    } else {
                        data.push(a);
                    }
                    for i in 0..n {
                        img[y][x + i] = Some(if four && i % 2 == 1 { b } else { a });
                    }
                    x += n;
                }
                Cmd::Abs(n) => {
                    data.extend([0, n as u8]);
                    let px: Vec<u8> = (0..n).map(|_| nxt(&mut v)).collect();
                    let start = data.len();
                    if four {
                        for p in px.chunks(2) {
                            data.push(p[0] << 4 | p.get(1).copied().unwrap_or(9));
                        }
                    } else {
                        data.extend(&px);
                    }
                    if (data.len() - start) % 2 == 1 {
                        data.push(0xEE);
                    }
                    for (i, p) in px.iter().enumerate() {
                        img[y][x + i] = Some(*p);
                    }
                    x += n;
                }
                Cmd::Delta(dx, dy) => {
                    data.extend([0, 2, dx as u8, dy as u8]);
                    x += dx;
                    y += dy;
                }
                Cmd::Eol => {
                    data.extend([0, 0]);
                    x = 0;
                    y += 1;
                }
                Cmd::Eof => {
                    data.extend([0, 1]);
                    break;
                }
            }
        }
        let p = pal(if four { 16 } else { 23 }, 3);
        let mut f = Bmp::new(40, w as i32, h as i32, if four { 4 } else { 8 }, if four { 2 } else { 1 });
        f.palette = p.clone();
        f.clrs_used = p.len() as u32;
        f.data = data;
        let rows: Vec<Vec<Option<u8>>> = order(&img, false);
        let rgb: Vec<Vec<Vec<u8>>> = rows.iter().map(|r| r.iter().map(|i| i.map_or(vec![0; 3], |i| p[i as usize].to_vec())).collect()).collect();
        let raw: Vec<Vec<Vec<u8>>> = rows.iter().map(|r| r.iter().map(|i| vec![i.unwrap_or(0)]).collect()).collect();
        let what = || format!("{} {w}x{h} {}", if four { "rle4" } else { "rle8" }, log.join(" "));
        expect(ch, &f, Via::File, ColorType::Rgb8, &rgb, [0; 4], &what)?;
        expect(ch, &f, Via::Indexed, ColorType::L8, &raw, [0; 4], &what)?;
        ch.sample(|| what());
        Ok(())
    });
    c.explore("rle-lengths", "RLE8 and RLE4: one row of every length 1..=300 as maximal and split runs and absolute groups of every length 3..=255", |ch| {
        let four = ch.flag();
        let mode = ch.pick(3);
        let n = 1 + ch.pick(300);
        let p = pal(16, 5);
        let mut data = vec![];
        let mut px = vec![];
        let mut left = n;
        let cap = [255usize, 255, 128][mode];
        while left > 0 {
            let mut k = left.min(cap);
            if mode == 1 && k >= 3 {
                data.extend([0, k as u8]);
                let v: Vec<u8> = (0..k).map(|i| ((i * 7 + n) % 16) as u8).collect();
                let s = data.len();
                if four {
                    v.chunks(2).for_each(|c| data.push(c[0] << 4 | c.get(1).copied().unwrap_or(0)));
                } else {
                    data.extend(&v);
                }
                if (data.len() - s) % 2 == 1 {
                    data.push(0);
                }
                px.extend(v);
            } else {
                if mode == 1 {
                    k = 1;
                }
                let (a, b) = ((left % 16) as u8, (left / 16 % 16) as u8);
                data.extend([k as u8, if four { a << 4 | b } else { a }]);
                px.extend((0..k).map(|i| if four && i % 2 == 1 { b } else { a }));
            }
            left -= k;
        }
        data.extend([0, 1]);
        let mut f = Bmp::new(108, n as i32, 1, if four { 4 } else { 8 }, if four { 2 } else { 1 });
        f.palette = p.clone();
        f.clrs_used = 16;
        f.data = data;
        let rgb = vec![px.iter().map(|i| p[*i as usize].to_vec()).collect::<Vec<_>>()];
        expect(ch, &f, Via::File, ColorType::Rgb8, &rgb, [0; 4], &|| format!("four {four} mode {mode} n {n}"))?;
        ch.sample(|| format!("four {four} mode {mode} n {n}"));
        Ok(())
    });

    c.explore("refuse", "malformed files: planes other than 1, every (depth, compression) pair outside the format's, too many colours used, masks with holes or missing, negative width, zero sizes, run-length coding top-down, and every truncation of the pixel data", |ch| {
        let kind = ch.pick(8);
        let mut bad = |ch: &mut Ch, b: Vec<u8>, what: String| -> Res {
            ch.step();
            ch.state(hash_of(&b));
            match dec_bytes(&b, Via::File) {
                Err(e) if e.starts_with("PANIC") => viol("panic", format!("{what}: {e}; {}", hex(&b[..b.len().min(200)]))),
                Err(_) => {
                    ch.validated();
                    ch.outcome(kind as u64);
                    Ok(())
                }
                Ok((w, h, c, _)) => viol("accepted", format!("{what}: accepted as {w}x{h} {c:?}; {}", hex(&b[..b.len().min(200)]))),
            }
        };
        let mk = |bpp: u16, comp: u32| {
            let mut f = Bmp::new(40, 3, 2, bpp, comp);
            if bpp <= 8 {
                f.palette = pal(1 << bpp, 0);
            }
            f.masks = [0xF800, 0x7E0, 0x1F, 0];
            f.data = vec![0; 64];
            f
        };
        match kind {
            0 => {
                for hdr in [12u32, 40, 108] {
                    for planes in [0u16, 2, 3, 256, 65535] {
                        let mut f = mk(8, 0);
                        f.hdr = hdr;
                        let mut b = f.file();
                        let at = if hdr == 12 { 22 } else { 26 };
                        b[at..at + 2].copy_from_slice(&planes.to_le_bytes());
                        bad(ch, b, format!("planes {planes} hdr {hdr}"))?;
                    }
                }
            }
            1 => {
                let ok = [(1u16, 0u32), (2, 0), (4, 0), (8, 0), (16, 0), (24, 0), (32, 0), (8, 1), (4, 2), (16, 3), (32, 3)];
                for bpp in 0..=64u16 {
                    for comp in (0..=16u32).chain([255, 65536, u32::MAX]) {
                        if ok.contains(&(bpp, comp)) {
                            continue;
                        }
                        let mut f = mk(8, 0);
                        f.bpp = bpp;
                        f.comp = comp;
                        bad(ch, f.file(), format!("depth {bpp} compression {comp}"))?;
                    }
                }
            }
            2 => {
                for bpp in [1u16, 2, 4, 8] {
                    for over in [1u32, 2, 255, 65535, u32::MAX - (1 << bpp)] {
                        let mut f = mk(bpp, 0);
                        f.clrs_used = (1 << bpp) + over;
                        f.palette = pal((f.clrs_used as usize).min(600), 1);
                        bad(ch, f.file(), format!("{bpp} bpp with {} colours", f.clrs_used))?;
                    }
                }
            }
            3 => {
                for bpp in [16u16, 32] {
                    for ch_i in 0..3 {
                        for m in [0u32, 0b101, 0b1001, 0b11011, 0x8001] {
                            let mut f = mk(bpp, 3);
                            f.masks[ch_i] = m;
                            bad(ch, f.file(), format!("{bpp} bpp mask {ch_i} = {m:#x}"))?;
                        }
                        if bpp == 16 {
                            let mut f = mk(bpp, 3);
                            f.masks[ch_i] = 0x1F000;
                            bad(ch, f.file(), format!("{bpp} bpp mask {ch_i} beyond the pixel"))?;
                        }
                    }
                }
            }
            4 => {
                for (w, h) in [(-1, 2), (-3, 2), (i32::MIN, 2), (0, 2), (3, 0), (0, 0), (3, i32::MIN), (65536, 1), (1, 65536)] {
                    let mut f = mk(24, 0);
                    f.w = w;
                    f.h = h;
                    bad(ch, f.file(), format!("size {w}x{h}"))?;
                }
            }
            5 => {
                for (bpp, comp) in [(8, 1), (4, 2)] {
                    let mut f = mk(bpp, comp);
                    f.h = -2;
                    f.data = vec![0, 1];
                    bad(ch, f.file(), format!("top-down compression {comp}"))?;
                }
            }
            6 => {
                for hdr in (0..=200u32).chain([0x10000, u32::MAX]) {
                    if [12, 40, 52, 56, 108, 124].contains(&hdr) {
                        continue;
                    }
                    let mut b = mk(8, 0).file();
                    b[14..18].copy_from_slice(&hdr.to_le_bytes());
                    bad(ch, b, format!("header size {hdr}"))?;
                }
            }
            _ => {
                for (bpp, comp, need) in [(1u16, 0u32, 8usize), (2, 0, 8), (4, 0, 8), (8, 0, 8), (16, 0, 16), (24, 0, 24), (32, 0, 24), (16, 3, 16), (32, 3, 24)] {
                    for hdr in [40, 124] {
                        let mut f = mk(bpp, comp);
                        f.hdr = hdr;
                        f.data = vec![1; need];
                        if bpp <= 8 {
                            f.data = vec![0; need];
                        }
                        let b = f.file();
                        need!(dec_bytes(&b, Via::File).is_ok(), "refused", "{bpp} bpp compression {comp} hdr {hdr}");
                        for cut in 0..b.len() {
                            // 24-bit rows of 3 pixels end with padding that nothing needs.
                            bad(ch, b[..cut].to_vec(), format!("{bpp} bpp compression {comp} hdr {hdr} cut to {cut} of {}", b.len()))?;
                        }
                    }
                }
            }
        }
        ch.sample(|| format!("kind {kind}"));
        Ok(())
    });
    c.finish();
}
