//! C01: lossless formats return what was written.
//! TECHNIQUE: explicit-choice exhaustive exploration of the real encoders and decoders over bounded image spaces, compared with an identity model
//! LEVEL: model_checking
//! NOTE: Every image of the stated finite spaces (all tiny images over boundary alphabets, all run-length structures, all dimensions up to the bound, all encoder options) is encoded and decoded by the real code and compared sample by sample; larger images are covered by representatives at the boundaries of the run, row and size counters only.
use image::*;
use mc::codec::*;
use mc::*;

fn colors_of(e: &Enc) -> Vec<ColorType> {
    COLORS.into_iter().filter(|c| e.expect(&Raw { w: 1, h: 1, color: *c, data: vec![0; c.bytes_per_pixel() as usize] }).is_some()).collect()
}

fn check(ch: &mut Ch, e: &Enc, r: &Raw) -> Res {
    let Some(want) = e.expect(r) else { return Ok(()) };
    let bytes = match e.to_vec(r) {
        Ok(b) => b,
        Err(x) => return viol(format!("enc-{}", e.name()), format!("{}: encoding {r:?} failed: {x}", e.name())),
    };
    let got = match decode(e.format(), &bytes) {
        Ok(g) => g,
        Err(x) if matches!(e, Enc::WebP) && (r.w == 16384 || r.h == 16384) => return viol("webp-16384", format!("webp: decoding the encoding of {r:?} failed: {x}")),
        Err(x) => return viol(format!("dec-{}", e.name()), format!("{}: decoding the encoding of {r:?} failed: {x}", e.name())),
    };
    ensure!((got.w, got.h, got.color) == (want.w, want.h, want.color), "{}: {:?} decoded as {}x{} {:?}", e.name(), r, got.w, got.h, got.color);
    ensure!(got.data == want.data, "{}: {:?} decoded differently: {}", e.name(), r, first_diff(&got.data, &want.data));
    ch.step();
    ch.validated();
    ch.state(hash_of(&(e.name(), r)));
    ch.sample(|| format!("{} {:?} -> {} bytes", e.name(), r, bytes.len()));
    Ok(())
}

fn fix(e: &Enc, mut r: Raw) -> Raw {
    if let Enc::Hdr = e {
        hdr_exact(&mut r);
    }
    if let (Enc::Exr, true) = (e, bytes_per_sample(r.color) == 4) {
        return r;
    }
    r
}

fn main() {
    let mut c = Check::start("C01", "model_checking", "one execution = one image through one encoder configuration and back; non-trivial when the pair is lossless and was compared");
    let encs = lossless();
    // Reduced: one representative per (format, options that change the raster).
    let (maxw, kinds) = if c.quick { (19, 6) } else { (40, 6) };
    c.explore("sizes", &format!("all encoder configurations x colours x w,h in 1..={maxw} (h in {{1,2,3,5,8}} in the quick tier for w>9) x {kinds} sample patterns"), |ch| {
        let e = ch.of(&encs);
        let cols = colors_of(&e);
        let col = ch.of(&cols);
        let w = ch.range(1, maxw) as u32;
        let hs: Vec<u32> = if ch.quick && w > 9 { vec![1, 2, 3, 5, 8] } else { (1..=maxw as u32).collect() };
        let h = ch.of(&hs);
        for k in 0..kinds {
            let r = fix(&e, pattern(w, h, col, k));
            check(ch, &e, &r)?;
        }
        Ok(())
    });
    // All images over small alphabets: every arrangement of up to n pixels.
    let raster: Vec<Enc> = encs.iter().copied().filter(|e| !matches!(e, Enc::Png(c, _) if !matches!(c, codecs::png::CompressionType::Fast)) ).collect();
    let npix = if c.quick { 4 } else { 6 };
    c.explore("tiny", &format!("all images with 1..={npix} pixels in every rectangular shape, pixels over a 5-colour alphabet with extremes and near-equal neighbours"), |ch| {
        let e = ch.of(&raster);
        let col = ch.of(&colors_of(&e));
        let n = ch.range(1, npix as i64) as usize;
        let shapes: Vec<(u32, u32)> = (1..=n).filter(|w| n % w == 0).map(|w| (w as u32, (n / w) as u32)).collect();
        let (w, h) = ch.of(&shapes);
        let nch = col.channel_count() as usize;
        let bps = bytes_per_sample(col);
        let alpha: Vec<Vec<u8>> = (0..5usize)
            .map(|k| {
                let mut p = vec![];
                for cidx in 0..nch {
                    let v8: u8 = match k {
                        0 => 0,
                        1 => 255,
                        2 => [255, 0, 0, 255][cidx],
                        3 => [1, 2, 3, 128][cidx],
                        _ => [254, 1, 2, 0][cidx],
                    };
                    match bps {
                        1 => p.push(v8),
                        2 => p.extend_from_slice(&[0u16, 65535, 256, 255, 0x8001][if k < 2 { k } else { 2 + (k + cidx) % 3 }].to_ne_bytes()),
                        _ => p.extend_from_slice(
                            &[0f32, 1.0, -0.0, f32::MAX, f32::MIN_POSITIVE / 4.0, f32::INFINITY, 1.5e-7][if k < 2 { k } else { 2 + (k + cidx) % 5 }].to_ne_bytes(),
                        ),
                    }
                }
                p
            })
            .collect();
        let mut data = vec![];
        for _ in 0..n {
            data.extend_from_slice(&alpha[ch.pick(5)]);
        }
        let r = fix(&e, Raw { w, h, color: col, data });
        check(ch, &e, &r)
    });
    // Neighbours that differ in one channel only.
    let deltas: Vec<u16> = if c.quick { vec![1, 2, 7, 8, 9, 31, 33, 64, 128, 224, 248, 253, 255] } else { (1..256).collect() };
    c.explore("one-channel", "all arrangements of 5 pixels over {A, B} where B differs from A in one channel by one of the amounts (thorough: all 255), two bases A, in one row", |ch| {
        let e = ch.of(&raster);
        let col = ch.of(&colors_of(&e));
        let (nch, bps) = (col.channel_count() as usize, bytes_per_sample(col));
        let k = ch.pick(nch);
        let d = ch.of(&deltas);
        for base in [200u16, 0] {
            let px = |b: bool| -> Vec<u8> {
                (0..nch)
                    .flat_map(|c| {
                        let v = (base + c as u16 * 9 + if b && c == k { d } else { 0 }) as u8;
                        match bps {
                            1 => vec![v],
                            2 => [(v as u16) << 8 | 0x5A, (0x5A00 | v as u16)][(d % 2) as usize].to_ne_bytes().to_vec(),
                            _ => f32::from_bits(0x3F000000 | (v as u32) << [0, 14][(d % 2) as usize]).to_ne_bytes().to_vec(),
                        }
                    })
                    .collect()
            };
            for m in 0..32u32 {
                let data = (0..5).flat_map(|i| px(m >> i & 1 == 1)).collect();
                check(ch, &e, &fix(&e, Raw { w: 5, h: 1, color: col, data }))?;
            }
        }
        Ok(())
    });
    // Every 8-bit sample value in every channel; every 16-bit value.
    c.explore("values", "every 8-bit value in every channel and every 16-bit value, in one image per encoder and colour", |ch| {
        let e = ch.of(&raster);
        let col = ch.of(&colors_of(&e));
        let bpp = col.bytes_per_pixel() as usize;
        let mut r = match bytes_per_sample(col) {
            1 => {
                let mut data = vec![];
                for v in 0..256usize {
                    for k in 0..bpp {
                        data.push(((v * (2 * k + 1)) + k * 64) as u8);
                    }
                }
                Raw { w: 16, h: 16, color: col, data }
            }
            2 => {
                let mut data = vec![];
                for v in 0..65536usize {
                    for k in 0..bpp / 2 {
                        data.extend_from_slice(&(((v * (2 * k + 1)) + k * 16384) as u16).to_ne_bytes());
                    }
                }
                Raw { w: 256, h: 256, color: col, data }
            }
            _ => {
                // Every exponent, both signs, boundary mantissas; NaN payloads survive bitwise too.
                let mut data = vec![];
                let mut n = 0;
                for s in 0..2u32 {
                    for ex in 0..256u32 {
                        for m in [0u32, 1, 0x3FFFFF, 0x400000, 0x7FFFFF, 0x2AAAAA] {
                            n += 1;
                            let f = f32::from_bits(s << 31 | ex << 23 | m);
                            data.extend_from_slice(&f.to_ne_bytes());
                        }
                    }
                }
                let nch = bpp / 4;
                while n % nch != 0 {
                    data.extend_from_slice(&0f32.to_ne_bytes());
                    n += 1;
                }
                Raw { w: (n / nch) as u32, h: 1, color: col, data }
            }
        };
        if let Enc::Hdr = e {
            // All mantissas with all exponents whose value is an ordinary float.
            let mut data = vec![];
            for ex in 1..=255i32 {
                for m in 128..=255u32 {
                    for (k, v) in [m, (m * 7 + ex as u32) % 256, 255 - m].into_iter().enumerate() {
                        let _ = k;
                        let x = (v as f64 * 2f64.powi(ex - 136)) as f32;
                        data.extend_from_slice(&x.to_ne_bytes());
                    }
                }
            }
            r = Raw { w: 128, h: 255, color: col, data };
        }
        if matches!(e, Enc::Ico) {
            r.h = 16;
        }
        check(ch, &e, &r)
    });
    // Run-length structures: all sequences of up to 3 (quick: 2 in the wide list) runs, each a repetition or a varying stretch.
    let lens: Vec<usize> = if c.quick { vec![1, 2, 3, 127, 128, 129, 130] } else { vec![1, 2, 3, 4, 62, 63, 126, 127, 128, 129, 130, 131, 255, 256, 257, 258] };
    let nruns = 3;
    let rle: Vec<Enc> = encs.iter().copied().filter(|e| !matches!(e, Enc::Png(..))).chain([Enc::Png(codecs::png::CompressionType::Fast, codecs::png::FilterType::Sub)]).collect();
    c.explore("runs", &format!("all sequences of 1..={nruns} stretches, each constant or varying, with lengths from {lens:?}, laid out in one row or in two rows with a fold at an arbitrary third"), |ch| {
        let e = ch.of(&rle);
        let col = ch.of(&colors_of(&e));
        let k = ch.range(1, nruns);
        let bpp = col.bytes_per_pixel() as usize;
        let mut data: Vec<u8> = vec![];
        for i in 0..k as usize {
            let n = ch.of(&lens);
            let varying = ch.flag();
            let n0 = data.len() / bpp;
            for j in 0..n {
                let v = if varying { (n0 + j) * 3 + 1 } else { 40 + i * 50 };
                for b in 0..bpp {
                    // keep floats ordinary
                    let x = if bytes_per_sample(col) == 4 && b % 4 == 3 { 0x3f } else { (v + b * 17) as u8 };
                    data.push(x);
                }
            }
        }
        let n = data.len() / bpp;
        let folds: Vec<u32> = if n % 2 == 0 { vec![n as u32, (n / 2) as u32] } else { vec![n as u32] };
        for w in folds {
            let r = fix(&e, Raw { w, h: n as u32 / w, color: col, data: data.clone() });
            check(ch, &e, &r)?;
        }
        Ok(())
    });
    // Dimensions around the size counters.
    let big: Vec<u32> = if c.quick { vec![127, 128, 255, 256, 257, 511, 513, 4097, 16384, 32767, 32768, 32769, 65535] } else { vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1025, 4095, 4096, 4097, 16383, 16384, 16385, 32767, 32768, 32769, 65535] };
    c.explore("extents", &format!("{big:?} x {{1,2,3}} and transposed, all encoders and colours, plus 65536 and 70000 where the format can store them"), |ch| {
        let e = ch.of(&rle);
        let col = ch.of(&colors_of(&e));
        let mut l = big.clone();
        if !matches!(e, Enc::Tga(_) | Enc::Ico | Enc::WebP | Enc::Bmp) {
            l.extend([65536, 70000]);
        }
        match e {
            Enc::Ico => l.retain(|x| *x <= 256),
            Enc::WebP => l.retain(|x| *x <= 16384),
            _ => {}
        }
        let n = ch.of(&l);
        let t = if n > 20000 { 1 } else { ch.range(1, 3) as u32 };
        let (w, h) = if ch.flag() { (t, n) } else { (n, t) };
        let kind = ch.of(&[2usize, 3]);
        let r = fix(&e, pattern(w, h, col, kind));
        check(ch, &e, &r)
    });
    c.finish()
}
