//! Small files of every format: forged field by field, produced by the crate's encoders, and a few
//! fixtures (lossy and predictor-coded files that are impractical to forge).
use crate::codec::*;
use crate::forge::*;
use crate::util::*;
use image::codecs::pnm::{PnmSubtype, SampleEncoding};
use image::{ColorType, ImageFormat};
use std::sync::{Arc, OnceLock};

#[derive(Clone)]
pub struct File {
    pub name: String,
    pub format: ImageFormat,
    pub bytes: Arc<Vec<u8>>,
}

pub fn tga_files() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let px = |n: usize, b: usize| -> Vec<u8> { (0..n * b).map(|i| (i * 53 + 7) as u8).collect() };
    let base = Tga { w: 3, h: 2, desc: 0x20, ..Default::default() };
    for (n, ty, depth, desc, bytes) in [("grey", 3u8, 8u8, 0x20u8, 1usize), ("greya", 3, 16, 0x08, 2), ("rgb", 2, 24, 0x20, 3), ("rgba", 2, 32, 0x28, 4), ("rgbx", 2, 32, 0x20, 4), ("alpha", 3, 8, 0x28, 1)] {
        v.push((format!("tga-{n}"), Tga { image_type: ty, depth, desc, id: vec![1, 2, 3], data: px(6, bytes), ..base.clone() }.file()));
        // run of 4 then 2 raw
        let p = px(3, bytes);
        let mut d = vec![0x83];
        d.extend_from_slice(&p[..bytes]);
        d.push(1);
        d.extend_from_slice(&p[bytes..]);
        v.push((format!("tga-{n}-rle"), Tga { image_type: ty + 8, depth, desc: desc & 0xF, data: d, ..base.clone() }.file()));
    }
    for (n, entry, ty) in [("map24", 24u8, 1u8), ("map32", 32, 1), ("map24-rle", 24, 9)] {
        let data = if ty == 1 { vec![0, 1, 2, 2, 1, 0] } else { vec![0x82, 2, 2, 0, 1, 2] };
        v.push((format!("tga-{n}"), Tga { image_type: ty, map_type: 1, map_length: 3, map_entry: entry, depth: 8, map: px(3, entry as usize / 8), data, ..base.clone() }.file()));
    }
    v.push(("tga-map24-index16".into(), Tga { image_type: 1, map_type: 1, map_length: 2, map_entry: 24, depth: 16, map: px(2, 3), data: vec![0; 12], ..base.clone() }.file()));
    v
}

pub fn bmp_files() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let pal: Vec<[u8; 3]> = (0..4u8).map(|i| [i * 60, 255 - i, i * 17]).collect();
    let idx = |w: usize, h: usize, m: u32| -> Vec<Vec<u32>> { (0..h).map(|y| (0..w).map(|x| ((x * 3 + y * 5) as u32 % 4) & m).collect()).collect() };
    for (bits, m) in [(1u16, 1u32), (2, 3), (4, 3), (8, 3)] {
        let mut b = Bmp::new(40, 5, 2, bits, 0);
        b.palette = if bits == 1 { pal[..2].to_vec() } else { pal.clone() };
        b.clrs_used = b.palette.len() as u32;
        b.data = pack_bits(&idx(5, 2, m), bits as u32, 4);
        v.push((format!("bmp-pal{bits}"), b.file()));
    }
    let mut b = Bmp::new(12, 3, 2, 4, 0);
    b.palette = (0..16u8).map(|i| [i, i * 2, i * 3]).collect();
    b.data = pack_bits(&idx(3, 2, 3), 4, 4);
    v.push(("bmp-core4".into(), b.file()));
    for (n, hdr, bpp, comp, masks, bytes) in [
        ("rgb16", 40u32, 16u16, 0u32, [0u32; 4], 2usize),
        ("rgb24", 40, 24, 0, [0; 4], 3),
        ("rgb32", 40, 32, 0, [0; 4], 4),
        ("565", 40, 16, 3, [0xF800, 0x7E0, 0x1F, 0], 2),
        ("v4-1555", 108, 16, 3, [0x7C00, 0x3E0, 0x1F, 0x8000], 2),
        ("v5-8888", 124, 32, 3, [0xFF0000, 0xFF00, 0xFF, 0xFF000000], 4),
        ("v3-odd", 56, 32, 3, [0x3FF00000, 0xFFC00, 0x3FF, 0xC0000000], 4),
    ] {
        for td in [false, true] {
            let mut b = Bmp::new(hdr, 3, if td { -2 } else { 2 }, bpp, comp);
            b.masks = masks;
            b.data = pack_le(&(0..2u32).map(|y| (0..3u32).map(|x| (x * 0x12345679 + y * 0x3456789b) ^ 0x5A5A5A5A).collect()).collect::<Vec<_>>(), bytes);
            v.push((format!("bmp-{n}{}", if td { "-td" } else { "" }), b.file()));
        }
    }
    for (n, bits, comp, data) in [
        ("rle8", 8u16, 1u32, vec![3u8, 1, 0, 0, 0, 4, 0, 1, 2, 3, 1, 2, 0, 1]),
        ("rle8-delta", 8, 1, vec![1, 1, 0, 2, 1, 1, 2, 2, 0, 1]),
        ("rle4", 4, 2, vec![3, 0x12, 2, 0x30, 0, 0, 0, 5, 0x01, 0x23, 0x10, 0, 0, 1]),
    ] {
        let mut b = Bmp::new(40, 5, 2, bits, comp);
        b.palette = pal.clone();
        b.clrs_used = 4;
        b.data = data;
        v.push((format!("bmp-{n}"), b.file()));
    }
    v
}

pub fn gif_files() -> Vec<(String, Vec<u8>)> {
    let pal = [[0u8, 0, 0], [255, 0, 0], [0, 255, 0], [10, 20, 30]];
    let f = |x, y, w: u16, h: u16, dispose, tr| GifFrame { x, y, w, h, dispose, transparent: tr, delay: 7, local: None, interlaced: false, pixels: (0..w as usize * h as usize).map(|i| (i % 4) as u8).collect() };
    let mut il = f(0, 0, 4, 5, 1, None);
    il.interlaced = true;
    let mut loc = f(1, 0, 2, 2, 0, Some(1));
    loc.local = Some(vec![[1, 2, 3], [4, 5, 6]]);
    loc.pixels = vec![0, 1, 1, 0];
    vec![
        ("gif-one".into(), gif(3, 2, Some(&pal), 0, None, &[f(0, 0, 3, 2, 0, None)])),
        ("gif-inner".into(), gif(4, 4, Some(&pal), 0, None, &[f(1, 1, 2, 2, 0, Some(2))])),
        ("gif-band".into(), gif(3, 4, Some(&pal), 0, None, &[f(0, 1, 3, 2, 0, None)])),
        ("gif-oversize".into(), gif(2, 2, Some(&pal), 0, None, &[f(1, 1, 3, 3, 0, None)])),
        ("gif-interlaced".into(), gif(4, 5, Some(&pal), 0, None, &[il])),
        ("gif-local".into(), gif(3, 2, None, 0, None, &[loc.clone()])),
        ("gif-anim".into(), gif(3, 3, Some(&pal), 0, Some(0), &[f(0, 0, 3, 3, 1, None), f(1, 1, 2, 2, 3, Some(0)), f(0, 0, 2, 1, 2, None), loc])),
    ]
}

pub fn apng_files() -> Vec<(String, Vec<u8>)> {
    let rows = |w: u32, h: u32, b: u32, s: u32| -> Vec<Vec<u8>> { (0..h).map(|y| (0..w * b).map(|x| (x * 31 + y * 77 + s * 5) as u8).collect()).collect() };
    let f = |x, y, w, h, dispose, blend, s| ApngFrame { x, y, w, h, dispose, blend, num: 1, den: 30, rows: rows(w, h, 4, s) };
    vec![
        ("apng".into(), apng(3, 3, 8, 6, &[], None, &[f(0, 0, 3, 3, 1, 0, 1), f(1, 1, 2, 2, 2, 1, 2), f(0, 1, 2, 1, 0, 1, 3)])),
        ("apng-thumb".into(), apng(3, 2, 8, 6, &[], Some(&rows(3, 2, 4, 9)), &[f(0, 0, 3, 2, 0, 0, 1), f(1, 0, 1, 2, 0, 0, 4)])),
    ]
}

pub fn ico_files() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for (bpp, comp) in [(32u16, 0u32), (24, 0), (8, 0), (4, 0), (1, 0)] {
        let mut b = Bmp::new(40, 3, 4, bpp, comp);
        if bpp <= 8 {
            b.palette = (0..1usize << bpp).map(|i| [i as u8, (i * 3) as u8, 255 - i as u8]).collect();
            b.data = pack_bits(&(0..2).map(|y| (0..3).map(|x| (x + y) as u32 % (1 << bpp)).collect()).collect::<Vec<_>>(), bpp as u32, 4);
        } else {
            b.data = pack_le(&(0..2u32).map(|y| (0..3u32).map(|x| x * 0x11223344 + y * 0x01020304 + 0x40302010).collect()).collect::<Vec<_>>(), bpp as usize / 8);
        }
        let mut p = b.dib();
        p.extend(and_mask(&[vec![true, false, false], vec![false, false, true]]));
        v.push((format!("ico-bmp{bpp}"), ico(&[IcoEntry { w: 3, h: 2, planes: 1, bpp, payload: p, len_delta: 0 }])));
    }
    let r = pattern(2, 2, ColorType::Rgba8, 2);
    let p = png(2, 2, 8, 6, &[], &[r.data[..8].to_vec(), r.data[8..].to_vec()]);
    v.push(("ico-png".into(), ico(&[IcoEntry { w: 2, h: 2, planes: 1, bpp: 32, payload: p, len_delta: 0 }])));
    v
}

pub fn hdr_files() -> Vec<(String, Vec<u8>)> {
    let flat: Vec<u8> = (0..3 * 2).flat_map(|i: u8| [100 + i, 50, i * 3, 128 + i % 3]).collect();
    let mut old = vec![10u8, 20, 30, 129];
    old.extend([1, 1, 1, 2]); // repeat twice
    old.extend([40, 50, 60, 130, 41, 51, 61, 131, 42, 52, 62, 127]);
    let mut newl = vec![];
    for _ in 0..2 {
        newl.extend([2, 2, 0, 9]);
        for c in 0..4u8 {
            newl.extend([128 + 5, 7 + c]);
            newl.extend([4, 1, 2, 3, 100 + c]);
        }
    }
    vec![
        ("hdr-flat".into(), hdr(&["FORMAT=32-bit_rle_rgbe", "EXPOSURE=1.5"], 3, 2, &flat)),
        ("hdr-old".into(), hdr(&["FORMAT=32-bit_rle_rgbe"], 3, 2, &old)),
        ("hdr-new".into(), hdr(&["# comment", "FORMAT=32-bit_rle_rgbe", "GAMMA=2.2", "PIXASPECT=1", "COLORCORR=1 1 1"], 9, 2, &newl)),
    ]
}

pub fn pnm_files() -> Vec<(String, Vec<u8>)> {
    let v: Vec<(&str, &[u8])> = vec![
        ("pbm-ascii", b"P1\n# c\n9 2\n1 0 1 0 1 0 1 0 1\n000111000\n"),
        ("pgm-ascii", b"P2 3 2 15\n0 1 2\n3 4 15\n"),
        ("pgm-ascii16", b"P2\n2 1\n1000\n0 1000\n"),
        ("ppm-ascii", b"P3 2 1 255 1 2 3 253 254 255\n"),
        ("pbm", b"P4\n9 2\n\xAA\x80\x55\x00"),
        ("pgm", b"P5 3 1 100\n\x00\x32\x64"),
        ("pgm16", b"P5 2 1 65535\n\x00\x01\xFF\xFE"),
        ("ppm", b"P6 # x\n2 1\n255\n\x01\x02\x03\xF0\xF1\xF2"),
        ("ppm16", b"P6 1 1 300\n\x00\x01\x01\x00\x01\x2C"),
        ("pam-bw", b"P7\nWIDTH 3\nHEIGHT 1\nDEPTH 1\nMAXVAL 1\nTUPLTYPE BLACKANDWHITE\nENDHDR\n\x00\x01\x00"),
        ("pam-g", b"P7\nHEIGHT 1\nWIDTH 2\nMAXVAL 255\nDEPTH 1\nTUPLTYPE GRAYSCALE\nENDHDR\n\x07\x09"),
        ("pam-rgb16", b"P7\nWIDTH 1\nHEIGHT 1\n# hi\nDEPTH 3\nMAXVAL 65535\nTUPLTYPE RGB\nENDHDR\n\x00\x01\x02\x03\x04\x05"),
        ("pam-none", b"P7\nWIDTH 1\nHEIGHT 1\nDEPTH 3\nMAXVAL 255\nENDHDR\n\x01\x02\x03"),
    ];
    v.into_iter().map(|(n, b)| (n.to_string(), b.to_vec())).collect()
}

pub fn tiff_files() -> Vec<(String, Vec<u8>)> {
    let base = Tiff { big_endian: false, w: 2, h: 3, bits: vec![8], photometric: 1, sample_format: None, extra_samples: None, orientation: None, icc: None, rows_per_strip: 3, strips: vec![] };
    let d = |n: usize| -> Vec<u8> { (0..n).map(|i| (i * 41 + 3) as u8).collect() };
    vec![
        ("tiff-g8".into(), Tiff { strips: vec![d(6)], ..base.clone() }.file()),
        ("tiff-white0".into(), Tiff { photometric: 0, strips: vec![d(6)], ..base.clone() }.file()),
        ("tiff-g16be".into(), Tiff { big_endian: true, bits: vec![16], strips: vec![d(12)], ..base.clone() }.file()),
        ("tiff-rgb8-strips".into(), Tiff { bits: vec![8; 3], photometric: 2, rows_per_strip: 2, strips: vec![d(12), d(6)], orientation: Some(6), icc: Some(vec![9; 7]), ..base.clone() }.file()),
        ("tiff-rgba16".into(), Tiff { bits: vec![16; 4], photometric: 2, extra_samples: Some(2), strips: vec![d(48)], ..base.clone() }.file()),
        ("tiff-cmyk8".into(), Tiff { bits: vec![8; 4], photometric: 5, strips: vec![d(24)], ..base.clone() }.file()),
    ]
}

pub fn dds_files() -> Vec<(String, Vec<u8>)> {
    let blocks = |n: usize, b: usize| -> Vec<u8> { (0..n * b).map(|i| (i * 67 + 29) as u8).collect() };
    vec![
        ("dds-dxt1".into(), dds(b"DXT1", 8, 4, None, &blocks(2, 8))),
        ("dds-dxt3".into(), dds(b"DXT3", 4, 8, None, &blocks(2, 16))),
        ("dds-dxt5".into(), dds(b"DXT5", 4, 4, None, &blocks(1, 16))),
        ("dds-dx10".into(), dds(b"DX10", 4, 4, Some(71), &blocks(1, 8))),
    ]
}

pub fn webp_files() -> Vec<(String, Vec<u8>)> {
    let e = |w, h, c, k| webp_payload(&Enc::WebP.to_vec(&pattern(w, h, c, k)).expect("webp"));
    let frames = [
        WebpFrame { x: 0, y: 0, w: 4, h: 4, ms: 40, dispose: false, no_blend: true, chunk: e(4, 4, ColorType::Rgba8, 2) },
        WebpFrame { x: 2, y: 2, w: 2, h: 2, ms: 70, dispose: true, no_blend: false, chunk: e(2, 2, ColorType::Rgba8, 4) },
    ];
    let frgb = [WebpFrame { x: 0, y: 0, w: 3, h: 2, ms: 5, dispose: false, no_blend: true, chunk: e(3, 2, ColorType::Rgb8, 2) }];
    vec![
        ("webp-ext".into(), webp_ext(3, 2, 0x20 | 0x08, Some(&[7; 9]), None, Some(&e(3, 2, ColorType::Rgb8, 2)), Some(b"MM\0\x2a\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0\x06\0\0\0\0\0\0"))),
        ("webp-anim".into(), webp_ext(4, 4, 0x10 | 0x02, None, Some((0, 0, &frames)), None, None)),
        ("webp-anim-rgb".into(), webp_ext(3, 2, 0x02, None, Some((0, 0, &frgb)), None, None)),
    ]
}

/// Every file, each name once.
pub fn all() -> &'static [File] {
    static ALL: OnceLock<Vec<File>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v: Vec<File> = vec![];
        let mut add = |l: Vec<(String, Vec<u8>)>, f: ImageFormat| {
            for (name, b) in l {
                v.push(File { name, format: f, bytes: Arc::new(b) });
            }
        };
        use ImageFormat::*;
        add(tga_files(), Tga);
        add(bmp_files(), Bmp);
        add(gif_files(), Gif);
        add(apng_files(), Png);
        add(ico_files(), Ico);
        add(hdr_files(), Hdr);
        add(pnm_files(), Pnm);
        add(tiff_files(), Tiff);
        add(dds_files(), Dds);
        add(webp_files(), WebP);
        macro_rules! fix {
            ($($n:literal $f:ident),* $(,)?) => { $( add(vec![($n.to_string(), include_bytes!(concat!("../corpus/", $n)).to_vec())], $f); )* };
        }
        fix!(
            "hpredict.tiff" Tiff, "hpredict_packbits.tiff" Tiff,
            "lossy_alpha.webp" WebP, "two-color.webp" WebP, "simple-gray.webp" WebP, "simple-rgb.webp" WebP,
            "progressive.jpg" Jpeg, "mixed-disposal.gif" Gif, "border_touching_layers.gif" Gif, "interlaced.gif" Gif, "alpha_gif_a.gif" Gif,
            "Info_1_Bit.bmp" Bmp, "Info_4_Bit.bmp" Bmp, "Info_8_Bit.bmp" Bmp, "Info_R8_G8_B8_Top_Down.bmp" Bmp, "Info_A8_R8_G8_B8.bmp" Bmp,
            "Info_X1_R5_G5_B5.bmp" Bmp, "V3_A4_R4_G4_B4.bmp" Bmp, "V3_R5_G6_B5.bmp" Bmp,
            "basi2c08.png" Png, "tbbn0g04.png" Png, "tm3n3p02.png" Png, "tbbn3p08.png" Png, "basn6a16.png" Png,
            "smile.ico" Ico, "bmp-24bpp-mask.ico" Ico, "png-32bpp-alpha.ico" Ico,
            "rgbr4x4.hdr" Hdr, "basic-test.qoi" Qoi, "acid2.ff" Farbfeld,
        );
        // What the encoders write, each colour type once.
        let mut encs = basic();
        encs.extend([Enc::Tga(false), Enc::Jpeg(10)]);
        for e in [SampleEncoding::Binary, SampleEncoding::Ascii] {
            encs.extend([Enc::Pnm(Some(PnmSubtype::Bitmap(e))), Enc::Pnm(Some(PnmSubtype::Graymap(e))), Enc::Pnm(Some(PnmSubtype::Pixmap(e)))]);
        }
        encs.push(Enc::Pnm(Some(PnmSubtype::ArbitraryMap)));
        encs.push(Enc::Avif(10, 80));
        for e in encs {
            for c in COLORS {
                let mut r = pattern(5, 3, c, 2);
                if let Enc::Pnm(Some(PnmSubtype::Bitmap(_))) = e {
                    for b in r.data.iter_mut() {
                        *b &= 1;
                    }
                }
                if let Enc::Avif(..) = e {
                    if c != ColorType::Rgba8 && c != ColorType::Rgb8 {
                        continue;
                    }
                    r = pattern(5, 3, c, 1);
                }
                if let Ok(b) = e.to_vec(&r) {
                    if decode(e.format(), &b).is_ok() {
                        v.push(File { name: format!("{}-{:?}", e.name(), c), format: e.format(), bytes: Arc::new(b) });
                    }
                }
            }
        }
        v
    })
}
pub fn get(name: &str) -> &'static File {
    all().iter().find(|f| f.name == name).unwrap_or_else(|| panic!("no corpus file {name}"))
}
