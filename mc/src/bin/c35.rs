//! C35: AVIF pictures decode to the colours their planes, matrix, range, layout and depth define.
//! TECHNIQUE: exhaustive enumeration of layouts x depths x ranges x matrices x sizes x contents x alpha planes as real bitstreams, decoded by the real code and compared with a floating-point model over the planes dav1d gives
//! LEVEL: model_checking
//! NOTE: Bitstreams come from rav1e and the container from avif-serialize; the oracle decodes the same bitstream with dav1d and converts with the definitions of H.273 in floating point. Tolerances are the quantisation of 11-bit fixed-point coefficients; neutral colours in full range, identity pictures and alpha are exact.
use image::{ColorType, ImageFormat};
use mc::*;
use rav1e::prelude::*;

const MATRICES: [MatrixCoefficients; 14] = [
    MatrixCoefficients::Identity, MatrixCoefficients::BT709, MatrixCoefficients::Unspecified, MatrixCoefficients::FCC, MatrixCoefficients::BT470BG,
    MatrixCoefficients::BT601, MatrixCoefficients::SMPTE240, MatrixCoefficients::YCgCo, MatrixCoefficients::BT2020NCL, MatrixCoefficients::BT2020CL,
    MatrixCoefficients::SMPTE2085, MatrixCoefficients::ChromatNCL, MatrixCoefficients::ChromatCL, MatrixCoefficients::ICtCp,
];
const LAYOUTS: [ChromaSampling; 4] = [ChromaSampling::Cs400, ChromaSampling::Cs420, ChromaSampling::Cs422, ChromaSampling::Cs444];

struct Spec { w: usize, h: usize, depth: usize, cs: ChromaSampling, range: PixelRange, matrix: MatrixCoefficients }

/// One still picture; `f(plane, x, y)` gives the samples.
fn av1(s: &Spec, f: &dyn Fn(usize, usize, usize) -> u16) -> Option<Vec<u8>> {
    fn go<P: Pixel>(s: &Spec, f: &dyn Fn(usize, usize, usize) -> u16) -> Option<Vec<u8>> {
        let mut e = EncoderConfig::with_speed_preset(10);
        e.width = s.w;
        e.height = s.h;
        e.bit_depth = s.depth;
        e.chroma_sampling = s.cs;
        e.pixel_range = s.range;
        e.color_description = Some(ColorDescription { color_primaries: ColorPrimaries::BT709, transfer_characteristics: TransferCharacteristics::SRGB, matrix_coefficients: s.matrix });
        e.still_picture = true;
        e.quantizer = 3;
        e.min_quantizer = 1;
        e.tiles = 1;
        let mut ctx: Context<P> = Config::new().with_encoder_config(e).with_threads(1).new_context().ok()?;
        let mut frame = ctx.new_frame();
        for (k, p) in frame.planes.iter_mut().enumerate() {
            let mut m = p.mut_slice(Default::default());
            for (y, row) in m.rows_iter_mut().enumerate() {
                for (x, v) in row.iter_mut().enumerate() {
                    *v = P::cast_from(f(k, x, y));
                }
            }
        }
        ctx.send_frame(frame).ok()?;
        ctx.flush();
        let mut out = vec![];
        loop {
            match ctx.receive_packet() {
                Ok(p) => out.extend(p.data),
                Err(EncoderStatus::Encoded) => continue,
                Err(EncoderStatus::LimitReached) => break,
                Err(_) => return None,
            }
        }
        Some(out)
    }
    if s.depth == 8 { go::<u8>(s, f) } else { go::<u16>(s, f) }
}

/// Decoded planes as integers.
struct Planes3 { w: usize, h: usize, depth: u32, p: [Vec<Vec<u32>>; 3], full: bool, matrix: String }

fn planes_of(data: &[u8]) -> Result<Planes3, String> {
    use dav1d::*;
    let mut s = Settings::new();
    s.set_n_threads(1);
    let mut d = Decoder::with_settings(&s).map_err(|e| e.to_string())?;
    d.send_data(data.to_vec(), None, None, None).map_err(|e| e.to_string())?;
    let pic = loop {
        match d.get_picture() {
            Ok(p) => break p,
            Err(e) if e.is_again() => match d.send_pending_data() { Ok(()) => (), Err(e) if e.is_again() => (), Err(e) => return Err(e.to_string()) },
            Err(e) => return Err(e.to_string()),
        }
    };
    let (w, h) = (pic.width() as usize, pic.height() as usize);
    let b = if pic.bit_depth() > 8 { 2 } else { 1 };
    let get = |c: PlanarImageComponent, w: usize, h: usize| -> Vec<Vec<u32>> {
        let p = pic.plane(c);
        let s = pic.stride(c) as usize;
        (0..h).map(|y| (0..w).map(|x| { let o = y * s + x * b; if b == 1 { p[o] as u32 } else { u16::from_ne_bytes([p[o], p[o + 1]]) as u32 } }).collect()).collect()
    };
    let (cw, chh) = match pic.pixel_layout() {
        PixelLayout::I400 => (0, 0),
        PixelLayout::I420 => (w.div_ceil(2), h.div_ceil(2)),
        PixelLayout::I422 => (w.div_ceil(2), h),
        PixelLayout::I444 => (w, h),
    };
    let chroma = |c| if cw == 0 { vec![] } else { get(c, cw, chh) };
    Ok(Planes3 {
        w, h, depth: pic.bit_depth() as u32,
        p: [get(PlanarImageComponent::Y, w, h), chroma(PlanarImageComponent::U), chroma(PlanarImageComponent::V)],
        full: pic.color_range() == pixel::YUVRange::Full,
        matrix: format!("{:?}", pic.matrix_coefficients()),
    })
}

/// KR and KB of H.273, table 4; `None` where the conversion is not of that kind.
fn kr_kb(m: MatrixCoefficients) -> Option<(f64, f64)> {
    use MatrixCoefficients::*;
    Some(match m {
        BT709 | Unspecified => (0.2126, 0.0722),
        FCC => (0.30, 0.11),
        BT470BG | BT601 => (0.299, 0.114),
        SMPTE240 => (0.212, 0.087),
        BT2020NCL => (0.2627, 0.0593),
        _ => return None,
    })
}

/// The colour of a pixel, with the tolerance, on the scale of the output type.
fn model(s: &Spec, p: &Planes3, x: usize, y: usize) -> ([f64; 3], f64) {
    let n = p.depth;
    let max = ((1u32 << n) - 1) as f64;
    let out = if n == 8 { 255. } else { 65535. };
    let mono = p.p[1].is_empty();
    let (cx, cy) = match s.cs {
        ChromaSampling::Cs420 => (x / 2, y / 2),
        ChromaSampling::Cs422 => (x / 2, y),
        _ => (x, y),
    };
    let unit = (1u32 << (n - 8)) as f64;
    let luma = |v: u32| if p.full { v as f64 / max } else { (v as f64 - 16. * unit) / (219. * unit) };
    let mid = (1u32 << (n - 1)) as f64;
    let chroma = |v: u32| if p.full { (v as f64 - mid) / max } else { (v as f64 - mid) / (224. * unit) };
    let clamp = |v: f64| v.clamp(0., 1.) * out;
    let yy = p.p[0][y][x];
    if s.matrix == MatrixCoefficients::Identity {
        let c = [luma(p.p[2][cy][cx]), luma(yy), luma(p.p[1][cy][cx])].map(clamp);
        return (c, exact(n, p.full));
    }
    let (u, v) = if mono { (1 << (n - 1), 1 << (n - 1)) } else { (p.p[1][cy][cx], p.p[2][cy][cx]) };
    let (kr, kb) = kr_kb(s.matrix).unwrap();
    let (l, cb, cr) = (luma(yy), chroma(u), chroma(v));
    let (r, b) = (l + 2. * (1. - kr) * cr, l + 2. * (1. - kb) * cb);
    let g = (l - kr * r - kb * b) / (1. - kr - kb);
    let neutral = u == 1 << (n - 1) && v == 1 << (n - 1);
    ([r, g, b].map(clamp), if neutral { exact(n, p.full) } else { rounding(n, out) })
}
/// Products with truncated 11-bit coefficients and the rounding of the result, on the output's scale.
fn rounding(n: u32, out: f64) -> f64 {
    let max = ((1u32 << n) - 1) as f64;
    (2. * max / 2048. + 0.51) * out / max + if n == 8 { 0. } else { 1. }
}
/// Full-range samples are only rescaled.
fn exact(n: u32, full: bool) -> f64 {
    match (n, full) {
        (8, true) => 1e-6,
        (_, true) => 1.,
        _ => rounding(n, if n == 8 { 255. } else { 65535. }),
    }
}

fn container(s: &Spec, color: &[u8], alpha: Option<&[u8]>) -> Vec<u8> {
    let sub = match s.cs { ChromaSampling::Cs420 | ChromaSampling::Cs400 => (true, true), ChromaSampling::Cs422 => (true, false), _ => (false, false) };
    let mut a = avif_serialize::Aviffy::new();
    a.set_chroma_subsampling(sub);
    a.set_monochrome(s.cs == ChromaSampling::Cs400);
    a.set_full_color_range(s.range == PixelRange::Full);
    a.to_vec(color, alpha, s.w as u32, s.h as u32, s.depth as u8)
}

fn content(kind: usize, depth: usize) -> impl Fn(usize, usize, usize) -> u16 {
    let max = (1u32 << depth) - 1;
    move |k, x, y| {
        let v: u32 = match kind {
            0 => max * ((x + y + k) as u32 % 2),                                      // full swing
            1 => ((x * 37 + y * 101 + k * 53 + x * y * 7) as u32 * (max / 61)) % (max + 1), // everything
            2 => if k == 0 { max } else { (max + 1) / 2 },                             // white
            3 => if k == 0 { 0 } else { (max + 1) / 2 },                               // black
            4 => if k == 0 { ((x + y * 5) as u32 * (max / 23)) % (max + 1) } else { (max + 1) / 2 }, // greys
            5 => [max / 2, max, 0][k],
            6 => [max / 2, 0, max][k],
            _ => (max * k as u32 / 2 + (x as u32 * 5)) % (max + 1),
        };
        v as u16
    }
}

fn compare(what: &str, s: &Spec, bytes: &[u8], color: &Planes3, alpha: Option<&Planes3>, same_alpha: bool) -> Res {
    let r = catch(|| codec::decode(ImageFormat::Avif, bytes));
    let r = match r { Ok(r) => r, Err(p) => return viol(&format!("panic {p}"), format!("{what}: {p}")) };
    let supported = kr_kb(s.matrix).is_some() || s.matrix == MatrixCoefficients::Identity && s.cs == ChromaSampling::Cs444;
    let raw = match r {
        Err(e) => {
            ensure!(!supported || !same_alpha, "{what}: {e}");
            return Ok(());
        }
        Ok(r) => r,
    };
    ensure!(supported, "{what}: decoded as if the matrix were another");
    ensure!((raw.w as usize, raw.h as usize) == (s.w, s.h), "{what}: {}x{}", raw.w, raw.h);
    ensure!(raw.color == if s.depth == 8 { ColorType::Rgba8 } else { ColorType::Rgba16 }, "{what}: {:?}", raw.color);
    let d = raw.dynamic();
    let got = planes(&d);
    let top = if s.depth == 8 { 255. } else { 65535. };
    for y in 0..s.h {
        for x in 0..s.w {
            let (e, tol) = model(s, color, x, y);
            for c in 0..3 {
                let v = got.at(x as u32, y as u32, c);
                ensure!((v - e[c]).abs() <= tol, "{what}: pixel {x},{y} channel {c} is {v}, should be {:.2} (+-{tol:.2}); samples {} {:?} {:?}", e[c], color.p[0][y][x],
                    color.p[1].get(y / if s.cs == ChromaSampling::Cs420 { 2 } else { 1 }).map(|r| r[x / if s.cs == ChromaSampling::Cs444 { 1 } else { 2 }]), color.p[2].get(y / if s.cs == ChromaSampling::Cs420 { 2 } else { 1 }).map(|r| r[x / if s.cs == ChromaSampling::Cs444 { 1 } else { 2 }]));
            }
            let a = got.at(x as u32, y as u32, 3);
            let ea = match alpha {
                None => top,
                Some(p) if p.w == s.w && p.h == s.h => p.p[0][y][x] as f64 * top / ((1u32 << p.depth) - 1) as f64,
                Some(_) => continue,
            };
            let tol = match alpha { Some(p) if p.depth == s.depth as u32 => if s.depth == 8 { 1e-6 } else { 1. }, None => 1e-6, _ => top / ((1u32 << s.depth) - 1) as f64 * 0.5 + 1. };
            ensure!((a - ea).abs() <= tol, "{what}: alpha at {x},{y} is {a}, should be {ea:.2}");
        }
    }
    Ok(())
}

const SIZES: &[(usize, usize)] = &[(1, 1), (1, 2), (2, 1), (3, 3), (16, 16), (17, 5), (8, 33), (65, 66), (5, 130), (131, 2)];

fn name(s: &Spec) -> String {
    format!("{:?} {} bit {:?} {:?} {}x{}", s.cs, s.depth, s.range, s.matrix, s.w, s.h)
}

fn pick_spec(ch: &mut Ch<'_>, sizes: &[(usize, usize)]) -> Spec {
    let cs = ch.of(&LAYOUTS);
    let depth = ch.of(&[8usize, 10, 12]);
    let range = ch.of(&[PixelRange::Full, PixelRange::Limited]);
    let matrix = ch.of(&MATRICES);
    let (w, h) = ch.of(sizes);
    Spec { w, h, depth, cs, range, matrix }
}

fn colours(ch: &mut Ch<'_>) -> Res {
    let s = pick_spec(ch, if ch.quick { &SIZES[3..7] } else { SIZES });
    let kind = ch.pick(if ch.quick { 3 } else { 8 });
    run(ch, s, kind)
}

/// Every size, with the usual matrix.
fn sizes(ch: &mut Ch<'_>) -> Res {
    let cs = ch.of(&LAYOUTS);
    let depth = ch.of(&[8usize, 10, 12]);
    let range = ch.of(&[PixelRange::Full, PixelRange::Limited]);
    let n = if ch.quick { 9 } else { 20 };
    let (w, h) = (1 + ch.pick(n), 1 + ch.pick(n));
    let s = Spec { w, h, depth, cs, range, matrix: MatrixCoefficients::BT601 };
    run(ch, s, 1)
}

fn run(ch: &mut Ch<'_>, s: Spec, kind: usize) -> Res {
    let f = content(kind, s.depth);
    let what = format!("{} content {kind}", name(&s));
    let Some(color) = av1(&s, &f) else { return Ok(()) };
    let p = match planes_of(&color) { Ok(p) => p, Err(_) => return Ok(()) };
    // what the encoder wrote is what was asked for
    if (p.w, p.h) != (s.w, s.h) || p.depth as usize != s.depth || p.full != (s.range == PixelRange::Full) || (p.p[1].is_empty() != (s.cs == ChromaSampling::Cs400)) {
        return Ok(());
    }
    ch.validated();
    ch.state(hash_of(&(&p.matrix, &p.p[0], &p.p[1], &p.p[2])));
    ch.steps((s.w * s.h) as u64);
    ch.sample(|| what.clone());
    compare(&what, &s, &container(&s, &color, None), &p, None, true)
}

/// Alpha planes of the picture's own and of other depths and sizes.
fn alpha(ch: &mut Ch<'_>) -> Res {
    let cs = ch.of(&LAYOUTS);
    let depth = ch.of(&[8usize, 10, 12]);
    let adepth = ch.of(&[8usize, 10, 12]);
    let (w, h) = ch.of(&[(1usize, 1usize), (4, 3), (17, 19), (64, 2), (70, 66)]);
    let (dw, dh) = ch.of(&[(0i64, 0i64), (-1, 0), (0, -1), (1, 1), (5, 0)]);
    let kind = ch.pick(if ch.quick { 2 } else { 5 });
    let s = Spec { w, h, depth, cs, range: PixelRange::Full, matrix: MatrixCoefficients::BT601 };
    let (aw, ah) = (w as i64 + dw, h as i64 + dh);
    if aw < 1 || ah < 1 { return Ok(()); }
    let t = Spec { w: aw as usize, h: ah as usize, depth: adepth, cs: ChromaSampling::Cs400, range: PixelRange::Full, matrix: MatrixCoefficients::Unspecified };
    let (Some(c), Some(a)) = (av1(&s, &content(1, depth)), av1(&t, &content(kind, adepth))) else { return Ok(()) };
    let (Ok(cp), Ok(ap)) = (planes_of(&c), planes_of(&a)) else { return Ok(()) };
    ch.validated();
    let what = format!("{} with alpha of {adepth} bits, {aw}x{ah}, content {kind}", name(&s));
    ch.steps((w * h) as u64);
    ch.state(hash_of(&(&cp.p[0], &ap.p[0])));
    compare(&what, &s, &container(&s, &c, Some(&a)), &cp, Some(&ap), depth == adepth && (dw, dh) == (0, 0))
}

/// An alpha picture that has chroma planes is no alpha plane.
fn coloured_alpha(ch: &mut Ch<'_>) -> Res {
    let depth = ch.of(&[8usize, 10, 12]);
    let cs = ch.of(&LAYOUTS[1..]);
    let s = Spec { w: 6, h: 5, depth, cs: ChromaSampling::Cs444, range: PixelRange::Full, matrix: MatrixCoefficients::BT601 };
    let t = Spec { w: 6, h: 5, depth, cs, range: PixelRange::Full, matrix: MatrixCoefficients::BT601 };
    let (Some(c), Some(a)) = (av1(&s, &content(1, depth)), av1(&t, &content(1, depth))) else { return Ok(()) };
    let r = catch(|| codec::decode(ImageFormat::Avif, &container(&s, &c, Some(&a))).is_ok());
    ensure!(r == Ok(false), "an alpha picture of layout {cs:?} was taken: {r:?}");
    ch.validated();
    Ok(())
}

fn main() {
    let mut c = Check::start("C35", "model_checking", "AVIF bitstreams over all layouts, depths, ranges, matrices, sizes and alpha planes decode to the modelled colours");
    c.assume("rav1e writes and dav1d decodes AV1 correctly; the planes dav1d gives are the picture");
    c.explore("colours", "4 layouts x 3 depths x 2 ranges x 14 matrices x 4 (thorough 10) sizes x 3 (8) contents", colours);
    c.explore("sizes", "4 layouts x 3 depths x 2 ranges x all sizes up to 9x9 (thorough 20x20)", sizes);
    c.explore("alpha", "4 layouts x 3 x 3 depths x 5 sizes x 5 size differences x contents", alpha);
    c.explore("coloured alpha", "3 depths x 3 layouts", coloured_alpha);
    c.finish();
}
