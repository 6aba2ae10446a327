//! C26: DDS (DXT1/3/5) decoding against an independent model of block compression.
//! TECHNIQUE: exhaustive enumeration of block contents, block grids and header fields from a model of S3TC, each file decoded by the real decoder and compared with the model's pixels
//! LEVEL: model_checking
//! NOTE: Colours and alphas may differ by one unit from exact interpolation (the specification leaves rounding open); index selection, mode selection and placement are exact.
use image::codecs::dds::DdsDecoder;
use image::*;
use mc::forge::dds;
use mc::*;
use std::io::Cursor;

type Out = Result<(u32, u32, ColorType, Vec<u8>), String>;
fn dec(b: &[u8]) -> Out {
    catch(|| -> ImageResult<_> {
        let d = DdsDecoder::new(Cursor::new(b))?;
        let ((w, h), c) = (d.dimensions(), d.color_type());
        let mut o = vec![0x5A; d.total_bytes() as usize];
        d.read_image(&mut o)?;
        Ok((w, h, c, o))
    })
    .map_err(|p| format!("PANIC {p}"))?
    .map_err(|e| e.to_string())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum V {
    D1,
    D3,
    D5,
}
impl V {
    fn fourcc(self) -> &'static [u8; 4] {
        match self {
            V::D1 => b"DXT1",
            V::D3 => b"DXT3",
            V::D5 => b"DXT5",
        }
    }
    fn bpp(self) -> usize {
        if self == V::D1 { 3 } else { 4 }
    }
    fn color(self) -> ColorType {
        if self == V::D1 { ColorType::Rgb8 } else { ColorType::Rgba8 }
    }
}
#[derive(Clone, Debug)]
struct Block {
    c0: u16,
    c1: u16,
    idx: [u8; 16],
    /// DXT3: 16 nibbles; DXT5: 16 three-bit codes.
    alpha: [u8; 16],
    a0: u8,
    a1: u8,
}
impl Block {
    fn bytes(&self, v: V) -> Vec<u8> {
        let mut o = vec![];
        match v {
            V::D1 => {}
            V::D3 => {
                for k in 0..8 {
                    o.push(self.alpha[2 * k] | self.alpha[2 * k + 1] << 4);
                }
            }
            V::D5 => {
                o.extend([self.a0, self.a1]);
                let mut t = 0u64;
                for k in 0..16 {
                    t |= (self.alpha[k] as u64) << (3 * k);
                }
                o.extend(&t.to_le_bytes()[..6]);
            }
        }
        o.extend(self.c0.to_le_bytes());
        o.extend(self.c1.to_le_bytes());
        let mut t = 0u32;
        for k in 0..16 {
            t |= (self.idx[k] as u32) << (2 * k);
        }
        o.extend(t.to_le_bytes());
        o
    }
    /// The exact value of every channel of pixel `k` as a fraction (numerator over 31*63*3*2*7*5*15 scale): f64 is exact enough.
    fn pixel(&self, v: V, k: usize) -> Vec<f64> {
        let ex = |c: u16| [(c >> 11) as f64 * 255. / 31., (c >> 5 & 63) as f64 * 255. / 63., (c & 31) as f64 * 255. / 31.];
        let (p, q) = (ex(self.c0), ex(self.c1));
        let mix = |a: f64, b: f64| -> [f64; 3] { std::array::from_fn(|i| (a * p[i] + b * q[i]) / (a + b)) };
        let four = v != V::D1 || self.c0 > self.c1;
        let c = match (self.idx[k], four) {
            (0, _) => p,
            (1, _) => q,
            (2, true) => mix(2., 1.),
            (3, true) => mix(1., 2.),
            (2, false) => mix(1., 1.),
            _ => [0.; 3],
        };
        let mut o = c.to_vec();
        let (a0, a1) = (self.a0 as f64, self.a1 as f64);
        match v {
            V::D1 => {}
            V::D3 => o.push(self.alpha[k] as f64 * 17.),
            V::D5 => o.push(match (self.alpha[k], self.a0 > self.a1) {
                (0, _) => a0,
                (1, _) => a1,
                (6, false) => 0.,
                (7, false) => 255.,
                (i, true) => ((8 - i) as f64 * a0 + (i - 1) as f64 * a1) / 7.,
                (i, false) => ((6 - i) as f64 * a0 + (i - 1) as f64 * a1) / 5.,
            }),
        }
        o
    }
}
fn blk() -> Block {
    Block { c0: 0xFFFF, c1: 0, idx: [0; 16], alpha: [0; 16], a0: 255, a1: 0 }
}

/// Decodes the grid and compares every pixel with the model.
fn compare(v: V, gw: usize, gh: usize, blocks: &[Block], dxgi: Option<u32>, tail: usize) -> Res {
    let mut data: Vec<u8> = blocks.iter().flat_map(|b| b.bytes(v)).collect();
    data.resize(data.len() + tail, 0xEE);
    let (w, h) = (gw * 4, gh * 4);
    let cc = if dxgi.is_some() { b"DX10" } else { v.fourcc() };
    let file = dds(cc, w as u32, h as u32, dxgi, &data);
    let (ow, oh, oc, px) = match dec(&file) {
        Ok(o) => o,
        Err(e) => return viol("", format!("{v:?} {gw}x{gh} blocks refused: {e}")),
    };
    ensure_eq!((ow, oh, oc), (w as u32, h as u32, v.color()), "{v:?} header");
    let n = v.bpp();
    for y in 0..h {
        for x in 0..w {
            let (b, k) = (&blocks[(y / 4) * gw + x / 4], (y % 4) * 4 + x % 4);
            let e = b.pixel(v, k);
            let g = &px[(y * w + x) * n..][..n];
            // Endpoints expand to the floor or the nearest integer, mixtures inherit that error and round themselves.
            let ok = (0..n).all(|i| if i == 3 && v == V::D3 { g[i] as f64 == e[i] } else if i == 3 { (g[i] as f64 - e[i]).abs() < 1.0 } else { (g[i] as f64 - e[i]).abs() < 1.6 });
            ensure!(ok, "{v:?} pixel ({x},{y}) of {b:?}: got {g:?}, the block defines {e:?}");
        }
    }
    Ok(())
}

const COLS: [u16; 26] = [
    0, 0xFFFF, 1, 0xFFFE, 0x001F, 0x0020, 0x07E0, 0x0800, 0xF800, 0x7FFF, 0x8000, 0xF7DE, 0x0821, 0x8410, 0x7BEF, 0x8430, 0x1234, 0xABCD, 0x00FF, 0xFF00, 0x0100, 0x5555, 0xAAAA, 0x07FF, 0xF81F, 0xFFE0,
];

fn main() {
    let mut c = Check::start("C26", "model_checking", "one execution is one DDS file generated from the block model and decoded; it counts when pixels or refusal were compared with the model");
    let all = [V::D1, V::D3, V::D5];

    let step = if c.quick { 16 } else { 1 };
    c.explore("endpoints", "every 565 colour (thorough; one in 16 plus boundary ones in quick, all 5/6-bit channel values) against 26 boundary colours in both orders and against itself and its neighbours, all four indices", |ch| {
        let v = ch.of(&all);
        let hi = ch.range(0, 255) as u16;
        let mut bl = vec![];
        for lo in (0..256u16).step_by(step) {
            let c0 = hi << 8 | (lo + (hi % step as u16));
            for &c1 in COLS.iter().chain(&[c0, c0.wrapping_add(1), c0.wrapping_sub(1)]) {
                for (a, b) in [(c0, c1), (c1, c0)] {
                    let idx = std::array::from_fn(|k| ((k + k / 4) % 4) as u8);
                    bl.push(Block { c0: a, c1: b, idx, alpha: [15, 7, 1, 2, 3, 0, 4, 5, 6, 7, 0, 1, 2, 3, 4, 5].map(|x| if v == V::D5 { x % 8 } else { x }), ..blk() });
                }
            }
        }
        ch.steps(bl.len() as u64);
        ch.outcome(hash_of(&(v as u8, hi)));
        ch.validated();
        ch.sample(|| format!("{v:?} {} blocks with high byte {hi}", bl.len()));
        compare(v, bl.len(), 1, &bl, None, 0)
    });

    c.explore("dxt5-alpha", "all 65536 pairs of alpha endpoints, all eight codes", |ch| {
        let a0 = ch.range(0, 255) as u8;
        let rot = ch.pick(8);
        let bl: Vec<Block> = (0..256).map(|a1| Block { a0, a1: a1 as u8, alpha: std::array::from_fn(|k| ((k + rot + k / 8) % 8) as u8), ..blk() }).collect();
        ch.steps(256);
        ch.validated();
        compare(V::D5, 256, 1, &bl, None, 0)
    });

    c.explore("positions", "every pixel of a block set alone to every index and alpha code over every background code", |ch| {
        let v = ch.of(&all);
        let p = ch.pick(16);
        let (c0, c1) = ch.of(&[(0xF81Fu16, 0x07E0u16), (0x07E0, 0xF81F), (0x1234, 0x1234)]);
        let mut bl = vec![];
        let codes = if v == V::D5 { 8 } else { 16 };
        for bg in 0..4u8 {
            for i in 0..4u8 {
                for abg in 0..codes as u8 {
                    for a in 0..codes as u8 {
                        let mut b = Block { c0, c1, idx: [bg; 16], alpha: [abg; 16], a0: [200, 10][(i & 1) as usize], a1: 100 };
                        b.idx[p] = i;
                        b.alpha[p] = a;
                        bl.push(b);
                    }
                }
            }
        }
        ch.steps(bl.len() as u64);
        ch.validated();
        compare(v, bl.len(), 1, &bl, None, 0)
    });

    let g = if c.quick { 6 } else { 12 };
    c.explore("placement", "all block grids up to 6x6 (12x12), every block different, every DX10 code of the three families, trailing bytes", |ch| {
        let v = ch.of(&all);
        let (gw, gh) = (ch.range(1, g) as usize, ch.range(1, g) as usize);
        let base = match v {
            V::D1 => 70,
            V::D3 => 73,
            V::D5 => 76,
        };
        let dxgi = ch.of(&[None, Some(base), Some(base + 1), Some(base + 2)]);
        let tail = ch.of(&[0, 1, 8, 40]);
        let bl: Vec<Block> = (0..gw * gh)
            .map(|i| Block { c0: (i * 2749 + 17) as u16, c1: (i * 7919 + 40000) as u16, idx: std::array::from_fn(|k| ((k * 7 + i + k / 5) % 4) as u8), alpha: std::array::from_fn(|k| ((k * 5 + i) % 8) as u8), a0: (i * 37) as u8, a1: (i * 91 + 100) as u8 })
            .collect();
        ch.validated();
        ch.outcome(hash_of(&(v as u8, gw, gh)));
        compare(v, gw, gh, &bl, dxgi, tail)
    });

    c.explore("large", "grids of 63 to 65, 256, 1000, 16383 and 16384 blocks in each direction, every block different", |ch| {
        let v = ch.of(&all);
        let n = ch.of(&[63usize, 64, 65, 256, 1000, 16383, 16384, 16385]);
        let (gw, gh) = ch.of(&[(n, 1), (1, n), (n, 2), (3, n)]);
        let bl: Vec<Block> = (0..gw * gh)
            .map(|i| Block { c0: (i * 2749 + 17) as u16, c1: (i * 7919 + 40000) as u16, idx: std::array::from_fn(|k| ((k * 7 + i + k / 5) % 4) as u8), alpha: std::array::from_fn(|k| ((k * 5 + i) % 8) as u8), a0: (i * 37) as u8, a1: (i * 91 + 100) as u8 })
            .collect();
        ch.validated();
        compare(v, gw, gh, &bl, None, 0)
    });

    c.explore("truncation", "every proper prefix of files of 1x1 to 2x2 blocks of each variant, with and without the DX10 header: refused", |ch| {
        let v = ch.of(&all);
        let (gw, gh) = (ch.range(1, 2) as usize, ch.range(1, 2) as usize);
        let dx = ch.flag();
        let bl = vec![blk(); gw * gh];
        let data: Vec<u8> = bl.iter().flat_map(|b| b.bytes(v)).collect();
        let base = [70, 73, 76][v as usize];
        let f = if dx { dds(b"DX10", gw as u32 * 4, gh as u32 * 4, Some(base), &data) } else { dds(v.fourcc(), gw as u32 * 4, gh as u32 * 4, None, &data) };
        let n = ch.pick(f.len());
        ch.validated();
        match dec(&f[..n]) {
            Ok(_) => viol("", format!("{v:?} {gw}x{gh} cut at {n} of {} decodes", f.len())),
            Err(e) if e.starts_with("PANIC") => viol("", e),
            Err(_) => Ok(()),
        }
    });

    c.explore("sizes", "all sizes 0..=17 in both directions: accepted (with every pixel as defined) exactly when both are multiples of four", |ch| {
        let v = ch.of(&all);
        let (w, h) = (ch.range(0, 17) as u32, ch.range(0, 17) as u32);
        let n = (w as usize + 3) / 4 * ((h as usize + 3) / 4);
        let data: Vec<u8> = (0..n).flat_map(|_| blk().bytes(v)).collect();
        ch.validated();
        let r = dec(&dds(v.fourcc(), w, h, None, &data));
        let e = w % 4 == 0 && h % 4 == 0;
        match r {
            Ok((ow, oh, _, px)) => {
                ensure!(e, "{v:?} {w}x{h} decodes");
                ensure_eq!((ow, oh, px.len()), (w, h, (w * h) as usize * v.bpp()), "size");
                ensure!(px.chunks(v.bpp()).all(|p| p[..3] == [255, 255, 255]), "{v:?} {w}x{h}: wrong pixels");
            }
            Err(m) => ensure!(!e && !m.starts_with("PANIC"), "{v:?} {w}x{h}: {m}"),
        }
        Ok(())
    });

    c.explore("header", "every header field in turn set to every boundary value: the file is refused exactly when the field's rule is broken, and otherwise decodes the same", |ch| {
        let dx = ch.flag();
        let data: Vec<u8> = (0..4).flat_map(|_| blk().bytes(V::D1)).collect();
        let f = if dx { dds(b"DX10", 8, 8, Some(71), &data) } else { dds(b"DXT1", 8, 8, None, &data) };
        let fields = if dx { 37 } else { 32 };
        let fi = ch.pick(fields);
        if fi == 3 || fi == 4 {
            return Ok(()); // dimensions: the part "sizes"
        }
        let old = u32::from_le_bytes(f[fi * 4..fi * 4 + 4].try_into().unwrap());
        let mut vals = vec![0, 1, 2, 3, 4, 5, 6, 31, 32, 33, 69, 70, 72, 73, 75, 76, 78, 79, 123, 124, 125, 132, 133, 255, u32::MAX, 0x8000_0000];
        vals.extend((0..32).map(|b| old ^ 1 << b));
        vals.extend([b"DXT1", b"DXT2", b"DXT3", b"DXT4", b"DXT5", b"DX10", b"dxt1", b"BC4U"].map(|x| u32::from_le_bytes(*x)));
        let val = ch.of(&vals);
        let mut g = f.clone();
        g[fi * 4..fi * 4 + 4].copy_from_slice(&val.to_le_bytes());
        // Some(true): same result; Some(false): refused; None: anything but a panic (another format's reading).
        let want = match fi {
            0 => Some(val == old),
            1 => Some(val == 124),
            2 => Some(val & 0x1007 == 0x1007 && val & !0x8A_100F == 0),
            19 => Some(val == 32),
            20 => Some(val & 4 != 0),
            21 if val == old => Some(true),
            21 if [b"DXT1", b"DXT3", b"DXT5", b"DX10"].iter().any(|x| u32::from_le_bytes(**x) == val) => None,
            21 => Some(false),
            32 if (70..=72).contains(&val) => Some(true),
            32 if (73..=78).contains(&val) => None,
            32 => Some(false),
            33 if val == 4 => Some(true), // array size is 1
            33 => Some((2..=4).contains(&val)),
            34 => Some(val == 0 || val == 4),
            35 => Some(true), // not a 3D texture
            36 => Some(val <= 4),
            _ => Some(true),
        };
        let (a, b) = (dec(&f), dec(&g));
        ensure!(a.is_ok(), "base file: {a:?}");
        ch.validated();
        match (want, &b) {
            (_, Err(m)) if m.starts_with("PANIC") => viol("", format!("field {fi} = {val:#x}: {m}")),
            (Some(true), r) if *r != a => viol("", format!("field {fi} = {val:#x} changes the result to {}", short(&format!("{r:?}")))),
            (Some(false), Ok(_)) => viol("", format!("field {fi} = {val:#x} (dx10 {dx}) is accepted")),
            _ => Ok(()),
        }
    });
    c.explore("volume-array", "a three-dimensional texture needs an array size of 1", |ch| {
        let n = ch.of(&[0u32, 1, 2, 3, 6, u32::MAX]);
        let dim = ch.of(&[2u32, 3, 4]);
        let mut f = dds(b"DX10", 4, 4, Some(71), &blk().bytes(V::D1));
        f[132..136].copy_from_slice(&dim.to_le_bytes());
        f[140..144].copy_from_slice(&n.to_le_bytes());
        ch.validated();
        ensure_eq!(dec(&f).is_ok(), dim != 4 || n == 1, "dimension {dim}, array size {n}");
        Ok(())
    });
    c.finish()
}
