//! An independent baseline JPEG parser and reference transform (double precision).
pub struct Comp {
    pub id: u8,
    pub q: [f64; 64],
    /// Dequantised coefficients per block, natural order, blocks in raster order.
    pub blocks: Vec<[f64; 64]>,
}
pub struct Parsed {
    pub w: u32,
    pub h: u32,
    pub bw: usize,
    pub bh: usize,
    pub comps: Vec<Comp>,
    pub app0: Option<Vec<u8>>,
    pub scan_bytes: usize,
}
pub fn zigzag() -> [usize; 64] {
    let mut z = [0; 64];
    let (mut x, mut y) = (0i32, 0i32);
    for k in z.iter_mut() {
        *k = (y * 8 + x) as usize;
        if (x + y) % 2 == 0 {
            if x == 7 {
                y += 1;
            } else if y == 0 {
                x += 1;
            } else {
                x += 1;
                y -= 1;
            }
        } else if y == 7 {
            x += 1;
        } else if x == 0 {
            y += 1;
        } else {
            x -= 1;
            y += 1;
        }
    }
    z
}

#[derive(Clone)]
struct Huff {
    /// (length, code) -> symbol
    by_len: Vec<(u32, u32, Vec<u8>)>,
}
impl Huff {
    fn new(counts: &[u8], values: &[u8]) -> Huff {
        let mut by_len = vec![];
        let (mut code, mut k) = (0u32, 0usize);
        for &n in counts {
            by_len.push((code, n as u32, values[k..k + n as usize].to_vec()));
            code = (code + n as u32) << 1;
            k += n as usize;
        }
        Huff { by_len }
    }
}
struct Bits<'a> {
    d: &'a [u8],
    at: usize,
    bit: u32,
}
impl Bits<'_> {
    fn next(&mut self) -> Result<u32, String> {
        let b = *self.d.get(self.at).ok_or("entropy data ends early")?;
        let v = (b >> (7 - self.bit)) & 1;
        self.bit += 1;
        if self.bit == 8 {
            self.bit = 0;
            self.at += 1;
        }
        Ok(v as u32)
    }
    fn symbol(&mut self, h: &Huff) -> Result<u8, String> {
        let mut code = 0u32;
        for (first, n, vals) in &h.by_len {
            code = code << 1 | self.next()?;
            if code >= *first && code < *first + *n {
                return Ok(vals[(code - *first) as usize]);
            }
        }
        Err("a code that is not in the Huffman table".into())
    }
    fn value(&mut self, size: u8) -> Result<i32, String> {
        if size == 0 {
            return Ok(0);
        }
        let mut v = 0i32;
        for _ in 0..size {
            v = v << 1 | self.next()? as i32;
        }
        Ok(if v < 1 << (size - 1) { v - (1 << size) + 1 } else { v })
    }
}

pub fn parse(b: &[u8]) -> Result<Parsed, String> {
    let z = zigzag();
    if b.get(..2) != Some(&[0xFF, 0xD8]) {
        return Err("no SOI".into());
    }
    let mut at = 2;
    let mut qt: Vec<Option<[f64; 64]>> = vec![None; 4];
    let mut ht: Vec<Option<Huff>> = vec![None; 8];
    let mut frame: Option<(u32, u32, Vec<(u8, u8)>)> = None;
    let mut app0 = None;
    loop {
        let m = match b.get(at..at + 2) {
            Some([0xFF, m]) => *m,
            x => return Err(format!("no marker at {at}: {x:?}")),
        };
        let len = u16::from_be_bytes(b.get(at + 2..at + 4).ok_or("truncated")?.try_into().unwrap()) as usize;
        if len < 2 {
            return Err(format!("segment {m:x} of length {len}"));
        }
        let s = b.get(at + 4..at + 2 + len).ok_or_else(|| format!("segment {m:x} of length {len} exceeds the file"))?;
        at += 2 + len;
        match m {
            0xE0 => app0 = Some(s.to_vec()),
            0xE1..=0xEF | 0xFE => {}
            0xDB => {
                let mut s = s;
                while !s.is_empty() {
                    if s[0] >> 4 != 0 || s[0] & 15 > 3 || s.len() < 65 {
                        return Err("bad DQT".into());
                    }
                    let mut t = [0.; 64];
                    for k in 0..64 {
                        if s[1 + k] == 0 {
                            return Err("a quantiser of zero".into());
                        }
                        t[z[k]] = s[1 + k] as f64;
                    }
                    qt[(s[0] & 15) as usize] = Some(t);
                    s = &s[65..];
                }
            }
            0xC4 => {
                let mut s = s;
                while !s.is_empty() {
                    let n: usize = s.get(1..17).ok_or("bad DHT")?.iter().map(|x| *x as usize).sum();
                    let v = s.get(17..17 + n).ok_or("bad DHT")?;
                    if s[0] & 0xEC != 0 {
                        return Err("bad DHT".into());
                    }
                    ht[(s[0] >> 4 << 2 | s[0] & 3) as usize] = Some(Huff::new(&s[1..17], v));
                    s = &s[17 + n..];
                }
            }
            0xC0 => {
                if s.len() < 6 || s[0] != 8 || s.len() != 6 + 3 * s[5] as usize {
                    return Err("bad SOF".into());
                }
                let c: Vec<(u8, u8)> = s[6..].chunks(3).map(|c| (c[0], c[2])).collect();
                if s[6..].chunks(3).any(|c| c[1] != 0x11 || c[2] > 3) {
                    return Err("subsampling not modelled".into());
                }
                frame = Some((u16::from_be_bytes([s[3], s[4]]) as u32, u16::from_be_bytes([s[1], s[2]]) as u32, c));
            }
            0xDA => {
                let (w, h, c) = frame.clone().ok_or("SOS before SOF")?;
                if s.len() != 4 + 2 * c.len() || s[0] as usize != c.len() || s[s.len() - 3..] != [0, 63, 0] {
                    return Err("bad SOS".into());
                }
                let tabs: Vec<(Huff, Huff)> = (0..c.len())
                    .map(|i| {
                        if s[1 + 2 * i] != c[i].0 {
                            return Err("components out of order".to_string());
                        }
                        let t = s[2 + 2 * i];
                        let get = |k: u8| ht.get(k as usize).cloned().flatten().ok_or("a missing Huffman table".to_string());
                        Ok((get(t >> 4)?, get(4 + (t & 15))?))
                    })
                    .collect::<Result<_, String>>()?;
                // unstuff
                let mut d = vec![];
                let start = at;
                loop {
                    match (b.get(at), b.get(at + 1)) {
                        (Some(0xFF), Some(0)) => {
                            d.push(0xFF);
                            at += 2;
                        }
                        (Some(0xFF), Some(0xD9)) => break,
                        (Some(0xFF), m) => return Err(format!("marker {m:?} within the scan")),
                        (Some(x), _) => {
                            d.push(*x);
                            at += 1;
                        }
                        _ => return Err("no EOI".into()),
                    }
                }
                if at + 2 != b.len() {
                    return Err(format!("{} bytes after EOI", b.len() - at - 2));
                }
                let (bw, bh) = ((w as usize + 7) / 8, (h as usize + 7) / 8);
                let mut comps: Vec<Comp> = c
                    .iter()
                    .map(|&(id, t)| Ok(Comp { id, q: qt[t as usize].ok_or("a missing quantisation table".to_string())?, blocks: vec![] }))
                    .collect::<Result<_, String>>()?;
                let mut bits = Bits { d: &d, at: 0, bit: 0 };
                let mut dc = vec![0i32; c.len()];
                for blk in 0..bw * bh {
                    for (i, comp) in comps.iter_mut().enumerate() {
                        let e = |x: String| format!("block {blk} of component {i}: {x}");
                        let mut k = [0.; 64];
                        let s = bits.symbol(&tabs[i].0).map_err(e)?;
                        if s > 11 {
                            return Err(e(format!("a DC difference of {s} bits")));
                        }
                        dc[i] += bits.value(s).map_err(e)?;
                        if dc[i].abs() > 2047 {
                            return Err(e(format!("DC {}", dc[i])));
                        }
                        k[0] = dc[i] as f64 * comp.q[0];
                        let mut n = 1;
                        while n < 64 {
                            let rs = bits.symbol(&tabs[i].1).map_err(e)?;
                            let (r, s) = (rs >> 4, rs & 15);
                            if s == 0 {
                                if r == 0 {
                                    break;
                                }
                                if r != 15 {
                                    return Err(e(format!("symbol {rs:#x}")));
                                }
                                n += 16;
                                if n > 63 {
                                    return Err(e("a run of zeros past the block".into()));
                                }
                                continue;
                            }
                            n += r as usize;
                            if n > 63 {
                                return Err(e("a coefficient past the block".into()));
                            }
                            if s > 10 {
                                return Err(e(format!("a coefficient of {s} bits")));
                            }
                            k[z[n]] = bits.value(s).map_err(e)? as f64 * comp.q[z[n]];
                            n += 1;
                        }
                        comp.blocks.push(k);
                    }
                }
                if bits.bit > 0 {
                    if d[bits.at] | (0xFFu32 << (8 - bits.bit)) as u8 != 0xFF {
                        return Err("the padding is not of ones".into());
                    }
                    bits.at += 1;
                }
                if bits.at != d.len() {
                    return Err(format!("{} bytes of entropy data too many", d.len() - bits.at));
                }
                return Ok(Parsed { w, h, bw, bh, comps, app0, scan_bytes: at - start });
            }
            m => return Err(format!("unexpected marker {m:x}")),
        }
    }
}

fn table() -> &'static [[f64; 8]; 8] {
    static T: std::sync::OnceLock<[[f64; 8]; 8]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [[0.; 8]; 8];
        for (u, row) in t.iter_mut().enumerate() {
            for (x, v) in row.iter_mut().enumerate() {
                let c = if u == 0 { 0.5f64.sqrt() } else { 1. };
                *v = 0.5 * c * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.).cos();
            }
        }
        t
    })
}
/// Forward transform of level-shifted samples.
pub fn dct(px: &[f64; 64]) -> [f64; 64] {
    let t = table();
    let mut a = [0.; 64];
    for y in 0..8 {
        for u in 0..8 {
            a[y * 8 + u] = (0..8).map(|x| px[y * 8 + x] * t[u][x]).sum();
        }
    }
    let mut o = [0.; 64];
    for v in 0..8 {
        for u in 0..8 {
            o[v * 8 + u] = (0..8).map(|y| a[y * 8 + u] * t[v][y]).sum();
        }
    }
    o
}
pub fn idct(c: &[f64; 64]) -> [f64; 64] {
    let t = table();
    let mut a = [0.; 64];
    for v in 0..8 {
        for x in 0..8 {
            a[v * 8 + x] = (0..8).map(|u| c[v * 8 + u] * t[u][x]).sum();
        }
    }
    let mut o = [0.; 64];
    for y in 0..8 {
        for x in 0..8 {
            o[y * 8 + x] = (0..8).map(|v| a[v * 8 + x] * t[v][y]).sum();
        }
    }
    o
}
