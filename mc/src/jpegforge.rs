//! A JPEG writer from quantised coefficients: baseline and progressive, any sampling, any division into scans.
use crate::forge::B;
use crate::jpegmodel::zigzag;

#[derive(Clone, Debug)]
pub struct Part {
    pub id: u8,
    pub h: usize,
    pub v: usize,
    pub tq: u8,
    /// Blocks in natural order of coefficients, row by row of the padded plane.
    pub blocks: Vec<[i32; 64]>,
}
/// A scan: components, first and last coefficient, high and low bit of the successive approximation.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Scan(pub Vec<usize>, pub usize, pub usize, pub u32, pub u32);
#[derive(Clone, Debug)]
pub struct Jpeg {
    pub w: usize,
    pub h: usize,
    pub parts: Vec<Part>,
    pub quant: Vec<[u16; 64]>,
    pub jfif: bool,
    pub adobe: Option<u8>,
    pub restart: u16,
    /// 0xC0, 0xC1 or 0xC2
    pub sof: u8,
    pub scans: Vec<Scan>,
    /// Code lengths: short codes for the first symbols.
    pub skew: bool,
    /// Tables of 16-bit quantisers.
    pub wide: bool,
    /// Other segments before the frame.
    pub before: Vec<(u8, Vec<u8>)>,
    /// Fill bytes (0xFF) before markers.
    pub pad: usize,
}
struct Code {
    lens: [u8; 16],
    syms: Vec<u8>,
}
impl Code {
    fn new(syms: Vec<u8>, skew: bool) -> Code {
        let mut lens = [0u8; 16];
        let mut left = syms.len();
        let mut base = 0;
        if skew {
            while left > 1 && base < 5 {
                lens[base] = 1;
                base += 1;
                left -= 1;
            }
        }
        // the rest equally long, with the code of all ones unused
        let k = (1..).find(|k| (1usize << k) > left).unwrap();
        lens[base + k - 1] += left as u8;
        Code { lens, syms }
    }
    fn find(&self, s: u8) -> (u32, u32) {
        let (mut code, mut i) = (0u32, 0);
        for l in 0..16 {
            code <<= 1;
            for _ in 0..self.lens[l] {
                if self.syms[i] == s {
                    return (code, l as u32 + 1);
                }
                code += 1;
                i += 1;
            }
        }
        panic!("no symbol {s}")
    }
}
#[derive(Default)]
struct Bits {
    out: Vec<u8>,
    acc: u32,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.acc = self.acc << 1 | v >> i & 1;
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                if self.acc as u8 == 0xFF {
                    self.out.push(0);
                }
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    fn flush(&mut self) {
        while self.n > 0 {
            self.put(1, 1);
        }
    }
}
fn size(v: i32) -> u32 {
    32 - v.unsigned_abs().leading_zeros()
}
fn bits(v: i32, n: u32) -> u32 {
    (if v < 0 { v - 1 } else { v }) as u32 & ((1u64 << n) - 1) as u32
}
impl Jpeg {
    pub fn max(&self) -> (usize, usize) {
        (self.parts.iter().map(|p| p.h).max().unwrap(), self.parts.iter().map(|p| p.v).max().unwrap())
    }
    /// Blocks across and down of the padded plane of a component.
    pub fn plane(&self, h: usize, v: usize) -> (usize, usize) {
        let (mh, mv) = self.max();
        (self.w.div_ceil(8 * mh) * h, self.h.div_ceil(8 * mv) * v)
    }
    pub fn file(&self) -> Vec<u8> {
        let mut b = B::default();
        b.raw(&[0xFF, 0xD8]);
        let pad = self.pad;
        let seg = |b: &mut B, m: u8, d: &[u8]| {
            b.raw(&vec![0xFF; pad]);
            b.raw(&[0xFF, m]).be16(d.len() as u16 + 2).raw(d);
        };
        if self.jfif {
            seg(&mut b, 0xE0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0");
        }
        if let Some(t) = self.adobe {
            seg(&mut b, 0xEE, &[b'A', b'd', b'o', b'b', b'e', 0, 100, 0, 0, 0, 0, t]);
        }
        for (m, d) in &self.before {
            seg(&mut b, *m, d);
        }
        let zz = zigzag();
        for (i, q) in self.quant.iter().enumerate() {
            let mut d = vec![i as u8 | (self.wide as u8) << 4];
            for k in 0..64 {
                if self.wide {
                    d.extend(q[zz[k]].to_be_bytes());
                } else {
                    d.push(q[zz[k]] as u8);
                }
            }
            seg(&mut b, 0xDB, &d);
        }
        let mut d = B::default();
        d.u8(8).be16(self.h as u16).be16(self.w as u16).u8(self.parts.len() as u8);
        for p in &self.parts {
            d.u8(p.id).u8((p.h << 4 | p.v) as u8).u8(p.tq);
        }
        seg(&mut b, self.sof, &d.0);
        if self.restart > 0 {
            seg(&mut b, 0xDD, &self.restart.to_be_bytes());
        }
        for s in &self.scans {
            self.scan(&mut b, s, &seg);
        }
        b.raw(&[0xFF, 0xD9]);
        b.0
    }
    fn scan(&self, b: &mut B, s: &Scan, seg: &dyn Fn(&mut B, u8, &[u8])) {
        let zz = zigzag();
        let (dc, ac) = (Code::new((0..=11).collect(), self.skew), Code::new((0..=255u8).filter(|v| v & 15 <= 10 && (v & 15 != 0 || *v <= 0xE0 || *v == 0xF0)).collect(), self.skew));
        let table = |b: &mut B, c: &Code, class: u8| {
            let mut d = vec![class << 4];
            d.extend(c.lens);
            d.extend(&c.syms);
            seg(b, 0xC4, &d);
        };
        if s.1 == 0 {
            table(b, &dc, 0);
        }
        if s.2 > 0 {
            table(b, &ac, 1);
        }
        let mut d = vec![s.0.len() as u8];
        for c in &s.0 {
            d.extend([self.parts[*c].id, 0]);
        }
        d.extend([s.1 as u8, s.2 as u8, (s.3 << 4 | s.4) as u8]);
        seg(b, 0xDA, &d);
        let (mh, mv) = self.max();
        // the order of the blocks
        let mut mcus: Vec<Vec<(usize, usize)>> = vec![];
        if s.0.len() == 1 {
            let c = s.0[0];
            let p = &self.parts[c];
            let bw = self.plane(p.h, p.v).0;
            let (cw, ch) = ((self.w * p.h).div_ceil(mh).div_ceil(8), (self.h * p.v).div_ceil(mv).div_ceil(8));
            for y in 0..ch {
                for x in 0..cw {
                    mcus.push(vec![(c, y * bw + x)]);
                }
            }
        } else {
            for my in 0..self.h.div_ceil(8 * mv) {
                for mx in 0..self.w.div_ceil(8 * mh) {
                    let mut m = vec![];
                    for c in &s.0 {
                        let p = &self.parts[*c];
                        let bw = self.plane(p.h, p.v).0;
                        for y in 0..p.v {
                            for x in 0..p.h {
                                m.push((*c, (my * p.v + y) * bw + mx * p.h + x));
                            }
                        }
                    }
                    mcus.push(m);
                }
            }
        }
        let mut o = Bits::default();
        let mut prev = vec![0i32; self.parts.len()];
        let mut run = 0; // blocks of an end-of-band run
        let mut band_flush = |o: &mut Bits, run: &mut u32| {
            if *run > 0 {
                let k = 31 - run.leading_zeros();
                let (c, n) = ac.find((k << 4) as u8);
                o.put(c, n);
                o.put(*run & ((1 << k) - 1), k);
                *run = 0;
            }
        };
        for (i, m) in mcus.iter().enumerate() {
            if self.restart > 0 && i > 0 && i % self.restart as usize == 0 {
                band_flush(&mut o, &mut run);
                o.flush();
                o.out.extend(vec![0xFF; self.pad]);
                o.out.extend([0xFF, 0xD0 + (i / self.restart as usize - 1) as u8 % 8]);
                prev.iter_mut().for_each(|v| *v = 0);
            }
            for (c, at) in m {
                let q = &self.parts[*c].blocks[*at];
                if s.1 == 0 {
                    if s.3 > 0 {
                        // one more bit of a DC coefficient
                        o.put((q[0] >> s.4) as u32 & 1, 1);
                    } else {
                        let v = q[0] >> s.4;
                        let d = v - prev[*c];
                        prev[*c] = v;
                        let n = size(d);
                        let (c, k) = dc.find(n as u8);
                        o.put(c, k);
                        o.put(bits(d, n), n);
                    }
                }
                if s.2 == 0 {
                    continue;
                }
                // AC coefficients (no refinement)
                let mut zeros = 0;
                let first = s.1.max(1);
                let val = |k: usize| {
                    let v = q[zz[k]];
                    if v < 0 { -(-v >> s.4) } else { v >> s.4 }
                };
                let last = (first..=s.2).rev().find(|k| val(*k) != 0);
                for k in first..=last.unwrap_or(0) {
                    let v = val(k);
                    if v == 0 {
                        zeros += 1;
                        continue;
                    }
                    band_flush(&mut o, &mut run);
                    while zeros > 15 {
                        let (c, n) = ac.find(0xF0);
                        o.put(c, n);
                        zeros -= 16;
                    }
                    let n = size(v);
                    let (c, l) = ac.find((zeros << 4) as u8 | n as u8);
                    o.put(c, l);
                    o.put(bits(v, n), n);
                    zeros = 0;
                }
                if last != Some(s.2) {
                    if self.sof == 0xC2 {
                        run += 1;
                        if run == 0x7FFF {
                            band_flush(&mut o, &mut run);
                        }
                    } else {
                        let (c, n) = ac.find(0);
                        o.put(c, n);
                    }
                }
            }
        }
        band_flush(&mut o, &mut run);
        o.flush();
        b.raw(&o.out);
        b.raw(&vec![0xFF; self.pad]);
    }
}
