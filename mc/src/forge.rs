//! Independent writers: build files field by field from the formats' definitions, without any code
//! of the crate under test.

#[derive(Default, Clone)]
pub struct B(pub Vec<u8>);
impl B {
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.0.push(v);
        self
    }
    pub fn le16(&mut self, v: u16) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn le32(&mut self, v: u32) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn be16(&mut self, v: u16) -> &mut Self {
        self.0.extend(v.to_be_bytes());
        self
    }
    pub fn be32(&mut self, v: u32) -> &mut Self {
        self.0.extend(v.to_be_bytes());
        self
    }
    pub fn raw(&mut self, v: &[u8]) -> &mut Self {
        self.0.extend_from_slice(v);
        self
    }
}

// ---- BMP -----------------------------------------------------------------------------------------

/// `hdr`: 12 (core), 40 (info), 52 (V2), 56 (V3), 108 (V4), 124 (V5).
#[derive(Clone, Debug)]
pub struct Bmp {
    pub hdr: u32,
    pub w: i32,
    pub h: i32,
    pub bpp: u16,
    pub comp: u32,
    pub palette: Vec<[u8; 3]>,
    pub masks: [u32; 4],
    pub clrs_used: u32,
    pub gap: usize,
    pub data: Vec<u8>,
}
impl Bmp {
    pub fn new(hdr: u32, w: i32, h: i32, bpp: u16, comp: u32) -> Bmp {
        Bmp { hdr, w, h, bpp, comp, palette: vec![], masks: [0; 4], clrs_used: 0, gap: 0, data: vec![] }
    }
    /// The information header, masks and palette (what an ICO entry or a clipboard DIB starts with).
    pub fn dib_head(&self) -> Vec<u8> {
        let mut b = B::default();
        b.le32(self.hdr);
        if self.hdr == 12 {
            b.le16(self.w as u16).le16(self.h as u16).le16(1).le16(self.bpp);
        } else {
            b.le32(self.w as u32).le32(self.h as u32).le16(1).le16(self.bpp).le32(self.comp).le32(0).le32(2835).le32(2835).le32(self.clrs_used).le32(0);
            let nm = match self.hdr {
                40 => match self.comp {
                    3 => 3,
                    6 => 4,
                    _ => 0,
                },
                52 => 3,
                _ => 4,
            };
            for m in &self.masks[..nm] {
                b.le32(*m);
            }
            while self.hdr > 56 && b.0.len() < self.hdr as usize {
                b.u8(0);
            }
        }
        for p in &self.palette {
            b.u8(p[2]).u8(p[1]).u8(p[0]);
            if self.hdr != 12 {
                b.u8(0);
            }
        }
        b.0
    }
    pub fn dib(&self) -> Vec<u8> {
        let mut v = self.dib_head();
        v.extend(std::iter::repeat(0xEE).take(self.gap));
        v.extend_from_slice(&self.data);
        v
    }
    pub fn file(&self) -> Vec<u8> {
        let head = self.dib_head();
        let mut b = B::default();
        let off = 14 + head.len() + self.gap;
        b.raw(b"BM").le32((off + self.data.len()) as u32).le32(0).le32(off as u32);
        b.raw(&self.dib());
        b.0
    }
}
/// Packs rows of `bits`-wide values MSB first, rows padded to `align` bytes.
pub fn pack_bits(rows: &[Vec<u32>], bits: u32, align: usize) -> Vec<u8> {
    let mut out = vec![];
    for r in rows {
        let start = out.len();
        let mut acc = 0u32;
        let mut n = 0;
        for v in r {
            acc = (acc << bits) | v;
            n += bits;
            if n == 8 {
                out.push(acc as u8);
                acc = 0;
                n = 0;
            }
        }
        if n > 0 {
            out.push((acc << (8 - n)) as u8);
        }
        while (out.len() - start) % align != 0 {
            out.push(0);
        }
    }
    out
}
/// Little-endian values of `bytes` each, rows padded to 4.
pub fn pack_le(rows: &[Vec<u32>], bytes: usize) -> Vec<u8> {
    let mut out = vec![];
    for r in rows {
        let start = out.len();
        for v in r {
            out.extend_from_slice(&v.to_le_bytes()[..bytes]);
        }
        while (out.len() - start) % 4 != 0 {
            out.push(0);
        }
    }
    out
}

// ---- TGA -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct Tga {
    pub id: Vec<u8>,
    pub map_type: u8,
    pub image_type: u8,
    pub map_origin: u16,
    pub map_length: u16,
    pub map_entry: u8,
    pub x: u16,
    pub y: u16,
    pub w: u16,
    pub h: u16,
    pub depth: u8,
    pub desc: u8,
    pub map: Vec<u8>,
    pub data: Vec<u8>,
}
impl Tga {
    pub fn file(&self) -> Vec<u8> {
        let mut b = B::default();
        b.u8(self.id.len() as u8).u8(self.map_type).u8(self.image_type);
        b.le16(self.map_origin).le16(self.map_length).u8(self.map_entry);
        b.le16(self.x).le16(self.y).le16(self.w).le16(self.h).u8(self.depth).u8(self.desc);
        b.raw(&self.id).raw(&self.map).raw(&self.data);
        b.0
    }
}

// ---- DDS -----------------------------------------------------------------------------------------

pub fn dds(fourcc: &[u8; 4], w: u32, h: u32, dxgi: Option<u32>, data: &[u8]) -> Vec<u8> {
    let mut b = B::default();
    b.raw(b"DDS ").le32(124).le32(0x1 | 0x2 | 0x4 | 0x1000 | 0x80000).le32(h).le32(w).le32(data.len() as u32).le32(0).le32(0);
    b.raw(&[0; 44]);
    b.le32(32).le32(4).raw(fourcc).le32(0).le32(0).le32(0).le32(0).le32(0);
    b.le32(0x1000).le32(0).raw(&[0; 12]);
    if let Some(d) = dxgi {
        b.le32(d).le32(3).le32(0).le32(1).le32(0);
    }
    b.raw(data);
    b.0
}

// ---- ICO -----------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct IcoEntry {
    pub w: u8,
    pub h: u8,
    pub planes: u16,
    pub bpp: u16,
    pub payload: Vec<u8>,
    /// Added to the length recorded in the directory.
    pub len_delta: i64,
}
pub fn ico(entries: &[IcoEntry]) -> Vec<u8> {
    let mut b = B::default();
    b.le16(0).le16(1).le16(entries.len() as u16);
    let mut off = 6 + 16 * entries.len();
    for e in entries {
        b.u8(e.w).u8(e.h).u8(0).u8(0).le16(e.planes).le16(e.bpp);
        b.le32((e.payload.len() as i64 + e.len_delta) as u32).le32(off as u32);
        off += e.payload.len();
    }
    for e in entries {
        b.raw(&e.payload);
    }
    b.0
}
/// The AND mask of an icon, bottom-up rows padded to 4 bytes; `m[y][x]` from the top.
pub fn and_mask(m: &[Vec<bool>]) -> Vec<u8> {
    let rows: Vec<Vec<u32>> = m.iter().rev().map(|r| r.iter().map(|b| *b as u32).collect()).collect();
    pack_bits(&rows, 1, 4)
}

// ---- GIF -----------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct GifFrame {
    pub x: u16,
    pub y: u16,
    pub w: u16,
    pub h: u16,
    /// 0 any, 1 keep, 2 background, 3 previous; 255: write no graphic control extension.
    pub dispose: u8,
    pub transparent: Option<u8>,
    pub delay: u16,
    pub local: Option<Vec<[u8; 3]>>,
    pub interlaced: bool,
    pub pixels: Vec<u8>,
}
fn color_bits(n: usize) -> u8 {
    let mut b = 1;
    while (1usize << b) < n {
        b += 1;
    }
    b
}
fn color_table(out: &mut B, t: &[[u8; 3]]) {
    let n = 1usize << color_bits(t.len());
    for i in 0..n {
        let p = t.get(i).copied().unwrap_or([0, 0, 0]);
        out.raw(&p);
    }
}
fn lzw(min: u8, px: &[u8]) -> Vec<u8> {
    // Clear often enough that the code width never grows.
    let width = min as u32 + 1;
    let clear = 1u32 << min;
    let mut acc = 0u64;
    let mut n = 0;
    let mut out = vec![];
    let mut put = |v: u32, out: &mut Vec<u8>| {
        acc |= (v as u64) << n;
        n += width;
        while n >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            n -= 8;
        }
    };
    let every = (1usize << min) - 2;
    let every = every.max(1);
    for (i, p) in px.iter().enumerate() {
        if i % every == 0 {
            put(clear, &mut out);
        }
        put(*p as u32, &mut out);
    }
    if px.is_empty() {
        put(clear, &mut out);
    }
    put(clear + 1, &mut out);
    // flush
    put(0, &mut out);
    out
}
pub fn gif(w: u16, h: u16, global: Option<&[[u8; 3]]>, bg: u8, loops: Option<u16>, frames: &[GifFrame]) -> Vec<u8> {
    let mut b = B::default();
    b.raw(b"GIF89a").le16(w).le16(h);
    match global {
        Some(g) => {
            b.u8(0x80 | 0x70 | (color_bits(g.len()) - 1)).u8(bg).u8(0);
            color_table(&mut b, g);
        }
        None => {
            b.u8(0x70).u8(bg).u8(0);
        }
    }
    if let Some(l) = loops {
        b.raw(&[0x21, 0xFF, 11]).raw(b"NETSCAPE2.0").raw(&[3, 1]).le16(l).u8(0);
    }
    for f in frames {
        if f.dispose != 255 {
            b.raw(&[0x21, 0xF9, 4]).u8((f.dispose << 2) | f.transparent.is_some() as u8).le16(f.delay).u8(f.transparent.unwrap_or(0)).u8(0);
        }
        b.u8(0x2C).le16(f.x).le16(f.y).le16(f.w).le16(f.h);
        let il = if f.interlaced { 0x40 } else { 0 };
        let n = match &f.local {
            Some(l) => {
                b.u8(0x80 | il | (color_bits(l.len()) - 1));
                color_table(&mut b, l);
                l.len()
            }
            None => {
                b.u8(il);
                global.map(|g| g.len()).unwrap_or(4)
            }
        };
        let min = color_bits(n).max(2);
        b.u8(min);
        let px: Vec<u8> = if f.interlaced {
            let mut order = vec![];
            for (s, d) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
                let mut y = s;
                while y < f.h as usize {
                    order.push(y);
                    y += d;
                }
            }
            order.iter().flat_map(|y| f.pixels[y * f.w as usize..(y + 1) * f.w as usize].to_vec()).collect()
        } else {
            f.pixels.clone()
        };
        for c in lzw(min, &px).chunks(255) {
            b.u8(c.len() as u8).raw(c);
        }
        b.u8(0);
    }
    b.u8(0x3B);
    b.0
}

// ---- PNG -----------------------------------------------------------------------------------------

pub fn crc32(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}
pub fn zlib(d: &[u8]) -> Vec<u8> {
    let mut b = B::default();
    b.u8(0x78).u8(1);
    let mut it = d.chunks(65535).peekable();
    if d.is_empty() {
        b.u8(1).le16(0).le16(!0);
    }
    while let Some(c) = it.next() {
        b.u8(it.peek().is_none() as u8).le16(c.len() as u16).le16(!(c.len() as u16)).raw(c);
    }
    let (mut s1, mut s2) = (1u32, 0u32);
    for x in d {
        s1 = (s1 + *x as u32) % 65521;
        s2 = (s2 + s1) % 65521;
    }
    b.be32(s2 << 16 | s1);
    b.0
}
pub fn chunk(out: &mut B, ty: &[u8; 4], d: &[u8]) {
    out.be32(d.len() as u32);
    let mut c = ty.to_vec();
    c.extend_from_slice(d);
    let k = crc32(&c);
    out.raw(&c).be32(k);
}
pub const PNG_SIG: [u8; 8] = [137, 80, 78, 71, 13, 10, 26, 10];
/// Rows of packed bytes -> filtered (type 0) and compressed.
pub fn idat(rows: &[Vec<u8>]) -> Vec<u8> {
    let mut r = vec![];
    for x in rows {
        r.push(0);
        r.extend_from_slice(x);
    }
    zlib(&r)
}
pub fn png(w: u32, h: u32, depth: u8, color: u8, extra: &[(&[u8; 4], Vec<u8>)], rows: &[Vec<u8>]) -> Vec<u8> {
    let mut b = B::default();
    b.raw(&PNG_SIG);
    let mut i = B::default();
    i.be32(w).be32(h).u8(depth).u8(color).raw(&[0, 0, 0]);
    chunk(&mut b, b"IHDR", &i.0);
    for (t, d) in extra {
        chunk(&mut b, t, d);
    }
    chunk(&mut b, b"IDAT", &idat(rows));
    chunk(&mut b, b"IEND", &[]);
    b.0
}
#[derive(Clone, Debug)]
pub struct ApngFrame {
    pub x: u32,
    pub y: u32,
    pub w: u32,
    pub h: u32,
    /// 0 none, 1 background, 2 previous
    pub dispose: u8,
    /// 0 source, 1 over
    pub blend: u8,
    pub num: u16,
    pub den: u16,
    /// Packed rows, already in the colour type's layout.
    pub rows: Vec<Vec<u8>>,
}
/// `default_image`: rows of a default image that is not part of the animation.
pub fn apng(w: u32, h: u32, depth: u8, color: u8, extra: &[(&[u8; 4], Vec<u8>)], default_image: Option<&[Vec<u8>]>, frames: &[ApngFrame]) -> Vec<u8> {
    let mut b = B::default();
    b.raw(&PNG_SIG);
    let mut i = B::default();
    i.be32(w).be32(h).u8(depth).u8(color).raw(&[0, 0, 0]);
    chunk(&mut b, b"IHDR", &i.0);
    let mut a = B::default();
    a.be32(frames.len() as u32).be32(0);
    chunk(&mut b, b"acTL", &a.0);
    for (t, d) in extra {
        chunk(&mut b, t, d);
    }
    let mut seq = 0;
    if let Some(d) = default_image {
        chunk(&mut b, b"IDAT", &idat(d));
    }
    for (k, f) in frames.iter().enumerate() {
        let mut c = B::default();
        c.be32(seq).be32(f.w).be32(f.h).be32(f.x).be32(f.y).be16(f.num).be16(f.den).u8(f.dispose).u8(f.blend);
        seq += 1;
        chunk(&mut b, b"fcTL", &c.0);
        if k == 0 && default_image.is_none() {
            chunk(&mut b, b"IDAT", &idat(&f.rows));
        } else {
            let mut d = B::default();
            d.be32(seq).raw(&idat(&f.rows));
            seq += 1;
            chunk(&mut b, b"fdAT", &d.0);
        }
    }
    chunk(&mut b, b"IEND", &[]);
    b.0
}

// ---- TIFF ----------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Tiff {
    pub big_endian: bool,
    pub w: u32,
    pub h: u32,
    pub bits: Vec<u16>,
    pub photometric: u16,
    pub sample_format: Option<u16>,
    pub extra_samples: Option<u16>,
    pub orientation: Option<u16>,
    pub icc: Option<Vec<u8>>,
    pub rows_per_strip: u32,
    /// Raw strip data in file byte order.
    pub strips: Vec<Vec<u8>>,
}
impl Tiff {
    pub fn file(&self) -> Vec<u8> {
        let be = self.big_endian;
        let e16 = |v: u16| if be { v.to_be_bytes() } else { v.to_le_bytes() };
        let e32 = |v: u32| if be { v.to_be_bytes() } else { v.to_le_bytes() };
        let mut out: Vec<u8> = if be { b"MM".to_vec() } else { b"II".to_vec() };
        out.extend(e16(42));
        out.extend([0; 4]);
        let mut offs = vec![];
        for s in &self.strips {
            offs.push(out.len() as u32);
            out.extend_from_slice(s);
            if out.len() % 2 == 1 {
                out.push(0);
            }
        }
        // (tag, type, values as bytes, count)
        let mut tags: Vec<(u16, u16, Vec<u8>, u32)> = vec![];
        let short = |v: &[u16]| v.iter().flat_map(|x| e16(*x)).collect::<Vec<u8>>();
        let long = |v: &[u32]| v.iter().flat_map(|x| e32(*x)).collect::<Vec<u8>>();
        tags.push((256, 4, long(&[self.w]), 1));
        tags.push((257, 4, long(&[self.h]), 1));
        tags.push((258, 3, short(&self.bits), self.bits.len() as u32));
        tags.push((259, 3, short(&[1]), 1));
        tags.push((262, 3, short(&[self.photometric]), 1));
        tags.push((273, 4, long(&offs), offs.len() as u32));
        if let Some(o) = self.orientation {
            tags.push((274, 3, short(&[o]), 1));
        }
        tags.push((277, 3, short(&[self.bits.len() as u16]), 1));
        tags.push((278, 4, long(&[self.rows_per_strip]), 1));
        tags.push((279, 4, long(&self.strips.iter().map(|s| s.len() as u32).collect::<Vec<_>>()), self.strips.len() as u32));
        if let Some(e) = self.extra_samples {
            tags.push((338, 3, short(&[e]), 1));
        }
        if let Some(f) = self.sample_format {
            tags.push((339, 3, short(&vec![f; self.bits.len()]), self.bits.len() as u32));
        }
        if let Some(i) = &self.icc {
            tags.push((34675, 7, i.clone(), i.len() as u32));
        }
        let ifd = out.len() as u32;
        let mut extra = ifd + 2 + 12 * tags.len() as u32 + 4;
        let mut tail = vec![];
        out.extend(e16(tags.len() as u16));
        for (t, ty, v, n) in &tags {
            out.extend(e16(*t));
            out.extend(e16(*ty));
            out.extend(e32(*n));
            if v.len() <= 4 {
                let mut v = v.clone();
                v.resize(4, 0);
                out.extend(v);
            } else {
                out.extend(e32(extra));
                tail.extend_from_slice(v);
                extra += v.len() as u32;
                if v.len() % 2 == 1 {
                    tail.push(0);
                    extra += 1;
                }
            }
        }
        out.extend([0; 4]);
        out.extend(tail);
        out[4..8].copy_from_slice(&e32(ifd));
        out
    }
}

// ---- WebP container --------------------------------------------------------------------------------

fn riff_chunk(b: &mut B, id: &[u8; 4], d: &[u8]) {
    b.raw(id).le32(d.len() as u32).raw(d);
    if d.len() % 2 == 1 {
        b.u8(0);
    }
}
fn le24(b: &mut B, v: u32) {
    b.raw(&v.to_le_bytes()[..3]);
}
/// The single image chunk (VP8L or VP8) of a simple WebP file, with its header.
pub fn webp_payload(file: &[u8]) -> Vec<u8> {
    file[12..].to_vec()
}
pub struct WebpFrame {
    pub x: u32,
    pub y: u32,
    pub w: u32,
    pub h: u32,
    pub ms: u32,
    pub dispose: bool,
    pub no_blend: bool,
    /// A complete image chunk.
    pub chunk: Vec<u8>,
}
pub fn webp_ext(w: u32, h: u32, flags: u8, icc: Option<&[u8]>, anim: Option<(u32, u16, &[WebpFrame])>, image: Option<&[u8]>, exif: Option<&[u8]>) -> Vec<u8> {
    let mut b = B::default();
    let mut x = B::default();
    x.u8(flags).raw(&[0; 3]);
    le24(&mut x, w - 1);
    le24(&mut x, h - 1);
    riff_chunk(&mut b, b"VP8X", &x.0);
    if let Some(i) = icc {
        riff_chunk(&mut b, b"ICCP", i);
    }
    if let Some((bg, loops, frames)) = anim {
        let mut a = B::default();
        a.le32(bg).le16(loops);
        riff_chunk(&mut b, b"ANIM", &a.0);
        for f in frames {
            let mut c = B::default();
            le24(&mut c, f.x / 2);
            le24(&mut c, f.y / 2);
            le24(&mut c, f.w - 1);
            le24(&mut c, f.h - 1);
            le24(&mut c, f.ms);
            c.u8((f.no_blend as u8) << 1 | f.dispose as u8);
            c.raw(&f.chunk);
            riff_chunk(&mut b, b"ANMF", &c.0);
        }
    }
    if let Some(i) = image {
        b.raw(i);
    }
    if let Some(e) = exif {
        riff_chunk(&mut b, b"EXIF", e);
    }
    let mut o = B::default();
    o.raw(b"RIFF").le32(b.0.len() as u32 + 4).raw(b"WEBP").raw(&b.0);
    o.0
}

// ---- Radiance ---------------------------------------------------------------------------------------

pub fn hdr(header_lines: &[&str], w: u32, h: u32, data: &[u8]) -> Vec<u8> {
    let mut v = b"#?RADIANCE\n".to_vec();
    for l in header_lines {
        v.extend_from_slice(l.as_bytes());
        v.push(b'\n');
    }
    v.extend_from_slice(format!("\n-Y {h} +X {w}\n").as_bytes());
    v.extend_from_slice(data);
    v
}
/// A new-style run-length coded scanline; `runs` per channel: (is_run, bytes).
pub fn hdr_rle_line(w: u16, chan: [&[u8]; 4], split: &dyn Fn(&[u8]) -> Vec<u8>) -> Vec<u8> {
    let mut v = vec![2, 2, (w >> 8) as u8, w as u8];
    for c in chan {
        v.extend(split(c));
    }
    v
}

// ---- deflate and full PNG layouts ------------------------------------------------------------------

/// How the bytes of a zlib stream are coded.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Deflate {
    /// Stored blocks of at most this many bytes.
    Stored(usize),
    /// One block with the fixed Huffman code, literals only.
    Literals,
    /// One block with the fixed Huffman code, greedy matches at any of the given distances.
    Matches(&'static [usize]),
}
struct Bits {
    out: Vec<u8>,
    acc: u32,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u32, n: u32) {
        for i in 0..n {
            self.acc |= (v >> i & 1) << self.n;
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    /// Huffman codes go most significant bit first.
    fn code(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.put(v >> i & 1, 1);
        }
    }
    fn sym(&mut self, s: u32) {
        match s {
            0..=143 => self.code(0x30 + s, 8),
            144..=255 => self.code(0x190 + s - 144, 9),
            256..=279 => self.code(s - 256, 7),
            _ => self.code(0xC0 + s - 280, 8),
        }
    }
    fn matched(&mut self, len: usize, dist: usize) {
        // (base, extra bits) in order of the symbols
        let mut base = 3;
        let mut sym = 257;
        if len == 258 {
            self.sym(285);
        } else {
            for k in 0..28 {
                let extra = if k < 8 { 0 } else { (k - 4) / 4 };
                if len < base + (1 << extra) {
                    self.sym(sym);
                    self.put((len - base) as u32, extra);
                    break;
                }
                base += 1 << extra;
                sym += 1;
            }
        }
        let mut base = 1;
        for k in 0..30u32 {
            let extra = if k < 4 { 0 } else { (k - 2) / 2 };
            if dist < base + (1 << extra) {
                self.code(k, 5);
                self.put((dist - base) as u32, extra);
                break;
            }
            base += 1 << extra;
        }
    }
}
pub fn adler(d: &[u8]) -> u32 {
    let (mut s1, mut s2) = (1u32, 0u32);
    for x in d {
        s1 = (s1 + *x as u32) % 65521;
        s2 = (s2 + s1) % 65521;
    }
    s2 << 16 | s1
}
pub fn zlib_with(d: &[u8], how: Deflate) -> Vec<u8> {
    let mut b = B::default();
    b.u8(0x78).u8(1);
    match how {
        Deflate::Stored(n) => {
            let mut it = d.chunks(n.min(65535)).peekable();
            if d.is_empty() {
                b.u8(1).le16(0).le16(!0);
            }
            while let Some(c) = it.next() {
                b.u8(it.peek().is_none() as u8).le16(c.len() as u16).le16(!(c.len() as u16)).raw(c);
            }
        }
        _ => {
            let mut o = Bits { out: vec![], acc: 0, n: 0 };
            o.put(1, 1);
            o.put(1, 2);
            let mut i = 0;
            while i < d.len() {
                let mut best = (0, 0);
                if let Deflate::Matches(ds) = how {
                    for &k in ds {
                        if k > i || k > 32768 {
                            continue;
                        }
                        let n = (0..(d.len() - i).min(258)).take_while(|j| d[i + j] == d[i + j - k]).count();
                        if n > best.0 {
                            best = (n, k);
                        }
                    }
                }
                if best.0 >= 3 {
                    o.matched(best.0, best.1);
                    i += best.0;
                } else {
                    o.sym(d[i] as u32);
                    i += 1;
                }
            }
            o.sym(256);
            if o.n > 0 {
                o.put(0, 8 - o.n);
            }
            b.raw(&o.out);
        }
    }
    b.be32(adler(d));
    b.0
}

/// A PNG image of any layout: `px[y][x]` holds the raw samples of a pixel.
#[derive(Clone, Debug)]
pub struct Png {
    pub w: u32,
    pub h: u32,
    pub depth: u8,
    pub color: u8,
    pub interlace: bool,
    pub px: Vec<Vec<Vec<u16>>>,
    /// Filter types, used cyclically by row (counting through the passes).
    pub filters: Vec<u8>,
    pub deflate: Deflate,
    /// Sizes the image data is cut into, used cyclically (0: an empty chunk); empty: one chunk.
    pub idat: Vec<usize>,
    pub before: Vec<([u8; 4], Vec<u8>)>,
    pub after: Vec<([u8; 4], Vec<u8>)>,
}
impl Png {
    pub fn channels(color: u8) -> usize {
        match color {
            0 | 3 => 1,
            2 => 3,
            4 => 2,
            _ => 4,
        }
    }
    pub fn new(w: u32, h: u32, depth: u8, color: u8, mut f: impl FnMut(u32, u32, usize) -> u16) -> Png {
        let n = Self::channels(color);
        let px = (0..h).map(|y| (0..w).map(|x| (0..n).map(|c| f(x, y, c)).collect()).collect()).collect();
        Png { w, h, depth, color, interlace: false, px, filters: vec![0], deflate: Deflate::Stored(65535), idat: vec![], before: vec![], after: vec![] }
    }
    /// The filtered bytes of all passes.
    pub fn stream(&self) -> Vec<u8> {
        let passes: Vec<(usize, usize, usize, usize)> =
            if self.interlace { vec![(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)] } else { vec![(0, 0, 1, 1)] };
        let bpp = (Self::channels(self.color) * self.depth as usize).div_ceil(8);
        let mut out = vec![];
        let mut k = 0;
        for (x0, y0, dx, dy) in passes {
            let xs: Vec<usize> = (x0..self.w as usize).step_by(dx).collect();
            if xs.is_empty() {
                continue;
            }
            let mut prev: Vec<u8> = vec![];
            for y in (y0..self.h as usize).step_by(dy) {
                let mut row = vec![];
                if self.depth == 16 {
                    for &x in &xs {
                        for s in &self.px[y][x] {
                            row.extend(s.to_be_bytes());
                        }
                    }
                } else {
                    let (mut acc, mut n) = (0u32, 0);
                    for &x in &xs {
                        for s in &self.px[y][x] {
                            acc = acc << self.depth | *s as u32;
                            n += self.depth as u32;
                            if n == 8 {
                                row.push(acc as u8);
                                acc = 0;
                                n = 0;
                            }
                        }
                    }
                    if n > 0 {
                        row.push((acc << (8 - n)) as u8);
                    }
                }
                prev.resize(row.len(), 0);
                let f = self.filters[k % self.filters.len()];
                k += 1;
                out.push(f);
                for i in 0..row.len() {
                    let a = if i >= bpp { row[i - bpp] } else { 0 } as i32;
                    let b = prev[i] as i32;
                    let c = if i >= bpp { prev[i - bpp] } else { 0 } as i32;
                    let p = match f {
                        0 => 0,
                        1 => a,
                        2 => b,
                        3 => (a + b) / 2,
                        _ => {
                            let p = a + b - c;
                            let (pa, pb, pc) = ((p - a).abs(), (p - b).abs(), (p - c).abs());
                            if pa <= pb && pa <= pc {
                                a
                            } else if pb <= pc {
                                b
                            } else {
                                c
                            }
                        }
                    };
                    out.push(row[i].wrapping_sub(p as u8));
                }
                prev = row;
            }
        }
        out
    }
    pub fn header(&self) -> Vec<u8> {
        let mut i = B::default();
        i.be32(self.w).be32(self.h).u8(self.depth).u8(self.color).raw(&[0, 0, self.interlace as u8]);
        i.0
    }
    /// The file, and where the data of its last IDAT chunk ends.
    pub fn file_end(&self) -> (Vec<u8>, usize) {
        let mut b = B::default();
        b.raw(&PNG_SIG);
        chunk(&mut b, b"IHDR", &self.header());
        for (t, d) in &self.before {
            chunk(&mut b, t, d);
        }
        let z = zlib_with(&self.stream(), self.deflate);
        if self.idat.is_empty() {
            chunk(&mut b, b"IDAT", &z);
        } else {
            let mut i = 0;
            let mut k = 0;
            while i < z.len() {
                let n = self.idat[k % self.idat.len()].min(z.len() - i);
                k += 1;
                chunk(&mut b, b"IDAT", &z[i..i + n]);
                i += n;
            }
        }
        let end = b.0.len() - 4;
        for (t, d) in &self.after {
            chunk(&mut b, t, d);
        }
        chunk(&mut b, b"IEND", &[]);
        (b.0, end)
    }
    pub fn file(&self) -> Vec<u8> {
        self.file_end().0
    }
}

// ---- TIFF layouts --------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum TiffComp {
    None,
    PackBits,
    Lzw,
    Deflate,
    OldDeflate,
}
pub fn packbits(row: &[u8], longest: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < row.len() {
        let run = (i..row.len().min(i + longest)).take_while(|k| row[*k] == row[i]).count();
        if run >= 2 {
            o.push((1i32 - run as i32) as i8 as u8);
            o.push(row[i]);
            i += run;
        } else {
            let mut n = 1;
            while i + n < row.len() && n < longest && !(i + n + 1 < row.len() && row[i + n] == row[i + n + 1]) {
                n += 1;
            }
            o.push(n as u8 - 1);
            o.extend(&row[i..i + n]);
            i += n;
        }
    }
    o
}
/// TIFF's LZW: most significant bit first, codes grow one early.
pub fn tiff_lzw(d: &[u8]) -> Vec<u8> {
    use std::collections::HashMap;
    let (mut out, mut acc, mut n) = (vec![], 0u64, 0u32);
    let mut put = |c: u32, w: u32, out: &mut Vec<u8>| {
        acc = acc << w | c as u64;
        n += w;
        while n >= 8 {
            out.push((acc >> (n - 8)) as u8);
            n -= 8;
            acc &= (1 << n) - 1;
        }
        if c == 257 && n > 0 {
            out.push((acc << (8 - n)) as u8);
        }
    };
    let mut table: HashMap<(u32, u8), u32> = HashMap::new();
    let (mut next, mut w) = (258u32, 9u32);
    put(256, 9, &mut out);
    let mut cur: Option<u32> = None;
    for &b in d {
        let Some(c) = cur else {
            cur = Some(b as u32);
            continue;
        };
        if let Some(k) = table.get(&(c, b)) {
            cur = Some(*k);
            continue;
        }
        put(c, w, &mut out);
        table.insert((c, b), next);
        next += 1;
        if next == 4095 {
            put(256, w, &mut out);
            table.clear();
            next = 258;
            w = 9;
        } else if next == 1 << w {
            w += 1;
        }
        cur = Some(b as u32);
    }
    if let Some(c) = cur {
        put(c, w, &mut out);
        next += 1;
        if next == 1 << w && w < 12 {
            w += 1;
        }
    }
    put(257, w, &mut out);
    out
}
/// A TIFF of any layout: `px[y][x]` holds the samples of a pixel as they are in the file.
#[derive(Clone, Debug)]
pub struct TiffX {
    pub be: bool,
    pub big: bool,
    pub w: u32,
    pub h: u32,
    pub bits: u16,
    pub px: Vec<Vec<Vec<u16>>>,
    pub photometric: u16,
    pub comp: TiffComp,
    pub predictor: bool,
    /// None: no tag.
    pub rows_per_strip: Option<u32>,
    /// Tiles instead of strips.
    pub tile: Option<(u32, u32)>,
    pub planar: bool,
    /// 0: everything that can be is SHORT, 1: everything is LONG.
    pub long: bool,
    /// Data after (false) or before (true) the directory.
    pub ifd_first: bool,
    /// Tags that override (same number) or add to the others: (tag, type, count, bytes in file order of the values).
    pub tags: Vec<(u16, u16, u32, Vec<u8>)>,
    pub drop: Vec<u16>,
    pub next_ifd: u32,
}
impl TiffX {
    pub fn new(w: u32, h: u32, n: usize, bits: u16, photometric: u16, mut f: impl FnMut(u32, u32, usize) -> u16) -> TiffX {
        let px = (0..h).map(|y| (0..w).map(|x| (0..n).map(|c| f(x, y, c)).collect()).collect()).collect();
        TiffX { be: false, big: false, w, h, bits, px, photometric, comp: TiffComp::None, predictor: false, rows_per_strip: Some(h), tile: None, planar: false, long: false, ifd_first: false, tags: vec![], drop: vec![], next_ifd: 0 }
    }
    pub fn e16(&self, v: u16) -> [u8; 2] {
        if self.be { v.to_be_bytes() } else { v.to_le_bytes() }
    }
    pub fn e32(&self, v: u32) -> [u8; 4] {
        if self.be { v.to_be_bytes() } else { v.to_le_bytes() }
    }
    pub fn e64(&self, v: u64) -> [u8; 8] {
        if self.be { v.to_be_bytes() } else { v.to_le_bytes() }
    }
    fn samples(&self) -> usize {
        self.px[0][0].len()
    }
    /// The rows x0.., y0.. of a chunk (samples `cs`), coded.
    fn coded(&self, x0: u32, y0: u32, cw: u32, ch: u32, cs: &[usize]) -> Vec<u8> {
        let mut rows = vec![];
        for y in y0..y0 + ch {
            let mut row = vec![];
            let mut prev = vec![0u16; cs.len()];
            for x in x0..x0 + cw {
                for (k, &c) in cs.iter().enumerate() {
                    // what lies outside the image is padding
                    let v = self.px.get(y as usize).and_then(|r| r.get(x as usize)).map_or(0xA5, |p| p[c]);
                    let e = if self.predictor { v.wrapping_sub(prev[k]) } else { v };
                    prev[k] = v;
                    if self.bits == 16 { row.extend(self.e16(e)) } else { row.push(e as u8) }
                }
            }
            rows.push(row);
        }
        match self.comp {
            TiffComp::None => rows.concat(),
            TiffComp::PackBits => rows.iter().flat_map(|r| packbits(r, 128)).collect(),
            TiffComp::Lzw => tiff_lzw(&rows.concat()),
            _ => zlib_with(&rows.concat(), if y0 % 2 == 0 { Deflate::Matches(&[1, 2, 3, 4]) } else { Deflate::Stored(11) }),
        }
    }
    pub fn chunks(&self) -> Vec<Vec<u8>> {
        let all: Vec<usize> = (0..self.samples()).collect();
        let bands: Vec<Vec<usize>> = if self.planar { all.iter().map(|c| vec![*c]).collect() } else { vec![all] };
        let mut o = vec![];
        for b in &bands {
            match self.tile {
                None => {
                    let rps = self.rows_per_strip.unwrap_or(self.h).min(self.h);
                    let mut y = 0;
                    while y < self.h {
                        o.push(self.coded(0, y, self.w, rps.min(self.h - y), b));
                        y += rps;
                    }
                }
                Some((tw, th)) => {
                    for y in 0..self.h.div_ceil(th) {
                        for x in 0..self.w.div_ceil(tw) {
                            o.push(self.coded(x * tw, y * th, tw, th, b));
                        }
                    }
                }
            }
        }
        o
    }
    pub fn file(&self) -> Vec<u8> {
        self.file_with(&self.chunks())
    }
    pub fn file_with(&self, chunks: &[Vec<u8>]) -> Vec<u8> {
        let (osz, head) = if self.big { (8usize, 16usize) } else { (4, 8) };
        let n = self.samples();
        let short = |v: &[u16]| v.iter().flat_map(|x| self.e16(*x)).collect::<Vec<u8>>();
        let long = |v: &[u32]| v.iter().flat_map(|x| self.e32(*x)).collect::<Vec<u8>>();
        let num = |v: u32| if self.long || v > 0xFFFF { (4u16, long(&[v])) } else { (3, short(&[v as u16])) };
        let build = |base: usize| -> (Vec<u8>, usize) {
            // `base`: where the chunks' data starts; returns the directory with its values, to be put at `at`
            let mut off = vec![];
            let mut p = base;
            for c in chunks {
                off.push(p as u32);
                p += c.len() + c.len() % 2;
            }
            let at = if self.ifd_first { head } else { p };
            let mut t: Vec<(u16, u16, u32, Vec<u8>)> = vec![];
            for (k, v) in [(256, self.w), (257, self.h)] {
                let (ty, b) = num(v);
                t.push((k, ty, 1, b));
            }
            t.push((258, 3, n as u32, short(&vec![self.bits; n])));
            let comp = match self.comp {
                TiffComp::None => 1,
                TiffComp::Lzw => 5,
                TiffComp::Deflate => 8,
                TiffComp::PackBits => 32773,
                TiffComp::OldDeflate => 32946,
            };
            t.push((259, 3, 1, short(&[comp])));
            t.push((262, 3, 1, short(&[self.photometric])));
            let counts: Vec<u32> = chunks.iter().map(|c| c.len() as u32).collect();
            let small = !self.long && counts.iter().all(|c| *c < 65536);
            let cnt = if small { (3, short(&counts.iter().map(|c| *c as u16).collect::<Vec<_>>())) } else { (4, long(&counts)) };
            let offs = if self.big { (16, off.iter().flat_map(|o| self.e64(*o as u64)).collect()) } else { (4, long(&off)) };
            let m = chunks.len() as u32;
            t.push((277, 3, 1, short(&[n as u16])));
            match self.tile {
                None => {
                    t.push((273, offs.0, m, offs.1));
                    if let Some(r) = self.rows_per_strip {
                        let (ty, b) = num(r);
                        t.push((278, ty, 1, b));
                    }
                    t.push((279, cnt.0, m, cnt.1));
                }
                Some((tw, th)) => {
                    for (k, v) in [(322, tw), (323, th)] {
                        let (ty, b) = num(v);
                        t.push((k, ty, 1, b));
                    }
                    t.push((324, offs.0, m, offs.1));
                    t.push((325, cnt.0, m, cnt.1));
                }
            }
            if self.planar {
                t.push((284, 3, 1, short(&[2])));
            }
            if self.predictor {
                t.push((317, 3, 1, short(&[2])));
            }
            for x in &self.tags {
                t.retain(|y| y.0 != x.0);
                t.push(x.clone());
            }
            t.retain(|x| !self.drop.contains(&x.0));
            t.sort_by_key(|x| x.0);
            let fixed = if self.big { 8 + 20 * t.len() + 8 } else { 2 + 12 * t.len() + 4 };
            let (mut d, mut tail) = (vec![], vec![]);
            if self.big { d.extend(self.e64(t.len() as u64)) } else { d.extend(self.e16(t.len() as u16)) }
            for (k, ty, c, b) in t {
                d.extend(self.e16(k));
                d.extend(self.e16(ty));
                if self.big { d.extend(self.e64(c as u64)) } else { d.extend(self.e32(c)) }
                if b.len() <= osz {
                    let mut b = b;
                    b.resize(osz, 0);
                    d.extend(b);
                } else {
                    let p = at + fixed + tail.len();
                    if self.big { d.extend(self.e64(p as u64)) } else { d.extend(self.e32(p as u32)) }
                    tail.extend(&b);
                    if tail.len() % 2 == 1 {
                        tail.push(0);
                    }
                }
            }
            if self.big { d.extend(self.e64(self.next_ifd as u64)) } else { d.extend(self.e32(self.next_ifd)) }
            d.extend(tail);
            (d, at)
        };
        let base = if self.ifd_first { head + build(0).0.len() } else { head };
        let (dir, at) = build(base);
        let mut o: Vec<u8> = if self.be { b"MM".to_vec() } else { b"II".to_vec() };
        if self.big {
            o.extend(self.e16(43));
            o.extend(self.e16(8));
            o.extend(self.e16(0));
            o.extend(self.e64(at as u64));
        } else {
            o.extend(self.e16(42));
            o.extend(self.e32(at as u32));
        }
        if self.ifd_first {
            o.extend(&dir);
        }
        for c in chunks {
            o.extend(c);
            if c.len() % 2 == 1 {
                o.push(0);
            }
        }
        if !self.ifd_first {
            o.extend(&dir);
        }
        o
    }
}

// ---- GIF coding ----------------------------------------------------------------------------------

/// GIF's LZW with growing codes; `clear_every`: codes after which a clear code is sent (0: only when the
/// table is full), `deferred`: not even then.
pub fn gif_lzw(min: u8, px: &[u8], clear_every: usize, deferred: bool) -> Vec<u8> {
    use std::collections::HashMap;
    let (mut out, mut acc, mut n) = (vec![], 0u64, 0u32);
    let clear = 1u32 << min;
    let mut put = |c: u32, w: u32, out: &mut Vec<u8>, end: bool| {
        acc |= (c as u64) << n;
        n += w;
        while n >= 8 || (end && n > 0) {
            out.push(acc as u8);
            acc >>= 8;
            n = n.saturating_sub(8);
        }
    };
    let mut w = min as u32 + 1;
    let mut table: HashMap<(u32, u8), u32> = HashMap::new();
    let mut next = clear + 2;
    put(clear, w, &mut out, false);
    let mut cur: Option<u32> = None;
    let mut since = 0;
    for &b in px {
        let Some(c) = cur else {
            cur = Some(b as u32);
            continue;
        };
        if let Some(k) = table.get(&(c, b)) {
            cur = Some(*k);
            continue;
        }
        put(c, w, &mut out, false);
        since += 1;
        if next < 4096 {
            if next == 1 << w && w < 12 {
                w += 1;
            }
            table.insert((c, b), next);
            next += 1;
        }
        if (next == 4096 && !deferred) || (clear_every > 0 && since == clear_every) {
            put(clear, w, &mut out, false);
            w = min as u32 + 1;
            table.clear();
            next = clear + 2;
            since = 0;
        }
        cur = Some(b as u32);
    }
    if let Some(c) = cur {
        put(c, w, &mut out, false);
        if next == 1 << w && w < 12 {
            w += 1;
        }
    }
    put(clear + 1, w, &mut out, true);
    out
}

/// One part of an OpenEXR file.
#[derive(Clone, Debug)]
pub struct ExrPart {
    pub name: Option<&'static str>,
    /// Channels by name (in alphabetical order): kind (0 u32, 1 half, 2 float) and sampling.
    pub channels: Vec<(&'static str, u32, i32)>,
    /// 0 none, 1 RLE, 2 ZIP of one line, 3 ZIP of sixteen lines, 5 PXR24.
    pub compression: u8,
    /// xmin, ymin, xmax, ymax, inclusive.
    pub data: [i32; 4],
    /// Tile size and level mode (0 one level, 1 mip maps, 2 rip maps; +16 rounds up).
    pub tiles: Option<(u32, u32, u8)>,
    /// 0 increasing, 1 decreasing, 2 random.
    pub order: u8,
    pub deep: bool,
}
impl ExrPart {
    pub fn new(channels: &[(&'static str, u32)], data: [i32; 4]) -> ExrPart {
        ExrPart { name: None, channels: channels.iter().map(|c| (c.0, c.1, 1)).collect(), compression: 0, data, tiles: None, order: 0, deep: false }
    }
    pub fn size(&self) -> (i32, i32) {
        (self.data[2] - self.data[0] + 1, self.data[3] - self.data[1] + 1)
    }
    fn levels(&self) -> Vec<(u32, u32, u32, u32)> {
        let (w, h) = self.size();
        let (w, h) = (w as u32, h as u32);
        let Some((_, _, mode)) = self.tiles else { return vec![(0, 0, w, h)] };
        let up = mode & 16 != 0;
        let half = |mut v: u32, n: u32| {
            for _ in 0..n {
                v = if up { v.div_ceil(2) } else { v / 2 }.max(1);
            }
            v
        };
        let count = |v: u32| (0..).find(|n| half(v, *n) == 1).unwrap() + 1;
        match mode & 15 {
            0 => vec![(0, 0, w, h)],
            1 => (0..count(w.max(h))).map(|l| (l, l, half(w, l), half(h, l))).collect(),
            _ => (0..count(h)).flat_map(|y| (0..count(w)).map(move |x| (x, y, half(w, x), half(h, y)))).collect(),
        }
    }
    /// All chunks (in increasing order): coordinates and bytes, without sizes.
    fn chunks(&self, sample: &mut dyn FnMut(&str, (u32, u32), u32, u32) -> u32) -> Vec<(Vec<i32>, Vec<u8>)> {
        let mut out = vec![];
        for (lx, ly, w, h) in self.levels() {
            let (tw, th) = match self.tiles {
                Some((tw, th, _)) => (tw, th),
                None => (w, [1, 1, 1, 16, 32, 16][self.compression as usize]),
            };
            for ty in 0..h.div_ceil(th) {
                for tx in 0..w.div_ceil(tw) {
                    let (x0, y0) = (tx * tw, ty * th);
                    let (x1, y1) = ((x0 + tw).min(w), (y0 + th).min(h));
                    let mut raw = vec![];
                    let mut packed = vec![];
                    for y in y0..y1 {
                        for (name, kind, _) in &self.channels {
                            let line: Vec<u32> = (x0..x1).map(|x| sample(name, (lx, ly), x, y)).collect();
                            for v in &line {
                                match kind {
                                    1 => raw.extend((*v as u16).to_le_bytes()),
                                    _ => raw.extend(v.to_le_bytes()),
                                }
                            }
                            // PXR24: planes of bytes, most significant first, of the differences
                            let bytes = [4, 2, 3][*kind as usize];
                            let mut prev = 0u32;
                            let d: Vec<u32> = line
                                .iter()
                                .map(|v| {
                                    let v = if *kind == 2 { v >> 8 } else { *v };
                                    let d = v.wrapping_sub(prev);
                                    prev = v;
                                    d
                                })
                                .collect();
                            for k in (0..bytes).rev() {
                                packed.extend(d.iter().map(|d| (d >> (8 * k)) as u8));
                            }
                        }
                    }
                    let body = match self.compression {
                        0 => raw.clone(),
                        5 => zlib_with(&packed, Deflate::Matches(&[1, 2, 4])),
                        c => {
                            let mut d: Vec<u8> = raw.iter().step_by(2).chain(raw.iter().skip(1).step_by(2)).copied().collect();
                            for i in (1..d.len()).rev() {
                                d[i] = d[i].wrapping_sub(d[i - 1]).wrapping_add(128);
                            }
                            if c == 1 { exr_rle(&d) } else { zlib_with(&d, Deflate::Matches(&[1, 2, 4])) }
                        }
                    };
                    let body = if body.len() >= raw.len() { raw } else { body };
                    let at = match self.tiles {
                        Some(_) => vec![tx as i32, ty as i32, lx as i32, ly as i32],
                        None => vec![self.data[1] + y0 as i32],
                    };
                    out.push((at, body));
                }
            }
        }
        out
    }
}
fn exr_rle(d: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    let mut lit: Vec<u8> = vec![];
    let flush = |lit: &mut Vec<u8>, out: &mut Vec<u8>| {
        for c in lit.chunks(127) {
            out.push((-(c.len() as i32)) as u8);
            out.extend(c);
        }
        lit.clear();
    };
    while i < d.len() {
        let n = d[i..].iter().take(128).take_while(|v| **v == d[i]).count();
        if n >= 3 {
            flush(&mut lit, &mut out);
            out.extend([(n - 1) as u8, d[i]]);
            i += n;
        } else {
            lit.push(d[i]);
            i += 1;
        }
    }
    flush(&mut lit, &mut out);
    out
}
/// An OpenEXR file. `shuffle` rotates the order of the chunks in the file (line order "random").
pub fn exr(parts: &[ExrPart], display: [i32; 4], shuffle: usize, sample: &mut dyn FnMut(usize, &str, (u32, u32), u32, u32) -> u32) -> Vec<u8> {
    let multi = parts.len() > 1;
    let mut b = B::default();
    let long = parts.iter().any(|p| p.channels.iter().any(|c| c.0.len() > 31));
    let deep = parts.iter().any(|p| p.deep);
    b.raw(&[0x76, 0x2F, 0x31, 0x01]).le32(2 | if multi { 0x1000 } else if parts[0].tiles.is_some() { 0x200 } else { 0 } | if long { 0x400 } else { 0 } | if deep { 0x800 } else { 0 });
    let mut chunks = vec![];
    for (i, p) in parts.iter().enumerate() {
        let cs = p.chunks(&mut |c, l, x, y| sample(i, c, l, x, y));
        let mut attr = |n: &str, t: &str, v: &[u8]| {
            b.raw(n.as_bytes()).u8(0).raw(t.as_bytes()).u8(0).le32(v.len() as u32).raw(v);
        };
        let i32s = |v: &[i32]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
        let mut ch = B::default();
        for (n, k, s) in &p.channels {
            ch.raw(n.as_bytes()).u8(0).le32(*k).raw(&[0, 0, 0, 0]).le32(*s as u32).le32(*s as u32);
        }
        ch.u8(0);
        attr("channels", "chlist", &ch.0);
        attr("compression", "compression", &[p.compression]);
        attr("dataWindow", "box2i", &i32s(&p.data));
        attr("displayWindow", "box2i", &i32s(&display));
        attr("lineOrder", "lineOrder", &[p.order]);
        attr("pixelAspectRatio", "float", &1f32.to_le_bytes());
        attr("screenWindowCenter", "v2f", &[0; 8]);
        attr("screenWindowWidth", "float", &1f32.to_le_bytes());
        if let Some((w, h, m)) = p.tiles {
            let mut v = i32s(&[w as i32, h as i32]);
            v.push(m);
            attr("tiles", "tiledesc", &v);
        }
        if let Some(n) = p.name {
            attr("name", "string", n.as_bytes());
        }
        if multi || deep {
            attr("type", "string", match (p.deep, p.tiles.is_some()) {
                (false, false) => b"scanlineimage",
                (false, true) => b"tiledimage",
                (true, false) => b"deepscanline",
                (true, true) => b"deeptile",
            });
            attr("chunkCount", "int", &i32s(&[cs.len() as i32]));
            if deep {
                attr("version", "int", &i32s(&[1]));
                attr("maxSamplesPerPixel", "int", &i32s(&[1]));
            }
        }
        b.u8(0);
        chunks.push(cs);
    }
    if multi {
        b.u8(0);
    }
    let tables: usize = chunks.iter().map(|c| c.len() * 8).sum();
    let start = b.0.len() + tables;
    // the order of the chunks in the file
    let mut order: Vec<(usize, usize)> = vec![];
    for (i, p) in parts.iter().enumerate() {
        let n = chunks[i].len();
        let mut o: Vec<(usize, usize)> = (0..n).map(|k| (i, k)).collect();
        match p.order {
            1 => o.reverse(),
            2 => o.rotate_left(shuffle % n),
            _ => {}
        }
        order.extend(o);
    }
    let mut body = B::default();
    let mut offs: Vec<Vec<u64>> = chunks.iter().map(|c| vec![0; c.len()]).collect();
    for (i, k) in order {
        offs[i][k] = (start + body.0.len()) as u64;
        if multi {
            body.le32(i as u32);
        }
        let (at, data) = &chunks[i][k];
        for v in at {
            body.le32(*v as u32);
        }
        if parts[i].deep {
            body.raw(&[0; 24]);
        } else {
            body.le32(data.len() as u32).raw(data);
        }
    }
    for o in offs.iter().flatten() {
        b.raw(&o.to_le_bytes());
    }
    b.raw(&body.0);
    b.0
}

// ---- VP8L (lossless WebP) -------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Vp8lTransform {
    /// Block bits and the modes to use in turn.
    Predictor(u32, Vec<u8>),
    /// Block bits and the elements (green to red, green to blue, red to blue) to use in turn.
    Color(u32, Vec<[u8; 3]>),
    SubtractGreen,
    Palette,
}
/// How prefix codes are chosen.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Vp8lCode {
    /// All symbols in use about equally long; simple codes where possible.
    Flat,
    /// The same without simple codes.
    Normal,
    /// The first symbols ever longer (1, 2, 3 ... bits), the rest equal.
    Skew,
    /// All symbols of the alphabet.
    Full,
}
#[derive(Clone, Debug)]
pub struct Vp8l {
    pub w: u32,
    pub h: u32,
    pub alpha: bool,
    pub transforms: Vec<Vp8lTransform>,
    /// Bits of the colour cache, or 0.
    pub cache: u32,
    /// Block bits and number of groups of prefix codes.
    pub groups: Option<(u32, u32)>,
    /// Distances at which repetitions are looked for.
    pub distances: Vec<usize>,
    pub code: Vp8lCode,
    /// Alpha, red, green, blue in one number.
    pub pixels: Vec<u32>,
}
fn each(a: u32, b: u32, f: impl Fn(u32, u32) -> u32) -> u32 {
    (0..4).map(|k| (f(a >> (8 * k) & 255, b >> (8 * k) & 255) & 255) << (8 * k)).sum()
}
fn vp8l_predict(mode: u8, p: &[u32], w: usize, x: usize, y: usize) -> u32 {
    let i = y * w + x;
    if i == 0 {
        return 0xFF000000;
    }
    if y == 0 {
        return p[i - 1];
    }
    if x == 0 {
        return p[i - w];
    }
    // the pixel after the last of the row above is the first of this row
    let (l, t, tr, tl) = (p[i - 1], p[i - w], p[i - w + 1], p[i - w - 1]);
    let avg = |a, b| each(a, b, |a, b| (a + b) / 2);
    let s = |v: u32, k: u32| (v >> (8 * k) & 255) as i32;
    match mode {
        0 => 0xFF000000,
        1 => l,
        2 => t,
        3 => tr,
        4 => tl,
        5 => avg(avg(l, tr), t),
        6 => avg(l, tl),
        7 => avg(l, t),
        8 => avg(tl, t),
        9 => avg(t, tr),
        10 => avg(avg(l, tl), avg(t, tr)),
        11 => {
            let (mut pl, mut pt) = (0, 0);
            for k in 0..4 {
                let e = s(l, k) + s(t, k) - s(tl, k);
                pl += (e - s(l, k)).abs();
                pt += (e - s(t, k)).abs();
            }
            if pl < pt { l } else { t }
        }
        12 => (0..4).map(|k| ((s(l, k) + s(t, k) - s(tl, k)).clamp(0, 255) as u32) << (8 * k)).sum(),
        _ => {
            let a = avg(l, t);
            (0..4).map(|k| ((s(a, k) + (s(a, k) - s(tl, k)) / 2).clamp(0, 255) as u32) << (8 * k)).sum()
        }
    }
}
fn vp8l_prefix(v: usize) -> (u32, u32, u32) {
    // code, extra bits, their value
    if v <= 4 {
        return (v as u32 - 1, 0, 0);
    }
    let d = v as u32 - 1;
    let hi = 31 - d.leading_zeros();
    (2 * hi + (d >> (hi - 1) & 1), hi - 1, d & ((1 << (hi - 1)) - 1))
}
/// The code of a distance: the nearest eight have codes of their own.
fn vp8l_distance(d: usize, w: usize) -> usize {
    let near: [(isize, isize); 8] = [(0, 1), (1, 0), (1, 1), (-1, 1), (0, 2), (2, 0), (1, 2), (-1, 2)];
    near.iter().position(|(x, y)| (x + y * w as isize).max(1) == d as isize).map_or(d + 120, |k| k + 1)
}
struct Prefix {
    len: Vec<u32>,
    code: Vec<u32>,
}
impl Prefix {
    fn new(used: &[bool], how: Vp8lCode) -> Prefix {
        let mut s: Vec<usize> = (0..used.len()).filter(|i| used[*i] || how == Vp8lCode::Full).collect();
        let mut len = vec![0; used.len()];
        if s.len() == 1 {
            // the only symbol takes no bits
            return Prefix { len: len.iter().enumerate().map(|(i, _)| (i == s[0]) as u32).collect(), code: vec![0; used.len()] };
        }
        if s.is_empty() {
            return Prefix { len, code: vec![0; used.len()] };
        }
        let mut base = 0;
        if how == Vp8lCode::Skew {
            while s.len() > 2 && base < 6 {
                base += 1;
                len[s.remove(s.len() / 2)] = base;
            }
        }
        let k = usize::BITS - (s.len() - 1).leading_zeros();
        let short = (1usize << k) - s.len();
        for (i, x) in s.iter().enumerate() {
            len[*x] = base + if i < short { k - 1 } else { k };
        }
        let mut code = vec![0; used.len()];
        let mut next = 0;
        for l in 1..=15 {
            next <<= 1;
            for i in 0..len.len() {
                if len[i] == l {
                    code[i] = next;
                    next += 1;
                }
            }
        }
        Prefix { len, code }
    }
    fn single(&self) -> bool {
        self.len.iter().filter(|l| **l > 0).count() <= 1
    }
    fn put(&self, o: &mut Bits, s: usize) {
        assert!(self.len[s] > 0);
        if !self.single() {
            for k in (0..self.len[s]).rev() {
                o.put(self.code[s] >> k & 1, 1);
            }
        }
    }
    fn define(&self, o: &mut Bits, how: Vp8lCode) {
        let s: Vec<usize> = (0..self.len.len()).filter(|i| self.len[*i] > 0).collect();
        if s.len() <= 2 && s.iter().all(|v| *v < 256) && (how == Vp8lCode::Flat || s.is_empty()) {
            o.put(1, 1);
            let a = *s.first().unwrap_or(&0);
            let b = s.get(1).copied();
            o.put(b.is_some() as u32, 1);
            o.put((a > 1) as u32, 1);
            o.put(a as u32, if a > 1 { 8 } else { 1 });
            if let Some(b) = b {
                o.put(b as u32, 8);
            }
            return;
        }
        o.put(0, 1);
        // code lengths, with runs of zeros and repetitions
        let last = s.last().unwrap() + 1;
        let cut = how == Vp8lCode::Normal && last > 1;
        let all = &self.len[..if cut { last } else { self.len.len() }];
        let mut t: Vec<(usize, u32, u32)> = vec![]; // symbol, extra value, extra bits
        let mut i = 0;
        let mut prev = 8;
        while i < all.len() {
            let n = all[i..].iter().take_while(|v| **v == all[i]).count();
            if all[i] == 0 && n >= 11 {
                let n = n.min(138);
                t.push((18, n as u32 - 11, 7));
                i += n;
            } else if all[i] == 0 && n >= 3 {
                t.push((17, n as u32 - 3, 3));
                i += n;
            } else if all[i] != 0 && all[i] == prev && n >= 3 {
                let n = n.min(6);
                t.push((16, n as u32 - 3, 2));
                i += n;
            } else {
                t.push((all[i] as usize, 0, 0));
                if all[i] != 0 {
                    prev = all[i];
                }
                i += 1;
            }
        }
        let mut used = [false; 19];
        for x in &t {
            used[x.0] = true;
        }
        let mut c = Prefix::new(&used, Vp8lCode::Flat);
        if c.single() {
            // one more symbol, so that the code is an ordinary one
            used[if used[0] { 1 } else { 0 }] = true;
            c = Prefix::new(&used, Vp8lCode::Flat);
        }
        let order = [17, 18, 0, 1, 2, 3, 4, 5, 16, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
        let n = order.iter().rposition(|k| c.len[*k] > 0).unwrap() + 1;
        let n = n.max(4);
        o.put(n as u32 - 4, 4);
        for k in &order[..n] {
            o.put(c.len[*k], 3);
        }
        if cut {
            // the number of symbols read
            o.put(1, 1);
            let v = t.len() as u32;
            let v2 = v.max(2) - 2;
            let bits = (2..=16).step_by(2).find(|b| v2 < 1 << b).unwrap();
            o.put((bits - 2) / 2, 3);
            o.put(v2, bits);
        } else {
            o.put(0, 1);
        }
        for (s, e, b) in &t {
            c.put(o, *s);
            o.put(*e, *b);
        }
        if cut && t.len() < 2 {
            // at least two are read
            unreachable!();
        }
    }
}
impl Vp8l {
    pub fn new(w: u32, h: u32, pixels: Vec<u32>) -> Vp8l {
        let alpha = pixels.iter().any(|p| p >> 24 != 255);
        Vp8l { w, h, alpha, transforms: vec![], cache: 0, groups: None, distances: vec![], code: Vp8lCode::Flat, pixels }
    }
    /// The data of a VP8L chunk.
    pub fn data(&self) -> Vec<u8> {
        let mut o = Bits { out: vec![0x2F], acc: 0, n: 0 };
        o.put(self.w - 1, 14);
        o.put(self.h - 1, 14);
        o.put(self.alpha as u32, 1);
        o.put(0, 3);
        self.body(&mut o)
    }
    /// Without the header, as in ALPH chunks.
    pub fn alph(&self) -> Vec<u8> {
        self.body(&mut Bits { out: vec![], acc: 0, n: 0 })
    }
    fn body(&self, o: &mut Bits) -> Vec<u8> {
        let (mut w, h) = (self.w as usize, self.h as usize);
        let mut p = self.pixels.clone();
        for t in &self.transforms {
            o.put(1, 1);
            match t {
                Vp8lTransform::Predictor(bits, modes) => {
                    o.put(0, 2);
                    o.put(bits - 2, 3);
                    let bw = w.div_ceil(1 << bits);
                    let n = bw * h.div_ceil(1 << bits);
                    let m: Vec<u8> = (0..n).map(|i| modes[i % modes.len()]).collect();
                    let r = (0..p.len()).map(|i| {
                        let (x, y) = (i % w, i / w);
                        let q = vp8l_predict(m[(y >> bits) * bw + (x >> bits)], &p, w, x, y);
                        each(p[i], q, |a, b| a.wrapping_sub(b))
                    });
                    let r = r.collect();
                    p = r;
                    image(o, &m.iter().map(|m| 0xFF000000 | (*m as u32) << 8).collect::<Vec<_>>(), bw, 0, &None, &[], self.code, false);
                }
                Vp8lTransform::Color(bits, el) => {
                    o.put(1, 2);
                    o.put(bits - 2, 3);
                    let bw = w.div_ceil(1 << bits);
                    let n = bw * h.div_ceil(1 << bits);
                    let m: Vec<[u8; 3]> = (0..n).map(|i| el[i % el.len()]).collect();
                    for i in 0..p.len() {
                        let e = m[(i / w >> bits) * bw + (i % w >> bits)];
                        let d = |t: u8, c: u32| ((t as i8 as i32 * (c as u8 as i8) as i32) >> 5) as u32;
                        let (r, g, b) = (p[i] >> 16 & 255, p[i] >> 8 & 255, p[i] & 255);
                        let r2 = r.wrapping_sub(d(e[0], g)) & 255;
                        let b2 = b.wrapping_sub(d(e[1], g)).wrapping_sub(d(e[2], r)) & 255;
                        p[i] = p[i] & 0xFF00FF00 | r2 << 16 | b2;
                    }
                    image(o, &m.iter().map(|e| 0xFF000000 | (e[2] as u32) << 16 | (e[1] as u32) << 8 | e[0] as u32).collect::<Vec<_>>(), bw, 0, &None, &[], self.code, false);
                }
                Vp8lTransform::SubtractGreen => {
                    o.put(2, 2);
                    for v in &mut p {
                        let g = *v >> 8 & 255;
                        *v = *v & 0xFF00FF00 | ((*v >> 16 & 255).wrapping_sub(g) & 255) << 16 | (*v & 255).wrapping_sub(g) & 255;
                    }
                }
                Vp8lTransform::Palette => {
                    o.put(3, 2);
                    let mut c: Vec<u32> = vec![];
                    for v in &p {
                        if !c.contains(v) {
                            c.push(*v);
                        }
                    }
                    assert!(c.len() <= 256);
                    o.put(c.len() as u32 - 1, 8);
                    let d: Vec<u32> = (0..c.len()).map(|i| if i == 0 { c[0] } else { each(c[i], c[i - 1], |a, b| a.wrapping_sub(b)) }).collect();
                    image(o, &d, c.len(), 0, &None, &[], self.code, false);
                    let k = match c.len() {
                        0..=2 => 3,
                        3..=4 => 2,
                        5..=16 => 1,
                        _ => 0,
                    };
                    let w2 = w.div_ceil(1 << k);
                    let mut q = vec![0xFF000000u32; w2 * h];
                    for i in 0..p.len() {
                        let (x, y) = (i % w, i / w);
                        let at = c.iter().position(|v| *v == p[i]).unwrap() as u32;
                        q[y * w2 + (x >> k)] |= at << (8 + (x & ((1 << k) - 1)) as u32 * (8 >> k));
                    }
                    p = q;
                    w = w2;
                }
            }
        }
        o.put(0, 1);
        image(o, &p, w, self.cache, &self.groups, &self.distances, self.code, true);
        o.put(0, 7);
        std::mem::take(&mut o.out)
    }
}
#[derive(Clone, Copy)]
enum Token {
    Pixel(u32),
    Cached(usize),
    Copy(usize, usize),
}
#[allow(clippy::too_many_arguments)]
fn image(o: &mut Bits, p: &[u32], w: usize, cache: u32, groups: &Option<(u32, u32)>, distances: &[usize], how: Vp8lCode, main: bool) {
    o.put((cache > 0) as u32, 1);
    if cache > 0 {
        o.put(cache, 4);
    }
    let mut block = (31, 1);
    let mut bw = 1;
    if main {
        o.put(groups.is_some() as u32, 1);
        if let Some((bits, n)) = groups {
            o.put(bits - 2, 3);
            bw = w.div_ceil(1 << bits);
            let h = (p.len() / w).div_ceil(1 << bits);
            let m: Vec<u32> = (0..bw * h).map(|i| 0xFF000000 | (i as u32 % n) << 8).collect();
            let most = (bw * h).min(*n as usize) as u32;
            image(o, &m, bw, 0, &None, &[], how, false);
            block = (*bits, most);
        }
    }
    let group = |i: usize| if block.0 == 31 { 0 } else { ((i / w >> block.0) * bw + (i % w >> block.0)) % groups.unwrap().1 as usize };
    let mut tokens = vec![];
    let mut kept = vec![0u32; 1 << cache];
    let slot = |v: u32| (0x1E35A7BDu32.wrapping_mul(v) >> (32 - cache.max(1))) as usize;
    let mut i = 0;
    while i < p.len() {
        let best = distances.iter().filter(|d| **d <= i).map(|d| ((0..p.len() - i).take(4096).take_while(|k| p[i + k] == p[i + k - d]).count(), *d)).max_by_key(|v| v.0);
        let n = match best {
            Some((n, d)) if n >= 2 => {
                tokens.push((i, Token::Copy(n, d)));
                n
            }
            _ => {
                tokens.push((i, if cache > 0 && kept[slot(p[i])] == p[i] { Token::Cached(slot(p[i])) } else { Token::Pixel(p[i]) }));
                1
            }
        };
        if cache > 0 {
            for k in i..i + n {
                kept[slot(p[k])] = p[k];
            }
        }
        i += n;
    }
    let sizes = [280 + if cache > 0 { 1 << cache } else { 0 }, 256, 256, 256, 40];
    let mut codes = vec![];
    for g in 0..block.1 as usize {
        let mut used: Vec<Vec<bool>> = sizes.iter().map(|n| vec![false; *n]).collect();
        for (i, t) in &tokens {
            if group(*i) == g {
                match *t {
                    Token::Pixel(v) => {
                        used[0][(v >> 8 & 255) as usize] = true;
                        used[1][(v >> 16 & 255) as usize] = true;
                        used[2][(v & 255) as usize] = true;
                        used[3][(v >> 24) as usize] = true;
                    }
                    Token::Cached(k) => used[0][280 + k] = true,
                    Token::Copy(n, d) => {
                        used[0][256 + vp8l_prefix(n).0 as usize] = true;
                        used[4][vp8l_prefix(vp8l_distance(d, w)).0 as usize] = true;
                    }
                }
            }
        }
        for u in &mut used {
            if how != Vp8lCode::Flat && u.iter().filter(|v| **v).count() < 2 {
                // a normal code has two symbols at least
                u[0] = true;
                u[1] = true;
            }
        }
        let c: Vec<Prefix> = used.iter().map(|u| Prefix::new(u, how)).collect();
        for c in &c {
            c.define(o, how);
        }
        codes.push(c);
    }
    for (i, t) in tokens {
        let c = &codes[group(i)];
        match t {
            Token::Pixel(v) => {
                c[0].put(o, (v >> 8 & 255) as usize);
                c[1].put(o, (v >> 16 & 255) as usize);
                c[2].put(o, (v & 255) as usize);
                c[3].put(o, (v >> 24) as usize);
            }
            Token::Cached(k) => c[0].put(o, 280 + k),
            Token::Copy(n, d) => {
                let (s, b, e) = vp8l_prefix(n);
                c[0].put(o, 256 + s as usize);
                o.put(e, b);
                let (s, b, e) = vp8l_prefix(vp8l_distance(d, w));
                c[4].put(o, s as usize);
                o.put(e, b);
            }
        }
    }
}
/// A simple WebP file of one image chunk.
pub fn webp_simple(id: &[u8; 4], d: &[u8]) -> Vec<u8> {
    let mut b = B::default();
    riff_chunk(&mut b, id, d);
    let mut o = B::default();
    o.raw(b"RIFF").le32(b.0.len() as u32 + 4).raw(b"WEBP").raw(&b.0);
    o.0
}
pub fn webp_chunk(id: &[u8; 4], d: &[u8]) -> Vec<u8> {
    let mut b = B::default();
    riff_chunk(&mut b, id, d);
    b.0
}
