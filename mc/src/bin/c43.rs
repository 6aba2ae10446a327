//! C43: An encoder used repeatedly writes each image as a fresh encoder would.
//! TECHNIQUE: exhaustive exploration of histories of encoding calls (accepted and refused, and with the writer failing at every byte of one of them) on one real JPEG, BMP or PNM encoder, each call compared with a fresh encoder
//! LEVEL: model_checking
//! NOTE: Calls differ in colour type, size, entry point, palette and subtype; a history is correct when what each call adds to the writer, and whether it succeeds, is what the same call on a new encoder does.
use image::codecs::{bmp::BmpEncoder, jpeg::*, pnm::*};
use image::*;
use mc::*;
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

/// A writer whose owner looks at what has arrived, and that fails after a number of bytes until it is mended.
#[derive(Clone, Default)]
struct Sink(Rc<RefCell<(Vec<u8>, Option<usize>)>>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        let n = match s.1 {
            None => b.len(),
            Some(k) => b.len().min(k.saturating_sub(s.0.len())),
        };
        if n == 0 && !b.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "the writer fails"));
        }
        s.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Job {
    color: ExtendedColorType,
    w: u32,
    h: u32,
    seed: usize,
    /// Entry point or palette length.
    via: usize,
}
impl Job {
    fn bytes(&self) -> Vec<u8> {
        let n = (self.color.bits_per_pixel() as usize).div_ceil(8) * self.w as usize * self.h as usize;
        let m = if self.color == ExtendedColorType::L1 { 2 } else { 256 };
        (0..n).map(|i| ((i * 37 + i * i * self.seed + self.seed * 101) % m) as u8).collect()
    }
}
enum Any {
    Jpeg(JpegEncoder<Sink>),
    Pnm(PnmEncoder<Sink>),
    Bmp(Sink),
}
fn job(e: &mut Any, j: &Job) -> Result<(), String> {
    let b = j.bytes();
    let r = catch(|| match e {
        Any::Jpeg(e) => match (j.via, j.color) {
            (0, c) => e.encode(&b, j.w, j.h, c),
            (_, ExtendedColorType::L8) => e.encode_image(&GrayImage::from_raw(j.w, j.h, b).unwrap()),
            (_, ExtendedColorType::La8) => e.encode_image(&GrayAlphaImage::from_raw(j.w, j.h, b).unwrap()),
            (_, ExtendedColorType::Rgb8) => e.encode_image(&RgbImage::from_raw(j.w, j.h, b).unwrap()),
            (_, ExtendedColorType::Rgba8) => e.encode_image(&DynamicImage::ImageRgba8(RgbaImage::from_raw(j.w, j.h, b).unwrap())),
            _ => unreachable!(),
        },
        Any::Pnm(e) => {
            if j.color == ExtendedColorType::L16 {
                let v: Vec<u16> = b.chunks(2).map(|c| u16::from_ne_bytes([c[0], c[1]])).collect();
                e.encode(&v[..], j.w, j.h, j.color)
            } else {
                e.encode(&b[..], j.w, j.h, j.color)
            }
        }
        Any::Bmp(_) => unreachable!(),
    });
    r.map_err(|p| format!("PANIC {p}"))?.map_err(|e| e.to_string())
}
fn bmp(e: &mut BmpEncoder<Sink>, j: &Job) -> Result<(), String> {
    let b = j.bytes();
    let p: Vec<[u8; 3]> = (0..j.via).map(|i| [i as u8, 255 - i as u8, 7]).collect();
    catch(|| if j.via > 0 { e.encode_with_palette(&b, j.w, j.h, j.color, Some(&p)) } else { e.encode(&b, j.w, j.h, j.color) }).map_err(|p| format!("PANIC {p}"))?.map_err(|e| e.to_string())
}
/// Runs the jobs on one encoder, the writer failing `fail` = (job, bytes into its output).
fn history(make: &dyn Fn(Sink) -> Any, jobs: &[Job], fail: Option<(usize, usize)>) -> Res {
    let sink = Sink::default();
    let mut all = make(sink.clone());
    let mut bs = sink.clone();
    let mut shared = if let Any::Bmp(_) = all { Some(BmpEncoder::new(&mut bs)) } else { None };
    for (i, j) in jobs.iter().enumerate() {
        let from = sink.0.borrow().0.len();
        sink.0.borrow_mut().1 = fail.filter(|f| f.0 == i).map(|f| from + f.1);
        let got = match &mut shared {
            Some(e) => bmp(e, j),
            None => job(&mut all, j),
        };
        let alone = Sink::default();
        let want = match make(alone.clone()) {
            Any::Bmp(mut s) => bmp(&mut BmpEncoder::new(&mut s), j),
            mut e => job(&mut e, j),
        };
        let text = || format!("call {i} of {jobs:?}{}", fail.map(|f| format!(" with the writer failing in call {} after {} bytes", f.0, f.1)).unwrap_or_default());
        if fail.is_some_and(|f| f.0 == i && f.1 < alone.0.borrow().0.len()) {
            need!(got.is_err(), "swallowed", "{}: the failure is not reported", text());
            continue;
        }
        for r in [&got, &want] {
            if let Err(e) = r {
                ensure!(!e.starts_with("PANIC"), "{}: {e}", text());
            }
        }
        need!(got.is_ok() == want.is_ok(), "outcome", "{}: {got:?}, on a new encoder {want:?}", text());
        let (a, b) = (sink.0.borrow().0[from..].to_vec(), alone.0.borrow().0.clone());
        need!(a == b, "bytes", "{}: {} than from a new encoder", text(), util::first_diff(&a, &b));
    }
    Ok(())
}
fn main() {
    let mut c = Check::start("C43", "model_checking", "whether a call succeeds and the bytes it adds are the same on a used encoder and on a new one");
    let q = c.quick;
    use ExtendedColorType::*;
    let jobs = |l: &[(ExtendedColorType, u32, u32, usize)]| -> Vec<Job> { l.iter().enumerate().map(|(i, (c, w, h, v))| Job { color: *c, w: *w, h: *h, seed: i + 1, via: *v }).collect() };
    // JPEG: contents of many lengths in bits
    let mut jpeg: Vec<Job> = jobs(&[(L8, 1, 1, 0), (L8, 8, 8, 0), (L8, 9, 17, 0), (Rgb8, 1, 1, 0), (Rgb8, 17, 9, 0), (L8, 3, 3, 1), (La8, 5, 2, 1), (Rgba8, 8, 3, 1), (Rgb8, 2, 2, 1), (L16, 2, 2, 0), (Rgba8, 2, 2, 0), (L8, 0, 4, 0), (L8, 65536, 1, 0)]);
    for s in 0..8 {
        jpeg.push(Job { color: L8, w: 4, h: 4, seed: 20 + s, via: 0 });
    }
    let bmps = jobs(&[(L8, 1, 1, 0), (L8, 5, 2, 0), (L8, 3, 2, 256), (La8, 3, 2, 0), (Rgb8, 1, 1, 0), (Rgb8, 3, 2, 0), (Rgba8, 2, 2, 0), (Rgba8, 1, 3, 0), (L8, 2, 2, 1), (L8, 2, 2, 257), (Rgb8, 2, 2, 4), (L16, 2, 2, 0), (L8, 0, 1, 0)]);
    let pnms = jobs(&[(L8, 1, 1, 0), (L8, 5, 2, 0), (Rgb8, 1, 1, 0), (Rgb8, 3, 2, 0), (L1, 9, 2, 0), (L1, 3, 1, 0), (La8, 2, 2, 0), (Rgba8, 2, 2, 0), (L16, 3, 2, 0), (L8, 0, 0, 0), (Rgb32F, 1, 1, 0), (L8, 30, 2, 0)]);
    let subs = [None, Some(PnmSubtype::Bitmap(SampleEncoding::Binary)), Some(PnmSubtype::Bitmap(SampleEncoding::Ascii)), Some(PnmSubtype::Graymap(SampleEncoding::Binary)), Some(PnmSubtype::Graymap(SampleEncoding::Ascii)), Some(PnmSubtype::Pixmap(SampleEncoding::Binary)), Some(PnmSubtype::Pixmap(SampleEncoding::Ascii)), Some(PnmSubtype::ArbitraryMap)];
    let n = if q { 3 } else { 4 };
    for (name, list) in [("JPEG", &jpeg), ("BMP", &bmps), ("PNM", &pnms)] {
        let pick = |ch: &mut Ch, n: usize| -> (Box<dyn Fn(Sink) -> Any>, Vec<Job>) {
            let make: Box<dyn Fn(Sink) -> Any> = match name {
                "JPEG" => {
                    let q = ch.of(&[75u8, 1, 100]);
                    let icc = ch.flag();
                    Box::new(move |s| {
                        let mut e = JpegEncoder::new_with_quality(s, q);
                        e.set_pixel_density(PixelDensity::dpi(90));
                        if icc {
                            e.set_icc_profile(vec![9; 40]).unwrap();
                        }
                        Any::Jpeg(e)
                    })
                }
                "BMP" => Box::new(Any::Bmp),
                _ => {
                    let sub = ch.of(&subs);
                    Box::new(move |s| Any::Pnm(match sub {
                        None => PnmEncoder::new(s),
                        Some(t) => PnmEncoder::new(s).with_subtype(t),
                    }))
                }
            };
            let mut l = vec![];
            for _ in 0..n {
                l.push(ch.of(list));
                ch.step();
            }
            (make, l)
        };
        c.explore(&format!("{name} histories"), &format!("all sequences of {n} calls out of {}, on every setting of the encoder", list.len()), |ch| {
            let (make, l) = pick(ch, n);
            ch.state(hash_of(&l));
            history(&*make, &l, None)
        });
        c.explore(&format!("{name} after a failure"), "all pairs of calls, the writer failing at every byte of the first (every 7th beyond 64) and working again for the second", |ch| {
            let (make, l) = pick(ch, 2);
            let s = Sink::default();
            let len = {
                let _ = match make(s.clone()) {
                    Any::Bmp(mut s) => bmp(&mut BmpEncoder::new(&mut s), &l[0]),
                    mut e => job(&mut e, &l[0]),
                };
                let n = s.0.borrow().0.len();
                n
            };
            if len == 0 {
                return Ok(());
            }
            let places: Vec<usize> = (0..len).filter(|k| *k < 64 || !q || k % 7 == 0 || k + 24 > len).collect();
            let k = places[ch.pick(places.len())];
            ch.state(hash_of(&(&l, k)));
            history(&*make, &l, Some((0, k)))
        });
    }
    c.finish()
}
