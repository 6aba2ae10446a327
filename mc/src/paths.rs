//! Ways of decoding a file, each giving a comparable outcome.
use crate::catch;
use image::codecs::{gif::GifDecoder, png::PngDecoder, webp::WebPDecoder};
use image::{AnimationDecoder, ColorType, DynamicImage, ImageDecoder, ImageFormat, ImageReader, ImageResult};
use std::io::{BufRead, Seek};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Path {
    /// `ImageReader::with_format(..).decode()`
    Reader,
    /// `ImageReader::new(..).with_guessed_format()?.decode()`
    Guess,
    /// `into_decoder()`, all metadata, then `read_image`
    Decoder,
    /// All frames of the animation.
    Frames,
}
pub const PATHS: [Path; 4] = [Path::Reader, Path::Guess, Path::Decoder, Path::Frames];

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Shot {
    pub w: u32,
    pub h: u32,
    pub color: Option<ColorType>,
    pub data: Vec<u8>,
    pub icc: Option<Vec<u8>>,
    pub exif: Option<Vec<u8>>,
    pub delay: (u32, u32),
    pub format: Option<ImageFormat>,
}
/// The images delivered and whether an error came at the end.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Outcome {
    pub shots: Vec<Shot>,
    pub error: Option<String>,
}
impl Outcome {
    pub fn same(&self, o: &Outcome) -> bool {
        self.shots == o.shots && self.error.is_some() == o.error.is_some()
    }
    pub fn brief(&self) -> String {
        format!("{} image(s){}", self.shots.len(), self.error.as_ref().map(|e| format!(" and the error {e:?}")).unwrap_or_default())
    }
}

fn shot(d: DynamicImage) -> Shot {
    Shot { w: d.width(), h: d.height(), color: Some(d.color()), data: d.as_bytes().to_vec(), ..Default::default() }
}

/// Does the path apply to the format?
pub fn applies(p: Path, f: ImageFormat, animated: bool) -> bool {
    match p {
        Path::Frames => animated && matches!(f, ImageFormat::Gif | ImageFormat::Png | ImageFormat::WebP),
        Path::Guess => f != ImageFormat::Tga,
        _ => true,
    }
}

/// Runs the path; a panic is an `Err`.
pub fn run<R: BufRead + Seek>(p: Path, f: ImageFormat, r: R) -> Result<Outcome, String> {
    catch(move || {
        let mut shots = vec![];
        let res: ImageResult<()> = (|| {
            match p {
                Path::Reader => {
                    let mut rd = ImageReader::with_format(r, f);
                    rd.no_limits();
                    shots.push(shot(rd.decode()?));
                }
                Path::Guess => {
                    let mut rd = ImageReader::new(r).with_guessed_format()?;
                    let g = rd.format();
                    rd.no_limits();
                    let mut s = shot(rd.decode()?);
                    s.format = g;
                    shots.push(s);
                }
                Path::Decoder => {
                    let mut rd = ImageReader::with_format(r, f);
                    rd.no_limits();
                    let mut d = rd.into_decoder()?;
                    let (w, h) = d.dimensions();
                    let color = Some(d.color_type());
                    let icc = d.icc_profile()?;
                    let exif = d.exif_metadata()?;
                    let mut data = vec![0x5A; d.total_bytes() as usize];
                    d.read_image(&mut data)?;
                    shots.push(Shot { w, h, color, data, icc, exif, ..Default::default() });
                }
                Path::Frames => {
                    let it = match f {
                        ImageFormat::Gif => GifDecoder::new(r)?.into_frames(),
                        ImageFormat::Png => PngDecoder::new(r)?.apng()?.into_frames(),
                        _ => WebPDecoder::new(r)?.into_frames(),
                    };
                    for fr in it.take(64) {
                        let fr = fr?;
                        let delay = fr.delay().numer_denom_ms();
                        let b = fr.into_buffer();
                        shots.push(Shot { w: b.width(), h: b.height(), color: Some(ColorType::Rgba8), data: b.into_raw(), delay, ..Default::default() });
                    }
                }
            }
            Ok(())
        })();
        Outcome { shots, error: res.err().map(|e| e.to_string()) }
    })
}
