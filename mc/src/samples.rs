//! Images of the sample types beyond u8, u16 and f32, for checks written against the generic operations.
use crate::Ch;
use image::*;

pub trait Sample: Primitive + Send + Sync + std::fmt::Debug + 'static {
    const NAME: &'static str;
    /// Bits of the type; floats have none.
    const BITS: u32;
    /// The value set: ends of the range, their neighbours, the middle and small values.
    fn values() -> Vec<Self>;
    fn f(self) -> f64 {
        self.to_f64().unwrap()
    }
    fn float() -> bool {
        Self::BITS == 0
    }
    /// How far a result computed in single precision may be off, at the given magnitude.
    fn tolerance(magnitude: f64) -> f64 {
        if Self::float() {
            magnitude.abs().max(1.) * 4e-6
        } else {
            1. + magnitude.abs() * 4e-6
        }
    }
}

macro_rules! sample {
    ($($t:ident $b:expr),*) => { $(impl Sample for $t {
        const NAME: &'static str = stringify!($t);
        const BITS: u32 = $b;
        fn values() -> Vec<$t> {
            let (lo, hi) = (<$t as Primitive>::DEFAULT_MIN_VALUE, <$t as Primitive>::DEFAULT_MAX_VALUE);
            let (one, two) = if $b == 0 { ((1. / 64.) as $t, 2 as $t) } else { (1 as $t, 2 as $t) };
            vec![lo, hi, 0 as $t, one, hi / two, lo / two, hi - one, lo + one, if $b == 0 { 0.3 as $t } else { 100 as $t }]
        }
    })* };
}
sample!(u8 8, i8 8, u16 16, i16 16, u32 32, i32 32, u64 64, i64 64, usize 64, isize 64, f32 0, f64 0);

/// An image of the given size whose samples run through the value set with a given start and step.
pub fn image<P: Pixel<Subpixel = S>, S: Sample>(w: u32, h: u32, start: usize, step: usize) -> ImageBuffer<P, Vec<S>> {
    let v = S::values();
    let mut i: ImageBuffer<P, Vec<S>> = ImageBuffer::new(w, h);
    for (j, s) in i.iter_mut().enumerate() {
        *s = v[(start + j * step) % v.len()];
    }
    i
}

pub fn pick_image<P: Pixel<Subpixel = S>, S: Sample>(ch: &mut Ch, sizes: &[(u32, u32)]) -> ImageBuffer<P, Vec<S>> {
    let (w, h) = ch.of(sizes);
    let start = ch.pick(S::values().len());
    let step = ch.pick(S::values().len());
    image(w, h, start, step)
}

pub const SIZES: [(u32, u32); 5] = [(1, 1), (2, 3), (4, 3), (5, 1), (3, 5)];

/// Runs a generic function for a chosen sample type and a chosen pixel type.
#[macro_export]
macro_rules! for_sample_types {
    ($ch:ident, $f:ident) => {{
        let t = $ch.pick(12);
        let p = $ch.pick(4);
        $crate::for_sample_types!(@ $ch, $f, t, p, 0 u8, 1 i8, 2 u16, 3 i16, 4 u32, 5 i32, 6 u64, 7 i64, 8 usize, 9 isize, 10 f32, 11 f64)
    }};
    (@ $ch:ident, $f:ident, $t:ident, $p:ident, $($i:literal $T:ty),*) => {
        match ($t, $p) {
            $(
                ($i, 0) => $f::<image::Luma<$T>, $T>($ch),
                ($i, 1) => $f::<image::LumaA<$T>, $T>($ch),
                ($i, 2) => $f::<image::Rgb<$T>, $T>($ch),
                ($i, 3) => $f::<image::Rgba<$T>, $T>($ch),
            )*
            _ => unreachable!(),
        }
    };
}
