//! Reference model of separable resampling, in double precision.
use crate::util::Planes;

pub fn gaussian(x: f64, s: f64) -> f64 {
    (-x * x / (2. * s * s)).exp() / ((2. * std::f64::consts::PI).sqrt() * s)
}
pub fn triangle(x: f64) -> f64 {
    (1. - x.abs()).max(0.)
}
pub fn catmull_rom(x: f64) -> f64 {
    let a = x.abs();
    if a < 1. {
        1.5 * a * a * a - 2.5 * a * a + 1.
    } else if a < 2. {
        -0.5 * a * a * a + 2.5 * a * a - 4. * a + 2.
    } else {
        0.
    }
}
pub fn lanczos3(x: f64) -> f64 {
    let sinc = |t: f64| if t == 0. { 1. } else { (t * std::f64::consts::PI).sin() / (t * std::f64::consts::PI) };
    if x.abs() < 3. {
        sinc(x) * sinc(x / 3.)
    } else {
        0.
    }
}

/// For every output position, the normalised weights of the input positions.
pub fn weights(n: u32, m: u32, kernel: &dyn Fn(f64) -> f64, support: f64) -> Vec<Vec<(u32, f64)>> {
    let ratio = n as f64 / m as f64;
    let s = ratio.max(1.);
    (0..m)
        .map(|o| {
            let centre = (o as f64 + 0.5) * ratio;
            let l = ((centre - support * s).floor() as i64).clamp(0, n as i64 - 1);
            let r = ((centre + support * s).ceil() as i64).clamp(l + 1, n as i64);
            let mut v: Vec<(u32, f64)> = (l..r).map(|i| (i as u32, kernel((i as f64 - (centre - 0.5)) / s))).collect();
            let sum: f64 = v.iter().map(|x| x.1).sum();
            for x in &mut v {
                x.1 /= sum;
            }
            v
        })
        .collect()
}

/// The samples of the resampled image before rounding and clamping.
pub fn separable(p: &Planes, wx: &[Vec<(u32, f64)>], wy: &[Vec<(u32, f64)>]) -> Planes {
    let (nw, nh) = (wx.len() as u32, wy.len() as u32);
    let mut v = vec![];
    for y in 0..nh {
        for x in 0..nw {
            for c in 0..p.n {
                let mut t = 0.;
                for &(j, wj) in &wy[y as usize] {
                    for &(i, wi) in &wx[x as usize] {
                        t += wj * wi * p.at(i, j, c);
                    }
                }
                v.push(t);
            }
        }
    }
    Planes { w: nw, h: nh, n: p.n, maxv: p.maxv, float: p.float, v }
}
