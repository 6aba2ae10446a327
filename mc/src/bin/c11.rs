//! C11: parallel pixel iteration equals sequential iteration under every split and schedule.
//! TECHNIQUE: stateless model checking of the real rayon producers under a controlled scheduler: all split trees, all interleavings of the pieces
//! LEVEL: model_checking
//! NOTE: The explorer plays the work-stealing scheduler: it takes the producer the code hands to rayon, enumerates every way of splitting it (up to the number of pieces stated) and every interleaving of the pieces' item steps, from either end, and compares with the sequential iterator; the paths through rayon's own bridge (drive, drive_unindexed) run in pools of 1 to 8 threads, whose schedules are rayon's.
use image::*;
use mc::*;
use rayon::iter::plumbing::*;
use rayon::prelude::*;
use std::collections::BTreeMap;
use std::sync::Mutex;

type Seen = Vec<(u32, u32, usize)>;

struct Sched<'a, 'b, F> {
    ch: &'a mut Ch<'b>,
    max: usize,
    /// Applied to each item as it is visited.
    visit: F,
}
impl<T, F: FnMut(usize, T)> ProducerCallback<T> for Sched<'_, '_, F> {
    type Output = Res;
    fn callback<P: Producer<Item = T>>(mut self, p: P) -> Res {
        // The length is not part of a producer: it is found by the caller; splits are made on known lengths.
        let len = LEN.with(|l| l.get());
        let mut pieces = vec![(0usize, len, p)];
        // Split: repeatedly choose a piece and a position, or stop.
        while pieces.len() < self.max {
            let k = self.ch.pick(pieces.len() + 1);
            if k == pieces.len() {
                break;
            }
            let (a, b, p) = pieces.remove(k);
            let at = self.ch.range(0, (b - a) as i64) as usize;
            let (l, r) = p.split_at(at);
            pieces.insert(k, (a + at, b, r));
            pieces.insert(k, (a, a + at, l));
            self.ch.step();
        }
        let cuts: Vec<usize> = pieces.iter().map(|p| p.0).collect();
        self.ch.outcome(hash_of(&cuts));
        // Run: any piece takes its next step, from the front or (per piece) from the back.
        let mut live = vec![];
        for (a, b, p) in pieces {
            let it = p.into_iter();
            if it.len() != b - a {
                return viol("", format!("the piece {a}..{b} has an iterator of length {}", it.len()));
            }
            live.push((a, b, it));
        }
        while !live.is_empty() {
            let k = self.ch.pick(live.len());
            let back = live[k].1 - live[k].0 > 1 && self.ch.flag();
            let (a, b, it) = &mut live[k];
            let got = if back { it.next_back() } else { it.next() };
            let i = if back { *b - 1 } else { *a };
            match got {
                Some(x) if *a < *b => (self.visit)(i, x),
                Some(_) => return viol("", format!("a piece yields beyond its end {b}")),
                None if *a == *b => {
                    drop(live.remove(k));
                    continue;
                }
                None => return viol("", format!("the piece {a}..{b} ends early")),
            }
            if back {
                *b -= 1
            } else {
                *a += 1
            }
            self.ch.step();
            let st: Vec<(usize, usize)> = live.iter().map(|l| (l.0, l.1)).collect();
            self.ch.state(hash_of(&(len, st)));
        }
        Ok(())
    }
}
thread_local!(static LEN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });

fn shape(ch: &mut Ch) -> (u32, u32) {
    ch.of(&[(2u32, 2u32), (3, 1), (1, 3), (2, 1), (1, 1), (3, 2), (2, 3), (0, 3), (3, 0), (0, 0)])
}

trait Px: Pixel<Subpixel = u8> + Send + Sync + 'static + Eq + std::fmt::Debug {}
impl<T: Pixel<Subpixel = u8> + Send + Sync + 'static + Eq + std::fmt::Debug> Px for T {}
fn tag<P: Px>(v: usize) -> P {
    let s: Vec<u8> = (0..P::CHANNEL_COUNT as usize).map(|c| (v * 7 + c * 3 + 1) as u8).collect();
    *P::from_slice(&s)
}

fn produce<P: Px>(ch: &mut Ch, deep: bool) -> Res {
    let (w, h) = shape(ch);
    let n = (w * h) as usize;
    let extra = ch.of(&[0usize, 1 + P::CHANNEL_COUNT as usize]);
    let need = n * P::CHANNEL_COUNT as usize;
    let mut raw = vec![0u8; need + extra];
    for (i, x) in raw.iter_mut().enumerate() {
        *x = (i * 5 + 1) as u8;
    }
    let mut b = ImageBuffer::<P, Vec<u8>>::from_raw(w, h, raw.clone()).unwrap();
    let base = b.as_raw().as_ptr() as usize;
    let c = P::CHANNEL_COUNT as usize;
    let want: Seen = (0..n).map(|i| (i as u32 % w, i as u32 / w, base + i * c)).collect();
    LEN.with(|l| l.set(n));
    let max = if n > 4 { if deep { 3 } else { 2 } } else if deep { 4 } else { 3 };
    let kind = ch.pick(4);
    let mut seen: BTreeMap<usize, (u32, u32, usize)> = BTreeMap::new();
    let mut twice = None;
    let mut note = |i: usize, v: (u32, u32, usize)| {
        if seen.insert(i, v).is_some() {
            twice = Some(i);
        }
    };
    macro_rules! go {
        ($it:expr, $v:expr) => {{
            let it = $it;
            ensure!(it.len() == n && it.opt_len() == Some(n), "kind {kind} {w}x{h}: len {} opt_len {:?}", it.len(), it.opt_len());
            it.with_producer(Sched { ch: &mut *ch, max, visit: $v })?
        }};
    }
    match kind {
        0 => go!(b.par_pixels(), |i, p: &P| note(i, (u32::MAX, 0, p as *const P as usize))),
        1 => go!(b.par_enumerate_pixels(), |i, (x, y, p): (u32, u32, &P)| note(i, (x, y, p as *const P as usize))),
        2 => go!(b.par_pixels_mut(), |i, p: &mut P| {
            note(i, (u32::MAX, 0, p as *const P as usize));
            *p = tag(i);
        }),
        _ => go!(b.par_enumerate_pixels_mut(), |i, (x, y, p): (u32, u32, &mut P)| {
            note(i, (x, y, p as *const P as usize));
            *p = tag(i);
        }),
    }
    ensure!(twice.is_none(), "kind {kind} {w}x{h}: position {twice:?} visited twice");
    let got: Seen = seen.values().enumerate().map(|(i, v)| if v.0 == u32::MAX { (want[i].0, want[i].1, v.2) } else { *v }).collect();
    ensure!(got == want, "kind {kind} {w}x{h}: visited {got:?}, sequentially {want:?}");
    let mut expect = raw.clone();
    if kind >= 2 {
        for i in 0..n {
            expect[i * c..i * c + c].copy_from_slice(tag::<P>(i).channels());
        }
    }
    ensure!(b.as_raw()[..] == expect[..], "kind {kind} {w}x{h}: buffer after the iteration");
    ch.validated();
    ch.sample(|| format!("kind {kind} {w}x{h}+{extra}: {got:?}"));
    Ok(())
}

static POOLS: Mutex<Vec<(usize, std::sync::Arc<rayon::ThreadPool>)>> = Mutex::new(vec![]);
fn pool(n: usize) -> std::sync::Arc<rayon::ThreadPool> {
    let mut p = POOLS.lock().unwrap();
    if let Some(x) = p.iter().find(|x| x.0 == n) {
        return x.1.clone();
    }
    let x = std::sync::Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap());
    p.push((n, x.clone()));
    x
}

fn bridged<P: Px>(ch: &mut Ch, dims: &[(u32, u32)]) -> Res {
    let (w, h) = ch.of(dims);
    let threads = ch.of(&[1usize, 2, 3, 8]);
    let pool = pool(threads);
    let n = (w * h) as usize;
    let c = P::CHANNEL_COUNT as usize;
    let mut b = ImageBuffer::<P, Vec<u8>>::from_fn(w, h, |x, y| tag((x * 31 + y * 17) as usize));
    let extra = ch.flag();
    if extra {
        let mut r = b.into_raw();
        r.extend([9; 7]);
        b = ImageBuffer::from_raw(w, h, r).unwrap();
    }
    let base = b.as_raw().as_ptr() as usize;
    let seq: Vec<(u32, u32, usize)> = (0..n).map(|i| (i as u32 % w, i as u32 / w, base + i * c)).collect();
    let want: Vec<usize> = seq.iter().map(|s| s.2).collect();
    let a = |p: &P| p as *const P as usize;
    let kind = ch.pick(13);
    ch.step();
    ch.state(hash_of(&(w, h, threads, kind, c)));
    let what = format!("{w}x{h} with {threads} threads, path {kind}");
    let hits = Mutex::new(vec![]);
    let mut fresh = b.clone();
    let expect_mut: Vec<u8> = {
        let mut e = b.as_raw().clone();
        for i in 0..n {
            e[i * c..i * c + c].copy_from_slice(tag::<P>(i * 3 + 1).channels());
        }
        e
    };
    let idx = |x: u32, y: u32| (y * w + x) as usize * 3 + 1;
    match kind {
        // collect into a vector: drive (indexed); fold and for_each: drive_unindexed; zip, rev, chunks: with_producer
        0 => ensure!(pool.install(|| b.par_pixels().map(a).collect::<Vec<_>>()) == want, "{what}: collect"),
        1 => ensure!(pool.install(|| b.par_enumerate_pixels().map(|(x, y, p)| (x, y, a(p))).collect::<Vec<_>>()) == seq, "{what}: collect"),
        2 => {
            pool.install(|| b.par_enumerate_pixels().filter(|_| true).for_each(|(x, y, p)| hits.lock().unwrap().push((y, x, a(p)))));
            let mut v = hits.into_inner().unwrap();
            v.sort();
            ensure!(v.iter().map(|t| (t.1, t.0, t.2)).eq(seq.iter().copied()), "{what}: for_each visited {v:?}");
        }
        3 => {
            pool.install(|| b.par_pixels().filter(|_| true).for_each(|p| hits.lock().unwrap().push((0, 0, a(p)))));
            let mut v = hits.into_inner().unwrap();
            v.sort();
            ensure!(v.iter().map(|t| t.2).eq(want.iter().copied()), "{what}: for_each");
        }
        4 => {
            pool.install(|| fresh.par_enumerate_pixels_mut().for_each(|(x, y, p)| *p = tag(idx(x, y))));
            ensure!(fresh.as_raw()[..] == expect_mut[..], "{what}: for_each mut");
        }
        5 => {
            pool.install(|| fresh.par_pixels_mut().enumerate().for_each(|(i, p)| *p = tag(i * 3 + 1)));
            ensure!(fresh.as_raw()[..] == expect_mut[..], "{what}: enumerate mut");
        }
        6 => {
            // drive of the mutable iterators
            let v: Vec<usize> = pool.install(|| fresh.par_enumerate_pixels_mut().map(|(x, y, p)| { *p = tag(idx(x, y)); (y * w + x) as usize }).collect());
            ensure!(v.iter().copied().eq(0..n), "{what}: collect mut gave {v:?}");
            ensure!(fresh.as_raw()[..] == expect_mut[..], "{what}: collect mut");
        }
        7 => {
            let v: Vec<usize> = pool.install(|| fresh.par_pixels_mut().map(|p| p as *const P as usize).collect());
            let fb = fresh.as_raw().as_ptr() as usize;
            ensure!(v.iter().copied().eq((0..n).map(|i| fb + i * c)), "{what}: collect mut");
        }
        8 => ensure!(pool.install(|| b.par_enumerate_pixels().rev().map(|(x, y, p)| (x, y, a(p))).collect::<Vec<_>>()).into_iter().rev().eq(seq.iter().copied()), "{what}: rev"),
        9 => {
            let got: Vec<(u32, u32, usize)> = pool.install(|| b.par_enumerate_pixels().with_max_len(1).skip(n / 3).map(|(x, y, p)| (x, y, a(p))).collect());
            ensure!(got == seq[n / 3..], "{what}: skip");
        }
        10 => {
            let calls = Mutex::new(vec![]);
            let g = pool.install(|| ImageBuffer::<P, Vec<u8>>::from_par_fn(w, h, |x, y| { calls.lock().unwrap().push((y, x)); tag((x * 31 + y * 17) as usize) }));
            ensure!(g == ImageBuffer::from_fn(w, h, |x, y| tag((x * 31 + y * 17) as usize)), "{what}: from_par_fn");
            let mut v = calls.into_inner().unwrap();
            v.sort();
            ensure!(v.iter().map(|t| (t.1, t.0)).eq(seq.iter().map(|s| (s.0, s.1))), "{what}: from_par_fn called its function at {v:?}");
        }
        11 => {
            // drive, without an adaptor in between
            let (mut s, mut t) = (vec![], vec![]);
            pool.install(|| {
                b.par_enumerate_pixels().collect_into_vec(&mut s);
                b.par_pixels().collect_into_vec(&mut t);
            });
            ensure!(s.into_iter().map(|(x, y, p)| (x, y, a(p))).eq(seq.iter().copied()) && t.into_iter().map(a).eq(want.iter().copied()), "{what}: collect_into_vec");
            {
                let (mut s, mut t) = (vec![], vec![]);
                pool.install(|| fresh.par_enumerate_pixels_mut().collect_into_vec(&mut s));
                ensure!(s.len() == n && s.iter().enumerate().all(|(i, e)| (e.0, e.1) == (seq[i].0, seq[i].1)), "{what}: collect_into_vec of a mutable iterator");
                s.into_iter().for_each(|(x, y, p)| *p = tag(idx(x, y)));
                ensure!(fresh.as_raw()[..] == expect_mut[..], "{what}: collect_into_vec mut");
                pool.install(|| fresh.par_pixels_mut().collect_into_vec(&mut t));
                t.into_iter().enumerate().for_each(|(i, p)| *p = tag(i));
            }
            for i in 0..n {
                ensure!(fresh.as_raw()[i * c..i * c + c] == *tag::<P>(i).channels(), "{what}: collect_into_vec mut, pixel {i}");
            }
        }
        _ => {
            let (s, t) = (b.par_enumerate_pixels(), b.par_pixels());
            ensure!(s.clone().len() == n && t.clone().len() == n, "{what}: len of clones");
            let z: Vec<bool> = pool.install(|| s.clone().zip(t.clone()).map(|((x, y, p), q)| a(p) == a(q) && (y * w + x) as usize * c + base == a(q)).collect());
            ensure!(z.len() == n && z.iter().all(|x| *x), "{what}: zip");
        }
    }
    ch.validated();
    Ok(())
}

fn main() {
    let mut c = Check::start("C11", "model_checking", "one execution = one schedule (split tree and interleaving of the pieces) of one parallel iterator; non-trivial when every visit was compared with the sequential iterator");
    let deep = !c.quick;
    c.explore("schedules", "4 iterators x 10 shapes of up to 6 pixels x 2 container surpluses x all splits into up to 3 pieces (2 above 4 pixels; thorough 4 and 3), including empty pieces, x all interleavings of the pieces' steps from either end; 1- and 4-channel pixels", |ch| if ch.flag() { produce::<Rgba<u8>>(ch, deep) } else { produce::<Luma<u8>>(ch, deep) });
    let dims: Vec<u32> = if c.quick { vec![0, 1, 2, 3, 7, 16] } else { vec![0, 1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 64] };
    let dims: Vec<(u32, u32)> = dims.iter().flat_map(|w| dims.iter().map(|h| (*w, *h))).collect();
    let long = [(65537, 2), (2, 65537), (1, 66000), (300, 300)];
    c.explore("bridged, long", "13 paths through rayon's own bridge x four sizes beyond 2^8 and 2^16 pixels a side x pools of 1, 2, 3 and 8 threads; 1- and 4-channel pixels", |ch| if ch.flag() { bridged::<Luma<u8>>(ch, &long) } else { bridged::<Rgba<u8>>(ch, &long) });
    c.explore("bridged", "13 paths through rayon's own bridge (collect, filter/for_each, rev, skip, zip, enumerate, from_par_fn) x sizes x pools of 1, 2, 3 and 8 threads; 1-, 2-, 3- and 4-channel pixels", |ch| match ch.pick(4) {
        0 => bridged::<Luma<u8>>(ch, &dims),
        1 => bridged::<LumaA<u8>>(ch, &dims),
        2 => bridged::<Rgb<u8>>(ch, &dims),
        _ => bridged::<Rgba<u8>>(ch, &dims),
    });
    c.finish()
}
