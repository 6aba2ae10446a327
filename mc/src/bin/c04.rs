//! C04: a failing read is reported, never turned into an image.
//! TECHNIQUE: exhaustive exploration of fault points: the real decoders run on a reader that fails permanently at the k-th read or seek, for every k, every file, every access path and several delivery granularities
//! LEVEL: model_checking
//! NOTE: Every call index up to the stated number of calls is faulted, once and for good; one fault per execution. Metadata reported separately is not part of the outcome if reading it failed.
use mc::io::{Answer, EnvReader};
use mc::paths::*;
use mc::*;
use std::io::{BufReader, Cursor};
use std::rc::Rc;

struct Case {
    name: String,
    f: image::ImageFormat,
    bytes: Vec<u8>,
    path: Path,
    base: Outcome,
    calls: Vec<usize>,
}
const MODES: [(usize, usize); 5] = [(usize::MAX, 0), (1, 0), (5, 0), (33, 16), (usize::MAX, 512)];

fn go(c: &Case, mode: usize, dev: Vec<(usize, Answer)>) -> (Result<Outcome, String>, usize, bool) {
    let (chunk, wrap) = MODES[mode];
    let (r, log) = EnvReader::new(Rc::new(c.bytes.clone()), chunk, dev);
    let o = match wrap {
        0 => run(c.path, c.f, r),
        n => run(c.path, c.f, BufReader::with_capacity(n, r)),
    };
    let l = log.borrow();
    (o, l.reads + l.seeks, l.injected)
}

fn main() {
    let mut c = Check::start("C04", "model_checking", "one execution is one decoding of one file by one access path with one permanent fault; it counts when the fault was delivered and the outcome compared with the fault-free one");
    c.hang_after(60);
    let mut cases = vec![];
    for f in corpus::all() {
        for path in PATHS {
            if !applies(path, f.format, true) {
                continue;
            }
            let bytes = f.bytes.to_vec();
            let Ok(base) = run(path, f.format, Cursor::new(&bytes[..])) else { continue };
            if base.error.is_some() {
                continue;
            }
            let mut k = Case { name: f.name.clone(), f: f.format, bytes, path, base, calls: vec![] };
            for m in 0..MODES.len() {
                k.calls.push(if MODES[m].0 < 16 && k.bytes.len() > 12000 { 0 } else { go(&k, m, vec![]).1 });
            }
            cases.push(k);
        }
    }
    let cases = &cases;
    let lim = if c.quick { 2500 } else { 40000 };
    c.explore("faults", "every read and seek of every access path in turn fails, once or for good: all files with up to 2500 (40000) calls, delivered whole, by 1, by 5, by 33 bytes through a 16-byte buffer, and through a 512-byte buffer", |ch| {
        let k = &cases[ch.pick(cases.len())];
        let m = ch.pick(MODES.len());
        let n = k.calls[m];
        if n == 0 || n > lim {
            return Ok(());
        }
        let at = ch.pick(n);
        let fault = ch.of(&[Answer::Error, Answer::Once]);
        let (o, calls, injected) = go(k, m, vec![(at, fault)]);
        ch.steps(calls as u64);
        let what = format!("{} via {:?}, delivery {:?}, {fault:?} at call {at} of {n}", k.name, k.path, MODES[m]);
        let o = match o {
            Ok(o) => o,
            Err(p) => return viol(format!("{:?} panic", k.f), format!("{what}: {p}")),
        };
        if !injected {
            return Ok(());
        }
        ch.validated();
        ch.outcome(hash_of(&(&k.name, o.shots.len(), &o.error)));
        ch.sample(|| format!("{what}: {}", o.brief()));
        for (i, s) in o.shots.iter().enumerate() {
            if k.base.shots.get(i) != Some(s) {
                // Metadata may be missing from an image only if the call for it did not report the fault.
                return viol(format!("{:?} wrong", k.f), format!("{what}: image {i} of {} differs from the fault-free one: {}", k.base.shots.len(), short(&format!("{s:?}"))));
            }
        }
        ensure!(o.error.is_some() || o.shots.len() == k.base.shots.len(), "{what}: {} instead of {}", o.brief(), k.base.brief());
        Ok(())
    });
    c.finish()
}
