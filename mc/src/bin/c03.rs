//! C03: decoding does not depend on how the reader delivers its bytes.
//! TECHNIQUE: exhaustive exploration of reader schedules: the real decoders run on a reader whose every answer (short, interrupted) is chosen by the explorer, with all single deviations (and all pairs on small files) from each default chunk size
//! LEVEL: model_checking
//! NOTE: Errors are compared as failure, not by text.
use mc::io::{Answer, EnvReader};
use mc::paths::*;
use mc::*;
use std::io::{BufReader, Cursor};
use std::rc::Rc;

struct Case {
    name: String,
    f: image::ImageFormat,
    bytes: Vec<u8>,
    path: Path,
    base: Outcome,
    /// Environment calls at each default chunk size.
    calls: Vec<usize>,
}
const CHUNKS: [usize; 6] = [usize::MAX, 1, 2, 3, 7, 64];

fn go(c: &Case, chunk: usize, dev: Vec<(usize, Answer)>, wrap: usize) -> (Result<Outcome, String>, usize) {
    let (r, log) = EnvReader::new(Rc::new(c.bytes.clone()), chunk, dev);
    let o = match wrap {
        0 => run(c.path, c.f, r),
        n => run(c.path, c.f, BufReader::with_capacity(n, r)),
    };
    let l = log.borrow();
    (o, l.reads + l.seeks)
}
fn judge(c: &Case, what: String, o: Result<Outcome, String>, interrupted: bool) -> Res {
    match o {
        Err(p) => viol("", format!("{} via {:?}, {what}: {p}", c.name, c.path)),
        Ok(o) if !o.same(&c.base) => {
            // An interruption that is reported as a failure is identified by the codec that does not retry it; a wrong image never is.
            let prefix = o.shots.len() <= c.base.shots.len() && o.shots[..] == c.base.shots[..o.shots.len()];
            let codec = if c.f == image::ImageFormat::Ico && c.bytes.windows(8).any(|w| w == forge::PNG_SIG) { "Ico-png".into() } else { format!("{:?}", c.f) };
            let key = if interrupted && prefix && o.error.is_some() { format!("interrupted {codec}") } else { String::new() };
            viol(key, format!("{} via {:?}, {what}: {} instead of {}", c.name, c.path, o.brief(), c.base.brief()))
        }
        _ => Ok(()),
    }
}

fn main() {
    let mut c = Check::start("C03", "model_checking", "one execution is one decoding of one file by one access path under one schedule of reader answers; it counts when its outcome was compared with the undisturbed one");
    let mut cases = vec![];
    for f in corpus::all() {
        for path in PATHS {
            let animated = {
                let o = run(Path::Frames, f.format, Cursor::new(&f.bytes[..]));
                applies(Path::Frames, f.format, true) && o.map(|o| o.error.is_none() && !o.shots.is_empty()).unwrap_or(false)
            };
            if !applies(path, f.format, animated) {
                continue;
            }
            for cut in [f.bytes.len(), f.bytes.len() * 2 / 3, f.bytes.len() / 3] {
                let bytes = f.bytes[..cut].to_vec();
                let Ok(base) = run(path, f.format, Cursor::new(&bytes[..])) else { continue };
                let name = if cut == f.bytes.len() { f.name.clone() } else { format!("{}[..{cut}]", f.name) };
                let mut k = Case { name, f: f.format, bytes, path, base, calls: vec![] };
                for ch in CHUNKS {
                    k.calls.push(if ch != usize::MAX && k.bytes.len() > 12000 { 0 } else { go(&k, ch, vec![], 0).1 });
                }
                cases.push(k);
            }
        }
    }
    let cases = &cases;
    c.explore("chunks", "every corpus file (and two truncations) by every access path, with the reader delivering 1, 2, 3, 7, 64 bytes at a time, directly and through buffers of 1, 5, 16 and 4096 bytes", |ch| {
        let k = &cases[ch.pick(cases.len())];
        let chunk = ch.of(&CHUNKS);
        let wrap = ch.of(&[0, 1, 5, 16, 4096]);
        let (o, n) = go(k, chunk, vec![], wrap);
        ch.steps(n as u64);
        ch.outcome(hash_of(&(&k.base.shots, k.base.error.is_some())));
        ch.validated();
        ch.sample(|| format!("{} via {:?}: chunks of {chunk} through a buffer of {wrap}: {}", k.name, k.path, k.base.brief()));
        judge(k, format!("chunks of {chunk} through a buffer of {wrap}"), o, false)
    });
    let (lim1, lim2) = if c.quick { (900, 0) } else { (6000, 120) };
    c.explore("one-deviation", "every call of the reader in turn answered short (1, 2, 5 bytes) or interrupted, from whole-buffer delivery (all files) and from 1- and 7-byte delivery (files up to 900 (6000) bytes), interruptions also through a 64-byte buffer", |ch| {
        let k = &cases[ch.pick(cases.len())];
        let ci = ch.of(&[0usize, 1, 4]);
        let n = k.calls[ci];
        if n == 0 || (ci > 0 && k.bytes.len() > lim1) || (ci == 0 && n > lim1 * 8) {
            return Ok(());
        }
        let at = ch.pick(n);
        let a = ch.of(&[Answer::Interrupted, Answer::Short(1), Answer::Short(2), Answer::Short(5)]);
        if ci == 1 && a != Answer::Interrupted {
            return Ok(());
        }
        let wrap = if a == Answer::Interrupted { ch.of(&[0, 64]) } else { 0 };
        let (o, n) = go(k, CHUNKS[ci], vec![(at, a)], wrap);
        ch.steps(n as u64);
        ch.validated();
        judge(k, format!("chunks of {}, call {at} answered {a:?}, buffer {wrap}", CHUNKS[ci]), o, a == Answer::Interrupted)
    });
    c.explore("every-other-interrupted", "an interruption before every single successful call", |ch| {
        let k = &cases[ch.pick(cases.len())];
        let ci = ch.of(&[0usize, 1, 4]);
        let n = k.calls[ci].min(20000);
        let dev = (0..=n).map(|i| (2 * i, Answer::Interrupted)).collect::<Vec<_>>();
        if dev.len() > 3000 {
            return Ok(());
        }
        let (o, n) = go(k, CHUNKS[ci], dev, 0);
        ch.steps(n as u64);
        ch.validated();
        judge(k, format!("chunks of {}, every other call interrupted", CHUNKS[ci]), o, true)
    });
    if lim2 > 0 {
        c.explore("two-deviations", "all pairs of deviating calls, whole-buffer delivery (up to 120 calls) and 7-byte delivery of files up to 120 bytes", |ch| {
            let k = &cases[ch.pick(cases.len())];
            let ci = ch.of(&[0usize, 4]);
            let n = k.calls[ci];
            if n < 2 || n > lim2 || (ci > 0 && k.bytes.len() > lim2) {
                return Ok(());
            }
            let i = ch.pick(n);
            let j = i + 1 + ch.pick(n - i);
            let (a, b) = (ch.of(&[Answer::Interrupted, Answer::Short(1)]), ch.of(&[Answer::Interrupted, Answer::Short(3)]));
            let (o, n) = go(k, CHUNKS[ci], vec![(i, a), (j, b)], 0);
            ch.steps(n as u64);
            ch.validated();
            judge(k, format!("chunks of {}, calls {i} and {j} answered {a:?} and {b:?}", CHUNKS[ci]), o, a == Answer::Interrupted || b == Answer::Interrupted)
        });
    }
    c.finish()
}
