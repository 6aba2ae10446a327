//! C05: encoding does not depend on the writer's chunking and reports every failure.
//! TECHNIQUE: exhaustive exploration of fault points: the real encoders run on a writer that shortens, interrupts or fails its k-th call, for every k; saving to a path is cut at every byte by the file size limit
//! LEVEL: model_checking
//! NOTE: One deviation per execution, plus writers that always take 1 or 7 bytes or interrupt every other call; images are small (up to 40x9), so that all calls are enumerated. An encoder whose value must be dropped to complete the file (GIF) is part of the call: an error only seen at the drop counts as unreported.
use image::*;
use mc::io::{Answer, EnvWriter};
use mc::*;
use mc::writers::{self, F};

struct Case {
    name: String,
    key: String,
    f: F,
    base: Vec<u8>,
    calls: usize,
}

fn save_limit(n: u64) {
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        fn signal(s: i32, h: usize) -> usize;
    }
    // SAFETY: plain system calls; RLIMIT_FSIZE = 1, SIGXFSZ = 25 ignored, hard limit kept.
    unsafe {
        signal(25, 1);
        assert_eq!(setrlimit(1, &[n, u64::MAX]), 0);
    }
}

fn main() {
    let mut c = Check::start("C05", "model_checking", "one execution = one encoding on one writer behaviour, compared with the bytes of an undisturbed run (or required to report the failure)");
    c.hang_after(60);
    let mut cases = vec![];
    for (name, key, f) in writers::all() {
        let (mut w, data, log) = EnvWriter::new(usize::MAX, vec![]);
        let res = catch(|| f(&mut w));
        if !matches!(res, Ok(Ok(()))) {
            continue;
        }
        let l = log.borrow();
        let calls = l.writes + l.seeks + l.flushes;
        drop(w);
        let base = data.borrow().clone();
        cases.push(Case { name, key, f, base, calls });
    }
    let cases = &cases;
    let lim = if c.quick { 600 } else { 20000 };
    c.explore("chunking", "all encoders x colours x sizes and entry points on writers taking 1, 2, 7, 100 bytes at most per call, with and without an interruption of every other call", |ch| {
        let k = &cases[ch.pick(cases.len())];
        let n = ch.of(&[1usize, 2, 7, 100]);
        let intr = ch.flag();
        let dev = if intr { (0..4 * k.base.len() + 20).step_by(2).map(|i| (i, Answer::Interrupted)).collect::<Vec<_>>() } else { vec![] };
        if intr && k.base.len() > 3000 {
            return Ok(());
        }
        let (mut w, data, log) = EnvWriter::new(n, dev);
        let res = catch(|| (k.f)(&mut w));
        let what = format!("{} on a writer taking {n} bytes per call, interruptions {intr}", k.name);
        match res {
            Ok(Ok(())) => {}
            r => return viol(format!("chunking {}", k.key), format!("{what}: {r:?}")),
        }
        let got = data.borrow();
        need!(*got == k.base, format!("chunking {}", k.key), "{what}: {}", first_diff(&got, &k.base));
        ch.steps(log.borrow().writes as u64);
        ch.validated();
        ch.state(hash_of(&k.name));
        ch.sample(|| format!("{what}: {} bytes", got.len()));
        Ok(())
    });
    c.explore("deviation", "the same encoders, every call of up to 600 (20000) in turn: takes 1 byte only, is interrupted, fails once, fails for good, takes nothing for good", |ch| {
        let k = &cases[ch.pick(cases.len())];
        if k.calls > lim {
            return Ok(());
        }
        let at = ch.pick(k.calls);
        let a = ch.of(&[Answer::Short(1), Answer::Interrupted, Answer::Once, Answer::Error, Answer::Zero]);
        let (mut w, data, log) = EnvWriter::new(usize::MAX, vec![(at, a)]);
        let res = catch(|| (k.f)(&mut w));
        drop(w);
        let what = format!("{} with {a:?} at call {at} of {}", k.name, k.calls);
        let l = log.borrow();
        ch.steps((l.writes + l.seeks + l.flushes) as u64);
        let got = data.borrow();
        ch.outcome(hash_of(&(&k.name, matches!(res, Ok(Ok(()))))));
        ch.sample(|| format!("{what}: {res:?}"));
        match res {
            Err(p) => viol(format!("panic {}", k.key), format!("{what}: {p}")),
            Ok(Err(e)) => {
                need!(l.injected, format!("deviation {}", k.key), "{what}: {e}");
                ch.validated();
                Ok(())
            }
            Ok(Ok(())) => {
                // GifEncoder has no call that ends the file; the drop cannot report.
                if l.injected && k.name.starts_with("gif") && at + 1 == k.calls {
                    return viol("gif trailer", format!("{what}: success, although the trailer was not written"));
                }
                need!(!l.injected || *got == k.base, format!("unreported {}", k.key), "{what}: success, although the writer failed: {}", first_diff(&got, &k.base));
                // A failure that concerns nothing that is missing is still a failure to report, unless it was retried.
                need!(!l.injected || a == Answer::Once, format!("unreported {}", k.key), "{what}: success, although the writer failed for good");
                need!(*got == k.base, format!("deviation {}", k.key), "{what}: {}", first_diff(&got, &k.base));
                ch.validated();
                Ok(())
            }
        }
    });
    let dir = std::env::temp_dir().join(format!("mc-c05-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let saves: Vec<(&str, ImageFormat)> = vec![
        ("png", ImageFormat::Png),
        ("jpg", ImageFormat::Jpeg),
        ("gif", ImageFormat::Gif),
        ("bmp", ImageFormat::Bmp),
        ("tga", ImageFormat::Tga),
        ("ppm", ImageFormat::Pnm),
        ("tiff", ImageFormat::Tiff),
        ("qoi", ImageFormat::Qoi),
        ("webp", ImageFormat::WebP),
        ("ico", ImageFormat::Ico),
        ("ff", ImageFormat::Farbfeld),
        ("exr", ImageFormat::OpenExr),
        ("hdr", ImageFormat::Hdr),
    ];
    let d = &dir;
    // One execution waits for the others here.
    c.hang_after(400);
    c.explore("saving", "saving a small and a larger image to a path in every format by every saving function, with the file cut after every number of bytes up to its size (every 97th for files over 4000 bytes in the quick tier)", |ch| {
        let (ext, f) = ch.of(&saves);
        let (w, h) = ch.of(&[(5u32, 3u32), (70, 40)]);
        let color = match f {
            ImageFormat::Farbfeld => ColorType::Rgba16,
            ImageFormat::OpenExr | ImageFormat::Hdr => ColorType::Rgb32F,
            ImageFormat::Ico => ColorType::Rgba8,
            _ => ColorType::Rgb8,
        };
        let r = pattern(w, h, color, 2);
        let img = r.dynamic();
        let p = d.join(format!("{}-{:?}.{ext}", std::process::id(), std::thread::current().id()));
        let save = |via: usize| match via {
            0 => img.save(&p),
            1 => img.save_with_format(&p, f),
            2 => save_buffer(&p, &r.data, w, h, color),
            _ => save_buffer_with_format(&p, &r.data, w, h, color, f),
        };
        // The limit is the process's: one execution at a time.
        static LOCK: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let via = ch.pick(4);
        let _g = LOCK.lock().unwrap_or_else(|e| e.into_inner());
        save_limit(u64::MAX);
        if let Err(e) = save(1) {
            return viol(format!("save {f:?}"), format!("saving {w}x{h} {color:?} as {f:?}: {e}"));
        }
        let full = std::fs::read(&p).unwrap();
        let step = if ch.quick && full.len() > 4000 { 97 } else { 1 };
        let mut res = Ok(());
        for n in (0..full.len()).rev().step_by(step).chain([full.len()]) {
            let _ = std::fs::remove_file(&p);
            save_limit(n as u64);
            let o = catch(|| save(via));
            save_limit(u64::MAX);
            let got = std::fs::read(&p).unwrap_or_default();
            ch.step();
            ch.validated();
            let what = format!("saving {w}x{h} as {f:?} by function {via} with room for {n} of {} bytes", full.len());
            let bad = match (&o, n == full.len()) {
                (Ok(Err(_)), false) => false,
                // The order of the chunks of an EXR file is that in which its threads finish.
                (Ok(Ok(())), true) if f == ImageFormat::OpenExr => got.len() != full.len() || load_from_memory_with_format(&got, f).ok() != Some(img.clone()),
                (Ok(Ok(())), true) => got != full,
                _ => true,
            };
            if bad {
                res = viol(format!("save {f:?}"), format!("{what}: {o:?} and {} bytes", got.len()));
                break;
            }
        }
        let _ = std::fs::remove_file(&p);
        ch.outcome(hash_of(&(ext, w, full.len())));
        ch.sample(|| format!("{ext} {w}x{h}: {} bytes", full.len()));
        res
    });
    let _ = std::fs::remove_dir_all(&dir);
    c.finish()
}
