mod bsim;
mod codec;
mod disc;
mod exec;
mod cases;
mod hs;
mod intro;
mod model;
mod msg;
mod oracle;
mod rng;
mod stream;
mod wire;

use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: codec::Counting = codec::Counting;

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() }

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    exec::install_hook();
    let secs: u64 = arg(&a, "--seconds").and_then(|s| s.parse().ok()).unwrap_or(10);
    let seed: u64 = arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let prop = arg(&a, "--prop").unwrap_or_else(|| "C11".into());
    let out = arg(&a, "--replay-out");
    let code = match a.first().map(|s| s.as_str()) {
        Some("broker") => broker(&prop, secs, seed, out),
        Some("handshake") => {
            let (n, f) = hs::all_handshakes();
            println!("STATS {{\"handshakes\": {n}}}");
            match f { None => 0, Some((head, what)) => { println!("FOUND [\"C12\"]: {head}: {what}"); report(out, &head, &what, &[]); 1 } }
        }
        Some("known") => {
            if prop == "C09" && hs::known_dropped_task() { println!("KNOWN dropped-task"); }
            if prop == "C11" && hs::known_garbage_payload() { println!("KNOWN garbage-payload"); }
            0
        }
        Some("stream") => cases("stream", &["packetizer", "transport"], stream::one, secs, seed, out),
        Some("codec") => {
            let kinds: Vec<String> = arg(&a, "--kinds").unwrap_or_else(|| "roundtrip,bytes,convert".into()).split(',').map(|s| s.to_string()).collect();
            let kinds: Vec<&str> = kinds.iter().map(|s| s.as_str()).collect();
            guarded("codec", &a, secs, out.clone(), |out| cases("codec", &kinds, codec::one, secs, seed, out))
        }
        Some("message") => guarded("message", &a, secs, out.clone(), |out| cases("message", &["frames", "damaged", "bytes"], msg::one, secs, seed, out)),
        Some("discover") => cases("discover", &["short", "short", "long"], disc::one, secs, seed, out),
        Some("introspect") => cases("introspect", &["layouts", "layouts", "layouts", "generated", "layouts", "library"], intro::one, secs, seed, out),
        Some("replay") => replay(&a[1]),
        _ => { eprintln!("usage: vh broker|replay"); 2 }
    };
    std::process::exit(code);
}

fn report(out: Option<String>, head: &str, what: &str, log: &[String]) {
    let text = format!("{head}\n# {what}\n{}\n", log.iter().map(|l| format!("#   {l}")).collect::<Vec<_>>().join("\n"));
    match out { Some(p) => std::fs::write(p, text).unwrap(), None => print!("{text}") }
}

fn broker(prop: &str, secs: u64, seed: u64, out: Option<String>) -> i32 {
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let end = Instant::now() + Duration::from_secs(secs);
    let found = std::sync::Mutex::new(None::<(bsim::Trace, bsim::Fail)>);
    let total = std::sync::Mutex::new((0usize, 0usize, 0usize, 0usize));
    let stop = std::sync::atomic::AtomicBool::new(false);
    let slots: Vec<std::sync::Mutex<Option<(Instant, String)>>> = (0..threads).map(|_| std::sync::Mutex::new(None)).collect();
    let running = std::sync::atomic::AtomicUsize::new(threads);
    std::thread::scope(|s| {
        {
            let (slots, running, out) = (&slots, &running, &out);
            s.spawn(move || while running.load(std::sync::atomic::Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(100));
                for sl in slots {
                    if let Some((t, tr)) = &*sl.lock().unwrap() {
                        if t.elapsed() > Duration::from_secs(20) {
                            println!("FOUND {prop:?}: the broker does not return from handling an event (no progress for 20 s)");
                            report(out.clone(), tr, "no progress for 20 s", &[]);
                            std::process::exit(1);
                        }
                    }
                }
            });
        }
        for t in 0..threads {
            let (found, total, stop) = (&found, &total, &stop);
            let (slot, running) = (&slots[t], &running);
            s.spawn(move || {
                let mut r = rng::Rng::new(seed.wrapping_mul(1_000_003) + t as u64);
                let mut st = (0, 0);
                let (mut traces, mut other) = (0, 0);
                while Instant::now() < end && !stop.load(std::sync::atomic::Ordering::Relaxed) {
                    let len = [12, 30, 60, 150][r.below(4)];
                    let focus = if r.chance(1, 5) { "all" } else { prop };
                    let tr = bsim::gen_trace(&mut r, len);
                    traces += 1;
                    *slot.lock().unwrap() = Some((Instant::now(), bsim::encode_trace(focus, &tr)));
                    match bsim::run_trace(focus, &tr, &mut st) {
                        Ok(_) => {}
                        Err(e) if e.props.contains(prop) => {
                            let mut f = found.lock().unwrap();
                            if f.is_none() {
                                *f = Some((tr, e));
                                drop(f);
                                FOCUS.lock().unwrap().push_str(focus);
                            }
                            stop.store(true, std::sync::atomic::Ordering::Relaxed);
                        }
                        Err(e) => { other += 1; if other == 1 { eprintln!("note: different property {:?}: {}", e.props, e.what); } }
                    }
                }
                *slot.lock().unwrap() = None;
                running.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                let mut g = total.lock().unwrap();
                g.0 += traces; g.1 += st.0; g.2 += st.1; g.3 += other;
            });
        }
    });
    let g = total.into_inner().unwrap();
    println!("STATS {{\"histories\": {}, \"messages\": {}, \"broker_polls\": {}, \"attributed_elsewhere\": {}}}", g.0, g.1, g.2, g.3);
    let Some((tr, first)) = found.into_inner().unwrap() else { return 0 };
    let focus = FOCUS.lock().unwrap().clone();
    let original = bsim::encode_trace(&focus, &tr);
    let tr = bsim::shrink(&focus, tr, prop, Instant::now() + Duration::from_secs(10));
    let (head, e) = match attempt(&focus, &tr, prop) {
        Some(e) => (bsim::encode_trace(&focus, &tr), e),
        None => (original, first),
    };
    println!("FOUND {:?}: {}", e.props, e.what);
    report(out, &head, &e.what, &e.log);
    1
}
/// Runs a history until it fails (iteration orders of hash maps differ from run to run).
fn attempt(focus: &str, tr: &bsim::Trace, prop: &str) -> Option<bsim::Fail> {
    let end = Instant::now() + Duration::from_secs(10);
    for _ in 0..500 {
        match bsim::run_trace(focus, tr, &mut (0, 0)) {
            Err(e) if prop.is_empty() || e.props.contains(prop) => return Some(e),
            _ if Instant::now() > end => return None,
            _ => {}
        }
    }
    None
}
static FOCUS: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn verdict(r: Result<usize, String>) -> i32 {
    match r { Ok(_) => { println!("HOLDS"); 0 } Err(e) => { println!("FAILS: {e}"); 1 } }
}

static SLOTS: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
/// Leaves the case about to run where the parent process finds it.
fn note(thread: usize, kind: &str, seed: u64) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = SLOTS.get() { let _ = f.write_all_at(format!("{kind:<20} {seed:<22}\n").as_bytes(), thread as u64 * 44); }
}
/// Runs the cases in a child process, so that exhausting the stack or the memory is reported as a failing case.
fn guarded(cmd: &str, args: &[String], secs: u64, out: Option<String>, run: impl FnOnce(Option<String>) -> i32) -> i32 {
    if let Ok(p) = std::env::var("VH_SLOTS") {
        let _ = SLOTS.set(std::fs::OpenOptions::new().write(true).open(p).unwrap());
        return run(out);
    }
    let slots = std::env::temp_dir().join(format!("vh-slots-{}", std::process::id()));
    std::fs::write(&slots, "").unwrap();
    let me = std::env::current_exe().unwrap();
    let limit = |c: &mut std::process::Command| { c.env("VH_SLOTS", &slots); };
    let mut c = std::process::Command::new(&me);
    c.args(args);
    limit(&mut c);
    let mut child = c.spawn().unwrap();
    let end = Instant::now() + Duration::from_secs(secs + 60);
    let st = loop {
        if let Some(s) = child.try_wait().unwrap() { break s; }
        if Instant::now() > end { let _ = child.kill(); break child.wait().unwrap(); }
        std::thread::sleep(Duration::from_millis(20));
    };
    let text = std::fs::read_to_string(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    if let Some(c) = st.code() { if c == 0 || c == 1 { return c; } }
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() != 2 { continue; }
        let rp = std::env::temp_dir().join(format!("vh-case-{}", std::process::id()));
        std::fs::write(&rp, format!("{cmd} {} {}\n", w[0], w[1])).unwrap();
        let mut child = std::process::Command::new(&me).arg("replay").arg(&rp).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
        let end = Instant::now() + Duration::from_secs(20);
        let s = loop {
            if let Some(s) = child.try_wait().unwrap() { break Some(s); }
            if Instant::now() > end { let _ = child.kill(); let _ = child.wait(); break None; }
            std::thread::sleep(Duration::from_millis(20));
        };
        let _ = std::fs::remove_file(&rp);
        if s.map(|s| s.code() != Some(0)).unwrap_or(true) {
            let what = match s { None => "does not return within 20 s".to_string(), Some(s) => format!("the process ends abnormally ({s}): stack or memory exhausted") };
            println!("STATS {{\"crashed\": 1}}");
            println!("FOUND {cmd} {}: {what}", w[0]);
            report(out, &format!("{cmd} {} {}", w[0], w[1]), &what, &[]);
            return 1;
        }
    }
    eprintln!("the child ended with {st}, no case reproduces it");
    2
}

/// Cases that are a function of one seed each, spread over all threads.
fn cases(cmd: &str, kinds: &[&str], f: fn(&str, u64) -> Result<usize, String>, secs: u64, seed: u64, out: Option<String>) -> i32 {
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let end = Instant::now() + Duration::from_secs(secs);
    let found = std::sync::Mutex::new(None::<(String, u64, String)>);
    let total = std::sync::Mutex::new(std::collections::BTreeMap::<String, (usize, usize)>::new());
    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (found, total, stop) = (&found, &total, &stop);
            s.spawn(move || {
                let mut n = 0u64;
                let mut st = std::collections::BTreeMap::<String, (usize, usize)>::new();
                while Instant::now() < end && !stop.load(std::sync::atomic::Ordering::Relaxed) {
                    let k = kinds[n as usize % kinds.len()];
                    let sd = rng::Rng::new(seed.wrapping_mul(7919).wrapping_add((n << 8) + t as u64)).next() >> 1;
                    n += 1;
                    note(t, k, sd);
                    match f(k, sd) {
                        Ok(x) => { let e = st.entry(k.into()).or_default(); e.0 += 1; e.1 += x; }
                        Err(e) => {
                            let mut g = found.lock().unwrap();
                            if g.is_none() { *g = Some((k.into(), sd, e)); }
                            stop.store(true, std::sync::atomic::Ordering::Relaxed);
                        }
                    }
                }
                let mut g = total.lock().unwrap();
                for (k, v) in st { let e = g.entry(k).or_default(); e.0 += v.0; e.1 += v.1; }
            });
        }
    });
    let st: Vec<String> = total.into_inner().unwrap().iter().map(|(k, v)| format!("\"{k}_cases\": {}, \"{k}_items\": {}", v.0, v.1)).collect();
    println!("STATS {{{}}}", st.join(", "));
    match found.into_inner().unwrap() {
        None => 0,
        Some((k, sd, what)) => {
            println!("FOUND {k}: {what}");
            report(out, &format!("{cmd} {k} {sd}"), &what, &[]);
            1
        }
    }
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).unwrap();
    let w: Vec<&str> = text.lines().next().unwrap().split_whitespace().collect();
    match w[0] {
        "broker" => match attempt(w[1], &bsim::decode_trace(w[2]), "") {
            None => { println!("HOLDS"); 0 }
            Some(e) => { for l in &e.log { println!("  {l}"); } println!("FAILS {:?}: {}", e.props, e.what); 1 }
        },
        "codec" => verdict(codec::one(w[1], w[2].parse().unwrap())),
        "message" => verdict(msg::one(w[1], w[2].parse().unwrap())),
        "discover" => {
            // iteration orders of hash maps differ from run to run
            let f = (0..300).find_map(|_| disc::one(w[1], w[2].parse().unwrap()).err());
            verdict(match f { Some(e) => Err(e), None => Ok(0) })
        }
        "introspect" => verdict(intro::one(w[1], w[2].parse().unwrap())),
        "stream" => verdict(stream::one(w[1], w[2].parse().unwrap())),
        "handshake" => match hs::replay(&w) { Ok(()) => { println!("HOLDS"); 0 } Err(e) => { println!("FAILS: {e}"); 1 } },
        _ => 2,
    }
}
