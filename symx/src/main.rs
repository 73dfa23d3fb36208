//! Symbolic execution of normalize_interval: explore and replay.
mod dense;
mod engine;
mod fin;
mod huge;
mod model;
#[cfg(feature = "serde")]
mod ser;
mod sym;
mod text;
mod z3;
mod registry;

use engine::{explore, Opts, Outcome, Witness};
use registry::{harnesses, Harness};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering as AO};
use std::time::{Duration, Instant};

fn arg(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|a| a == name).and_then(|i| v.get(i + 1).cloned())
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jwit(w: &Witness) -> String {
    format!("{{\"choices\":{:?},\"values\":{:?},\"m\":{}}}", w.choices, w.values, w.m)
}
fn list<T: std::str::FromStr>(s: &str) -> Vec<T> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or_else(|_| panic!("bad list {s}"))).collect()
}

// ---- Crash and hang reports -----------------------------------------------------
static JOB: AtomicUsize = AtomicUsize::new(0);
static CRASH_FD: AtomicI32 = AtomicI32::new(-1);
extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
fn put_num(mut v: i64) {
    let mut b = [0u8; 24];
    let mut i = b.len();
    let neg = v < 0;
    loop {
        i -= 1;
        b[i] = b'0' + (v % 10).unsigned_abs() as u8;
        v /= 10;
        if v == 0 { break; }
    }
    if neg { i -= 1; b[i] = b'-'; }
    put(&b[i..]);
}
fn put(s: &[u8]) { let _ = unsafe { write(CRASH_FD.load(AO::Relaxed), s.as_ptr(), s.len()) }; }
fn dump_slot(s: usize, what: &[u8]) {
    let d = &engine::DUMP[s];
    let n = d[0].load(AO::Acquire) as usize;
    if n < 3 || n > engine::DUMP_LEN { return; }
    put(what);
    put(b" ");
    put_num(JOB.load(AO::Relaxed) as i64);
    put(b" ");
    put_num(d[1].load(AO::Relaxed) as i64);
    put(b" c");
    let k = d[2].load(AO::Relaxed) as usize;
    for i in 3..n {
        if i == 3 + k { put(b" v") }
        put_num(d[i].load(AO::Relaxed) as i64);
        put(b",");
    }
    if n == 3 + k { put(b" v") }
    put(b"\n");
}
extern "C" fn on_abort(_: i32) {
    for s in 0..engine::SLOTS { if engine::BUSY[s].load(AO::Relaxed) { dump_slot(s, b"abort") } }
    unsafe { _exit(3) }
}
fn watchdog() {
    let mut last = [0u64; engine::SLOTS];
    let mut since = [Instant::now(); engine::SLOTS];
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let mut hung = false;
        for s in 0..engine::SLOTS {
            let p = engine::PROGRESS[s].load(AO::Relaxed);
            if p != last[s] || !engine::BUSY[s].load(AO::Relaxed) { last[s] = p; since[s] = Instant::now(); }
            else if since[s].elapsed() > Duration::from_secs(45) { dump_slot(s, b"hang"); hung = true; }
        }
        if hung { unsafe { _exit(3) } }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        engine::PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} at {at}"));
        if std::thread::current().name() == Some("main") { eprintln!("{msg} at {at}") }
    }));
    match std::env::args().nth(1).as_deref() {
        Some("list") => for h in harnesses() { println!("{} {} finite={} quick={:?} thorough={:?}", h.prop, h.name, h.finite, h.quick, h.thorough) },
        Some("explore") => run_explore(),
        Some("replay") => run_replay(),
        _ => { eprintln!("usage: symx list|explore|replay"); std::process::exit(2) }
    }
}
fn job_json(h: &Harness, args: &[usize], o: &Outcome) -> String {
    let s = &o.stats;
    let mut covers: Vec<_> = s.covers.iter().collect();
    covers.sort();
    let covers: Vec<String> = covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let found: Vec<String> = o.found.iter().map(|f| format!("{{\"msg\":{},\"wit\":{},\"wit_u8\":{}}}", js(&f.msg), jwit(&f.wit), f.wit_u8.as_ref().map_or("null".into(), jwit))).collect();
    let samples: Vec<String> = o.samples.iter().take(3).map(jwit).collect();
    format!("{{\"harness\":{},\"args\":{:?},\"finite\":{},\"types\":{:?},\"paths\":{},\"infeasible\":{},\"branches\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"max_depth\":{},\"validated\":{},\"covers\":{{{}}},\"timed_out\":{},\"mismatch\":{},\"found\":[{}],\"samples\":[{}]}}",
        js(h.name), args, h.finite, h.natives.iter().map(|n| n.0).collect::<Vec<_>>(), s.paths, s.infeasible, s.nodes, s.sat + s.unsat + s.unknown, s.sat, s.unsat, s.unknown, s.cached,
        s.solver_ns as f64 / 1e9, o.wall.as_secs_f64(), s.max_depth, s.validated, covers.join(","), o.timed_out,
        o.mismatch.as_deref().map_or("null".into(), js), found.join(","), samples.join(","))
}
fn run_explore() {
    let prop = arg("--prop").expect("--prop");
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let out = arg("--out").expect("--out");
    let only = arg("--only");
    let only_args = arg("--args").map(|s| list::<usize>(&s));
    let threads = arg("--threads").map_or(8, |s| s.parse().unwrap());
    let quick_s: u64 = arg("--budget").map_or(600, |s| s.parse().unwrap());
    let extra_s: u64 = arg("--extra").map_or(0, |s| s.parse().unwrap());
    let dump_dir = arg("--dump");
    let crash = std::fs::File::create(format!("{out}.crash")).expect("crash file");
    use std::os::fd::IntoRawFd;
    CRASH_FD.store(crash.into_raw_fd(), AO::Relaxed);
    unsafe { let _ = signal(6, on_abort as *const () as usize); }
    let _ = std::thread::spawn(watchdog);
    let hs = harnesses();
    // (harness, args, required)
    let mut jobs: Vec<(&Harness, Vec<usize>, bool)> = vec![];
    for h in hs.iter().filter(|h| h.prop == prop && only.as_ref().map_or(true, |o| o == h.name)) {
        for a in h.quick { jobs.push((h, a.to_vec(), true)) }
        if thorough { for a in h.thorough { jobs.push((h, a.to_vec(), false)) } }
    }
    if let Some(a) = only_args { let h = jobs[0].0; jobs = vec![(h, a, true)]; }
    // Required ones first; small structures before large ones.
    jobs.sort_by_key(|j| (!j.2, j.1.iter().copied().max().unwrap_or(0)));
    if let Some(f) = arg("--jobs") {
        // Exactly the listed jobs, in that order: lines "harness a,b,c".
        let text = std::fs::read_to_string(&f).expect("jobs list");
        jobs = text.lines().map(|l| {
            let (n, a) = l.split_once(' ').unwrap_or((l, ""));
            (hs.iter().find(|h| h.name == n && h.prop == prop).expect("harness of the jobs list"), list::<usize>(a), true)
        }).collect();
    }
    if jobs.is_empty() { eprintln!("no harness for {prop}"); std::process::exit(2) }
    let start = Instant::now();
    let mut lines = vec![];
    let mut names = String::new();
    for (n, (h, a, _)) in jobs.iter().enumerate() { let _ = writeln!(names, "{n} {} {}", h.name, a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); }
    std::fs::write(format!("{out}.jobs"), names).expect("jobs file");
    for (n, (h, a, required)) in jobs.iter().enumerate() {
        JOB.store(n, AO::Relaxed);
        let deadline = start + Duration::from_secs(if *required { quick_s } else { quick_s.max(extra_s) });
        if Instant::now() > deadline {
            lines.push(format!("{{\"harness\":{},\"args\":{:?},\"skipped\":true,\"required\":{}}}", js(h.name), a, required));
            continue;
        }
        let f = h.sym;
        let g = h.natives[0].1;
        let o = explore(&|| f(a), &|w| sym::run_native(&|| g(a), w), &Opts { threads, finite: h.finite, max_found: 6, deadline, dump_every: if dump_dir.is_some() { 997 } else { 0 }, validate: true });
        let mut l = job_json(h, a, &o);
        l.truncate(l.len() - 1);
        l.push_str(&format!(",\"required\":{required}}}"));
        lines.push(l);
        if arg("--verbose").is_some() {
            eprintln!("{:20} {:14} paths {:8} infeas {:7} branches {:9} queries {:9} solver {:7.2}s wall {:6.2}s found {} {} covers {:?}", h.name, format!("{a:?}"), o.stats.paths, o.stats.infeasible, o.stats.nodes,
                o.stats.sat + o.stats.unsat, o.stats.solver_ns as f64 / 1e9, o.wall.as_secs_f64(), o.found.len(), if o.timed_out { "TIMEOUT" } else { "" }, o.stats.covers);
            for f in o.found.iter().take(3) { eprintln!("    {} {:?}", f.msg, f.wit) }
            if let Some(m) = &o.mismatch { eprintln!("    MISMATCH {m}") }
        }
        if let Some(d) = &dump_dir {
            for (i, q) in o.dumps.iter().take(6).enumerate() { std::fs::write(format!("{d}/{}-{n}-{i}.smt2", h.name), format!("{q}\n(check-sat)\n")).expect("dump"); }
        }
        if !o.found.is_empty() || o.mismatch.is_some() { break; }
    }
    std::fs::write(&out, format!("{{\"z3\":{},\"wall_s\":{:.3},\"jobs\":[\n{}\n]}}\n", js(&z3::version()), start.elapsed().as_secs_f64(), lines.join(",\n"))).expect("write");
    unsafe { _exit(0) }
}
fn run_replay() {
    let path = std::env::args().nth(2).expect("replay file");
    let text = std::fs::read_to_string(&path).unwrap_or_else(|e| { eprintln!("{path}: {e}"); std::process::exit(2) });
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix('='))).unwrap_or("").to_string();
    let name = get("harness");
    let args: Vec<usize> = list(&get("args"));
    let ty = get("type");
    let w = Witness { choices: list(&get("choices")), values: list(&get("values")), m: get("m").parse().unwrap_or(0) };
    let hs = harnesses();
    let Some(h) = hs.iter().find(|h| h.name == name) else { eprintln!("no harness {name}"); std::process::exit(2) };
    let Some((_, f)) = h.natives.iter().find(|n| n.0 == ty) else { eprintln!("harness {name} has no type {ty}"); std::process::exit(2) };
    let r = std::thread::Builder::new().stack_size(64 << 20).spawn({ let f = *f; move || sym::run_native(&|| f(&args), &w) }).unwrap().join();
    match r {
        Ok(Ok(_)) => { println!("OK: the property holds on this input"); std::process::exit(0) }
        Ok(Err(m)) if m == "inputs do not fit the harness" => { println!("SKIP: {m}"); std::process::exit(4) }
        Ok(Err(m)) => { println!("FAIL: {m}"); std::process::exit(1) }
        Err(_) => { println!("FAIL: crashed"); std::process::exit(1) }
    }
}
