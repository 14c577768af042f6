//! harness PROPERTY --seed N --secs S --threads T --out FILE   runs numbered cases until the time is up
//! harness PROPERTY --seed N --case I                          runs one case (replay)
mod alloc; mod gen; mod io; mod props; mod refc; mod rng; mod schema; mod tree; mod tree_async; mod tree_sync; mod val;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static METER: alloc::Meter = alloc::Meter;

fn arg(k: &str) -> Option<String> { let a: Vec<String> = std::env::args().collect(); a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 || c as u32 > 126 => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); } } c => o.push(c) } } o.push('"'); o }
struct One { res: props::Res, evals: u64, shape: u64 }
fn one(f: fn(&mut props::Cx) -> props::Res, prop: &str, seed: u64, idx: u64) -> One {
    let p = prop.bytes().fold(seed, |a, b| rng::mix(a, b as u64));
    let mut cx = props::Cx { idx, r: rng::Rng::new(rng::mix(p, idx)), evals: 0, shape: idx };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx)));
    let res = match r { Ok(r) => r, Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
    One { res, evals: cx.evals, shape: cx.shape }
}
fn main() {
    let prop = std::env::args().nth(1).expect("property");
    let seed: u64 = arg("--seed").map_or(1, |s| s.parse().unwrap());
    let all = props::props();
    let f = all.iter().find(|p| p.0 == prop).unwrap_or_else(|| panic!("no such property {}", prop)).1;
    if let Some(d) = arg("--dict") { rng::load_dict(&d); }
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(i) = arg("--case") {
        let o = std::thread::Builder::new().stack_size(4 << 20).spawn(move || one(f, &prop, seed, i.parse().unwrap())).unwrap().join().unwrap();
        match o.res { Ok(()) => println!("case holds"), Err(e) => { println!("{}", e); std::process::exit(1) } }
        return;
    }
    let secs: f64 = arg("--secs").map_or(5.0, |s| s.parse().unwrap());
    let threads: u64 = arg("--threads").map_or(6, |s| s.parse().unwrap());
    let min_cases: u64 = arg("--min").map_or(600, |s| s.parse().unwrap());
    let marks = arg("--marks");
    let out = arg("--out");
    let t0 = Instant::now();
    let stop = AtomicBool::new(false);
    let fail: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let (cases, evals) = (AtomicU64::new(0), AtomicU64::new(0));
    let cur: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let tids: Vec<Mutex<String>> = (0..threads).map(|_| Mutex::new(String::new())).collect();
    // processor time a thread has used, in ticks of 10 ms
    let cpu = |t: &str| -> Option<u64> { let s = std::fs::read_to_string(format!("/proc/{}/stat", t)).ok()?; let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect(); Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) };
    let mut late: Vec<Option<(u64, Option<u64>)>> = vec![None; threads as usize];
    let shapes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let report = |fail: Option<&(u64, String)>, n: u64, e: u64, d: usize| {
        let body = format!("{{\"property\": {}, \"seed\": {}, \"cases\": {}, \"evaluations\": {}, \"distinct\": {}, \"wall_s\": {:.2}, \"failure\": {}}}\n", js(&prop), seed, n, e, d, t0.elapsed().as_secs_f64(),
            match fail { None => "null".to_string(), Some((i, m)) => format!("{{\"case\": {}, \"message\": {}}}", i, js(m)) });
        match &out { Some(p) => std::fs::write(p, body).unwrap(), None => print!("{}", body) }
    };
    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..threads {
            let (stop, fail, cases, evals, cur, shapes, prop, marks, tids) = (&stop, &fail, &cases, &evals, &cur, &shapes, &prop, &marks, &tids);
            hs.push(std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, move || {
                use std::os::unix::fs::FileExt;
                if let Ok(t) = std::fs::read_link("/proc/thread-self") { *tids[w as usize].lock().unwrap() = t.to_string_lossy().into_owned(); }
                let mark = marks.as_ref().map(|m| std::fs::File::create(format!("{}.{}", m, w)).unwrap());
                let mut seen = HashSet::new();
                let mut i = w;
                while !stop.load(SeqCst) && (t0.elapsed().as_secs_f64() < secs || i < min_cases) {
                    cur[w as usize].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                    cur[w as usize].0.store(i, SeqCst);
                    if let Some(m) = &mark { let _ = m.write_at(&i.to_le_bytes(), 0); }
                    let o = one(f, prop, seed, i);
                    cases.fetch_add(1, SeqCst);
                    evals.fetch_add(o.evals, SeqCst);
                    seen.insert(o.shape);
                    if let Err(e) = o.res { let mut g = fail.lock().unwrap(); if g.as_ref().map_or(true, |(j, _)| i < *j) { *g = Some((i, e)); } stop.store(true, SeqCst); break; }
                    i += threads;
                }
                cur[w as usize].0.store(u64::MAX, SeqCst);
                shapes.lock().unwrap().extend(seen);
            }).unwrap());
        }
        loop {
            std::thread::sleep(Duration::from_millis(20));
            if hs.iter().all(|h| h.is_finished()) { break; }
            let now = t0.elapsed().as_millis() as u64;
            for (w, c) in cur.iter().enumerate() { let i = c.0.load(SeqCst); let wall = now.saturating_sub(c.1.load(SeqCst)); if i != u64::MAX && wall > 30_000 && c.0.load(SeqCst) == i {
                // slow, or slowed down?  It must also use 15 s of processor time of its own from here on, or 300 s must pass
                let used = cpu(&tids[w].lock().unwrap());
                match &late[w] { Some((j, at)) if *j == i => { if wall < 300_000 && !matches!((at, used), (Some(a), Some(u)) if u > a + 1500) { continue; } } _ => { late[w] = Some((i, used)); continue; } }
                report(Some(&(i, "the case does not finish (30 s, and 15 s more of processor time): the code under test does not terminate".into())), cases.load(SeqCst), evals.load(SeqCst), 0);
                std::process::exit(1);
            } }
        }
    });
    let g = fail.lock().unwrap();
    let d = shapes.lock().unwrap().len();
    report(g.as_ref(), cases.load(SeqCst), evals.load(SeqCst), d);
    if g.is_some() { std::process::exit(1); }
}
