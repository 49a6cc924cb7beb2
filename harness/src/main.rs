//! vh run PROP TIER SEED DIR    search for a failing input, report on stdout
//! vh replay FILE               check the input in a replay file again
//! vh work ...                  (a worker process of `run`)
mod canon;
mod checks;
mod errfmt;
mod estree;
mod print;
mod reflex;
mod refparse;
mod rng;
mod tree;
mod walk;
#[path = "/repo/ratel-wasm/src/lib.rs"]
#[allow(warnings)]
mod wasm;

use checks::{check, gen, Case};
use serde_json::json;
use std::io::Write;
use std::panic;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// Puts a mark behind every allocation and looks at it when the memory is given back.
struct Marked;
const MARK: usize = 32;
pub static OVERRUN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
unsafe impl std::alloc::GlobalAlloc for Marked {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(std::alloc::Layout::from_size_align_unchecked(l.size() + MARK, l.align()));
        if !p.is_null() {
            std::ptr::write_bytes(p.add(l.size()), 0xA7, MARK);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let tail = std::slice::from_raw_parts(p.add(l.size()) as *const u8, MARK);
        if tail.iter().any(|b| *b != 0xA7) {
            OVERRUN.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        std::alloc::System.dealloc(p, std::alloc::Layout::from_size_align_unchecked(l.size() + MARK, l.align()));
    }
}
#[global_allocator]
static ALLOC: Marked = Marked;

fn guarded(prop: &str, c: &Case) -> Result<bool, String> {
    let prop = prop.to_string();
    let c = c.clone();
    match panic::catch_unwind(move || check(&prop, &c)) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panicked: {}", m))
        }
    }
}

/// Cut pieces out of the text as long as the check still fails
fn shrink(prop: &str, c: &Case) -> Case {
    if matches!(prop, "O01" | "O02" | "P02" | "E01") || c.aux == "reject" {
        return c.clone();
    }
    let mut best = c.clone();
    let t0 = Instant::now();
    let mut size = best.text.chars().count() / 2;
    while size > 0 && t0.elapsed() < Duration::from_secs(5) {
        let mut at = 0;
        let mut cut = false;
        loop {
            let chars: Vec<char> = best.text.chars().collect();
            if at >= chars.len() || t0.elapsed() > Duration::from_secs(5) {
                break;
            }
            let to = (at + size).min(chars.len());
            let mut cand = best.clone();
            cand.text = chars[..at].iter().chain(&chars[to..]).collect();
            if guarded(prop, &cand).is_err() {
                best = cand;
                cut = true;
            } else {
                at += size;
            }
        }
        if !cut {
            size /= 2;
        }
    }
    best
}

fn work(prop: &str, seed: u64, from: usize, step: usize, to: usize, file: &str, secs: u64) {
    panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let out = std::io::stdout();
    let (mut n, mut hit) = (0usize, 0usize);
    let mut samples = Vec::new();
    // every worker gets a share of every kind of case (the kinds go by i modulo small numbers)
    let (mut i, mine) = (0, from);
    while i < to {
        if (i + i / step) % step != mine {
            i += 1;
            continue;
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
        if let Some(c) = gen(prop, i, seed) {
            let _ = std::fs::write(file, json!({"text": c.text, "aux": c.aux, "n": n, "hit": hit}).to_string());
            n += 1;
            match guarded(prop, &c) {
                Ok(true) => {
                    hit += 1;
                    if hit.is_power_of_two() && samples.len() < 16 && c.text.len() < 300 {
                        samples.push(c.text.clone());
                    }
                }
                Ok(false) => {}
                Err(m) => {
                    let mut o = out.lock();
                    let _ = writeln!(o, "{}", json!({"fail": {"text": c.text, "aux": c.aux, "message": m, "case": i}}));
                    let _ = o.flush();
                    let s = shrink(prop, &c);
                    if let Err(m) = guarded(prop, &s) {
                        let _ = writeln!(o, "{}", json!({"fail": {"text": s.text, "aux": s.aux, "message": m, "case": i}}));
                    }
                    let _ = writeln!(o, "{}", json!({"done": {"n": n, "hit": hit, "samples": samples}}));
                    return;
                }
            }
        }
        i += 1;
    }
    let _ = writeln!(out.lock(), "{}", json!({"done": {"n": n, "hit": hit, "samples": samples, "stopped_at": i}}));
}

fn run(prop: &str, tier: &str, seed: u64, dir: &str) {
    let total = checks::cases(prop, tier);
    let jobs = 8.min(total.max(1));
    let secs: u64 = std::env::var("VH_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 500 } else { 60 });
    let stall = 30u64;
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let mut kids = Vec::new();
    for j in 0..jobs {
        let file = format!("{}/case-{}-{}.json", dir, prop, j);
        let outf = format!("{}/out-{}-{}.txt", dir, prop, j);
        let _ = std::fs::remove_file(&file);
        let out = std::fs::File::create(&outf).unwrap();
        let args = [
            "work".to_string(), prop.to_string(), seed.to_string(), j.to_string(), jobs.to_string(), total.to_string(), file.clone(), secs.to_string(),
        ];
        // a worker may take 3 GB: a text on which the code never stops allocating ends the worker, not the machine
        let kid = Command::new("sh").args(["-c", "ulimit -v 3000000; exec \"$0\" \"$@\""]).arg(&exe).args(&args).stdout(out).stderr(Stdio::null()).spawn().unwrap();
        kids.push((kid, file, outf, String::new(), Instant::now(), None::<String>));
    }
    let mut fails = Vec::new();
    let mut live = kids.len();
    let mut ended = vec![false; kids.len()];
    while live > 0 {
        std::thread::sleep(Duration::from_millis(20));
        for (j, k) in kids.iter_mut().enumerate() {
            if ended[j] {
                continue;
            }
            let verdict = match k.0.try_wait() {
                Ok(Some(st)) if st.success() => Some(None),
                Ok(Some(st)) => Some(Some(format!("crashed: {}", st))),
                Ok(None) => {
                    let cur = std::fs::read_to_string(&k.1).unwrap_or_default();
                    if cur != k.3 {
                        k.3 = cur;
                        k.4 = Instant::now();
                        None
                    } else if k.4.elapsed() > Duration::from_secs(stall) {
                        let _ = k.0.kill();
                        let _ = k.0.wait();
                        Some(Some(format!("does not return within {} s", stall)))
                    } else {
                        None
                    }
                }
                Err(e) => Some(Some(format!("{}", e))),
            };
            if let Some(v) = verdict {
                ended[j] = true;
                live -= 1;
                k.5 = v;
            }
        }
    }
    let (mut n, mut hit) = (0u64, 0u64);
    let mut samples = Vec::new();
    for k in &kids {
        let out = std::fs::read_to_string(&k.2).unwrap_or_default();
        let mut fail = None;
        for l in out.lines() {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(l) {
                if let Some(f) = v.get("fail") {
                    fail = Some(f.clone());
                }
                if let Some(d) = v.get("done") {
                    n += d["n"].as_u64().unwrap_or(0);
                    hit += d["hit"].as_u64().unwrap_or(0);
                    if let Some(s) = d["samples"].as_array() {
                        samples.extend(s.iter().cloned());
                    }
                }
            }
        }
        if let Some(m) = &k.5 {
            if fail.is_none() {
                let cur = std::fs::read_to_string(&k.1).unwrap_or_default();
                if let Ok(v) = serde_json::from_str::<serde_json::Value>(&cur) {
                    n += v["n"].as_u64().unwrap_or(0) + 1;
                    fail = Some(json!({"text": v["text"], "aux": v["aux"], "message": m}));
                } else {
                    fail = Some(json!({"text": "", "aux": "", "message": m}));
                }
            }
        }
        if let Some(f) = fail {
            fails.push(f);
        }
        let _ = std::fs::remove_file(&k.1);
        let _ = std::fs::remove_file(&k.2);
    }
    fails.sort_by_key(|f| f["text"].as_str().map_or(0, |t| t.len()));
    samples.sort_by_key(|s| s.as_str().map_or(0, |t| t.len()));
    samples.dedup();
    let pick: Vec<_> = samples.iter().step_by((samples.len() / 10).max(1)).take(12).cloned().collect();
    println!(
        "{}",
        json!({"property": prop, "tier": tier, "seed": seed, "evaluations": n, "nontrivial": hit, "planned": total,
               "fails": fails, "samples": pick, "wall_s": t0.elapsed().as_secs_f64()})
    );
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| &s[..]) {
        Some("run") => run(&args[2], &args[3], args[4].parse().unwrap_or(1), &args[5]),
        Some("work") => {
            let n = |i: usize| args[i].parse::<usize>().unwrap();
            work(&args[2], args[3].parse().unwrap(), n(4), n(5), n(6), &args[7], n(8) as u64)
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let c = Case { text: v["text"].as_str().unwrap_or("").to_string(), aux: v["aux"].as_str().unwrap_or("").to_string() };
            let prop = v["property"].as_str().unwrap_or("").to_string();
            panic::set_hook(Box::new(|_| {}));
            println!("property {} on the text {:?}", prop, c.text);
            match guarded(&prop, &c) {
                Ok(_) => println!("holds"),
                Err(m) => {
                    println!("FAILS: {}", m);
                    std::process::exit(1);
                }
            }
        }
        Some("case") => {
            // vh case PROP SEED INDEX: show a generated case
            println!("{:#?}", gen(&args[2], args[4].parse().unwrap(), args[3].parse().unwrap()));
        }
        _ => std::process::exit(2),
    }
}
