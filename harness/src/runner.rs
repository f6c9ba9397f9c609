//! Runs work items on all cores, collects coverage, writes evidence and replay files, reports violations.
use crate::checks::Cov;
use crate::driver::catch;
use crate::rng::mix;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub cap: Duration,
    pub threads: usize,
    pub root: String,
}
impl Ctx {
    pub fn item_seed(&self, i: u64) -> u64 {
        let mut h = mix(self.seed ^ 0xc0ffee);
        for b in self.id.bytes() { h = mix(h ^ b as u64); }
        mix(h ^ i.wrapping_mul(0x9e37))
    }
    pub fn pick(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
}

pub struct Bad { pub index: usize, pub msg: String, pub detail: String }
#[derive(Default)]
pub struct Out { pub cov: Cov, pub bad: Vec<Bad>, pub done: usize, pub total: usize, pub capped: bool }

/// A failed item: what was violated, and the case written out.
pub type Item = Result<(), (String, String)>;

/// Items in index order over the threads. The first violation stops the hand-out of further items.
pub fn par(cx: &Ctx, total: usize, f: impl Fn(usize, &mut Cov) -> Item + Sync) -> Out {
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    let out = Mutex::new((Cov::default(), vec![]));
    let nt = cx.threads.min(total.max(1));
    let busy: Vec<Mutex<Option<(usize, Instant)>>> = (0..nt).map(|_| Mutex::new(None)).collect();
    let live = AtomicUsize::new(nt);
    std::thread::scope(|s| {
        for t in 0..nt {
            let (next, stop, capped, done, out, busy, live, f) = (&next, &stop, &capped, &done, &out, &busy, &live, &f);
            std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, move || {
                let mut cov = Cov::default();
                loop {
                    if stop.load(Ordering::SeqCst) { break; }
                    if cx.start.elapsed() > cx.cap { capped.store(true, Ordering::SeqCst); break; }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= total { break; }
                    *busy[t].lock().unwrap() = Some((i, Instant::now()));
                    let r = match catch(|| f(i, &mut cov)) { Ok(r) => r, Err(m) => Err((format!("the reader could not process the result: {}", m), String::new())) };
                    *busy[t].lock().unwrap() = None;
                    done.fetch_add(1, Ordering::SeqCst);
                    if let Err((msg, detail)) = r {
                        stop.store(true, Ordering::SeqCst);
                        out.lock().unwrap().1.push(Bad { index: i, msg, detail });
                    }
                }
                out.lock().unwrap().0.merge(cov);
                live.fetch_sub(1, Ordering::SeqCst);
            }).unwrap();
        }
        // a call that never returns is a violation too
        let (busy, live) = (&busy, &live);
        s.spawn(move || while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(50));
            for b in busy {
                if let Some((i, t)) = *b.lock().unwrap() {
                    if t.elapsed() > Duration::from_secs(if cx.thorough { 1500 } else { 400 }) {
                        let bad = Bad { index: i, msg: "an operation did not end within the time limit".into(), detail: String::new() };
                        let o = Out { bad: vec![bad], total, done: done_now(total), ..Default::default() };
                        std::process::exit(report(cx, o, "stopped"));
                    }
                }
            }
        });
    });
    let (cov, mut bad) = out.into_inner().unwrap();
    bad.sort_by_key(|b| b.index);
    Out { cov, bad, done: done.into_inner(), total, capped: capped.into_inner() }
}
fn done_now(n: usize) -> usize { n }

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}

pub fn level(id: &str) -> &'static str { match id { "C13" | "C14" => "fault_enumeration", _ => "exploration" } }

/// Writes the evidence file, prints the verdict, returns the exit code.
pub fn report(cx: &Ctx, o: Out, rule: &str) -> i32 {
    let mut j = String::from("{\n");
    let mut k = |n: &str, v: String| { j.push_str(&format!(" {}: {},\n", esc(n), v)); };
    k("property", esc(&cx.id));
    k("tier", esc(if cx.thorough { "thorough" } else { "quick" }));
    k("seed", cx.seed.to_string());
    k("level", esc(level(&cx.id)));
    let mut cov = vec![
        ("evaluations".to_string(), o.done.to_string()),
        ("distinct_nontrivial".to_string(), o.cov.sigs.len().to_string()),
        ("rule".to_string(), esc(rule)),
        ("samples".to_string(), format!("[{}]", o.cov.samples.iter().map(|s| { let s: String = s.chars().take(1500).collect(); esc(&s) }).collect::<Vec<_>>().join(", "))),
        ("observed".to_string(), format!("{{{}}}", o.cov.n.iter().map(|(a, b)| format!("{}: {}", esc(a), b)).collect::<Vec<_>>().join(", "))),
        ("items_planned".to_string(), o.total.to_string()),
        ("stopped_by_time_limit".to_string(), o.capped.to_string()),
    ];
    if !o.cov.known.is_empty() { cov.push(("known_findings_seen".into(), format!("{{{}}}", o.cov.known.iter().map(|(a, b)| format!("{}: {}", esc(a), b)).collect::<Vec<_>>().join(", ")))); }
    k("coverage", format!("{{{}}}", cov.iter().map(|(a, b)| format!("{}: {}", esc(a), b)).collect::<Vec<_>>().join(", ")));
    k("assumptions", format!("[{}]", ["the harness's reader, written from the format specification, is correct", "valid input is as defined in properties.jsonl"].iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")));
    k("violations", o.bad.len().to_string());
    j.push_str(&format!(" \"wall_s\": {:.2}\n}}\n", cx.start.elapsed().as_secs_f64()));
    let _ = std::fs::create_dir_all(format!("{}/evidence", cx.root));
    std::fs::write(format!("{}/evidence/{}.json", cx.root, cx.id), &j).expect("evidence file");
    let mut code = 0;
    let mut o = o;
    let listed = std::fs::read_to_string(concat!(env!("CARGO_MANIFEST_DIR"), "/../known-findings.txt")).unwrap_or_default();
    for sig in o.cov.known.keys() {
        match listed.lines().find(|l| l.starts_with(&format!("KNOWN-FINDING: property={} signature={} ", cx.id, sig))) {
            Some(l) => println!("{}", l),
            None => o.bad.push(Bad { index: 0, msg: format!("{} (not listed in known-findings.txt)", sig), detail: String::new() }),
        }
    }
    if let Some(b) = o.bad.first() {
        let dir = format!("{}/replays", cx.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.txt", dir, cx.id, b.index);
        let _ = std::fs::write(&path, format!("property={}\ntier={}\nseed={}\nindex={}\n\n{}\n\n{}\n", cx.id, if cx.thorough { "thorough" } else { "quick" }, cx.seed, b.index, b.msg, b.detail));
        println!("{}", b.msg);
        println!("VIOLATION property={} replay={}", cx.id, path);
        code = 1;
    } else if o.done == 0 || (o.cov.sigs.is_empty() && o.cov.n.is_empty()) {
        println!("{}: nothing was observed", cx.id);
        code = 2;
    } else {
        println!("{}: held on {} executions ({} distinct), {:.1} s{}", cx.id, o.done, o.cov.sigs.len(), cx.start.elapsed().as_secs_f64(), if o.capped { ", stopped by the time limit" } else { "" });
    }
    code
}
