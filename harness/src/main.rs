mod big;
mod checks;
mod directed;
mod driver;
mod extra;
mod faults;
mod gen;
mod large;
mod mem;
mod model;
mod orc;
mod protos;
mod prototab;
mod reject;
mod rng;
mod runner;
mod sanit;
mod snappy;
mod special;
mod stats;
mod wire;

use checks::*;
use gen::*;
use model::*;
use runner::*;
use std::time::{Duration, Instant};

/// One execution judged by the property's oracle.
fn judge(id: &str, c: &Case, cov: &mut Cov) -> Result<(), String> {
    let r = exec(c, cov)?;
    match id {
        "C01" | "C02" => round_trip(c, &r.bytes, cov),
        "C03" => layout(orc::File { bytes: &r.bytes, base: 0 }, &r.bytes[..3.min(r.bytes.len())], c.infos.len(), c.rows as u64, c.cfg.stride, cov),
        "C04" => framing(c, &r.bytes, cov),
        "C05" => stripe_stats(c, &r.bytes, cov),
        "C06" => file_stats(c, &r.bytes, cov),
        "C07" => group_stats(c, &r.bytes, cov),
        "C08" => seeks(c, &r.bytes, cov),
        "C09" => group_bounds(c, &r.bytes, cov),
        "C10" => schema_fidelity(c, &r.bytes, cov),
        "C11" => rollover(c, &r, cov),
        "C16" => Ok(()),
        "C20" => streams_ok(c, &r.bytes, cov),
        _ => unreachable!(),
    }
}

/// Tries smaller versions of a failing case for a few seconds.
fn shrink(c: &Case, fails: &dyn Fn(&Case) -> Option<String>) -> (Case, String) {
    let t = Instant::now();
    let mut best = c.clone();
    let mut msg = String::new();
    let clip = |c: &Case, a: usize, b: usize| -> Case {
        let bounds = c.row_bounds();
        let bs: Vec<usize> = (0..c.batches.len()).map(|i| bounds[i + 1].min(b).saturating_sub(bounds[i].max(a))).collect();
        slice(c, a, b, bs.into_iter().filter(|x| *x > 0).collect())
    };
    let mut progress = true;
    while progress && t.elapsed() < Duration::from_secs(8) {
        progress = false;
        let n = best.rows;
        let mut cands: Vec<Case> = vec![];
        for k in [2usize, 4, 10] { if n / k > 0 { cands.push(clip(&best, 0, n - n / k)); cands.push(clip(&best, n / k, n)); } }
        if best.batches.len() > 1 { let mut x = best.clone(); x.batches = vec![n]; cands.push(x); }
        for x in cands {
            if t.elapsed() > Duration::from_secs(8) { break; }
            if let Some(m) = fails(&x) { best = x; msg = m; progress = true; break; }
        }
    }
    (best, msg)
}

fn profile(id: &str) -> Profile {
    let d = Profile::default();
    match id {
        "C01" => Profile { nested: false, ..d },
        "C02" => Profile { flat: false, ..d },
        "C04" => Profile { max_rows: 8000, ..d },
        "C11" => Profile { multi_batch: true, multi_stripe: false, max_rows: 6000, budget: 20000, ..d },
        _ => d,
    }
}

fn case_based(cx: &Ctx, nrandom: usize, only: Option<usize>) -> Out {
    let id = cx.id.clone();
    let mut dir = directed::cases(true);
    if id == "C01" { dir.retain(|c| c.infos.iter().all(|i| !matches!(i.ty, Ty::List(_) | Ty::Map(_, _) | Ty::Union(_)))); }
    if id == "C02" { dir.retain(|c| c.infos.iter().any(|i| i.ty.is_compound() && i.parent.is_some()) || matches!(c.ty, Ty::List(_) | Ty::Map(_, _) | Ty::Union(_))); }
    if id == "C11" { dir.retain(|c| c.n_ops() < 200_000 && c.batches.len() < 100); }
    let big: Vec<usize> = (0..large::count(cx.thorough)).filter(|i| large::wanted(&id, *i, cx.thorough)).collect();
    let huge = if std::env::var("ORCMON_HUGE").map(|x| x == "0").unwrap_or(false) { vec![] } else { big::kinds(&id, cx.thorough) };
    let nh = huge.len();
    let nl = nh + big.len();
    let nd = nl + dir.len();
    let p = profile(&id);
    let run = |i: usize, cov: &mut Cov| -> Item {
        if i < nh { return big::run(&id, huge[i], cov).map_err(|m| (m, format!("{:?}", huge[i]))); }
        let c = if i < nl { large::case(big[i - nh], cx.thorough) } else if i < nd { dir[i - nl].clone() } else {
            let s = cx.item_seed((i - nd) as u64);
            let mut p = p;
            if id == "C11" || i % 3 == 0 { p.multi_stripe = mix_bit(s, 1); p.multi_batch |= mix_bit(s, 2); }
            if i % 5 == 0 { p.max_rows = p.max_rows.min(300); }
            gen_case(s, &p)
        };
        if id == "C11" && i >= nd { let s = cx.item_seed((i - nd) as u64); exact_rollover(s, cov).map_err(|m| (m, format!("exactly known sizes, seed {}", s)))?; }
        judge(&id, &c, cov).map_err(|m| {
            let (b, m2) = shrink(&c, &|x| { let mut cv = Cov::default(); match driver::catch(|| judge(&id, x, &mut cv)) { Ok(Ok(())) => None, Ok(Err(m)) => Some(m), Err(m) => Some(m) } });
            (m.clone(), format!("original: {}\nreduced: {}\n{}\n{}", c.describe(), m2, b.describe(), m))
        })
    };
    match only { Some(i) => { let mut cov = Cov::default(); let r = run(i, &mut cov); Out { cov, bad: r.err().map(|(msg, detail)| Bad { index: i, msg, detail }).into_iter().collect(), done: 1, total: 1, capped: false } } None => par(cx, nd + nrandom, run) }
}
fn mix_bit(s: u64, k: u64) -> bool { rng::mix(s ^ k) & 1 == 1 }

fn one(cx: &Ctx, total: usize, only: Option<usize>, f: impl Fn(usize, &mut Cov) -> Item + Sync) -> Out {
    match only {
        Some(i) => { let mut cov = Cov::default(); let r = match driver::catch(|| f(i, &mut cov)) { Ok(r) => r, Err(m) => Err((m, String::new())) }; Out { cov, bad: r.err().map(|(msg, detail)| Bad { index: i, msg, detail }).into_iter().collect(), done: 1, total: 1, capped: false } }
        None => par(cx, total, f),
    }
}

/// C12, C21: several executions of one case.
fn two_runs(cx: &Ctx, nrandom: usize, only: Option<usize>) -> Out {
    let mut dir = directed::cases(true);
    dir.retain(|c| c.n_ops() < 400_000 && c.batches.len() < 3000);
    let nd = dir.len();
    let mut huge = big::kinds(&cx.id, cx.thorough);
    huge.retain(|_| std::env::var("ORCMON_HUGE").map(|x| x != "0").unwrap_or(true));
    let nh = huge.len();
    one(cx, nh + nd + nrandom, only, |i, cov| {
        if i < nh { return big::run(&cx.id, huge[i], cov).map_err(|m| (m, format!("{:?}", huge[i]))); }
        let i = i - nh;
        let s = cx.item_seed(i as u64);
        let c = if i < nd { dir[i].clone() } else {
            gen_case(s, &Profile { multi_batch: mix_bit(s, 2) || cx.id == "C21", multi_stripe: mix_bit(s, 1), max_rows: if i % 4 == 0 { 300 } else { 3000 }, budget: 15_000, ..Profile::default() })
        };
        match cx.id.as_str() { "C12" => special::c12(&c, cov, 6), _ => special::c21(&c, cov) }.map_err(|m| (m, c.describe()))
    })
}

const FAULT_RULE: &str = "each workload writes a file to destinations that interrupt, accept part of a buffer, or fail at enumerated byte offsets and call positions; the monitor compares what the destination received and what the calls returned with an undisturbed execution; distinct counts different files";

/// C13, C14: small workloads against adversarial destinations.
fn faulty(cx: &Ctx, nrandom: usize, only: Option<usize>) -> Out {
    let mut dir = directed::cases(true);
    dir.retain(|c| c.n_ops() < 3_000 && c.batches.len() < 60);
    let nd = dir.len();
    one(cx, nd + nrandom, only, |i, cov| {
        let s = cx.item_seed(i as u64);
        let c = if i < nd { dir[i].clone() } else { gen_case(s, &Profile { multi_batch: mix_bit(s, 2), multi_stripe: mix_bit(s, 1), max_rows: if i % 3 == 0 { 800 } else { 120 }, budget: 1500, ..Profile::default() }) };
        let limit = cx.pick(120, 1500);
        match cx.id.as_str() { "C13" => faults::c13(&c, cov, limit), _ => faults::c14(&c, cov, limit) }.map_err(|m| (m, c.describe()))
    })
}

const REFUSE_RULE: &str = "each execution writes a consistent history, which must be accepted, and then variants of it in which one batch has surplus, missing or misplaced values, wrong lengths, tags, nulls or row counts, or values that no batch commits, all of which must be refused; distinct counts different files of the consistent histories";

/// C15
fn refusals(cx: &Ctx, nrandom: usize, only: Option<usize>) -> Out {
    let mut dir = directed::cases(true);
    dir.retain(|c| c.n_ops() < 2_000 && c.batches.len() < 60);
    let nd = dir.len();
    one(cx, 1 + nd + nrandom, only, |i, cov| {
        if i == 0 { return reject::fixed(cov).map_err(|m| (m, String::new())); }
        let s = cx.item_seed(i as u64);
        let c = if i <= nd { dir[i - 1].clone() } else { gen_case(s, &Profile { multi_batch: mix_bit(s, 2), multi_stripe: mix_bit(s, 1), max_rows: if i % 3 == 0 { 400 } else { 60 }, budget: 600, ..Profile::default() }) };
        reject::case(&c, s, cov, cx.pick(60, 200)).map_err(|m| (m, c.describe()))
    })
}

const HEAP_RULE: &str = "each execution writes a file (many batches and stripes, or one of several premature endings) while a counting allocator records the live and peak heap of the writer's calls; distinct counts different combinations of rows written and bytes produced";

/// C18
fn heap(cx: &Ctx, only: Option<usize>) -> Out {
    let mut dir = directed::cases(true);
    dir.retain(|c| c.n_ops() < 3_000 && c.batches.len() < 60);
    let (nd, nrep, nlong, nend) = (dir.len(), 60, cx.pick(600, 10_000), cx.pick(3000, 60_000));
    // native allocations, with nothing else running
    let mut cov = Cov::default();
    let mut bad = vec![];
    if only.is_none() || only == Some(1 << 30) {
        let mut cs: Vec<Case> = vec![];
        for (k, c) in [Codec::None, Codec::Snappy(DEFAULT_BLOCK), Codec::Zstd(DEFAULT_BLOCK, 3), Codec::Zstd(DEFAULT_BLOCK, 1), Codec::Zstd(1 << 20, 9), Codec::Snappy(0x7fffff)].into_iter().enumerate() {
            let mut r = rng::Rng::new(k as u64);
            let v: Vec<Vec<u8>> = (0..8usize).map(|i| (0..150_000usize).map(|j| if i % 2 == 0 { r.u64() as u8 } else { (j / 9) as u8 }).collect()).collect();
            cs.push(directed::full_one("large blocks", Ty::Binary, Vals::Bin(v), 2, directed::cfg(3, c, if k % 2 == 0 { 0 } else { usize::MAX })));
        }
        cs.extend((0..24).map(|i| { let mut p = Profile { max_rows: 300, budget: 2000, multi_batch: true, multi_stripe: i % 2 == 0, ..Profile::default() }; p.compress = Some(i % 4 != 3); gen_case(cx.item_seed(1 << 40 | i), &p) }));
        if let Err(m) = mem::native_heap(&cs, cx.pick(60, 600), &mut cov) { bad.push(Bad { index: 1 << 30, msg: m, detail: String::new() }); }
        if only.is_some() || !bad.is_empty() { return Out { cov, bad, done: 1, total: 1, capped: false }; }
    }
    let mut o = one(cx, nrep + nlong + nd + nend, only, |i, cov| {
        let s = cx.item_seed(i as u64);
        if i < 4 { let (c, _) = mem::bulk(i); return mem::long_file(&c, cx.pick(150, 2000), cov).map_err(|m| (m, c.describe())); }
        if i < 28 { let (c, _) = mem::many_stripes(s); return mem::long_file(&c, cx.pick(1500, 20_000), cov).map_err(|m| (m, c.describe())); }
        if i >= 40 && i < nrep { return mem::idle(s, cx.pick(30_000, 1_000_000), cov).map_err(|m| (m, format!("empty batches, seed {}", s))); }
        if i < nrep { let (c, _) = mem::repetitive(i - 28); return mem::long_file(&c, cx.pick(400, 8000), cov).map_err(|m| (m, c.describe())); }
        if i < nrep + nlong {
            let (c, _) = mem::shapes(s, i);
            let plain = mem::shape(&c).plain.max(50);
            // enough batches for many stripes, within a budget of values
            let n = (2_000_000 / (c.n_ops() + 20)).min(((c.cfg.stripe_size as i64 / plain + 1) * 40) as usize).max(12).min(3000);
            return mem::long_file(&c, n, cov).map_err(|m| (m, c.describe()));
        }
        let j = i - nrep - nlong;
        let c = if j < nd { dir[j].clone() } else { gen_case(s, &Profile { multi_batch: mix_bit(s, 2), multi_stripe: mix_bit(s, 1), max_rows: 200, budget: 1500, ..Profile::default() }) };
        mem::endings(&c, s, cov).map_err(|m| (m, c.describe()))
    });
    o.cov.merge(cov);
    o
}

const PROTO_RULE: &str = "each execution makes an encoding of a random message of the published definition with an independent encoder (records in any order, packed or not, repeated, unknown fields), parses it with the repository's message type and compares fields, sizes and the serialised form by an independent decoder; then alters the bytes; distinct counts different encodings with at least one field";

/// C17: groups of cases.
fn isolation(cx: &Ctx, n: usize, only: Option<usize>) -> Out {
    let mut dir = directed::cases(true);
    dir.retain(|c| c.n_ops() < 20_000 && c.batches.len() < 200);
    let nd = dir.len();
    one(cx, n, only, |i, cov| {
        let s = cx.item_seed(i as u64);
        if i % 1000 == 3 { return special::processes(s, cov).map_err(|m| (m, String::new())); }
        let mut r = rng::Rng::new(s);
        let k = 2 + r.us(4);
        let mut cs: Vec<Case> = (0..k).map(|j| if r.chance(1, 4) { dir[r.us(nd)].clone() } else { gen_case(rng::mix(s ^ j as u64), &Profile { multi_batch: r.bool(), multi_stripe: r.bool(), max_rows: 400, budget: 4000, ..Profile::default() }) }).collect();
        // the same schema under another configuration, and the same rows in another order
        if r.bool() { let mut c = cs[0].clone(); c.cfg.defaults = false; c.cfg.stride = c.cfg.stride.saturating_add(1 + r.us(3) as u32); cs.push(c); }
        special::c17(&cs, i, s, cov).map_err(|m| (m, cs.iter().map(|c| c.describe()).collect::<Vec<_>>().join("\n")))
    })
}

const WORK_RULE: &str = "each execution is a process that writes (or parses) data of one size along one dimension while a dynamic binary instrumenter counts every instruction; the monitor compares the cost per unit over sizes n to 16n; distinct counts different dimensions and counts";
const CONFIG_RULE: &str = "each execution performs a random sequence of configuration calls on several configurations, compressions and builders, tracks what each should mean, writes a file with each and compares with the file of a configuration built plainly and with what the file shows; distinct counts different files with at least one row";

/// C23, C24, C25
fn extras(cx: &Ctx, only: Option<usize>) -> Out {
    match cx.id.as_str() {
        "C23" => one(cx, cx.pick(6000, 150_000), only, |i, cov| extra::c23(i, cx.item_seed(i as u64), cov)),
        "C24" => {
            let mut dir = directed::cases(true);
            dir.retain(|c| c.n_ops() < 100_000 && c.batches.len() < 300);
            let nd = dir.len();
            one(cx, nd + cx.pick(6000, 150_000), only, |i, cov| {
                let s = cx.item_seed(i as u64);
                let c = if i < nd { dir[i].clone() } else { gen_case(s, &Profile { multi_batch: mix_bit(s, 2), multi_stripe: mix_bit(s, 1), max_rows: if i % 4 == 0 { 300 } else { 2000 }, budget: 10_000, ..Profile::default() }) };
                extra::c24(&c, cov).map_err(|m| (m, c.describe()))
            })
        }
        _ => {
            // the dimensions, then random schemas; larger sizes in the thorough tier
            let (nd, nr) = (extra::DIMS.len(), cx.pick(24, 200));
            let ng = nd * cx.pick(1, 3) + nr;
            let np = extra::FIXED_PROBES + cx.pick(56, 500);
            one(cx, ng + np, only, |i, cov| {
                if i >= ng { return extra::after(extra::PROBES + i - ng, cx.pick(1, 4), cx.seed, cov).map_err(|m| (m, String::new())); }
                let (dim, scale) = if i < nd { (i, 1) } else if i < nd + nr { (extra::RANDOM + i - nd, cx.pick(1, 4)) } else { ((i - nr) % nd, [1, 3, 8][(i - nr) / nd]) };
                extra::c25(dim, scale, cx.seed, cov).map_err(|m| (m, String::new()))
            })
        }
    }
}

const RULE: &str = "each execution drives the real writer through its public API (schema, configuration, batches and call order from a directed list, then from the seeded generator) and the property's monitor judges the recorded result; distinct counts different resulting files of executions that wrote at least one row";

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut id = a.get(1).cloned().unwrap_or_default();
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut only = None;
    if id == "replay" {
        let t = std::fs::read_to_string(&a[2]).expect("replay file");
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).expect("replay field").to_string();
        id = get("property"); thorough = get("tier") == "thorough"; seed = get("seed").parse().unwrap(); only = Some(get("index").parse().unwrap());
    }
    if id == "bitset-probe" { std::process::exit(protos::bitset_probe()); }
    if id == "work-child" { let n = |k: usize| a[k].parse().expect("number"); extra::work(n(2), n(3), n(4) as u64); return; }
    if id == "probe-child" { let n = |k: usize| a[k].parse().expect("number"); extra::probe(n(2), n(3), n(4) as u64); }
    driver::install_panic_hook();
    if id == "process-child" { std::process::exit(special::child(&a[2..])); }
    if id == "sanitizer-work" { std::process::exit(sanit::main(&a[2..])); }
    let threads = std::env::var("ORCMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8));
    let root = std::env::var("ORCMON_ROOT").unwrap_or_else(|_| "/verif".into());
    let cap = Duration::from_secs(std::env::var("ORCMON_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 240 }));
    let cx = Ctx { id: id.clone(), thorough, seed, start: Instant::now(), cap, threads, root };
    let code = match id.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C16" | "C20" => {
            let n = cx.pick(30_000, 300_000);
            let o = case_based(&cx, n, only);
            report(&cx, o, RULE)
        }
        "C12" | "C21" => { let n = cx.pick(8000, 100_000); let o = two_runs(&cx, n, only); report(&cx, o, RULE) }
        "C13" | "C14" => { let n = cx.pick(150, 2500); let o = faulty(&cx, n, only); report(&cx, o, FAULT_RULE) }
        "C15" => { let n = cx.pick(1500, 60_000); let o = refusals(&cx, n, only); report(&cx, o, REFUSE_RULE) }
        "C18" => { let o = heap(&cx, only); report(&cx, o, HEAP_RULE) }
        "C22" => { let n = cx.pick(300_000, 8_000_000); let o = one(&cx, 1 + n, only, |i, cov| if i == 0 { protos::fixed(cov) } else { protos::random(cx.item_seed(i as u64), cov) }); report(&cx, o, PROTO_RULE) }
        "C23" | "C24" | "C25" => { let o = extras(&cx, only); report(&cx, o, match id.as_str() { "C23" => CONFIG_RULE, "C24" => RULE, _ => WORK_RULE }) }
        "C17" => { let n = cx.pick(4000, 40_000); let o = isolation(&cx, n, only); report(&cx, o, RULE) }
        _ => { eprintln!("unknown property {}", id); 2 }
    };
    std::process::exit(code);
}
