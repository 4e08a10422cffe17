//! Deterministic simulator for skillratings. One seed is one exactly repeatable run.
mod api;
mod engine;
mod env;
mod gen;
mod model;
mod net;
mod rng;
mod wire;
mod worlds;

use engine::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};
use worlds::World;

#[global_allocator]
static GA: env::SimAlloc = env::SimAlloc;

const WORKERS: u64 = 8;

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    seed: u64,
    run: u64,
    class: String,
    detail: String,
    events_before_minimising: usize,
    events: usize,
    minimising_runs: u64,
    world: World,
}

#[derive(Default, Serialize, Deserialize)]
struct WorkerOut {
    runs: u64,
    nontrivial: u64,
    n: BTreeMap<String, u64>,
    logs: Vec<u64>,
    vtime_ms: u64,
    notes: Vec<String>,
    rechecked: u64,
    rechecked_same: u64,
    mismatch: Option<u64>,
}

fn shared(len: usize) -> *mut u8 {
    unsafe { env::mmap(std::ptr::null_mut(), len, 3, 0x1 | 0x20 | 0x4000, -1, 0) }
}

fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let p: u64 = prop.bytes().fold(0, |a, b| a * 257 + b as u64);
    rng::hash(&[seed, p, idx])
}
fn plan(prop: &str, seed: u64, idx: u64, tier: &str) -> World {
    worlds::plan(prop, run_seed(seed, prop, idx), idx, tier)
}

fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
fn loud() {
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
}

fn pin(w: u64) {
    let mut set = [0u64; 16];
    let mut cur = [0u8; 128];
    unsafe {
        if env::sched_getaffinity(0, 128, cur.as_mut_ptr()) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| cur[i / 8] >> (i % 8) & 1 == 1).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[w as usize % cpus.len()];
        set[c / 64] |= 1 << (c % 64);
        env::sched_setaffinity(0, 128, set.as_ptr());
    }
}

fn worker(w: u64, prop: &str, seed: u64, tier: &str, total: u64, cap: Duration, best: &AtomicU64) -> WorkerOut {
    pin(w);
    let t0 = Instant::now();
    let mut o = WorkerOut::default();
    let mut idx = w;
    while idx < total && idx < best.load(SeqCst) && t0.elapsed() < cap {
        let p = plan(prop, seed, idx, tier);
        let r = worlds::run(&p);
        if idx % 64 < WORKERS && r.viol.is_none() {
            // one seed is one execution: replay a sample and compare the event logs
            let r2 = worlds::run(&p);
            o.rechecked += 1;
            if r2.stats.log == r.stats.log && r2.viol == r.viol {
                o.rechecked_same += 1;
            } else if o.mismatch.is_none() {
                o.mismatch = Some(idx);
            }
        }
        o.runs += 1;
        o.vtime_ms += r.stats.vtime_ms;
        for (k, v) in &r.stats.n {
            let e = o.n.entry(k.clone()).or_insert(0);
            if k.starts_with("max:") {
                *e = (*e).max(*v);
            } else {
                *e += v;
            }
        }
        if r.stats.nontrivial {
            o.nontrivial += 1;
            o.logs.push(r.stats.log);
            if o.notes.len() < 2 {
                o.notes.push(format!("run {idx}: {}", r.stats.note));
            }
        }
        if r.viol.is_some() {
            best.fetch_min(idx, SeqCst);
        }
        idx += WORKERS;
    }
    o
}

fn info(prop: &str) -> worlds::Info {
    worlds::info(prop)
}

fn cmd_run(prop: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let inf = info(prop);
    let mut total = if tier == "quick" { inf.quick } else { inf.thorough };
    if let Ok(s) = std::env::var("SIM_RUNS") {
        total = s.parse().unwrap_or(total);
    }
    let cap = Duration::from_secs(
        std::env::var("SIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 90 } else { 1500 }),
    );
    let t0 = Instant::now();
    unsafe { env::COV = shared(env::MAXG) };
    let best = unsafe { &*(shared(4096) as *const AtomicU64) };
    best.store(u64::MAX, SeqCst);
    const OUT: usize = 256 << 20;
    let mut kids = Vec::new();
    for w in 0..WORKERS {
        let buf = shared(OUT);
        let pid = unsafe { env::fork() };
        if pid < 0 {
            eprintln!("harness error: fork");
            return 2;
        }
        if pid == 0 {
            unsafe { env::prctl(1, 9, 0, 0, 0) };
            shm_init();
            quiet();
            let o = worker(w, prop, seed, tier, total, cap, best);
            let b = serde_json::to_vec(&o).unwrap();
            unsafe {
                if b.len() + 8 < OUT {
                    std::ptr::copy_nonoverlapping(b.as_ptr(), buf.add(8), b.len());
                    *(buf as *mut u64) = b.len() as u64;
                }
                env::_exit(0)
            }
        }
        kids.push((pid, buf));
    }
    let mut sum = WorkerOut::default();
    let mut logs: BTreeSet<u64> = BTreeSet::new();
    for (pid, buf) in kids {
        let mut st = 0;
        unsafe {
            while env::waitpid(pid, &mut st, 0) != pid {}
            let n = *(buf as *const u64) as usize;
            if st != 0 || n == 0 {
                eprintln!("harness error: worker ended with status {st}");
                return 2;
            }
            let o: WorkerOut = serde_json::from_slice(std::slice::from_raw_parts(buf.add(8), n)).unwrap();
            sum.runs += o.runs;
            sum.nontrivial += o.nontrivial;
            sum.vtime_ms += o.vtime_ms;
            sum.rechecked += o.rechecked;
            sum.rechecked_same += o.rechecked_same;
            sum.mismatch = sum.mismatch.or(o.mismatch);
            sum.notes.extend(o.notes);
            logs.extend(o.logs);
            for (k, v) in o.n {
                let e = sum.n.entry(k.clone()).or_insert(0);
                if k.starts_with("max:") {
                    *e = (*e).max(v);
                } else {
                    *e += v;
                }
            }
        }
    }
    let search = t0.elapsed().as_secs_f64();
    shm_init();
    quiet();
    let mut idx = best.load(SeqCst);
    if idx == u64::MAX && prop == "C02" {
        if let Some(m) = sum.mismatch {
            idx = m;
        }
    }
    let mut violation = None;
    if idx != u64::MAX {
        violation = Some(report(prop, seed, idx, tier));
    }
    loud();
    let (blocks, hit) = unsafe {
        let n = env::NGUARDS;
        (n, (1..=n.min(env::MAXG - 1)).filter(|i| *env::COV.add(*i) != 0).count())
    };
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in &sum.n {
        if let Some(f) = k.strip_prefix("fault:") {
            faults.insert(f.into(), *v);
        } else {
            counts.insert(k.clone(), *v);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum.runs,
            "distinct_nontrivial": logs.len(),
            "rule": inf.rule,
            "samples": sum.notes.iter().take(6).collect::<Vec<_>>(),
            "runs_planned": total,
            "runs_nontrivial": sum.nontrivial,
            "seeds_per_hour": (sum.runs as f64 / search * 3600.0).round(),
            "simulated_seconds": sum.vtime_ms as f64 / 1000.0,
            "faults_injected": faults,
            "measured": counts,
            "distinct_measure": "distinct hashes of the run's event log (scheduling decisions, faults, results)",
            "library_basic_blocks": blocks,
            "library_basic_blocks_reached": hit,
            "replayed_runs": sum.rechecked,
            "replayed_runs_identical": sum.rechecked_same,
            "components_real": inf.real,
            "components_simulated": inf.stub,
        },
        "assumptions": ["the simulated seams (threads, entropy, clock, memory, storage, network, processes) are the only channels by which nondeterminism reaches the library",
            "results differing by less than the stated tolerance are the same rating"],
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violation.iter().count(),
    });
    let root = root();
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if let Err(e) = std::fs::write(format!("{root}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("harness error: evidence: {e}");
        return 2;
    }
    println!(
        "{prop} {tier} seed={seed}: {} runs ({} distinct non-trivial) in {:.1}s, {} of {} library blocks reached, {} of {} sampled runs replayed identically",
        sum.runs, logs.len(), search, hit, blocks, sum.rechecked_same, sum.rechecked
    );
    for (id, p, t) in known() {
        if p == prop && sum.n.get(&format!("known:{id}")).copied().unwrap_or(0) > 0 {
            println!("KNOWN-FINDING: property={prop} {t}");
        }
    }
    match violation {
        None => 0,
        Some((path, class, detail)) => {
            println!("{class}: {detail}");
            println!("VIOLATION property={prop} replay={path}");
            1
        }
    }
}

fn root() -> String {
    std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn report(prop: &str, seed: u64, idx: u64, tier: &str) -> (String, String, String) {
    let p = plan(prop, seed, idx, tier);
    let mut first = worlds::run(&p);
    let mut tries = 0;
    while first.viol.is_none() && tries < 3 {
        first = worlds::run(&p);
        tries += 1;
    }
    let (w, v, n0, tried) = match first.viol.clone() {
        Some(v) => {
            let w = first.explicit.clone().unwrap_or(p);
            // every decision of the run written out must fail the same way
            let ok = matches!(worlds::run(&w).viol, Some(x) if x.class == v.class);
            let n0 = w.events();
            if ok {
                let (m, tried) = minimise(&w, &v.class, Instant::now() + Duration::from_secs(45));
                let v2 = worlds::run(&m).viol.unwrap_or(v);
                (m, v2, n0, tried)
            } else {
                (w, v, n0, 0)
            }
        }
        None => {
            let n0 = p.events();
            (p, Viol { class: "not repeatable".into(), detail: "the same run gave different results when executed again".into() }, n0, 0)
        }
    };
    let root = root();
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{seed}-{idx}.json");
    let r = Replay {
        property: prop.into(),
        seed,
        run: idx,
        class: v.class.clone(),
        detail: v.detail.clone(),
        events_before_minimising: n0,
        events: w.events(),
        minimising_runs: tried,
        world: w,
    };
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
    let again = std::process::Command::new("/proc/self/exe").arg("replay").arg(&path).output();
    let same = matches!(&again, Ok(o) if o.status.code() == Some(1));
    println!("minimised {n0} events to {}; replay in a new process {}", r.events, if same { "reproduces it exactly" } else { "did NOT reproduce it" });
    (path, v.class, v.detail)
}

fn cmd_replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let r: Replay = match serde_json::from_str(&s) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    unsafe { env::COV = shared(env::MAXG) };
    shm_init();
    quiet();
    let got = worlds::run(&r.world).viol;
    match got {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={} replay={}", r.property, path);
            if v.class == r.class && v.detail == r.detail {
                println!("reproduced exactly");
                1
            } else {
                println!("a different violation than recorded: {}", r.class);
                3
            }
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// same code, data and stack addresses in every process
fn fixed_layout() {
    if std::env::var_os("SIM_NOASLR").is_none() {
        unsafe {
            if env::raw6(135, 0x0040000, 0, 0, 0, 0, 0) >= 0 {
                use std::os::unix::process::CommandExt;
                let mut c = std::process::Command::new("/proc/self/exe");
                c.args(std::env::args_os().skip(1)).env("SIM_NOASLR", "1");
                let _ = c.exec();
            }
        }
    }
}

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0"); // simulated aborts would spend their time printing traces
    fixed_layout();
    env::arena_init();
    known();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") if a.len() == 3 => cmd_run(&a[2]),
        Some("replay") if a.len() == 3 => cmd_replay(&a[2]),
        Some("show") if a.len() >= 4 => {
            // one run in the foreground: show PROP IDX [SEED] [TIER]
            let seed = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = a.get(5).map_or("quick", |s| s.as_str());
            unsafe { env::COV = shared(env::MAXG) };
            shm_init();
            let p = plan(&a[2], seed, a[3].parse().unwrap(), tier);
            let t = Instant::now();
            let r = worlds::run(&p);
            println!("{:#?}\n{:?}\n{:?}", r.stats, r.viol, t.elapsed());
            0
        }
        _ => {
            eprintln!("usage: sim run PROPERTY | replay FILE | show PROPERTY RUN [SEED] [TIER]");
            2
        }
    };
    std::process::exit(code);
}
