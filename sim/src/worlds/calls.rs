//! C01, C02, C03: the same call in a fresh process is the oracle for the call among
//! concurrent callers, in a hostile environment, and after a history.
use crate::api::*;
use crate::engine::*;
use crate::env::{self, EnvCfg};
use crate::gen;
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};

const CALL_LIMIT: u64 = 400_000_000;

/// the call as the only call ever made in a fresh process
fn alone(c: &Call) -> Option<(Out, u64)> {
    forked(|| {
        env::set_limit(CALL_LIMIT);
        env::set_env(EnvCfg::canonical());
        let slots = if c.via == 2 { Slots::for_calls(std::iter::once(c)) } else { Slots(vec![]) };
        let e = env::edges();
        let o = exec(c, &slots);
        (o, env::edges() - e)
    })
    .ok()
}

fn show_out(sys: usize, o: &Out) -> String {
    let _ = sys;
    match o.st {
        2 => "panic".into(),
        1 => format!("Err({})", String::from_utf8_lossy(&o.bits.iter().map(|b| *b as u8).collect::<Vec<_>>())),
        _ => format!(
            "[{}]",
            o.bits
                .iter()
                .filter(|b| **b >> 52 != 0xFFF || **b & 0xF_FFFF_FFFF_FFFF > 4096)
                .map(|b| if *b < 256 { format!("{b}") } else { format!("{:?}", f64::from_bits(*b)) })
                .collect::<Vec<_>>()
                .join(", ")
        ),
    }
}
fn differ(c: &Call, want: &Out, got: &Out) -> Viol {
    let class = match (want.st, got.st) {
        (2, _) => "call that panics alone returned here",
        (_, 2) => "call panicked here but not alone",
        _ => "call returned another result than alone",
    };
    Viol { class: class.into(), detail: format!("{}\n alone: {}\n here : {}", show(c), show_out(c.sys, want), show_out(c.sys, got)) }
}

// ------------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ThreadPlan {
    pub seed: u64,
    pub style: u8,
    pub env: EnvCfg,
    pub threads: Vec<Vec<Call>>,
    pub segs: Option<Vec<(u8, u32)>>,
}

pub fn gen_threads(seed: u64, tier: &str) -> ThreadPlan {
    let mut r = Rng::new(seed);
    let n = *r.pick(&[2, 2, 2, 3, 3, 4, 6, 8]);
    let big = tier == "thorough" && r.chance(0.2);
    let per = if big { r.int(4, 16) } else { r.int(1, 5) };
    let style = r.below(8) as u8;
    let sys = r.below(NSYS);
    let base = gen::call(&mut r, sys);
    let mut threads: Vec<Vec<Call>> = Vec::new();
    // a small pool: collisions between callers are what matters
    let pool: Vec<Call> = match style {
        0 => vec![base.clone()],
        1..=3 => {
            let mut v = vec![base.clone()];
            for _ in 0..r.int(1, 5) {
                let b = r.pick(&v).clone();
                v.push(gen::mutate(&b, &mut r));
            }
            v
        }
        4 => {
            // one function, unrelated arguments
            (0..r.int(2, 6)).map(|_| gen::call_f(&mut r, base.sys, base.f)).collect()
        }
        5 => {
            // one system
            (0..r.int(2, 8)).map(|_| gen::call(&mut r, sys)).collect()
        }
        6 => {
            let mut v: Vec<Call> = (0..r.int(2, 5)).map(|_| gen::call_f(&mut r, base.sys, base.f)).collect();
            for _ in 0..r.int(1, 3) {
                v.push(gen::bad_call(&mut r));
            }
            v
        }
        _ => (0..r.int(3, 10))
            .map(|_| {
                let s = r.below(NSYS);
                gen::call(&mut r, s)
            })
            .collect(),
    };
    for _ in 0..n {
        threads.push((0..per).map(|_| r.pick(&pool).clone()).collect());
    }
    if r.chance(0.3) {
        for t in &mut threads {
            for c in t {
                if matches!(c.f, F_PAIR | F_PERIOD | F_EXP | F_EXPP | F_TWO) {
                    c.via = 2;
                }
            }
        }
    }
    let env = if r.chance(0.5) { EnvCfg::canonical() } else { gen::env(&mut r) };
    ThreadPlan { seed, style, env, threads, segs: None }
}

fn gen_segs(seed: u64, est: &[u64]) -> (Vec<(u8, u32)>, &'static str) {
    let mut r = Rng::new(mix(seed ^ 0x5E65));
    let n = est.len();
    let total: u64 = est.iter().sum::<u64>().max(2);
    let mut segs = Vec::new();
    let name;
    match r.below(6) {
        0 => {
            // few preemptions at uniformly random depths (PCT-like)
            name = "pct";
            let d = r.int(1, 6);
            let mut pts: Vec<u64> = (0..d).map(|_| r.below(total as usize) as u64).collect();
            pts.sort_unstable();
            let mut last = 0;
            for p in pts {
                segs.push((r.below(n) as u8, (p - last).max(1).min(u32::MAX as u64) as u32));
                last = p;
            }
        }
        1 => {
            // everybody advances in lockstep
            name = "lockstep";
            let q = r.int(1, 3) as u32;
            let k = (total / q as u64).min(4000) as usize;
            for i in 0..k {
                segs.push(((i % n) as u8, q));
            }
        }
        2 => {
            // park a thread in the middle of a call while the others finish
            name = "stall";
            let v = r.below(n);
            segs.push((v as u8, r.logint(est[v].max(2) as usize) as u32));
            for _ in 0..r.int(1, 4) {
                for t in 0..n {
                    if t != v {
                        segs.push((t as u8, r.logint((est[t] * 2).max(2) as usize) as u32));
                    }
                }
                segs.push((v as u8, r.logint(50) as u32));
            }
            for t in 0..n {
                if t != v {
                    segs.push((t as u8, u32::MAX / 4));
                }
            }
        }
        3 => {
            name = "fine";
            let k = r.int(50, 600);
            for _ in 0..k {
                segs.push((r.below(n) as u8, r.logint(20) as u32));
            }
        }
        4 => {
            name = "coarse";
            for _ in 0..r.int(4, 60) {
                let hi = (total as usize / n).max(4);
                segs.push((r.below(n) as u8, r.logint(hi) as u32));
            }
        }
        _ => {
            name = "mixed";
            for _ in 0..r.int(10, 200) {
                let t = r.below(n) as u8;
                if r.chance(0.3) {
                    for _ in 0..r.int(2, 20) {
                        segs.push((r.below(n) as u8, r.int(1, 4) as u32));
                    }
                } else {
                    segs.push((t, r.logint(3000) as u32));
                }
            }
        }
    }
    (segs, name)
}

pub fn run_threads(p: &ThreadPlan) -> RunResult {
    let mut st = Stats::default();
    // oracle: every distinct call alone in a fresh process
    let mut known: Vec<(Call, Option<(Out, u64)>)> = Vec::new();
    for c in p.threads.iter().flatten() {
        if !known.iter().any(|k| k.0 == *c) {
            let o = alone(c);
            known.push((c.clone(), o));
        }
    }
    let look = |c: &Call| known.iter().find(|k| k.0 == *c).and_then(|k| k.1.clone());
    let threads: Vec<Vec<(Call, Out)>> = p
        .threads
        .iter()
        .map(|t| t.iter().filter_map(|c| look(c).map(|o| (c.clone(), o.0))).collect())
        .filter(|t: &Vec<_>| !t.is_empty())
        .collect();
    if threads.is_empty() {
        return RunResult { stats: st, ..Default::default() };
    }
    let est: Vec<u64> = threads.iter().map(|t| t.iter().filter_map(|(c, _)| look(c)).map(|o| o.1).sum()).collect();
    let total: u64 = est.iter().sum();
    let (segs, strat) = match &p.segs {
        Some(s) => (s.clone(), "explicit"),
        None => gen_segs(p.seed, &est),
    };
    let ncalls: usize = threads.iter().map(|t| t.len()).sum();
    let nth = threads.len();
    let seg2 = segs.clone();
    let r = forked(move || {
        env::set_limit(total * 20 + 200_000_000);
        env::set_env(p.env);
        let slots = std::sync::Arc::new(Slots::for_calls(threads.iter().flatten().map(|x| &x.0)));
        let found: std::sync::Arc<SyncCell<Option<Viol>>> = std::sync::Arc::new(SyncCell(std::cell::UnsafeCell::new(None)));
        let bodies: Vec<Box<dyn FnOnce() + Send>> = threads
            .into_iter()
            .map(|t| {
                let slots = slots.clone();
                let found = found.clone();
                Box::new(move || {
                    for (c, want) in &t {
                        let got = exec(c, &slots);
                        if got != *want {
                            // only the baton holder runs: no data race
                            let f = unsafe { &mut *found.0.get() };
                            if f.is_none() {
                                *f = Some(differ(c, want, &got));
                            }
                        }
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let ts = env::run_threads(bodies, seg2);
        let v = unsafe { (*found.0.get()).take() };
        let es = unsafe { env::STATS };
        (v, ts.log, ts.switches, ts.used as u64, ts.futex_yields, env_stats(es))
    });
    st.add("calls", ncalls as u64);
    st.add(&format!("schedule:{strat}"), 1);
    st.add("threads", nth as u64);
    let mut explicit_segs = segs;
    let viol = match r {
        Ok((v, log, sw, used, fy, es)) => {
            st.log = mix(log);
            st.add("preemptions", sw);
            st.add("fault:spurious futex wake", fy);
            for (k, v) in es {
                st.add(&k, v);
            }
            st.nontrivial = sw > nth as u64;
            explicit_segs.truncate(used as usize);
            v
        }
        Err(Died::Signal(14)) => Some(Viol { class: "never finished (wall clock)".into(), detail: "concurrent calls did not finish".into() }),
        Err(d) => Some(Viol { class: died_class(&d).into(), detail: format!("{d:?} while calls ran concurrently that finish alone") }),
    };
    st.note = format!("{} threads, {} calls, {} strategy, {} basic blocks alone, {} preemptions", nth, ncalls, strat, total, st.n.get("preemptions").unwrap_or(&0));
    let explicit = viol.as_ref().map(|_| super::World::Threads(ThreadPlan { segs: Some(explicit_segs), ..p.clone() }));
    RunResult { viol, stats: st, explicit }
}

struct SyncCell<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for SyncCell<T> {}
unsafe impl<T> Send for SyncCell<T> {}

fn env_stats(s: env::EnvStats) -> Vec<(String, u64)> {
    vec![
        ("entropy reads".into(), s.getrandom),
        ("fault:entropy EINTR".into(), s.eintr),
        ("fault:entropy short read".into(), s.short),
        ("clock reads".into(), s.clock),
        ("fault:clock jump".into(), s.jumps),
        ("simulated allocations".into(), s.allocs),
        ("fault:realloc moved".into(), s.moved),
        ("environment variables read".into(), s.vars),
    ]
}

fn cut<T: Clone>(v: &[T], lo: usize, hi: usize) -> Vec<T> {
    let mut o = v[..lo].to_vec();
    o.extend_from_slice(&v[hi..]);
    o
}

fn simpler_call(c: &Call) -> Vec<Call> {
    let mut o = Vec::new();
    if c.res.len() > 1 {
        for k in [c.res.len() / 2, c.res.len() - 1] {
            let mut d = c.clone();
            d.res.truncate(k);
            o.push(d);
        }
        let mut d = c.clone();
        d.res.remove(0);
        o.push(d);
    }
    if c.f == F_MULTI && c.teams.len() > 2 {
        let mut d = c.clone();
        d.teams.pop();
        d.ranks.truncate(d.teams.len());
        if let Some(w) = &mut d.weights {
            w.truncate(d.teams.len());
        }
        o.push(d);
    }
    if c.weights.is_some() {
        let mut d = c.clone();
        d.weights = None;
        o.push(d);
    }
    if c.via != 0 {
        let mut d = c.clone();
        d.via = 0;
        o.push(d);
    }
    o
}

impl ThreadPlan {
    pub fn parts(&self) -> Vec<usize> {
        let mut v = vec![self.threads.len()];
        v.extend(self.threads.iter().map(|t| t.len()));
        v.push(self.segs.as_ref().map_or(0, |s| s.len()));
        v
    }
    pub fn without(&self, part: usize, lo: usize, hi: usize) -> Option<Self> {
        let mut p = self.clone();
        let nt = self.threads.len();
        if part == 0 {
            p.threads = cut(&p.threads, lo, hi);
            if p.threads.is_empty() {
                return None;
            }
        } else if part <= nt {
            p.threads[part - 1] = cut(&p.threads[part - 1], lo, hi);
            if p.threads[part - 1].is_empty() {
                return None;
            }
        } else {
            let s = p.segs.as_mut()?;
            *s = cut(s, lo, hi);
        }
        Some(p)
    }
    pub fn simpler(&self) -> Vec<Self> {
        let mut o = Vec::new();
        if self.env != EnvCfg::canonical() {
            o.push(ThreadPlan { env: EnvCfg::canonical(), ..self.clone() });
        }
        let mut seen: Vec<Call> = Vec::new();
        for c in self.threads.iter().flatten() {
            if seen.contains(c) {
                continue;
            }
            seen.push(c.clone());
            for d in simpler_call(c) {
                let mut p = self.clone();
                for t in &mut p.threads {
                    for x in t {
                        if x == c {
                            *x = d.clone();
                        }
                    }
                }
                o.push(p);
            }
        }
        o
    }
}

// ------------------------------------------------------------------ C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EnvPlan {
    pub calls: Vec<Call>,
    /// environment, on a new thread?
    pub envs: Vec<(EnvCfg, bool)>,
}
pub fn gen_env(seed: u64) -> EnvPlan {
    let mut r = Rng::new(seed);
    let n = r.int(1, 3);
    let calls = (0..n)
        .map(|_| {
            // systems whose implementation allocates or hashes get most of the attention
            let s = if r.chance(0.45) { *r.pick(&[TS, TS, DWZ_, WL]) } else { r.below(NSYS) };
            let mut c = if s == TS && r.chance(0.5) {
                gen::call_f(&mut r, TS, F_MULTI)
            } else if s == DWZ_ && r.chance(0.5) {
                let mut c = gen::call_f(&mut r, DWZ_, F_FIRST);
                while c.res.len() < 5 {
                    c.res.push(gen::res(DWZ_, &mut r));
                }
                c
            } else {
                gen::call(&mut r, s)
            };
            if c.via == 2 {
                c.via = 1;
            }
            c
        })
        .collect();
    let envs = (0..r.int(2, 4)).map(|_| (gen::env(&mut r), r.chance(0.3))).collect();
    EnvPlan { calls, envs }
}
pub fn run_env(p: &EnvPlan) -> RunResult {
    let mut st = Stats::default();
    let mut viol = None;
    'o: for c in &p.calls {
        let Some((want, edges)) = alone(c) else { continue };
        st.max("library blocks executed by one call", edges);
        for (e, thread) in &p.envs {
            let r = forked(|| {
                env::set_limit(CALL_LIMIT);
                env::set_env(*e);
                let go = || {
                    let slots = Slots(vec![]);
                    exec(c, &slots)
                };
                let o = if *thread {
                    // not the first thread of the process
                    for _ in 0..(e.seed >> 8) % 4 {
                        std::thread::scope(|s| s.spawn(|| ()).join().unwrap());
                    }
                    let b = std::thread::Builder::new();
                    // workers of a pool have names and small stacks
                    let b = match e.seed % 4 {
                        0 => b.name(format!("worker-{}", e.seed % 97)),
                        1 => b.name("rating".into()).stack_size(256 * 1024),
                        _ => b,
                    };
                    std::thread::scope(|s| b.spawn_scoped(s, go).unwrap().join().unwrap())
                } else {
                    go()
                };
                (o, env_stats(unsafe { env::STATS }))
            });
            st.add("evaluations in a perturbed environment", 1);
            match r {
                Ok((got, es)) => {
                    for (k, v) in es {
                        st.add(&k, v);
                    }
                    st.add(&format!("fault:heap fill {}", ["zero", "ones", "random", "stale", "NaN"][e.fill as usize]), 1);
                    if !e.reuse || e.pad > 0 {
                        st.add("fault:heap placement shifted", 1);
                    }
                    if e.stack > 0 {
                        st.add("fault:stack shifted and poisoned", 1);
                    }
                    if *thread {
                        st.add("fault:other thread", 1);
                    }
                    for b in &got.bits {
                        st.fold(*b);
                    }
                    st.nontrivial = true;
                    if got != want {
                        viol = Some(differ(c, &want, &got));
                        break 'o;
                    }
                }
                Err(d) => {
                    viol = Some(Viol { class: died_class(&d).into(), detail: format!("{d:?}: {}", show(c)) });
                    break 'o;
                }
            }
        }
        st.note = show(c).chars().take(300).collect();
    }
    let explicit = viol.as_ref().map(|_| super::World::Env(p.clone()));
    RunResult { viol, stats: st, explicit }
}
impl EnvPlan {
    pub fn parts(&self) -> Vec<usize> {
        vec![self.calls.len(), self.envs.len()]
    }
    pub fn without(&self, part: usize, lo: usize, hi: usize) -> Option<Self> {
        let mut p = self.clone();
        if part == 0 {
            p.calls = cut(&p.calls, lo, hi);
        } else {
            p.envs = cut(&p.envs, lo, hi);
        }
        if p.calls.is_empty() || p.envs.is_empty() {
            return None;
        }
        Some(p)
    }
    pub fn simpler(&self) -> Vec<Self> {
        let mut o = Vec::new();
        let k = EnvCfg::canonical();
        for i in 0..self.envs.len() {
            let e = self.envs[i].0;
            let opts = [
                EnvCfg { entropy: k.entropy, ..e },
                EnvCfg { eintr: 0, short: 0, ..e },
                EnvCfg { clock_start: k.clock_start, clock_step: k.clock_step, jump: 0, ..e },
                EnvCfg { fill: 0, reuse: true, pad: 0, ..e },
                EnvCfg { stack: 0, ..e },
                EnvCfg { pid: k.pid, cores: k.cores, ..e },
                EnvCfg { vars: 0, ..e },
                EnvCfg { layout: 0, ..e },
            ];
            for n in opts {
                if n != e {
                    let mut p = self.clone();
                    p.envs[i].0 = n;
                    o.push(p);
                }
            }
        }
        for i in 0..self.calls.len() {
            for d in simpler_call(&self.calls[i]) {
                let mut p = self.clone();
                p.calls[i] = d;
                o.push(p);
            }
        }
        o
    }
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeqPlan {
    pub style: u8,
    pub env: EnvCfg,
    /// call, how often, and whether its result is compared with the fresh-process result
    pub steps: Vec<(Call, u32, bool)>,
    /// steps run on a second thread (by index), one thread at a time
    pub other: Vec<usize>,
    /// before the steps: this call with so many different arguments, varied in ratings (1), deviations (2), config (4)
    #[serde(default)]
    pub parade: Option<(Call, u32, u8)>,
}
/// the j-th of a parade of calls that differ in the chosen arguments
fn vary(c: &Call, j: u32, mask: u8) -> Call {
    let mut d = c.clone();
    let j = f64::from(j);
    let dev = matches!(d.sys, GLICKO | GLICKO2 | BOOST | STICKO | TS | WL);
    for v in d.teams.iter_mut().flatten().chain(d.res.iter_mut().map(|x| &mut x.v)) {
        if mask & 1 != 0 {
            v[0] += if d.sys == TS || d.sys == WL { 0.001 } else { 0.01 } * j;
        }
        if mask & 2 != 0 && dev {
            v[1] *= (-2e-5 * j).exp();
        }
        if mask & 2 != 0 && !dev && v[1] > 0.0 {
            v[1] += (j / 4.0).floor();
        }
    }
    if mask & 4 != 0 {
        for k in &mut d.cfg {
            *k *= 1.0 + 1e-5 * j;
        }
    }
    d
}
fn cheap(c: &Call) -> bool {
    !matches!(c.f, F_MULTI | F_MQMULTI | F_EXPMULTI) && c.res.len() <= 8
}
pub fn gen_seq(seed: u64, idx: u64, tier: &str) -> SeqPlan {
    let mut r = Rng::new(seed);
    let thorough = tier == "thorough";
    let sys = r.below(NSYS);
    let mut steps: Vec<(Call, u32, bool)> = Vec::new();
    let soak = idx % 16 == 0;
    let mut parade = None;
    let style;
    if idx % 16 == 8 {
        // a crowd passes through, then some of it comes back
        style = 8;
        let sys = (idx / 16) as usize % NSYS;
        let mut c = gen::call(&mut r, sys);
        c.res.truncate(4);
        let slow = matches!(c.f, F_MULTI | F_MQMULTI | F_EXPMULTI);
        if slow {
            c.teams.truncate(3);
            c.ranks.truncate(3);
            c.weights = None;
        }
        let most = match (slow, thorough) {
            (true, false) => 1_500,
            (false, false) => 12_000,
            (true, true) => 20_000,
            _ => 150_000,
        };
        let n = if r.chance(0.5) { r.int(100, most / 3) } else { r.int(most / 3, most) } as u32;
        let mask = r.int(1, 7) as u8;
        for _ in 0..r.int(3, 12) {
            let j = match r.below(4) {
                0 => r.below(4),
                1 => n as usize - 1 - r.below(4),
                2 => n as usize - 1 - r.logint(n as usize - 1),
                _ => r.below(n as usize),
            };
            steps.push((vary(&c, j as u32, mask), 1, true));
        }
        steps.push((c.clone(), 1, true));
        parade = Some((c, n, mask));
    } else if soak {
        // a long life: the same kind of call tens of thousands of times
        style = 9;
        let sys = (idx / 16) as usize % NSYS;
        let f = match (idx / 16 / NSYS as u64) % 6 {
            0 => F_PAIR,
            1 => F_PERIOD,
            2 => F_EXP,
            3 => F_EXPP,
            4 => {
                if sys == TS || sys == WL {
                    F_MULTI
                } else if sys == DWZ_ {
                    F_FIRST
                } else {
                    F_DECAY
                }
            }
            _ => {
                if sys == TS || sys == WL {
                    F_TWO
                } else {
                    F_PAIR
                }
            }
        };
        let mut c = gen::call_f(&mut r, sys, f);
        c.res.truncate(4);
        if f == F_MULTI {
            c.teams.truncate(3);
            c.ranks.truncate(3);
            c.weights = None;
        }
        let m = gen::mutate(&c, &mut r);
        let n = if f == F_MULTI { if thorough { 30_000 } else { 1_500 } } else if thorough { 1_200_000 } else { 70_000 };
        steps.push((m.clone(), 1, true));
        steps.push((c.clone(), n, true));
        steps.push((m, 1, true));
        steps.push((c, 1, true));
    } else {
        style = r.below(6) as u8;
        let base = if r.chance(0.15) { gen::bad_call(&mut r) } else { gen::call(&mut r, sys) };
        let nprobe = r.int(1, 4);
        let mut probes = vec![base.clone()];
        for _ in 1..nprobe {
            let b = r.pick(&probes).clone();
            probes.push(gen::mutate(&b, &mut r));
        }
        let n = if thorough && r.chance(0.2) { r.int(50, 400) } else { r.int(3, 40) };
        for _ in 0..n {
            match style {
                0..=2 => {
                    // neighbours of the probe
                    let b = r.pick(&probes).clone();
                    if r.chance(0.5) {
                        steps.push((b, 1, true));
                    } else {
                        let m = gen::mutate(&b, &mut r);
                        let k = r.logint(20) as u32;
                        steps.push((m, k, r.chance(0.3)));
                    }
                }
                3 => {
                    let c = gen::call_f(&mut r, base.sys, base.f);
                    steps.push((c, r.logint(6) as u32, false));
                    if r.chance(0.4) {
                        steps.push((r.pick(&probes).clone(), 1, true));
                    }
                }
                4 => {
                    if r.chance(0.4) {
                        steps.push((gen::bad_call(&mut r), 1, false));
                    }
                    let s = if r.chance(0.5) { sys } else { r.below(NSYS) };
                    let c = gen::call(&mut r, s);
                    steps.push((c, 1, false));
                    if r.chance(0.5) {
                        steps.push((r.pick(&probes).clone(), 1, true));
                    }
                }
                _ => {
                    // wander: each call a mutation of the last
                    let last = steps.last().map_or(base.clone(), |s| s.0.clone());
                    let m = gen::mutate(&last, &mut r);
                    steps.push((m, 1, r.chance(0.25)));
                    if r.chance(0.3) {
                        steps.push((r.pick(&probes).clone(), 1, true));
                    }
                }
            }
        }
        for p in &probes {
            steps.push((p.clone(), 1, true));
        }
    }
    if r.chance(0.3) {
        // a rating-system value used for all of it
        for s in &mut steps {
            if matches!(s.0.f, F_PAIR | F_PERIOD | F_EXP | F_EXPP | F_TWO) || s.0.f == F_MULTI && s.0.weights.is_none() {
                s.0.via = 2;
            }
        }
        if let Some((c, ..)) = &mut parade {
            if matches!(c.f, F_PAIR | F_PERIOD | F_EXP | F_EXPP | F_TWO) || c.f == F_MULTI && c.weights.is_none() {
                c.via = 2;
            }
        }
    }
    let mut other = Vec::new();
    if r.chance(0.2) && !soak && parade.is_none() {
        for i in 0..steps.len() {
            if r.chance(0.4) {
                other.push(i);
            }
        }
    }
    SeqPlan { style, env: EnvCfg::canonical(), steps, other, parade }
}
pub fn run_seq(p: &SeqPlan) -> RunResult {
    let mut st = Stats::default();
    let mut known: Vec<(Call, Option<(Out, u64)>)> = Vec::new();
    for (c, _, probe) in &p.steps {
        if *probe && !known.iter().any(|k| k.0 == *c) {
            known.push((c.clone(), alone(c)));
        }
    }
    let steps: Vec<(Call, u32, Option<Out>)> = p
        .steps
        .iter()
        .map(|(c, k, probe)| {
            let w = if *probe { known.iter().find(|x| x.0 == *c).and_then(|x| x.1.clone()).map(|o| o.0) } else { None };
            (c.clone(), *k, w)
        })
        .collect();
    let r = forked(|| {
        env::set_env(p.env);
        let slots = Slots::for_calls(steps.iter().map(|s| &s.0));
        let mut log = 0u64;
        let (mut calls, mut panics, mut errs, mut probes) = (0u64, 0u64, 0u64, 0u64);
        let mut v = None;
        if let Some((c, n, mask)) = &p.parade {
            for j in 0..*n {
                // some come again at once
                let h = mix(u64::from(j) ^ 0x9A7ADE);
                let k = if h % 4 == 0 { (h >> 8) as u32 % (j + 1) } else { j };
                env::set_limit(CALL_LIMIT);
                let o = exec(&vary(c, k, *mask), &slots);
                calls += 1;
                panics += (o.st == 2) as u64;
                errs += (o.st == 1) as u64;
                for b in &o.bits {
                    log = mix(log ^ b);
                }
            }
        }
        'o: for (i, (c, k, want)) in steps.iter().enumerate() {
            let mut one = |j: u32| -> Option<(u32, Out)> {
                env::set_limit(CALL_LIMIT);
                let o = exec(c, &slots);
                calls += 1;
                panics += (o.st == 2) as u64;
                errs += (o.st == 1) as u64;
                if let Some(w) = want {
                    probes += 1;
                    if o != *w {
                        return Some((j, o));
                    }
                }
                for b in &o.bits {
                    log = mix(log ^ b);
                }
                None
            };
            let bad = if p.other.contains(&i) {
                std::thread::scope(|s| s.spawn(|| (0..*k).find_map(&mut one)).join().unwrap())
            } else {
                (0..*k).find_map(&mut one)
            };
            if let Some((j, o)) = bad {
                let mut d = differ(c, want.as_ref().unwrap(), &o);
                d.detail = format!("step {i} repetition {j} (after {calls} calls): {}", d.detail);
                v = Some(d);
                break 'o;
            }
        }
        (v, log, calls, panics, errs, probes)
    });
    let viol = match r {
        Ok((v, log, calls, panics, errs, probes)) => {
            st.log = log;
            st.add("calls", calls);
            st.add("fault:call that panicked", panics);
            st.add("fault:call that returned an error", errs);
            st.add("probes compared", probes);
            st.max("history length", calls);
            st.nontrivial = probes > 0 && calls > probes.min(2);
            st.note = format!("{} calls ({} panicked, {} failed), {} compared", calls, panics, errs, probes);
            v
        }
        Err(d) => Some(Viol { class: died_class(&d).into(), detail: format!("{d:?} in a history of calls") }),
    };
    let explicit = viol.as_ref().map(|_| super::World::Seq(p.clone()));
    RunResult { viol, stats: st, explicit }
}
impl SeqPlan {
    pub fn parts(&self) -> Vec<usize> {
        vec![self.steps.len()]
    }
    pub fn without(&self, _part: usize, lo: usize, hi: usize) -> Option<Self> {
        let mut p = self.clone();
        p.steps = cut(&p.steps, lo, hi);
        p.other = self.other.iter().filter(|i| **i < lo || **i >= hi).map(|i| if *i >= hi { i - (hi - lo) } else { *i }).collect();
        if p.steps.is_empty() {
            return None;
        }
        Some(p)
    }
    pub fn simpler(&self) -> Vec<Self> {
        let mut o = Vec::new();
        if !self.other.is_empty() {
            o.push(SeqPlan { other: vec![], ..self.clone() });
        }
        if let Some((c, n, m)) = &self.parade {
            o.push(SeqPlan { parade: None, ..self.clone() });
            for k in [n / 2, n - n / 8, n - n / 64, n - 1] {
                if k > 0 && k < *n {
                    o.push(SeqPlan { parade: Some((c.clone(), k, *m)), ..self.clone() });
                }
            }
        }
        for i in 0..self.steps.len() {
            if self.steps[i].1 > 1 {
                for k in [1, 2, self.steps[i].1 / 2, self.steps[i].1 - self.steps[i].1 / 8 - 1] {
                    let mut p = self.clone();
                    p.steps[i].1 = k.max(1);
                    o.push(p);
                }
            }
        }
        let mut seen: Vec<Call> = Vec::new();
        for s in &self.steps {
            if seen.contains(&s.0) {
                continue;
            }
            seen.push(s.0.clone());
            for d in simpler_call(&s.0) {
                let mut p = self.clone();
                for x in &mut p.steps {
                    if x.0 == s.0 {
                        x.0 = d.clone();
                    }
                }
                o.push(p);
            }
        }
        o
    }
}

// ------------------------------------------------------------------ C18

/// what the library may hold on to after any history
const HOLD: u64 = 256 << 10;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MemPlan {
    pub seed: u64,
    pub env: EnvCfg,
    pub calls: Vec<Call>,
    pub rounds: u32,
    /// no further round after so many basic blocks
    #[serde(default = "most")]
    pub budget: u64,
    /// every call is made by a thread of its own that ends afterwards
    pub threads: bool,
    /// the lists and teams of each call are repeated up to this length
    #[serde(default)]
    pub grow: u32,
}
fn most() -> u64 {
    u64::MAX
}
pub fn gen_mem(seed: u64, idx: u64, tier: &str) -> MemPlan {
    let mut r = Rng::new(seed);
    let thorough = tier == "thorough";
    let mut calls = Vec::new();
    let soak = idx % 32 == 0;
    let giant = idx % 8 == 5;
    let style = if soak { 9 } else if giant { 10 } else { r.below(6) };
    let sys = (idx / 8) as usize % NSYS;
    match style {
        10 => {
            // one call with a very long list or very large teams, between small ones
            let k = (idx / 8) as usize;
            let (s, f) = match k % 8 {
                0 => (TS, F_TWO),
                1 => (WL, F_TWO),
                2 => (*r.pick(&[TS, WL]), F_EXPTWO),
                3 => (TS, F_MQTWO),
                4 => (*r.pick(&[TS, WL]), *r.pick(&[F_MULTI, F_EXPMULTI])),
                5 => (k / 8 % NSYS, F_PERIOD),
                6 => (k / 8 % NSYS, F_EXPP),
                _ => *r.pick(&[(TS, F_MQP), (TS, F_MQMULTI), (DWZ_, F_FIRST), (WL, F_MULTI), (TS, F_MULTI)]),
            };
            calls.push(gen::call_f(&mut r, s, f));
        }
        9 => {
            // one small call, so often that a few bytes a time add up
            let k = (idx / 32) as usize % 16;
            let mut c = match k {
                0 | 1 => gen::call_f(&mut r, TS, F_MULTI),
                2 => gen::call_f(&mut r, WL, F_MULTI),
                3 => gen::call_f(&mut r, TS, F_MQMULTI),
                4 => gen::call_f(&mut r, TS, F_EXPMULTI),
                5 => gen::call_f(&mut r, WL, F_EXPMULTI),
                6 => gen::call_f(&mut r, TS, F_TWO),
                7 => gen::call_f(&mut r, DWZ_, F_FIRST),
                8..=12 => gen::bad_call(&mut r),
                _ => gen::call(&mut r, sys),
            };
            if k < 8 {
                c.teams.truncate(2);
                for t in &mut c.teams {
                    t.truncate(1 + k % 2);
                }
                c.ranks.truncate(2);
                c.weights = None;
            }
            c.res.truncate(6);
            calls.push(c);
        }
        0..=1 => calls.push(gen::call(&mut r, sys)),
        2 => {
            let b = gen::call(&mut r, sys);
            calls.push(gen::mutate(&b, &mut r));
            calls.push(b);
        }
        3 => calls.push(gen::bad_call(&mut r)),
        4 => {
            for _ in 0..r.int(2, 6) {
                calls.push(gen::bad_call(&mut r));
                calls.push(gen::call(&mut r, sys));
            }
        }
        _ => {
            for _ in 0..r.int(3, 20) {
                let s = r.below(NSYS);
                calls.push(gen::call(&mut r, s));
            }
        }
    }
    // sizes that leave time for many rounds
    for c in &mut calls {
        if !r.chance(0.1) {
            c.res.truncate(12);
        }
        let n: usize = c.teams.iter().map(|t| t.len()).sum();
        if c.teams.len() > 5 || n > 16 {
            if c.f == F_MQMULTI {
                c.teams.truncate(4);
                for t in &mut c.teams {
                    t.truncate(2);
                }
            } else {
                c.teams.truncate(5);
                for t in &mut c.teams {
                    t.truncate(4);
                }
            }
            c.ranks.truncate(c.teams.len());
            c.weights = None;
        }
    }
    if r.chance(0.3) {
        for c in &mut calls {
            if matches!(c.f, F_PAIR | F_PERIOD | F_EXP | F_EXPP | F_TWO) || c.f == F_MULTI && c.weights.is_none() {
                c.via = 2;
            }
        }
    }
    let threads = r.chance(0.2);
    let threads = threads && !soak && !giant;
    let rounds = if threads { (2500 / calls.len()).max(20) as u32 } else { 60_000 };
    let budget = if soak { 80_000_000 } else { 5_000_000 } * if thorough { 10 } else { 1 };
    let mut env = if r.chance(0.5) { EnvCfg::canonical() } else { gen::env(&mut r) };
    env.reuse = true;
    let (rounds, grow) = if giant { (2, *r.pick(&[40_000, 60_000, 90_000])) } else { (rounds, 0) };
    MemPlan { seed, env, calls, rounds, budget, threads, grow }
}
/// the same call with its lists and teams repeated
fn grown(c: &Call, n: usize) -> Call {
    let mut d = c.clone();
    if n == 0 {
        return d;
    }
    if !c.res.is_empty() {
        d.res = c.res.iter().cycle().take(n).cloned().collect();
    }
    let per = match c.f {
        F_TWO | F_EXPTWO | F_MQTWO => n / 2,
        F_MULTI if c.sys == TS => n / 200,
        F_MULTI | F_EXPMULTI => n / 4,
        F_MQMULTI => n / 400,
        _ => return d,
    };
    for (i, t) in d.teams.iter_mut().enumerate() {
        if t.is_empty() {
            continue;
        }
        // one large team is enough
        let per = if i > 0 && c.f == F_MULTI { t.len() } else { per };
        let o = t.clone();
        t.extend(o.iter().cycle().take(per.saturating_sub(o.len())).copied());
        if let Some(w) = &mut d.weights {
            if let Some(w) = w.get_mut(i) {
                let x = w.first().copied().unwrap_or(1.0);
                if w.len() == o.len() {
                    w.resize(t.len(), x);
                }
            }
        }
    }
    d
}
/// the same call with arguments never seen before
fn fresh(c: &Call, round: u32) -> Call {
    let mut d = c.clone();
    let e = f64::from(round) * 1e-7;
    let dev = matches!(d.sys, GLICKO | GLICKO2 | BOOST | STICKO | TS | WL);
    for v in d.teams.iter_mut().flatten().chain(d.res.iter_mut().map(|x| &mut x.v)) {
        v[0] += e;
        if dev {
            v[1] *= 1.0 - e;
        }
    }
    for k in &mut d.cfg {
        *k *= 1.0 + e;
    }
    d
}
pub fn mem_size(c: &Call) -> u64 {
    let p: usize = c.teams.iter().map(|t| t.len() + 1).sum();
    let m = if matches!(c.f, F_MQMULTI) { p * p } else { p };
    (1 + m + c.res.len()) as u64
}
pub fn run_mem(p: &MemPlan) -> RunResult {
    let mut st = Stats::default();
    let r = forked(|| {
        env::set_env(p.env);
        let slots = Slots::for_calls(p.calls.iter());
        let list: Vec<Call> = p.calls.iter().map(|c| grown(c, p.grow as usize)).collect();
        let (mut log, mut calls, mut bad, mut held, mut need) = (0u64, 0u64, 0u64, 0u64, 0u64);
        let mut v = None;
        let start = env::live();
        let edges = unsafe { env::EDGES };
        'o: for k in 0..p.rounds {
            if unsafe { env::EDGES } - edges > p.budget && k >= 60 {
                break;
            }
            for c in &list {
                let own = env::live();
                let d = if k % 3 == 2 || c.via == 2 { c.clone() } else { fresh(c, k) };
                env::set_limit(CALL_LIMIT.saturating_mul(1 + u64::from(p.grow)));
                let before = env::live();
                let own = before - own;
                env::take_peak();
                let o = if p.threads { std::thread::scope(|s| s.spawn(|| exec(&d, &slots)).join().unwrap()) } else { exec(&d, &slots) };
                let peak = env::take_peak() - before;
                calls += 1;
                bad += (o.st != 0) as u64;
                for b in &o.bits {
                    log = mix(log ^ b);
                }
                drop(o);
                need = need.max(peak / mem_size(c));
                if peak > (16 << 10) + 8192 * mem_size(c) {
                    v = Some(Viol { class: "a call needed more memory than its arguments justify".into(), detail: format!("{peak} bytes at once for {}", show(&d)) });
                    break 'o;
                }
                let after = env::live() - own;
                held = held.max(after.saturating_sub(start));
                if after.saturating_sub(start) > HOLD {
                    v = Some(Viol { class: "memory held after the calls keeps growing".into(), detail: format!("{} bytes held after {calls} calls, last {}", after - start, show(&d)) });
                    break 'o;
                }
            }
        }
        (v, log, calls, bad, held, need)
    });
    let viol = match r {
        Ok((v, log, calls, bad, held, need)) => {
            st.log = log;
            st.add("calls", calls);
            st.add("fault:call that panicked or returned an error", bad);
            if p.threads {
                st.add("fault:thread that ended after its call", calls);
            }
            st.max("history length", calls);
            st.max("bytes held after a call", held);
            st.max("bytes needed at once per unit of argument size", need);
            st.nontrivial = calls > 50 || p.grow > 0;
            if p.grow > 0 {
                st.add("fault:call with very long lists or very large teams", calls);
            }
            st.note = format!("{calls} calls ({bad} panicked or failed), {held} bytes held at most, {need} bytes needed per unit");
            v
        }
        Err(d) => Some(Viol { class: died_class(&d).into(), detail: format!("{d:?} in a history of calls") }),
    };
    let explicit = viol.as_ref().map(|_| super::World::Mem(p.clone()));
    RunResult { viol, stats: st, explicit }
}
impl MemPlan {
    pub fn parts(&self) -> Vec<usize> {
        vec![self.calls.len()]
    }
    pub fn without(&self, _part: usize, lo: usize, hi: usize) -> Option<Self> {
        let mut p = self.clone();
        p.calls = cut(&p.calls, lo, hi);
        if p.calls.is_empty() {
            return None;
        }
        Some(p)
    }
    pub fn simpler(&self) -> Vec<Self> {
        let mut o = Vec::new();
        if self.threads {
            o.push(MemPlan { threads: false, ..self.clone() });
        }
        o.push(MemPlan { env: EnvCfg::canonical(), ..self.clone() });
        if self.grow > 0 {
            o.push(MemPlan { grow: self.grow / 2, ..self.clone() });
            o.push(MemPlan { grow: self.grow - self.grow / 8 - 1, ..self.clone() });
        }
        for k in [self.rounds / 2, self.rounds - (self.rounds / 8 + 1).min(self.rounds)] {
            o.push(MemPlan { rounds: k.max(1), ..self.clone() });
        }
        o
    }
}
