//! C04: a league that keeps ratings, configs, outcomes and ranks on a faulty simulated disk,
//! crashes at arbitrary points and restarts from what was durable.
use crate::api::*;
use crate::engine::*;
use crate::env::{self, EnvCfg};
use crate::gen;
use crate::rng::{hash, Rng};
use crate::wire::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use skillratings::{
    dwz::DWZRating, egf::*, elo::*, fifa::*, glicko::*, glicko2::*, glicko_boost::*, ingo::IngoRating, sticko::*, trueskill::*, uscf::*,
    weng_lin::*, MultiTeamOutcome, Outcomes,
};
use std::io::{Error, ErrorKind, Read, Write};

type B3 = [u64; 3];

// ------------------------------------------------------------------ the stored types

/// field names and kinds (f: float, u: counter, b: flag, 2/5: tuples) of the public structs
trait St {
    type R: Serialize + DeserializeOwned + Copy;
    type C: Serialize + DeserializeOwned + Copy;
    const RF: &'static [(&'static str, char)];
    const CF: &'static [(&'static str, char)];
    fn r(b: &B3) -> Self::R;
    fn rb(r: &Self::R) -> B3;
    fn c(b: &[u64]) -> Self::C;
    fn cb(c: &Self::C) -> Vec<u64>;
}
macro_rules! kind {
    (f) => {
        'f'
    };
    (u) => {
        'u'
    };
    (b) => {
        'b'
    };
}
macro_rules! dec {
    (f $e:expr) => {
        f64::from_bits($e)
    };
    (u $e:expr) => {
        $e as usize
    };
    (b $e:expr) => {
        $e != 0
    };
}
macro_rules! enc {
    (f $e:expr) => {
        $e.to_bits()
    };
    (u $e:expr) => {
        $e as u64
    };
    (b $e:expr) => {
        $e as u64
    };
}
macro_rules! st {
    ($n:ident $r:ident { $($rf:ident $rk:ident),* } $c:ident { $($cf:ident $ck:ident),* }) => {
        struct $n;
        impl St for $n {
            type R = $r;
            type C = $c;
            const RF: &'static [(&'static str, char)] = &[$((stringify!($rf), kind!($rk))),*];
            const CF: &'static [(&'static str, char)] = &[$((stringify!($cf), kind!($ck))),*];
            #[allow(unused_assignments)]
            fn r(b: &B3) -> $r {
                let mut i = 0;
                $(let $rf = { i += 1; dec!($rk b[i - 1]) };)*
                let _ = i;
                $r { $($rf),* }
            }
            fn rb(r: &$r) -> B3 {
                let v = [$(enc!($rk r.$rf)),*];
                let mut o = [0; 3];
                o[..v.len()].copy_from_slice(&v);
                o
            }
            #[allow(unused_assignments)]
            fn c(b: &[u64]) -> $c {
                let mut k = $c::new();
                let mut i = 0;
                $(k.$cf = { i += 1; dec!($ck b[i - 1]) };)*
                let _ = i;
                k
            }
            fn cb(c: &$c) -> Vec<u64> {
                vec![$(enc!($ck c.$cf)),*]
            }
        }
    };
}
st!(SElo EloRating { rating f } EloConfig { k f });
st!(SGlicko GlickoRating { rating f, deviation f } GlickoConfig { c f });
st!(SGlicko2 Glicko2Rating { rating f, deviation f, volatility f } Glicko2Config { tau f, convergence_tolerance f });
st!(SSticko StickoRating { rating f, deviation f } StickoConfig { h f, beta f, lambda f, gamma f, c f });
st!(STs TrueSkillRating { rating f, uncertainty f } TrueSkillConfig { draw_probability f, beta f, dynamics_factor f });
st!(SWl WengLinRating { rating f, uncertainty f } WengLinConfig { beta f, uncertainty_tolerance f });
st!(SFifa FifaRating { rating f } FifaConfig { importance f, knockout b, penalties b });
st!(SUscf USCFRating { rating f, games u } USCFConfig { t f });
st!(SEgf EGFRating { rating f } EGFConfig { handicap f });
struct SBoost;
impl St for SBoost {
    type R = GlickoBoostRating;
    type C = GlickoBoostConfig;
    const RF: &'static [(&'static str, char)] = &[("rating", 'f'), ("deviation", 'f')];
    const CF: &'static [(&'static str, char)] = &[("eta", 'f'), ("k", 'f'), ("b", '2'), ("alpha", '5')];
    fn r(b: &B3) -> Self::R {
        GlickoBoostRating { rating: f64::from_bits(b[0]), deviation: f64::from_bits(b[1]) }
    }
    fn rb(r: &Self::R) -> B3 {
        [r.rating.to_bits(), r.deviation.to_bits(), 0]
    }
    fn c(b: &[u64]) -> Self::C {
        let f = |i: usize| f64::from_bits(b[i]);
        let mut k = GlickoBoostConfig::new();
        k.eta = f(0);
        k.k = f(1);
        k.b = (f(2), f(3));
        k.alpha = (f(4), f(5), f(6), f(7), f(8));
        k
    }
    fn cb(c: &Self::C) -> Vec<u64> {
        [c.eta, c.k, c.b.0, c.b.1, c.alpha.0, c.alpha.1, c.alpha.2, c.alpha.3, c.alpha.4].iter().map(|x| x.to_bits()).collect()
    }
}
macro_rules! st_age {
    ($n:ident $r:ident { $($rf:ident $rk:ident),* }) => {
        struct $n;
        impl St for $n {
            type R = $r;
            type C = ();
            const RF: &'static [(&'static str, char)] = &[$((stringify!($rf), kind!($rk))),*];
            const CF: &'static [(&'static str, char)] = &[];
            fn r(b: &B3) -> $r {
                let mut i = 0;
                $(let $rf = { i += 1; dec!($rk b[i - 1]) };)*
                let _ = i;
                $r { $($rf),* }
            }
            fn rb(r: &$r) -> B3 {
                let v = [$(enc!($rk r.$rf)),*];
                let mut o = [0; 3];
                o[..v.len()].copy_from_slice(&v);
                o
            }
            fn c(_: &[u64]) {}
            fn cb(_: &()) -> Vec<u64> { vec![] }
        }
    };
}
st_age!(SDwz DWZRating { rating f, index u, age u });
st_age!(SIngo IngoRating { rating f, age u });

/// what an application keeps: ratings, config, and the outcome and ranks of the match to rate next
#[derive(Serialize, Deserialize)]
#[serde(bound(serialize = "R: Serialize, C: Serialize", deserialize = "R: DeserializeOwned, C: DeserializeOwned"))]
struct Rec<R, C> {
    seq: u64,
    live: Vec<R>,
    cfg: C,
    next: Vec<Outcomes>,
    ranks: Vec<MultiTeamOutcome>,
    arch: Vec<R>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Plain {
    seq: u64,
    live: Vec<B3>,
    cfg: Vec<u64>,
    next: Vec<u8>,
    ranks: Vec<u64>,
    arch: Vec<B3>,
}

// ------------------------------------------------------------------ the plan

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SOp {
    /// 0 match, 1 rating period, 2 missed period, 3 ranked teams
    pub kind: u8,
    pub ids: Vec<u16>,
    pub o: Vec<u8>,
    pub ranks: Vec<u64>,
    pub x: [f64; 3],
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct SFault {
    /// which life of the process
    pub inc: u32,
    pub kind: u8,
    /// which store or load of that life
    pub nth: u32,
    /// position inside it (per mille), also the choice of a field
    pub at: u32,
}
pub const CRASH: u8 = 0; // inside a library call
pub const CRASH_W: u8 = 1; // in the middle of a write
pub const CRASH_S: u8 = 2; // inside the library's serialisation
pub const ALLOC: u8 = 3; // an allocation of the library fails, which aborts the process
pub const POWER: u8 = 4; // after a store, before it was synced
pub const EIO_W: u8 = 5;
pub const ENOSPC: u8 = 6;
pub const EINTR_W: u8 = 7;
pub const SHORT_W: u8 = 8;
pub const EIO_R: u8 = 9;
pub const EINTR_R: u8 = 10;
pub const SHORT_R: u8 = 11;
pub const SER_ERR: u8 = 12;
pub const DE_ERR: u8 = 13;
pub const MISSING: u8 = 14;
pub const NULL: u8 = 15;
pub const BAD_COUNT: u8 = 16;
pub const NOSYNC: u8 = 17;
const KINDS: [&str; 18] = [
    "crash inside a rating call", "crash in the middle of a write", "crash inside serialisation", "allocation failure (abort)", "power cut before sync",
    "write error EIO", "write error ENOSPC", "interrupted write", "short writes", "read error EIO", "interrupted reads", "short reads",
    "serialiser error", "deserialiser error", "record without a field", "record with a null field", "record with a negative or fractional counter", "lost sync",
];
const FATAL: [u8; 5] = [CRASH, CRASH_W, CRASH_S, ALLOC, POWER];
pub const FORMATS: [&str; 7] = ["JSON stream", "pretty JSON", "JSON value", "positional bytes", "named tree", "named binary tree", "positional tree"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StoragePlan {
    pub sys: usize,
    pub cfg: Vec<u64>,
    pub live: Vec<V>,
    pub arch: Vec<B3>,
    pub ops: Vec<SOp>,
    pub fmt: u8,
    pub every: u32,
    pub faults: Vec<SFault>,
    pub env: EnvCfg,
    pub seed: u64,
}

fn kinds_of(sys: usize) -> &'static [(&'static str, char)] {
    with(sys, Kinds)
}
/// visitor over the system's types
trait Job {
    type Out;
    fn run<S: St>(self) -> Self::Out;
}
fn with<J: Job>(sys: usize, j: J) -> J::Out {
    match sys {
        ELO => j.run::<SElo>(),
        GLICKO => j.run::<SGlicko>(),
        GLICKO2 => j.run::<SGlicko2>(),
        BOOST => j.run::<SBoost>(),
        STICKO => j.run::<SSticko>(),
        TS => j.run::<STs>(),
        WL => j.run::<SWl>(),
        FIFA => j.run::<SFifa>(),
        USCF_ => j.run::<SUscf>(),
        EGF_ => j.run::<SEgf>(),
        DWZ_ => j.run::<SDwz>(),
        _ => j.run::<SIngo>(),
    }
}
struct Kinds;
impl Job for Kinds {
    type Out = &'static [(&'static str, char)];
    fn run<S: St>(self) -> Self::Out {
        S::RF
    }
}
fn v2b(sys: usize, v: &V) -> B3 {
    let k = kinds_of(sys);
    let mut b = [0; 3];
    for i in 0..k.len() {
        b[i] = if k[i].1 == 'u' { v[i] as u64 } else { v[i].to_bits() };
    }
    b
}
fn b2v(sys: usize, b: &B3) -> V {
    let k = kinds_of(sys);
    let mut v = [0.0; 3];
    for i in 0..k.len() {
        v[i] = if k[i].1 == 'u' { b[i] as f64 } else { f64::from_bits(b[i]) };
    }
    v
}
fn cfg_bits(sys: usize, c: &[f64]) -> Vec<u64> {
    c.iter().enumerate().map(|(i, x)| if sys == FIFA && i > 0 { (*x != 0.0) as u64 } else { x.to_bits() }).collect()
}
fn cfg_f(sys: usize, c: &[u64]) -> Vec<f64> {
    c.iter().enumerate().map(|(i, x)| if sys == FIFA && i > 0 { *x as f64 } else { f64::from_bits(*x) }).collect()
}

fn strange(r: &mut Rng, json: bool) -> u64 {
    let f: f64 = match r.below(if json { 9 } else { 12 }) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::MIN_POSITIVE,
        3 => f64::from_bits(r.next() & 0x000F_FFFF_FFFF_FFFF),
        4 => f64::MAX,
        5 => -1.0 / 3.0,
        6 => 0.1 + 0.2,
        7 => loop {
            let f = f64::from_bits(r.next());
            if f.is_finite() {
                break f;
            }
        },
        8 => (r.next() >> 11) as f64,
        9 => f64::INFINITY,
        10 => f64::NEG_INFINITY,
        _ => f64::NAN,
    };
    f.to_bits()
}

pub fn gen_storage(seed: u64, tier: &str) -> StoragePlan {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let sys = r.below(NSYS);
    let fmt = r.below(7) as u8;
    let json = fmt < 3;
    let n = r.int(2, 5);
    let live: Vec<V> = (0..n).map(|_| gen::rating(sys, r)).collect();
    let kinds = kinds_of(sys);
    let arch: Vec<B3> = (0..r.below(4))
        .map(|_| {
            let mut b = [0; 3];
            for i in 0..kinds.len() {
                b[i] = match (kinds[i].1, r.below(4)) {
                    ('u', 0) => u64::MAX,
                    ('u', 1) => r.next(),
                    ('u', 2) => r.below(4) as u64,
                    ('u', _) => r.next() >> 40,
                    (_, 0) => (1000.0 + 1000.0 * r.f()).to_bits(),
                    _ => strange(r, json),
                };
            }
            b
        })
        .collect();
    let mut cfg = cfg_bits(sys, &gen::cfg(sys, r));
    match sys {
        FIFA => cfg = cfg_bits(sys, &[*r.pick(&[5.0, 10.0, 15.0, 25.0, 40.0, 60.0, 100.0 / 3.0, 7.123_456_789_012_345]), r.below(2) as f64, r.below(2) as f64]),
        EGF_ => cfg = cfg_bits(sys, &[*r.pick(&[0.0, 1.0, 2.0, 5.0, 9.0, 0.5, 1.0 / 3.0])]),
        _ => {}
    }
    let nops = if tier == "thorough" { r.logint(60) } else { r.logint(24) };
    let ops = (0..nops)
        .map(|_| {
            let mut ids: Vec<u16> = (0..n as u16).collect();
            r.shuffle(&mut ids);
            let kind = match r.below(10) {
                0..=4 => 0,
                5..=6 => 1,
                7 => 2,
                _ if matches!(sys, TS | WL) => 3,
                _ => 0,
            };
            let k = match kind {
                0 => 2,
                2 => 1,
                _ => r.int(2, n),
            };
            ids.truncate(k);
            SOp { kind, o: (0..k).map(|_| gen::outcome(r)).collect(), ranks: gen::ranks(k, r), x: gen::xfor(sys, r), ids }
        })
        .collect();
    let every = r.int(1, 4) as u32;
    let mut faults = Vec::new();
    let lives = r.below(5) as u32;
    for inc in 0..=lives {
        if inc < lives {
            faults.push(SFault { inc, kind: *r.pick(&FATAL), nth: r.below(1 + nops / every as usize) as u32, at: r.below(1001) as u32 });
        }
        for _ in 0..r.below(3) {
            faults.push(SFault { inc, kind: r.int(EIO_W as usize, NOSYNC as usize) as u8, nth: r.below(4) as u32, at: r.below(1001) as u32 });
        }
    }
    StoragePlan { sys, cfg, live, arch, ops, fmt, every, faults, env: gen::env(r), seed }
}

// ------------------------------------------------------------------ the league itself (no storage)

struct App {
    sys: usize,
    st: Vec<V>,
}
fn plain(p: &StoragePlan, a: &App, cfg: &[u64], seq: usize) -> Plain {
    let op = p.ops.get(seq);
    Plain {
        seq: seq as u64,
        live: a.st.iter().map(|v| v2b(p.sys, v)).collect(),
        cfg: match (p.sys, op) {
            (FIFA | EGF_, Some(op)) => cfg_bits(p.sys, &op.x[..if p.sys == FIFA { 3 } else { 1 }]),
            _ => cfg.to_vec(),
        },
        next: op.map_or(vec![], |o| o.o.clone()),
        ranks: op.map_or(vec![], |o| o.ranks.clone()),
        arch: p.arch.clone(),
    }
}
impl App {
    /// rate one event with the config, outcomes and ranks as given (from memory or from a record)
    fn step(&mut self, op: &SOp, cfg: &[u64], next: &[u8], ranks: &[u64]) {
        let sys = self.sys;
        let c = cfg_f(sys, cfg);
        let mk = |f: u8| Call { sys, f, via: 0, cfg: c.clone(), teams: vec![], o: 0, res: vec![], ranks: vec![], weights: None, n: 0 };
        let v = |k: usize| self.st[op.ids[k] as usize];
        let call = match op.kind {
            0 => {
                let mut m = mk(F_PAIR);
                m.teams = vec![vec![v(0)], vec![v(1)]];
                m.o = next[0];
                m
            }
            1 => {
                let mut m = mk(F_PERIOD);
                m.teams = vec![vec![v(0)]];
                m.res = (1..op.ids.len())
                    .map(|k| Res {
                        v: v(k),
                        o: next[k],
                        x: match sys {
                            FIFA => [c[0], c[1], c[2]],
                            EGF_ => [c[0], 0., 0.],
                            _ => op.x,
                        },
                    })
                    .collect();
                m
            }
            2 => {
                let mut m = mk(if matches!(sys, GLICKO | GLICKO2 | BOOST | STICKO) { F_DECAY } else { F_PERIOD });
                m.teams = vec![vec![v(0)]];
                m
            }
            _ => {
                let mut m = mk(F_MULTI);
                m.teams = (0..op.ids.len()).map(|k| vec![v(k)]).collect();
                m.ranks = ranks.to_vec();
                m
            }
        };
        let o = exec(&call, &Slots(vec![]));
        if o.st != 0 {
            return;
        }
        let t = super::league::parse(sys, &o.bits);
        let flat: Vec<V> = t.into_iter().flatten().collect();
        for (k, v) in flat.iter().enumerate().take(op.ids.len()) {
            if v[..WIDTH[sys]].iter().all(|x| x.is_finite()) {
                self.st[op.ids[k] as usize] = *v;
            }
        }
    }
}

// ------------------------------------------------------------------ the simulated disk

/// one record; survives crashes of the process because it lies in shared memory
#[repr(C)]
struct Slot {
    seq: u64,
    have: u64,
    whole: u64,
    synced: u64,
    damaged: u64,
    at: u64,
}
#[repr(C)]
struct Disk {
    n: u64,
    end: u64,
    stores: u64,
    fired: [u64; 18],
    slots: [Slot; 512],
}
fn disk() -> &'static mut Disk {
    unsafe { &mut *(disk_area().0 as *mut Disk) }
}
fn bytes(from: u64, len: u64) -> &'static mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(disk_area().0.add(65536 + from as usize), len as usize) }
}
fn fire(k: u8) {
    disk().fired[k as usize] += 1;
}

struct W {
    i: usize,
    fault: Option<(u8, u64)>,
    failed: bool,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let d = disk();
        let s = &mut d.slots[self.i];
        let mut n = b.len();
        if let Some((k, at)) = self.fault {
            let room = at.saturating_sub(s.have) as usize;
            match k {
                SHORT_W => n = n.min(3),
                EINTR_W => {
                    if s.have >= at {
                        self.fault = None;
                        fire(EINTR_W);
                        return Err(Error::from(ErrorKind::Interrupted));
                    }
                    n = n.min(room.max(1));
                }
                _ => {
                    if room == 0 {
                        if k == CRASH_W {
                            fire(CRASH_W);
                            unsafe { env::_exit(env::EXIT_CRASH) }
                        }
                        if !self.failed {
                            fire(k);
                        }
                        self.failed = true;
                        return Err(Error::new(if k == ENOSPC { ErrorKind::StorageFull } else { ErrorKind::Other }, "simulated"));
                    }
                    n = n.min(room);
                }
            }
        }
        bytes(d.end, n as u64).copy_from_slice(&b[..n]);
        d.end += n as u64;
        s.have += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct Rd {
    b: &'static [u8],
    at: usize,
    fault: Option<(u8, usize)>,
    failed: bool,
}
impl Read for Rd {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut n = b.len().min(self.b.len() - self.at);
        if let Some((k, pos)) = self.fault {
            match k {
                SHORT_R => n = n.min(2),
                _ if self.at >= pos => {
                    if k == EINTR_R {
                        self.fault = None;
                        fire(EINTR_R);
                        return Err(Error::from(ErrorKind::Interrupted));
                    }
                    if !self.failed {
                        fire(EIO_R);
                    }
                    self.failed = true;
                    return Err(Error::new(ErrorKind::Other, "simulated"));
                }
                _ => n = n.min(pos - self.at),
            }
        }
        b[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

// ------------------------------------------------------------------ one life of the process

struct Life<'p> {
    p: &'p StoragePlan,
    inc: u32,
    /// state before each event, from the run without crashes
    want: &'p [Plain],
    stores: u32,
    loads: u32,
    viol: Option<Viol>,
}

fn guard<T>(f: impl FnMut() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| env::call(f))).ok()
}

impl<'p> Life<'p> {
    fn fail(&mut self, class: &str, detail: String) {
        if self.viol.is_none() {
            self.viol = Some(Viol { class: class.into(), detail: format!("{} as {}: {detail}", NAMES[self.p.sys], FORMATS[self.p.fmt as usize]) });
        }
    }
    fn faults(&self, nth: u32, ks: &[u8]) -> Option<SFault> {
        self.p.faults.iter().copied().find(|f| f.inc == self.inc && f.nth == nth && ks.contains(&f.kind))
    }

    fn store<S: St>(&mut self, x: &Plain) {
        let p = self.p;
        let d = disk();
        if d.n as usize >= d.slots.len() {
            return;
        }
        let rec: Rec<S::R, S::C> = Rec {
            seq: x.seq,
            live: x.live.iter().map(S::r).collect(),
            cfg: S::c(&x.cfg),
            next: x.next.iter().map(|o| oc(*o)).collect(),
            ranks: x.ranks.iter().map(|r| MultiTeamOutcome::new(*r as usize)).collect(),
            arch: x.arch.iter().map(S::r).collect(),
        };
        // size of a record of this league, for placing faults
        let size = 40 + 30 * (x.live.len() + x.arch.len()) as u64;
        let wf = self.faults(self.stores, &[EIO_W, ENOSPC, EINTR_W, SHORT_W, CRASH_W]);
        let sf = self.faults(self.stores, &[SER_ERR, CRASH_S]);
        self.stores += 1;
        let i = d.n as usize;
        d.n += 1;
        d.stores += 1;
        d.slots[i] = Slot { seq: x.seq, have: 0, whole: 0, synced: 0, damaged: 0, at: d.end };
        let mut w = W { i, fault: wf.map(|f| (f.kind, f.at as u64 * size / 1000)), failed: false };
        if matches!(w.fault, Some((SHORT_W, _))) {
            fire(SHORT_W);
        }
        let mut ser_fired = false;
        let r: Option<Result<(), String>> = match p.fmt {
            0 => guard(|| serde_json::to_writer(&mut w, &rec).map_err(|e| e.to_string())),
            1 => guard(|| serde_json::to_writer_pretty(&mut w, &rec).map_err(|e| e.to_string())),
            2 => guard(|| {
                let v = serde_json::to_value(&rec).map_err(|e| e.to_string())?;
                w.write_all(v.to_string().as_bytes()).map_err(|e| e.to_string())
            }),
            3 => guard(|| rec.serialize(&mut PosSer(&mut w)).map_err(|e| e.0)),
            _ => {
                let mut t = Tree::new(p.fmt != 6, p.fmt == 4);
                if let Some(f) = sf {
                    t.left.set(f.at as u64 * (12 + 8 * (x.live.len() + x.arch.len()) as u64) / 1000);
                    t.crash = f.kind == CRASH_S;
                    if t.crash {
                        fire(CRASH_S); // counted when armed: the crash leaves nobody to count it
                    }
                }
                let r = guard(|| {
                    let v = rec.serialize(&t).map_err(|e| e.0)?;
                    let mut b = Vec::new();
                    v.to_bytes(&mut b);
                    w.write_all(&b).map_err(|e| e.to_string())
                });
                if t.crash && !t.fired.get() {
                    disk().fired[CRASH_S as usize] -= 1;
                }
                ser_fired = t.fired.get();
                if ser_fired {
                    fire(SER_ERR);
                }
                r
            }
        };
        match r {
            None => return self.fail("storing a rating panicked", format!("{x:?}")),
            Some(Ok(())) => {
                if w.failed || ser_fired {
                    return self.fail("an error of the writer was swallowed", format!("storing {x:?} succeeded although the writer failed"));
                }
                let s = &mut disk().slots[i];
                s.whole = 1;
                if let Some(_f) = self.faults(self.stores - 1, &[POWER]) {
                    fire(POWER);
                    unsafe { env::_exit(env::EXIT_CRASH) }
                }
                if self.faults(self.stores - 1, &[NOSYNC]).is_some() {
                    fire(NOSYNC);
                } else {
                    // a sync makes this and every earlier record durable
                    for k in 0..=i {
                        disk().slots[k].synced = 1;
                    }
                }
            }
            Some(Err(e)) => {
                if !w.failed && !ser_fired {
                    self.fail("a rating could not be stored", format!("{e}: {x:?}"));
                }
            }
        }
    }

    /// media damage: a field of a library struct in the newest record is dropped, nulled or falsified
    fn damage<S: St>(&mut self) {
        let Some(f) = self.p.faults.iter().copied().find(|f| f.inc == self.inc && matches!(f.kind, MISSING | NULL | BAD_COUNT)) else { return };
        let d = disk();
        if d.n == 0 {
            return;
        }
        let s = &mut d.slots[d.n as usize - 1];
        if s.whole == 0 || s.damaged != 0 {
            return;
        }
        let (nl, na) = (self.p.live.len(), self.p.arch.len());
        // which struct: a live player, the config, or an archived player
        let k = f.at as usize % (nl + na + 1);
        let field = f.at as usize / 7;
        let (outer, idx, fields): (&str, Option<usize>, &[(&str, char)]) = if k < nl {
            ("live", Some(k), S::RF)
        } else if k == nl {
            ("cfg", None, S::CF)
        } else {
            ("arch", Some(k - nl - 1), S::RF)
        };
        if fields.is_empty() {
            return;
        }
        let mut fi = field % fields.len();
        if f.kind == BAD_COUNT {
            match fields.iter().position(|x| x.1 == 'u') {
                Some(u) => fi = u,
                None => return,
            }
        }
        let old = bytes(s.at, s.have).to_vec();
        let mut new = Vec::new();
        if self.p.fmt < 3 {
            let Ok(mut v) = serde_json::from_slice::<serde_json::Value>(&old) else { return };
            let node = match idx {
                Some(i) => v.get_mut(outer).and_then(|x| x.get_mut(i)),
                None => v.get_mut(outer),
            };
            let Some(serde_json::Value::Object(m)) = node else { return };
            if !m.contains_key(fields[fi].0) {
                return;
            }
            match f.kind {
                MISSING => {
                    m.remove(fields[fi].0);
                }
                NULL => {
                    m.insert(fields[fi].0.into(), serde_json::Value::Null);
                }
                _ => {
                    m.insert(fields[fi].0.into(), if f.at % 2 == 0 { serde_json::json!(-3) } else { serde_json::json!(2.5) });
                }
            }
            new = serde_json::to_vec(&v).unwrap_or_default();
        } else if self.p.fmt > 3 {
            let mut at = 0;
            let Some((mut v, _)) = Val::from_bytes(&old, &mut at) else { return };
            let pick = |v: &mut Val, name: &str, pos: usize| -> Option<*mut Val> {
                match v {
                    Val::Map(m) => m.iter_mut().find(|x| x.0 == Val::Str(name.into())).map(|x| &mut x.1 as *mut Val),
                    Val::Seq(s) => s.get_mut(pos).map(|x| x as *mut Val),
                    _ => None,
                }
            };
            let pos = match outer {
                "live" => 1,
                "cfg" => 2,
                _ => 5,
            };
            let Some(mut n) = pick(&mut v, outer, pos) else { return };
            unsafe {
                if let Some(i) = idx {
                    match pick(&mut *n, "", i) {
                        Some(x) => n = x,
                        None => return,
                    }
                }
                match (&mut *n, f.kind) {
                    (Val::Map(m), MISSING) => m.retain(|x| x.0 != Val::Str(fields[fi].0.into())),
                    (Val::Seq(s), MISSING) => {
                        s.pop();
                    }
                    (n, k) => {
                        let Some(x) = pick(n, fields[fi].0, fi) else { return };
                        *x = match k {
                            NULL => Val::Null,
                            _ if f.at % 2 == 0 => Val::I(-3),
                            _ => Val::F(2.5f64.to_bits()),
                        };
                    }
                }
            }
            v.to_bytes(&mut new);
        }
        if new.is_empty() || new == old {
            return;
        }
        s.at = d.end;
        s.have = new.len() as u64;
        s.damaged = 1;
        bytes(d.end, new.len() as u64).copy_from_slice(&new);
        d.end += new.len() as u64;
        fire(f.kind);
    }

    fn load<S: St>(&mut self) -> Option<Plain> {
        let n = disk().n as usize;
        for i in (0..n).rev() {
            if self.viol.is_some() {
                return None;
            }
            let d = disk();
            let (at, have, seq, whole, damaged) = (d.slots[i].at, d.slots[i].have, d.slots[i].seq, d.slots[i].whole, d.slots[i].damaged);
            let b: &'static [u8] = bytes(at, have);
            let rf = self.faults(self.loads, &[EIO_R, EINTR_R, SHORT_R]);
            let df = self.faults(self.loads, &[DE_ERR]);
            self.loads += 1;
            let fmt = self.p.fmt;
            let mut rd = Rd { b, at: 0, fault: rf.map(|f| (f.kind, f.at as usize * b.len() / 1000)), failed: false };
            if fmt == 0 || fmt == 3 {
                if let Some((SHORT_R, _)) = rd.fault {
                    fire(SHORT_R);
                }
            }
            let mut de_fired = false;
            let r: Option<Result<Rec<S::R, S::C>, String>> = match fmt {
                0 => guard(|| serde_json::from_reader(&mut rd).map_err(|e| e.to_string())),
                1 => guard(|| serde_json::from_slice(b).map_err(|e| e.to_string())),
                2 => guard(|| {
                    let v: serde_json::Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
                    serde_json::from_value(v).map_err(|e| e.to_string())
                }),
                3 => guard(|| {
                    let mut d = PosDe::new(&mut rd);
                    let r = Rec::<S::R, S::C>::deserialize(&mut d).map_err(|e| e.0)?;
                    if d.at_end().map_err(|e| e.0)? {
                        Ok(r)
                    } else {
                        Err("bytes left over".into())
                    }
                }),
                _ => {
                    let t = Tree::new(fmt != 6, fmt == 4);
                    if let Some(f) = df {
                        t.left.set(f.at as u64 * (16 + 12 * (self.p.live.len() + self.p.arch.len()) as u64) / 1000);
                    }
                    let mut at = 0;
                    let r = match Val::from_bytes(b, &mut at) {
                        Some((v, _)) => guard(|| Rec::<S::R, S::C>::deserialize(ValDe { t: &t, v: &v }).map_err(|e| e.0)),
                        None => Some(Err("no record".into())),
                    };
                    de_fired = t.fired.get();
                    if de_fired {
                        fire(DE_ERR);
                    }
                    r
                }
            };
            let want = &self.want[seq as usize];
            match r {
                None => self.fail("loading a rating panicked", format!("record {seq}, {} of its bytes present", have)),
                Some(Err(e)) => {
                    if whole != 0 && damaged == 0 && !rd.failed && !de_fired {
                        self.fail("a completely stored record was refused", format!("{e}: record {} of {want:?}", String::from_utf8_lossy(&b[..b.len().min(400)])));
                    }
                }
                Some(Ok(rec)) => {
                    if rd.failed || de_fired {
                        self.fail("an error of the reader was swallowed", format!("loading record {seq} succeeded although the reader failed"));
                        return None;
                    }
                    let got = Plain {
                        seq: rec.seq,
                        live: rec.live.iter().map(S::rb).collect(),
                        cfg: S::cb(&rec.cfg),
                        next: rec.next.iter().map(|o| match o {
                            Outcomes::WIN => 0,
                            Outcomes::LOSS => 1,
                            Outcomes::DRAW => 2,
                        }).collect(),
                        ranks: rec.ranks.iter().map(|r| r.rank() as u64).collect(),
                        arch: rec.arch.iter().map(S::rb).collect(),
                    };
                    let w = Plain { next: want.next.iter().map(|o| (*o).min(2)).collect(), ..want.clone() };
                    if got == w {
                        return Some(Plain { next: want.next.clone(), ..got });
                    }
                    if got.live.len() != w.live.len() || got.arch.len() != w.arch.len() || got.next.len() != w.next.len() || got.ranks.len() != w.ranks.len() {
                        // the application itself sees that whole entries are missing
                        if whole != 0 && damaged == 0 {
                            self.fail("a completely stored record lost entries", format!("{got:?} instead of {w:?}"));
                        }
                        continue;
                    }
                    let class = if damaged != 0 || whole == 0 { "a damaged record was accepted and silently completed" } else { "a stored record came back altered" };
                    self.fail(class, format!("record {seq}: stored {}, came back {}", readable::<S>(&w), readable::<S>(&got)));
                }
            }
        }
        None
    }

    fn go<S: St>(&mut self) -> Vec<B3> {
        self.damage::<S>();
        let p = self.p;
        let mut app = App { sys: p.sys, st: p.live.clone() };
        let mut from = self.want[0].clone();
        if let Some(x) = self.load::<S>() {
            from = x;
        }
        if self.viol.is_some() {
            return vec![];
        }
        app.st = from.live.iter().map(|b| b2v(p.sys, b)).collect();
        let mut at = from.seq as usize;
        let mut rec = from;
        loop {
            if (at as u32) % p.every == 0 || at == p.ops.len() {
                self.store::<S>(&rec);
                if self.viol.is_some() {
                    return vec![];
                }
            }
            if at == p.ops.len() {
                break;
            }
            app.step(&p.ops[at], &rec.cfg, &rec.next, &rec.ranks);
            at += 1;
            rec = plain(p, &app, &p.cfg, at);
            if rec.cfg.is_empty() {
                rec.cfg = vec![];
            }
            if rec.live != self.want[at].live {
                self.fail("the restarted league diverged", format!("after event {at} {:?} instead of {:?}", rec.live, self.want[at].live));
                return vec![];
            }
        }
        rec.live
    }
}

fn readable<S: St>(p: &Plain) -> String {
    let show = |b: &B3| -> String {
        S::RF.iter().enumerate().map(|(i, k)| if k.1 == 'u' { format!("{}: {}", k.0, b[i]) } else { format!("{}: {:?}", k.0, f64::from_bits(b[i])) }).collect::<Vec<_>>().join(", ")
    };
    format!(
        "live {:?} archived {:?} config bits {:x?} outcomes {:?} ranks {:?}",
        p.live.iter().map(show).collect::<Vec<_>>(),
        p.arch.iter().map(show).collect::<Vec<_>>(),
        p.cfg,
        p.next,
        p.ranks
    )
}

/// records of the released version, spelled with the documented names, must load; new ones must use these names
struct Golden<'a>(&'a Plain);
impl Job for Golden<'_> {
    type Out = Option<Viol>;
    fn run<S: St>(self) -> Option<Viol> {
        use serde_json::{json, Map, Value};
        let bad = |class: &str, d: String| Some(Viol { class: class.into(), detail: d });
        let num = |k: char, b: u64| -> Value {
            match k {
                'u' => json!(b),
                'b' => json!(b != 0),
                _ => json!(f64::from_bits(b)),
            }
        };
        let finite = |b: &B3| S::RF.iter().enumerate().all(|(i, k)| k.1 == 'u' || f64::from_bits(b[i]).is_finite());
        for b in self.0.live.iter().chain(&self.0.arch).filter(|b| finite(b)) {
            let m: Map<String, Value> = S::RF.iter().enumerate().map(|(i, k)| (k.0.to_string(), num(k.1, b[i]))).collect();
            let old = Value::Object(m);
            match guard(|| serde_json::from_str::<S::R>(&old.to_string()).map_err(|e| e.to_string())) {
                Some(Ok(r)) if S::rb(&r) == *b => {}
                Some(Ok(r)) => return bad("a record of the released version loads differently", format!("{old}: {:x?} instead of {b:x?}", S::rb(&r))),
                x => return bad("a record of the released version does not load", format!("{old}: {:?}", x.map(|e| e.err()))),
            }
            match guard(|| serde_json::to_value(S::r(b)).map_err(|e| e.to_string())) {
                Some(Ok(v)) if v == old => {}
                x => return bad("a rating is stored under other names or values than documented", format!("{old} became {x:?}")),
            }
        }
        if !S::CF.is_empty() {
            let mut m = Map::new();
            let mut i = 0;
            for k in S::CF {
                let n = match k.1 {
                    '2' => 2,
                    '5' => 5,
                    _ => 1,
                };
                let v: Vec<Value> = (i..i + n).map(|j| num(k.1, self.0.cfg[j])).collect();
                i += n;
                m.insert(k.0.into(), if n == 1 { v[0].clone() } else { Value::Array(v) });
            }
            let old = Value::Object(m);
            match guard(|| serde_json::from_str::<S::C>(&old.to_string()).map_err(|e| e.to_string())) {
                Some(Ok(c)) if S::cb(&c) == self.0.cfg => {}
                Some(Ok(c)) => return bad("a config of the released version loads differently", format!("{old}: {:x?} instead of {:x?}", S::cb(&c), self.0.cfg)),
                x => return bad("a config of the released version does not load", format!("{old}: {:?}", x.map(|e| e.err()))),
            }
            match guard(|| serde_json::to_value(S::c(&self.0.cfg)).map_err(|e| e.to_string())) {
                Some(Ok(v)) if v == old => {}
                x => return bad("a config is stored under other names or values than documented", format!("{old} became {x:?}")),
            }
        }
        // lost, nulled and impossible fields, one at a time: the record must be refused
        let hurt = |old: &Value, f: &str, k: char| -> Vec<(u8, Value)> {
            let mut out = Vec::new();
            for (kind, with) in [(MISSING, None), (NULL, Some(Value::Null)), (BAD_COUNT, Some(json!(-3))), (BAD_COUNT, Some(json!(2.5)))] {
                if kind == BAD_COUNT && k != 'u' {
                    continue;
                }
                let mut v = old.clone();
                let m = v.as_object_mut().unwrap();
                match with {
                    None => m.remove(f),
                    Some(x) => m.insert(f.into(), x),
                };
                out.push((kind, v));
            }
            out
        };
        if let Some(b) = self.0.live.iter().find(|b| finite(b)) {
            let old = Value::Object(S::RF.iter().enumerate().map(|(i, k)| (k.0.to_string(), num(k.1, b[i]))).collect());
            for f in S::RF {
                for (kind, v) in hurt(&old, f.0, f.1) {
                    fire(kind);
                    if let Some(Ok(r)) = guard(|| serde_json::from_str::<S::R>(&v.to_string())) {
                        return bad("a damaged record was accepted and silently completed", format!("{v} loaded as {:x?}", S::rb(&r)));
                    }
                }
            }
        }
        if let Some(Ok(old @ Value::Object(_))) = guard(|| serde_json::to_value(S::c(&self.0.cfg))) {
            for f in S::CF {
                for (kind, v) in hurt(&old, f.0, f.1) {
                    fire(kind);
                    if let Some(Ok(c)) = guard(|| serde_json::from_str::<S::C>(&v.to_string())) {
                        return bad("a damaged record was accepted and silently completed", format!("{v} loaded as {:x?}", S::cb(&c)));
                    }
                }
            }
        }
        for v in [json!(-1), json!(1.5), Value::Null, json!("x")] {
            fire(BAD_COUNT);
            if let Some(Ok(r)) = guard(|| serde_json::from_value::<MultiTeamOutcome>(v.clone())) {
                return bad("a damaged record was accepted and silently completed", format!("{v} loaded as rank {}", r.rank()));
            }
            if let Some(Ok(o)) = guard(|| serde_json::from_value::<Outcomes>(v.clone())) {
                return bad("a damaged record was accepted and silently completed", format!("{v} loaded as outcome {o:?}"));
            }
        }
        for (o, n) in [(Outcomes::WIN, "WIN"), (Outcomes::LOSS, "LOSS"), (Outcomes::DRAW, "DRAW")] {
            let l = guard(|| serde_json::from_value::<Outcomes>(json!(n)).ok()).flatten();
            let s = guard(|| serde_json::to_value(o).ok()).flatten();
            if l != Some(o) || s != Some(json!(n)) {
                return bad("an outcome is stored under another name than documented", format!("{n}: loads as {l:?}, stored as {s:?}"));
            }
        }
        for r in &self.0.ranks {
            let l = guard(|| serde_json::from_value::<MultiTeamOutcome>(json!(r)).ok()).flatten();
            let s = guard(|| serde_json::to_value(MultiTeamOutcome::new(*r as usize)).ok()).flatten();
            if l.map(|x| x.rank() as u64) != Some(*r) || s != Some(json!(r)) {
                return bad("a rank is stored differently", format!("{r}: loads as {l:?}, stored as {s:?}"));
            }
        }
        None
    }
}
struct Go<'a, 'p>(&'a mut Life<'p>);
impl Job for Go<'_, '_> {
    type Out = Vec<B3>;
    fn run<S: St>(self) -> Vec<B3> {
        self.0.go::<S>()
    }
}

pub fn run_storage(p: &StoragePlan) -> RunResult {
    let mut st = Stats::default();
    // the league without storage and crashes, in a process of its own
    let oracle = forked(|| {
        env::set_limit(2_000_000_000);
        let e0 = env::edges();
        let mut a = App { sys: p.sys, st: p.live.clone() };
        let mut w = vec![plain(p, &a, &p.cfg, 0)];
        for (i, op) in p.ops.iter().enumerate() {
            let x = w[i].clone();
            a.step(op, &x.cfg, &x.next, &x.ranks);
            w.push(plain(p, &a, &p.cfg, i + 1));
        }
        (w, env::edges() - e0)
    });
    let (want, total) = match oracle {
        Ok(x) => x,
        Err(d) => {
            return RunResult { viol: Some(Viol { class: died_class(&d).into(), detail: format!("{d:?} while rating a league of {}", NAMES[p.sys]) }), stats: st, explicit: None };
        }
    };
    unsafe { std::ptr::write_bytes(disk_area().0, 0, std::mem::size_of::<Disk>()) };
    let mut viol = None;
    let mut inc = 0;
    let mut end: Option<Vec<B3>> = None;
    let lives = p.faults.iter().map(|f| f.inc + 1).max().unwrap_or(1) + 1;
    let mut crashes = 0;
    while inc <= lives + 1 {
        let fatal = p.faults.iter().find(|f| f.inc == inc && FATAL.contains(&f.kind));
        let r = forked(|| {
            unsafe {
                let n = env::open(b"/dev/null\0".as_ptr(), 1);
                if n >= 0 {
                    env::dup2(n, 2);
                }
            }
            env::set_limit(2_000_000_000);
            env::set_env(p.env);
            if let Some(f) = fatal {
                match f.kind {
                    CRASH => env::set_crash(1 + total * f.at as u64 / 1000),
                    ALLOC => env::alloc_fail_after(1 + f.at as u64 * (1 + p.ops.len() as u64 / 4) / 40),
                    _ => {}
                }
            }
            let mut l = Life { p, inc, want: &want, stores: 0, loads: 0, viol: None };
            let end = with(p.sys, Go(&mut l));
            let mut v = l.viol;
            if v.is_none() && (inc == 0 || fatal.is_none()) {
                env::clear_crash();
                env::alloc_fail_after(u64::MAX >> 1);
                v = with(p.sys, Golden(&want[hash(&[p.seed, inc as u64]) as usize % want.len()]));
            }
            (v, end)
        });
        st.add("lives of the process", 1);
        match r {
            Ok((Some(v), _)) => {
                viol = Some(v);
                break;
            }
            Ok((None, e)) => {
                end = Some(e);
                if inc >= lives {
                    break;
                }
            }
            Err(d) => {
                let planned = match (&d, fatal.map(|f| f.kind)) {
                    (Died::Code(env::EXIT_CRASH), Some(k)) => {
                        if k == CRASH {
                            fire(CRASH);
                        }
                        true
                    }
                    (Died::Signal(6), Some(ALLOC)) => {
                        fire(ALLOC);
                        true
                    }
                    _ => false,
                };
                if !planned {
                    viol = Some(Viol { class: died_class(&d).into(), detail: format!("{d:?} in life {inc} of a stored league of {}", NAMES[p.sys]) });
                    break;
                }
                crashes += 1;
                // what was not synced may be lost, wholly or from some byte on
                let d = disk();
                for i in 0..d.n as usize {
                    let s = &mut d.slots[i];
                    if s.synced == 0 {
                        let h = hash(&[p.seed, 77, inc as u64, i as u64]);
                        match h % 3 {
                            0 => {}
                            1 => {
                                s.have = 0;
                                s.whole = 0;
                            }
                            _ => {
                                let keep = (h >> 8) % (s.have + 1);
                                if keep < s.have {
                                    s.have = keep;
                                    s.whole = 0;
                                }
                            }
                        }
                        s.synced = 1;
                    }
                }
            }
        }
        inc += 1;
    }
    if viol.is_none() && end.as_deref() != Some(&want.last().unwrap().live[..]) {
        viol = Some(Viol {
            class: "the league never finished after the faults stopped".into(),
            detail: format!("{} as {}: {:?} instead of {:?}", NAMES[p.sys], FORMATS[p.fmt as usize], end, want.last().unwrap().live),
        });
    }
    let d = disk();
    for (k, n) in d.fired.iter().enumerate() {
        st.add(&format!("fault:{}", KINDS[k]), *n);
    }
    st.add("records stored", d.stores);
    st.add("crashes", crashes);
    st.add(&format!("system {}", NAMES[p.sys]), 1);
    st.add(&format!("format {}", FORMATS[p.fmt as usize]), 1);
    for i in 0..d.n as usize {
        let s = &d.slots[i];
        st.fold(hash(&[s.seq, s.have, s.whole, s.damaged]));
        if s.have <= 1 << 16 {
            for b in bytes(s.at, s.have) {
                st.fold(*b as u64);
            }
        }
    }
    for x in &want {
        for b in x.live.iter().flatten() {
            st.fold(*b);
        }
    }
    st.vtime_ms = 5 * d.stores + p.ops.len() as u64 * 1000;
    st.nontrivial = d.fired.iter().sum::<u64>() > 0 && d.stores > 0;
    st.note = format!("{} as {}: {} events, {} records, {} crashes, {} lives", NAMES[p.sys], FORMATS[p.fmt as usize], p.ops.len(), d.stores, crashes, inc + 1);
    RunResult { explicit: viol.as_ref().map(|_| super::World::Storage(p.clone())), viol, stats: st }
}

impl StoragePlan {
    pub fn parts(&self) -> Vec<usize> {
        vec![self.ops.len(), self.faults.len(), self.arch.len()]
    }
    pub fn without(&self, part: usize, lo: usize, hi: usize) -> Option<Self> {
        let mut p = self.clone();
        match part {
            0 => {
                p.ops.drain(lo..hi);
            }
            1 => {
                p.faults.drain(lo..hi);
            }
            _ => {
                p.arch.drain(lo..hi);
            }
        }
        Some(p)
    }
    pub fn simpler(&self) -> Vec<Self> {
        let mut o = Vec::new();
        if self.env != EnvCfg::canonical() {
            o.push(StoragePlan { env: EnvCfg::canonical(), ..self.clone() });
        }
        let used = self.ops.iter().flat_map(|o| o.ids.iter()).max().map_or(1, |m| *m as usize + 1);
        if used < self.live.len() {
            o.push(StoragePlan { live: self.live[..used].to_vec(), ..self.clone() });
        }
        if self.every > 1 {
            o.push(StoragePlan { every: 1, ..self.clone() });
        }
        o
    }
}
