//! C05-C13: leagues. Clients report matches, team games and period ends over a faulty network;
//! a sequencer and replicas rate them with the real library; what the replicas compute is
//! compared with each other, with an independent model and with invariants.
use crate::api::*;
use crate::engine::*;
use crate::env::{self, EnvCfg};
use crate::gen;
use crate::model;
use crate::net::{self, Fault, Item, NetCfg, Step};
use crate::rng::{hash, mix, Rng};
use serde::{Deserialize, Serialize};

mod newcomers;
mod parallel;
mod views;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    /// o: 0 win of a, 1 loss, 2 draw, 3 favourite wins, 4 underdog wins; q: counted at the end of the period
    Match { a: u16, b: u16, o: u8, x: [f64; 3], q: bool },
    Team { teams: Vec<Vec<u16>>, ranks: Vec<u64>, w: Option<Vec<Vec<f64>>>, two: bool },
    Close,
    /// a new player takes place k; give: what is known about them (see `newcomers`)
    Join { k: u16, age: u16, give: u8, v: V, n: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entry {
    pub uid: u32,
    pub t: u32,
    pub k: Kind,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LeaguePlan {
    pub prop: u8,
    pub seed: u64,
    pub sys: usize,
    pub cfg: Vec<f64>,
    pub env: EnvCfg,
    pub players: Vec<V>,
    pub entries: Vec<Entry>,
    pub net: NetCfg,
    pub faults: Option<Vec<Fault>>,
}

// ------------------------------------------------------------------ generation

fn sequential(sys: usize) -> bool {
    matches!(sys, ELO | FIFA | TS | WL)
}
fn systems(prop: u8) -> &'static [usize] {
    match prop {
        5 => &[GLICKO, GLICKO2, BOOST, STICKO, USCF_, EGF_, DWZ_, INGO],
        6 => &[ELO, FIFA, TS, WL],
        8 => &[TS, WL, TS],
        9 => &[ELO, FIFA, INGO, WL, TS],
        10 | 11 | 14 => &[ELO, GLICKO, GLICKO2, BOOST, STICKO, TS, WL, FIFA, USCF_, EGF_, DWZ_, INGO, TS, WL],
        15 => &[ELO, USCF_, GLICKO, GLICKO2, BOOST, STICKO, TS, WL, FIFA, USCF_, DWZ_, INGO],
        16 => &[TS],
        20 => &[ELO, GLICKO, GLICKO2, BOOST, STICKO, TS, WL, FIFA, INGO, GLICKO, TS],
        17 => &[TS, TS, DWZ_],
        12 => &[GLICKO2, TS, GLICKO2, TS, WL, ELO, GLICKO, BOOST, STICKO, FIFA, USCF_, EGF_, DWZ_, INGO],
        _ => &[ELO, GLICKO, GLICKO2, BOOST, STICKO, TS, WL, FIFA, USCF_, EGF_, DWZ_, INGO],
    }
}

fn netcfg(prop: u8, sys: usize, r: &mut Rng) -> NetCfg {
    let mut p = [0u16; 10];
    // swarm: each run has its own mix of faults, some have none
    let lvl = |r: &mut Rng, hi: usize| if r.chance(0.5) { r.int(1, hi) as u16 } else { 0 };
    if !r.chance(0.08) {
        p[net::LOSS as usize] = lvl(r, 250);
        p[net::DUP as usize] = lvl(r, 200);
        p[net::ACKLOSS as usize] = lvl(r, 150);
        p[net::CRASH as usize] = lvl(r, 40);
        p[net::STALL as usize] = lvl(r, 60);
        p[net::PART as usize] = lvl(r, 15);
        p[net::DELAY as usize] = if r.chance(0.85) { r.int(50, 1000) as u16 } else { 0 };
    }
    p[net::SAVE as usize] = r.int(20, 400) as u16;
    p[net::SAVEFAIL as usize] = lvl(r, 400);
    p[net::FLUSH as usize] = if prop == 6 { r.int(10, 500) as u16 } else { 0 };
    NetCfg {
        nodes: match prop {
            5 => r.int(2, 3) as u8,
            6 => 3,
            7 => 3,
            8 => 3,
            13 => 3,
            _ => 2,
        },
        p,
        jitter: *r.pick(&[10, 100, 1000, 20_000]),
        ordered: sequential(sys),
    }
}

fn start(sys: usize, r: &mut Rng, style: usize) -> V {
    match style {
        0 => new_default(sys, gen::age(r) as usize),
        1 => gen::rating(sys, r),
        _ => {
            if r.chance(0.5) {
                new_default(sys, gen::age(r) as usize)
            } else {
                gen::rating(sys, r)
            }
        }
    }
}

struct Maker<'a> {
    r: &'a mut Rng,
    sys: usize,
    prop: u8,
    np: usize,
    t: u32,
    uid: u32,
    outs: usize,
    pairs: usize,
    out: Vec<Entry>,
}
impl Maker<'_> {
    fn push(&mut self, k: Kind) {
        self.t += self.r.logint(200) as u32;
        self.uid += 1;
        self.out.push(Entry { uid: self.uid, t: self.t, k });
    }
    fn two(&mut self) -> (u16, u16) {
        let n = self.np;
        let a = match self.pairs {
            0 => 0,
            1 => self.r.below(2.min(n)),
            2 => self.r.below(3.min(n)),
            _ => self.r.below(n),
        };
        let mut b = if self.pairs == 1 { 1 - a.min(1) } else { self.r.below(n) };
        if b == a {
            b = (a + 1) % n;
        }
        if self.r.chance(0.5) {
            (b as u16, a as u16)
        } else {
            (a as u16, b as u16)
        }
    }
    fn outcome(&mut self) -> u8 {
        match self.outs {
            0 => 3,
            1 => 4,
            2 => 2,
            3 => 0,
            4 => *self.r.pick(&[3, 3, 4, 2]),
            _ => gen::outcome(self.r),
        }
    }
    fn matches(&mut self, q: bool) {
        let (a, b) = self.two();
        let o = self.outcome();
        let mut x = gen::xfor(self.sys, self.r);
        if self.prop == 9 && self.sys == FIFA {
            x[1] = 0.0;
            x[2] = 0.0;
        }
        self.push(Kind::Match { a, b, o, x, q });
    }
    fn team(&mut self, max_teams: usize, max_players: usize, two: bool) {
        let n = self.np;
        let nt = if two {
            2
        } else if self.r.chance(0.6) {
            self.r.int(2, 4.min(max_teams))
        } else {
            self.r.int(1, max_teams)
        };
        let mut ids: Vec<u16> = (0..n as u16).collect();
        self.r.shuffle(&mut ids);
        let mut teams: Vec<Vec<u16>> = Vec::new();
        let fixed = if self.r.chance(0.5) { Some(self.r.int(1, max_players)) } else { None };
        for _ in 0..nt {
            let k = fixed.unwrap_or_else(|| if self.r.chance(0.5) { self.r.int(1, 3.min(max_players)) } else { self.r.int(1, max_players) });
            let mut t = Vec::new();
            for _ in 0..k {
                if let Some(i) = ids.pop() {
                    t.push(i);
                }
            }
            if !t.is_empty() {
                teams.push(t);
            }
        }
        if teams.len() < 2 && !(matches!(self.prop, 8 | 10) && self.r.chance(0.3)) {
            return;
        }
        if matches!(self.prop, 8 | 10) && self.r.chance(0.03) {
            // a team that did not show up
            let i = self.r.below(teams.len());
            teams[i].clear();
        }
        let ranks = gen::ranks(teams.len(), self.r);
        let w = if self.sys == TS && !two && self.r.chance(0.35) {
            let style = self.r.below(4);
            Some(
                teams
                    .iter()
                    .map(|t| {
                        let mut w: Vec<f64> = t
                            .iter()
                            .map(|_| match style {
                                0 => 1.0,
                                1 => *self.r.pick(&[1.0, 1.0, 0.5, 0.25, 0.75]),
                                2 => *self.r.pick(&[1.0, 1.0, 0.5, 0.0]),
                                _ => self.r.range(0.05, 1.0),
                            })
                            .collect();
                        if w.iter().all(|x| *x == 0.0) && !w.is_empty() {
                            w[0] = 1.0;
                        }
                        w
                    })
                    .collect(),
            )
        } else {
            None
        };
        self.push(Kind::Team { teams, ranks, w, two });
    }
    /// a free-for-all of nearly everybody
    fn crowd(&mut self) {
        let mut ids: Vec<u16> = (0..self.np as u16).collect();
        self.r.shuffle(&mut ids);
        ids.truncate(self.r.int((self.np / 2).max(2), self.np));
        let ranks = gen::ranks(ids.len(), self.r);
        self.push(Kind::Team { teams: ids.into_iter().map(|i| vec![i]).collect(), ranks, w: None, two: false });
    }
    fn close(&mut self) {
        self.push(Kind::Close);
    }
    fn join(&mut self) {
        let k = self.r.below(self.np) as u16;
        let j = newcomers::arrival(self.sys, self.r, k);
        self.push(j);
    }
}

/// a league whose config says that draws do not happen has none
fn drawless(entries: &mut [Entry]) {
    for e in entries {
        match &mut e.k {
            Kind::Match { o, .. } if *o == 2 => *o = (e.uid & 1) as u8,
            Kind::Team { ranks, .. } => {
                let mut by: Vec<usize> = (0..ranks.len()).collect();
                by.sort_by_key(|i| (ranks[*i], *i));
                if by.windows(2).any(|w| ranks[w[0]] == ranks[w[1]]) {
                    for (k, i) in by.into_iter().enumerate() {
                        ranks[i] = 3 * k as u64;
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn gen_league(prop: u8, seed: u64, idx: u64, tier: &str) -> LeaguePlan {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    let ss = systems(prop);
    let sys = ss[(idx / 8) as usize % ss.len()];
    let thorough = tier == "thorough" && r.chance(0.25);
    let mut cfg = gen::cfg(sys, r);
    if prop == 12 && sys == GLICKO2 && r.chance(0.7) {
        cfg[0] = *r.pick(&[0.05, 0.1, 0.2, 0.3, 0.5, 1.0, 1.5, 2.0]);
        cfg[1] = *r.pick(&[1e-3, 1e-6, 1e-8, 1e-9, 1e-10]);
    }
    let teams_sys = sys == TS || sys == WL;
    let wide = teams_sys && matches!(prop, 8 | 10 | 11 | 12) && r.chance(0.15);
    let crowd = teams_sys && matches!(prop, 8 | 11) && r.chance(if sys == WL { 0.006 } else { 0.002 });
    if sys == TS && cfg[0] == 0.0 && (wide || crowd) {
        // without draws, the errors of the published approximations add up over dozens of teams
        cfg[0] = 0.1;
    }
    let np = match prop {
        _ if crowd => r.int(70, 160),
        8 => {
            if wide {
                if r.chance(0.06) { r.int(60, 150) } else { r.int(10, 60) }
            } else {
                r.int(2, 12)
            }
        }
        _ if wide && r.chance(0.1) => r.int(60, 150),
        _ if wide => r.int(10, 60),
        5 => r.int(2, 12),
        _ => *r.pick(&[2, 2, 3, 4, 5, 6, 8, 12, 20]),
    };
    let style = r.below(3);
    let players: Vec<V> = (0..np)
        .map(|_| {
            let mut v = start(sys, r, style);
            if prop == 9 && sys == INGO {
                v[1] = 30.0;
            }
            if prop == 12 && sys == GLICKO2 && r.chance(0.3) {
                v[1] = *r.pick(&[1.0, 5.0, 30.0, 350.0]);
                v[2] = *r.pick(&[0.0005, 0.005, 0.02, 0.06, 0.2, 0.6]);
            }
            v
        })
        .collect();
    let net = netcfg(prop, sys, r);
    let env = if r.chance(0.6) { EnvCfg::canonical() } else { gen::env(r) };
    let (outs, pairs) = (r.below(9), r.below(7));
    let mut m = Maker { r, sys, prop, np, t: 0, uid: 0, outs, pairs, out: vec![] };
    let mt = if np > 60 { 70 } else if wide { 30 } else { 6 };
    let squad = if wide { 40 } else { 8 };
    match prop {
        5 => {
            for _ in 0..m.r.int(1, if thorough { 10 } else { 4 }) {
                let n = match m.r.below(20) {
                    0 if m.r.chance(0.2) => m.r.int(500, 1500),
                    0 => m.r.int(100, if thorough { 900 } else { 400 }),
                    1..=4 => m.r.int(10, 80),
                    _ => m.r.int(1, 12),
                };
                for _ in 0..n {
                    m.matches(true);
                }
                m.close();
            }
        }
        6 => {
            for _ in 0..m.r.int(1, if thorough { 10 } else { 4 }) {
                let n = match m.r.below(20) {
                    0 if m.r.chance(0.2) => m.r.int(400, 1200),
                    0 => m.r.int(80, if thorough { 600 } else { 250 }),
                    1..=4 => m.r.int(10, 60),
                    _ => m.r.int(1, 14),
                };
                for _ in 0..n {
                    m.matches(true);
                }
                m.close();
            }
        }
        7 => {
            for _ in 0..m.r.logint(if thorough { 400 } else { 60 }) {
                m.matches(false);
            }
        }
        _ if crowd => {
            for _ in 0..m.r.int(1, 2) {
                m.crowd();
            }
        }
        8 => {
            for _ in 0..m.r.logint(if thorough { 60 } else { 14 }) {
                let two = m.r.chance(0.25);
                let mp = if m.r.chance(0.4) { 1 } else if m.r.chance(0.2) { m.r.int(1, squad) } else { m.r.int(1, 8) };
                m.team(mt, mp, two);
            }
        }
        9 => {
            for _ in 0..m.r.logint(if thorough { 1500 } else { 200 }) {
                if teams_sys && m.r.chance(0.5) {
                    let two = m.sys == TS || m.r.chance(0.5);
                    m.team(6, 5, two);
                } else {
                    m.matches(false);
                }
            }
        }
        13 => {
            for _ in 0..m.r.logint(if thorough { 300 } else { 60 }) {
                if m.r.chance(0.2) {
                    let q = m.r.chance(0.5);
                    m.matches(q);
                } else {
                    m.close();
                }
            }
            m.close();
        }
        19 => {
            for _ in 0..m.r.logint(if thorough { 200 } else { 50 }) {
                match m.r.below(10) {
                    0..=5 => m.join(),
                    6 => m.close(),
                    7 if teams_sys => m.team(mt, squad, false),
                    _ => {
                        let q = m.r.chance(0.3);
                        m.matches(q);
                    }
                }
            }
        }
        10 | 11 if m.r.chance(0.025) => {
            // a marathon: hundreds of games of the same few players in one period
            m.pairs = m.r.below(3);
            m.outs = *m.r.pick(&[0, 0, 1, 4, 8]);
            for _ in 0..m.r.int(1, 2) {
                for _ in 0..if m.sys == GLICKO2 { m.r.int(30, 80) } else { m.r.int(130, 450) } {
                    m.matches(true);
                }
                m.close();
            }
        }
        _ => {
            let n = match m.r.below(if prop >= 14 { 60 } else { 12 }) {
                0 if m.r.chance(0.05) => m.r.int(1000, 2500),
                0 => m.r.int(200, if thorough { 3000 } else { 900 }),
                1..=4 => m.r.int(20, 120),
                _ => m.r.int(1, 25),
            };
            let (ct, cq, cc) = (m.r.f() * 0.6, m.r.f() * 0.7, m.r.f() * 0.25);
            for _ in 0..n {
                if m.r.chance(cc) {
                    m.close();
                } else if teams_sys && m.r.chance(ct) {
                    let two = m.r.chance(0.3);
                    let mp = if m.r.chance(0.1) { m.r.int(1, squad) } else { m.r.int(1, 6) };
                    m.team(mt, mp, two);
                } else {
                    let q = m.r.chance(cq);
                    m.matches(q);
                }
                if m.r.chance(0.02) {
                    m.outs = m.r.below(9);
                    m.pairs = m.r.below(7);
                }
            }
            m.close();
        }
    }
    let mut entries = m.out;
    if sys == TS && cfg[0] == 0.0 {
        drawless(&mut entries);
    }
    LeaguePlan { prop, seed, sys, cfg, env, players, entries, net, faults: None }
}

// ------------------------------------------------------------------ calls of the library

fn flipx(sys: usize, x: &[f64; 3]) -> [f64; 3] {
    match sys {
        BOOST | STICKO => [1.0 - x[0], 0., 0.],
        EGF_ => [if x[0] == 0.0 { 0.0 } else { -x[0] }, 0., 0.],
        _ => *x,
    }
}
/// the config under which player one of this match is rated
fn side_cfg(sys: usize, cfg: &[f64], x: &[f64; 3]) -> Vec<f64> {
    let mut c = cfg.to_vec();
    match sys {
        BOOST if x[0] == 0.0 => c[0] = -c[0],
        STICKO if x[0] == 0.0 => c[3] = -c[3],
        FIFA => c = x.to_vec(),
        EGF_ => c = vec![x[0]],
        _ => {}
    }
    c
}
fn mk(sys: usize, f: u8, via: u8, cfg: Vec<f64>) -> Call {
    Call { sys, f, via, cfg, teams: vec![], o: 0, res: vec![], ranks: vec![], weights: None, n: 0 }
}
fn pair_call(sys: usize, cfg: &[f64], a: &V, b: &V, o: u8, x: &[f64; 3], via: u8) -> Call {
    let mut c = mk(sys, F_PAIR, via, side_cfg(sys, cfg, x));
    c.teams = vec![vec![*a], vec![*b]];
    c.o = o;
    c
}
fn period_call(sys: usize, cfg: &[f64], a: &V, res: Vec<Res>) -> Call {
    let mut c = mk(sys, F_PERIOD, 0, cfg.to_vec());
    c.teams = vec![vec![*a]];
    c.res = res;
    c
}
/// one match as a rating period of the trait, from the side of `a`
fn trait_period_call(sys: usize, cfg: &[f64], a: &V, b: &V, o: u8, x: &[f64; 3]) -> Call {
    let mut c = mk(sys, F_PERIOD, 1, side_cfg(sys, cfg, x));
    c.teams = vec![vec![*a]];
    c.res = vec![Res { v: *b, o, x: *x }];
    c
}

pub struct Run {
    prop: u8,
    sys: usize,
    cfg: Vec<f64>,
    pub st: Stats,
    pub viol: Option<Viol>,
}

pub fn parse(sys: usize, bits: &[u64]) -> Vec<Vec<V>> {
    let w = WIDTH[sys];
    let mut o = Vec::new();
    let mut i = 0;
    while i < bits.len() {
        let n = (bits[i] & 0xFFFF_FFFF) as usize;
        i += 1;
        let mut t = Vec::with_capacity(n);
        for _ in 0..n {
            let mut v = [0.0; 3];
            for k in v.iter_mut().take(w) {
                *k = f64::from_bits(bits[i]);
                i += 1;
            }
            t.push(v);
        }
        o.push(t);
    }
    o
}

impl Run {
    fn fail(&mut self, class: &str, detail: String) {
        if self.viol.is_none() {
            self.viol = Some(Viol { class: class.into(), detail });
        }
    }
    /// make a rating call and hold it against the property's own oracle
    fn rate(&mut self, c: &Call) -> Option<Vec<Vec<V>>> {
        let e0 = env::edges();
        let o = exec(c, &Slots(vec![]));
        let e = env::edges() - e0;
        self.st.add("library calls", 1);
        for b in &o.bits {
            self.st.fold(*b);
        }
        if o.st == 2 {
            if self.prop == 10 {
                self.fail("a rating call panicked", show(c));
            }
            return None;
        }
        if o.st == 1 {
            if self.prop == 10 {
                self.fail("a rating call was refused", show(c));
            }
            return None;
        }
        // period calls return [[v]], pair calls [[a, b]]
        let mut t = parse(c.sys, &o.bits);
        if c.f == F_PAIR && t.len() == 1 {
            let b = t[0].pop()?;
            t.push(vec![b]);
        }
        if c.sys == TS && matches!(self.prop, 10 | 11 | 20) && c.f != F_DECAY {
            // the published formulas need a two-sided tail beyond any realistic outcome
            use std::sync::atomic::Ordering::Relaxed;
            model::SURPRISE.store(0, Relaxed);
            let _ = model_answers(c);
            let s = f64::from_bits(model::SURPRISE.load(Relaxed));
            if !(s <= match self.prop { 10 => 20.0, 20 => 5.0, _ => 12.0 }) {
                self.st.add("calls left out: outcome astronomically unlikely under the model", 1);
                return None;
            }
            self.st.max("surprise of an outcome, in percent of a standard deviation", (s * 100.0) as u64);
        }
        if c.sys == EGF_ && matches!(self.prop, 10 | 11) {
            let a = c.teams[0][0][0];
            let side = |h: f64, b: f64| gen::egf_ok(h, a - 100.0, b - 100.0);
            let fits = match c.f {
                F_PAIR => side(c.cfg[0], c.teams[1][0][0]),
                F_PERIOD if c.via == 0 => c.res.iter().all(|x| side(x.x[0], x.v[0])),
                F_PERIOD => c.res.iter().all(|x| side(c.cfg[0], x.v[0])),
                _ => true,
            };
            if !fits {
                self.st.add("calls left out: handicap beyond the range of the EGF formula", 1);
                return None;
            }
        }
        match self.prop {
            9 => self.conserved(c, &t),
            10 => self.sane(c, &t),
            11 => self.refines(c, &t),
            12 => self.bounded(c, e),
            20 => self.parallel(c),
            _ => {}
        }
        Some(t)
    }
    fn forecast(&mut self, c: &Call) -> Option<Vec<f64>> {
        let o = exec(c, &Slots(vec![]));
        self.st.add("library calls", 1);
        for b in &o.bits {
            self.st.fold(*b);
        }
        if o.st != 0 {
            return None;
        }
        Some(o.bits.iter().map(|b| f64::from_bits(*b)).collect())
    }
}

// ------------------------------------------------------------------ tolerances

/// how far two computations of the same rating may lie apart
fn tol(sys: usize, cfg: &[f64], field: usize, x: f64) -> f64 {
    let base = 1e-9 * (1.0 + x.abs());
    match (sys, field) {
        (USCF_, 1) | (DWZ_, 1 | 2) | (INGO, 1) => 0.0,
        (GLICKO2, 2) => base + 2.0 * cfg[1] * x.abs(),
        (GLICKO2, _) => base + 400.0 * cfg[1],
        _ => base,
    }
}
fn same(sys: usize, cfg: &[f64], a: &V, b: &V) -> bool {
    (0..WIDTH[sys]).all(|f| {
        let (x, y) = (a[f], b[f]);
        x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= tol(sys, cfg, f, x)
    })
}

/// every answer the published algorithms allow for a call (none if they do not cover it)
fn model_answers(c: &Call) -> Vec<Vec<Vec<V>>> {
    let sys = c.sys;
    let mut want: Vec<Vec<Vec<V>>> = Vec::new();
    let res = |v: &V, o: u8, flipped: bool| -> Res {
        let mut x = [0.0; 3];
        match sys {
            // an explicit side config already carries the advantage of player one
            BOOST | STICKO => x[0] = if flipped { 0.0 } else { 1.0 },
            FIFA => x.copy_from_slice(&c.cfg[..3]),
            EGF_ => x[0] = if flipped { -c.cfg[0] } else { c.cfg[0] },
            _ => {}
        }
        Res { v: *v, o, x }
    };
    match c.f {
        F_PAIR => {
            let (a, b) = (&c.teams[0][0], &c.teams[1][0]);
            want.push(vec![
                vec![model::period(sys, &c.cfg, a, &[res(b, c.o, false)])],
                vec![model::period(sys, &c.cfg, b, &[res(a, flip(c.o), true)])],
            ]);
        }
        F_PERIOD => {
            let rs: Vec<Res> = if c.via == 0 { c.res.clone() } else { c.res.iter().map(|x| res(&x.v, x.o, false)).collect() };
            want.push(vec![vec![model::period(sys, &c.cfg, &c.teams[0][0], &rs)]]);
            if sys == GLICKO2 && rs.len() > 4 {
                for root in 1..=3 {
                    model::ROOT.store(root, std::sync::atomic::Ordering::Relaxed);
                    let p = model::period(sys, &c.cfg, &c.teams[0][0], &rs);
                    if !p[2].is_nan() {
                        want.push(vec![vec![p]]);
                    }
                }
                model::ROOT.store(0, std::sync::atomic::Ordering::Relaxed);
            }
        }
        F_TWO => {
            if sys == TS {
                let (x, y) = model::ts_sides(&c.cfg, &c.teams[0], &c.teams[1], c.o);
                want.push(vec![x, y]);
            } else {
                want.push(model::wl_multi(&c.cfg, &c.teams, &[[0, 1], [1, 0], [0, 0]][c.o as usize]));
            }
        }
        F_MULTI => {
            if sys == TS {
                want = model::ts_multi(&c.cfg, &c.teams, &c.ranks, c.weights.as_deref());
            } else {
                want.push(model::wl_multi(&c.cfg, &c.teams, &c.ranks));
            }
        }
        F_DECAY => want.push(vec![vec![model::decay(sys, &c.cfg, &c.teams[0][0])]]),
        _ => {}
    }
    want
}

// ------------------------------------------------------------------ op-level oracles

impl Run {
    fn conserved(&mut self, c: &Call, t: &[Vec<V>]) {
        let w = |v: f64| 1e-9 * (1.0 + v.abs());
        match c.sys {
            ELO | FIFA | INGO => {
                if c.f != F_PAIR {
                    return;
                }
                let (a, b) = (c.teams[0][0][0], c.teams[1][0][0]);
                let s = (t[0][0][0] - a) + (t[1][0][0] - b);
                if !(s.abs() <= w(a.abs() + b.abs())) {
                    self.fail("rating points created or destroyed", format!("{} -> {:?}: the two changes add up to {s}", show(c), t));
                }
            }
            _ => {
                if !matches!(c.f, F_PAIR | F_TWO | F_MULTI) || (c.sys == TS && c.f == F_MULTI) || c.teams.iter().any(|t| t.is_empty()) {
                    return;
                }
                let tau2 = if c.sys == TS { c.cfg[2] * c.cfg[2] } else { 0.0 };
                let mut total = 0.0;
                let mut err = 0.0;
                for (old, new) in c.teams.iter().zip(t) {
                    let mut sum = 0.0;
                    for (o, n) in old.iter().zip(new) {
                        let var = o[1] * o[1] + tau2;
                        sum += (n[0] - o[0]) / var;
                        err += w(o[0]) / var;
                    }
                    total += sum / old.len() as f64;
                }
                if !(total.abs() <= 4.0 * err) {
                    self.fail("weighted changes of the sides do not cancel", format!("{} -> {:?}: weighted changes add up to {total}", show(c), t));
                }
            }
        }
    }

    fn sane(&mut self, c: &Call, t: &[Vec<V>]) {
        let sys = c.sys;
        let bad = |v: &V| -> Option<&'static str> {
            if v[..WIDTH[sys]].iter().any(|x| !x.is_finite()) {
                return Some("NaN or infinite value");
            }
            match sys {
                GLICKO | BOOST | STICKO if v[1] > 350.0 => Some("deviation above 350"),
                GLICKO | BOOST | STICKO | GLICKO2 | TS | WL if v[1] <= 0.0 => Some("deviation or uncertainty not positive"),
                GLICKO2 if v[2] <= 0.0 => Some("volatility not positive"),
                USCF_ if v[0] < 100.0 => Some("USCF rating below 100"),
                EGF_ if v[0] < -900.0 => Some("EGF rating below -900"),
                _ => None,
            }
        };
        if t.len() != c.teams.len() || t.iter().zip(&c.teams).any(|(a, b)| a.len() != b.len()) {
            return self.fail("players lost or added", format!("{} -> {:?}", show(c), t));
        }
        for v in t.iter().flatten() {
            if let Some(m) = bad(v) {
                return self.fail(m, format!("{} -> {:?}", show(c), t));
            }
        }
        // counters and ages
        for (old, new) in c.teams.iter().flatten().zip(t.iter().flatten()) {
            let m = match sys {
                USCF_ => {
                    let n = if c.f == F_PERIOD { c.res.len() as f64 } else { 1.0 };
                    new[1] != old[1] + n
                }
                DWZ_ => new[2] != old[2] || (!(c.f == F_PERIOD && c.res.is_empty()) && new[1] != old[1] + 1.0),
                INGO => new[1] != old[1],
                _ => false,
            };
            if m {
                return self.fail("counter or age wrong", format!("{} -> {:?}", show(c), t));
            }
        }
        // winners and losers
        if !matches!(sys, ELO | GLICKO | GLICKO2 | BOOST | FIFA | DWZ_ | TS | WL) || (sys == FIFA && c.f == F_PAIR && c.cfg[2] != 0.0) {
            return;
        }
        let slack = |x: f64| 1e-9 * (1.0 + x.abs());
        let mut check = |run: &mut Run, old: &V, new: &V, won: bool| {
            if won && new[0] < old[0] - slack(old[0]) {
                run.fail("a winner dropped", format!("{} -> {:?}", show(c), t));
            }
            if !won && new[0] > old[0] + slack(old[0]) {
                run.fail("a loser rose", format!("{} -> {:?}", show(c), t));
            }
        };
        match c.f {
            F_PAIR | F_TWO if c.o < 2 => {
                for (i, (old, new)) in c.teams.iter().zip(t).enumerate() {
                    for (o, n) in old.iter().zip(new) {
                        check(self, o, n, (i == 0) == (c.o == 0));
                    }
                }
            }
            F_PERIOD if !c.res.is_empty() && c.res.iter().all(|x| x.o == c.res[0].o && (sys != FIFA || x.x[2] == 0.0)) && c.res[0].o < 2 => {
                check(self, &c.teams[0][0], &t[0][0], c.res[0].o == 0);
            }
            F_MULTI if c.teams.len() > 1 && c.teams.iter().all(|t| !t.is_empty()) => {
                let lo = *c.ranks.iter().min().unwrap();
                let hi = *c.ranks.iter().max().unwrap();
                for (rank, won) in [(lo, true), (hi, false)] {
                    if c.ranks.iter().filter(|x| **x == rank).count() == 1 {
                        let i = c.ranks.iter().position(|x| *x == rank).unwrap();
                        for (o, n) in c.teams[i].iter().zip(&t[i]) {
                            check(self, o, n, won);
                        }
                    }
                }
            }
            _ => {}
        }
    }

    fn refines(&mut self, c: &Call, t: &[Vec<V>]) {
        let sys = c.sys;
        let mut want = model_answers(c);
        if want.is_empty() {
            return;
        }
        // numerical sensitivity of TrueSkill's published formulas, per player and field
        let mut sens: Vec<f64> = Vec::new();
        if sys == TS && c.f != F_DECAY {
            use std::sync::atomic::Ordering::Relaxed;
            model::COARSE.store(true, Relaxed);
            let rough = model_answers(c);
            model::COARSE.store(false, Relaxed);
            let (x, y) = (want.last().unwrap(), rough.last().unwrap());
            for (a, b) in x.iter().flatten().zip(y.iter().flatten()) {
                for f in 0..2 {
                    sens.push((a[f] - b[f]).abs());
                }
            }
            if sens.iter().any(|s| !(*s < 1e-2)) {
                self.st.add("calls left out: outcome too unlikely for the published formulas", 1);
                return;
            }
            want.extend(rough);
        }
        // how far the best answer is off, in units of the tolerance
        let mut best = f64::INFINITY;
        for w in &want {
            let mut worst: f64 = 0.0;
            if w.len() != t.len() || w.iter().zip(t).any(|(a, b)| a.len() != b.len()) {
                continue;
            }
            for (i, (a, b)) in w.iter().flatten().zip(t.iter().flatten()).enumerate() {
                for f in 0..WIDTH[sys] {
                    if sys == DWZ_ && f == 1 && c.f == F_PERIOD && c.res.is_empty() {
                        continue;
                    }
                    let e = (a[f] - b[f]).abs();
                    let tl = match (sys, f) {
                        (USCF_, 1) | (DWZ_, 1 | 2) | (INGO, 1) => 1e-12,
                        (GLICKO2, 2) => 1e-7 + 2.0 * c.cfg[1] * a[f].abs(),
                        (GLICKO2, _) => 1e-6 + 1e-9 * a[f].abs() + 400.0 * c.cfg[1],
                        (TS, _) => 1e-6 * (1.0 + a[f].abs()) * (1.0 + c.teams.len() as f64 / 4.0) + 3.0 * sens[i * 2 + f],
                        _ => 1e-7 * (1.0 + a[f].abs()),
                    };
                    worst = worst.max(if e.is_nan() { f64::INFINITY } else { e / tl });
                }
            }
            best = best.min(worst);
        }
        self.st.max(&format!("difference from the model in percent of the tolerance, {} {}", NAMES[sys], c.f), (best * 100.0).min(1e15) as u64);
        if best > 1.0 && std::env::var_os("SIM_CAL").is_none() {
            self.fail(
                "rating differs from the published algorithm",
                format!("{}\n library: {:?}\n model:   {:?}", show(c), t, want[0]),
            );
        }
    }

    fn bounded(&mut self, c: &Call, e: u64) {
        let size = match c.f {
            F_PERIOD => 1 + c.res.len(),
            F_TWO => c.teams.iter().map(|t| t.len()).sum::<usize>() + 1,
            F_MULTI => {
                let p: usize = c.teams.iter().map(|t| t.len() + 1).sum();
                let sq: usize = c.teams.iter().map(|t| t.len() * t.len()).sum();
                if c.sys == WL {
                    p * c.teams.len() + 1
                } else {
                    sq + 10 * p
                }
            }
            _ => 1,
        } as u64;
        let per = e / size;
        self.st.max(&format!("blocks per unit {} {}", NAMES[c.sys], FNAMES[c.f as usize]), per);
        // about five times what the hardest known states need, and an order of magnitude for closed forms
        let k: u64 = match (c.sys, c.f) {
            (GLICKO2, F_PAIR) => 3000,
            (GLICKO2, _) => 1500,
            (TS, F_MULTI) => 8000,
            (TS, _) => 2000,
            _ => 1000,
        };
        if per > k {
            self.fail("a call took more work than its arguments justify", format!("{}: {e} basic blocks for size {size}", show(c)));
        }
    }
}

// ------------------------------------------------------------------ the sequencer's own execution

enum Fix {
    /// not rated: somebody left the range the algorithm is defined on; these players are replaced
    Replace(Vec<u16>),
    Match { a: u16, b: u16, o: u8, x: [f64; 3], q: bool },
    Team,
    Close,
    Join(V),
}

fn ordinary(sys: usize, v: &V) -> bool {
    v[..WIDTH[sys]].iter().all(|x| x.is_finite())
        && match sys {
            TS | WL => v[0].abs() <= 120.0 && v[1] < 60.0,
            INGO => v[0] > -150.0 && v[0] < 500.0,
            EGF_ => v[0] < 2990.0,
            GLICKO2 => v[0].abs() < 6000.0 && v[2] < 1.0,
            _ => v[0].abs() < 6000.0,
        }
}
fn match_ok(sys: usize, x: &[f64; 3], a: &V, b: &V) -> bool {
    sys != EGF_ || (egf_fit(x[0], a[0], b[0]) && egf_fit(x[0], b[0], a[0]))
}
fn egf_fit(h: f64, a: f64, b: f64) -> bool {
    gen::egf_ok(h, a, b)
}

type Queue = Vec<Vec<(u32, u16, u8, [f64; 3])>>;

struct Canon {
    fix: Vec<Option<Fix>>,
    /// ratings of everybody involved after an entry
    post: Vec<Vec<(u16, V)>>,
    /// ratings of everybody at the start of each epoch's close
    pre_close: Vec<Vec<V>>,
    fresh: Vec<V>,
    end: Vec<V>,
}

fn strength(sys: usize, v: &V) -> f64 {
    if sys == INGO {
        -v[0]
    } else {
        v[0]
    }
}

fn team_call(sys: usize, cfg: &[f64], teams: Vec<Vec<V>>, ranks: &[u64], w: &Option<Vec<Vec<f64>>>, two: bool, via: u8) -> Call {
    if two && teams.len() == 2 {
        let mut c = mk(sys, F_TWO, via, cfg.to_vec());
        c.teams = teams;
        c.o = match ranks[0].cmp(&ranks[1]) {
            std::cmp::Ordering::Less => 0,
            std::cmp::Ordering::Greater => 1,
            _ => 2,
        };
        c
    } else {
        let mut c = mk(sys, F_MULTI, if w.is_some() { 0 } else { via }, cfg.to_vec());
        c.teams = teams;
        c.ranks = ranks.to_vec();
        c.weights = w.clone();
        c
    }
}

fn canon(run: &mut Run, p: &LeaguePlan, log: &[usize]) -> Canon {
    let sys = p.sys;
    let mut st = p.players.clone();
    let n = p.entries.len();
    let mut out = Canon {
        fix: (0..n).map(|_| None).collect(),
        post: vec![vec![]; n],
        pre_close: vec![],
        fresh: st.iter().map(|v| new_default(sys, if sys == DWZ_ { v[2] as usize } else if sys == INGO || sys == USCF_ { v[1] as usize } else { 30 })).collect(),
        end: vec![],
    };
    let mut queue: Queue = vec![vec![]; st.len()];
    for &i in log {
        let e = &p.entries[i];
        match &e.k {
            Kind::Match { a, b, o, x, q } => {
                let (va, vb) = (st[*a as usize], st[*b as usize]);
                let gone: Vec<u16> = [*a, *b].into_iter().filter(|k| !ordinary(sys, &st[*k as usize])).collect();
                if !gone.is_empty() && !q {
                    for k in &gone {
                        st[*k as usize] = out.fresh[*k as usize];
                    }
                    out.fix[i] = Some(Fix::Replace(gone));
                    run.st.add("players replaced", 1);
                    continue;
                }
                if !gone.is_empty() {
                    out.fix[i] = Some(Fix::Replace(vec![]));
                    continue;
                }
                let mut x = *x;
                if !match_ok(sys, &x, &va, &vb) {
                    x[0] = 0.0;
                }
                let fav_a = strength(sys, &va) >= strength(sys, &vb);
                let o = match o {
                    3 => !fav_a as u8,
                    4 => fav_a as u8,
                    o => *o,
                };
                out.fix[i] = Some(Fix::Match { a: *a, b: *b, o, x, q: *q });
                if *q {
                    queue[*a as usize].push((e.uid, *b, o, x));
                    queue[*b as usize].push((e.uid, *a, flip(o), flipx(sys, &x)));
                } else {
                    if let Some(t) = run.rate(&pair_call(sys, &p.cfg, &va, &vb, o, &x, 0)) {
                        st[*a as usize] = t[0][0];
                        st[*b as usize] = t[1][0];
                    }
                    out.post[i] = vec![(*a, st[*a as usize]), (*b, st[*b as usize])];
                }
            }
            Kind::Team { teams, ranks, w, two } => {
                let gone: Vec<u16> = teams.iter().flatten().copied().filter(|k| !ordinary(sys, &st[*k as usize])).collect();
                if !gone.is_empty() {
                    for k in &gone {
                        st[*k as usize] = out.fresh[*k as usize];
                    }
                    out.fix[i] = Some(Fix::Replace(gone));
                    run.st.add("players replaced", 1);
                    continue;
                }
                out.fix[i] = Some(Fix::Team);
                let tv: Vec<Vec<V>> = teams.iter().map(|t| t.iter().map(|k| st[*k as usize]).collect()).collect();
                if let Some(t) = run.rate(&team_call(sys, &p.cfg, tv, ranks, w, *two, 0)) {
                    for (ids, vs) in teams.iter().zip(&t) {
                        for (k, v) in ids.iter().zip(vs) {
                            st[*k as usize] = *v;
                        }
                    }
                }
                out.post[i] = teams.iter().flatten().map(|k| (*k, st[*k as usize])).collect();
            }
            Kind::Join { k, age, give, v, n } => {
                // nobody leaves with results outstanding
                if queue[*k as usize].is_empty() {
                    let v = newcomers::documented(sys, *age as usize, *give, v, *n as usize);
                    st[*k as usize] = v;
                    out.fix[i] = Some(Fix::Join(v));
                    out.post[i] = vec![(*k, v)];
                }
            }
            Kind::Close => {
                out.fix[i] = Some(Fix::Close);
                let pre = st.clone();
                for k in 0..pre.len() {
                    let rs = results(&queue[k], &pre);
                    let v = if !rs.is_empty() {
                        if ordinary(sys, &pre[k]) {
                            run.rate(&period_call(sys, &p.cfg, &pre[k], rs)).map(|t| t[0][0])
                        } else {
                            Some(pre[k])
                        }
                    } else {
                        missed(run, p, &pre[k], 0)
                    };
                    if let Some(v) = v {
                        st[k] = v;
                    }
                }
                out.pre_close.push(pre);
                out.post[i] = st.iter().enumerate().map(|(k, v)| (k as u16, *v)).collect();
                for q in &mut queue {
                    q.clear();
                }
            }
        }
        if run.viol.is_some() {
            break;
        }
    }
    out.end = st;
    out
}
fn results(q: &[(u32, u16, u8, [f64; 3])], pre: &[V]) -> Vec<Res> {
    q.iter().map(|(_, opp, o, x)| Res { v: pre[*opp as usize], o: *o, x: *x }).collect()
}

/// a period without games, by one of the ways the library offers
fn missed(run: &mut Run, p: &LeaguePlan, v: &V, way: u8) -> Option<V> {
    let sys = p.sys;
    let explicit = matches!(sys, GLICKO | GLICKO2 | BOOST | STICKO);
    let c = match way {
        0 if explicit => {
            let mut c = mk(sys, F_DECAY, 0, p.cfg.clone());
            c.teams = vec![vec![*v]];
            c
        }
        2 => {
            let mut c = mk(sys, F_PERIOD, 1, p.cfg.clone());
            c.teams = vec![vec![*v]];
            c
        }
        _ => period_call(sys, &p.cfg, v, vec![]),
    };
    run.rate(&c).map(|t| t[0][0])
}

// ------------------------------------------------------------------ replicas

#[derive(Clone)]
struct Node {
    st: Vec<V>,
    queue: Queue,
    /// C06: ratings inside the period, results not yet rated
    cur: Vec<V>,
    /// C13: missed periods not yet applied
    owed: Vec<u32>,
}

fn diff(run: &mut Run, p: &LeaguePlan, who: &str, uid: u32, k: u16, want: &V, got: Option<V>, ctx: &str) {
    match got {
        None => run.fail("a node's rating call panicked", format!("{who}, event {uid}, player {k}: {ctx}")),
        Some(g) => {
            if !same(p.sys, &p.cfg, want, &g) {
                let w = WIDTH[p.sys];
                run.fail(
                    "nodes disagree on a rating",
                    format!("{} cfg {:?}, {who}, event {uid}, player {k}: {ctx}\n sequencer: {:?}\n node:      {:?}", NAMES[p.sys], p.cfg, &want[..w], &g[..w]),
                );
            }
        }
    }
}

fn replica(run: &mut Run, p: &LeaguePlan, c: &Canon, n: u8, steps: &[Step]) {
    let sys = p.sys;
    let np = p.players.len();
    let blank = Node { st: p.players.clone(), queue: vec![vec![]; np], cur: p.players.clone(), owed: vec![0; np] };
    let mut nd = blank.clone();
    let mut saved = blank;
    let mut epoch = 0usize;
    let mut saved_epoch = 0usize;
    let who = format!("node {n}");
    let mut arrivals = 0u32;
    if p.prop == 19 {
        newcomers::settings(run, p, n, 0);
    }
    for s in steps {
        if run.viol.is_some() {
            return;
        }
        match s {
            Step::Crash => {
                nd = saved.clone();
                epoch = saved_epoch;
                arrivals += 1;
                if p.prop == 19 {
                    newcomers::settings(run, p, n, arrivals);
                }
            }
            Step::Save => {
                saved = nd.clone();
                saved_epoch = epoch;
            }
            Step::Flush => {
                if p.prop == 6 {
                    flush(run, p, c, &mut nd, epoch, n);
                }
            }
            Step::Apply(i) => {
                let e = &p.entries[*i];
                match (&c.fix[*i], &e.k) {
                    (Some(Fix::Replace(ks)), _) => {
                        for k in ks {
                            nd.st[*k as usize] = c.fresh[*k as usize];
                            nd.owed[*k as usize] = 0;
                        }
                    }
                    (Some(Fix::Match { a, b, o, x, q }), _) => {
                        if *q {
                            nd.queue[*a as usize].push((e.uid, *b, *o, *x));
                            nd.queue[*b as usize].push((e.uid, *a, flip(*o), flipx(sys, x)));
                            if p.prop == 6 && n == 0 {
                                // the streaming node rates everything as it comes
                                flush(run, p, c, &mut nd, epoch, n);
                            }
                        } else {
                            for k in [*a, *b] {
                                pay(run, p, c, &mut nd, k, n, e.uid);
                            }
                            if run.viol.is_some() {
                                return;
                            }
                            one_match(run, p, &nd, n, e.uid, &c.post[*i], (*a, *b, *o, x));
                        }
                    }
                    (Some(Fix::Team), Kind::Team { teams, ranks, w, two }) => {
                        for k in teams.iter().flatten() {
                            pay(run, p, c, &mut nd, *k, n, e.uid);
                        }
                        team_match(run, p, &nd, n, e.uid, &c.post[*i], teams, ranks, w, *two);
                    }
                    (Some(Fix::Join(want)), Kind::Join { k, age, give, v, n: edge }) => {
                        arrivals += 1;
                        newcomers::arrive(run, p, (n, e.uid, arrivals), want, *age as usize, *give, v, *edge as usize);
                        nd.owed[*k as usize] = 0;
                    }
                    (Some(Fix::Close), _) => {
                        close(run, p, c, &mut nd, epoch, n, e.uid, &c.post[*i]);
                        epoch += 1;
                        for q in &mut nd.queue {
                            q.clear();
                        }
                    }
                    _ => {}
                }
                // continue from the common state: differences below the tolerance do not add up
                for (k, v) in &c.post[*i] {
                    if nd.owed[*k as usize] == 0 {
                        nd.st[*k as usize] = *v;
                    }
                }
                if p.prop == 19 {
                    for (k, v) in &c.post[*i] {
                        newcomers::read(run, p, *k, v);
                    }
                }
                if (p.prop >= 14 || p.prop == 11) && c.fix[*i].is_some() {
                    views::after(run, p, &nd, &saved.st, n, e);
                }
                if matches!(c.fix[*i], Some(Fix::Close)) {
                    nd.cur = nd.st.clone();
                }
            }
        }
    }
    if p.prop == 13 {
        for k in 0..np as u16 {
            pay(run, p, c, &mut nd, k, n, 0);
            if nd.owed[k as usize] == 0 && run.viol.is_none() && n == 2 {
                let v = nd.st[k as usize];
                diff(run, p, &who, 0, k, &c.end[k as usize], Some(v), "missed periods noticed at the end");
            }
        }
    }
}

/// C06: rate what has arrived since the last batch
fn flush(run: &mut Run, p: &LeaguePlan, c: &Canon, nd: &mut Node, epoch: usize, n: u8) {
    let sys = p.sys;
    let Some(pre) = c.pre_close.get(epoch) else { return };
    for k in 0..nd.queue.len() {
        if nd.queue[k].is_empty() {
            continue;
        }
        let rs = results(&nd.queue[k], pre);
        nd.queue[k].clear();
        run.st.add("batches", 1);
        let v = nd.cur[k];
        let out = if n == 1 {
            // one match at a time, as a match
            let mut v = v;
            let mut ok = true;
            for x in &rs {
                match run.rate(&pair_call(sys, &p.cfg, &v, &x.v, x.o, &x.x, 0)) {
                    Some(t) => v = t[0][0],
                    None => ok = false,
                }
            }
            if ok {
                Some(v)
            } else {
                None
            }
        } else {
            run.rate(&period_call(sys, &p.cfg, &v, rs)).map(|t| t[0][0])
        };
        match out {
            Some(v) => nd.cur[k] = v,
            None => run.fail("a node's rating call panicked", format!("node {n}, player {k}")),
        }
    }
}

fn pay(run: &mut Run, p: &LeaguePlan, _c: &Canon, nd: &mut Node, k: u16, n: u8, uid: u32) {
    let ku = k as usize;
    if nd.owed[ku] == 0 {
        return;
    }
    let d0 = nd.st[ku];
    let owed = nd.owed[ku];
    run.st.add("fault:period end noticed late", owed as u64);
    for j in 0..owed {
        match missed(run, p, &nd.st[ku], if j % 2 == 0 { 0 } else { 1 }) {
            Some(v) => nd.st[ku] = v,
            None => return run.fail("a node's rating call panicked", format!("node {n}, event {uid}, player {k}")),
        }
    }
    nd.owed[ku] = 0;
    // closed form for any number of missed periods
    let step = match p.sys {
        GLICKO => p.cfg[0],
        STICKO => p.cfg[4],
        GLICKO2 => 173.7178 * d0[2],
        _ => return,
    };
    let want = (d0[1] * d0[1] + owed as f64 * step * step).sqrt().min(350.0);
    let got = nd.st[ku][1];
    if !((got - want).abs() <= 1e-7 * (1.0 + want)) {
        run.fail(
            "missed periods widen the deviation by another amount than documented",
            format!("{} cfg {:?}: {owed} missed periods from {:?} give deviation {got}, documented {want}", NAMES[p.sys], p.cfg, &d0[..WIDTH[p.sys]]),
        );
    }
}

#[allow(clippy::too_many_arguments)]
fn close(run: &mut Run, p: &LeaguePlan, c: &Canon, nd: &mut Node, epoch: usize, n: u8, uid: u32, post: &[(u16, V)]) {
    let sys = p.sys;
    let Some(pre) = c.pre_close.get(epoch) else { return };
    let who = format!("node {n}");
    match p.prop {
        5 => {
            for (k, want) in post {
                let ku = *k as usize;
                let q = &nd.queue[ku];
                if q.is_empty() || !ordinary(sys, &pre[ku]) {
                    continue;
                }
                let rs = results(q, pre);
                run.st.max("results in one period", rs.len() as u64);
                let got = run.rate(&period_call(sys, &p.cfg, &pre[ku], rs.clone())).map(|t| t[0][0]);
                diff(run, p, &who, uid, *k, want, got, &format!("{} results of the period in arrival order {:?}", rs.len(), short(q)));
                // predictions for the same opponents, in the same order
                let mut f = mk(sys, F_EXPP, 0, p.cfg.clone());
                f.teams = vec![vec![pre[ku]]];
                f.res = rs.clone();
                let many = run.forecast(&f);
                let k1 = (uid as usize + ku) % rs.len();
                f.res = vec![rs[k1]];
                let one = run.forecast(&f);
                let ok = match (&many, &one) {
                    (Some(m), Some(o)) => m.len() == rs.len() && o.len() == 1 && ((m[k1] - o[0]).abs() <= 1e-9 || (m[k1].is_nan() && o[0].is_nan())),
                    _ => many.is_none() == one.is_none(),
                };
                if !ok {
                    run.fail("a prediction depends on the other opponents asked about", format!("{} cfg {:?}: {:?} against {:?}: alone {:?}, in a list {:?}", NAMES[sys], p.cfg, pre[ku], rs[k1], one, many));
                }
                if sys == DWZ_ {
                    let age = pre[ku][2] as usize;
                    let canon_order = {
                        let mut s = q.clone();
                        s.sort_by_key(|x| x.0);
                        results(&s, pre)
                    };
                    let f = |run: &mut Run, rs: Vec<Res>| {
                        let mut c = mk(DWZ_, F_FIRST, 0, vec![]);
                        c.teams = vec![vec![pre[ku]]];
                        c.res = rs;
                        c.n = age;
                        let o = exec(&c, &Slots(vec![]));
                        run.st.add("library calls", 1);
                        o
                    };
                    let (x, y) = (f(run, rs), f(run, canon_order));
                    let eq = x.st == y.st && (x.st != 0 || same(DWZ_, &[], &parse(DWZ_, &x.bits)[0][0], &parse(DWZ_, &y.bits)[0][0]));
                    if !eq {
                        run.fail("a first DWZ depends on the order of the games", format!("player {k}: {x:?} and {y:?}"));
                    }
                }
            }
        }
        6 => {
            flush(run, p, c, nd, epoch, n);
            for (k, want) in post {
                let got = nd.cur[*k as usize];
                diff(run, p, &who, uid, *k, want, Some(got), ["rated one result at a time", "rated match by match", "rated in batches"][n as usize % 3]);
            }
        }
        13 => {
            for (k, want) in post {
                let ku = *k as usize;
                if !nd.queue[ku].is_empty() {
                    if nd.owed[ku] > 0 {
                        pay(run, p, c, nd, *k, n, uid);
                    }
                    continue;
                }
                if n == 2 {
                    nd.owed[ku] += 1;
                    continue;
                }
                let old = pre[ku];
                let got = missed(run, p, &old, 1 + n);
                let ctx = format!("a period without games from {:?}", &old[..WIDTH[sys]]);
                match got {
                    Some(mut g) => {
                        if sys == DWZ_ {
                            g[1] = want[1];
                        }
                        diff(run, p, &who, uid, *k, want, Some(g), &ctx);
                        missed_rule(run, p, &old, &g);
                    }
                    None => diff(run, p, &who, uid, *k, want, None, &ctx),
                }
                missed_rule(run, p, &old, want);
            }
        }
        _ => {}
    }
}
fn short(q: &[(u32, u16, u8, [f64; 3])]) -> Vec<u32> {
    q.iter().take(40).map(|x| x.0).collect()
}

/// one missed period, as documented
fn missed_rule(run: &mut Run, p: &LeaguePlan, old: &V, new: &V) {
    let sys = p.sys;
    let same_rating = (new[0] - old[0]).abs() <= 1e-9 * (1.0 + old[0].abs());
    if !same_rating {
        run.fail("a missed period changed the rating", format!("{} cfg {:?}: {:?} became {:?}", NAMES[sys], p.cfg, old, new));
        return;
    }
    let w = model::decay(sys, &p.cfg, old);
    let tl = |x: f64| 1e-7 * (1.0 + x.abs());
    let ok = match sys {
        GLICKO | STICKO | BOOST | GLICKO2 => (new[1] - w[1]).abs() <= tl(w[1]) && new[1] >= old[1].min(350.0) - tl(0.0) && new[1] <= 350.0 + 1e-9,
        TS | WL => new[1] == old[1],
        USCF_ => new[1] == old[1],
        DWZ_ => new[2] == old[2],
        INGO => new[1] == old[1],
        _ => true,
    } && (sys != GLICKO2 || new[2] == old[2]);
    if !ok {
        run.fail("a missed period has another effect than documented", format!("{} cfg {:?}: {:?} became {:?}, documented {:?}", NAMES[sys], p.cfg, old, new, w));
    }
}

#[allow(clippy::too_many_arguments)]
fn one_match(run: &mut Run, p: &LeaguePlan, nd: &Node, n: u8, uid: u32, post: &[(u16, V)], m: (u16, u16, u8, &[f64; 3])) {
    let sys = p.sys;
    let (a, b, o, x) = m;
    let (va, vb) = (nd.st[a as usize], nd.st[b as usize]);
    if !matches!(p.prop, 7 | 9 | 10 | 11 | 12 | 20) {
        return;
    }
    let fx = flipx(sys, x);
    let route = if p.prop == 7 { n % 3 } else { (mix(uid as u64) as u8).wrapping_add(n) % 3 };
    let (got, how) = match route {
        0 => {
            // each player's own node
            let r1 = run.rate(&period_call(sys, &p.cfg, &va, vec![Res { v: vb, o, x: *x }]));
            let r2 = run.rate(&period_call(sys, &p.cfg, &vb, vec![Res { v: va, o: flip(o), x: fx }]));
            (r1.zip(r2).map(|(x, y)| (x[0][0], y[0][0])), "each side as its own rating period")
        }
        1 => {
            // the sides named in the opposite order
            let c = pair_call(sys, &p.cfg, &vb, &va, flip(o), &fx, 0);
            (run.rate(&c).map(|t| (t[1][0], t[0][0])), "sides named in the opposite order")
        }
        _ => {
            if uid % 2 == 0 {
                (run.rate(&pair_call(sys, &p.cfg, &va, &vb, o, x, 1)).map(|t| (t[0][0], t[1][0])), "generic trait")
            } else {
                let r1 = run.rate(&trait_period_call(sys, &p.cfg, &va, &vb, o, x));
                let r2 = run.rate(&trait_period_call(sys, &p.cfg, &vb, &va, flip(o), &fx));
                (r1.zip(r2).map(|(x, y)| (x[0][0], y[0][0])), "generic rating-period trait")
            }
        }
    };
    if p.prop == 9 && matches!(sys, ELO | FIFA | INGO) {
        if let Some((x, y)) = got {
            let s = (x[0] - va[0]) + (y[0] - vb[0]);
            if !(s.abs() <= 1e-9 * (1.0 + va[0].abs() + vb[0].abs())) {
                run.fail("rating points created or destroyed", format!("{} {how}: {va:?} and {vb:?} became {x:?} and {y:?}", NAMES[sys]));
            }
        }
    }
    if p.prop != 7 {
        return;
    }
    let who = format!("node {n} ({how})");
    let ctx = format!("{:?} against {:?}, outcome {:?}, circumstances {:?}", &va[..WIDTH[sys]], &vb[..WIDTH[sys]], oc(o), x);
    diff(run, p, &who, uid, a, &post[0].1, got.map(|g| g.0), &ctx);
    diff(run, p, &who, uid, b, &post[1].1, got.map(|g| g.1), &ctx);
    // forecasts
    let ex = |via: u8, a: &V, b: &V, x: &[f64; 3]| {
        let mut c = mk(sys, F_EXP, via, side_cfg(sys, &p.cfg, x));
        c.teams = vec![vec![*a], vec![*b]];
        c
    };
    let exp = |via: u8, a: &V, b: &V, x: &[f64; 3]| {
        let mut c = mk(sys, F_EXPP, via, if via == 0 { p.cfg.clone() } else { side_cfg(sys, &p.cfg, x) });
        c.teams = vec![vec![*a]];
        c.res = vec![Res { v: *b, o, x: *x }];
        c
    };
    let referee = run.forecast(&ex(0, &va, &vb, x));
    let (f1, f2, h) = match route {
        0 => {
            let y = run.forecast(&exp(0, &va, &vb, x));
            let z = run.forecast(&exp(0, &vb, &va, &fx));
            let (mut y, mut z) = (y.map(|y| y[0]), z.map(|z| z[0]));
            if sys == BOOST && is_known("K1", "C07") {
                // exactly the forecast for White where the game is played as Black
                let black_a = x[0] == 0.0;
                let want = if black_a { referee.as_ref().map(|r| r[0]) } else { referee.as_ref().map(|r| r[1]) };
                let white = run.forecast(&if black_a { ex(0, &va, &vb, &fx) } else { ex(0, &vb, &va, x) }).map(|w| w[0]);
                let side = if black_a { &mut y } else { &mut z };
                if let (Some(g), Some(want), Some(white)) = (*side, want, white) {
                    if (g - want).abs() > 1e-9 && (g - white).abs() <= 1e-9 {
                        run.st.add("known:K1", 1);
                        *side = Some(want);
                    }
                }
            }
            (y, z, "each side's own forecast")
        }
        1 => {
            let y = run.forecast(&ex(0, &vb, &va, &fx));
            (y.as_ref().map(|y| y[1]), y.as_ref().map(|y| y[0]), "forecast with sides swapped")
        }
        _ => {
            if uid % 2 == 0 {
                let y = run.forecast(&ex(1, &va, &vb, x));
                (y.as_ref().map(|y| y[0]), y.as_ref().map(|y| y[1]), "trait forecast")
            } else {
                let y = run.forecast(&exp(1, &va, &vb, x));
                let z = run.forecast(&exp(1, &vb, &va, &fx));
                (y.map(|y| y[0]), z.map(|z| z[0]), "trait forecast for a rating period")
            }
        }
    };
    if let (Some(r), Some(f1), Some(f2)) = (&referee, f1, f2) {
        let tl = if sys == TS { 1e-6 } else { 1e-9 };
        let ok = |x: f64, y: f64| (x.is_nan() && y.is_nan()) || (x - y).abs() <= tl;
        if !ok(r[0], f1) || !ok(r[1], f2) {
            run.fail("forecasts of the parties differ", format!("{} cfg {:?} {ctx}: referee {:?}, {h}: [{f1}, {f2}]", NAMES[sys], p.cfg, r));
        } else if !ok(r[0] + r[1], 1.0) {
            run.fail("forecasts do not add up to one", format!("{} cfg {:?} {ctx}: {:?}", NAMES[sys], p.cfg, r));
        }
    } else if !(referee.is_none() && f1.is_none() && f2.is_none()) {
        run.fail("a forecast panicked for one party only", format!("{} cfg {:?} {ctx}: {h}", NAMES[sys], p.cfg));
    }
}

#[allow(clippy::too_many_arguments)]
fn team_match(run: &mut Run, p: &LeaguePlan, nd: &Node, n: u8, uid: u32, post: &[(u16, V)], teams: &[Vec<u16>], ranks: &[u64], w: &Option<Vec<Vec<f64>>>, two: bool) {
    let sys = p.sys;
    if !matches!(p.prop, 8 | 9 | 10 | 11 | 12 | 20) {
        return;
    }
    // players and teams check in over the network: the order is the node's own
    let late = |i: usize, j: usize| -> u64 {
        let h = hash(&[p.seed, n as u64, uid as u64, i as u64, j as u64]);
        if p.net.p[net::DELAY as usize] > 0 && n < 2 && h % 4 != 0 {
            1 + mix(h) % 1000
        } else {
            0
        }
    };
    let mut ord: Vec<usize> = (0..teams.len()).collect();
    let keep = two && teams.len() == 2 && sys == TS;
    let _ = keep;
    ord.sort_by_key(|i| (late(*i, 9999), *i));
    if sys == TS && !(two && teams.len() == 2) {
        // teams sharing a rank keep their mutual order
        let mut slots: Vec<usize> = Vec::new();
        for r in ranks.iter().collect::<std::collections::BTreeSet<_>>() {
            let pos: Vec<usize> = (0..ord.len()).filter(|k| ranks[ord[*k]] == *r).collect();
            let mut ids: Vec<usize> = pos.iter().map(|k| ord[*k]).collect();
            ids.sort_unstable();
            for (k, id) in pos.iter().zip(ids) {
                slots.push(*k);
                ord[*k] = id;
            }
        }
    }
    if ord.iter().enumerate().any(|(i, x)| i != *x) {
        run.st.add("fault:teams reported in another order", 1);
    }
    let inner: Vec<Vec<usize>> = ord
        .iter()
        .map(|i| {
            let mut o: Vec<usize> = (0..teams[*i].len()).collect();
            o.sort_by_key(|j| (late(*i, *j), *j));
            o
        })
        .collect();
    if inner.iter().any(|o| o.iter().enumerate().any(|(i, x)| i != *x)) {
        run.st.add("fault:players reported in another order", 1);
    }
    let tv: Vec<Vec<V>> = ord.iter().zip(&inner).map(|(i, o)| o.iter().map(|j| nd.st[teams[*i][*j] as usize]).collect()).collect();
    // only the relative order of ranks matters
    let mut sorted: Vec<u64> = ranks.to_vec();
    sorted.sort_unstable();
    sorted.dedup();
    let label = |r: u64| -> u64 {
        let k = sorted.iter().position(|x| *x == r).unwrap() as u64;
        match n {
            0 => k,
            1 => k * 7 + 3,
            _ => r,
        }
    };
    let rk: Vec<u64> = ord.iter().map(|i| label(ranks[*i])).collect();
    let ww = match w {
        Some(w) => Some(ord.iter().zip(&inner).map(|(i, o)| o.iter().map(|j| w[*i][*j]).collect::<Vec<f64>>()).collect::<Vec<_>>()),
        // nobody said anything about partial play: everybody played fully
        None if sys == TS && n == 1 => Some(tv.iter().map(|t| vec![1.0; t.len()]).collect()),
        None => None,
    };
    let full = ww.as_ref().is_some_and(|w| w.iter().flatten().all(|x| *x == 1.0));
    let ww = if full && n == 0 { None } else { ww };
    let via = if n == 2 { 1 } else { 0 };
    let got = run.rate(&team_call(sys, &p.cfg, tv.clone(), &rk, &ww, two, via));
    if p.prop != 8 {
        return;
    }
    let who = format!("node {n}");
    let ctx = format!("teams reported in order {ord:?}, players {inner:?}, ranks {rk:?}, weights {ww:?}, ratings {tv:?}");
    let near = sys == TS && !two && model::ts_multi(&p.cfg, &tv, &rk, ww.as_deref()).len() > 1;
    let mut base = 0;
    let mut want: Vec<&[(u16, V)]> = Vec::new();
    for t in teams {
        want.push(&post[base..base + t.len()]);
        base += t.len();
    }
    let Some(g) = got else {
        return run.fail("a node's rating call panicked", format!("{} {who} event {uid}: {ctx}", NAMES[sys]));
    };
    if g.len() != ord.len() || g.iter().zip(&inner).any(|(a, b)| a.len() != b.len()) {
        return run.fail("players lost or added", format!("{} {who} event {uid}: {ctx} -> {g:?}", NAMES[sys]));
    }
    let loose = |a: &V, b: &V| near && (a[0] - b[0]).abs() < 5e-3 && (a[1] - b[1]).abs() < 5e-3;
    for (k, (i, o)) in ord.iter().zip(&inner).enumerate() {
        for (q, j) in o.iter().enumerate() {
            let (id, v) = want[*i][*j];
            if !loose(&v, &g[k][q]) {
                diff(run, p, &who, uid, id, &v, Some(g[k][q]), &ctx);
            }
        }
    }
    if run.viol.is_some() {
        return;
    }
    // nobody to play against: nothing changes
    let pre: Vec<Vec<V>> = teams.iter().map(|t| t.iter().map(|k| nd.st[*k as usize]).collect()).collect();
    if teams.len() < 2 || teams.iter().any(|t| t.is_empty()) {
        for (t, (a, b)) in pre.iter().zip(want.iter()).enumerate() {
            for (x, y) in a.iter().zip(b.iter()) {
                if *x != y.1 {
                    run.fail("a match without opponents changed a rating", format!("{} team {t}: {x:?} became {:?}", NAMES[sys], y.1));
                }
            }
        }
        return;
    }
    outlook(run, p, n, uid, &pre, &ord, &tv, w, &ww, via, &ctx);
    if teams.len() != 2 || run.viol.is_some() {
        return;
    }
    // other ways to rate the same match of two teams
    let o = match ranks[0].cmp(&ranks[1]) {
        std::cmp::Ordering::Less => 0,
        std::cmp::Ordering::Greater => 1,
        _ => 2,
    };
    let single = teams.iter().all(|t| t.len() == 1);
    if single && (two || sys == WL) && n == 0 {
        let t = run.rate(&pair_call(sys, &p.cfg, &pre[0][0], &pre[1][0], o, &[0.0; 3], 0));
        diff(run, p, &who, uid, want[0][0].0, &want[0][0].1, t.as_ref().map(|t| t[0][0]), "one-player teams rated as one on one");
        diff(run, p, &who, uid, want[1][0].0, &want[1][0].1, t.as_ref().map(|t| t[1][0]), "one-player teams rated as one on one");
    }
    if sys == WL && n == 1 {
        let t = run.rate(&team_call(sys, &p.cfg, pre, ranks, w, !two, 0));
        for (i, x) in want.iter().enumerate() {
            for (j, y) in x.iter().enumerate() {
                diff(run, p, &who, uid, y.0, &y.1, t.as_ref().map(|t| t[i][j]), "two teams rated by the other team function");
            }
        }
    }
}

/// C08: forecast and match quality as the sequencer and as the node (its order, its route) see them
#[allow(clippy::too_many_arguments)]
fn outlook(run: &mut Run, p: &LeaguePlan, n: u8, uid: u32, pre: &[Vec<V>], ord: &[usize], tv: &[Vec<V>], w: &Option<Vec<Vec<f64>>>, ww: &Option<Vec<Vec<f64>>>, via: u8, ctx: &str) {
    let sys = p.sys;
    let ask = |run: &mut Run, f: u8, via: u8, teams: &[Vec<V>], w: &Option<Vec<Vec<f64>>>| {
        let mut c = mk(sys, f, via, p.cfg.clone());
        c.teams = teams.to_vec();
        c.weights = w.clone();
        run.forecast(&c)
    };
    let tl = if sys == TS { 1e-6 } else { 1e-9 };
    let near = |x: f64, y: f64| (x.is_nan() && y.is_nan()) || (x - y).abs() <= tl;
    let bad = |run: &mut Run, what: &str, a: &Option<Vec<f64>>, b: &Option<Vec<f64>>| {
        run.fail(what, format!("{} cfg {:?} node {n} event {uid}: {ctx}: sequencer {a:?}, node {b:?}", NAMES[sys], p.cfg));
    };
    let base = ask(run, F_EXPMULTI, 0, pre, &None);
    let mine = ask(run, F_EXPMULTI, via, tv, &None);
    let ok = match (&base, &mine) {
        (Some(a), Some(b)) => a.len() == pre.len() && b.len() == ord.len() && ord.iter().zip(b).all(|(i, y)| near(a[*i], *y)),
        (a, b) => a.is_none() && b.is_none(),
    };
    if !ok {
        return bad(run, "forecasts for the teams depend on the order they are reported in", &base, &mine);
    }
    if pre.len() == 2 {
        let pair = ask(run, F_EXPTWO, via, tv, &None);
        let ok = match (&base, &pair) {
            (Some(a), Some(b)) => near(a[ord[0]], b[0]) && near(a[ord[1]], b[1]),
            (a, b) => a.is_none() && b.is_none(),
        };
        if !ok {
            return bad(run, "the two-team and the multi-team forecast differ", &base, &pair);
        }
        if pre.iter().all(|t| t.len() == 1) {
            let one = ask(run, F_EXP, via, tv, &None);
            if let (Some(a), Some(b)) = (&base, &one) {
                if !near(a[ord[0]], b[0]) || !near(a[ord[1]], b[1]) {
                    return bad(run, "the one-on-one and the team forecast differ", &base, &one);
                }
            }
        }
    }
    if sys != TS || pre.len() > 5 || pre.iter().map(|t| t.len()).sum::<usize>() > 10 {
        return;
    }
    let base = ask(run, F_MQMULTI, 0, pre, w);
    let mine = ask(run, F_MQMULTI, 0, tv, ww);
    let same = |a: &Option<Vec<f64>>, b: &Option<Vec<f64>>| match (a, b) {
        (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y)),
        (a, b) => a.is_none() && b.is_none(),
    };
    if !same(&base, &mine) {
        return bad(run, "match quality depends on the order the teams are reported in", &base, &mine);
    }
    if pre.len() == 2 && w.is_none() {
        let pair = ask(run, F_MQTWO, 0, tv, &None);
        if !same(&base, &pair) {
            return bad(run, "the two-team and the multi-team match quality differ", &base, &pair);
        }
    }
}

// ------------------------------------------------------------------ running a plan

fn items(p: &LeaguePlan) -> Vec<Item> {
    let mut epoch = 0;
    p.entries
        .iter()
        .map(|e| {
            let mut players = vec![];
            let mut close = false;
            match &e.k {
                Kind::Match { a, b, q, .. } => {
                    if !*q || p.net.ordered {
                        players = vec![*a, *b];
                    }
                }
                Kind::Team { teams, .. } => players = teams.iter().flatten().copied().collect(),
                Kind::Close => close = true,
                Kind::Join { k, .. } => players = vec![*k],
            }
            let it = Item { uid: e.uid, t: e.t, close, epoch, players };
            if close {
                epoch += 1;
            }
            it
        })
        .collect()
}

pub fn run_league(p: &LeaguePlan) -> RunResult {
    let its = items(p);
    let no = net::simulate(p.seed, &p.net, &its, p.faults.as_deref());
    let mut st = Stats::default();
    if no.stuck {
        // never seen; a run that does not quiesce decides nothing
        st.add("runs without quiescence", 1);
        return RunResult { stats: st, ..Default::default() };
    }
    let r = forked(|| {
        env::set_limit(3_000_000_000);
        env::set_env(p.env);
        let mut run = Run { prop: p.prop, sys: p.sys, cfg: p.cfg.clone(), st: Stats::default(), viol: None };
        let _ = (run.sys, &run.cfg);
        let c = canon(&mut run, p, &no.log);
        for (n, steps) in no.nodes.iter().enumerate() {
            if run.viol.is_some() {
                break;
            }
            replica(&mut run, p, &c, n as u8, steps);
        }
        if p.prop == 9 && run.viol.is_none() && matches!(p.sys, ELO | FIFA | INGO) && !run.st.n.contains_key("players replaced") {
            let (x, y): (f64, f64) = (p.players.iter().map(|v| v[0]).sum(), c.end.iter().map(|v| v[0]).sum());
            if !((x - y).abs() <= 1e-6 * (1.0 + x.abs())) {
                run.fail("rating points created or destroyed", format!("{}: a pool of {x} points became {y}", NAMES[p.sys]));
            }
        }
        (run.viol, run.st)
    });
    let viol = match r {
        Ok((v, s)) => {
            st = s;
            v
        }
        Err(d) => Some(Viol { class: died_class(&d).into(), detail: format!("{d:?} while rating a league of {}", NAMES[p.sys]) }),
    };
    for (k, c) in no.counts.iter().enumerate() {
        if k < net::FLUSH as usize {
            st.add(&format!("fault:{}", net::FNAMES[k]), *c);
        } else {
            st.add(net::FNAMES[k], *c);
        }
    }
    st.fold(no.trace);
    st.vtime_ms = no.vtime;
    st.add("events of the league", p.entries.len() as u64);
    st.add(&format!("system {}", NAMES[p.sys]), 1);
    let fired: u64 = no.counts[..net::FLUSH as usize].iter().sum();
    st.nontrivial = fired > 0 && st.n.get("library calls").copied().unwrap_or(0) > 0;
    st.note = format!("{}: {} players, {} events, {} nodes, {} faults, {} ms simulated", NAMES[p.sys], p.players.len(), p.entries.len(), p.net.nodes, fired, no.vtime);
    let explicit = viol.as_ref().map(|_| super::World::League(LeaguePlan { faults: Some(no.fired.clone()), ..p.clone() }));
    RunResult { viol, stats: st, explicit }
}

impl LeaguePlan {
    pub fn parts(&self) -> Vec<usize> {
        vec![self.entries.len(), self.faults.as_ref().map_or(0, |f| f.len())]
    }
    pub fn without(&self, part: usize, lo: usize, hi: usize) -> Option<Self> {
        let mut p = self.clone();
        if part == 0 {
            p.entries.drain(lo..hi);
            if p.entries.is_empty() {
                return None;
            }
        } else {
            p.faults.as_mut()?.drain(lo..hi);
        }
        Some(p)
    }
    pub fn simpler(&self) -> Vec<Self> {
        let mut o = Vec::new();
        if self.env != EnvCfg::canonical() {
            o.push(LeaguePlan { env: EnvCfg::canonical(), ..self.clone() });
        }
        let d = default_cfg(self.sys);
        if self.cfg != d {
            o.push(LeaguePlan { cfg: d, ..self.clone() });
        }
        for n in 1..self.net.nodes {
            let mut p = self.clone();
            p.net.nodes = n;
            o.push(p);
        }
        for i in 0..self.entries.len() {
            if let Kind::Team { teams, ranks, w, two } = &self.entries[i].k {
                if w.is_some() {
                    let mut p = self.clone();
                    p.entries[i].k = Kind::Team { teams: teams.clone(), ranks: ranks.clone(), w: None, two: *two };
                    o.push(p);
                }
                for k in 0..teams.len() {
                    if teams.len() > 2 {
                        let (mut t, mut r, mut w) = (teams.clone(), ranks.clone(), w.clone());
                        t.remove(k);
                        r.remove(k);
                        if let Some(w) = &mut w {
                            w.remove(k);
                        }
                        let mut p = self.clone();
                        p.entries[i].k = Kind::Team { teams: t, ranks: r, w, two: *two };
                        o.push(p);
                    }
                    if teams[k].len() > 1 {
                        let (mut t, mut w) = (teams.clone(), w.clone());
                        t[k].pop();
                        if let Some(w) = &mut w {
                            w[k].pop();
                        }
                        let mut p = self.clone();
                        p.entries[i].k = Kind::Team { teams: t, ranks: ranks.clone(), w, two: *two };
                        o.push(p);
                    }
                }
            }
        }
        let used: std::collections::BTreeSet<u16> = self
            .entries
            .iter()
            .flat_map(|e| match &e.k {
                Kind::Match { a, b, .. } => vec![*a, *b],
                Kind::Team { teams, .. } => teams.iter().flatten().copied().collect(),
                Kind::Join { k, .. } => vec![*k],
                Kind::Close => vec![],
            })
            .collect();
        // players at the end of the list who take no part
        let mut keep = used.iter().max().map_or(1, |m| *m as usize + 1);
        if used.is_empty() {
            keep = self.players.len() / 2;
        }
        if keep < self.players.len() && keep > 0 {
            o.push(LeaguePlan { players: self.players[..keep].to_vec(), ..self.clone() });
        }
        for k in used {
            let v = &self.players[k as usize];
            let d = new_default(self.sys, 30);
            if *v != d {
                let mut p = self.clone();
                p.players[k as usize] = d;
                o.push(p);
            }
        }
        o
    }
}
