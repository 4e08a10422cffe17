//! Workload: ratings, configs, matches and whole calls, drawn swarm-style.
use crate::api::*;
use crate::rng::Rng;

fn elo_like(r: &mut Rng, base: f64) -> f64 {
    match r.below(12) {
        0..=1 => base,
        2..=5 => base + 250.0 * r.normal(),
        6..=7 => r.range(200.0, 2800.0),
        8 => r.range(-200.0, 3400.0),
        9 => (base + 250.0 * r.normal()).round(),
        10 => *r.pick(&[0.0, 100.0, 400.0, 1000.0, 1300.0, 1500.0, 2000.0, 2100.0, 2355.0, 2400.0]),
        _ => base + r.range(-3.0, 3.0),
    }
}
fn dev(r: &mut Rng) -> f64 {
    match r.below(10) {
        0..=2 => 350.0,
        3..=5 => r.range(30.0, 350.0),
        6 => r.range(30.0, 80.0),
        7 => r.range(5.0, 40.0),
        8 => r.range(330.0, 350.0),
        _ => *r.pick(&[30.0, 50.0, 100.0, 200.0, 300.0, 349.9]),
    }
}
pub fn age(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => *r.pick(&[0.0, 1.0, 2.0, 18.0, 19.0, 20.0, 21.0, 24.0, 25.0, 26.0, 27.0, 30.0, 60.0]),
        1 => r.int(5, 25) as f64,
        2 => r.int(26, 90) as f64,
        _ => r.int(5, 90) as f64,
    }
}

/// a rating in the range the published algorithm is meant for
pub fn rating(sys: usize, r: &mut Rng) -> V {
    match sys {
        ELO | FIFA => [elo_like(r, if sys == ELO { 1000.0 } else { 1200.0 }), 0., 0.],
        GLICKO | BOOST | STICKO => [elo_like(r, 1500.0), dev(r), 0.],
        GLICKO2 => [
            elo_like(r, 1500.0),
            dev(r),
            match r.below(6) {
                0..=2 => 0.06,
                3 => r.range(0.03, 0.12),
                4 => r.range(0.01, 0.3),
                _ => 0.06 + r.range(-0.002, 0.002),
            },
        ],
        TS | WL => [
            match r.below(8) {
                0..=1 => 25.0,
                2..=4 => 25.0 + 6.0 * r.normal(),
                5 => r.range(0.0, 50.0),
                6 => (25.0 + 6.0 * r.normal()).round(),
                _ => r.range(-10.0, 70.0),
            },
            match r.below(8) {
                0..=1 => 25.0 / 3.0,
                2..=4 => r.range(1.0, 8.4),
                5 => r.range(0.5, 1.5),
                6 if r.chance(0.3) => r.range(12.0, 25.0),
                6 => r.range(6.0, 12.0),
                _ => *r.pick(&[1.0, 2.0, 4.0, 8.0]),
            },
            0.,
        ],
        USCF_ => [
            elo_like(r, 1300.0).clamp(100.0, 2900.0),
            match r.below(6) {
                0 => 0.0,
                1 => r.int(1, 8) as f64,
                2 => *r.pick(&[7.0, 8.0, 9.0, 10.0, 25.0, 26.0, 49.0, 50.0, 51.0]),
                3 => r.int(9, 60) as f64,
                4 if r.chance(0.3) => r.logint(3_000_000) as f64,
                4 => r.int(60, 2000) as f64,
                _ => r.int(0, 12) as f64,
            },
            0.,
        ],
        EGF_ => [
            match r.below(8) {
                0 => 0.0,
                1..=3 => r.range(-800.0, 2600.0),
                4 => r.range(-900.0, -700.0),
                5 => r.range(2000.0, 2900.0),
                6 => *r.pick(&[-900.0, 100.0, 300.0, 400.0, 1000.0, 2000.0, 2400.0, 2700.0]),
                _ => r.range(100.0, 2400.0),
            },
            0.,
            0.,
        ],
        DWZ_ => [
            match r.below(8) {
                0..=1 => 1000.0,
                2..=4 => r.range(600.0, 2400.0),
                5 => r.range(1250.0, 1350.0),
                // the braking value reaches its cap near 548
                6 if r.chance(0.4) => r.range(535.0, 560.0),
                6 => r.range(100.0, 900.0),
                _ => *r.pick(&[800.0, 1300.0, 1299.9, 2000.0, 2500.0]),
            },
            match r.below(4) {
                0 => 1.0,
                1 => r.int(1, 8) as f64,
                2 => r.int(5, 40) as f64,
                _ if r.chance(0.3) => r.logint(3_000_000) as f64,
                _ => r.int(1, 300) as f64,
            },
            age(r),
        ],
        _ => [
            match r.below(6) {
                0..=1 => 230.0,
                2..=3 => r.range(50.0, 300.0),
                4 => r.range(0.0, 60.0),
                _ => r.range(0.0, 350.0).round(),
            },
            age(r),
            0.,
        ],
    }
}

pub fn cfg(sys: usize, r: &mut Rng) -> Vec<f64> {
    let mut c = default_cfg(sys);
    if r.chance(0.4) {
        return c;
    }
    match sys {
        ELO => c[0] = *r.pick(&[10.0, 16.0, 20.0, 24.0, 32.0, 40.0, 64.0, 17.3, 1.0]),
        GLICKO => c[0] = *r.pick(&[0.0, 10.0, 34.6, 50.0, 63.2, 90.0, 120.0]),
        GLICKO2 => {
            c[0] = *r.pick(&[0.2, 0.3, 0.5, 0.75, 1.0, 1.2]);
            c[1] = *r.pick(&[1e-6, 1e-6, 1e-5, 1e-8, 1e-4]);
        }
        BOOST => {
            c[0] = *r.pick(&[30.0, 0.0, 15.0, 60.0]);
            // none of them a value that equal players reach exactly
            c[1] = *r.pick(&[1.96, 0.0, 1.0173, 0.5173, 2.5173, 1.4173]);
            if r.chance(0.3) {
                c[2] = r.range(0.0, 0.5);
                c[3] = r.range(0.0, 40.0);
            }
            if r.chance(0.3) {
                c[4] = r.range(3.0, 8.0);
            }
        }
        STICKO => {
            c[0] = *r.pick(&[10.0, 0.0, 50.0, 200.0]);
            c[1] = *r.pick(&[0.0, 0.02, 0.05, -0.01]);
            c[2] = *r.pick(&[2.0, 0.0, 1.0, 5.0]);
            c[3] = *r.pick(&[0.0, 30.0, 15.0, 60.0]);
            c[4] = *r.pick(&[10.0, 0.0, 25.0, 63.2]);
        }
        TS => {
            c[0] = *r.pick(&[0.1, 0.1, 0.05, 0.2, 0.35, 0.5, 0.02, 0.0, 0.9]);
            c[1] = *r.pick(&[25.0 / 6.0, 25.0 / 6.0, 2.0, 6.0, 10.0]);
            c[2] = *r.pick(&[25.0 / 300.0, 0.0, 0.5, 1.0]);
        }
        WL => {
            c[0] = *r.pick(&[25.0 / 6.0, 25.0 / 6.0, 2.5, 6.0, 10.0]);
            c[1] = *r.pick(&[1e-6, 1e-6, 1e-6, 1e-3, 0.5, 0.999]);
        }
        FIFA => return xfor(FIFA, r)[..3].to_vec(),
        USCF_ => c[0] = *r.pick(&[14.0, 12.0, 6.0, 10.0, 16.0]),
        EGF_ => return xfor(EGF_, r)[..1].to_vec(),
        _ => {}
    }
    // not only round numbers
    if r.chance(0.35) {
        match sys {
            ELO => c[0] = r.range(0.5, 90.0),
            GLICKO => c[0] = r.range(0.0, 130.0),
            GLICKO2 => {
                c[0] = r.range(0.15, 1.3);
                c[1] = 10f64.powf(r.range(-9.0, -4.0));
            }
            BOOST => {
                c[0] = r.range(-20.0, 70.0);
                c[1] = r.range(0.0, 2.6);
                c[3] = r.range(0.0, 45.0);
            }
            STICKO => {
                c[0] = r.range(0.0, 200.0);
                c[1] = r.range(-0.02, 0.06);
                c[2] = r.range(0.0, 6.0);
                c[3] = r.range(-30.0, 60.0);
                c[4] = r.range(0.0, 70.0);
            }
            TS => {
                c[0] = if r.chance(0.2) { r.range(0.6, 0.95) } else { r.range(0.01, 0.6) };
                c[1] = r.range(1.5, 11.0);
                c[2] = r.range(0.0, 1.2);
            }
            WL => {
                c[0] = r.range(2.0, 11.0);
                c[1] = 10f64.powf(r.range(-7.0, -0.2));
            }
            USCF_ => c[0] = r.range(4.0, 18.0),
            _ => {}
        }
    }
    c
}

/// circumstances of one match, seen from player one
pub fn xfor(sys: usize, r: &mut Rng) -> [f64; 3] {
    match sys {
        BOOST | STICKO => [r.below(2) as f64, 0., 0.],
        FIFA => {
            let imp = if r.chance(0.2) { r.range(1.0, 80.0) } else { *r.pick(&[5.0, 10.0, 15.0, 25.0, 25.0, 35.0, 40.0, 50.0, 60.0]) };
            let ko = r.chance(0.35);
            [imp, ko as u8 as f64, r.chance(if ko { 0.5 } else { 0.15 }) as u8 as f64]
        }
        EGF_ => {
            let h = match r.below(8) {
                0..=2 => 0.0,
                3..=4 => r.int(1, 9) as f64,
                5 => 0.5 + r.int(0, 8) as f64,
                6 => r.range(0.0, 9.0),
                _ => *r.pick(&[1.0, 2.0, 0.5, 0.25, 9.0, 13.0]),
            };
            [if h != 0.0 && r.chance(0.5) { -h } else { h }, 0., 0.]
        }
        _ => [0.; 3],
    }
}
/// EGF is defined only while 3300 - 100(h - 0.5) exceeds the rating it is added to
pub fn egf_ok(h: f64, a: f64, b: f64) -> bool {
    let (ra, rb) = if h < 0.0 { (a, b) } else { (b, a) };
    let adv = if h == 0.0 { 0.0 } else { 100.0 * (h.abs() - 0.5) };
    ra + adv < 3150.0 && rb < 3150.0
}

pub fn outcome(r: &mut Rng) -> u8 {
    match r.below(10) {
        0..=3 => 0,
        4..=7 => 1,
        _ => 2,
    }
}
pub fn outcome_for(gap: f64, scale: f64, r: &mut Rng) -> u8 {
    if r.chance(0.15) {
        return 2;
    }
    let p = 1.0 / (1.0 + (-gap / scale).exp());
    if r.chance(p * 0.8 + 0.1) {
        0
    } else {
        1
    }
}

pub fn res(sys: usize, r: &mut Rng) -> Res {
    Res { v: rating(sys, r), o: outcome(r), x: xfor(sys, r) }
}

fn fix_egf(c: &mut Call) {
    if c.sys != EGF_ {
        return;
    }
    let a = c.teams.first().and_then(|t| t.first()).map_or(0.0, |v| v[0]);
    let b = c.teams.get(1).and_then(|t| t.first()).map_or(0.0, |v| v[0]);
    if let Some(h) = c.cfg.first_mut() {
        if !egf_ok(*h, a, b) || !egf_ok(*h, b, a) {
            *h = 0.0;
        }
    }
    let h = c.cfg.first().copied().unwrap_or(0.0);
    for x in &mut c.res {
        if !egf_ok(x.x[0], a, x.v[0]) {
            x.x[0] = 0.0;
        }
        if !egf_ok(h, a, x.v[0]) {
            x.v[0] = 1000.0;
        }
    }
}

/// sizes of teams: mostly small, sometimes wide
pub fn teams(sys: usize, r: &mut Rng, max_teams: usize, max_players: usize) -> Vec<Vec<V>> {
    let n = if r.chance(0.7) { r.int(2, 5.min(max_teams)) } else { r.int(2, max_teams) };
    let fixed = if r.chance(0.5) { Some(r.int(1, 4.min(max_players))) } else { None };
    (0..n)
        .map(|_| {
            let k = fixed.unwrap_or_else(|| if r.chance(0.85) { r.int(1, 4.min(max_players)) } else { r.int(1, max_players) });
            (0..k).map(|_| rating(sys, r)).collect()
        })
        .collect()
}
pub fn ranks(n: usize, r: &mut Rng) -> Vec<u64> {
    match r.below(5) {
        0 => {
            let mut v: Vec<u64> = (1..=n as u64).collect();
            r.shuffle(&mut v);
            v
        }
        1 => (1..=n as u64).collect(),
        2 => (0..n).map(|_| r.int(1, n.max(2)) as u64).collect(),
        3 => (0..n).map(|_| *r.pick(&[0, 1, 2, 3, 10, 100, 1 << 20, u64::MAX])).collect(),
        _ => {
            let k = r.int(1, 3) as u64;
            (0..n).map(|_| r.below(k as usize + 1) as u64).collect()
        }
    }
}
pub fn weights(t: &[Vec<V>], r: &mut Rng) -> Vec<Vec<f64>> {
    let style = r.below(3);
    t.iter()
        .map(|t| {
            t.iter()
                .map(|_| match style {
                    0 => 1.0,
                    1 => *r.pick(&[1.0, 1.0, 0.5, 0.25, 0.75]),
                    _ => r.range(0.05, 1.0),
                })
                .collect()
        })
        .collect()
}

fn blank(sys: usize, f: u8) -> Call {
    Call { sys, f, via: 0, cfg: vec![], teams: vec![], o: 0, res: vec![], ranks: vec![], weights: None, n: 0 }
}

/// any public call
pub fn call(r: &mut Rng, sys: usize) -> Call {
    let f = match r.below(20) {
        0..=4 => F_PAIR,
        5..=8 => F_PERIOD,
        9..=10 => F_EXP,
        11 => F_EXPP,
        12 => F_DECAY,
        13 => *r.pick(&[F_CONF, F_CONV, F_RNEW, F_SERDE, F_NEW]),
        _ => match sys {
            TS => *r.pick(&[F_TWO, F_TWO, F_MULTI, F_MULTI, F_MULTI, F_EXPTWO, F_EXPMULTI, F_MQ, F_MQP, F_MQTWO, F_MQMULTI, F_RANK]),
            WL => *r.pick(&[F_TWO, F_TWO, F_MULTI, F_MULTI, F_EXPTWO, F_EXPMULTI]),
            DWZ_ => *r.pick(&[F_FIRST, F_FIRST, F_PAIR, F_PERIOD]),
            _ => *r.pick(&[F_PAIR, F_PERIOD, F_EXP, F_EXPP]),
        },
    };
    call_f(r, sys, f)
}
pub fn call_f(r: &mut Rng, sys: usize, f: u8) -> Call {
    let mut c = blank(sys, f);
    c.cfg = cfg(sys, r);
    c.o = outcome(r);
    c.n = match f {
        F_NEW | F_FIRST => age(r) as usize,
        F_RNEW => r.below(4),
        F_CONV => r.below(NCONV),
        _ => r.below(4),
    };
    let a = rating(sys, r);
    match f {
        F_PAIR | F_EXP | F_MQ => {
            let b = rating(sys, r);
            c.teams = vec![vec![a], vec![b]];
        }
        F_PERIOD | F_EXPP | F_MQP | F_FIRST => {
            c.teams = vec![vec![a]];
            let n = match r.below(6) {
                0 => 0,
                1..=3 => r.int(1, 6),
                4 => r.int(5, 20),
                _ => r.logint(60),
            };
            c.res = (0..n).map(|_| res(sys, r)).collect();
        }
        F_TWO | F_EXPTWO | F_MQTWO => {
            let mut t = teams(sys, r, 2, 8);
            t.truncate(2);
            if r.chance(0.05) {
                t[1].clear();
            }
            c.teams = t;
        }
        F_MULTI | F_EXPMULTI | F_MQMULTI => {
            let mx = if f == F_MQMULTI { 5 } else { 9 };
            c.teams = teams(sys, r, mx, 6);
            c.ranks = ranks(c.teams.len(), r);
            if r.chance(0.4) {
                let mut w = weights(&c.teams, r);
                if r.chance(0.2) {
                    // refused weights: negative, or of the wrong shape
                    match r.below(3) {
                        0 => {
                            w.pop();
                        }
                        1 => {
                            let i = r.below(w.len());
                            w[i].push(1.0)
                        }
                        _ => {
                            let i = r.below(w.len());
                            let j = r.below(w[i].len());
                            w[i][j] = -0.5
                        }
                    }
                }
                c.weights = Some(w);
            }
            if r.chance(0.04) {
                let i = r.below(c.teams.len());
                c.teams[i].clear();
                c.weights = None;
            }
        }
        _ => c.teams = vec![vec![a]],
    }
    c.via = match r.below(4) {
        0..=1 => 0,
        2 => 1,
        _ => 2,
    };
    fix_egf(&mut c);
    c
}

/// a call that panics or fails today (legal to make; must not disturb others)
pub fn bad_call(r: &mut Rng) -> Call {
    let mut c;
    match r.below(6) {
        0 => {
            // zero uncertainty is refused by a panic deep inside the factor graph
            c = call_f(r, TS, F_MULTI);
            let i = r.below(c.teams.len());
            for v in &mut c.teams[i] {
                v[1] = 0.0;
            }
            c.via = r.below(3) as u8;
        }
        1 => {
            c = call_f(r, TS, F_MULTI);
            let mut w = weights(&c.teams, r);
            let i = r.below(w.len());
            if w[i].is_empty() {
                w[i].push(-1.0);
            } else {
                let j = r.below(w[i].len());
                w[i][j] = -1.0;
            }
            c.weights = Some(w);
            c.via = 0;
        }
        5 => {
            // weights that do not fit the teams
            let f = *r.pick(&[F_MULTI, F_MQMULTI]);
            c = call_f(r, TS, f);
            if c.teams.iter().any(|t| t.is_empty()) {
                c.teams.retain(|t| !t.is_empty());
                c.ranks.truncate(c.teams.len());
            }
            let mut w = weights(&c.teams, r);
            let i = r.below(w.len().max(1));
            match r.below(4) {
                0 => w.push(vec![1.0]),
                1 => {
                    w.pop();
                }
                2 if !w.is_empty() => w[i].push(1.0),
                _ if !w.is_empty() => {
                    w[i].pop();
                }
                _ => {}
            }
            c.weights = Some(w);
            c.via = 0;
        }
        2 => {
            c = call_f(r, DWZ_, F_FIRST);
            c.res.truncate(4);
        }
        3 => {
            c = call_f(r, DWZ_, F_FIRST);
            while c.res.len() < 6 {
                c.res.push(res(DWZ_, r));
            }
            let o = r.below(2) as u8;
            for x in &mut c.res {
                x.o = o;
            }
        }
        _ => {
            // singular match quality
            c = call_f(r, TS, F_MQMULTI);
            for t in &mut c.teams {
                for v in t {
                    v[1] = 0.0;
                }
            }
            c.weights = Some(c.teams.iter().map(|t| vec![0.0; t.len()]).collect());
        }
    }
    c
}

fn ulp(x: f64, r: &mut Rng) -> f64 {
    let k = 1 + r.below(3) as u64;
    if x == 0.0 {
        return x;
    }
    if r.chance(0.5) {
        f64::from_bits(x.to_bits() + k)
    } else {
        f64::from_bits(x.to_bits() - k)
    }
}

/// a call that differs from `c` in one small way
pub fn mutate(c: &Call, r: &mut Rng) -> Call {
    let mut d = c.clone();
    for _ in 0..r.int(1, 2) {
        let sys = d.sys;
        match r.below(14) {
            0 => d.o = (d.o + 1 + r.below(2) as u8) % 3,
            1..=2 => {
                if !d.cfg.is_empty() {
                    let n = cfg(sys, r);
                    let i = r.below(d.cfg.len());
                    d.cfg[i] = n[i];
                }
            }
            3 => d.cfg = cfg(sys, r),
            4..=6 => {
                // one field of one rating
                let k: usize = d.teams.iter().map(|t| t.len()).sum::<usize>() + d.res.len();
                if k > 0 {
                    let mut i = r.below(k);
                    let n = rating(sys, r);
                    let field = r.below(WIDTH[sys]);
                    let style = r.below(3);
                    let mut apply = |v: &mut V, r: &mut Rng| {
                        let old = v[field];
                        v[field] = match style {
                            0 => n[field],
                            1 if field == 0 || WIDTH[sys] == 2 && sys != USCF_ && sys != INGO => ulp(old, r),
                            _ => {
                                if sys == USCF_ && field == 1 || sys == DWZ_ && field > 0 || sys == INGO && field == 1 {
                                    old + 1.0
                                } else {
                                    old + (n[field] - old) * 1e-3
                                }
                            }
                        };
                    };
                    let mut done = false;
                    for t in &mut d.teams {
                        if i < t.len() {
                            apply(&mut t[i], r);
                            done = true;
                            break;
                        }
                        i -= t.len();
                    }
                    if !done {
                        apply(&mut d.res[i].v, r);
                    }
                }
            }
            7 => {
                if d.teams.len() >= 2 {
                    let i = r.below(d.teams.len());
                    let j = r.below(d.teams.len());
                    d.teams.swap(i, j);
                    d.weights = None;
                }
            }
            8 => {
                if !d.res.is_empty() {
                    match r.below(4) {
                        0 => {
                            d.res.pop();
                        }
                        1 => {
                            let x = d.res[0];
                            d.res.push(x)
                        }
                        2 => {
                            let i = r.below(d.res.len());
                            d.res[i].o = (d.res[i].o + 1) % 3;
                        }
                        _ => {
                            let i = r.below(d.res.len());
                            d.res[i].x = xfor(sys, r);
                        }
                    }
                }
            }
            9 => {
                if !d.ranks.is_empty() {
                    d.ranks = ranks(d.ranks.len(), r);
                }
            }
            10 => {
                if d.f == F_MULTI || d.f == F_MQMULTI {
                    d.weights = if d.weights.is_some() { None } else { Some(weights(&d.teams, r)) };
                }
            }
            11 => d.via = r.below(3) as u8,
            12 => {
                // the sibling function on the same arguments
                d.f = match d.f {
                    F_PAIR => F_EXP,
                    F_EXP => F_PAIR,
                    F_PERIOD => F_EXPP,
                    F_EXPP => F_PERIOD,
                    F_TWO => F_EXPTWO,
                    F_EXPTWO => F_TWO,
                    F_MULTI => F_EXPMULTI,
                    f => f,
                };
                if d.f == F_EXPMULTI {
                    d.weights = None;
                }
            }
            _ => {
                // the same numbers in a system with the same shape of rating
                let fam: &[usize] = match sys {
                    GLICKO | BOOST | STICKO => &[GLICKO, BOOST, STICKO],
                    TS | WL => &[TS, WL],
                    ELO | FIFA => &[ELO, FIFA],
                    _ => &[],
                };
                if !fam.is_empty() && matches!(d.f, F_PAIR | F_PERIOD | F_EXP | F_EXPP | F_TWO | F_DECAY) {
                    let s = *r.pick(fam);
                    if s != d.sys {
                        d.sys = s;
                        d.cfg = cfg(s, r);
                        for x in &mut d.res {
                            x.x = xfor(s, r);
                        }
                    }
                }
            }
        }
    }
    fix_egf(&mut d);
    d
}

/// random simulated environment
pub fn env(r: &mut Rng) -> crate::env::EnvCfg {
    crate::env::EnvCfg {
        on: true,
        entropy: *r.pick(&[2, 2, 2, 0, 1]),
        seed: r.next(),
        eintr: *r.pick(&[0, 0, 10, 40]),
        short: *r.pick(&[0, 0, 10, 40]),
        clock_start: if r.chance(0.5) { r.next() % 4_102_444_799_000_000_000 } else { *r.pick(&[0, 1_000_000_000, 1_600_000_000_000_000_000, 2_000_000_000_000_000_000, 4_102_444_799_000_000_000]) },
        clock_step: *r.pick(&[0, 1, 1000, 1_000_000, 60_000_000_000]),
        jump: *r.pick(&[0, 5, 50]),
        fill: r.below(5) as u8,
        reuse: r.chance(0.6),
        pad: *r.pick(&[0, 1, 4, 16]),
        stack: r.below(40) as u16,
        pid: 2 + r.below(4_000_000) as u32,
        cores: *r.pick(&[1, 2, 3, 4, 8, 16, 64]),
        layout: r.below(65536) as u16,
        vars: r.below(6) as u8,
    }
}
