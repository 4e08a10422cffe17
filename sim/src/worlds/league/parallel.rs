//! C20: a league runs beside one that differs only by the choice of its scale - all ratings shifted,
//! everything scaled, every result reversed - or that rates with a system configured to mimic it.
use super::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    /// everybody starts this much higher
    Shift(f64),
    /// everything is measured in units this much smaller
    Scale(f64),
    /// every result is reversed and every rating negated
    Mirror,
    /// the stakes (Elo's k, FIFA's importance) are this much higher: so are the changes
    Stakes(f64),
    /// another system with the documented config
    Mimic,
}

/// Glicko-Boost without the growth of deviations after a period
const STILL: [f64; 5] = [-1e4, 0.0, 0.0, 0.0, 0.0];

fn even(c: &Call) -> bool {
    c.teams.windows(2).all(|w| w[0].len() == w[1].len()) && c.weights.as_ref().is_none_or(|w| w.iter().flatten().all(|x| *x == 1.0))
}
fn team_fn(f: u8) -> bool {
    matches!(f, F_TWO | F_MULTI | F_EXPTWO | F_EXPMULTI | F_MQTWO | F_MQMULTI)
}

/// the call both leagues make, or none if they do not correspond here
fn base(c: &Call, t: T) -> Option<Call> {
    let mut b = c.clone();
    let sys = c.sys;
    if sys == TS && c.f == F_MULTI && c.teams.len() > 2 {
        // the number of message-passing rounds depends on the scale
        return None;
    }
    if team_fn(c.f) && c.teams.iter().any(|t| t.is_empty()) {
        return None;
    }
    match t {
        T::Shift(_) => {
            if team_fn(c.f) && !even(c) {
                return None;
            }
            if sys == BOOST {
                b.cfg[4..9].copy_from_slice(&STILL);
            }
        }
        T::Scale(_) => {
            if !matches!(sys, TS | WL) {
                return None;
            }
        }
        T::Mirror => match sys {
            FIFA => {
                if b.cfg.len() > 1 && (b.cfg[1] != 0.0 || b.cfg[2] != 0.0) || b.res.iter().any(|r| r.x[1] != 0.0 || r.x[2] != 0.0) {
                    return None;
                }
            }
            STICKO => b.cfg[1] = 0.0,
            BOOST => {
                b.cfg[1] = 0.0;
                b.cfg[4..9].copy_from_slice(&STILL);
            }
            _ => {
                if c.f == F_EXPMULTI && c.teams.len() > 2 {
                    return None;
                }
            }
        },
        T::Stakes(_) => match sys {
            ELO | FIFA if matches!(c.f, F_PAIR) || (c.f == F_PERIOD && c.res.len() == 1) => {
                if sys == FIFA && (c.cfg.get(1).is_some_and(|x| *x != 0.0) || c.res.iter().any(|r| r.x[1] != 0.0)) {
                    return None;
                }
            }
            _ => return None,
        },
        T::Mimic => match sys {
            STICKO => b.cfg[..4].fill(0.0),
            BOOST => {
                b.cfg[..4].fill(0.0);
                b.cfg[4..9].copy_from_slice(&STILL);
            }
            _ => return None,
        },
    }
    Some(b)
}

fn vmap(sys: usize, v: &V, t: T) -> V {
    let mut w = *v;
    match t {
        T::Shift(d) => w[0] += d,
        T::Scale(s) => {
            w[0] *= s;
            w[1] *= s;
        }
        T::Mirror => w[0] = -w[0],
        _ => {}
    }
    let _ = sys;
    w
}

/// the same call in the other league
fn other(b: &Call, t: T) -> Call {
    let mut c = b.clone();
    let sys = c.sys;
    for v in c.teams.iter_mut().flatten() {
        *v = vmap(sys, v, t);
    }
    for r in &mut c.res {
        r.v = vmap(sys, &r.v, t);
    }
    match t {
        T::Shift(_) => {}
        T::Scale(s) => {
            if sys == TS {
                c.cfg[1] *= s;
                c.cfg[2] *= s;
            } else {
                c.cfg[0] *= s;
            }
        }
        T::Mirror => {
            c.o = flip(c.o);
            for r in &mut c.res {
                r.o = flip(r.o);
            }
            // reverse the order of the ranks
            let mut s: Vec<u64> = c.ranks.clone();
            s.sort_unstable();
            s.dedup();
            for r in &mut c.ranks {
                *r = (s.len() - 1 - s.iter().position(|x| x == r).unwrap()) as u64;
            }
            match sys {
                STICKO => c.cfg[3] = -c.cfg[3],
                BOOST => c.cfg[0] = -c.cfg[0],
                _ => {}
            }
        }
        T::Stakes(s) => {
            if !c.cfg.is_empty() {
                c.cfg[0] *= s;
            }
            if sys == FIFA {
                for r in &mut c.res {
                    r.x[0] *= s;
                }
            }
        }
        T::Mimic => {
            c.cfg = vec![if sys == STICKO { c.cfg[4] } else { 0.0 }];
            c.sys = GLICKO;
        }
    }
    c
}

fn pick(sys: usize, h: u64) -> T {
    let g = mix(h ^ 0x51);
    let shifts: [f64; 8] = [0.5, -7.0, 100.0, -350.0, 1000.0, -1500.0, 2500.0, 40.0];
    let scales: [f64; 7] = [2.0, 0.5, 60.0, 0.04, 10.0, 3.0, 40.0];
    match h % 4 {
        0 if matches!(sys, STICKO | BOOST) => T::Mimic,
        0 if matches!(sys, TS | WL) => T::Scale(scales[g as usize % 7]),
        0 if matches!(sys, ELO | FIFA) => T::Stakes([2.0, 0.5, 3.0, 0.1][g as usize % 4]),
        1 => T::Mirror,
        2 if matches!(sys, STICKO | BOOST) => T::Mimic,
        2 if matches!(sys, TS | WL) => T::Scale(scales[g as usize % 7]),
        _ => T::Shift(shifts[g as usize % 8] * if matches!(sys, TS | WL) { 0.02 } else if sys == INGO { 0.1 } else { 1.0 }),
    }
}

impl Run {
    fn raw(&mut self, c: &Call) -> Option<Out> {
        let o = exec(c, &Slots(vec![]));
        self.st.add("library calls", 1);
        for b in &o.bits {
            self.st.fold(*b);
        }
        if o.st == 0 {
            Some(o)
        } else {
            None
        }
    }
    /// a rating call, beside the same call in a parallel league
    pub fn parallel(&mut self, c: &Call) {
        let sys = c.sys;
        let h = hash(&[c.teams.first().and_then(|t| t.first()).map_or(0, |v| v[0].to_bits()), c.f as u64, c.o as u64, self.st.n.get("library calls").copied().unwrap_or(0)]);
        let t = pick(sys, h);
        let Some(b) = base(c, t) else { return };
        if matches!(t, T::Mimic) && c.f == F_DECAY && sys == BOOST {
            return;
        }
        let k = other(&b, t);
        let (x, y) = (self.raw(&b), self.raw(&k));
        self.st.add(&format!("fault:other scale, {}", name(t)), 1);
        let (Some(x), Some(y)) = (&x, &y) else {
            if x.is_some() != y.is_some() {
                self.fail("a rating call panics in one of two corresponding leagues", format!("{}\n and {}", show(&b), show(&k)));
            }
            return;
        };
        let (p, q) = (parse(sys, &x.bits), parse(sys, &y.bits));
        let (p, q): (Vec<V>, Vec<V>) = (p.into_iter().flatten().collect(), q.into_iter().flatten().collect());
        if p.len() != q.len() {
            return self.fail("players lost or added", format!("{}\n and {}", show(&b), show(&k)));
        }
        let olds: Vec<V> = b.teams.iter().flatten().copied().collect();
        let mut worst: f64 = 0.0;
        for (i, (v, w)) in p.iter().zip(&q).enumerate() {
            let want = if let T::Stakes(s) = t {
                [olds[i][0] + s * (v[0] - olds[i][0]), 0.0, 0.0]
            } else {
                vmap(sys, v, t)
            };
            for f in 0..WIDTH[sys] {
                let sc = match t {
                    T::Scale(s) => s.max(1.0),
                    T::Stakes(s) => 1.0 + s,
                    _ => 1.0,
                };
                let far = if let T::Shift(d) = t { 1e-9 * d.abs() } else { 0.0 };
                let tl = sc * (4.0 * tol(sys, &b.cfg, f, v[f]) + far + if sys == TS { 1e-6 * (1.0 + v[f].abs()) } else { 0.0 });
                let e = (want[f] - w[f]).abs();
                worst = worst.max(if e.is_nan() && !(want[f].is_nan() && w[f].is_nan()) { f64::INFINITY } else if e.is_nan() { 0.0 } else if e == 0.0 { 0.0 } else { e / tl });
            }
        }
        self.st.max(&format!("difference between parallel leagues in percent of the tolerance, {} {}", NAMES[sys], name(t)), (worst * 100.0).min(1e15) as u64);
        if worst > 1.0 && std::env::var_os("SIM_CAL").is_none() {
            self.fail("two leagues that differ only in scale drift apart", format!("{t:?}\n {} -> {p:?}\n {} -> {q:?}", show(&b), show(&k)));
        }
    }
    fn parallel_ask(&mut self, c: &Call, h: u64) {
        let t = pick(c.sys, h);
        let Some(b) = base(c, t) else { return };
        let k = other(&b, t);
        let (x, y) = (self.forecast(&b), self.forecast(&k));
        self.st.add(&format!("fault:other scale, {}", name(t)), 1);
        let (Some(mut x), Some(y)) = (x.clone(), y.clone()) else {
            if x.is_some() != y.is_some() {
                self.fail("a forecast panics in one of two corresponding leagues", format!("{}\n and {}", show(&b), show(&k)));
            }
            return;
        };
        let mut tl = if c.sys == TS { 1e-6 } else { 1e-9 };
        match c.f {
            F_EXP | F_EXPTWO | F_EXPMULTI if t == T::Mirror => x.reverse(),
            F_EXPP if t == T::Mirror => x.iter_mut().for_each(|x| *x = 1.0 - *x),
            F_CONF | F_RANK => {
                tl = 1e-9 * (1.0 + x.iter().fold(0.0, |m: f64, x| m.max(x.abs())));
                match t {
                    T::Shift(d) => {
                        tl += 1e-9 * d.abs();
                        x.iter_mut().for_each(|x| *x += d);
                    }
                    T::Scale(s) => {
                        tl *= 1.0 + s;
                        x.iter_mut().for_each(|x| *x *= s);
                    }
                    T::Mirror if c.f == F_CONF => {
                        x.reverse();
                        x.iter_mut().for_each(|x| *x = -*x);
                    }
                    T::Mirror => return,
                    _ => {}
                }
            }
            _ => {}
        }
        let ok = x.len() == y.len() && x.iter().zip(&y).all(|(a, b)| (a.is_nan() && b.is_nan()) || (a - b).abs() <= tl);
        if !ok {
            self.fail("two leagues that differ only in scale forecast differently", format!("{t:?}\n {} -> {x:?}\n {} -> {y:?}", show(&b), show(&k)));
        }
    }
}
fn name(t: T) -> &'static str {
    match t {
        T::Shift(_) => "shifted",
        T::Scale(_) => "scaled",
        T::Mirror => "mirrored",
        T::Stakes(_) => "higher stakes",
        T::Mimic => "mimicked",
    }
}

pub fn forecasts(run: &mut Run, p: &LeaguePlan, nd: &Node, old: &[V], r: &mut Rng, picked: &[usize]) {
    let sys = p.sys;
    let Some((a, b)) = views::two(run, p, nd, old, r, picked) else { return };
    let x = gen::xfor(sys, r);
    let via = r.below(2) as u8;
    let mut c = mk(sys, F_EXP, via, side_cfg(sys, &p.cfg, &x));
    c.teams = vec![vec![a], vec![b]];
    run.parallel_ask(&c, r.next());
    let mut c = mk(sys, F_EXPP, 0, p.cfg.clone());
    c.teams = vec![vec![a]];
    for _ in 0..r.int(1, 5) {
        if let Some((_, v)) = views::two(run, p, nd, old, r, &[]) {
            let mut x = gen::xfor(sys, r);
            if sys == BOOST {
                // K1 of the known findings
                x[0] = 1.0;
            }
            c.res.push(Res { v, o: 2, x });
        }
    }
    run.parallel_ask(&c, r.next());
    if matches!(sys, GLICKO | GLICKO2 | BOOST | STICKO | TS) {
        let mut c = mk(sys, if sys == TS { F_RANK } else { F_CONF }, 0, p.cfg.clone());
        c.teams = vec![vec![a]];
        run.parallel_ask(&c, r.next());
    }
    if matches!(sys, TS | WL) {
        if let Some(t) = views::some_teams(run, p, nd, old, r, 4, 8) {
            let fs: &[u8] = if t.len() == 2 {
                if sys == TS { &[F_EXPTWO, F_EXPMULTI, F_MQTWO, F_MQMULTI] } else { &[F_EXPTWO, F_EXPMULTI] }
            } else if sys == TS {
                &[F_EXPMULTI, F_MQMULTI]
            } else {
                &[F_EXPMULTI]
            };
            for f in fs {
                let mut c = mk(sys, *f, if *f == F_MQTWO || *f == F_MQMULTI { 0 } else { via }, p.cfg.clone());
                c.teams = t.clone();
                run.parallel_ask(&c, r.next());
            }
        }
        if sys == TS {
            let mut c = mk(sys, F_MQ, 0, p.cfg.clone());
            c.teams = vec![vec![a], vec![b]];
            run.parallel_ask(&c, r.next());
        }
    }
}
