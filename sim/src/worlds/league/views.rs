//! C14-C17: what nodes answer between the events of a league - forecasts and intervals, match
//! quality, ratings moved to another system and back, refusals of damaged reports - computed from
//! whatever mixture of current and outdated ratings the faults have left the node with.
use super::*;

/// a node's answer after an event; `old` is its last checkpoint, from which some queries are served
pub fn after(run: &mut Run, p: &LeaguePlan, nd: &Node, old: &[V], n: u8, e: &Entry) {
    let mut r = Rng::new(hash(&[p.seed, n as u64, e.uid as u64, 1417]));
    let picked: Vec<usize> = match &e.k {
        Kind::Match { a, b, .. } => vec![*a as usize, *b as usize],
        Kind::Team { teams, .. } => teams.iter().flatten().map(|k| *k as usize).collect(),
        Kind::Join { k, .. } => vec![*k as usize],
        Kind::Close => vec![],
    };
    match p.prop {
        14 => forecasts(run, p, nd, old, &mut r, &picked),
        15 => migrate(run, p, nd, old, &mut r, &picked),
        16 => quality(run, p, nd, old, &mut r),
        11 if p.sys == DWZ_ => newcomer(run, nd, &mut r, &picked),
        17 => damaged(run, p, nd, &mut r, e, &picked),
        20 => parallel::forecasts(run, p, nd, old, &mut r, &picked),
        _ => {}
    }
}

fn rating(run: &mut Run, nd: &Node, old: &[V], r: &mut Rng, k: usize) -> V {
    if r.chance(0.25) {
        run.st.add("fault:query served from an outdated copy", 1);
        old[k]
    } else {
        nd.st[k]
    }
}
/// two players for a query
pub fn two(run: &mut Run, p: &LeaguePlan, nd: &Node, old: &[V], r: &mut Rng, picked: &[usize]) -> Option<(V, V)> {
    let np = nd.st.len();
    let a = if !picked.is_empty() && r.chance(0.7) { *r.pick(picked) } else { r.below(np) };
    let b = (a + 1 + r.below(np.max(2) - 1)) % np;
    let (va, vb) = (rating(run, nd, old, r, a), rating(run, nd, old, r, b));
    if ordinary(p.sys, &va) && ordinary(p.sys, &vb) {
        Some((va, vb))
    } else {
        None
    }
}
pub fn some_teams(run: &mut Run, p: &LeaguePlan, nd: &Node, old: &[V], r: &mut Rng, max: usize, most: usize) -> Option<Vec<Vec<V>>> {
    let mut ids: Vec<usize> = (0..nd.st.len()).collect();
    r.shuffle(&mut ids);
    let nt = r.int(2, max);
    // now and then whole squads: a forecast needs no league to be played, so players may appear twice
    let squads = most > 12 && r.chance(0.25);
    let per = if squads { r.int(5, 14) } else { r.int(1, 4) };
    let most = if squads { 80 } else { most };
    let mut out: Vec<Vec<V>> = vec![];
    let mut total = 0;
    for _ in 0..nt {
        let k = if r.chance(0.5) { per } else { r.int(1, 4) };
        let mut t = vec![];
        for _ in 0..k {
            if total == most {
                break;
            }
            let i = if squads { r.below(nd.st.len()) } else if let Some(i) = ids.pop() { i } else { break };
            let v = rating(run, nd, old, r, i);
            if !ordinary(p.sys, &v) {
                return None;
            }
            t.push(v);
            total += 1;
        }
        if !t.is_empty() {
            out.push(t);
        }
    }
    if out.len() < 2 {
        None
    } else {
        Some(out)
    }
}

/// two or three large teams of about the same size; players may appear more than once
fn squads(run: &mut Run, p: &LeaguePlan, nd: &Node, old: &[V], r: &mut Rng) -> Option<Vec<Vec<V>>> {
    let size = if r.chance(0.3) { r.int(12, 40) } else { r.int(4, 14) };
    let mut out = vec![];
    for _ in 0..r.int(2, 3) {
        let n = size - r.below(2);
        let mut t = vec![];
        for _ in 0..n {
            let i = r.below(nd.st.len());
            let v = rating(run, nd, old, r, i);
            if !ordinary(p.sys, &v) {
                return None;
            }
            t.push(v);
        }
        out.push(t);
    }
    Some(out)
}

// ------------------------------------------------------------------ C14

fn better(sys: usize, v: &V, d: f64) -> V {
    let mut v = *v;
    v[0] += if sys == INGO { -d } else { d };
    v
}

fn forecasts(run: &mut Run, p: &LeaguePlan, nd: &Node, old: &[V], r: &mut Rng, picked: &[usize]) {
    let sys = p.sys;
    let tl = if sys == TS { 1e-6 } else { 1e-9 };
    let Some((a, b)) = two(run, p, nd, old, r, picked) else { return };
    let mut x = gen::xfor(sys, r);
    let step = if sys == TS || sys == WL { r.logint(2000) as f64 / 100.0 } else { r.logint(2000) as f64 / 2.0 };
    let up = better(sys, &a, step);
    if sys == EGF_ && !(gen::egf_ok(x[0], a[0], b[0]) && gen::egf_ok(x[0], up[0], b[0]) && gen::egf_ok(-x[0], b[0], a[0])) {
        x[0] = 0.0;
        if up[0] > 2990.0 {
            return;
        }
    }
    let side = side_cfg(sys, &p.cfg, &x);
    let via = r.below(2) as u8;
    let ex = |a: &V, b: &V| {
        let mut c = mk(sys, F_EXP, via, side.clone());
        c.teams = vec![vec![*a], vec![*b]];
        c
    };
    let c = ex(&a, &b);
    let got = run.forecast(&c);
    let want = model::expect(sys, &side, &a, &b);
    sides(run, &c, &got, &[want, 1.0 - want], tl);
    let c2 = ex(&up, &b);
    let more = run.forecast(&c2);
    rises(run, &c, &c2, got.as_ref().map(|g| g[0]), more.as_ref().map(|g| g[0]), tl);
    // a list of opponents
    let k = r.int(1, 6);
    let mut res = vec![];
    for _ in 0..k {
        if let Some((_, v)) = two(run, p, nd, old, r, &[]) {
            let mut y = if via == 1 { x } else { gen::xfor(sys, r) };
            if sys == EGF_ && !gen::egf_ok(y[0], a[0], v[0]) {
                if via == 1 {
                    continue;
                }
                y[0] = 0.0;
            }
            res.push(Res { v, o: 2, x: y });
        }
    }
    let mut c = mk(sys, F_EXPP, via, if via == 0 { p.cfg.clone() } else { side.clone() });
    c.teams = vec![vec![a]];
    c.res = res.clone();
    match run.forecast(&c) {
        None => run.fail("a forecast panicked", show(&c)),
        Some(g) => {
            if g.len() != res.len() {
                return run.fail("forecasts lost or added", format!("{} -> {g:?}", show(&c)));
            }
            for (g, y) in g.iter().zip(&res) {
                let s = if via == 0 { side_cfg(sys, &p.cfg, &y.x) } else { side.clone() };
                let want = model::expect(sys, &s, &a, &y.v);
                if sys == BOOST && via == 0 && y.x[0] == 0.0 && (g - want).abs() > tl && is_known("K1", "C14") {
                    // exactly the forecast for White where the game is played as Black
                    let white = model::expect(sys, &side_cfg(sys, &p.cfg, &[1.0, 0.0, 0.0]), &a, &y.v);
                    if (g - white).abs() <= tl {
                        run.st.add("known:K1", 1);
                        continue;
                    }
                }
                probability(run, &c, *g, want, tl);
            }
        }
    }
    // intervals and ranks shown beside the rating
    if matches!(sys, GLICKO | GLICKO2 | BOOST | STICKO) {
        let mut c = mk(sys, F_CONF, 0, p.cfg.clone());
        c.teams = vec![vec![a]];
        if let Some(g) = run.forecast(&c) {
            let (lo, hi) = (a[0] - 1.96 * a[1], a[0] + 1.96 * a[1]);
            if g.len() != 2 || !((g[0] - lo).abs() <= 1e-7 && (g[1] - hi).abs() <= 1e-7) {
                run.fail("a confidence interval is not the rating plus or minus 1.96 deviations", format!("{} -> {g:?}", show(&c)));
            }
        } else {
            run.fail("a confidence interval panicked", show(&c));
        }
    }
    if sys == TS {
        let mut c = mk(sys, F_RANK, 0, p.cfg.clone());
        c.teams = vec![vec![a]];
        match run.forecast(&c) {
            Some(g) if g.len() == 1 && (g[0] - (a[0] - 3.0 * a[1])).abs() <= 1e-9 * (1.0 + a[0].abs()) => {}
            g => run.fail("the conservative rank is not the rating minus three uncertainties", format!("{} -> {g:?}", show(&c))),
        }
    }
    if (sys == TS || sys == WL) && run.viol.is_none() {
        let Some(teams) = some_teams(run, p, nd, old, r, 6, 16) else { return };
        let ask = |f: u8, t: &[Vec<V>]| {
            let mut c = mk(sys, f, via, p.cfg.clone());
            c.teams = t.to_vec();
            c
        };
        let i = r.below(teams.len());
        let mut lift = teams.clone();
        let j = r.below(lift[i].len());
        lift[i][j] = better(sys, &lift[i][j], step);
        let f = if teams.len() == 2 && r.chance(0.5) { F_EXPTWO } else { F_EXPMULTI };
        let (c, c2) = (ask(f, &teams), ask(f, &lift));
        let got = run.forecast(&c);
        let more = run.forecast(&c2);
        let want = model::expect_teams(sys, &p.cfg, &teams);
        if sys == WL && model::exponent(&p.cfg, &teams).max(model::exponent(&p.cfg, &lift)) > 600.0 {
            return;
        }
        sides(run, &c, &got, &want, tl);
        rises(run, &c, &c2, got.as_ref().map(|g| g[i]), more.as_ref().map(|g| g[i]), tl);
    }
}

fn probability(run: &mut Run, c: &Call, g: f64, want: f64, tl: f64) {
    if !g.is_finite() || (c.sys != INGO && !(0.0..=1.0).contains(&g)) {
        return run.fail("a forecast is not a probability", format!("{} -> {g}", show(c)));
    }
    if !((g - want).abs() <= tl * (1.0 + want.abs())) {
        run.fail("a forecast differs from the win probability of the rating system", format!("{} -> {g}, model {want}", show(c)));
    }
}
fn sides(run: &mut Run, c: &Call, got: &Option<Vec<f64>>, want: &[f64], tl: f64) {
    let Some(g) = got else {
        return run.fail("a forecast panicked", show(c));
    };
    if g.len() != want.len() {
        return run.fail("forecasts lost or added", format!("{} -> {g:?}", show(c)));
    }
    for (g, w) in g.iter().zip(want) {
        probability(run, c, *g, *w, tl);
    }
    let s: f64 = g.iter().sum();
    if !((s - 1.0).abs() <= 1e-9) {
        run.fail("forecasts of the sides do not add up to one", format!("{} -> {g:?}", show(c)));
    }
}
fn rises(run: &mut Run, c: &Call, c2: &Call, a: Option<f64>, b: Option<f64>, tl: f64) {
    if let (Some(a), Some(b)) = (a, b) {
        if !(b >= a - tl) {
            run.fail("a stronger side has a lower forecast", format!("{} -> {a}\n {} -> {b}", show(c), show(c2)));
        }
    }
}

// ------------------------------------------------------------------ C15

/// the conversions the library offers: number, from, to
pub const EDGES: [(usize, usize, usize); NCONV] = [
    (0, INGO, ELO), (1, DWZ_, ELO), (2, USCF_, ELO), (3, FIFA, ELO), (4, GLICKO2, GLICKO), (5, BOOST, GLICKO), (6, STICKO, GLICKO),
    (7, GLICKO, GLICKO2), (8, BOOST, GLICKO2), (9, STICKO, GLICKO2), (10, GLICKO, BOOST), (11, GLICKO2, BOOST), (12, STICKO, BOOST),
    (13, GLICKO, STICKO), (14, GLICKO2, STICKO), (15, BOOST, STICKO), (16, WL, TS), (17, TS, WL), (18, ELO, FIFA), (19, ELO, USCF_),
    (20, ELO, DWZ_), (21, ELO, INGO),
];

pub fn convert_once(run: &mut Run, n: usize, from: usize, v: &V) -> Option<V> {
    let mut c = mk(from, F_CONV, 0, vec![]);
    c.teams = vec![vec![*v]];
    c.n = n;
    let o = exec(&c, &Slots(vec![]));
    run.st.add("library calls", 1);
    for b in &o.bits {
        run.st.fold(*b);
    }
    if o.st != 0 || o.bits.len() != 4 {
        return None;
    }
    Some([f64::from_bits(o.bits[1]), f64::from_bits(o.bits[2]), f64::from_bits(o.bits[3])])
}

/// the league moves to another rating system, perhaps over several others, and is rolled back
fn migrate(run: &mut Run, p: &LeaguePlan, nd: &Node, old: &[V], r: &mut Rng, picked: &[usize]) {
    let sys = p.sys;
    let Some((mut a, mut b)) = two(run, p, nd, old, r, picked) else { return };
    if r.chance(0.15) {
        // close to each other
        b = a;
        b[0] += *r.pick(&[0.0, 1e-6, -1e-6, 0.01, -0.5]);
    }
    let (a0, b0) = (a, b);
    let mut cur = sys;
    let mut hops = if r.chance(0.05) { r.int(50, 400) } else { r.int(1, 6) };
    let mut path = vec![];
    let mut left = false;
    loop {
        let opts: Vec<&(usize, usize, usize)> = EDGES.iter().filter(|e| e.1 == cur && (hops > 1 || e.2 == sys)).collect();
        let e = if opts.is_empty() {
            **r.pick(&EDGES.iter().filter(|e| e.1 == cur).collect::<Vec<_>>())
        } else {
            **r.pick(&opts)
        };
        let (x, y) = (convert_once(run, e.0, cur, &a), convert_once(run, e.0, cur, &b));
        path.push(NAMES[e.2]);
        let tail = |p: &[&str]| if p.len() > 8 { format!("{} steps, the last {:?}", p.len(), &p[p.len() - 6..]) } else { format!("{p:?}") };
        let ctx = format!("{} {a0:?} and {b0:?}, moved to {}", NAMES[sys], tail(&path));
        let (Some(x), Some(y)) = (x, y) else {
            return run.fail("a conversion panicked", ctx);
        };
        for (v, w) in [(a, x), (b, y)] {
            let (wr, wd) = model::convert(cur, e.2, &v);
            let ok = (w[0] - wr).abs() <= 1e-9 * (1.0 + wr.abs()) && wd.is_none_or(|d| w[1] == d);
            if !ok {
                return run.fail("a converted rating differs from the conversion formula", format!("{ctx}: {} {v:?} became {w:?}, expected {wr} {wd:?}", NAMES[cur]));
            }
        }
        // the order of the two players is the same in every system
        let (s0, s1) = (strength(sys, &a0) - strength(sys, &b0), strength(e.2, &x) - strength(e.2, &y));
        let slack = 1e-9 * (1.0 + a0[0].abs() + b0[0].abs());
        if (s0 > slack && s1 < -slack) || (s0 < -slack && s1 > slack) || (s0 == 0.0 && s1 != 0.0) || (s0.abs() > 1e-3 && s1.abs() < 1e-6) {
            return run.fail("a conversion changed the order of two players", format!("{ctx}: they became {x:?} and {y:?}"));
        }
        if e.2 != sys {
            left = true;
        }
        (a, b) = (x, y);
        cur = e.2;
        hops = hops.saturating_sub(1);
        if hops == 0 && cur == sys {
            break;
        }
        if path.len() > 1000 {
            return;
        }
    }
    run.st.add("fault:migration rolled back", left as u64);
    run.st.max("conversions in a row", path.len() as u64);
    for (v, w) in [(a0, a), (b0, b)] {
        let tl = 1e-9 * (1.0 + v[0].abs());
        let dev = matches!(sys, GLICKO | GLICKO2 | BOOST | STICKO | TS | WL);
        if !((v[0] - w[0]).abs() <= tl) || (dev && v[1] != w[1]) {
            let tail = if path.len() > 8 { format!("{} steps, the last {:?}", path.len(), &path[path.len() - 6..]) } else { format!("{path:?}") };
            return run.fail("a rating moved to other systems and back is not the same", format!("{} {v:?} moved to {tail} became {w:?}", NAMES[sys]));
        }
    }
}

// ------------------------------------------------------------------ C16

fn quality(run: &mut Run, p: &LeaguePlan, nd: &Node, old: &[V], r: &mut Rng) {
    let asked = if r.chance(0.07) {
        squads(run, p, nd, old, r)
    } else if r.chance(0.02) {
        some_teams(run, p, nd, old, r, 7, 10)
    } else {
        some_teams(run, p, nd, old, r, 5, 10)
    };
    let Some(teams) = asked else { return };
    let mut w: Option<Vec<Vec<f64>>> = None;
    if r.chance(0.4) {
        w = Some(
            teams
                .iter()
                .map(|t| {
                    let mut w: Vec<f64> = t.iter().map(|_| if r.chance(0.3) { 1.0 } else if r.chance(0.1) { 0.0 } else { r.range(0.05, 1.5) }).collect();
                    if w.iter().all(|x| *x == 0.0) {
                        w[0] = 1.0;
                    }
                    w
                })
                .collect(),
        );
    }
    // a matchmaker may take the game for one of more or less skill than the league does
    let mut cfg = p.cfg.clone();
    if r.chance(0.4) {
        cfg[1] *= (2.0f64).powf(r.range(-6.0, 3.0));
        if r.chance(0.5) {
            if let Some(w) = &mut w {
                let f = (2.0f64).powf(r.range(-5.0, 0.0));
                w.iter_mut().flatten().for_each(|x| *x *= f);
            }
        }
    }
    let ask = |f: u8, t: &[Vec<V>], w: &Option<Vec<Vec<f64>>>| {
        let mut c = mk(TS, f, 0, cfg.clone());
        c.teams = t.to_vec();
        c.weights = w.clone();
        c
    };
    let want = model::quality(&cfg, &teams, w.as_deref());
    let check = |run: &mut Run, c: Call, how: &str| match run.forecast(&c) {
        None => run.fail("match quality panicked", show(&c)),
        Some(g) => {
            let g = if g.len() == 1 { g[0] } else { f64::NAN };
            if !(0.0..=1.0 + 1e-9).contains(&g) {
                run.fail("match quality is not a probability", format!("{} -> {g}", show(&c)));
            } else if !((g - want).abs() <= 1e-9 + 1e-6 * want) {
                run.fail("match quality differs from the probability of a draw", format!("{how}: {} -> {g}, expected {want}", show(&c)));
            }
        }
    };
    check(run, ask(F_MQMULTI, &teams, &w), "as reported");
    // teams and players in another order
    let mut ord: Vec<usize> = (0..teams.len()).collect();
    r.shuffle(&mut ord);
    let mut t2 = vec![];
    let mut w2 = vec![];
    for i in &ord {
        let mut o: Vec<usize> = (0..teams[*i].len()).collect();
        r.shuffle(&mut o);
        t2.push(o.iter().map(|j| teams[*i][*j]).collect::<Vec<V>>());
        w2.push(o.iter().map(|j| w.as_ref().map_or(1.0, |w| w[*i][*j])).collect::<Vec<f64>>());
    }
    run.st.add("fault:teams reported in another order", 1);
    let ww = if w.is_some() || r.chance(0.5) { Some(w2) } else { None };
    check(run, ask(F_MQMULTI, &t2, &ww), "reported in another order");
    if w.is_none() && teams.len() == 2 {
        check(run, ask(F_MQTWO, &teams, &None), "as two teams");
        check(run, ask(F_MQTWO, &t2, &None), "as two teams in the other order");
        if teams.iter().all(|t| t.len() == 1) {
            check(run, ask(F_MQ, &teams, &None), "one on one");
            check(run, ask(F_MQ, &t2, &None), "one on one, the other way round");
        }
    }
    // one player against a list of opponents
    let me = teams[0][0];
    let mut c = mk(TS, F_MQP, 0, cfg.clone());
    c.teams = vec![vec![me]];
    c.res = teams[1..].iter().flatten().map(|v| Res { v: *v, o: 2, x: [0.0; 3] }).collect();
    match run.forecast(&c) {
        Some(g) if g.len() == c.res.len() => {
            for (g, x) in g.iter().zip(&c.res) {
                let want = model::quality(&cfg, &[vec![me], vec![x.v]], None);
                if !((g - want).abs() <= 1e-9 + 1e-6 * want) {
                    return run.fail("match quality differs from the probability of a draw", format!("{} -> {g}, expected {want}", show(&c)));
                }
            }
        }
        g => run.fail("match qualities lost or added", format!("{} -> {g:?}", show(&c))),
    }
}

// ------------------------------------------------------------------ C17

fn damaged(run: &mut Run, p: &LeaguePlan, nd: &Node, r: &mut Rng, e: &Entry, picked: &[usize]) {
    if p.sys == DWZ_ {
        return newcomer(run, nd, r, picked);
    }
    let Kind::Team { teams, ranks, w, .. } = &e.k else { return };
    if teams.len() < 2 || teams.iter().any(|t| t.is_empty()) {
        return;
    }
    let tv: Vec<Vec<V>> = teams.iter().map(|t| t.iter().map(|k| nd.st[*k as usize]).collect()).collect();
    if !tv.iter().flatten().all(|v| ordinary(TS, v)) {
        return;
    }
    let mut w: Vec<Vec<f64>> = w.clone().unwrap_or_else(|| tv.iter().map(|t| vec![1.0; t.len()]).collect());
    // valid, but unusual
    if r.chance(0.3) {
        let i = r.below(w.len());
        let j = r.below(w[i].len());
        if w[i].len() > 1 {
            w[i][j] = *r.pick(&[0.0, -0.0, 1e-12, 2.0, 1.0]);
            let k = (j + 1) % w[i].len();
            if w[i].iter().all(|x| *x < 0.05) {
                w[i][k] = 1.0;
            }
        } else {
            w[i][j] = *r.pick(&[0.01, 2.0, 1.0]);
        }
    }
    let hits = *r.pick(&[0, 1, 1, 1, 2]);
    for _ in 0..hits {
        if w.is_empty() {
            break;
        }
        let i = r.below(w.len());
        match r.below(7) {
            0 => {
                w.remove(i);
            }
            1 => {
                let t = w[i].clone();
                w.insert(i, t);
            }
            2 => w[i] = vec![],
            3 => {
                w[i].pop();
            }
            4 => w[i].push(*r.pick(&[0.0, 1.0])),
            _ => {
                if !w[i].is_empty() {
                    let j = r.below(w[i].len());
                    w[i][j] = *r.pick(&[-1.0, -0.25, -1e-9, -1e-300, -5e-324, -1e9, f64::NEG_INFINITY]);
                }
            }
        }
    }
    // what is wrong with the weights, if anything
    let mut wrong: Vec<String> = vec![];
    if w.len() != tv.len() {
        wrong.push("TeamAmount The amount of teams is invalid.".into());
    }
    for (i, (t, x)) in tv.iter().zip(&w).enumerate() {
        if t.len() != x.len() {
            wrong.push(format!("PlayerAmount {{ team: {i} }} The amount of players in team {i} is invalid."));
        }
    }
    for (i, x) in w.iter().enumerate() {
        for (j, x) in x.iter().enumerate() {
            if *x < 0.0 {
                wrong.push(format!("Weight {{ team: {i}, player: {j} }} The weight for player {j} in team {i} is invalid"));
            }
        }
    }
    if !wrong.is_empty() {
        run.st.add("fault:damaged report", 1);
    }
    for f in [F_MULTI, F_MQMULTI] {
        if f == F_MQMULTI && (tv.len() > 5 || tv.iter().map(|t| t.len()).sum::<usize>() > 12) {
            continue;
        }
        let mut c = mk(TS, f, 0, p.cfg.clone());
        c.teams = tv.clone();
        c.ranks = ranks.clone();
        c.weights = Some(w.clone());
        refusal(run, &c, &wrong);
    }
}
fn refusal(run: &mut Run, c: &Call, wrong: &[String]) {
    let o = exec(c, &Slots(vec![]));
    run.st.add("library calls", 1);
    for b in &o.bits {
        run.st.fold(*b);
    }
    let text = || -> String { o.bits.iter().map(|b| *b as u8 as char).collect() };
    match (o.st, wrong.is_empty()) {
        (1, true) => run.fail("a valid report was refused", format!("{}: {}", show(c), text())),
        (1, false) => {
            if !wrong.contains(&text()) {
                run.fail("a damaged report was refused for another reason than it has", format!("{}: {:?}, but {wrong:?}", show(c), text()));
            }
        }
        (0, false) => run.fail("a damaged report was accepted", format!("{}: {wrong:?}", show(c))),
        (2, false) => run.fail("a damaged report caused a panic", format!("{}: {wrong:?}", show(c))),
        _ => {}
    }
}

/// an unrated player asks for a first DWZ after every game that has arrived
fn newcomer(run: &mut Run, nd: &Node, r: &mut Rng, picked: &[usize]) {
    for k in picked {
        let mut rs = results(&nd.queue[*k], &nd.st);
        if rs.is_empty() || rs.iter().any(|x| !ordinary(DWZ_, &x.v)) {
            continue;
        }
        if r.chance(0.5) {
            // one-sided scores, where the rules draw the line
            let o = *r.pick(&[0, 1]);
            for x in &mut rs {
                x.o = o;
            }
            if r.chance(0.5) {
                let i = r.below(rs.len());
                rs[i].o = *r.pick(&[2, 1 - o]);
            }
        }
        let mut c = mk(DWZ_, F_FIRST, 0, vec![]);
        c.teams = vec![vec![nd.st[*k]]];
        c.n = nd.st[*k][2] as usize;
        c.res = rs.clone();
        let mut wrong = vec![];
        if rs.len() < 5 {
            wrong.push("NotEnoughGames");
            run.st.add("fault:too few games", 1);
        }
        if rs.iter().all(|x| x.o == 0) || rs.iter().all(|x| x.o == 1) {
            wrong.push("InvalidWinRate");
            run.st.add("fault:one-sided score", 1);
        }
        let o = exec(&c, &Slots(vec![]));
        run.st.add("library calls", 1);
        for b in &o.bits {
            run.st.fold(*b);
        }
        let text: String = if o.st == 1 { o.bits.iter().map(|b| *b as u8 as char).collect() } else { String::new() };
        match (o.st, wrong.is_empty()) {
            (2, _) => run.fail("a request for a first DWZ caused a panic", show(&c)),
            (1, true) => run.fail("a first DWZ was refused without reason", format!("{}: {text}", show(&c))),
            (0, false) => run.fail("a first DWZ was given in spite of the rules", format!("{}: {wrong:?}", show(&c))),
            (1, false) if !wrong.iter().any(|w| text.starts_with(w)) => {
                run.fail("a first DWZ was refused for another reason than it has", format!("{}: {text}, but {wrong:?}", show(&c)));
            }
            (0, true) if run.prop == 11 => {
                let g = parse(DWZ_, &o.bits)[0][0];
                let near = |m: Option<V>| m.is_some_and(|m| (m[0] - g[0]).abs() <= 1e-7 * (1.0 + m[0].abs()) && m[1] == g[1] && m[2] == g[2]);
                let m = model::first_dwz(c.n, &rs, false);
                if !near(m) && !near(model::first_dwz(c.n, &rs, true)) {
                    run.fail("a first DWZ differs from the published table", format!("{} -> {g:?}, model {m:?}", show(&c)));
                }
            }
            _ => {}
        }
        if run.viol.is_some() {
            return;
        }
    }
}
