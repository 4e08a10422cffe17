//! C19: players join a league - new, known by rating, imported - through whatever way of making a
//! rating a node uses, again after a crash through another; everybody gets the documented player.
use super::*;

/// what is known about a newcomer
pub const NOTHING: u8 = 0;
pub const RATING: u8 = 1;
pub const BOTH: u8 = 2;
pub const ALL: u8 = 3;
pub const IMPORT: u8 = 4;
/// DWZ with an index but no age
pub const NO_AGE: u8 = 5;
pub const SPREAD: u8 = 6;

const WITH_DEV: [usize; 6] = [GLICKO, GLICKO2, BOOST, STICKO, TS, WL];

pub fn arrival(sys: usize, r: &mut Rng, k: u16) -> Kind {
    let mut give = *r.pick(&[NOTHING, NOTHING, NOTHING, RATING, BOTH, ALL, IMPORT, NO_AGE, SPREAD]);
    if give == NO_AGE && sys != DWZ_ {
        give = NOTHING;
    }
    let age = if r.chance(0.3) { 26 } else { gen::age(r) as u16 };
    let mut v = gen::rating(sys, r);
    if r.chance(0.1) {
        v[0] = *r.pick(&[0.0, -0.0, 1.0, -50.0, 100.0, 2000.0, 1e-3, 123456.0]);
    }
    let mut n = 0;
    if give == IMPORT {
        let e: Vec<_> = views::EDGES.iter().filter(|e| e.2 == sys).collect();
        if e.is_empty() {
            give = RATING;
        } else {
            let e = **r.pick(&e);
            n = e.0 as u8;
            v = gen::rating(e.1, r);
            if e.1 == ELO && r.chance(0.2) {
                v[0] = *r.pick(&[2000.0, 2000.000001, 1999.99, 2001.0, 2060.0]);
            }
        }
    }
    Kind::Join { k, age, give, v, n }
}

/// the rating the documentation promises
pub fn documented(sys: usize, age: usize, give: u8, v: &V, n: usize) -> V {
    let third = 25.0 / 3.0;
    let adult = 26.0;
    let fresh = |age: f64| -> V {
        match sys {
            ELO | FIFA => [1000.0, 0., 0.],
            GLICKO | BOOST | STICKO => [1500.0, 350.0, 0.],
            GLICKO2 => [1500.0, 350.0, 0.06],
            TS | WL => [25.0, third, 0.],
            USCF_ => [(50.0 * age).clamp(100.0, 1300.0), 0., 0.],
            EGF_ => [0.0; 3],
            DWZ_ => [1000.0, 1.0, age],
            _ => [230.0, age, 0.],
        }
    };
    let mut w = fresh(adult);
    let dev = WITH_DEV.contains(&sys);
    match give {
        NOTHING => fresh(age as f64),
        RATING => {
            w[0] = v[0];
            w
        }
        BOTH => {
            w[0] = v[0];
            if dev {
                w[1] = v[1];
            }
            w
        }
        SPREAD => {
            if dev {
                w[1] = v[1];
            }
            w
        }
        NO_AGE => [v[0], v[1], adult],
        IMPORT => {
            let e = views::EDGES[n];
            let (r, d) = model::convert(e.1, e.2, v);
            w[0] = r;
            if let Some(d) = d {
                w[1] = d;
            }
            match sys {
                // as many games as the federation credits a foreign rating with
                USCF_ => w[1] = if v[0] > 2000.0 { 10.0 } else { 5.0 },
                DWZ_ => w[1] = 6.0,
                _ => {}
            }
            w
        }
        _ => *v,
    }
}

/// the ways a node has to make this rating
fn doors(sys: usize, age: usize, give: u8) -> Vec<u8> {
    match give {
        NOTHING => {
            let adult = match sys {
                USCF_ => age >= 26,
                DWZ_ | INGO => age == 26,
                _ => true,
            };
            if adult {
                vec![0, 1, 2]
            } else {
                vec![0]
            }
        }
        RATING => match sys {
            ELO | FIFA | EGF_ => vec![3, 5],
            INGO => vec![3, 6],
            _ => vec![3],
        },
        BOTH => match sys {
            GLICKO | BOOST | STICKO | TS | WL => vec![4, 5],
            _ => vec![4],
        },
        NO_AGE => vec![6],
        SPREAD => vec![8],
        _ => vec![5, 7],
    }
}

fn ask(run: &mut Run, c: &Call) -> Option<Vec<u64>> {
    let o = exec(c, &Slots(vec![]));
    run.st.add("library calls", 1);
    for b in &o.bits {
        run.st.fold(*b);
    }
    if o.st == 0 {
        Some(o.bits)
    } else {
        None
    }
}
fn near(x: f64, y: f64) -> bool {
    x == y || (x - y).abs() <= 1e-12 * (1.0 + y.abs())
}

#[allow(clippy::too_many_arguments)]
pub fn arrive(run: &mut Run, p: &LeaguePlan, at: (u8, u32, u32), want: &V, age: usize, give: u8, v: &V, n: usize) {
    let sys = p.sys;
    let (node, uid, nth) = at;
    run.st.add("newcomers", 1);
    let (bits, how) = if give == IMPORT {
        let e = views::EDGES[n];
        let w = views::convert_once(run, n, e.1, v);
        (w.map(|w| w.iter().map(|x| x.to_bits()).collect::<Vec<u64>>()), format!("imported from {}", NAMES[e.1]))
    } else {
        let ds = doors(sys, age, give);
        let d = ds[hash(&[p.seed, node as u64, uid as u64, nth as u64, 19]) as usize % ds.len()];
        let mut c = mk(sys, F_JOIN, 0, vec![]);
        c.teams = vec![vec![*v]];
        c.n = age;
        c.o = d;
        run.st.add(&format!("joined by {}", DOORS[d as usize]), 1);
        (ask(run, &c), format!("made by {}", DOORS[d as usize]))
    };
    let ctx = format!("{}, node {node}, event {uid}: a newcomer of age {age}, known: {v:?} ({}), {how}", NAMES[sys], ["nothing", "rating", "rating and deviation", "everything", "rating elsewhere", "all but the age", "deviation"][give as usize]);
    let Some(b) = bits else {
        return run.fail("a rating could not be made", ctx);
    };
    let got: Vec<f64> = b.iter().map(|x| f64::from_bits(*x)).collect();
    for f in 0..WIDTH[sys] {
        if !near(got[f], want[f]) {
            return run.fail("a newcomer is not the documented one", format!("{ctx}: {:?}, documented {:?}", &got[..WIDTH[sys]], &want[..WIDTH[sys]]));
        }
    }
    if give != IMPORT {
        accessors(run, sys, &got, &ctx);
    }
}

fn accessors(run: &mut Run, sys: usize, got: &[f64], ctx: &str) {
    let dev = WITH_DEV.contains(&sys);
    let ok = got.len() == if dev { 5 } else { 4 } && got[3].to_bits() == got[0].to_bits() && (!dev || got[4].to_bits() == got[1].to_bits());
    if !ok {
        run.fail("the generic accessors do not show the rating", format!("{ctx}: fields {:?}, shown {:?}", &got[..WIDTH[sys]], &got[3..]));
    }
}

/// the generic view of a rating somebody has reached
pub fn read(run: &mut Run, p: &LeaguePlan, k: u16, v: &V) {
    let mut c = mk(p.sys, F_JOIN, 0, vec![]);
    c.teams = vec![vec![*v]];
    c.o = 7;
    match ask(run, &c) {
        Some(b) => {
            let got: Vec<f64> = b.iter().map(|x| f64::from_bits(*x)).collect();
            accessors(run, p.sys, &got, &format!("{} player {k}", NAMES[p.sys]));
        }
        None => run.fail("a rating could not be made", format!("{} player {k}: {v:?}", NAMES[p.sys])),
    }
}

/// a node that starts, or starts again, with the config nobody touched
pub fn settings(run: &mut Run, p: &LeaguePlan, n: u8, nth: u32) {
    let sys = p.sys;
    let h = hash(&[p.seed, n as u64, nth as u64, 91]);
    let mut c = mk(sys, F_CFG, 0, vec![]);
    c.n = (h % 2) as usize;
    let ctx = format!("{} node {n}, config by {}", NAMES[sys], ["new", "Default"][c.n]);
    let want = default_cfg(sys);
    match ask(run, &c) {
        None => run.fail("a config could not be made", ctx),
        Some(b) => {
            let got: Vec<f64> = b.iter().map(|x| f64::from_bits(*x)).collect();
            if got.len() != want.len() || got.iter().zip(&want).any(|(x, y)| !near(*x, *y)) {
                run.fail("a config is not the documented one", format!("{ctx}: {got:?}, documented {want:?}"));
            }
        }
    }
    // outcomes and ranks are what they were said to be
    let rank = match h >> 8 & 3 {
        0 => (h >> 16) as usize % 5,
        1 => (h >> 16) as usize % 1000,
        2 => (h >> 16) as usize,
        _ => usize::MAX - (h >> 16) as usize % 3,
    };
    let mut c = mk(sys, F_OUTCOME, 0, vec![]);
    c.o = (h >> 10) as u8 % 3;
    c.n = rank;
    let r = rank as u64;
    let want = vec![
        pts(c.o).to_bits(),
        r,
        r,
        r,
        r,
        1,
        if rank > rank / 2 { 2 } else { 1 },
        if rank == usize::MAX { 1 } else { 0 },
    ];
    match ask(run, &c) {
        Some(b) if b == want => {}
        b => run.fail("an outcome or rank is not what was reported", format!("outcome {:?}, rank {rank}: {b:?}, reported {want:?}", oc(c.o))),
    }
}
