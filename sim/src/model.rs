//! Independent executable model of the published rating algorithms, written from the papers
//! and rule books (variances instead of deviations, bisection instead of Illinois, exact error
//! function, closed-form message passing), not from the library's code.
use crate::api::*;
use std::f64::consts::PI;

const L10: f64 = std::f64::consts::LN_10;

fn logistic(x: f64) -> f64 {
    if x >= 0.0 {
        1.0 / (1.0 + (-x).exp())
    } else {
        let e = x.exp();
        e / (1.0 + e)
    }
}
/// expectation on the 400-point scale
fn chess(gap: f64, scale: f64) -> f64 {
    logistic(gap * L10 / scale)
}

// ------------------------------------------------------------------ normal distribution

/// exp(x^2) erfc(x), x >= 0
fn erfcx(x: f64) -> f64 {
    if x < 2.2 {
        // erf by its Maclaurin series
        let mut term = x;
        let mut s = x;
        let mut n = 0.0;
        while term.abs() > 1e-18 * s.abs() && n < 200.0 {
            n += 1.0;
            term *= -x * x / n;
            s += term / (2.0 * n + 1.0);
        }
        (1.0 - 2.0 / PI.sqrt() * s) * (x * x).exp()
    } else {
        // continued fraction, evaluated bottom-up
        let mut f = 0.0;
        for k in (1..=120).rev() {
            f = (k as f64) / 2.0 / (x + f);
        }
        1.0 / (PI.sqrt() * (x + f))
    }
}
/// which solution of the Glicko-2 volatility equation to take, in ascending order (0: bisection)
pub static ROOT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// use the rational approximation of Numerical Recipes (relative error below 1.2e-7) instead of the
/// exact function: where the two disagree, the published formulas are numerically unstable
pub static COARSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// largest number of standard deviations by which an outcome surprised the model (bits of an f64)
pub static SURPRISE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn coarse() -> bool {
    COARSE.load(std::sync::atomic::Ordering::Relaxed)
}
fn surprise(t: f64) {
    let old = f64::from_bits(SURPRISE.load(std::sync::atomic::Ordering::Relaxed));
    if !(t <= old) {
        SURPRISE.store(t.to_bits(), std::sync::atomic::Ordering::Relaxed);
    }
}
fn erfc_nr(x: f64) -> f64 {
    let z = x.abs();
    let t = 1.0 / (1.0 + 0.5 * z);
    let k = [-1.26551223, 1.00002368, 0.37409196, 0.09678418, -0.18628806, 0.27886807, -1.13520398, 1.48851587, -0.82215223, 0.17087277];
    let p = k.iter().rev().fold(0.0, |a, b| a * t + b);
    let r = t * (p - z * z).exp();
    if x >= 0.0 {
        r
    } else {
        2.0 - r
    }
}
pub fn erfc(x: f64) -> f64 {
    if x.is_nan() {
        x
    } else if coarse() {
        erfc_nr(x)
    } else if x >= 0.0 {
        erfcx(x) * (-x * x).exp()
    } else {
        2.0 - erfc(-x)
    }
}
pub fn phi(x: f64) -> f64 {
    0.5 * erfc(-x / std::f64::consts::SQRT_2)
}
fn pdf(x: f64) -> f64 {
    (-x * x / 2.0).exp() / (2.0 * PI).sqrt()
}
fn quantile(p: f64) -> f64 {
    let (mut lo, mut hi) = (-12.0, 12.0);
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if phi(m) < p {
            lo = m;
        } else {
            hi = m;
        }
    }
    0.5 * (lo + hi)
}
/// mean and variance of a standard normal at `t` truncated to the win region: v, w
fn vw_win(t: f64) -> (f64, f64) {
    surprise(-t);
    if coarse() && t > -26.0 {
        let v = pdf(t) / phi(t);
        return (v, v * (v + t));
    }
    // pdf/cdf without underflow: sqrt(2/pi) / erfcx(-t/sqrt2)
    let v = if t > 0.0 { pdf(t) / phi(t) } else { (2.0 / PI).sqrt() / erfcx(-t / std::f64::consts::SQRT_2) };
    (v, v * (v + t))
}
fn vw_draw(t: f64, e: f64) -> (f64, f64) {
    let s = t.abs();
    surprise(s - e);
    let (hi, lo) = (e - s, -e - s);
    let n = phi(hi) - phi(lo);
    let v = (pdf(lo) - pdf(hi)) / n;
    let w = v * v + (hi * pdf(hi) - lo * pdf(lo)) / n;
    (if t < 0.0 { -v } else { v }, w)
}
fn margin(c: &[f64], players: f64) -> f64 {
    quantile((1.0 + c[0]) / 2.0) * players.sqrt() * c[1]
}

// ------------------------------------------------------------------ single games and periods

fn glicko_g2(var: f64, q: f64) -> f64 {
    1.0 / (1.0 + 3.0 * q * q * var / (PI * PI))
}

struct Sums {
    info: f64,
    push: f64,
}
/// Glickman's sums over a period; `adv` is the first-mover advantage in points
fn sums(a: &V, rs: &[Res], adv: f64, bonus: f64) -> Sums {
    let q = L10 / 400.0;
    let (mut info, mut push) = (0.0, 0.0);
    for r in rs {
        let g2 = glicko_g2(r.v[1] * r.v[1], q);
        let g = g2.sqrt();
        let side = if adv == 0.0 {
            0.0
        } else if r.x[0] != 0.0 {
            adv
        } else {
            -adv
        };
        let e = logistic(g * (a[0] + side - r.v[0]) * q);
        info += q * q * g2 * e * (1.0 - e);
        push += q * g * (pts(r.o) - e + bonus);
    }
    Sums { info, push }
}

pub fn decay(sys: usize, c: &[f64], a: &V) -> V {
    match sys {
        GLICKO => [a[0], (a[1] * a[1] + c[0] * c[0]).sqrt().min(350.0), 0.],
        STICKO => [a[0], (a[1] * a[1] + c[4] * c[4]).sqrt().min(350.0), 0.],
        GLICKO2 => {
            let s = 173.7178;
            [a[0], (a[1] * a[1] + s * s * a[2] * a[2]).sqrt().min(350.0), a[2]]
        }
        BOOST => boost_end(a[0], a[1] * a[1], c),
        _ => *a,
    }
}
fn boost_end(r: f64, var: f64, c: &[f64]) -> V {
    let k = r / 1000.0;
    let d = var.sqrt();
    let grow = (c[4] + c[5] * d + c[6] * d * k + c[7] * k + c[8] * k * k).exp();
    [r, (var + grow).sqrt().min(350.0), 0.]
}

fn volatility(vol: f64, delta2: f64, phi2: f64, v: f64, tau: f64) -> f64 {
    let la = (vol * vol).ln();
    let f = |x: f64| {
        let e = x.exp();
        let d = phi2 + v + e;
        e * (delta2 - phi2 - v - e) / (2.0 * d * d) - (x - la) / (tau * tau)
    };
    // f is positive far to the left and negative far to the right
    let mut lo = la;
    while f(lo) < 0.0 {
        lo -= tau;
    }
    let mut hi = la;
    while f(hi) > 0.0 {
        hi += tau;
    }
    // very surprising periods give the equation several solutions; the procedure may reach any
    let nth = ROOT.load(std::sync::atomic::Ordering::Relaxed);
    if nth > 0 {
        let (l, h, n) = (lo.min(la), hi.max((delta2 - phi2 - v).max(1e-300).ln()), 4000);
        let at = |i: usize| l + (h - l) * i as f64 / n as f64;
        let crossings: Vec<usize> = (0..n).filter(|i| (f(at(*i)) > 0.0) != (f(at(*i + 1)) > 0.0)).collect();
        match crossings.get(nth - 1) {
            Some(i) => (lo, hi) = if f(at(*i)) > 0.0 { (at(*i), at(i + 1)) } else { (at(i + 1), at(*i)) },
            None => return f64::NAN,
        }
    }
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if f(m) > 0.0 {
            lo = m;
        } else {
            hi = m;
        }
    }
    (0.5 * (lo + hi) / 2.0).exp()
}

fn age_group(age: f64) -> usize {
    if age <= 20.0 {
        0
    } else if age <= 25.0 {
        1
    } else {
        2
    }
}
pub fn egf_expect(a: f64, b: f64, h: f64) -> f64 {
    let adv = |h: f64| if h == 0.0 { 0.0 } else { 100.0 * (h - 0.5) };
    let (ha, hb) = if h < 0.0 { (adv(-h), 0.0) } else { (0.0, adv(h)) };
    // S_E = 1 / (1 + e^(beta(b) - beta(a))), beta(r) = -7 ln(3300 - r)
    let (pa, pb) = ((3300.0 - a - ha).powi(7), (3300.0 - b - hb).powi(7));
    pb / (pa + pb)
}

/// new rating of a player after a rating period (empty: a missed period)
pub fn period(sys: usize, c: &[f64], a: &V, rs: &[Res]) -> V {
    let n = rs.len() as f64;
    match sys {
        ELO => {
            let mut r = a[0];
            for x in rs {
                r += c[0] * (pts(x.o) - chess(r - x.v[0], 400.0));
            }
            [r, 0., 0.]
        }
        FIFA => {
            let mut r = a[0];
            for x in rs {
                let w = if x.x[2] != 0.0 {
                    // a shoot-out: the winner gets three quarters, the loser half a point
                    if x.o == 0 {
                        0.75
                    } else {
                        0.5
                    }
                } else {
                    pts(x.o)
                };
                let d = x.x[0] * (w - chess(r - x.v[0], 600.0));
                if x.x[1] == 0.0 || d > 0.0 {
                    r += d;
                }
            }
            [r, 0., 0.]
        }
        GLICKO => {
            let pre = decay(sys, c, a);
            if rs.is_empty() {
                return pre;
            }
            let s = sums(a, rs, 0.0, 0.0);
            let var = 1.0 / (1.0 / (pre[1] * pre[1]) + s.info);
            [a[0] + var * s.push, var.sqrt(), 0.]
        }
        STICKO => {
            let pre = decay(sys, c, a);
            if rs.is_empty() {
                return pre;
            }
            let s = sums(a, rs, c[3], c[1]);
            let p2 = pre[1] * pre[1];
            let pull = c[2] / 100.0 * (rs.iter().map(|x| x.v[0]).sum::<f64>() / n - a[0]);
            let var = 1.0 / (1.0 / (p2 + c[0] * n) + s.info);
            [a[0] + s.push / (1.0 / p2 + s.info) + pull, var.sqrt().min(350.0), 0.]
        }
        BOOST => {
            if rs.is_empty() {
                return decay(sys, c, a);
            }
            let s = sums(a, rs, c[0], 0.0);
            let post = |var: f64| (1.0 / (1.0 / var + s.info)).min(350.0 * 350.0);
            let mut var = 1.0 / (1.0 / (a[1] * a[1]) + s.info);
            // standardised performance
            let z = s.push / s.info.sqrt();
            if c[1] != 0.0 && z > c[1] {
                let rd = (1.0 + (z - c[1]) * c[2]) * var.sqrt() + c[3];
                var = post(rd * rd);
            } else {
                var = post(a[1] * a[1]);
            }
            boost_end(a[0] + var * s.push, var, c)
        }
        GLICKO2 => {
            if rs.is_empty() {
                return decay(sys, c, a);
            }
            let k = 173.7178;
            let phi2 = (a[1] / k) * (a[1] / k);
            let (mut inf, mut push) = (0.0, 0.0);
            for x in rs {
                let g2 = 1.0 / (1.0 + 3.0 * (x.v[1] / k) * (x.v[1] / k) / (PI * PI));
                let e = logistic(g2.sqrt() * (a[0] - x.v[0]) / k);
                inf += g2 * e * (1.0 - e);
                push += g2.sqrt() * (pts(x.o) - e);
            }
            let v = 1.0 / inf;
            let d = v * push;
            let vol = volatility(a[2], d * d, phi2, v, c[0]);
            let var = 1.0 / (1.0 / (phi2 + vol * vol) + inf);
            [a[0] + k * var * push, k * var.sqrt(), vol]
        }
        TS => {
            let mut p = *a;
            for x in rs {
                p = ts_sides(c, &[p], &[x.v], x.o).0[0];
            }
            p
        }
        WL => {
            let mut p = *a;
            for x in rs {
                p = wl_teams(c, &[vec![p], vec![x.v]], &[vec![0.0, pts(x.o)], vec![1.0 - pts(x.o), 0.0]])[0][0];
            }
            p
        }
        USCF_ => {
            if rs.is_empty() {
                return *a;
            }
            let games = a[1];
            let r = if games <= 8.0 {
                // provisional: average of opponents' ratings +-400
                let opp: f64 = rs.iter().map(|x| x.v[0]).sum();
                let net: f64 = rs.iter().map(|x| 2.0 * pts(x.o) - 1.0).sum();
                (games * a[0] + opp + 400.0 * net) / (games + n)
            } else {
                let eff = if a[0] < 2355.0 { 50.0 / (0.662 + 0.00000739 * (2569.0 - a[0]) * (2569.0 - a[0])).sqrt() } else { 50.0 };
                let k = 800.0 / (eff.min(games).min(50.0) + n);
                let gain: f64 = k * rs.iter().map(|x| pts(x.o) - chess(a[0] - x.v[0], 400.0)).sum::<f64>();
                let bonus = if rs.len() >= 3 { (gain - c[0] * n.min(4.0).sqrt()).max(0.0) } else { 0.0 };
                a[0] + gain + bonus
            };
            [r.max(100.0), games + n, 0.]
        }
        EGF_ => {
            if rs.is_empty() {
                return *a;
            }
            let con = ((3300.0 - a[0]) / 200.0).powf(1.6);
            let bonus = {
                // ln(1 + e^x) / 5
                let x = (2300.0 - a[0]) / 80.0;
                (x.max(0.0) + (-x.abs()).exp().ln_1p()) / 5.0
            };
            let mut change = 0.0;
            for x in rs {
                let d = con * (pts(x.o) - egf_expect(a[0], x.v[0], x.x[0])) + bonus;
                change += d.max(-900.0 - a[0]);
            }
            [(a[0] + change).max(-900.0), 0., 0.]
        }
        DWZ_ => {
            if rs.is_empty() {
                return *a;
            }
            let w: f64 = rs.iter().map(|x| pts(x.o)).sum();
            let we: f64 = rs.iter().map(|x| chess(a[0] - x.v[0], 400.0)).sum();
            let j = [5.0, 10.0, 15.0][age_group(a[2])];
            let e0 = (a[0] / 1000.0).powi(4) + j;
            let fb = if a[2] < 20.0 && w >= we { a[0] / 2000.0 } else { 1.0 };
            let sbr = if a[0] < 1300.0 && w <= we { ((1300.0 - a[0]) / 150.0).exp() - 1.0 } else { 0.0 };
            let mut e = e0 * fb + sbr;
            if sbr == 0.0 {
                e = e.min(30f64.min(5.0 * a[1]));
            } else {
                e = e.min(150.0);
            }
            let e = e.max(5.0);
            [a[0] + 800.0 * (w - we) / (e + n), a[1] + 1.0, a[2]]
        }
        _ => {
            if rs.is_empty() {
                return *a;
            }
            let dev = [10.0, 15.0, 20.0][age_group(a[1])];
            // sum over games of (opponent - (100 score - 50))
            let perf: f64 = rs.iter().map(|x| x.v[0] - (100.0 * pts(x.o) - 50.0)).sum();
            [(a[0] * dev + perf) / (dev + n), a[1], 0.]
        }
    }
}

/// first rating from at least five games, none of the extremes
pub fn first_dwz(age: usize, rs: &[Res], tie_down: bool) -> Option<V> {
    if rs.len() < 5 {
        return None;
    }
    let p: f64 = rs.iter().map(|x| pts(x.o)).sum::<f64>();
    let n = rs.len() as f64;
    if p == 0.0 || p == n {
        return None;
    }
    // rating differences of the DWZ table for 50..100 percent
    const T: [f64; 51] = [
        0., 4., 11., 18., 25., 32., 40., 47., 54., 61., 69., 76., 83., 91., 98., 106., 113., 121., 129., 137., 145., 153., 161., 170.,
        178., 187., 196., 205., 214., 224., 234., 244., 254., 265., 276., 288., 300., 312., 326., 340., 355., 371., 389., 408., 429.,
        453., 480., 513., 555., 614., 728.,
    ];
    let raw = 100.0 * (p / n);
    let mut pc = raw.round() as i64;
    if tie_down && (raw - raw.floor() - 0.5).abs() < 1e-9 {
        pc = raw.floor() as i64;
    }
    let d = if pc >= 50 { T[(pc - 50) as usize] } else { -T[(50 - pc) as usize] };
    let mut r = rs.iter().map(|x| x.v[0]).sum::<f64>() / n + d;
    if r <= 800.0 {
        r = 700.0 + r / 8.0;
    }
    Some([r, 1.0, age as f64])
}

// ------------------------------------------------------------------ teams

/// two sides, TrueSkill closed form as the library documents it (dynamics enter the update, not c)
pub fn ts_sides(c: &[f64], a: &[V], b: &[V], o: u8) -> (Vec<V>, Vec<V>) {
    if a.is_empty() || b.is_empty() {
        return (a.to_vec(), b.to_vec());
    }
    let n = (a.len() + b.len()) as f64;
    let eps = margin(c, n);
    let var: f64 = a.iter().chain(b).map(|p| p[1] * p[1]).sum::<f64>() + n * c[1] * c[1];
    let s = var.sqrt();
    let gap: f64 = a.iter().map(|p| p[0]).sum::<f64>() - b.iter().map(|p| p[0]).sum::<f64>();
    let (sign, (v, w)) = match o {
        0 => (1.0, vw_win((gap - eps) / s)),
        1 => (-1.0, vw_win((-gap - eps) / s)),
        _ => (1.0, vw_draw(gap / s, eps / s)),
    };
    let up = |p: &V, sg: f64| {
        let pv = p[1] * p[1] + c[2] * c[2];
        [p[0] + sg * pv / s * v, (pv - pv * pv / var * w).sqrt(), 0.]
    };
    (a.iter().map(|p| up(p, sign)).collect(), b.iter().map(|p| up(p, -sign)).collect())
}

/// Bradley-Terry full pair; `score[i][q]` is what team i scored against team q
pub fn wl_teams(c: &[f64], t: &[Vec<V>], score: &[Vec<f64>]) -> Vec<Vec<V>> {
    if t.iter().any(|x| x.is_empty()) {
        return t.to_vec();
    }
    let mu: Vec<f64> = t.iter().map(|x| x.iter().map(|p| p[0]).sum()).collect();
    let s2: Vec<f64> = t.iter().map(|x| x.iter().map(|p| p[1] * p[1]).sum()).collect();
    (0..t.len())
        .map(|i| {
            let (mut om, mut de) = (0.0, 0.0);
            for q in 0..t.len() {
                if q == i {
                    continue;
                }
                let c2 = s2[i] + s2[q] + 2.0 * c[0] * c[0];
                let cc = c2.sqrt();
                let p = logistic((mu[i] - mu[q]) / cc);
                om += s2[i] / cc * (score[i][q] - p);
                de += s2[i].sqrt() / cc * s2[i] / c2 * p * (1.0 - p);
            }
            t[i].iter()
                .map(|p| {
                    let share = p[1] * p[1] / s2[i];
                    [p[0] + share * om, p[1] * (1.0 - share * de).max(c[1]).sqrt(), 0.]
                })
                .collect()
        })
        .collect()
}
pub fn wl_multi(c: &[f64], t: &[Vec<V>], ranks: &[u64]) -> Vec<Vec<V>> {
    let sc: Vec<Vec<f64>> = (0..t.len())
        .map(|i| {
            (0..t.len())
                .map(|q| match ranks[i].cmp(&ranks[q]) {
                    std::cmp::Ordering::Less => 1.0,
                    std::cmp::Ordering::Equal => 0.5,
                    std::cmp::Ordering::Greater => 0.0,
                })
                .collect()
        })
        .collect();
    wl_teams(c, t, &sc)
}

#[derive(Clone, Copy, Default)]
struct G {
    p: f64,
    t: f64,
}
impl G {
    fn mv(m: f64, v: f64) -> G {
        G { p: 1.0 / v, t: m / v }
    }
}

/// TrueSkill factor graph for ranked teams. Several answers can be right when the stopping rule
/// (change at most 1e-4, at most ten sweeps) is met almost exactly.
pub fn ts_multi(c: &[f64], t: &[Vec<V>], ranks: &[u64], w: Option<&[Vec<f64>]>) -> Vec<Vec<Vec<V>>> {
    if t.len() < 2 || t.iter().any(|x| x.is_empty()) {
        return vec![t.to_vec()];
    }
    let mut ord: Vec<usize> = (0..t.len()).collect();
    ord.sort_by_key(|i| ranks[*i]);
    let one: Vec<Vec<f64>> = t.iter().map(|x| vec![1.0; x.len()]).collect();
    let w = w.unwrap_or(&one);
    // performance of each team seen from its players
    let pv = |i: usize, j: usize| t[i][j][1] * t[i][j][1] + c[2] * c[2];
    let perf: Vec<(f64, f64)> = ord
        .iter()
        .map(|&i| {
            let m = (0..t[i].len()).map(|j| w[i][j] * t[i][j][0]).sum();
            let v = (0..t[i].len()).map(|j| w[i][j] * w[i][j] * (pv(i, j) + c[1] * c[1])).sum();
            (m, v)
        })
        .collect();
    let nd = t.len() - 1;
    let eps: Vec<f64> = (0..nd).map(|x| margin(c, (t[ord[x]].len() + t[ord[x + 1]].len()) as f64)).collect();
    let tie: Vec<bool> = (0..nd).map(|x| ranks[ord[x]] == ranks[ord[x + 1]]).collect();
    // messages: to the better team (l) and to the worse team (r) of each difference; truncation (tr)
    let mut l = vec![G::default(); nd];
    let mut r = vec![G::default(); nd];
    let mut tr = vec![G::default(); nd];
    let mut dn = vec![G::default(); nd];
    // team x without the message of difference d
    let team = |x: usize, skip: usize, l: &[G], r: &[G]| -> (f64, f64) {
        let mut g = G::mv(perf[x].0, perf[x].1);
        if x < nd && x != skip {
            g = G { p: g.p + l[x].p, t: g.t + l[x].t };
        }
        if x > 0 && x - 1 != skip {
            g = G { p: g.p + r[x - 1].p, t: g.t + r[x - 1].t };
        }
        (g.t / g.p, 1.0 / g.p)
    };
    let mut results = Vec::new();
    let mut step = |x: usize, l: &[G], r: &[G], tr: &mut Vec<G>, dn: &mut Vec<G>| -> f64 {
        let (ma, va) = team(x, x, l, r);
        let (mb, vb) = team(x + 1, x, l, r);
        let d = G::mv(ma - mb, va + vb);
        dn[x] = d;
        let before = G { p: d.p + tr[x].p, t: d.t + tr[x].t };
        let sd = (va + vb).sqrt();
        let z = (ma - mb) / sd;
        let e = eps[x] / sd;
        let (v, ww) = if tie[x] { vw_draw(z, e) } else { vw_win(z - e) };
        let m = (ma - mb) + sd * v;
        let var = (va + vb) * (1.0 - ww);
        let after = G::mv(m, var);
        tr[x] = G { p: after.p - d.p, t: after.t - d.t };
        (before.t - after.t).abs().max((before.p - after.p).abs().sqrt())
    };
    let back_l = |x: usize, l: &mut Vec<G>, r: &[G], tr: &[G]| {
        // better team = difference + worse team
        let (mb, vb) = team(x + 1, x, l, r);
        let (m, v) = (tr[x].t / tr[x].p, 1.0 / tr[x].p);
        l[x] = if tr[x].p == 0.0 { G::default() } else { G::mv(m + mb, v + vb) };
    };
    let back_r = |x: usize, l: &[G], r: &mut Vec<G>, tr: &[G]| {
        let (ma, va) = team(x, x, l, r);
        let (m, v) = (tr[x].t / tr[x].p, 1.0 / tr[x].p);
        r[x] = if tr[x].p == 0.0 { G::default() } else { G::mv(ma - m, v + va) };
    };
    let finish = |l: &[G], r: &[G], tr: &[G]| -> Vec<Vec<V>> {
        let (mut l, mut r) = (l.to_vec(), r.to_vec());
        back_l(0, &mut l, &r, tr);
        back_r(nd - 1, &l, &mut r, tr);
        let mut out = t.to_vec();
        for (x, &i) in ord.iter().enumerate() {
            let mut g = G::default();
            if x < nd {
                g = G { p: g.p + l[x].p, t: g.t + l[x].t };
            }
            if x > 0 {
                g = G { p: g.p + r[x - 1].p, t: g.t + r[x - 1].t };
            }
            for j in 0..t[i].len() {
                let prior = pv(i, j);
                let wj = w[i][j];
                let (mut p, mut tt) = (1.0 / prior, t[i][j][0] / prior);
                if wj > 0.0 && g.p != 0.0 {
                    // what the others of the team leave for this player
                    let om = perf[x].0 - wj * t[i][j][0];
                    let ov = perf[x].1 - wj * wj * (prior + c[1] * c[1]);
                    let (m, v) = (g.t / g.p, 1.0 / g.p);
                    let pm = (m - om) / wj;
                    let pvv = (v + ov) / (wj * wj) + c[1] * c[1];
                    p += 1.0 / pvv;
                    tt += pm / pvv;
                }
                out[i][j] = [tt / p, (1.0 / p).sqrt(), 0.];
            }
        }
        out
    };
    for _ in 0..10 {
        let mut d: f64 = 0.0;
        if nd == 1 {
            d = step(0, &l, &r, &mut tr, &mut dn);
        } else {
            for x in 0..nd - 1 {
                d = d.max(step(x, &l, &r, &mut tr, &mut dn));
                back_r(x, &l, &mut r, &tr);
            }
            for x in (1..nd).rev() {
                d = d.max(step(x, &l, &r, &mut tr, &mut dn));
                back_l(x, &mut l, &r, &tr);
            }
        }
        if d <= 1e-4 * 1.3 && d > 1e-4 * 0.7 {
            results.push(finish(&l, &r, &tr));
            if d <= 1e-4 {
                continue; // the other answer: one more sweep
            }
        } else if d <= 1e-4 {
            break;
        }
    }
    results.push(finish(&l, &r, &tr));
    results
}

// ------------------------------------------------------------------ forecasts, quality, conversions

/// win probability of `a` (draws counting half) under the config of its side
pub fn expect(sys: usize, c: &[f64], a: &V, b: &V) -> f64 {
    let gap = a[0] - b[0];
    let q = L10 / 400.0;
    let damp = |adv: f64| logistic(glicko_g2(a[1] * a[1] + b[1] * b[1], q).sqrt() * (gap + adv) * q);
    match sys {
        ELO | DWZ_ | USCF_ => chess(gap, 400.0),
        FIFA => chess(gap, 600.0),
        INGO => 0.5 - gap / 100.0,
        GLICKO => damp(0.0),
        BOOST => damp(c[0]),
        STICKO => damp(c[3]),
        GLICKO2 => {
            let k = 173.7178;
            let var = (a[1] * a[1] + b[1] * b[1]) / (k * k);
            logistic(gap / k / (1.0 + 3.0 * var / (PI * PI)).sqrt())
        }
        EGF_ => egf_expect(a[0], b[0], c[0]),
        _ => expect_teams(sys, c, &[vec![*a], vec![*b]])[0],
    }
}
pub fn expect_teams(sys: usize, c: &[f64], t: &[Vec<V>]) -> Vec<f64> {
    let mu: Vec<f64> = t.iter().map(|x| x.iter().map(|p| p[0]).sum()).collect();
    let s2: Vec<f64> = t.iter().map(|x| x.iter().map(|p| p[1] * p[1]).sum()).collect();
    if sys == WL {
        let cc = (2.0 * c[0] * c[0] + s2.iter().sum::<f64>()).sqrt();
        let top = mu.iter().copied().fold(f64::NEG_INFINITY, f64::max);
        let e: Vec<f64> = mu.iter().map(|m| ((m - top) / cc).exp()).collect();
        let sum: f64 = e.iter().sum();
        return e.iter().map(|x| x / sum).collect();
    }
    // every pairing of two teams once; a team's share of the pairings it is expected to win
    let n: usize = t.iter().map(|x| x.len()).sum();
    let pairs = (t.len() * (t.len() - 1) / 2) as f64;
    (0..t.len())
        .map(|i| (0..t.len()).filter(|j| *j != i).map(|j| phi((mu[i] - mu[j]) / (n as f64 * c[1] * c[1] + s2[i] + s2[j]).sqrt())).sum::<f64>() / pairs)
        .collect()
}
/// the largest exponent a Weng-Lin forecast for teams contains
pub fn exponent(c: &[f64], t: &[Vec<V>]) -> f64 {
    let s2: f64 = t.iter().flatten().map(|p| p[1] * p[1]).sum();
    t.iter().map(|x| x.iter().map(|p| p[0]).sum::<f64>().abs()).fold(0.0, f64::max) / (2.0 * c[0] * c[0] + s2).sqrt()
}
/// TrueSkill match quality: the density of a draw relative to its maximum
pub fn quality(c: &[f64], t: &[Vec<V>], w: Option<&[Vec<f64>]>) -> f64 {
    let wt = |i: usize, j: usize| w.map_or(1.0, |w| w[i][j]);
    let b2 = c[1] * c[1];
    let m = t.len() - 1;
    // differences of neighbouring teams: mean, covariance with and without the players' uncertainty
    let mean: Vec<f64> = (0..t.len()).map(|i| t[i].iter().enumerate().map(|(j, p)| wt(i, j) * p[0]).sum()).collect();
    let full: Vec<f64> = (0..t.len()).map(|i| t[i].iter().enumerate().map(|(j, p)| wt(i, j).powi(2) * (b2 + p[1] * p[1])).sum()).collect();
    let bare: Vec<f64> = (0..t.len()).map(|i| (0..t[i].len()).map(|j| wt(i, j).powi(2) * b2).sum()).collect();
    let tri = |v: &[f64]| -> (Vec<f64>, Vec<f64>) { ((0..m).map(|i| v[i] + v[i + 1]).collect(), (1..m).map(|i| -v[i]).collect()) };
    // tridiagonal elimination: log determinant and quadratic form
    let solve = |v: &[f64], d: &[f64]| -> (f64, f64) {
        let (diag, off) = tri(v);
        let (mut ld, mut q, mut piv, mut y) = (0.0, 0.0, 0.0, 0.0);
        for i in 0..m {
            (piv, y) = if i == 0 { (diag[0], d[0]) } else { (diag[i] - off[i - 1] * off[i - 1] / piv, d[i] - off[i - 1] * y / piv) };
            ld += f64::ln(piv);
            q += y * y / piv;
        }
        (ld, q)
    };
    let d: Vec<f64> = (0..m).map(|i| mean[i] - mean[i + 1]).collect();
    let (lf, q) = solve(&full, &d);
    let (lb, _) = solve(&bare, &d);
    (-0.5 * q + 0.5 * (lb - lf)).exp()
}
/// a rating moved from one system to another: rating, and deviation where both have one
pub fn convert(from: usize, to: usize, v: &V) -> (f64, Option<f64>) {
    let r = match (from, to) {
        (INGO, ELO) => 2840.0 - 8.0 * v[0],
        (ELO, INGO) => 355.0 - v[0] / 8.0,
        // USCF: 180 + 0.94 FIDE above 2000, 20 + 1.02 FIDE below
        (ELO, USCF_) => (180.0 + 0.94 * v[0]).min(20.0 + 1.02 * v[0]),
        (USCF_, ELO) => ((v[0] - 180.0) / 0.94).max((v[0] - 20.0) / 1.02),
        _ => v[0],
    };
    (r, if matches!(from, GLICKO | GLICKO2 | BOOST | STICKO | TS | WL) { Some(v[1]) } else { None })
}
