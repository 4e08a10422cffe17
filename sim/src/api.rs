//! The whole public API of the library behind one dynamic `Call` type, so that worlds can
//! schedule, repeat, perturb, record and replay any call.
use serde::{Deserialize, Serialize};
use skillratings::dwz::{self, *};
use skillratings::egf::{self, *};
use skillratings::elo::{self, *};
use skillratings::fifa::{self, *};
use skillratings::glicko::{self, *};
use skillratings::glicko2::{self, *};
use skillratings::glicko_boost::{self, *};
use skillratings::ingo::{self, *};
use skillratings::sticko::{self, *};
use skillratings::trueskill::{self, *};
use skillratings::uscf::{self, *};
use skillratings::weng_lin::{self, *};
use skillratings::{
    MultiTeamOutcome, MultiTeamRatingSystem, Outcomes, Rating, RatingPeriodSystem, RatingSystem, TeamRatingSystem,
};

pub type V = [f64; 3];
pub const NSYS: usize = 12;
pub const ELO: usize = 0;
pub const GLICKO: usize = 1;
pub const GLICKO2: usize = 2;
pub const BOOST: usize = 3;
pub const STICKO: usize = 4;
pub const TS: usize = 5;
pub const WL: usize = 6;
pub const FIFA: usize = 7;
pub const USCF_: usize = 8;
pub const EGF_: usize = 9;
pub const DWZ_: usize = 10;
pub const INGO: usize = 11;
pub const NAMES: [&str; NSYS] = [
    "elo", "glicko", "glicko2", "glicko_boost", "sticko", "trueskill", "weng_lin", "fifa", "uscf", "egf", "dwz", "ingo",
];
/// how many of the three slots of a `V` a system uses
pub const WIDTH: [usize; NSYS] = [1, 2, 3, 2, 2, 2, 2, 1, 2, 1, 3, 2];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Res {
    pub v: V,
    pub o: u8,
    /// colour flag (Glicko-Boost, Sticko), [importance, knockout, penalties] (FIFA), [handicap] (EGF)
    pub x: [f64; 3],
}

pub const F_PAIR: u8 = 0;
pub const F_PERIOD: u8 = 1;
pub const F_EXP: u8 = 2;
pub const F_EXPP: u8 = 3;
pub const F_DECAY: u8 = 4;
pub const F_CONF: u8 = 5;
pub const F_RANK: u8 = 6;
pub const F_TWO: u8 = 7;
pub const F_MULTI: u8 = 8;
pub const F_EXPTWO: u8 = 9;
pub const F_EXPMULTI: u8 = 10;
pub const F_MQ: u8 = 11;
pub const F_MQP: u8 = 12;
pub const F_MQTWO: u8 = 13;
pub const F_MQMULTI: u8 = 14;
pub const F_FIRST: u8 = 15;
pub const F_CONV: u8 = 16;
pub const F_RNEW: u8 = 17;
pub const F_SERDE: u8 = 18;
pub const F_NEW: u8 = 19;
pub const F_JOIN: u8 = 20;
pub const F_CFG: u8 = 21;
pub const F_OUTCOME: u8 = 22;
pub const FNAMES: [&str; 23] = [
    "rate", "rating_period", "expected_score", "expected_score_rating_period", "decay_deviation", "confidence_interval",
    "get_rank", "two_teams", "multi_team", "expected_score_two_teams", "expected_score_multi_team", "match_quality",
    "match_quality_rating_period", "match_quality_two_teams", "match_quality_multi_team", "get_first_dwz", "From",
    "Rating::new", "serde", "new", "join", "default config", "outcomes and ranks",
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Call {
    pub sys: usize,
    pub f: u8,
    /// 0 free function, 1 trait method on a new value, 2 trait method on a shared value
    pub via: u8,
    pub cfg: Vec<f64>,
    pub teams: Vec<Vec<V>>,
    pub o: u8,
    pub res: Vec<Res>,
    pub ranks: Vec<u64>,
    pub weights: Option<Vec<Vec<f64>>>,
    pub n: usize,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Out {
    /// 0 value, 1 error value, 2 panic
    pub st: u8,
    pub bits: Vec<u64>,
}

pub fn oc(o: u8) -> Outcomes {
    match o {
        0 => Outcomes::WIN,
        1 => Outcomes::LOSS,
        _ => Outcomes::DRAW,
    }
}
pub fn flip(o: u8) -> u8 {
    match o {
        0 => 1,
        1 => 0,
        x => x,
    }
}
pub fn pts(o: u8) -> f64 {
    match o {
        0 => 1.0,
        1 => 0.0,
        _ => 0.5,
    }
}

// ------------------------------------------------------------------ codecs

pub trait Sy {
    type R: Copy;
    type C: Copy;
    fn r(v: &V) -> Self::R;
    fn v(r: &Self::R) -> V;
    fn c(c: &[f64]) -> Self::C;
}
fn us(x: f64) -> usize {
    if x >= 1.8e19 {
        usize::MAX
    } else {
        x as usize
    }
}

macro_rules! codec {
    ($n:ident, $r:ty, $c:ty, |$v:ident| $dec:expr, |$rr:ident| $enc:expr, |$cc:ident| $cfg:expr) => {
        pub struct $n;
        impl Sy for $n {
            type R = $r;
            type C = $c;
            fn r($v: &V) -> $r {
                $dec
            }
            fn v($rr: &$r) -> V {
                $enc
            }
            fn c($cc: &[f64]) -> $c {
                $cfg
            }
        }
    };
}
codec!(CElo, EloRating, EloConfig, |v| EloRating { rating: v[0] }, |r| [r.rating, 0., 0.], |c| {
    let mut k = EloConfig::new();
    k.k = c[0];
    k
});
codec!(CGlicko, GlickoRating, GlickoConfig, |v| GlickoRating { rating: v[0], deviation: v[1] }, |r| [r.rating, r.deviation, 0.], |c| {
    let mut k = GlickoConfig::new();
    k.c = c[0];
    k
});
codec!(CGlicko2, Glicko2Rating, Glicko2Config, |v| Glicko2Rating { rating: v[0], deviation: v[1], volatility: v[2] }, |r| [r.rating, r.deviation, r.volatility], |c| {
    let mut k = Glicko2Config::new();
    k.tau = c[0];
    k.convergence_tolerance = c[1];
    k
});
codec!(CBoost, GlickoBoostRating, GlickoBoostConfig, |v| GlickoBoostRating { rating: v[0], deviation: v[1] }, |r| [r.rating, r.deviation, 0.], |c| {
    let mut k = GlickoBoostConfig::new();
    k.eta = c[0];
    k.k = c[1];
    k.b = (c[2], c[3]);
    k.alpha = (c[4], c[5], c[6], c[7], c[8]);
    k
});
codec!(CSticko, StickoRating, StickoConfig, |v| StickoRating { rating: v[0], deviation: v[1] }, |r| [r.rating, r.deviation, 0.], |c| {
    let mut k = StickoConfig::new();
    k.h = c[0];
    k.beta = c[1];
    k.lambda = c[2];
    k.gamma = c[3];
    k.c = c[4];
    k
});
codec!(CTs, TrueSkillRating, TrueSkillConfig, |v| TrueSkillRating { rating: v[0], uncertainty: v[1] }, |r| [r.rating, r.uncertainty, 0.], |c| {
    let mut k = TrueSkillConfig::new();
    k.draw_probability = c[0];
    k.beta = c[1];
    k.dynamics_factor = c[2];
    k
});
codec!(CWl, WengLinRating, WengLinConfig, |v| WengLinRating { rating: v[0], uncertainty: v[1] }, |r| [r.rating, r.uncertainty, 0.], |c| {
    let mut k = WengLinConfig::new();
    k.beta = c[0];
    k.uncertainty_tolerance = c[1];
    k
});
codec!(CFifa, FifaRating, FifaConfig, |v| FifaRating { rating: v[0] }, |r| [r.rating, 0., 0.], |c| {
    let mut k = FifaConfig::new();
    k.importance = c[0];
    k.knockout = c[1] != 0.0;
    k.penalties = c[2] != 0.0;
    k
});
codec!(CUscf, USCFRating, USCFConfig, |v| USCFRating { rating: v[0], games: us(v[1]) }, |r| [r.rating, r.games as f64, 0.], |c| {
    let mut k = USCFConfig::new();
    k.t = c[0];
    k
});
codec!(CEgf, EGFRating, EGFConfig, |v| EGFRating { rating: v[0] }, |r| [r.rating, 0., 0.], |c| {
    let mut k = EGFConfig::new();
    k.handicap = c[0];
    k
});
codec!(CDwz, DWZRating, (), |v| DWZRating { rating: v[0], index: us(v[1]), age: us(v[2]) }, |r| [r.rating, r.index as f64, r.age as f64], |_c| ());
codec!(CIngo, IngoRating, (), |v| IngoRating { rating: v[0], age: us(v[1]) }, |r| [r.rating, r.age as f64, 0.], |_c| ());

pub fn default_cfg(sys: usize) -> Vec<f64> {
    match sys {
        ELO => vec![32.0],
        GLICKO => vec![63.2],
        GLICKO2 => vec![0.5, 0.000_001],
        BOOST => vec![30.0, 1.96, 0.20139, 17.5, 5.83733, -1.75374e-04, -7.080124e-05, 0.001733792, 0.00026706],
        STICKO => vec![10.0, 0.0, 2.0, 0.0, 10.0],
        TS => vec![0.1, (25.0 / 3.0) * 0.5, 25.0 / 300.0],
        WL => vec![25.0 / 6.0, 0.000_001],
        FIFA => vec![10.0, 0.0, 0.0],
        USCF_ => vec![14.0],
        EGF_ => vec![0.0],
        _ => vec![],
    }
}

// ------------------------------------------------------------------ trait objects

type PairOut = (V, V);
pub trait Dyn {
    fn pair(&self, a: &V, b: &V, o: u8) -> PairOut;
    fn exp(&self, a: &V, b: &V) -> (f64, f64);
    fn period(&self, a: &V, r: &[Res]) -> V;
    fn expp(&self, a: &V, r: &[Res]) -> Vec<f64>;
    fn two(&self, _a: &[V], _b: &[V], _o: u8) -> Option<(Vec<V>, Vec<V>)> {
        None
    }
    fn exptwo(&self, _a: &[V], _b: &[V]) -> Option<(f64, f64)> {
        None
    }
    fn multi(&self, _t: &[Vec<V>], _r: &[u64]) -> Option<Vec<Vec<V>>> {
        None
    }
    fn expmulti(&self, _t: &[Vec<V>]) -> Option<Vec<f64>> {
        None
    }
}
/// one value per trait constructor, all for the same config
struct One<C, S> {
    p: S,
    q: S,
    _c: std::marker::PhantomData<C>,
}
struct Many<C, S> {
    one: One<C, S>,
    t: S,
    m: S,
}
impl<C, S> One<C, S>
where
    C: Sy,
    C::R: Rating + Copy + std::fmt::Debug + serde::de::DeserializeOwned + Serialize,
    S: RatingSystem<RATING = C::R, CONFIG = C::C> + RatingPeriodSystem<RATING = C::R, CONFIG = C::C>,
{
    fn new(c: &[f64]) -> Self {
        One { p: <S as RatingSystem>::new(C::c(c)), q: <S as RatingPeriodSystem>::new(C::c(c)), _c: std::marker::PhantomData }
    }
}
impl<C, S> Dyn for One<C, S>
where
    C: Sy,
    C::R: Rating + Copy + std::fmt::Debug + serde::de::DeserializeOwned + Serialize,
    S: RatingSystem<RATING = C::R, CONFIG = C::C> + RatingPeriodSystem<RATING = C::R, CONFIG = C::C>,
{
    fn pair(&self, a: &V, b: &V, o: u8) -> PairOut {
        let m = place::<C>(&[&[*a], &[*b]]);
        let (x, y) = RatingSystem::rate(&self.p, &m.get(0)[0], &m.get(1)[0], &oc(o));
        (C::v(&x), C::v(&y))
    }
    fn exp(&self, a: &V, b: &V) -> (f64, f64) {
        let m = place::<C>(&[&[*a], &[*b]]);
        RatingSystem::expected_score(&self.p, &m.get(0)[0], &m.get(1)[0])
    }
    fn period(&self, a: &V, r: &[Res]) -> V {
        let rs: Vec<_> = r.iter().map(|x| (C::r(&x.v), oc(x.o))).collect();
        C::v(&RatingPeriodSystem::rate(&self.q, &C::r(a), &rs))
    }
    fn expp(&self, a: &V, r: &[Res]) -> Vec<f64> {
        let rs: Vec<_> = r.iter().map(|x| C::r(&x.v)).collect();
        RatingPeriodSystem::expected_score(&self.q, &C::r(a), &rs)
    }
}
impl<C, S> Dyn for Many<C, S>
where
    C: Sy,
    C::R: Rating + Copy + std::fmt::Debug + serde::de::DeserializeOwned + Serialize,
    S: RatingSystem<RATING = C::R, CONFIG = C::C>
        + RatingPeriodSystem<RATING = C::R, CONFIG = C::C>
        + TeamRatingSystem<RATING = C::R, CONFIG = C::C>
        + MultiTeamRatingSystem<RATING = C::R, CONFIG = C::C>,
{
    fn pair(&self, a: &V, b: &V, o: u8) -> PairOut {
        self.one.pair(a, b, o)
    }
    fn exp(&self, a: &V, b: &V) -> (f64, f64) {
        self.one.exp(a, b)
    }
    fn period(&self, a: &V, r: &[Res]) -> V {
        self.one.period(a, r)
    }
    fn expp(&self, a: &V, r: &[Res]) -> Vec<f64> {
        self.one.expp(a, r)
    }
    fn two(&self, a: &[V], b: &[V], o: u8) -> Option<(Vec<V>, Vec<V>)> {
        let m = place::<C>(&[a, b]);
        let (x, y) = TeamRatingSystem::rate(&self.t, m.get(0), m.get(1), &oc(o));
        Some((enc::<C>(&x), enc::<C>(&y)))
    }
    fn exptwo(&self, a: &[V], b: &[V]) -> Option<(f64, f64)> {
        let m = place::<C>(&[a, b]);
        Some(TeamRatingSystem::expected_score(&self.t, m.get(0), m.get(1)))
    }
    fn multi(&self, t: &[Vec<V>], r: &[u64]) -> Option<Vec<Vec<V>>> {
        let m = place::<C>(&slices(t));
        let tr: Vec<(&[C::R], MultiTeamOutcome)> = m.all().into_iter().zip(r).map(|(t, r)| (t, MultiTeamOutcome::new(*r as usize))).collect();
        Some(MultiTeamRatingSystem::rate(&self.m, &tr).iter().map(|x| enc::<C>(x)).collect())
    }
    fn expmulti(&self, t: &[Vec<V>]) -> Option<Vec<f64>> {
        let m = place::<C>(&slices(t));
        let tr = m.all();
        Some(MultiTeamRatingSystem::expected_score(&self.m, &tr))
    }
}
fn many<C, S>(c: &[f64]) -> Many<C, S>
where
    C: Sy,
    C::R: Rating + Copy + std::fmt::Debug + serde::de::DeserializeOwned + Serialize,
    S: RatingSystem<RATING = C::R, CONFIG = C::C>
        + RatingPeriodSystem<RATING = C::R, CONFIG = C::C>
        + TeamRatingSystem<RATING = C::R, CONFIG = C::C>
        + MultiTeamRatingSystem<RATING = C::R, CONFIG = C::C>,
{
    Many { one: One::new(c), t: <S as TeamRatingSystem>::new(C::c(c)), m: <S as MultiTeamRatingSystem>::new(C::c(c)) }
}
/// The caller's memory: the lists it hands over lie in one arena, in the order and with the
/// sharing the environment says.
struct Placed<T> {
    mem: Vec<T>,
    at: Vec<(usize, usize)>,
}
impl<T> Placed<T> {
    fn get(&self, i: usize) -> &[T] {
        &self.mem[self.at[i].0..self.at[i].1]
    }
    fn all(&self) -> Vec<&[T]> {
        (0..self.at.len()).map(|i| self.get(i)).collect()
    }
}
fn lay<S, T>(lists: &[&[S]], conv: impl Fn(&S) -> T, eq: impl Fn(&S, &S) -> bool) -> Placed<T> {
    let l = crate::env::layout();
    let mut order: Vec<usize> = (0..lists.len()).collect();
    if l > 0 {
        let mut h = crate::rng::mix(l);
        for i in (1..order.len()).rev() {
            h = crate::rng::mix(h);
            order.swap(i, (h % (i as u64 + 1)) as usize);
        }
    }
    let mut mem = Vec::new();
    let mut at = vec![(0, 0); lists.len()];
    for (k, &i) in order.iter().enumerate() {
        let same = |j: &&usize| lists[**j].len() == lists[i].len() && lists[**j].iter().zip(lists[i]).all(|(a, b)| eq(a, b));
        if l % 2 == 1 {
            if let Some(&j) = order[..k].iter().find(same) {
                at[i] = at[j];
                continue;
            }
        }
        let from = mem.len();
        mem.extend(lists[i].iter().map(&conv));
        at[i] = (from, mem.len());
    }
    Placed { mem, at }
}
fn same_v(a: &V, b: &V) -> bool {
    a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
fn place<C: Sy>(t: &[&[V]]) -> Placed<C::R> {
    lay(t, C::r, same_v)
}
fn slices(t: &[Vec<V>]) -> Vec<&[V]> {
    t.iter().map(|x| &x[..]).collect()
}
fn place_w(w: &[Vec<f64>]) -> Placed<f64> {
    let l: Vec<&[f64]> = w.iter().map(|x| &x[..]).collect();
    lay(&l, |x| *x, |a, b| a.to_bits() == b.to_bits())
}
fn enc<C: Sy>(t: &[C::R]) -> Vec<V> {
    t.iter().map(C::v).collect()
}

pub fn make(sys: usize, c: &[f64]) -> Box<dyn Dyn> {
    match sys {
        ELO => Box::new(One::<CElo, Elo>::new(c)),
        GLICKO => Box::new(One::<CGlicko, Glicko>::new(c)),
        GLICKO2 => Box::new(One::<CGlicko2, Glicko2>::new(c)),
        BOOST => Box::new(One::<CBoost, GlickoBoost>::new(c)),
        STICKO => Box::new(One::<CSticko, Sticko>::new(c)),
        TS => Box::new(many::<CTs, TrueSkill>(c)),
        WL => Box::new(many::<CWl, WengLin>(c)),
        FIFA => Box::new(One::<CFifa, Fifa>::new(c)),
        USCF_ => Box::new(One::<CUscf, USCF>::new(c)),
        EGF_ => Box::new(One::<CEgf, EGF>::new(c)),
        DWZ_ => Box::new(One::<CDwz, DWZ>::new(c)),
        _ => Box::new(One::<CIngo, Ingo>::new(c)),
    }
}

// ------------------------------------------------------------------ free functions

macro_rules! per_sys {
    ($sys:expr, $m:ident) => {
        match $sys {
            ELO => $m!(CElo),
            GLICKO => $m!(CGlicko),
            GLICKO2 => $m!(CGlicko2),
            BOOST => $m!(CBoost),
            STICKO => $m!(CSticko),
            TS => $m!(CTs),
            WL => $m!(CWl),
            FIFA => $m!(CFifa),
            USCF_ => $m!(CUscf),
            EGF_ => $m!(CEgf),
            DWZ_ => $m!(CDwz),
            _ => $m!(CIngo),
        }
    };
}

fn two<C: Sy>(x: (C::R, C::R)) -> PairOut {
    (C::v(&x.0), C::v(&x.1))
}

pub fn pair(sys: usize, c: &[f64], a: &V, b: &V, o: u8) -> PairOut {
    let oo = &oc(o);
    macro_rules! p {
        ($c:ident, $f:path) => {
            two::<$c>({
                let m = place::<$c>(&[&[*a], &[*b]]);
                $f(&m.get(0)[0], &m.get(1)[0], oo, &$c::c(c))
            })
        };
    }
    match sys {
        ELO => p!(CElo, elo::elo),
        GLICKO => p!(CGlicko, glicko::glicko),
        GLICKO2 => p!(CGlicko2, glicko2::glicko2),
        BOOST => p!(CBoost, glicko_boost::glicko_boost),
        STICKO => p!(CSticko, sticko::sticko),
        TS => p!(CTs, trueskill::trueskill),
        WL => p!(CWl, weng_lin::weng_lin),
        FIFA => p!(CFifa, fifa::fifa),
        USCF_ => p!(CUscf, uscf::uscf),
        EGF_ => p!(CEgf, egf::egf),
        DWZ_ => two::<CDwz>(dwz::dwz(&CDwz::r(a), &CDwz::r(b), oo)),
        _ => two::<CIngo>(ingo::ingo(&CIngo::r(a), &CIngo::r(b), oo)),
    }
}

pub fn period(sys: usize, c: &[f64], a: &V, rs: &[Res]) -> V {
    macro_rules! p {
        ($c:ident, $f:path) => {{
            let r: Vec<_> = rs.iter().map(|x| ($c::r(&x.v), oc(x.o))).collect();
            $c::v(&$f(&$c::r(a), &r, &$c::c(c)))
        }};
    }
    macro_rules! pc {
        ($c:ident, $f:path) => {{
            let r: Vec<_> = rs.iter().map(|x| ($c::r(&x.v), oc(x.o), x.x[0] != 0.0)).collect();
            $c::v(&$f(&$c::r(a), &r, &$c::c(c)))
        }};
    }
    macro_rules! px {
        ($c:ident, $f:path) => {{
            let r: Vec<_> = rs.iter().map(|x| ($c::r(&x.v), oc(x.o), $c::c(&x.x))).collect();
            $c::v(&$f(&$c::r(a), &r))
        }};
    }
    macro_rules! p0 {
        ($c:ident, $f:path) => {{
            let r: Vec<_> = rs.iter().map(|x| ($c::r(&x.v), oc(x.o))).collect();
            $c::v(&$f(&$c::r(a), &r))
        }};
    }
    match sys {
        ELO => p!(CElo, elo::elo_rating_period),
        GLICKO => p!(CGlicko, glicko::glicko_rating_period),
        GLICKO2 => p!(CGlicko2, glicko2::glicko2_rating_period),
        BOOST => pc!(CBoost, glicko_boost::glicko_boost_rating_period),
        STICKO => pc!(CSticko, sticko::sticko_rating_period),
        TS => p!(CTs, trueskill::trueskill_rating_period),
        WL => p!(CWl, weng_lin::weng_lin_rating_period),
        FIFA => px!(CFifa, fifa::fifa_rating_period),
        USCF_ => p!(CUscf, uscf::uscf_rating_period),
        EGF_ => px!(CEgf, egf::egf_rating_period),
        DWZ_ => p0!(CDwz, dwz::dwz_rating_period),
        _ => p0!(CIngo, ingo::ingo_rating_period),
    }
}

pub fn exp(sys: usize, c: &[f64], a: &V, b: &V) -> (f64, f64) {
    macro_rules! p {
        ($c:ident, $f:path) => {
            $f(&$c::r(a), &$c::r(b))
        };
    }
    macro_rules! pc {
        ($c:ident, $f:path) => {
            $f(&$c::r(a), &$c::r(b), &$c::c(c))
        };
    }
    match sys {
        ELO => p!(CElo, elo::expected_score),
        GLICKO => p!(CGlicko, glicko::expected_score),
        GLICKO2 => p!(CGlicko2, glicko2::expected_score),
        BOOST => pc!(CBoost, glicko_boost::expected_score),
        STICKO => pc!(CSticko, sticko::expected_score),
        TS => pc!(CTs, trueskill::expected_score),
        WL => pc!(CWl, weng_lin::expected_score),
        FIFA => p!(CFifa, fifa::expected_score),
        USCF_ => p!(CUscf, uscf::expected_score),
        EGF_ => pc!(CEgf, egf::expected_score),
        DWZ_ => p!(CDwz, dwz::expected_score),
        _ => p!(CIngo, ingo::expected_score),
    }
}

pub fn expp(sys: usize, c: &[f64], a: &V, rs: &[Res]) -> Vec<f64> {
    macro_rules! p {
        ($c:ident, $f:path) => {{
            let r: Vec<_> = rs.iter().map(|x| $c::r(&x.v)).collect();
            $f(&$c::r(a), &r)
        }};
    }
    macro_rules! pc {
        ($c:ident, $f:path) => {{
            let r: Vec<_> = rs.iter().map(|x| $c::r(&x.v)).collect();
            $f(&$c::r(a), &r, &$c::c(c))
        }};
    }
    macro_rules! pb {
        ($c:ident, $f:path) => {{
            let r: Vec<_> = rs.iter().map(|x| ($c::r(&x.v), x.x[0] != 0.0)).collect();
            $f(&$c::r(a), &r, &$c::c(c))
        }};
    }
    match sys {
        ELO => p!(CElo, elo::expected_score_rating_period),
        GLICKO => p!(CGlicko, glicko::expected_score_rating_period),
        GLICKO2 => p!(CGlicko2, glicko2::expected_score_rating_period),
        BOOST => pb!(CBoost, glicko_boost::expected_score_rating_period),
        STICKO => pb!(CSticko, sticko::expected_score_rating_period),
        TS => pc!(CTs, trueskill::expected_score_rating_period),
        WL => pc!(CWl, weng_lin::expected_score_rating_period),
        FIFA => p!(CFifa, fifa::expected_score_rating_period),
        USCF_ => p!(CUscf, uscf::expected_score_rating_period),
        EGF_ => {
            let r: Vec<_> = rs.iter().map(|x| (CEgf::r(&x.v), CEgf::c(&x.x))).collect();
            egf::expected_score_rating_period(&CEgf::r(a), &r)
        }
        DWZ_ => p!(CDwz, dwz::expected_score_rating_period),
        _ => p!(CIngo, ingo::expected_score_rating_period),
    }
}

/// explicit decay, where the system has one
pub fn decay(sys: usize, c: &[f64], a: &V) -> Option<V> {
    Some(match sys {
        GLICKO => CGlicko::v(&glicko::decay_deviation(&CGlicko::r(a), &CGlicko::c(c))),
        GLICKO2 => CGlicko2::v(&glicko2::decay_deviation(&CGlicko2::r(a))),
        BOOST => CBoost::v(&glicko_boost::decay_deviation(&CBoost::r(a), &CBoost::c(c))),
        STICKO => CSticko::v(&sticko::decay_deviation(&CSticko::r(a), &CSticko::c(c))),
        _ => return None,
    })
}
pub fn conf(sys: usize, a: &V) -> Option<(f64, f64)> {
    Some(match sys {
        GLICKO => glicko::confidence_interval(&CGlicko::r(a)),
        GLICKO2 => glicko2::confidence_interval(&CGlicko2::r(a)),
        BOOST => glicko_boost::confidence_interval(&CBoost::r(a)),
        STICKO => sticko::confidence_interval(&CSticko::r(a)),
        _ => return None,
    })
}

pub fn two_teams(sys: usize, c: &[f64], a: &[V], b: &[V], o: u8) -> (Vec<V>, Vec<V>) {
    if sys == TS {
        let m = place::<CTs>(&[a, b]);
        let (x, y) = trueskill::trueskill_two_teams(m.get(0), m.get(1), &oc(o), &CTs::c(c));
        (enc::<CTs>(&x), enc::<CTs>(&y))
    } else {
        let m = place::<CWl>(&[a, b]);
        let (x, y) = weng_lin::weng_lin_two_teams(m.get(0), m.get(1), &oc(o), &CWl::c(c));
        (enc::<CWl>(&x), enc::<CWl>(&y))
    }
}
pub fn exp_two(sys: usize, c: &[f64], a: &[V], b: &[V]) -> (f64, f64) {
    if sys == TS {
        let m = place::<CTs>(&[a, b]);
        trueskill::expected_score_two_teams(m.get(0), m.get(1), &CTs::c(c))
    } else {
        let m = place::<CWl>(&[a, b]);
        weng_lin::expected_score_two_teams(m.get(0), m.get(1), &CWl::c(c))
    }
}
pub fn multi(sys: usize, c: &[f64], t: &[Vec<V>], r: &[u64], w: Option<&[Vec<f64>]>) -> Result<Vec<Vec<V>>, String> {
    if sys == TS {
        let m = place::<CTs>(&slices(t));
        let tr: Vec<_> = m.all().into_iter().zip(r).map(|(t, r)| (t, MultiTeamOutcome::new(*r as usize))).collect();
        let wm = w.map(place_w);
        let ws: Option<Vec<&[f64]>> = wm.as_ref().map(Placed::all);
        match trueskill::trueskill_multi_team(&tr, &CTs::c(c), ws.as_deref()) {
            Ok(x) => Ok(x.iter().map(|x| enc::<CTs>(x)).collect()),
            Err(e) => Err(format!("{e:?} {e}")),
        }
    } else {
        let m = place::<CWl>(&slices(t));
        let tr: Vec<_> = m.all().into_iter().zip(r).map(|(t, r)| (t, MultiTeamOutcome::new(*r as usize))).collect();
        Ok(weng_lin::weng_lin_multi_team(&tr, &CWl::c(c)).iter().map(|x| enc::<CWl>(x)).collect())
    }
}
pub fn exp_multi(sys: usize, c: &[f64], t: &[Vec<V>]) -> Vec<f64> {
    if sys == TS {
        let m = place::<CTs>(&slices(t));
        let tr = m.all();
        trueskill::expected_score_multi_team(&tr, &CTs::c(c))
    } else {
        let m = place::<CWl>(&slices(t));
        let tr = m.all();
        weng_lin::expected_score_multi_team(&tr, &CWl::c(c))
    }
}
pub fn first_dwz(age: usize, rs: &[Res]) -> Result<V, String> {
    let r: Vec<_> = rs.iter().map(|x| (CDwz::r(&x.v), oc(x.o))).collect();
    dwz::get_first_dwz(age, &r).map(|x| CDwz::v(&x)).map_err(|e| format!("{e:?} {e}"))
}

pub const NCONV: usize = 22;
fn convert(n: usize, v: &V) -> V {
    match n % NCONV {
        0 => CElo::v(&EloRating::from(CIngo::r(v))),
        1 => CElo::v(&EloRating::from(CDwz::r(v))),
        2 => CElo::v(&EloRating::from(CUscf::r(v))),
        3 => CElo::v(&EloRating::from(CFifa::r(v))),
        4 => CGlicko::v(&GlickoRating::from(CGlicko2::r(v))),
        5 => CGlicko::v(&GlickoRating::from(CBoost::r(v))),
        6 => CGlicko::v(&GlickoRating::from(CSticko::r(v))),
        7 => CGlicko2::v(&Glicko2Rating::from(CGlicko::r(v))),
        8 => CGlicko2::v(&Glicko2Rating::from(CBoost::r(v))),
        9 => CGlicko2::v(&Glicko2Rating::from(CSticko::r(v))),
        10 => CBoost::v(&GlickoBoostRating::from(CGlicko::r(v))),
        11 => CBoost::v(&GlickoBoostRating::from(CGlicko2::r(v))),
        12 => CBoost::v(&GlickoBoostRating::from(CSticko::r(v))),
        13 => CSticko::v(&StickoRating::from(CGlicko::r(v))),
        14 => CSticko::v(&StickoRating::from(CGlicko2::r(v))),
        15 => CSticko::v(&StickoRating::from(CBoost::r(v))),
        16 => CTs::v(&TrueSkillRating::from(CWl::r(v))),
        17 => CWl::v(&WengLinRating::from(CTs::r(v))),
        18 => CFifa::v(&FifaRating::from(CElo::r(v))),
        19 => CUscf::v(&USCFRating::from(CElo::r(v))),
        20 => CDwz::v(&DWZRating::from(CElo::r(v))),
        _ => CIngo::v(&IngoRating::from(CElo::r(v))),
    }
}
fn rnew(sys: usize, n: usize, v: &V) -> Vec<u64> {
    macro_rules! p {
        ($c:ident) => {{
            let r = <<$c as Sy>::R as Rating>::new(
                if n & 1 == 1 { Some(v[0]) } else { None },
                if n & 2 == 2 { Some(v[1]) } else { None },
            );
            let mut o: Vec<u64> = $c::v(&r).iter().map(|x| x.to_bits()).collect();
            o.push(r.rating().to_bits());
            o.push(r.uncertainty().map_or(1, f64::to_bits));
            o
        }};
    }
    per_sys!(sys, p)
}
/// default constructors and defaults of ratings
pub fn new_default(sys: usize, n: usize) -> V {
    match sys {
        ELO => CElo::v(&EloRating::new()),
        GLICKO => CGlicko::v(&GlickoRating::new()),
        GLICKO2 => CGlicko2::v(&Glicko2Rating::new()),
        BOOST => CBoost::v(&GlickoBoostRating::new()),
        STICKO => CSticko::v(&StickoRating::new()),
        TS => CTs::v(&TrueSkillRating::new()),
        WL => CWl::v(&WengLinRating::new()),
        FIFA => CFifa::v(&FifaRating::new()),
        USCF_ => CUscf::v(&USCFRating::new(n)),
        EGF_ => CEgf::v(&EGFRating::new()),
        DWZ_ => CDwz::v(&DWZRating::new(n)),
        _ => CIngo::v(&IngoRating::new(n)),
    }
}
/// ways a rating value is made; which of them exist depends on the system and on what is known
pub const DOORS: [&str; 9] = [
    "new", "Default", "Rating::new(None, None)", "Rating::new(Some, None)", "Rating::new(Some, Some)", "From of all fields", "From of some fields",
    "field by field", "Rating::new(None, Some)",
];
/// the fields of the rating made, then what the generic accessors say; `None`: no such way
fn join(sys: usize, door: usize, v: &V, age: usize) -> Option<Vec<u64>> {
    macro_rules! seen {
        ($c:ident, $r:expr) => {{
            let r: <$c as Sy>::R = $r;
            let mut o: Vec<u64> = $c::v(&r).iter().map(|x| x.to_bits()).collect();
            o.push(Rating::rating(&r).to_bits());
            o.extend(Rating::uncertainty(&r).map(f64::to_bits));
            o
        }};
    }
    macro_rules! p {
        ($c:ident) => {
            match door {
                1 => seen!($c, Default::default()),
                2 => seen!($c, <<$c as Sy>::R as Rating>::new(None, None)),
                3 => seen!($c, <<$c as Sy>::R as Rating>::new(Some(v[0]), None)),
                4 => seen!($c, <<$c as Sy>::R as Rating>::new(Some(v[0]), Some(v[1]))),
                8 => seen!($c, <<$c as Sy>::R as Rating>::new(None, Some(v[1]))),
                _ => seen!($c, $c::r(v)),
            }
        };
    }
    Some(match (door, sys) {
        (0, ELO) => seen!(CElo, EloRating::new()),
        (0, GLICKO) => seen!(CGlicko, GlickoRating::new()),
        (0, GLICKO2) => seen!(CGlicko2, Glicko2Rating::new()),
        (0, BOOST) => seen!(CBoost, GlickoBoostRating::new()),
        (0, STICKO) => seen!(CSticko, StickoRating::new()),
        (0, TS) => seen!(CTs, TrueSkillRating::new()),
        (0, WL) => seen!(CWl, WengLinRating::new()),
        (0, FIFA) => seen!(CFifa, FifaRating::new()),
        (0, USCF_) => seen!(CUscf, USCFRating::new(age)),
        (0, EGF_) => seen!(CEgf, EGFRating::new()),
        (0, DWZ_) => seen!(CDwz, DWZRating::new(age)),
        (0, _) => seen!(CIngo, IngoRating::new(age)),
        (5, ELO) => seen!(CElo, EloRating::from(v[0])),
        (5, GLICKO) => seen!(CGlicko, GlickoRating::from((v[0], v[1]))),
        (5, GLICKO2) => seen!(CGlicko2, Glicko2Rating::from((v[0], v[1], v[2]))),
        (5, BOOST) => seen!(CBoost, GlickoBoostRating::from((v[0], v[1]))),
        (5, STICKO) => seen!(CSticko, StickoRating::from((v[0], v[1]))),
        (5, TS) => seen!(CTs, TrueSkillRating::from((v[0], v[1]))),
        (5, WL) => seen!(CWl, WengLinRating::from((v[0], v[1]))),
        (5, FIFA) => seen!(CFifa, FifaRating::from(v[0])),
        (5, USCF_) => seen!(CUscf, USCFRating::from((v[0], us(v[1])))),
        (5, EGF_) => seen!(CEgf, EGFRating::from(v[0])),
        (5, DWZ_) => seen!(CDwz, DWZRating::from((v[0], us(v[1]), us(v[2])))),
        (5, _) => seen!(CIngo, IngoRating::from((v[0], us(v[1])))),
        (6, DWZ_) => seen!(CDwz, DWZRating::from((v[0], us(v[1])))),
        (6, INGO) => seen!(CIngo, IngoRating::from(v[0])),
        (6, _) => return None,
        _ => per_sys!(sys, p),
    })
}
/// the fields of the config nobody touched
fn config(sys: usize, door: usize) -> Vec<f64> {
    macro_rules! d {
        ($t:ty) => {
            if door == 0 {
                <$t>::new()
            } else {
                <$t>::default()
            }
        };
    }
    let b = |x: bool| x as u8 as f64;
    match sys {
        ELO => vec![d!(EloConfig).k],
        GLICKO => vec![d!(GlickoConfig).c],
        GLICKO2 => {
            let k = d!(Glicko2Config);
            vec![k.tau, k.convergence_tolerance]
        }
        BOOST => {
            let k = d!(GlickoBoostConfig);
            vec![k.eta, k.k, k.b.0, k.b.1, k.alpha.0, k.alpha.1, k.alpha.2, k.alpha.3, k.alpha.4]
        }
        STICKO => {
            let k = d!(StickoConfig);
            vec![k.h, k.beta, k.lambda, k.gamma, k.c]
        }
        TS => {
            let k = d!(TrueSkillConfig);
            vec![k.draw_probability, k.beta, k.dynamics_factor]
        }
        WL => {
            let k = d!(WengLinConfig);
            vec![k.beta, k.uncertainty_tolerance]
        }
        FIFA => {
            let k = d!(FifaConfig);
            vec![k.importance, b(k.knockout), b(k.penalties)]
        }
        USCF_ => vec![d!(USCFConfig).t],
        EGF_ => vec![d!(EGFConfig).handicap],
        _ => vec![],
    }
}
/// what an outcome is worth and what a rank is, by every way to say it
fn outcome_facts(o: u8, n: usize) -> Vec<u64> {
    let k = MultiTeamOutcome::new(n);
    let f = MultiTeamOutcome::from(n);
    vec![
        oc(o).to_chess_points().to_bits(),
        k.rank() as u64,
        f.rank() as u64,
        usize::from(k) as u64,
        usize::from(f) as u64,
        (k == f) as u64,
        (k.cmp(&MultiTeamOutcome::new(n / 2)) as i8 + 1) as u64,
        (f.cmp(&MultiTeamOutcome::from(n.saturating_add(1))) as i8 + 1) as u64,
    ]
}
fn serde_rt(sys: usize, n: usize, v: &V, cfg: &[f64]) -> (u8, Vec<u64>) {
    fn go<T: Serialize + serde::de::DeserializeOwned>(t: &T) -> (u8, Vec<u64>, Option<T>) {
        let s = match serde_json::to_string(t) {
            Ok(s) => s,
            Err(_) => return (1, vec![], None),
        };
        let bits = s.bytes().map(u64::from).collect();
        match serde_json::from_str::<T>(&s) {
            Ok(x) => (0, bits, Some(x)),
            Err(_) => (1, bits, None),
        }
    }
    macro_rules! p {
        ($c:ident) => {{
            let (st, mut b, r) = go(&$c::r(v));
            if let Some(r) = r {
                b.extend($c::v(&r).iter().map(|x| x.to_bits()));
            }
            (st, b)
        }};
    }
    macro_rules! q {
        ($c:ident) => {{
            let (st, mut b, r) = go(&$c::c(cfg));
            if let Some(r) = r {
                // configs have no equality: encode again
                b.extend(serde_json::to_string(&r).unwrap_or_default().bytes().map(u64::from));
            }
            (st, b)
        }};
    }
    if n % 2 == 0 || cfg.is_empty() {
        per_sys!(sys, p)
    } else {
        per_sys!(sys, q)
    }
}

// ------------------------------------------------------------------ dynamic execution

/// Rating-system values shared between calls and threads (they hold only an immutable
/// config; sharing them is what users do).
pub struct Slots(pub Vec<(usize, Vec<f64>, Box<dyn Dyn>)>);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    pub fn for_calls<'a>(calls: impl Iterator<Item = &'a Call>) -> Self {
        let mut v: Vec<(usize, Vec<f64>, Box<dyn Dyn>)> = Vec::new();
        for c in calls {
            if c.via == 2 && !v.iter().any(|s| s.0 == c.sys && s.1 == c.cfg) {
                v.push((c.sys, c.cfg.clone(), make(c.sys, &c.cfg)));
            }
        }
        Slots(v)
    }
    fn get(&self, c: &Call) -> Option<&dyn Dyn> {
        self.0.iter().find(|s| s.0 == c.sys && s.1 == c.cfg).map(|s| &*s.2)
    }
}

fn fl(o: &mut Vec<u64>, t: &[V], w: usize) {
    o.push(t.len() as u64 | 0xFFF0_0000_0000_0000);
    for v in t {
        for x in &v[..w] {
            o.push(x.to_bits());
        }
    }
}

fn exec_inner(c: &Call, slots: &Slots) -> (u8, Vec<u64>) {
    let w = WIDTH[c.sys];
    let a = c.teams.first().and_then(|t| t.first()).copied().unwrap_or([0.0; 3]);
    let b = c.teams.get(1).and_then(|t| t.first()).copied().unwrap_or([0.0; 3]);
    let mut o = Vec::new();
    let made;
    let d: Option<&dyn Dyn> = match c.via {
        0 => None,
        2 => slots.get(c),
        _ => {
            made = make(c.sys, &c.cfg);
            Some(&*made)
        }
    };
    match c.f {
        F_PAIR => {
            let (x, y) = match d {
                Some(d) => d.pair(&a, &b, c.o),
                None => pair(c.sys, &c.cfg, &a, &b, c.o),
            };
            fl(&mut o, &[x, y], w);
        }
        F_PERIOD => {
            let x = match d {
                Some(d) => d.period(&a, &c.res),
                None => period(c.sys, &c.cfg, &a, &c.res),
            };
            fl(&mut o, &[x], w);
        }
        F_EXP => {
            let (x, y) = match d {
                Some(d) => d.exp(&a, &b),
                None => exp(c.sys, &c.cfg, &a, &b),
            };
            o.extend([x.to_bits(), y.to_bits()]);
        }
        F_EXPP => {
            let x = match d {
                Some(d) => d.expp(&a, &c.res),
                None => expp(c.sys, &c.cfg, &a, &c.res),
            };
            o.extend(x.iter().map(|x| x.to_bits()));
        }
        F_DECAY => {
            if let Some(x) = decay(c.sys, &c.cfg, &a) {
                fl(&mut o, &[x], w);
            }
        }
        F_CONF => {
            if let Some((x, y)) = conf(c.sys, &a) {
                o.extend([x.to_bits(), y.to_bits()]);
            }
        }
        F_RANK => o.push(trueskill::get_rank(&CTs::r(&a)).to_bits()),
        F_TWO => {
            let (x, y) = match d.and_then(|d| d.two(&c.teams[0], &c.teams[1], c.o)) {
                Some(x) => x,
                None => two_teams(c.sys, &c.cfg, &c.teams[0], &c.teams[1], c.o),
            };
            fl(&mut o, &x, w);
            fl(&mut o, &y, w);
        }
        F_EXPTWO => {
            let (x, y) = match d.and_then(|d| d.exptwo(&c.teams[0], &c.teams[1])) {
                Some(x) => x,
                None => exp_two(c.sys, &c.cfg, &c.teams[0], &c.teams[1]),
            };
            o.extend([x.to_bits(), y.to_bits()]);
        }
        F_MULTI => {
            let r = match d.and_then(|d| d.multi(&c.teams, &c.ranks)) {
                Some(x) => Ok(x),
                None => multi(c.sys, &c.cfg, &c.teams, &c.ranks, c.weights.as_deref()),
            };
            match r {
                Ok(x) => {
                    for t in &x {
                        fl(&mut o, t, w);
                    }
                }
                Err(e) => return (1, e.bytes().map(u64::from).collect()),
            }
        }
        F_EXPMULTI => {
            let x = match d.and_then(|d| d.expmulti(&c.teams)) {
                Some(x) => x,
                None => exp_multi(c.sys, &c.cfg, &c.teams),
            };
            o.extend(x.iter().map(|x| x.to_bits()));
        }
        F_MQ => o.push(trueskill::match_quality(&CTs::r(&a), &CTs::r(&b), &CTs::c(&c.cfg)).to_bits()),
        F_MQP => {
            let r: Vec<_> = c.res.iter().map(|x| CTs::r(&x.v)).collect();
            o.extend(trueskill::match_quality_rating_period(&CTs::r(&a), &r, &CTs::c(&c.cfg)).iter().map(|x| x.to_bits()));
        }
        F_MQTWO => {
            let m = place::<CTs>(&[&c.teams[0], &c.teams[1]]);
            o.push(trueskill::match_quality_two_teams(m.get(0), m.get(1), &CTs::c(&c.cfg)).to_bits());
        }
        F_MQMULTI => {
            let m = place::<CTs>(&slices(&c.teams));
            let tr = m.all();
            let wm = c.weights.as_deref().map(place_w);
            let ws: Option<Vec<&[f64]>> = wm.as_ref().map(Placed::all);
            match trueskill::match_quality_multi_team(&tr, &CTs::c(&c.cfg), ws.as_deref()) {
                Ok(x) => o.push(x.to_bits()),
                Err(e) => return (1, format!("{e:?} {e}").bytes().map(u64::from).collect()),
            }
        }
        F_FIRST => match first_dwz(c.n, &c.res) {
            Ok(x) => fl(&mut o, &[x], 3),
            Err(e) => return (1, e.bytes().map(u64::from).collect()),
        },
        F_CONV => fl(&mut o, &[convert(c.n, &a)], 3),
        F_RNEW => o = rnew(c.sys, c.n, &a),
        F_SERDE => return serde_rt(c.sys, c.n, &a, &c.cfg),
        F_JOIN => match join(c.sys, c.o as usize, &a, c.n) {
            Some(x) => o = x,
            None => return (1, vec![]),
        },
        F_CFG => o.extend(config(c.sys, c.n).iter().map(|x| x.to_bits())),
        F_OUTCOME => o = outcome_facts(c.o, c.n),
        _ => fl(&mut o, &[new_default(c.sys, c.n)], 3),
    }
    (0, o)
}

/// Run one call in the simulated environment; a panic is an outcome, not an error.
pub fn exec(c: &Call, slots: &Slots) -> Out {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::env::call(|| exec_inner(c, slots))));
    match r {
        Ok((st, bits)) => {
            let bits = bits.to_vec();
            Out { st, bits }
        }
        Err(p) => {
            drop(p);
            Out { st: 2, bits: vec![] }
        }
    }
}

pub fn show(c: &Call) -> String {
    let mut s = format!("{}::{}{}", NAMES[c.sys], FNAMES[c.f as usize], ["", " (trait, new value)", " (trait, shared value)"][c.via as usize]);
    if !c.teams.is_empty() {
        s += &format!(" teams={:?}", c.teams.iter().map(|t| t.iter().map(|v| v[..WIDTH[c.sys]].to_vec()).collect::<Vec<_>>()).collect::<Vec<_>>());
    }
    if !c.res.is_empty() {
        s += &format!(" results[{}]={:?}", c.res.len(), &c.res[..c.res.len().min(3)]);
    }
    s += &format!(" outcome={:?} cfg={:?} ranks={:?} weights={:?} n={}", oc(c.o), c.cfg, c.ranks, c.weights, c.n);
    if s.len() > 20_000 {
        s = format!("{} ... ({} teams of {:?} players)", &s[..2000], c.teams.len(), c.teams.iter().take(20).map(|t| t.len()).collect::<Vec<_>>());
    }
    s
}
