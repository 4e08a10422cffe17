//! Forked simulated processes, plans, replay, minimisation.
use crate::env;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// what kind of violation; minimisation keeps it
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    /// hash of the full event log of the run
    pub log: u64,
    pub nontrivial: bool,
    pub vtime_ms: u64,
    /// short description, for samples
    pub note: String,
}
impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        if v > 0 {
            *self.n.entry(k.to_string()).or_insert(0) += v;
        }
    }
    pub fn max(&mut self, k: &str, v: u64) {
        let e = self.n.entry(format!("max:{k}")).or_insert(0);
        *e = (*e).max(v);
    }
    pub fn fold(&mut self, x: u64) {
        self.log = crate::rng::mix(self.log ^ x);
    }
    pub fn fold_f(&mut self, x: f64) {
        self.fold(x.to_bits());
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunResult {
    pub viol: Option<Viol>,
    pub stats: Stats,
    /// the plan with every decision made explicit (set when a violation was found)
    pub explicit: Option<crate::worlds::World>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Died {
    Code(i32),
    Signal(i32),
}

const SHM: usize = 64 << 20;
static mut SHMP: *mut u8 = std::ptr::null_mut();

pub fn shm_init() {
    unsafe {
        SHMP = env::mmap(std::ptr::null_mut(), SHM, 3, 0x1 | 0x20 | 0x4000, -1, 0);
    }
}
/// second half of the shared buffer: the simulated disk, which survives simulated crashes
pub fn disk_area() -> (*mut u8, usize) {
    unsafe { (SHMP.add(SHM / 2), SHM / 2) }
}

pub static mut WALL_ALARM: u32 = 60;

/// Run `f` in a forked process: nothing it does to process state survives.
pub fn forked<T: Serialize + serde::de::DeserializeOwned>(f: impl FnOnce() -> T) -> Result<T, Died> {
    unsafe {
        *(SHMP as *mut u64) = 0;
        let pid = env::fork();
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            env::prctl(1, 9, 0, 0, 0);
            env::prctl(4, 0, 0, 0, 0); // no core dumps: simulated crashes are many
            env::alarm(WALL_ALARM);
            let r = f();
            env::set_env(env::EnvCfg { on: false, ..env::EnvCfg::canonical() });
            let b = serde_json::to_vec(&r).unwrap_or_default();
            if b.len() + 8 > SHM / 2 {
                env::_exit(3);
            }
            std::ptr::copy_nonoverlapping(b.as_ptr(), SHMP.add(8), b.len());
            *(SHMP as *mut u64) = b.len() as u64;
            env::_exit(0);
        }
        let mut st = 0;
        while env::waitpid(pid, &mut st, 0) != pid {}
        if st & 127 != 0 {
            return Err(Died::Signal(st & 127));
        }
        let code = (st >> 8) & 255;
        if code != 0 {
            return Err(Died::Code(code));
        }
        let n = *(SHMP as *const u64) as usize;
        let b = std::slice::from_raw_parts(SHMP.add(8), n);
        serde_json::from_slice(b).map_err(|_| Died::Code(3))
    }
}

pub fn died_class(d: &Died) -> &'static str {
    match d {
        Died::Code(env::EXIT_LIMIT) => "never finished (work budget exhausted)",
        Died::Code(env::EXIT_DEADLOCK) => "deadlock",
        Died::Code(_) => "process exited",
        Died::Signal(14) => "never finished (wall clock)",
        Died::Signal(_) => "process killed (abort or memory fault)",
    }
}

/// ddmin over every list of the plan, keeping the violation class.
pub fn minimise(w: &crate::worlds::World, class: &str, deadline: std::time::Instant) -> (crate::worlds::World, u64) {
    let mut cur = w.clone();
    let mut tried = 0;
    let test = |w: &crate::worlds::World, tried: &mut u64| {
        *tried += 1;
        matches!(crate::worlds::run(w).viol, Some(v) if v.class == class)
    };
    loop {
        let before = cur.size();
        let mut part = 0;
        while part < cur.parts().len() {
            let mut chunk = cur.parts()[part].div_ceil(2).max(1);
            loop {
                let mut lo = 0;
                while part < cur.parts().len() && lo < cur.parts()[part] {
                    if std::time::Instant::now() > deadline {
                        return (cur, tried);
                    }
                    let n = cur.parts()[part];
                    let hi = (lo + chunk).min(n);
                    match cur.without(part, lo, hi) {
                        Some(c) if test(&c, &mut tried) => cur = c,
                        _ => lo = hi,
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = chunk.div_ceil(2);
                if chunk == 0 {
                    break;
                }
            }
            part += 1;
        }
        for c in cur.simpler() {
            if std::time::Instant::now() > deadline {
                return (cur, tried);
            }
            if test(&c, &mut tried) {
                cur = c;
            }
        }
        if cur.size() >= before {
            return (cur, tried);
        }
    }
}

/// known findings: (id, property, text), read from the committed file and never written
pub fn known() -> &'static [(String, String, String)] {
    static K: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
        let s = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
        s.lines()
            .filter_map(|l| {
                let r = l.strip_prefix("known: id=")?;
                let (id, r) = r.split_once(" property=")?;
                let (p, t) = r.split_once(' ')?;
                Some((id.into(), p.into(), t.into()))
            })
            .collect()
    })
}
pub fn is_known(id: &str, prop: &str) -> bool {
    known().iter().any(|k| k.0 == id && k.1 == prop)
}
