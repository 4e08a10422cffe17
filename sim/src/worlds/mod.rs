//! The simulated worlds and the plan type they share.
use crate::engine::RunResult;
use serde::{Deserialize, Serialize};

pub mod calls;
pub mod league;
pub mod storage;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum World {
    Threads(calls::ThreadPlan),
    Env(calls::EnvPlan),
    Seq(calls::SeqPlan),
    League(league::LeaguePlan),
    Storage(storage::StoragePlan),
    Mem(calls::MemPlan),
}

pub struct Info {
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}
pub fn info(prop: &str) -> Info {
    match prop {
        "C01" => Info {
            quick: 40_000,
            thorough: 4_000_000,
            rule: "each run draws 2-8 callers, their calls and a schedule from the seed and interleaves them at basic-block granularity; non-trivial: at least one preemption inside a library call",
            real: "the whole library, std threads, locks and thread-locals",
            stub: "thread scheduler (one thread runs at a time), futex waits, entropy, clock, heap",
        },
        "C02" => Info {
            quick: 30_000,
            thorough: 2_000_000,
            rule: "each run evaluates 1-3 calls in a canonical and 2-4 hostile environments; non-trivial: at least one call completed in a hostile environment",
            real: "the whole library, std HashMap and its hashing",
            stub: "entropy, clocks, heap contents and placement, stack contents and placement, pid, core count",
        },
        "C03" => Info {
            quick: 6000,
            thorough: 200_000,
            rule: "each run executes a history of calls (some failing or panicking) in one process and compares probes with the same call in a fresh process; non-trivial: at least one probe after other calls",
            real: "the whole library",
            stub: "process lifetime (forks), entropy, clock, heap",
        },
        "C18" => Info {
            quick: 1400,
            thorough: 200_000,
            rule: "each run makes a history of calls with ever new arguments (some refused or panicking, some on short-lived threads) on the simulated heap and looks at what the library still holds; non-trivial: more than 50 calls",
            real: "the whole library",
            stub: "heap (every byte the library allocates is accounted for), threads that come and go, entropy, clock",
        },
        "C04" => Info {
            quick: 60_000,
            thorough: 4_000_000,
            rule: "each run stores a league (ratings, config, outcomes, ranks) in one of seven formats on a simulated disk, with up to five crashes and further I/O faults, and compares every loaded record and the final ratings with the run without storage; non-trivial: at least one fault fired and a record was stored",
            real: "the whole library with its serde implementations, serde_json",
            stub: "the application and its recovery, disk, process crashes, positional and tree formats, entropy, clock, heap and stack",
        },
        "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C19" | "C20" => Info {
            quick: match prop {
                "C05" | "C06" => 120_000,
                "C07" | "C09" | "C13" => 200_000,
                "C08" => 17_000,
                "C12" => 30_000,
                "C14" | "C15" => 60_000,
                "C16" => 3_200,
                "C17" => 30_000,
                "C19" => 60_000,
                "C20" => 20_000,
                _ => 20_000,
            },
            thorough: 20_000_000,
            rule: "each run draws a league (system, config, players, events) and a fault mix from the seed, simulates its network and rates every event on a sequencer and 2-3 replicas; non-trivial: at least one fault fired and the library was called",
            real: "the whole rating library",
            stub: "clients, sequencer, replicas, network, node clocks, node storage and crashes; entropy, clock, heap and stack of the rating process",
        },
        _ => Info { quick: 0, thorough: 0, rule: "", real: "", stub: "" },
    }
}

pub fn plan(prop: &str, seed: u64, idx: u64, tier: &str) -> World {
    match prop {
        "C01" => World::Threads(calls::gen_threads(seed, tier)),
        "C02" => World::Env(calls::gen_env(seed)),
        "C03" => World::Seq(calls::gen_seq(seed, idx, tier)),
        "C18" => World::Mem(calls::gen_mem(seed, idx, tier)),
        "C04" => World::Storage(storage::gen_storage(seed, tier)),
        "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C19" | "C20" => {
            World::League(league::gen_league(prop[1..].parse().unwrap(), seed, idx, tier))
        }
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    }
}

pub fn run(w: &World) -> RunResult {
    match w {
        World::Threads(p) => calls::run_threads(p),
        World::Env(p) => calls::run_env(p),
        World::Seq(p) => calls::run_seq(p),
        World::League(p) => league::run_league(p),
        World::Storage(p) => storage::run_storage(p),
        World::Mem(p) => calls::run_mem(p),
    }
}

impl World {
    pub fn parts(&self) -> Vec<usize> {
        match self {
            World::Threads(p) => p.parts(),
            World::Env(p) => p.parts(),
            World::Seq(p) => p.parts(),
            World::League(p) => p.parts(),
            World::Storage(p) => p.parts(),
            World::Mem(p) => p.parts(),
        }
    }
    pub fn without(&self, part: usize, lo: usize, hi: usize) -> Option<World> {
        Some(match self {
            World::Threads(p) => World::Threads(p.without(part, lo, hi)?),
            World::Env(p) => World::Env(p.without(part, lo, hi)?),
            World::Seq(p) => World::Seq(p.without(part, lo, hi)?),
            World::League(p) => World::League(p.without(part, lo, hi)?),
            World::Storage(p) => World::Storage(p.without(part, lo, hi)?),
            World::Mem(p) => World::Mem(p.without(part, lo, hi)?),
        })
    }
    pub fn simpler(&self) -> Vec<World> {
        match self {
            World::Threads(p) => p.simpler().into_iter().map(World::Threads).collect(),
            World::Env(p) => p.simpler().into_iter().map(World::Env).collect(),
            World::Seq(p) => p.simpler().into_iter().map(World::Seq).collect(),
            World::League(p) => p.simpler().into_iter().map(World::League).collect(),
            World::Storage(p) => p.simpler().into_iter().map(World::Storage).collect(),
            World::Mem(p) => p.simpler().into_iter().map(World::Mem).collect(),
        }
    }
    /// how many list entries the plan holds (calls, matches, faults, schedule segments)
    pub fn events(&self) -> usize {
        self.parts().iter().sum()
    }
    pub fn size(&self) -> usize {
        serde_json::to_string(self).map_or(0, |s| s.len())
    }
}
