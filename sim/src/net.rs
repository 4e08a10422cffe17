//! Discrete-event simulation of the deployment: clients report results to a sequencer with a
//! durable log, the sequencer distributes the log to replicas. Messages are lost, duplicated,
//! delayed and reordered; nodes are partitioned, stalled, crash and restart from their last
//! checkpoint; checkpoint writes are lost. Every decision is a keyed hash of the seed, so that
//! removing one event does not change the others; every fault that fired is written down.
use crate::rng::{hash, mix};
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BinaryHeap, BTreeMap, BTreeSet};

pub const LOSS: u8 = 0;
pub const DUP: u8 = 1;
pub const DELAY: u8 = 2;
pub const ACKLOSS: u8 = 3;
pub const CRASH: u8 = 4;
pub const STALL: u8 = 5;
pub const PART: u8 = 6;
pub const SAVEFAIL: u8 = 7;
pub const FLUSH: u8 = 8;
pub const SAVE: u8 = 9;
pub const FNAMES: [&str; 10] = [
    "message lost", "message duplicated", "message delayed or reordered", "acknowledgement lost", "node crash and restart", "node stalled",
    "network partition", "checkpoint write lost", "batch boundary", "checkpoint",
];
/// the sequencer's own number
pub const SEQ: u8 = 255;

/// kind, node, uid, attempt, parameter
pub type Fault = (u8, u8, u32, u8, u32);

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct NetCfg {
    pub nodes: u8,
    /// probabilities in 1/1000
    pub p: [u16; 10],
    /// milliseconds
    pub jitter: u32,
    /// queued results must also be applied in log order, per player
    pub ordered: bool,
}
pub struct Item {
    pub uid: u32,
    pub t: u32,
    pub close: bool,
    pub epoch: u32,
    /// players this item must not overtake another item of (empty: any order within the epoch)
    pub players: Vec<u16>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Apply(usize),
    Flush,
    Save,
    /// back to the last checkpoint that reached the disk
    Crash,
}
#[derive(Default)]
pub struct NetOut {
    /// item indices in the order the sequencer logged them
    pub log: Vec<usize>,
    /// per node
    pub nodes: Vec<Vec<Step>>,
    pub fired: Vec<Fault>,
    pub counts: [u64; 10],
    pub vtime: u64,
    pub stuck: bool,
    pub trace: u64,
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
enum Ev {
    Submit(usize, u8),
    Arrive(usize),
    Send(u8, usize, u8),
    Recv(u8, usize, u8),
    Restart(u8),
}

struct Node {
    up: bool,
    stalled: u64,
    inc: u8,
    inbox: Vec<usize>,
    applied: BTreeSet<usize>,
    saved: BTreeSet<usize>,
    epoch: u32,
    saved_epoch: u32,
    left: usize,
    part: Option<(u64, u64)>,
    crashes: u32,
}

const BASE: u64 = 5;
const RTO: u64 = 60;
/// attempts beyond this one are not interfered with: faults stop
const LAST: u8 = 6;

fn next(a: u8) -> u8 {
    if a % 8 < 7 {
        a + 1
    } else {
        a
    }
}

pub fn simulate(seed: u64, cfg: &NetCfg, items: &[Item], explicit: Option<&[Fault]>) -> NetOut {
    let table: Option<BTreeMap<(u8, u8, u32, u8), u32>> = explicit.map(|f| f.iter().map(|f| ((f.0, f.1, f.2, f.3), f.4)).collect());
    let mut out = NetOut::default();
    let mut fault = |k: u8, node: u8, uid: u32, att: u8, range: u32, fired: &mut Vec<Fault>, counts: &mut [u64; 10]| -> Option<u32> {
        let d = match &table {
            Some(t) => *t.get(&(k, node, uid, att))?,
            None => {
                if att % 8 >= LAST && k != DELAY && k != FLUSH && k != SAVE {
                    return None;
                }
                let h = hash(&[seed, k as u64, node as u64, uid as u64, att as u64]);
                if h % 1000 >= cfg.p[k as usize] as u64 {
                    return None;
                }
                1 + (mix(h) % range.max(1) as u64) as u32
            }
        };
        fired.push((k, node, uid, att, d));
        counts[k as usize] += 1;
        Some(d)
    };
    let mut nodes: Vec<Node> = (0..cfg.nodes)
        .map(|_| Node {
            up: true,
            stalled: 0,
            inc: 0,
            inbox: vec![],
            applied: BTreeSet::new(),
            saved: BTreeSet::new(),
            epoch: 0,
            saved_epoch: 0,
            left: 0,
            part: None,
            crashes: 0,
        })
        .collect();
    let epochs = items.iter().map(|i| i.epoch).max().unwrap_or(0) as usize + 1;
    let mut size = vec![0usize; epochs];
    for i in items {
        if !i.close {
            size[i.epoch as usize] += 1;
        }
    }
    for n in &mut nodes {
        n.left = size[0];
    }
    out.nodes = vec![vec![]; cfg.nodes as usize];
    let mut logged = vec![false; items.len()];
    let mut held: Vec<usize> = Vec::new();
    let mut arb_epoch = 0u32;
    let mut arb_left = size[0];
    let mut prev: Vec<Vec<usize>> = vec![vec![]; items.len()];
    let mut last_of: BTreeMap<u16, usize> = BTreeMap::new();
    let mut q: BinaryHeap<Reverse<(u64, u64, Ev)>> = BinaryHeap::new();
    let mut tie = 0u64;
    macro_rules! at {
        ($t:expr, $e:expr) => {{
            tie += 1;
            q.push(Reverse(($t, tie, $e)));
        }};
    }
    for (i, it) in items.iter().enumerate() {
        at!(it.t as u64, Ev::Submit(i, 0));
    }
    let mut events = 0u64;
    let cap = 2000 + items.len() as u64 * (cfg.nodes as u64 + 1) * 80;
    while let Some(Reverse((now, _, ev))) = q.pop() {
        events += 1;
        if events > cap {
            out.stuck = true;
            break;
        }
        out.vtime = out.vtime.max(now);
        let (fi, co) = (&mut out.fired, &mut out.counts);
        match ev {
            Ev::Submit(i, a) => {
                let uid = items[i].uid;
                if fault(LOSS, SEQ, uid, a, 1, fi, co).is_some() {
                    at!(now + (RTO << (a % 8).min(3)), Ev::Submit(i, next(a)));
                    continue;
                }
                let d = fault(DELAY, SEQ, uid, a, cfg.jitter, fi, co).unwrap_or(0) as u64;
                at!(now + BASE + d, Ev::Arrive(i));
                if let Some(d) = fault(DUP, SEQ, uid, a, cfg.jitter * 2, fi, co) {
                    at!(now + BASE + d as u64, Ev::Arrive(i));
                }
                if fault(ACKLOSS, SEQ, uid, a, 1, fi, co).is_some() {
                    // the client does not know and reports again
                    at!(now + (RTO << (a % 8).min(3)), Ev::Submit(i, next(a)));
                }
            }
            Ev::Arrive(i) => {
                if logged[i] || held.contains(&i) {
                    continue; // retried or duplicated: already known by its id
                }
                held.push(i);
                loop {
                    let k = held.iter().position(|&j| {
                        let it = &items[j];
                        it.epoch == arb_epoch && (!it.close || arb_left == 0)
                    });
                    let Some(k) = k else { break };
                    let j = held.remove(k);
                    let it = &items[j];
                    logged[j] = true;
                    for p in &it.players {
                        if let Some(&b) = last_of.get(p) {
                            prev[j].push(b);
                        }
                        last_of.insert(*p, j);
                    }
                    out.log.push(j);
                    out.trace = mix(out.trace ^ it.uid as u64);
                    if it.close {
                        arb_epoch += 1;
                        arb_left = size.get(arb_epoch as usize).copied().unwrap_or(0);
                        last_of.clear();
                    } else {
                        arb_left -= 1;
                    }
                    for n in 0..cfg.nodes {
                        at!(now, Ev::Send(n, j, 0));
                    }
                }
            }
            Ev::Send(n, i, a) => {
                let uid = items[i].uid;
                let nd = &mut nodes[n as usize];
                if nd.part.is_none() || nd.part.unwrap().1 <= now {
                    if let Some(d) = fault(PART, n, uid, a, 2000, fi, co) {
                        nd.part = Some((now, now + d as u64));
                    }
                }
                let cut = matches!(nd.part, Some((f, t)) if now >= f && now < t);
                let retry = now + (RTO << (a % 8).min(4));
                if cut || fault(LOSS, n, uid, a, 1, fi, co).is_some() {
                    at!(retry.max(if cut { nd.part.unwrap().1 } else { 0 }), Ev::Send(n, i, next(a)));
                    continue;
                }
                let d = fault(DELAY, n, uid, a, cfg.jitter, fi, co).unwrap_or(0) as u64;
                at!(now + BASE + d, Ev::Recv(n, i, a));
                if let Some(d) = fault(DUP, n, uid, a, cfg.jitter * 2, fi, co) {
                    at!(now + BASE + d as u64, Ev::Recv(n, i, a));
                }
                if fault(ACKLOSS, n, uid, a, 1, fi, co).is_some() {
                    at!(retry, Ev::Send(n, i, next(a)));
                }
            }
            Ev::Recv(n, i, a) => {
                let uid = items[i].uid;
                let nd = &mut nodes[n as usize];
                if !nd.up {
                    // nobody there: the sequencer sends again after the restart
                    continue;
                }
                if now < nd.stalled {
                    at!(nd.stalled, Ev::Recv(n, i, a));
                    continue;
                }
                if nd.applied.contains(&i) || nd.inbox.contains(&i) {
                    continue;
                }
                if nd.crashes < 6 {
                    if let Some(d) = fault(CRASH, n, uid, a, 400, fi, co) {
                        nd.up = false;
                        nd.crashes += 1;
                        nd.inc += 1;
                        nd.inbox.clear();
                        nd.applied = nd.saved.clone();
                        nd.epoch = nd.saved_epoch;
                        out.nodes[n as usize].push(Step::Crash);
                        at!(now + d as u64, Ev::Restart(n));
                        continue;
                    }
                }
                if let Some(d) = fault(STALL, n, uid, a, 600, fi, co) {
                    nd.stalled = now + d as u64;
                    at!(nd.stalled, Ev::Recv(n, i, LAST));
                    continue;
                }
                nd.inbox.push(i);
                drain(&mut nodes[n as usize], n, items, &prev, &size, &mut fault, fi, co, &mut out.nodes[n as usize]);
            }
            Ev::Restart(n) => {
                let nd = &mut nodes[n as usize];
                nd.up = true;
                nd.stalled = 0;
                for &j in &out.log {
                    if !nd.applied.contains(&j) {
                        at!(now + 1, Ev::Send(n, j, nd.inc * 8));
                    }
                }
                let e = nd.epoch as usize;
                nd.left = size.get(e).copied().unwrap_or(0) - nd.applied.iter().filter(|j| items[**j].epoch as usize == e && !items[**j].close).count();
            }
        }
    }
    for n in &nodes {
        if n.applied.len() != items.len() {
            out.stuck = true;
        }
    }
    for s in &out.nodes {
        for x in s {
            let v = match x {
                Step::Apply(i) => items[*i].uid as u64 + 16,
                Step::Flush => 1,
                Step::Save => 2,
                Step::Crash => 3,
            };
            out.trace = mix(out.trace ^ v);
        }
    }
    out
}

#[allow(clippy::too_many_arguments)]
fn drain(
    nd: &mut Node,
    n: u8,
    items: &[Item],
    prev: &[Vec<usize>],
    size: &[usize],
    fault: &mut impl FnMut(u8, u8, u32, u8, u32, &mut Vec<Fault>, &mut [u64; 10]) -> Option<u32>,
    fi: &mut Vec<Fault>,
    co: &mut [u64; 10],
    out: &mut Vec<Step>,
) {
    loop {
        let k = nd.inbox.iter().position(|&j| {
            let it = &items[j];
            it.epoch == nd.epoch && (if it.close { nd.left == 0 } else { prev[j].iter().all(|b| nd.applied.contains(b)) })
        });
        let Some(k) = k else { break };
        let j = nd.inbox.remove(k);
        let it = &items[j];
        nd.applied.insert(j);
        out.push(Step::Apply(j));
        if it.close {
            nd.epoch += 1;
            nd.left = size.get(nd.epoch as usize).copied().unwrap_or(0);
        } else {
            nd.left -= 1;
        }
        let att = nd.inc.min(7) * 8;
        if fault(FLUSH, n, it.uid, att, 1, fi, co).is_some() {
            out.push(Step::Flush);
        }
        if fault(SAVE, n, it.uid, att, 1, fi, co).is_some() && fault(SAVEFAIL, n, it.uid, att, 1, fi, co).is_none() {
            out.push(Step::Save);
            nd.saved = nd.applied.clone();
            nd.saved_epoch = nd.epoch;
        }
    }
}
