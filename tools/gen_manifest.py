#!/usr/bin/env python3
import json
T = "deterministic simulation with fault injection: "
CLAIMED = {
 "C01": (T+"seeded preemptive thread scheduler at basic-block granularity, fresh-process oracle",
         "Seeded search over callers, calls and interleavings (not exhaustive); every result is compared bit for bit with the same call alone in a fresh process. Trusts the coverage-guard seam: preemption happens at basic-block boundaries of the library, memory is sequentially consistent."),
 "C02": (T+"hostile-environment simulation (entropy, clock, heap, stack, identity), canonical-environment oracle",
         "Seeded search over calls and environments; bit-exact comparison. Trusts symbol interposition and the simulated allocator to cover every channel; CPU instructions such as RDTSC are not intercepted."),
 "C03": (T+"seeded call histories with failing and panicking calls, fresh-process oracle",
         "Seeded search over histories of up to 70,000 calls (1.2 million in the thorough tier); bit-exact comparison of probes with the same call in a fresh process."),
 "C04": (T+"a stored league on a simulated disk with crashes, torn and lost writes, I/O errors and damaged records, in seven formats",
         "Seeded search over leagues, formats, crash points and I/O faults; every loaded record is compared bit for bit with the run without storage. Formats are serde_json (stream, pretty, value) and the harness's own positional and tree formats; other serde formats are not run."),
 "C05": (T+"simulated league network with reordering, loss, duplication, stalls and crashes; replicas against a sequencer",
         "Seeded search over leagues, delivery orders and faults. Every replica closes each rating period with the results in the order they reached it; ratings must agree with the sequencer's up to rounding (1e-9 relative; Glicko-2 within its own convergence tolerance)."),
 "C06": (T+"simulated streams cut by crashes, batches and checkpoints; replicas against a sequencer that rates match by match",
         "Seeded search over streams and cut points; bit-level cuts are chosen by the fault schedule. Ratings agree within 1e-9 relative."),
 "C07": (T+"the same simulated match rated by referee, both players' nodes, a swapped node and the generic traits",
         "Seeded search over leagues and faults; each replica takes another route through the API for every match of the log and must reach the sequencer's ratings and forecasts. One recorded finding (K1) is recognised by its exact value."),
 "C08": (T+"team check-ins reordered by the simulated network; replicas against a sequencer",
         "Seeded search over team matches and arrival orders of teams and players; also rank relabelling, weights left out, one-player teams, empty teams, lone teams, and the teams' forecasts and match quality."),
 "C09": (T+"conservation over simulated league histories with retries, duplicates and crashes",
         "Conservation is checked for every rated match on every node and over whole pools; tolerance 1e-9 relative per match."),
 "C10": (T+"invariants over simulated league histories, every state fed back into the next event",
         "Seeded search over histories; invariants checked after every library call on every node. Histories stay inside the documented rating ranges (players who leave them are replaced)."),
 "C11": (T+"refinement of an independent executable model, event by event, over simulated league histories",
         "Seeded search; every library call of every node is compared with the model (tolerance 1e-7 relative; TrueSkill 1e-6 plus three times the sensitivity to the approximation of erfc; Glicko-2 plus its convergence tolerance)."),
 "C12": (T+"bounded-progress check: basic blocks per call over simulated league histories, work budget per run",
         "Seeded search; the bound is a fixed number of basic blocks per unit of argument size. Match quality is not a rating call and is not bounded (its determinant is exponential in the number of teams)."),
 "C13": (T+"stalled nodes, clock skew and jumps delay missed periods; lazy and timely nodes must agree",
         "Seeded search over missed-period patterns; late nodes are compared with the sequencer and with the closed form of the documented rule."),
 "C14": (T+"nodes of a simulated league answer forecasts after every event, from current and outdated ratings; model oracle",
         "Seeded search over histories, faults and queries; every forecast is compared with an independent formula (1e-9, TrueSkill 1e-6), checked for range, sum and monotonicity. Depends on schedules only through the states they reach. One recorded finding (K1) is recognised by its exact value."),
 "C15": (T+"simulated migrations between rating systems at arbitrary points of a league's history, over random paths, rolled back",
         "Seeded search over states and paths of up to 400 conversions; compared with the formula after every step and with the start at the end (1e-9 relative; deviations exactly). Volatility, counters and ages are not carried by the library and not checked."),
 "C16": (T+"matchmakers of a simulated TrueSkill league ask for match quality in their own order and by their own route; model oracle",
         "Seeded search over league states, team constellations (up to five teams, ten players) and report orders; compared with a tridiagonal closed form (1e-6 relative)."),
 "C17": (T+"reports damaged by the simulated network; refusal oracle",
         "Seeded search over damaged and sound weights and over prefixes of a newcomer's games. Any truthful error is accepted when a report has several faults. NaN weights are left out: the library says nothing about them."),
 "C18": (T+"long simulated histories of calls on a fully accounted simulated heap, with refused and panicking calls and short-lived threads",
         "Seeded search over histories of up to 60,000 calls (ten times more in the thorough tier); the library holds nothing after a call today, the bound is 256 KiB, so a leak shows once a history loses more than that."),
 "C19": (T+"players join a simulated league on every node through another constructor, again after crashes; documented start values as oracle",
         "Seeded search over moments, knowledge about the newcomer, ages and constructors; given values are compared exactly, start values within 1e-12."),
 "C20": (T+"two simulated leagues in correspondence (shifted, scaled, mirrored, mimicked) are rated side by side, event by event",
         "Seeded search over histories and correspondences; every rating call, forecast, interval and match quality is compared with its counterpart (4e-9 relative, TrueSkill 1e-6, Glicko-2 plus its convergence tolerance). TrueSkill outcomes beyond five standard deviations are left out."),
}
PENDING = {}
NA = {}
m = {
 "version": 1,
 "setup_cmd": "sh check.sh",
 "checks": [
  {"property": p, "quick_cmd": f"sh check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough sh check.sh {p}",
   "technique": t, "level": "exploration", "level_note": n} for p, (t, n) in sorted(CLAIMED.items())],
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted({**NA, **PENDING}.items())],
 "notes": "No hooks in /repo: guards come from compiling the crate with coverage instrumentation, the other seams from symbol interposition and a simulated allocator in /verif/sim. `target/release/sim replay FILE` replays a violation.",
}
have = {json.loads(l)["id"] for l in open("/verif/properties.jsonl")}
for p in sorted(have - set(CLAIMED) - set(NA)):
    m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
