#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

ALL = ["src/%s.rs" % m for m in "elo glicko glicko2 glicko_boost sticko weng_lin fifa uscf egf dwz ingo".split()] + \
      ["src/trueskill/mod.rs", "src/trueskill/factor_graph.rs", "src/trueskill/schedule.rs", "src/trueskill/matrix.rs", "src/trueskill/math.rs", "src/lib.rs"]

p("C01", "Concurrent callers never influence each other's results",
  "When any number of threads call any functions or trait methods of the library at the same time, sharing rating-system values, configs and ratings between them, every call returns bit for bit the value it returns when it is the only call ever made in a fresh process. No interleaving makes a call panic, block or deadlock that would not do so alone.",
  ["schedules", "inputs"],
  "every interleaving of every set of concurrent calls, down to the basic blocks inside a call",
  "Each unit test is one thread making a few calls; the harness runs tests in parallel but never controls or varies where two calls overlap.",
  ALL,
  [("all public functions are free of shared mutable state", "src/*.rs"),
   ("per-call factor graph built from Rc/RefCell owned by one call", "src/trueskill/mod.rs trueskill_multi_team"),
   ("rating-system structs hold only an immutable config", "impl RatingSystem/RatingPeriodSystem/TeamRatingSystem/MultiTeamRatingSystem for *")],
  ["return values of public functions", "panics"])

p("C02", "Results never depend on entropy, memory contents, clock or thread",
  "The same call with the same arguments returns bit-identical results on every thread, in every process and on every run: it does not depend on the operating system's random numbers (hash-map seeds), on what freshly allocated memory contains or where it lies, on stack position, or on the time of day. Replicas that rate the same match therefore agree exactly.",
  ["fault_sequences", "configurations", "inputs"],
  "every outcome of the entropy source (including interrupted and short reads), every allocator placement and fill, every clock reading",
  "Tests run once with whatever entropy, memory and clock the process happens to get, and compare most values after rounding, so a last-digit dependence on hash-map order passes.",
  ["src/trueskill/factor_graph.rs", "src/trueskill/mod.rs", "src/trueskill/matrix.rs", "src/trueskill/schedule.rs", "src/dwz.rs", "src/weng_lin.rs"],
  [("randomly seeded HashMaps are only looked up by key, never iterated", "src/trueskill/factor_graph.rs Variable::messages; src/dwz.rs get_first_dwz"),
   ("no clock, no uninitialised memory, no address-dependent choice", "src/**")],
  ["return values of public functions"])

p("C03", "Earlier calls leave no trace in later results",
  "The result of a call depends only on its own arguments: no history of earlier calls - however many, with whatever other configs or ratings, including calls that returned an error or panicked - changes what a later call returns. A rating-system value that has rated a million matches rates the next one exactly like a new one with the same config.",
  ["histories", "fault_sequences"],
  "every history of successful, failing and panicking calls before a call",
  "Each test makes a handful of calls in a fresh process or thread and never compares the same call before and after a long or faulty history.",
  ALL,
  [("no statics, thread-locals or interior mutability outlive a call", "src/**"),
   ("rate and expected_score take &self and only read the config", "trait impls in src/*.rs")],
  ["return values of public functions and trait methods"])

p("C04", "Ratings survive crash, restart and storage faults exactly",
  "With the serde feature, a league that stores ratings, configs, outcomes and ranks, crashes at any instant and restarts from what was durable continues exactly as if it had never crashed: every completely stored record loads back bit-identical, in self-describing and positional formats, under the documented public field names. A record that is torn, truncated or missing a field is refused with an error, never silently completed or altered, and an error of the underlying reader or writer is reported, never swallowed.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point inside and between library calls and writes, every torn, lost or failed write and failed read",
  "No test serialises anything at all: the serde feature is only compiled.",
  ["src/lib.rs"] + ["src/%s.rs" % m for m in "elo glicko glicko2 glicko_boost sticko weng_lin fifa uscf egf dwz ingo".split()] + ["src/trueskill/mod.rs"],
  [("derived Serialize/Deserialize on every rating, config and outcome type", "cfg_attr(feature = \"serde\") derives in src/*.rs")],
  ["bytes written through serde", "values or errors read back"])

p("C05", "Order of arrival within a rating period does not matter",
  "In the systems that treat a rating period as played at once (Glicko, Glicko-2, Glicko-Boost, Sticko, USCF, EGF, DWZ, Ingo, and a first DWZ rating), a player's new rating depends on the set of results only: replicas that receive the same results of a period in different orders, of any number and with repeated opponents, compute the same rating up to floating-point rounding. Predictions for a list of opponents are likewise per opponent, whatever the order.",
  ["schedules", "inputs"],
  "every delivery order of the results of a period",
  "Every rating-period test feeds its results in one fixed order.",
  ["src/glicko.rs", "src/glicko2.rs", "src/glicko_boost.rs", "src/sticko.rs", "src/uscf.rs", "src/egf.rs", "src/dwz.rs", "src/ingo.rs"],
  [("sums over all results against the rating at the start of the period", "*_rating_period functions"),
   ("per-result change accumulated, player not updated in between", "src/egf.rs egf_rating_period")],
  ["new rating of each player at period close on each replica"])

p("C06", "Streaming, batching and checkpointing give the same sequential rating",
  "In the systems that update a player match by match inside a period (Elo, FIFA, TrueSkill, Weng-Lin), rating a list of results at once equals rating them one at a time in the same order, and equals stopping after any prefix, storing the rating, restarting and rating the rest. No cut of the stream changes the outcome.",
  ["crash_points", "histories"],
  "every cut point of every stream of results, with a crash and restart at the cut",
  "Tests compare one or two short lists with a loop; none cuts a list, and most compare rounded values.",
  ["src/elo.rs", "src/fifa.rs", "src/trueskill/mod.rs", "src/weng_lin.rs"],
  [("rating-period loops carry only the player's rating from match to match", "elo_rating_period, fifa_rating_period, trueskill_rating_period, weng_lin_rating_period")],
  ["rating after each prefix on the streaming node and after the batch on the batching node"])

p("C07", "Both sides of a match and the referee compute the same result",
  "In every rating system, a match rated by a referee (both players at once), by each player's own node (a rating period holding that single match, with outcome and match circumstances seen from its side), by the generic traits, or by a node that names the two sides in the opposite order, yields the same two new ratings. The forecasts these parties make for the match agree in the same way: they are the same number per player and the two players' forecasts add up to one.",
  ["schedules", "histories", "inputs"],
  "every match in every history, whichever node and API rates it first",
  "Tests check rate-at-once against a rating period for a few matches in some systems, from one side only, and mostly after rounding.",
  ["src/%s.rs" % m for m in "elo glicko glicko2 glicko_boost sticko weng_lin fifa uscf egf dwz ingo".split()] + ["src/trueskill/mod.rs", "src/lib.rs"],
  [("pairwise and rating-period functions implement the same formula separately", "src/*.rs"),
   ("trait impls forward to the free functions", "impl RatingSystem, RatingPeriodSystem for *")],
  ["ratings and forecasts on referee, home and away nodes"])

p("C08", "Team results do not depend on the order teams or players are reported in",
  "For team and multi-team matches (TrueSkill, Weng-Lin), reporting the teams, or the players inside a team, in another order gives every player the same new rating, returned in the position that player was reported in; only the relative order of the ranks matters, not their values (teams sharing a rank keep their mutual order in TrueSkill). A match of one-player teams is the one-on-one match, a Weng-Lin match of two teams is the two-team match, leaving out weights is the same as weighting everybody fully, and a match with an empty team or without opponents leaves every rating unchanged. Forecasts and match quality for the teams follow the same rules.",
  ["schedules", "inputs", "configurations"],
  "every order in which the reports of teams and players arrive, every team count and size, every rank labelling",
  "Tests use two or three teams of up to four players in one order.",
  ["src/trueskill/mod.rs", "src/trueskill/schedule.rs", "src/trueskill/factor_graph.rs", "src/weng_lin.rs", "src/lib.rs"],
  [("sort by rank, remember positions, unsort", "src/trueskill/mod.rs trueskill_multi_team"),
   ("pairwise sums over all other teams", "src/weng_lin.rs weng_lin_multi_team")],
  ["returned teams, per player identity"])

p("C09", "Matches never create or destroy rating points",
  "Over any history of matches, in any order and with any retries, the rating points of a closed Elo pool stay constant, as do those of a closed FIFA pool for matches that are neither knock-out nor decided on penalties, and those of an Ingo pool of players of equal age group. In Weng-Lin and in two-sided TrueSkill matches the changes of the two sides, each weighted by the inverse of the variance used for that player, cancel in every match.",
  ["histories", "schedules"],
  "every history of matches over every pool, every order of application",
  "Tests look at single matches with rounded ratings; drift over a history is invisible to them.",
  ["src/elo.rs", "src/fifa.rs", "src/ingo.rs", "src/weng_lin.rs", "src/trueskill/mod.rs"],
  [("one expected score, the other side gets its complement", "expected_score in src/elo.rs, src/fifa.rs"),
   ("shared factor with opposite signs", "src/trueskill/math.rs new_rating; src/weng_lin.rs small_delta")],
  ["sum of ratings of the pool after every match"])

p("C10", "Ratings stay sane over every history",
  "Starting from default or ordinary ratings, no history of matches, rating periods, team games and missed periods ever yields a NaN or infinite value or a panic: deviations, uncertainties and volatilities stay positive, Glicko, Glicko-Boost and Sticko deviations never exceed 350, USCF ratings never fall below 100 and EGF ratings never below -900. Game and event counters advance by exactly the matches or events rated, ages never change, and in Elo, Glicko, Glicko-2, Glicko-Boost, FIFA without penalties, DWZ, TrueSkill and Weng-Lin a winner never drops and a loser never rises. (In a weighted team match at least one player of every team takes part; outcomes more than 20 standard deviations away from what TrueSkill expects are outside its numerics.)",
  ["histories", "fault_sequences"],
  "every history of rated events, each state being fed back into the next event",
  "Tests rate isolated matches from hand-picked ratings and never feed results back for more than a few steps.",
  ["src/%s.rs" % m for m in "elo glicko glicko2 glicko_boost sticko weng_lin fifa uscf egf dwz ingo".split()] + ["src/trueskill/mod.rs"],
  [("caps and floors", ".min(350.0), .max(100.0), .max(-900.0), .max(uncertainty_tolerance)"),
   ("empty-period guards", "is_empty checks in *_rating_period"),
   ("counters", "index + 1 in src/dwz.rs; games + results.len() in src/uscf.rs")],
  ["every rating after every event"])

p("C11", "Every league history refines the published algorithm",
  "After every event of every history - matches, whole rating periods, team and multi-team games with ties and partial-play weights, missed periods, in any order, with any config - the ratings equal those of an independent executable model of the published algorithm (Elo, Glicko, Glicko-2, Glicko-Boost, Sticko, TrueSkill, Weng-Lin, FIFA, USCF, EGF, DWZ, Ingo) applied to the same history, within numerical tolerance. This holds on every node, whether it streams, batches, or recovered from a crash.",
  ["histories", "schedules", "fault_sequences"],
  "every history the simulated league can produce, under message loss, duplication, reordering, crashes and missed periods",
  "Tests pin a few published examples; regions of state only reached after a history (provisional to established, volatility drift, boosted deviations, deep ties) are not pinned.",
  ALL,
  [("the rating formulas", "src/*.rs, src/trueskill/*.rs")],
  ["state of every replica after every log entry, compared with the model"])

p("C12", "Every rating call finishes within bounded work",
  "Whatever state a league has reached, each rating or decay call returns after an amount of work bounded in the size of its arguments (about five times what the hardest states need today); in particular the iterative parts (Glicko-2 volatility search, TrueSkill message passing) always converge or stop. A node that receives a backlog therefore always catches up once faults stop.",
  ["histories", "inputs", "configurations"],
  "every state reachable by a history and every config in its documented range",
  "A test that hangs is noticed only for the few states the tests visit; the number of iterations is never observed.",
  ["src/glicko2.rs", "src/trueskill/schedule.rs", "src/trueskill/mod.rs"],
  [("Illinois regula falsi with halving", "src/glicko2.rs new_volatility"),
   ("at most ten sweeps, early stop on small delta", "src/trueskill/schedule.rs run_schedule")],
  ["basic blocks executed per call, counted by the simulator"])

p("C13", "Missed periods only widen uncertainty, however late they are noticed",
  "A player who plays nothing in a rating period keeps the same rating, in every system. Where the system has a deviation, each missed period widens it by the documented amount (never narrows it) up to the cap of 350, an empty rating period and the explicit decay do exactly the same, and a node that was stalled or whose clock jumped and applies the missed periods late ends with the same rating as one that applied each in time.",
  ["schedules", "histories", "fault_sequences"],
  "every pattern of missed periods, stalls, clock skew and jumps",
  "One test per system decays one rating once; several systems have no test of an empty period at all.",
  ["src/glicko.rs", "src/glicko2.rs", "src/glicko_boost.rs", "src/sticko.rs", "src/ingo.rs", "src/uscf.rs", "src/egf.rs", "src/dwz.rs", "src/elo.rs", "src/fifa.rs", "src/trueskill/mod.rs", "src/weng_lin.rs"],
  [("empty results fall through to decay_deviation", "glicko, glicko2, glicko_boost, sticko rating-period functions"),
   ("deviation.hypot(c).min(350)", "decay_deviation functions")],
  ["rating and deviation after each period tick on punctual and stalled nodes"])


# ---- what nodes answer between the events of a league
p("C14", "Every forecast made during a league is the system's win probability",
  "Whatever history of matches, periods and faults a node has been through, and whichever mixture of current and outdated ratings it answers from: every forecast (one on one, list of opponents, two teams, many teams; through the functions or the generic traits) is a finite probability between 0 and 1 equal to the win probability of the rating system's formula; the forecasts of all sides of a match add up to one, and a side that gets stronger never gets a lower forecast (Ingo's linear score is not clamped, by design). The confidence intervals shown beside Glicko-family ratings are the rating plus or minus 1.96 deviations, TrueSkill's displayed rank is the rating minus three uncertainties.",
  ["histories", "inputs", "fault_sequences"], "every state a league can reach or mix from current and outdated ratings, every config, colour, handicap and team constellation",
  "Tests evaluate a few fixed rating pairs.", ALL,
  [("logistic / normal cdf formulas", "expected_score* in src/*.rs"), ("1.96 deviations", "confidence_interval in src/glicko*.rs, src/sticko.rs"), ("get_rank", "src/trueskill/mod.rs")],
  ["forecasts, intervals and ranks returned after each event of a simulated league"])
p("C15", "A league can move to another rating system and back without loss",
  "A league that migrates its players' ratings to another rating system of the same family, over any path of conversions the library offers, at any moment of its history, and is rolled back - once or hundreds of times - has the ratings (and, where the systems have one, the deviations) it started with. Every single conversion is the published formula, and no conversion ever changes which of two players is the stronger one.",
  ["histories", "inputs"], "every reachable rating, every path and number of conversions",
  "Tests convert a few values once.",
  ["src/elo.rs", "src/dwz.rs", "src/ingo.rs", "src/uscf.rs", "src/fifa.rs", "src/glicko.rs", "src/glicko2.rs", "src/glicko_boost.rs", "src/sticko.rs", "src/weng_lin.rs", "src/trueskill/mod.rs"],
  [("From impls between rating types", "src/*.rs")], ["ratings after each step of a simulated migration"])
p("C16", "Match quality is the same probability of a draw for every matchmaker",
  "Whatever state a TrueSkill league has reached, every matchmaker that asks for the quality of a match - one on one, against a list of opponents, as two teams or as a list of teams, in any order of teams and players, with or without partial-play weights - gets the same number: the probability of a draw relative to a perfectly even match, between 0 and 1. The call never panics for a match of two or more non-empty teams.",
  ["histories", "inputs"], "every set of up to five teams of up to four players of every reachable league state, all report orders",
  "Tests evaluate a few matches; none asks the multi-team function about two teams.",
  ["src/trueskill/mod.rs", "src/trueskill/matrix.rs"], [("closed form and matrix form", "match_quality* in src/trueskill/mod.rs"), ("determinant, inverse, product", "src/trueskill/matrix.rs")], ["returned quality"])
p("C17", "Damaged reports are refused precisely, sound ones never",
  "A match report whose partial-play weights were damaged on the way - teams or players missing or added, weights negative, several faults at once - is refused with an error that names a fault it really has (the team, and the player), by rating and by match quality alike, never accepted and never answered with a panic; a report whose weights fit the teams and are not negative is never refused. A newcomer's first DWZ is refused exactly while fewer than five games have arrived or all or none of them were won, with the reason that applies.",
  ["fault_sequences", "histories", "inputs"], "every damage to the shape and values of weights, every prefix of a newcomer's games",
  "Tests cover one instance of each error.",
  ["src/trueskill/weights.rs", "src/trueskill/mod.rs", "src/dwz.rs"], [("validation of weights", "get_weights in src/trueskill/weights.rs"), ("NotEnoughGames, InvalidWinRate", "get_first_dwz in src/dwz.rs")], ["returned Result of each report, damaged or not"])
p("C18", "A long-lived node never runs out of memory",
  "However many calls a process makes - of any kind, with ever new arguments, with results, refusals or panics, on one thread or on many short-lived ones - the memory the library still holds after a call stays below a small fixed bound (256 KiB), and the memory a call needs while it runs is bounded by the size of its own arguments.",
  ["histories", "schedules"], "every history of calls of any length and argument values, every pattern of threads that come and go",
  "Tests make a handful of calls per process and never look at the heap.",
  ALL, [("reference-counted factor graph", "src/trueskill/factor_graph.rs"), ("no state outlives a call", "whole crate")], ["bytes the library holds after each call and at the peak of each call, on the simulated heap"])
p("C19", "A newcomer is the same player on every node, however the rating was made",
  "A player who joins a league at any moment - with nothing known, with a known rating, with a known rating and deviation, with everything known, or imported from another rating system - gets the same rating on every node, whichever way of making a rating that node uses (new, Default, the generic constructor with any mixture of known and unknown values, From) and however often a crash makes it repeat the step: what is known is kept exactly, what is not known is the documented start value (also for each age in USCF, and the credited games, index and age of imported players). The generic accessors always show the fields of the rating a player has reached, a node that restarts with the default config gets the documented one, and outcomes and ranks read back as reported.",
  ["histories", "inputs", "fault_sequences"], "every mixture of known and unknown values, every age, every way of making a rating on every node, at every point of a history",
  "Tests compare a few of these constructors with each other for one value.",
  ALL, [("new, Default, Rating::new, From impls", "src/*.rs"), ("config constructors", "src/*.rs"), ("Outcomes, MultiTeamOutcome", "src/lib.rs")], ["fields of a rating after it was made; what the generic accessors say"])
p("C20", "A league's scale is its own choice",
  "Two leagues with corresponding events stay in correspondence for every history: where the formulas use rating differences only (Elo, Glicko, Glicko-2, Sticko, FIFA, Ingo; TrueSkill and Weng-Lin one on one and between teams of equal size; Glicko-Boost apart from its deviation growth), a league in which everybody starts a constant higher stays exactly that constant higher; TrueSkill and Weng-Lin leagues with all ratings, uncertainties and config widths multiplied by a factor stay multiplied by it; a league with negated ratings and reversed results stays the mirror image (without knock-out rules, penalties, participation bonus or performance boosts); raising Elo's k or FIFA's importance by a factor raises the change of a match by that factor; and Sticko and Glicko-Boost configured to mimic Glicko rate like Glicko. Forecasts, confidence intervals and match quality correspond likewise. (TrueSkill matches of three or more teams are left out: the number of its message-passing rounds depends on the scale.)",
  ["histories", "inputs"], "every history, every shift, factor and mirror image",
  "Tests use one scale per system, and one pair of ratings to compare Sticko with Glicko.",
  ["src/elo.rs", "src/glicko.rs", "src/glicko2.rs", "src/glicko_boost.rs", "src/sticko.rs", "src/fifa.rs", "src/ingo.rs", "src/trueskill/mod.rs", "src/trueskill/math.rs", "src/trueskill/erf.rs", "src/trueskill/matrix.rs", "src/weng_lin.rs"],
  [("expected-score and update formulas", "src/*.rs"), ("StickoConfig, GlickoBoostConfig: mimic the GlickoConfig", "src/sticko.rs, src/glicko_boost.rs")], ["ratings and forecasts of corresponding events in both leagues"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=True) + "\n")
