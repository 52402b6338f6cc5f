#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (run by hand)."""
import json, sys
ALL = ["C%02d" % i for i in range(1, 20)]
CLAIMED = sys.argv[1:] or ALL
SEQ = "assumes the reference interpreter (model.rs) states the ReactiveX definitions; open choices listed in DESIGN.md section 5 are accepted either way"
CONC = "interleavings are sampled at the granularity of std::sync/thread/time calls under sequential consistency; weak memory is not simulated"
NOTE = {
 "C01": "seeded search over pipelines, ill-formed scripts and interleavings; contract automaton on every subscriber",
 "C02": "deterministic simulation of one source under operator chains with endings injected at every position; " + SEQ + ". Most of the property is input space rather than schedule space; the simulator supplies the arrival history and the ending fault",
 "C03": "seeded search over arrival orders; " + SEQ,
 "C04": "seeded search over error positions and flaky sources; " + SEQ,
 "C05": "cancellation injected at every step and, with threads, at every lock operation; " + CONC,
 "C06": "every ending cause at every position against instrumented sources; " + SEQ,
 "C07": "deadlock, livelock and panic detection by the simulator over concurrent scenarios and re-entrant histories; " + CONC,
 "C08": "posters, tasks and aborts under every scheduling strategy with spurious wake-ups; " + CONC,
 "C09": "observe_on/subscribe_on under seeded schedules; " + CONC,
 "C10": "subject histories against a small reference state machine",
 "C11": "2..3 emitting threads per combinator, conservation checked over the recorded history; " + CONC,
 "C12": "producers, joiners and leavers on the subjects, history checked per producer; " + CONC,
 "C13": "connectable histories against a reference state machine and instrumented sources",
 "C14": "runs of combined subscriptions compared with runs of lone subscriptions of the same program",
 "C15": "live simulated threads counted in virtual time after every way of ending; " + CONC,
 "C16": "virtual clock; instants compared with a timed reference; " + CONC,
 "C17": "reference-counted tokens in every callback, closure and item",
 "C18": "to_vec polled by a minimal executor inside the simulation; " + CONC,
 "C19": "racing inputs and terminals under seeded schedules, logical stamps on every emission and callback; " + CONC,
}
m = {
 "version": 1,
 "setup_cmd": "./check --build",
 "checks": [{
   "property": p,
   "quick_cmd": "./check " + p,
   "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
   "technique": "deterministic simulation with fault injection (seeded schedules, virtual clock, replayable traces)",
   "level": "exploration",
   "level_note": NOTE[p],
 } for p in CLAIMED],
 "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ALL if p not in CLAIMED],
 "notes": "No hooks in /repo: every check copies /repo/src to build/rx and links it against a simulated std (sim/simstd). See DESIGN.md; findings in KNOWN_FINDINGS.",
}
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
