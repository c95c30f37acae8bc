import json
L = "model_checking"
TECH = "TLA+ specification checked with TLC; traces of the real code validated against it by TLC"
def note(s): return s
CHECKS = {
 "C01": "Exhaustive for the model bounds; the code is bound by programs generated by TLC and random nested programs whose every execution is checked. Ticks are dyadic, so floating point is exact.",
 "C02": "As C01; in addition the complete set of orders the specification allows for small ticks is compared with the set the code produces over 2500 seeds.",
 "C03": "As C01.",
 "C04": "Exhaustive for 2-3 ranks in the model (with liveness); the code runs on 1-7 MPI ranks, events ordered by a lock-protected logical clock.",
 "C05": "Exhaustive for 2 agents, 2 ranks and short histories in the model; the code runs generated histories on 2-8 ranks, every rank's local agents and their state compared with the specification after every collective operation.",
 "C06": "As C05, with grids and continuous spaces of 1-3 dimensions on up to 12 ranks, both kinds of borders, several spaces in one context, and synchronization without ghosts.",
 "C07": "As C06; the buffer of every rank is compared with the declarative meaning (distance with wrap-around).",
 "C08": "As C05; every ghost's state, owner and reason for being is compared with the specification.",
 "C09": "As C05, with removals of agents that are requested, buffered, linked, out of bounds or about to be linked.",
 "C11": "Exhaustive for 2 agents and short histories in the model, against one ideal graph; the code runs generated histories of edge changes from either side. Contradicting changes of one edge on both of its ranks between two synchronizations are outside the domain.",
 "C12": "As C11, with agents moved explicitly and through spaces, alone and together.",
 "C25": "As C05, with all query operations after each synchronize and late projections.",
 "C10": "Exhaustive for 2-3 agents in the model; the code is bound by histories generated by TLC and long random ones on directed and undirected networks, every query of the graph checked after every operation.",
 "C13": "Exhaustive for small graphs in the model (files, partitions and the networks they are read into); the code writes and reads generated graphs on 1-7 ranks, with every attribute type, and goes on with changes and synchronizations.",
 "C21": "Exhaustive for 2-3 ranks and short histories in the model; the code logs generated histories with all reducers, dtypes, buffer sizes and formats on 1-5 ranks, the file's text parsed and compared after each write.",
 "C22": "As C21, for tables with rows of every rank.",
 "C23": "Exhaustive for 2 events with a save and a restore at every tick, an algorithm-level model of save and restore refining the abstract one; the code saves and restores generated schedules (files and live objects, tags, chains of checkpoints, 1-5 ranks) and the continuation is compared with the original's, including the random choices.",
 "C24": "As C05 and C11, with checkpoints saved (files and live objects) and restored at generated points of the histories, also long after saving.",
 "C26": "Exhaustive for small parameter files, overrides and seeds in the model; the code initializes parameters from generated files and command lines, and every generated program (schedules, spaces, queries, random generators) runs in two processes with different hash seeds and differently disturbed heaps, the runs compared observation by observation.",
 "C14": "Exhaustive for 2-3 agents on a small grid; the code (grids and continuous spaces, plain and shared, 1-3 dimensions) is bound by generated histories whose every observation is checked.",
 "C15": "As C14; in addition arbitrary coordinates (far outside, tiny, huge bounds) with results classified against the border rules.",
 "C16": "As C14, with boxes queried after moves and removes, several tree thresholds and co-located agents.",
 "C17": "Exhaustive for the arrangement formula and its slices up to 4x4 / 3x3x3 processes; the code (topology, shared grid, continuous space, value layer) runs on communicators of 1-12 (thorough 27) ranks and every rank's box and regions are checked against the declarative meaning.",
 "C18": "Exhaustive for small windows in the model; the code is bound by programs generated by TLC and random ones, every read value and neighbourhood checked.",
 "C19": "As C18; shared layers on 1-12 ranks, every position of every window read after each synchronize, through get and through the tensor.",
 "C20": "As C18, for read-write layers with writes, swaps and synchronizations interleaved on 1-6 ranks.",
}
m = dict(version=1, setup_cmd="python3 harness/build.py",
         checks=[dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                      evidence_file="evidence/%s.json" % p, technique=TECH, level=L, level_note=n) for p, n in sorted(CHECKS.items())],
         not_applicable=[dict(property="C%02d" % k, reason="check under construction") for k in range(1, 27) if "C%02d" % k not in CHECKS])
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
