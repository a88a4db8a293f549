"""The checks: which workloads, profiles and lanes decide which property."""
from . import driver

# lanes: the world of 9 processes is split into independent models of these sizes; weights share out the time
E9 = [{"lanes": [4, 3, 1, 1], "weight": 2}, {"lanes": [9], "weight": 2}, {"lanes": [2, 6, 1], "weight": 2}, {"lanes": [8, 1], "weight": 2}, {"lanes": [2, 2, 5], "weight": 1}]
E1 = [{"lanes": [1] * 8, "weight": 4}, {"lanes": [2, 3, 1, 1, 1], "weight": 1}]

OPS = {"add": 1.0, "remove": 0.7, "mutate": 1.0, "move": 4.0}

CHECKS = {}
REASONS = {}

DIST_RULE = ("A case is a random model (1-9 ranks; grids and continuous spaces of 1-3 dimensions, both borders, random bounds, origins and buffer sizes; networks) "
             "driven through a random history of its public operations (half of the cases use the operations next to the property only, half mix every feature: requests, explicit moves, removals, "
             "networks, several spaces, projections added later; weights, sizes, agent states and identities vary from case to case), with a reference model of the whole distributed system on every rank; "
             "after every synchronisation each rank compares its view with the reference. Distinct by the hash of configuration and steps. Non-trivial: ")
ASSUME_DIST = ["agents are created with ids unique per type and rank, saved and restored by a create/restore function written as the documentation shows (with and without a cache)",
               "all ranks call the collective operations the same number of times in the same order, as the documentation requires",
               "MPI (OpenMPI, shared memory transport) delivers messages correctly"]
LIM = " Sampled executions only: nothing is claimed about histories not generated."


def dist(pid, profile, must, what, note, q=18, th=240, epochs=None, extra=(), **kw):
    profile = dict({"p_mix": 0.5}, **profile)
    CHECKS[pid] = dict({"jobs": [{"workload": "w_dist", "profile": profile,
                             "quick": {"budget_s": q, "epochs": epochs or E9},
                             "thorough": {"budget_s": th, "epochs": epochs or E9, "repeat": 3}}] + list(extra),
                   "must": must, "rule": DIST_RULE + what, "assumptions": ASSUME_DIST,
                   "technique": "runtime monitoring: online oracle (distributed reference model) over random multi-rank histories", "note": note + LIM}, **kw)


def single(pid, workload, profile, must, rule, note, assumptions=(), q=15, th=240, epochs=None, extra=(), technique=None, flavor="plain", unclaimed=None, post=(), **job):
    CHECKS[pid] = {"jobs": [dict({"workload": workload, "profile": profile, "flavor": flavor,
                                  "quick": {"budget_s": q, "epochs": epochs or E1},
                                  "thorough": {"budget_s": th, "epochs": epochs or E1, "repeat": 2}}, **job)] + list(extra),
                   "must": must, "rule": rule, "assumptions": list(assumptions), "post": list(post),
                   "technique": technique or "runtime monitoring: online oracle (reference model) over random histories", "note": note + LIM}
    if unclaimed:
        CHECKS[pid]["unclaimed"] = unclaimed


dist("D01", {"spaces": ["g", "c", "gc", "gg"], "ops": OPS, "oracles": ["population"], "p_noghost": 0.15, "noghost_only_unbuffered": True},
     ["obs_local_agents", "agents_crossed"], "at least one agent changed rank.",
     "After every synchronisation all ranks' local populations (identity, state) are compared with the reference population.")
dist("D02", {"spaces": ["g", "c", "gc", "cg"], "ops": dict(OPS, move=6.0), "oracles": ["location"], "p_noghost": 0.15, "noghost_only_unbuffered": True},
     ["obs_locations", "agents_crossed"], "at least one agent changed rank.",
     "After every synchronisation each located agent's rank and exact location on that rank are compared with the reference (whose border arithmetic is written independently).")
dist("D03", {"spaces": ["g", "c", "gc", "gg"], "ops": OPS, "oracles": ["buffer", "ghosts"], "bmin": 1}, ["obs_buffered", "obs_no_ghosts"],
     "some rank holds buffered agents.",
     "After every synchronisation the buffer contents found through location and range queries are compared as a multiset with those computed from all owners' locations. A rank holds no copy it has no reason for.")
dist("D04", {"spaces": ["none", "none", "g", "c", "gc"], "nnets": [0, 0, 1], "req_any": True, "rereq": True,
             "ops": {"add": 0.6, "remove": 0.7, "mutate": 3.0, "move": 3.0, "request_c": 0.7, "move_agents_c": 0.25},
             "oracles": ["requests"]}, ["obs_requested", "requests"], "some rank holds a requested agent.",
     "The oracle tracks, per rank, which agents are requested, and checks their copies' presence, state and disappearance after every synchronisation.")
dist("D05", {"spaces": ["none", "none", "g", "c"], "nnets": [0, 0, 1], "req_any": True, "rereq": True,
             "ops": {"add": 0.6, "remove": 0.5, "mutate": 2.0, "move": 2.0, "request_c": 0.5, "move_agents_c": 0.8},
             "oracles": ["population", "ghosts"]}, ["obs_local_agents", "explicit_moves", "obs_ghosts"], "agents were moved explicitly.",
     "After move_agents and after every synchronisation the populations and the copies' states are compared with the reference.")
dist("D06", {"spaces": ["none", "g", "c"], "req_any": True, "rereq": True,
             "ops": {"add": 2.0, "remove": 1.5, "mutate": 0.3, "move": 3.0, "request_c": 0.2, "move_agents_c": 0.3},
             "oracles": ["index"]}, ["obs_index", "obs_typed"], "populations with several types.",
     "After every step all population queries are compared with a per-rank list kept in insertion order.")
dist("N01", {"spaces": ["none"], "nnets": [1, 1, 2], "req_any": True, "rereq": True,
             "ops": {"add": 0.6, "remove": 0.0, "mutate": 1.0, "edge_add": 3.0, "edge_update": 1.0, "edge_remove": 1.0, "edge_clear": 0.08, "request_c": 0.7},
             "oracles": ["edges"]}, ["obs_edges", "obs_cross_edges"], "edges between ranks exist.",
     "After every synchronisation the graph of every rank is compared with the reference edge set, attributes and end states included.")
dist("N02", {"spaces": ["none", "g", "c"], "nnets": [1, 1, 2], "req_any": True, "rereq": True,
             "ops": {"add": 0.6, "remove": 0.0, "mutate": 1.0, "move": 2.0, "edge_add": 3.0, "edge_update": 1.0, "edge_remove": 1.0, "edge_clear": 0.08, "request_c": 0.6, "move_agents_c": 0.4},
             "oracles": ["edges", "ghosts"]}, ["obs_edges", "obs_cross_edges", "explicit_moves", "agents_crossed"], "agents with edges changed rank.",
     "After every synchronisation and explicit move the graph of every rank is compared with the reference edge set.")
dist("N03", {"spaces": ["none", "g", "c"], "nnets": [1, 1, 2], "req_any": True, "rereq": True,
             "ops": {"add": 1.0, "remove": 2.0, "mutate": 1.0, "move": 2.0, "edge_add": 3.0, "edge_update": 0.5, "edge_remove": 0.5, "edge_clear": 0.04, "request_c": 0.6, "move_agents_c": 0.2},
             "oracles": ["removed", "population", "edges", "ghosts"]}, ["obs_edges", "obs_cross_edges", "obs_removed"], "agents with edges were removed.",
     "After every synchronisation removed agents are looked up everywhere and the rest of the system is compared with the reference.")

SPACE_RULE = ("A case is a random space (local or shared grid or continuous space, 1-3 dimensions, random bounds and origin, both borders, single or multiple occupancy, "
              "index thresholds 1-100) driven through 10-150 random adds, moves (inside, on borders, far outside, onto occupied cells), removals and re-adds, against a dictionary. "
              "Distinct by the hash of configuration and steps; non-trivial when agents are in the space at the end.")
ASSUME_SPACE = ["continuous coordinates are finite and below 2^53 in magnitude", "one agent object per identity in a space"]
single("S01", "w_space", {"oracles": ["views"]}, ["obs_views", "obs_lookups", "obs_refused", "obs_shared_points"], SPACE_RULE,
       "Both views are compared with a dictionary after every operation (small populations) or every fifth.", ASSUME_SPACE)
single("S02", "w_space", {"oracles": ["borders"], "far": True, "p_single": 0.0, "dims": [1, 2, 3]},
       ["obs_moves_inside", "obs_moves_wrapped", "obs_moves_clamped", "obs_transforms"], SPACE_RULE,
       "Every move's result is compared with exact rational arithmetic for the wanted location.", ASSUME_SPACE)
single("S03", "w_space", {"oracles": ["query"], "classes": ["CSpace", "CSpace", "SCSpace"], "nq": 4, "p_single": 0.3}, ["obs_queries", "obs_partial_queries"], SPACE_RULE,
       "Every query is compared, as a multiset, with a scan over all agents' locations.", ASSUME_SPACE)
single("S04", "w_space", {"oracles": ["memory"], "p_single": 0.4}, ["obs_misuse", "obs_released", "obs_kept", "obs_iterated"],
       SPACE_RULE + " The native core is rebuilt with AddressSanitizer and UndefinedBehaviorSanitizer; misuse calls, iterator invalidation and release of every object are part of the histories. "
       "A second job runs random distributed models under the same sanitizers.",
       "Sanitizer reports, weak references and reference counts decide. Leaks inside the C++ heap are not looked for (Python's own allocations drown them); released Python objects are.",
       ASSUME_SPACE, flavor="asan", technique="runtime monitoring: AddressSanitizer and UBSan builds of the native core, reference count monitors",
       extra=[{"workload": "w_dist", "flavor": "asan",
               "profile": {"spaces": ["g", "c", "gc", "gg"], "ops": OPS, "oracles": ["population", "location", "buffer"], "p_noghost": 0.1, "noghost_only_unbuffered": True},
               "quick": {"budget_s": 12, "epochs": [{"lanes": [4, 3, 1]}, {"lanes": [8]}, {"lanes": [2, 6]}]},
               "thorough": {"budget_s": 200, "epochs": [{"lanes": [4, 3, 1]}, {"lanes": [8]}, {"lanes": [2, 6]}], "repeat": 2}}])

SCHED_RULE = ("A case is a random dynamic program for the schedule runner (one per rank): one-time and repeating events of all priority types, whose code schedules further events "
              "(same tick, later, in the past), voids events and itself, and stops the run. Distinct by configuration and seed; non-trivial when more than four events were scheduled. ")
ASSUME_SCHED = ["every rank has an event pending until the stop (a rank with an empty schedule reports tick -1, which the documentation does not allow for)",
                "intervals and ticks are multiples of 2^-20, so that sums of floats are exact"]
E3 = [{"lanes": [4, 3, 1], "weight": 2}, {"lanes": [8], "weight": 1}, {"lanes": [2, 6], "weight": 1}, {"lanes": [2, 2, 2, 2], "weight": 1}, {"lanes": [3, 5]}]
single("T01", "w_sched", {"act": 0.25, "shuffle": 0.12, "p_repeat": 0.1, "initial": [0, 60]}, ["obs_events", "obs_ordered", "obs_past_events", "obs_shuffles"], SCHED_RULE,
       "Each execution is judged online against the pending events: earlier ticks, order within the tick, exactly once; random interleaving is judged over 100 ticks.", ASSUME_SCHED, q=12)
single("T02", "w_sched", {"act": 0.6, "p_repeat": 0.5, "initial": [1, 12], "prevoid": True}, ["obs_repeats", "obs_same_tick", "obs_voided", "obs_void_self"], SCHED_RULE,
       "The oracle's own pending list says which events must and may still run.", ASSUME_SCHED, q=12)
single("T03", "w_sched", {"act": 0.3, "p_repeat": 0.3, "initial": [0, 12], "idle": 0.25, "delay": 0.3}, ["obs_cross_steps", "obs_end_events", "obs_events"],
       SCHED_RULE + "Events sleep for random times; lock step is decided on the merged logs of all ranks with a common monotonic clock.",
       "Time stamps of all ranks' events are merged: no event of a later tick may start before every event of earlier ticks has ended.", ASSUME_SCHED, q=16, epochs=E3)

single("S05", "w_topo", {}, ["obs_regions", "obs_uneven", "obs_sent_cells"],
       "A case is four random worlds (1-3 dimensions, any origin, extents from the number of processes per dimension up to a million, both borders, buffers up to the smallest region) "
       "decomposed as a topology, shared grid or shared continuous space. Distinct by configuration; non-trivial on two or more ranks.",
       "All ranks' regions, coordinates and strips are gathered and compared with the definition (product partition; strip = cells within the buffer distance of the neighbour's region).",
       ["extents are at least the number of processes per dimension", "one-dimensional worlds have ymin = 0"], q=14, epochs=E9 + [{"lanes": [7, 2]}, {"lanes": [12]}],
       technique="runtime monitoring: offline checker over all ranks' gathered descriptions of the decomposition")
single("S06", "w_geom", {}, ["obs_points", "obs_clipped_points", "obs_wrapped_points", "obs_thin_duplicates", "obs_far_worlds"],
       "A case is forty random worlds (1-3 dimensions, any origin, extents from 1) in which the neighbourhood of every point (or of corner and random points of large worlds) is computed, in both orders. "
       "Distinct by configuration; all are non-trivial.",
       "Results are compared with a naive enumeration of the neighbourhood in the documented order.", ["points lie inside the bounds", "coordinates stay within 64-bit integers"], q=10,
       epochs=[{"lanes": [1] * 6}], technique="runtime monitoring: online oracle (naive enumeration) over random inputs")

VL_RULE = ("A case is a random value layer (bounds with any origin, extents from 1 or the number of processes per dimension, both borders, numeric types float32/64, int32/64, all kinds of initial values) "
           "driven through a random history of writes, reads, neighbourhood queries and whole-grid operations")
single("V01", "w_vl", {"mode": "single"}, ["obs_cells", "obs_reads", "obs_nghs", "obs_wrapped", "obs_clamped"], VL_RULE + " (local layers, 1-3 dimensions). Distinct by configuration and steps; all are non-trivial.",
       "Reads, neighbourhoods and the grid tensor are compared with a dictionary keyed by cell.", ["neighbourhoods are asked for points inside the bounds"], q=12)
single("V02", "w_vl", {"mode": "shared"}, ["obs_own", "obs_buffer", "obs_nghs_border", "obs_buffer_writes", "obs_through_border"],
       VL_RULE + ", synchronised through a context, on 1-9 ranks, 1-2 dimensions, buffer sizes up to the smallest local extent. Non-trivial with at least one synchronisation on two or more ranks.",
       "Every rank compares all its own cells and all cells in buffer reach with the owners' values as of the last synchronisation.",
       ["three-dimensional shared layers are refused by the library", "locations beyond a rank's buffer are not read"], q=16, epochs=E9 + [{"lanes": [7, 2]}])
single("V03", "w_vl", {"mode": "rw"}, ["obs_own", "obs_buffer", "obs_nghs_border", "obs_swaps"],
       VL_RULE + " and swaps, synchronised through a context, on 1-9 ranks. Non-trivial with at least one synchronisation on two or more ranks.",
       "Both layers are shadowed; reads, neighbourhoods and buffers are compared with the read layer's shadow, which only swaps exchange.",
       ["three-dimensional shared layers are refused by the library"], q=16, epochs=E9 + [{"lanes": [7, 2]}])

dist("K02", {"spaces": ["none", "g", "c", "gc"], "nnets": [0, 1, 1, 2], "req_any": True, "rereq": True, "steps": [1, 5],
             "ops": {"add": 0.6, "remove": 0.7, "mutate": 1.5, "move": 3.0, "edge_add": 3.0, "edge_update": 1.0, "edge_remove": 1.0, "edge_clear": 0.05, "request_c": 0.2, "checkpoint_c": 0.6},
             "oracles": ["population", "location", "edges", "ghosts", "buffer"]},
     ["obs_checkpoints", "obs_late_pickles", "obs_edges", "obs_cross_edges", "obs_locations"], "a checkpoint was taken and restored.",
     "At random moments the model is checkpointed, goes on (before or after pickling), and is replaced by the restored one, which must agree with the reference as of saving and goes on under the same oracles.",
     q=20)

single("K01", "w_ckpt", {"p_fresh": 0.03}, ["obs_saves", "obs_restores", "obs_restored_events", "obs_entries", "obs_partial", "obs_second", "obs_fresh", "obs_beyond"],
       "A case is a random dynamic program per rank (one-time, repeating, end and stop events of all priorities, schedules and voids from within events, tags, ignored events) checkpointed at one to three moments "
       "(before the run, at any tick, after a stop), pickled at once or after the run, restored at once or in several parts, in the same process or a fresh one, and run to the end, possibly checkpointed again. "
       "Distinct by configuration and seed; non-trivial when more than three events ran after the checkpoint.",
       "The logs (tick, event, random draw) of the continued and the restored run must be equal; ticks, tags, metadata and stops are compared when restoring.",
       ["checkpoints are taken between ticks or by the only event of a tick", "events are recreated from metadata as the documentation shows"], q=16, epochs=[{"lanes": [1] * 6, "weight": 3}, {"lanes": [2, 3, 1, 1]}, {"lanes": [4, 2]}],
       technique="runtime monitoring: offline comparison of the event logs of the continued and the restored run")

LOG_ASSUME = ["all ranks call write, log (data sets) and close the same number of times, as the documentation requires", "the file system is not changed by others while a log is open"]
single("L01", "w_log", {"mode": "tab"}, ["obs_rows", "obs_shared_writes", "obs_silent_ranks"],
       "A case is one to three tabular logs on 1-9 ranks, fed with random rows (values with delimiters, quotes, line breaks, other scripts; rows of other lengths; silent ranks; up to 600 rows at once) and written and closed at random moments. "
       "Distinct by configuration and steps; non-trivial when several ranks have rows in one write.",
       "After every write rank 0 reads the whole file with a standard CSV reader and compares it with all rows of all ranks.", LOG_ASSUME, q=12, epochs=E9,
       technique="runtime monitoring: offline checker over the files written (exactly-once, order)")
single("L02", "w_log", {"mode": "red"}, ["obs_lines", "obs_full", "obs_grown", "obs_writes"],
       "A case is one or two data sets on 1-9 ranks with one to five columns (dataclass fields or own sources; SUM, MIN, MAX, PROD; 32 and 64 bit integers and floats; renamed columns), "
       "write buffers of 1 to 1001 ticks and up to several thousand ticks with explicit writes in between. Distinct by configuration and steps; non-trivial with more than two ticks on several ranks.",
       "After every flush rank 0 compares the whole file with the reductions computed from all ranks' values, which every rank draws.", LOG_ASSUME + ["values are such that the reduction is exact in any order"], q=16, epochs=E9,
       technique="runtime monitoring: offline checker over the files written (conservation, order)")
single("L03", "w_log", {"mode": "files"}, ["obs_new_files", "obs_renamed", "obs_names", "obs_bare_names", "obs_closed"],
       "A case is a directory with random existing files, numbered siblings with gaps and neighbours, in which up to six runs open logs, data sets or parameter dumps with one path (any suffixes, relative or absolute, missing directories), "
       "left open and closed in any order. Distinct by configuration and steps; non-trivial when a name was taken.",
       "Contents of the whole tree are hashed before and after every step.", ["parameter dumps are made by one rank, to an existing directory"], q=12, epochs=E9,
       technique="runtime monitoring: file system snapshots around every operation")

single("N04", "w_netfile", {}, ["obs_file_nodes", "obs_file_edges", "obs_agents", "obs_edges", "obs_remote_ends", "obs_later_syncs", "obs_read_on_one", "obs_unbalanced", "obs_metis", "obs_joined", "obs_broken", "obs_refused_writes"],
       "A case is a random directed or undirected graph (0-60 nodes, hubs, self loops, isolated nodes, random JSON attributes of nodes and edges, types) written by write_network for the ranks it is read on (or read on one), "
       "or with a random unbalanced assignment, read by read_network on 1-9 ranks, then changed and synchronised. Distinct by configuration and steps; non-trivial with edges between ranks (or several parts read on one).",
       "The file is parsed independently and compared with the graph; agents, graph, attributes and copies of every rank are compared with the file's.",
       ["node identities are integers", "attribute names are those a create function can take", "the metis library is not installed here: a stand-in answers with arbitrary partitions"], q=16, epochs=E9,
       technique="runtime monitoring: offline checker of the file written, online oracle for the network read")
single("R01", "w_par", {}, ["obs_runs", "obs_parsed", "obs_seeded", "obs_seed_overridden", "obs_dumps", "obs_overridden", "obs_streams"],
       "A case is one to four runs resolving random parameters files (any nesting and YAML types, empty files) and overrides, directly or through the argument parser, on 1-9 ranks. Distinct by keys and seeds; non-trivial when keys are overridden.",
       "Results, module state, dumps (read back) and random streams are compared with a dictionary update and with generators of that seed.",
       ["seeds are non-negative integers", "override strings are JSON objects"], q=10, epochs=E9, technique="runtime monitoring: online oracle over random inputs")

EN = [{"lanes": [1, 2, 3, 1, 1], "weight": 2}, {"lanes": [4, 2, 2]}, {"lanes": [5, 3]}]
single("N05", "w_net", {}, ["obs_networks", "obs_view_edges", "obs_cross", "obs_cross_ops", "obs_one_way", "obs_refused", "obs_cleared", "obs_in_out"],
       "A case is one or two directed or undirected networks on 1-5 ranks, driven through 5-60 random operations (edges added in both orders, again, updated, removed, cleared, self loops, agents added, removed, taken out of one network and put back; "
       "local agents and requested copies), synchronised at random moments. Distinct by configuration and steps; non-trivial with edges at the end.",
       "After every operation the acting rank, and after every synchronisation every rank, compares all of its network queries with its reference view.",
       ["an edge between ranks is changed by one of them only", "synchronised before clearing edges, and before and after taking agents out of a network"], q=14, epochs=EN)
single("D07", "w_proj", {}, ["obs_memberships", "obs_requested", "obs_left", "obs_late", "obs_duplicates", "obs_unknown", "obs_arrived"],
       "A case is a context on 1-5 ranks to which up to six projections (grids, continuous spaces, networks; names from a small pool, so that many are taken) and agents are added in random order, "
       "with removals, requests, placements, explicit moves and synchronisations. Distinct by configuration and steps; non-trivial with several projections and agents.",
       "After every step every rank looks up every projection by name, every local, requested and departed agent in every projection, and compares network nodes with the population.",
       ["buffers are empty", "a synchronisation follows the removal of a requested agent"], q=14, epochs=EN)
single("S07", "w_rpt", {}, ["obs_points", "obs_exhausted", "obs_parts", "obs_long"],
       "A case is three random worlds (1-3 dimensions, any origin, both borders, extents from the number of processes per dimension) on 1-9 ranks, in which every rank draws up to some thousand random local points. "
       "Distinct by configuration; non-trivial on several ranks.",
       "Every point is compared with the rank's own region; the set of points with all cells of it, or all coordinates (or twentieths) of every dimension; the sequence with that of an equal generator; other random streams are watched.",
       ["the generator is numpy's"], q=10, epochs=E9)
single("S08", "w_point", {}, ["obs_points", "obs_equal", "obs_unequal", "obs_resets", "obs_refused", "obs_moves_by_point"],
       "A case is a pool of points of both kinds that are made from all kinds of numbers (positional, by name, from extreme values), set again from numbers, tuples and arrays (element types, strides), dropped, refused and used to move agents. "
       "Distinct by configuration and steps; all are non-trivial.",
       "After every step the coordinates of all points are compared with those they were given, and pairs of points with each other.",
       ["coordinates are no NaNs"], q=10, epochs=[{"lanes": [1] * 8}])

single("M01", "w_model", {}, ["obs_steps", "obs_agents", "obs_edges", "obs_values", "obs_rows", "obs_links", "obs_births", "obs_deaths", "obs_relocated", "obs_resumed"],
       "A case is a random whole model on 1-9 ranks: scheduled steps, logs and other events; agents in grids, continuous spaces or both, with random bounds, borders and buffers, networks of both kinds, value layers (shared or read/write), "
       "births, deaths, links made and dropped, explicit moves; half of them are saved at some tick and continued by a model restored from the checkpoint. What an agent does is a hash of what it sees within the buffer, around its location and along its edges. Distinct by configuration and steps; non-trivial on several ranks with agents in a space, or edges between ranks.",
       "After every step every rank compares its agents (states, locations), edges and values with those of the same model computed without ranks, and at the end the log files with its counts.",
       ["decisions depend only on what is documented to be visible", "an edge is changed by one of its ends only"], q=18, epochs=E9,
       technique="runtime monitoring: online oracle (an undivided reference model) over random whole models")

CHECKS["R02"] = {"jobs": [], "post": [driver.twins(14, 150, E9, {})], "must": ["obs_twin_cases", "obs_twin_lines", "obs_orders", "obs_edges", "obs_cells"],
                 "rule": "A case is a random model (schedule with random and prioritised events, voids; agents walking in grids and continuous spaces, networks, requests, explicit moves, births, deaths, value layers, logs) whose every decision "
                         "depends on iteration orders and draws, run in two jobs of 1-9 processes: the second with another hash seed, another allocator, junk allocated between operations and random delays. "
                         "Distinct by configuration; non-trivial on several ranks with a space or network.",
                 "assumptions": ["the model itself uses no other source of randomness", "one machine and one build: floating point reductions are the same"],
                 "technique": "runtime monitoring: offline comparison of the observation traces of two perturbed runs",
                 "note": "Every rank's trace (orders of agents, types, cells, ranges, nodes, edges; locations; states; draws; events; log files) of both runs must be equal, case by case." + LIM}
