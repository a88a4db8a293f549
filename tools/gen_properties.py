"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)
S = "src/repast4py/"
p("D01", "Synchronisation conserves the agent population",
  "Across every sequence of additions, removals, moves and synchronisations, on any number of ranks, each agent that was added and not removed is local on exactly one rank of the model, with its identity and its latest saved state intact. No agent is lost, duplicated or resurrected, and no agent's attributes revert to an earlier value because it crossed ranks.",
  ["histories", "configurations"], "all add/remove/mutate/move/synchronise histories, space types, borders, buffer sizes, and rank counts 1..9",
  "Tests move a handful of named agents once or twice on one fixed 4- or 9-rank layout; conservation must hold for every history and topology, and a loss only shows when all ranks are looked at together.",
  [S+"context.py", S+"core.py", S+"space.py", S+"distributed_space.h"],
  [("gathering and delivering out-of-bounds agents", S+"context.py:SharedContext.synchronize/_gather_oob_data/_process_recv_oob_data"),
   ("local agent table", S+"core.py:AgentManager"), ("out-of-bounds record kept by move/remove", S+"distributed_space.h:DistributedCartesianSpace::move")],
  [("local agents per rank", "the partition of the live population")],
  ["SharedContext.agents()/agent() on every rank after synchronize"])
p("D02", "Agents live on the rank that owns their location, at that location",
  "After a synchronisation every agent located in a shared space is local to the rank whose part of the space contains its location, and that rank reports exactly the location the agent last moved to. This holds for neighbouring and non-neighbouring destinations, for wrapped moves, and when an agent occupies several spaces of the same extent at corresponding locations.",
  ["histories", "configurations"], "all move histories (including several moves between synchronisations and moves straight across the world) in 1D-3D grids and 2D-3D continuous spaces, both border types, all rank counts",
  "Tests check particular agents crossing particular borders; every pair of source and destination rank, and every interleaving of moves with removal and re-entry, cannot be enumerated by hand.",
  [S+"distributed_space.h", S+"distributed_space.cpp", S+"context.py", S+"space.py"],
  [("rank lookup for a location", S+"distributed_space.h:DistributedCartesianSpace::move/getAllBounds"),
   ("placing a received agent", S+"context.py:SharedContext._process_recv_oob_data, spacemodule.cpp:_move_oob_agent")],
  None, ["get_location() and get_local_bounds() on every rank after synchronize"])
p("D03", "Buffer zones hold exactly the neighbours' nearby agents, up to date",
  "After a synchronisation with ghosting, the non-local agents a rank finds in a space with buffer size b are exactly those agents of other ranks lying within b of that rank's own region (in every dimension, wrapping around when borders are periodic), each present once, at its owner's location and with its owner's state. Agents that left the zone, moved rank or were removed are no longer there.",
  ["histories", "configurations"], "all histories of moves, additions, removals and state changes; all space types, borders, buffer sizes not exceeding the smallest local extent, and rank counts",
  "Tests look at selected cells of one or two layouts; corner, wrapped, two-process-per-dimension and thin-slab layouts and staleness after several synchronisations are not reachable by samples.",
  [S+"space.py", S+"distributed_space.cpp", S+"core.py"],
  [("regions sent to each neighbour", S+"distributed_space.cpp:compute_neighbor_buffers/compute_buffer_bounds"),
   ("clearing and refilling buffers", S+"space.py:_pre_synch_ghosts/_synch_ghosts/_process_recv_data"),
   ("ghost reference counts", S+"core.py:AgentManager")],
  None, ["get_agents()/get_agents_within() over the buffer, ghost_agent(), get_location()"])
p("D04", "Requested agents stay available and current until they disappear",
  "An agent requested from another rank is available there as a non-local copy in every projection, carries its owner's state as of the latest synchronisation however often it changes or moves to yet another rank, and is unaffected by the other reasons for which it may be present. When the agent is removed from the model the copy disappears at the next synchronisation, and when it moves to the requesting rank it becomes an ordinary local agent.",
  ["histories", "configurations"], "all histories of requests, state changes, agent moves between ranks, edges, buffers and removals",
  "Tests request once and check one update; interaction of requests with buffers, edges, repeated requests and moves is a history property.",
  [S+"context.py", S+"core.py"],
  [("request exchange", S+"context.py:SharedContext.request_agents/_send_requests"), ("ghost state updates", S+"context.py:SharedContext._update_ghosts/_update_removed_ghosts"),
   ("ghost bookkeeping", S+"core.py:AgentManager")],
  None, ["ghost_agent() and returned agents on the requesting rank"])
p("D05", "Explicitly moving agents to other ranks transfers them completely",
  "When agents are moved to chosen ranks, each ends up local on exactly the requested rank with its state, and is no longer local anywhere else. Every rank that held a copy keeps receiving that agent's state from the new owner.",
  ["histories", "configurations"], "all sets of simultaneous moves between any ranks (including chains, swaps and repeated moves), with and without copies held elsewhere, interleaved with other operations",
  "Tests move single agents between two fixed ranks; simultaneous and repeated moves between arbitrary ranks are untested.",
  [S+"context.py", S+"core.py", S+"network.py"],
  [("explicit move", S+"context.py:SharedContext.move_agents"), ("hand-over of ghosting duties", S+"core.py:AgentManager.delete_ghosted/set_as_ghosted")],
  None, ["agents(), ghost_agent() on all ranks after move_agents"])
p("D06", "Population queries agree with the agents present",
  "At any time, on every rank, the population queries (iteration with or without a type filter, a count limit or shuffling, counts by type, type presence, lookup by identity) all describe the same set of local agents: those added or received and neither removed nor sent away. Unshuffled iteration follows insertion order, shuffled iteration is a permutation of it in which any agent can come first, so that a shuffled iteration limited in number can return any of the agents, and an agent's identity triple is what it was created with.",
  ["histories", "inputs"], "all histories of add, remove, cross-rank moves, for any number of types, and all query arguments",
  "Tests query small static populations; the type index and the main index can only diverge after particular histories.",
  [S+"context.py", S+"core.py", S+"coremodule.cpp"],
  [("per-type index", S+"context.py:SharedContext._agents_by_type"), ("queries", S+"context.py:SharedContext.agents/size/contains_type/agent")],
  None, ["the query methods themselves, compared to each other and to a reference"])
p("N01", "Edges between ranks look the same from both sides",
  "After a synchronisation, an edge between an agent of one rank and a copied agent of another exists on both ranks, in the same direction if directed, with the attributes last given to it, and the other rank's end of the edge shows its owner's state. Edges removed or cleared are gone from both ranks, and edges that nobody created never appear.",
  ["histories", "configurations"], "all histories of adding, updating, removing and re-adding edges on either side, in directed and undirected networks, several networks at once, on any number of ranks",
  "Tests exercise a few edges on 2-4 ranks; attribute updates, removals and re-creation interleaved over several synchronisations are history properties.",
  [S+"network.py", S+"core.py", S+"context.py"],
  [("edge mirroring", S+"network.py:SharedNetwork._sync_vertices/_sync_edges/_sync_removed"), ("edge keys", S+"network.py:_add_edge_key/_get_edge_key")],
  [("edges incident to cross-rank pairs", "mirrored copies must agree")], ["graph edges and attributes on both ranks after synchronize"])
p("N02", "Edges follow agents that move between ranks",
  "When agents that take part in a network move to other ranks, whether by crossing a space border or by an explicit move, after the synchronisation every edge still exists, with its direction and attributes, on the rank(s) where its two ends are now local. An edge whose ends become local to one rank is an ordinary local edge there, and no rank keeps an edge or a copy that belongs to neither of its agents.",
  ["histories", "configurations"], "all histories of edge creation and agent moves, including both ends moving at once and agents moving repeatedly",
  "Tests move one end of selected edges; both ends, chains of moves and combinations with buffers are not covered.",
  [S+"network.py", S+"context.py", S+"core.py"],
  [("edges of a moving agent", S+"network.py:SharedNetwork._agent_moving_rank/_agents_moved_rank/_post_agents_moved_rank")],
  None, ["graph edges on all ranks after synchronize / move_agents"])
p("N03", "Removing an agent erases it everywhere",
  "After an agent is removed from its context and the ranks synchronise, no rank can reach it any more: not as a copy, not in a space or its buffers, not as a network node or the end of an edge. Everything not incident to it is unaffected, and later operations and synchronisations on the remaining agents keep working.",
  ["histories", "configurations"], "all histories in which agents with copies on other ranks (through buffers, edges, requests or several of these) are removed, alone or together",
  "Tests remove one ghosted agent at a time in isolation; combinations of reasons for being shared, and what happens in the following synchronisations, are not covered.",
  [S+"context.py", S+"network.py", S+"core.py", S+"space.py"],
  [("removal notices", S+"context.py:SharedContext.remove/_update_removed_ghosts"), ("projection removal", S+"network.py:SharedNetwork.remove, space.h:BaseSpace::remove")],
  None, ["ghost_agent(), graph nodes/edges, space occupancy on every rank"])
p("D07", "Every projection of a context holds every agent of the context",
  "Whichever was added first, every local agent of a context is in each of its projections (spaces and networks) from the moment both are part of the context, and in none of them from the moment it is removed or sent to another rank; requested copies are in every projection, too. A projection is found by its name and by no other, and a second projection of the same name is refused without any effect.",
  ["histories", "configurations"], "all orders of adding projections and agents, mixed with removals, requests, explicit moves and synchronisations, and all rank counts",
  "Tests add all projections first and look at one or two agents; late projections, repeated names and arrivals in several projections are combinations nobody writes down.",
  [S+"context.py", S+"core.py", S+"network.py", S+"space.py"],
  [("adding agents and projections", S+"context.py:SharedContext.add/add_projection/get_projection/remove"), ("late projections and copies", S+"core.py:AgentManager.add_ghosts_to_projection")],
  None, ["agent in projection, iteration over network nodes and get_projection() after every call"])
p("N04", "A network file reproduces its graph on any partition",
  "Writing a graph partitions every node to exactly one rank of those requested and writes every node, edge and attribute once; reading the file on that many ranks (or on one) creates each node as a local agent on its assigned rank with its attributes and type, and every edge with its attributes on the rank or ranks of its ends, and nothing else; agents and projections the model had before stay as they are. A file or graph that does not follow the documented format is refused with an error.",
  ["inputs", "configurations"], "all directed and undirected graphs with JSON attributes and types, and all rank counts",
  "Tests use three fixed graph files; arbitrary topology, attributes, isolated nodes, repeated cross-rank neighbours and rank counts are not sampled.",
  [S+"network.py"],
  [("write and partition", S+"network.py:write_network/_random_partition/_metis_partition"), ("read", S+"network.py:read_network/_parse_node/_parse_edge")],
  None, ["the file written and graph/agents on every rank after read_network"])
p("N05", "A network's queries describe one graph at every moment",
  "After every single operation of a rank, synchronised or not, that rank's network queries (nodes and their count, edge count, presence of an edge, number of edges of an agent, attributes) describe exactly the graph left by its operations since the last synchronisation: adding an existing edge or updating it changes the given attributes only, removing or clearing takes away exactly those edges, taking an agent out takes its edges with it, operations on a missing edge are refused and change nothing. Direction counts in directed networks and does not in undirected ones, whichever way round the ends are given.",
  ["histories", "configurations"], "all histories of adding, updating, removing and clearing edges and nodes between local agents and copies of others, directed or not, before and after synchronisations",
  "Tests check a handful of edges after a fixed sequence; that every query agrees after every operation, in both orders of the ends, with self loops and copies, is a statement about all histories.",
  [S+"network.py"],
  [("edge operations and canonical keys", S+"network.py:UndirectedSharedNetwork.add_edge/_get_edge_key, DirectedSharedNetwork.add_edge, SharedNetwork.update_edge/remove_edge/clear_edges/remove"), ("queries", S+"network.py:num_edges/contains_edge/edge_count/node_count")],
  None, ["all network queries after every call"])
p("S01", "A space's two views of where agents are never disagree",
  "In any grid or continuous space, the location reported for an agent and the agents reported at a location are two views of one relation at every moment: an agent is at the location of its last successful move, at no other location, and is found nowhere after removal. Where only single occupancy is allowed no location ever holds two agents, and a move refused because the target is occupied changes nothing.",
  ["histories", "inputs"], "all histories of add, move (including in place, out of bounds and onto occupied cells), remove and re-add, over all occupancy, border and dimension types",
  "Tests check a few moves; index corruption appears only after particular sequences of coincidence, refusal and removal.",
  [S+"space.h", S+"grid.h", S+"cspace.h", S+"occupancy.h", S+"spacemodule.cpp", S+"space.py"],
  [("agent->location map", S+"space.h:BaseSpace::agent_map"), ("location->agents map", S+"occupancy.h accessors"), ("move", S+"grid.h:BaseGrid::move, cspace.h:BaseCSpace::move")],
  None, ["get_location/get_agent/get_agents/get_num_agents/contains after every operation"])
p("S02", "Borders keep every location inside the world",
  "Whatever coordinates are asked for, an agent's resulting location lies inside the space's bounds: sticky borders clamp each coordinate to the nearest valid value, periodic borders wrap each coordinate modulo the extent, and coordinates already inside are used unchanged. This holds for bounds with any origin and for displacements many times the size of the world. A coordinate that is no number (or infinite where borders are periodic) is refused, and the agent stays where it was.",
  ["inputs"], "all bounds (negative and non-zero origins included), all dimensions, all requested coordinates, discrete and continuous",
  "Tests try a few coordinates around zero-origin bounds; floating point edge cases, large magnitudes and negative origins are not sampled.",
  [S+"borders.h", S+"spacemodule.cpp", S+"space.py"],
  [("clamping and wrapping", S+"borders.h:StickyBorders::transform, PeriodicBorders::transform")],
  None, ["location returned by move / the border objects"])
p("S03", "Range queries return exactly the agents in the box",
  "A query for the agents within a box in a continuous space returns exactly the agents whose current location lies in that box, each once, regardless of how many agents share a point, how the internal index has split, or what moves and removals preceded the query.",
  ["histories", "inputs"], "all histories of add/move/remove, all index thresholds, all occupancy and border types, 2D and 3D, and all boxes",
  "Tests query a few boxes over small fixed point sets; splits and stale index entries need long histories with coincident points.",
  [S+"SpatialTree.h", S+"SpatialTree.cpp", S+"cspace.h", S+"spacemodule.cpp"],
  [("spatial tree", S+"SpatialTree.h:SpatialTree::addItem/removeItem/getObjectsWithin")],
  None, ["get_agents_within compared with a brute-force scan of get_location"])
p("S04", "The native extension is memory safe and leak free",
  "No sequence of calls through the public interface makes the compiled core read or write memory out of bounds, use freed objects, execute undefined behaviour, or corrupt the reference counts of the Python objects it handles: objects held by a space stay alive, and objects no longer held by anything are released. Bad arguments raise Python exceptions.",
  ["histories", "inputs", "configurations"], "all sequences of public calls on agents, points, boxes, spaces, borders and topologies, including error paths, on one and several ranks",
  "Ordinary tests pass while reading freed memory or leaking references; only instrumented executions over many histories reveal it.",
  [S+"spacemodule.cpp", S+"coremodule.cpp", S+"space.h", S+"distributed_space.h", S+"distributed_space.cpp", S+"SpatialTree.h", S+"occupancy.h", S+"geometry.cpp"],
  [("reference counting of agents and points", S+"space.h, occupancy.h, spacemodule.cpp"), ("tables indexed by rank and coordinates", S+"distributed_space.cpp")],
  None, ["AddressSanitizer/UBSan reports; reference counts and weak references of agents and points; memory growth"])
p("S05", "The decomposition tiles the world and describes it consistently",
  "For every world size, origin, dimensionality and number of ranks, the ranks' local regions are disjoint, together cover the global bounds exactly, and differ in size by at most one cell per dimension. Every rank's view of its grid coordinates, its neighbours and the strips it shares with each neighbour agrees with the neighbours' own regions.",
  ["configurations", "inputs"], "all bounds with extents at least the number of processes per dimension, 1D-3D, periodic or not, buffer sizes up to the smallest local extent, rank counts 1..12",
  "Tests cover fixed layouts on 9 or fewer ranks with mostly zero origins; remainders and asymmetric process grids are a configuration space.",
  [S+"distributed_space.cpp", S+"distributed_space.h", S+"spacemodule.cpp"],
  [("local bounds", S+"distributed_space.cpp:CartesianTopology::getBounds/adjust_min_extent"), ("neighbours and strips", S+"distributed_space.cpp:CartesianTopology::getNeighbors, compute_neighbor_buffers")],
  None, ["CartesianTopology properties and get_local_bounds() gathered from all ranks"])
p("S06", "Neighbourhood functions return the exact neighbourhood",
  "For every point and every bounds, the neighbourhood functions return exactly the adjacent cells (the Moore neighbourhood in one, two or three dimensions, with or without the centre as documented), clipped at sticky bounds and wrapped at periodic bounds, in the documented order, without duplicates unless wrapping a world too small to avoid them.",
  ["inputs"], "all points inside all bounds (any origin, extents from 1 upwards), every dimension and border type, and the order flag",
  "Tests list neighbours of a few points; corner, edge, thin and offset worlds are numerous.",
  [S+"geometry.py"], [("neighbour enumeration", S+"geometry.py:find_1d_nghs_sticky ... find_3d_nghs_periodic, get_num_dims")],
  None, ["return values of the functions"])
p("S07", "Random local points cover exactly the rank's own region",
  "A random local point drawn from a shared grid or continuous space lies in the region of the rank that draws it, for every decomposition, origin and dimensionality; every cell (or part) of that region can be drawn, coordinates are drawn independently of each other, and the draws depend on the given generator's state only.",
  ["configurations", "inputs"], "all worlds, dimensions, numbers of ranks and generator states",
  "Tests draw a few points in one or two layouts; off-by-one bounds only show on particular ranks, dimensions and origins.",
  [S+"space.py"],
  [("choosing a point", S+"space.py:SharedGrid/SharedCSpace._create_random_pt_func/get_random_local_pt")],
  None, ["get_random_local_pt() and get_local_bounds() on every rank"])
p("S08", "Points are their coordinates",
  "A point (discrete or continuous) has exactly the coordinates it was made from or last set to, whatever numbers, arguments, tuples or arrays these came from, an omitted third coordinate being 0, and refuses what is no coordinate; two points are equal exactly when they are of one kind and their coordinates are equal, and unequal exactly when they are not equal. Points are independent of each other and of spaces: using a point to move an agent neither changes nor ties the point.",
  ["inputs", "histories"], "all coordinate values of 64 bit integers and doubles except NaN, and all histories of making, setting, comparing and using points",
  "Tests make and compare a handful of small points.",
  [S+"spacemodule.cpp", S+"geometry.h"],
  [("points", S+"spacemodule.cpp:DiscretePoint_init/_reset*/_richcmp, ContinuousPoint_init/_reset*/_richcmp")],
  None, ["attributes and comparisons of the points"])
p("V01", "Value layers store what was last set, cell by cell",
  "Reading any location of a value layer returns the value last written to the cell that location denotes under the layer's borders and bounds, and writing changes that cell only. The neighbourhood query pairs every neighbouring location with that location's current value.",
  ["inputs", "histories"], "all bounds and origins, 1D-3D, sticky and periodic, in- and out-of-bounds points, numeric types and write histories",
  "Tests set a few cells in two or three layers; index arithmetic for offset origins, transposed axes and wrapped points has many cases.",
  [S+"value_layer.py", S+"geometry.py"], [("indexing", S+"value_layer.py:_Impl1D/_Impl2D/_Impl3D get/set/get_nghs")],
  None, ["get, set, get_nghs, grid"])
p("V02", "Shared value layers show the neighbours' values in their buffers",
  "After a synchronisation, reading any location within the buffer distance of a rank's own region returns the value its owning rank holds, on both sides of every internal border and around periodic borders, while each rank's own values are changed only by its own writes. Values written into the buffer by a non-owner never propagate, and a write to a location beyond the buffer changes no cell.",
  ["histories", "configurations"], "all rank counts, 1D and 2D layers, border types, buffer sizes up to the smallest local extent and write histories over several synchronisations",
  "Tests check a fixed 9-rank and 4-rank layout; corners, wrapped strips and two-process dimensions vary with the configuration.",
  [S+"value_layer.py", S+"distributed_space.cpp"],
  [("buffer exchange", S+"value_layer.py:SharedValueLayer._synch_ghosts/_init_sync_data_1d/_init_sync_data_2d"), ("buffered bounds", S+"value_layer.py:SharedValueLayer._init_buffered_bounds")],
  None, ["get() at own and buffer locations after synchronize"])
p("V03", "Read/write layers isolate a step's reads from its writes",
  "In a read/write value layer, everything written during a step stays invisible to reads until the layers are swapped, after which reads see exactly what the write layer held and writes go to the former read layer. Neighbourhood queries read the same values as single reads, a write changes its own cell only, and after synchronisation both layers' buffers match their neighbours' values.",
  ["histories", "configurations"], "all interleavings of writes, reads, swaps and synchronisations, all layer configurations",
  "Tests do one write/swap round; leaks between the two copies need several alternating rounds.",
  [S+"value_layer.py"], [("swap", S+"value_layer.py:ReadWriteValueLayer.swap_layers/_synch_ghosts")],
  None, ["get/set/get_nghs, swap_layers, synchronisation through a context"])
p("T01", "Events run in tick order and, within a tick, in priority order",
  "Every scheduled event runs exactly once at its tick, ticks never run backwards, and within one tick FIRST events run first in scheduling order, then prioritised events in ascending priority (ties in scheduling order) with random ones interleaved anywhere among them, then LAST events in scheduling order. Events scheduled in the past never run.",
  ["histories", "schedules"], "all sets of one-time events over ticks, priority types and priorities, scheduled in any order before or during execution",
  "Tests assert particular sequences; the ordering must hold for every mixture, including events added from inside executing events.",
  [S+"schedule.py"], [("queue and per-tick grouping", S+"schedule.py:Schedule.execute/_push_event, ScheduleGroup.sort/execute")],
  None, ["an execution log written by the events"])
p("T02", "Dynamic scheduling neither loses nor repeats events",
  "A repeating event runs exactly at start, start+interval, start+2*interval, ... until it is voided or the run ends; events added for the current tick while it is executing run exactly once in that same tick; a voided event never runs again and affects no other event.",
  ["histories", "schedules"], "all programs whose events schedule further events (same tick or later), repeat with any interval, and void themselves or others at any moment",
  "Tests have single instances of each feature; their combinations within a tick are what breaks.",
  [S+"schedule.py"], [("same-tick insertion", S+"schedule.py:ScheduleGroup.execute_evts/_add_during_ex_evts"), ("rescheduling and voiding", S+"schedule.py:RepeatingEvent.reschedule/void")],
  None, ["an execution log written by the events"])
p("T03", "All ranks execute the global schedule in lock step and stop together",
  "With different events on different ranks, no rank executes a tick while another rank still has an earlier one to run, and a stop scheduled on every rank for the same tick ends the run on all ranks after exactly the events up to and including that tick. Events at the stop tick all run, later ones never do, and end events run once each, in the order scheduled, after everything else.",
  ["schedules", "configurations"], "all distributions of events over ranks (including ranks with nothing but a stop), all stop ticks, and event code that itself schedules",
  "Single-process tests cannot see ranks running ahead of each other or failing to stop.",
  [S+"schedule.py"], [("global minimum tick", S+"schedule.py:SharedScheduleRunner.execute"), ("stopping", S+"schedule.py:SharedScheduleRunner.schedule_stop/stop/schedule_end_event")],
  None, ["merged execution logs of all ranks, ordered by barrier-stamped counters"])
p("K01", "A restored schedule continues exactly as the original would have",
  "Saving the schedule between ticks, pickling it and restoring it in a fresh process yields the same future as never having stopped: the same events at the same ticks in the same order within a tick, with repeating, end and stop events and their metadata included. Voided events stay gone, ignored or differently tagged events are left out, and stops are restored only on request.",
  ["crash_points", "histories"], "all schedules, all ticks at which the checkpoint may be taken, tags and stop options",
  "Tests restore a small fixed schedule at one point; equivalence must hold for every checkpoint moment.",
  [S+"checkpoint.py", S+"schedule.py"], [("saving and restoring events", S+"checkpoint.py:Checkpoint.save_schedule/restore_schedule/_schedule_evt")],
  None, ["execution logs of the continued and the restored run"])
p("K02", "A restored model equals the saved one on every rank",
  "Restoring a checkpoint on the same number of ranks reproduces the saved agents with their states, their locations in grids and continuous spaces, every network edge with direction and attributes including those between ranks, arbitrary saved values, and the random number streams. Saved locations, edges and schedules are not altered by anything the model does after saving.",
  ["crash_points", "histories", "configurations"], "all model histories up to the checkpoint, all model contents, rank counts, and any activity after saving",
  "Tests restore small single-process models; cross-rank edges and later mutation of live objects are not exercised.",
  [S+"checkpoint.py"], [("agents, spaces, networks, random state", S+"checkpoint.py:Checkpoint.save_*/restore_*, NetworkRestorer")],
  None, ["full global model state before saving and after restoring"])
p("L01", "The tabular log contains every row once, in order",
  "After all ranks write or close the tabular log, the file holds the header followed by every row logged by any rank exactly once: per write, rank 0's rows first, then rank 1's and so on, each rank's in the order logged, with every value readable back unchanged by a standard CSV reader.",
  ["histories", "inputs", "configurations"], "all distributions of rows over ranks and writes, delimiters, and values needing quoting",
  "Tests write a few numeric rows once; multiple writes, empty ranks and special characters are not sampled.",
  [S+"logging.py"], [("gather and write", S+"logging.py:TabularLogger.write/log_row")], None, ["the file's parsed contents"])
p("L02", "Reduced data sets hold the exact reduction of every tick",
  "A reducing data set's file holds one line per logged tick, in order, whose columns are the chosen reduction over all ranks of the values the sources had at that tick, for any number of ticks, any write buffer size, and whatever explicit writes happen in between. Nothing is lost or repeated when internal buffers grow or are flushed, and at no time are more ticks than the buffer size missing from the file, so a run that dies loses no more than those.",
  ["histories", "inputs", "configurations"], "all sequences of log/write/close, buffer sizes, more ticks than internal buffers, integer and float columns, SUM/MIN/MAX/PROD, rank counts",
  "Tests log a few ticks; buffer growth, flush boundaries and several flushes are not covered together.",
  [S+"logging.py"], [("buffering and reduction", S+"logging.py:ReducingDataLogger.log/reduce, ReducingDataSet.log/write")], None, ["the file's parsed contents"])
p("L03", "Output never overwrites existing files",
  "Creating a log, data set or parameter dump with a path that already exists leaves every existing file untouched and writes to a fresh numbered name next to it; missing parent directories of logs and data sets are created. Any number of runs with the same path therefore yields that many intact files.",
  ["histories", "configurations"], "all sequences of runs, file names (any suffix, several dots, none), existing numbered siblings and gaps, relative and absolute paths, rank counts",
  "Tests check one or two names; name arithmetic over arbitrary directories is not sampled.",
  [S+"util.py", S+"logging.py", S+"parameters.py"], [("free name search", S+"util.py:find_free_filename"), ("opening the file", S+"logging.py:ReducingDataSet.__init__, TabularLogger.__init__, parameters.py:init_params")],
  None, ["directory contents and hashes before and after"])
p("R01", "Run parameters and seeding resolve as documented",
  "The resolved parameters are the file's values overridden key by key by the command-line JSON, identical on every rank, returned and published to the rest of the model, and dumped faithfully when asked. If a random seed is among them, the model's and the tensor library's random streams are exactly those of that seed.",
  ["inputs", "configurations"], "all parameter files and overrides (any nesting and type), with and without a seed, rank counts",
  "Tests resolve one file; override and seed interaction over arbitrary contents is not sampled.",
  [S+"parameters.py", S+"random.py"], [("resolution", S+"parameters.py:init_params"), ("seeding", S+"random.py:init")], None, ["returned dict, module dict, dump file, drawn numbers"])
p("R02", "Two runs with the same seed are identical",
  "Running the same model program twice with the same seed and rank count, in separate processes, produces the same events in the same order, the same agent populations, iteration orders, locations, networks, random draws and output on every rank, independent of process timing and memory layout.",
  ["schedules", "programs", "configurations"], "all model programs using shuffling, random priorities, spaces, networks, moves and logs; all rank counts and arrival timings",
  "Tests never run anything twice; order that depends on addresses, hash seeds or message timing only shows across processes.",
  [S+"context.py", S+"network.py", S+"space.py", S+"schedule.py", S+"core.h"],
  [("ordered containers and rank-ordered exchange", S+"context.py, network.py, space.py"), ("address-independent keys", S+"core.h:agent_id_comp")],
  None, ["per-rank traces of two runs under different hash seeds, allocators and injected delays"])
p("M01", "A model has the same outcome on any number of ranks",
  "A model whose agents act only on what they may see (their own state, agents and values within the buffer, the other ends of their edges) and whose events and logs are scheduled as usual ends every step with the same agents, states, locations, networks and layer values, and writes the same aggregate logs, however many ranks it is divided over. Births, deaths, links, border crossings and explicit moves included, the division is not observable; nor is it observable that a run was saved at some tick and continued by a model restored from the checkpoint.",
  ["programs", "histories", "configurations"], "all such models over spaces, networks, value layers, schedules and logs, and all rank counts",
  "Tests look at one mechanism at a time for a few steps; errors that only show when moving, ghosting, networks, layers and logs work together over many steps need whole models.",
  [S+"context.py", S+"core.py", S+"space.py", S+"network.py", S+"value_layer.py", S+"schedule.py", S+"logging.py", S+"checkpoint.py"],
  [("synchronisation", S+"context.py:SharedContext.synchronize"), ("continuation", S+"checkpoint.py:Checkpoint"), ("ghosts", S+"core.py:AgentManager, space.py, network.py"), ("aggregation", S+"logging.py:ReducingDataSet.log")],
  None, ["agents, locations, edges and layer values on every rank after every step; log files at the end"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties;", [len(d["statement"].split(". ")) for d in P], max(len(d["title"]) for d in P))
