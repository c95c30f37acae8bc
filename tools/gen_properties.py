"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": ["src/repast4py/" + f for f in files],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "Every scheduled event runs exactly once per due tick, in tick order",
 "Every event scheduled at or after the current tick, including one scheduled by another event while it executes (for the current tick or a later one), is executed exactly once at exactly its tick, and the reported current tick is that tick while it executes. Events execute in non-decreasing tick order. An event scheduled for a tick that has already passed is never executed and disturbs nothing.",
 ["schedules", "histories"], "every set of one-time and repeating events, with any ticks, any interleaving of scheduling calls before and during execution",
 "The schedule tests run a dozen fixed schedules; losing or duplicating an event needs a particular mix of same-tick additions, nested scheduling and queue contents.",
 ["schedule.py"], [("Schedule._push_event / Schedule.execute / ScheduleGroup.add_evt, execute_evts", "schedule.py")],
 ["SharedScheduleRunner.schedule_event", "Schedule.execute", "SharedScheduleRunner.tick"],
 [("queue", "future events keyed by (tick, insertion order)", "Schedule"), ("executing_group", "events due at the current tick", "Schedule")])
prop("C02", "Events of one tick run in the order their priorities demand",
 "Among the events due at one tick, all FIRST events run before the others in the order they were scheduled, all LAST events run after the others in the order they were scheduled, and BY_PRIORITY events run in non-decreasing priority value with ties in scheduling order. RANDOM events run between the FIRST and LAST events, and every placement of them among the ordered BY_PRIORITY events is possible. An event added to the current tick while it executes takes the place its priority demands among the events still to run.",
 ["schedules", "inputs"], "every multiset of events at a tick with any priority types and values, any random state, any events added to the tick while it executes",
 "Tests check single fixed groups under one seed; the order depends on the random state and on when same-tick additions interrupt the group.",
 ["schedule.py"], [("ScheduleGroup.sort, execute, execute_evts, _add_during_ex_evts", "schedule.py")],
 ["order of event callbacks"],
 [("first/prioritized/random/last", "events of the executing tick by priority type", "ScheduleGroup")])
prop("C03", "Repeating events keep their cadence; voided events never run again",
 "A repeating event scheduled at tick a with interval i runs at a, a+i, a+2i and so on, once each, for as long as it is not voided and execution has not stopped. Once an event has been voided (before its first run, between runs, by another event of the same tick, or by itself while running) it never runs again, and no other event is affected.",
 ["schedules", "histories"], "every start, interval and void point, alone or mixed with other events of any priority",
 "Tests void one event at one point; the void can land while the event is queued, in the executing group, or being executed.",
 ["schedule.py"], [("RepeatingEvent.reschedule/void, OneTimeEvent.void", "schedule.py")], ["event callbacks"])
prop("C04", "All ranks run their schedules in lockstep on the global minimum tick",
 "On any number of ranks, a rank executes the events of a tick only when that tick is the smallest next tick over all ranks, so no event of a later tick runs on any rank before an event of an earlier tick on another, and a rank without events for that tick executes nothing. Execution continues until stopped as long as some rank has events, a stop scheduled for a tick on every rank halts every rank after all events of that tick have run, and then each rank runs each of its end events exactly once.",
 ["schedules", "configurations"], "every assignment of events, stops and end events to ranks, any number of ranks",
 "The schedule tests run on a single rank; nothing exercises ranks whose next ticks differ or whose queues empty.",
 ["schedule.py"], [("SharedScheduleRunner.execute (allreduce of the next tick), schedule_stop, stop, schedule_end_event", "schedule.py")],
 ["SharedScheduleRunner.execute"], [("next_tick", "this rank's next tick offered to the reduction", "SharedScheduleRunner"), ("go", "whether this rank keeps executing", "SharedScheduleRunner")])
prop("C05", "Every agent is local on exactly one rank and travels with its full state",
 "After any history of adds, removes, moves between ranks and synchronizations, every agent that was added and not removed is a local agent of exactly one rank, with its unique id and latest saved state intact, and no removed agent is local anywhere. This holds whether the agent moved because it left its rank's part of a space or because it was explicitly moved to a rank.",
 ["histories", "configurations"], "every history of add, remove, state change, space moves, move_agents and synchronize over any number of ranks and any set of spaces and networks, for agents of any unique ids",
 "Tests move one or two agents once between fixed ranks with one projection; duplication or loss needs repeated moves, several projections, or ghosts already present at the destination.",
 ["context.py", "core.py"], [("SharedContext.synchronize, move_agents, _gather_oob_data, _process_recv_oob_data; AgentManager local collection", "context.py, core.py")],
 ["SharedContext.agents", "SharedContext.agent"], [("_local_agents", "local agents by uid", "AgentManager")])
prop("C06", "An agent that leaves its rank's area is owned by the rank it moved into",
 "After a synchronize every agent located in a shared grid or continuous space is local to the rank whose local bounds contain its location, and its location there is exactly the one it was moved to (after the border rule). No other agent's location changes, and the rank it left keeps no copy of it other than a buffered ghost.",
 ["histories", "configurations"], "every sequence of moves to any point (inside, outside, on borders), every rank count, dimension, border and occupancy type, and one or two spaces in a context; agents of different ranks do not enter one single-occupancy cell at once",
 "Tests move a few agents across one boundary once; corner, wrap-around, repeated and non-neighbour moves are unsampled.",
 ["distributed_space.h", "context.py", "space.py"], [("DistributedCartesianSpace.move out-of-bounds table; _get_oob/_clear_oob/_move_oob_agent", "distributed_space.h, spacemodule.cpp")],
 ["SharedGrid.get_location", "SharedCSpace.get_location"], [("out_of_bounds_agents", "agents whose location is on another rank", "DistributedCartesianSpace")])
prop("C07", "After synchronize a buffer holds exactly the neighbouring agents it covers",
 "After a synchronize with ghosts, each rank's shared grid or continuous space contains, besides its own agents, a ghost of exactly those agents of other ranks whose location is within the buffer size of the rank's local bounds (measured with wrap-around when borders are periodic), at their true locations, each once, and carrying their owners' current state. Agents that have left that zone are no longer in the space. (A rank's part is at least one cell and at least as wide as the buffer in every dimension.)",
 ["histories", "configurations"], "every rank count (processes per dimension), global bounds and origin, buffer size, border and occupancy type, dimension and agent placement",
 "Tests check a handful of placements on 4, 9 and 18 ranks; missing or duplicated slices show only in particular process grids such as two or one processes in a periodic dimension.",
 ["space.py", "distributed_space.cpp", "distributed_space.h"], [("compute_neighbor_buffers, _gather_1d/2d/3d, _fill_send_data, _process_recv_data, _pre_synch_ghosts", "distributed_space.cpp, space.py")],
 ["SharedGrid.get_agents", "SharedCSpace.get_agents_within"], [("buffered_agents", "ghosts placed in the buffer", "SharedGrid/SharedCSpace")])
prop("C08", "A ghost lives while something on its rank needs it, and mirrors its agent",
 "After a synchronize, a rank holds a ghost of an agent if it requested that agent or is linked to it by a network edge or it lies in the rank's buffer, and the ghost's saved state equals the agent's state at that synchronize and names the agent's current owner rank. Requesting an agent returns exactly the requested agents, one object per agent however many reasons there are for the ghost, and a ghost that nothing needs any more is gone.",
 ["histories"], "every history of requests, edges, space moves, state changes, rank moves and synchronizations",
 "Tests cover each ghost source alone; a reference-count slip shows only when two reasons for one ghost overlap and one of them ends.",
 ["core.py", "context.py", "network.py", "space.py"], [("AgentManager ghost and ghosted reference counts; SharedContext.request_agents, _update_ghosts", "core.py, context.py")],
 ["SharedContext.ghost_agent"], [("_ghost_agents", "ghosts on this rank with reference counts", "AgentManager"), ("_ghosted_agents", "ranks each local agent is ghosted to", "AgentManager")])
prop("C09", "A removed agent disappears everywhere at the next synchronize",
 "When an agent is removed from a context it is at once absent from its rank's agents, spaces and networks together with all its edges. After the next synchronize no rank has a ghost of it, finds it in any space or network, or has an edge to it, and every later operation behaves as if it had never existed.",
 ["histories"], "every agent, in any combination of spaces, networks, requests and edges made before or after the last synchronize",
 "Tests remove agents with one kind of ghost; leftovers in pending-edge and buffer tables surface only on a later synchronize.",
 ["context.py", "core.py", "network.py", "space.py"], [("SharedContext.remove, _update_removed_ghosts; AgentManager.delete_local", "context.py, core.py")],
 ["SharedContext.ghost_agent", "SharedNetwork.graph", "SharedGrid.get_agents"], [("removed_ghosteds", "removed agents that were ghosted elsewhere", "SharedContext")])
prop("C10", "A network on one rank behaves as a simple graph of agents",
 "On one rank, a shared network contains exactly the agents and edges produced by the calls made: adding an edge adds missing nodes and merges attributes, an undirected edge is the same edge in either orientation while a directed one is not, and updating, removing, clearing edges and removing nodes have exactly their graph meaning (an update without attributes changes nothing). Node and edge counts, per-agent edge counts, membership and edge tests always agree with that graph.",
 ["histories", "inputs"], "every sequence of add, add_nodes, remove, add_edge, update_edge, remove_edge and clear_edges, directed and undirected, self-loops and repeated edges included",
 "Tests run one short script per class; key canonicalisation errors need a re-added, reversed or removed edge in a particular order.",
 ["network.py"], [("UndirectedSharedNetwork / DirectedSharedNetwork add_edge, update_edge, remove_edge, _get_edge_key", "network.py")],
 ["SharedNetwork.graph, edge_count, node_count, num_edges, contains_edge"], [("canonical_edge_keys", "orientation under which an undirected edge is stored", "UndirectedSharedNetwork")])
prop("C11", "Ranks agree on every cross-rank edge and its attributes after synchronize",
 "After a synchronize, an edge between agents owned by two different ranks exists on both of those ranks with the same direction and equal attributes whenever it was added on either of them and not removed, and on neither once it was removed from either of them; attribute updates made on one of the ranks (the ranks do not change one edge in different ways between two synchronizations) are visible on both. An edge between agents local to one rank is unaffected, and no rank has an edge nobody added.",
 ["histories"], "every sequence of add, update, remove and clear of edges on any rank with synchronizations in between, including several edges between the same agent and rank",
 "Tests synchronize after every single change; removing before synchronizing, removing one of several edges to a rank, or changing an edge from its receiving side is not tried.",
 ["network.py"], [("SharedNetwork._sync_removed, _sync_vertices, _sync_edges", "network.py")],
 ["SharedNetwork.graph on every rank"], [("new_edges/edges_to_update/edges_to_remove/ghosted_edges", "pending and established cross-rank edges", "SharedNetwork")])
prop("C12", "Network edges survive agents moving between ranks",
 "When agents move between ranks, by move_agents or by moving out of bounds in a space of the same context, every edge keeps its endpoints, direction and attributes: afterwards each edge is present on the owner rank(s) of its endpoints and on no other rank, linked to the local agent where that endpoint is local and to a ghost otherwise. Later attribute updates and state changes still propagate to the ranks involved.",
 ["histories"], "every network and every sequence of moves of any agents, including both ends of an edge moving at once, swapping ranks, and moving to a third rank",
 "Tests move agents in a few hand-made topologies; which bookkeeping path runs depends on where both ends and their other neighbours are.",
 ["network.py", "context.py"], [("SharedNetwork._agent_moving_rank, _agents_moved_rank, _post_agents_moved_rank", "network.py")],
 ["SharedNetwork.graph on every rank"], [("_agent_moved_edges/_no_longer_ghosts", "edges and ghosts to hand over after a move", "SharedNetwork")])
prop("C13", "A network written to file is read back whole on any number of ranks",
 "Writing a graph and reading the file on as many ranks as it was partitioned for, or on one rank, yields a context in which every node is exactly one local agent of the rank assigned to it with its type and attributes, and a network whose edges, direction and edge attributes over all ranks are exactly those of the graph, cross-rank edges appearing on both ends' ranks and each remote endpoint being one ghost. The partition made when writing assigns every node to exactly one rank, none more than the number of nodes divided by the ranks, rounded up, and writing does not alter the graph.",
 ["inputs", "configurations"], "every graph with integer node ids, directed or not, with any node and edge attributes that can be written as JSON, any number of ranks",
 "Tests read one sample file and write one generated graph; several edges to one remote node or unusual attributes are not covered.",
 ["network.py"], [("write_network, _random_partition, read_network, _parse_node, _parse_edge", "network.py")],
 ["read_network / write_network"])
prop("C14", "Agent locations and location contents always agree, and occupancy holds",
 "In a grid or continuous space, an agent's location is the point of its last successful move (after the border rule), the agents found at a point are exactly those whose location it is, in order of arrival with get_agent returning the earliest, and get_num_agents counts them. With single occupancy a move to an occupied point fails, returning None and changing nothing; moving to its own point succeeds. Adding an agent gives it no location, moving an agent that is not in the space is an error, and removing it leaves no trace.",
 ["histories", "inputs"], "every sequence of add, remove, move and query on any space, any dimension, border and occupancy type, plain and shared",
 "Tests perform short fixed sequences in two dimensions mostly; stale occupancy needs re-adds, repeated moves, moves to the same point or failed moves in sequence.",
 ["space.h", "grid.h", "cspace.h", "occupancy.h", "spacemodule.cpp"], [("BaseSpace add/remove/move, MultiOccupancyAccessor, SingleOccupancyAccessor", "space.h, grid.h, cspace.h, occupancy.h")],
 ["Grid, ContinuousSpace, SharedGrid, SharedCSpace methods"], [("location_map / agent_map", "agents by point and point by agent", "occupancy.h, space.h")])
prop("C15", "Borders always put a moved agent inside the space, by clipping or wrapping",
 "With sticky borders each coordinate outside the bounds becomes the nearest coordinate inside them and every coordinate inside is unchanged; with periodic borders each coordinate becomes the one inside the bounds that differs from it by a whole number of extents. The result always lies within the bounds, for grids, continuous spaces and value layers, of any dimension and origin, and unused dimensions are zero.",
 ["inputs", "configurations"], "every coordinate, however far outside, every origin (also negative) and extent, one to three dimensions",
 "Tests check a few points just outside bounds mostly starting at zero.",
 ["borders.h"], [("StickyBorders, PeriodicBorders transforms", "borders.h")],
 ["move return value", "GridStickyBorders._transform", "GridPeriodicBorders._transform"])
prop("C16", "get_agents_within returns exactly the agents inside the box",
 "For a continuous space, the agents returned for a box are exactly those whose current location lies inside it (lower bound inclusive, upper bound exclusive), each once, whatever the tree threshold and whatever history of adds, moves and removes produced the current locations, including several agents at one point.",
 ["histories", "inputs"], "every history of moves and removes with any number of agents (enough to split the tree), every box, every threshold",
 "Tests compare a few hundred random agents placed once; index corruption needs removal or movement of co-located agents and node splits in particular orders.",
 ["SpatialTree.h", "SpatialTree.cpp", "cspace.h"], [("SpatialTree addItem/removeItem/getObjectsWithin, node split", "SpatialTree.h")],
 ["ContinuousSpace.get_agents_within", "SharedCSpace.get_agents_within"], [("items per tree node", "spatial index of the current locations", "SpatialTree.h")])
prop("C17", "Ranks' local bounds tile the global bounds exactly",
 "For any communicator size, the local bounds of the ranks are non-overlapping boxes whose union is exactly the global bounds, arranged by Cartesian coordinates along the processes per dimension, with extents along a dimension differing by at most one. The regions a rank sends to other ranks lie inside its own local bounds, never name itself, and cover for each other rank exactly the part of its local bounds within that rank's buffer (with wrap-around when periodic; the buffer no wider than any rank's part). Random local points lie inside the local bounds and reach all of them.",
 ["configurations", "inputs"], "every communicator size, dimension, global origin and extent, buffer size, periodic or not",
 "Tests check 9 ranks (3x3) and 18 ranks in two or three configurations with even splits.",
 ["distributed_space.cpp"], [("CartesianTopology::getBounds, getNeighbors, compute_neighbor_buffers", "distributed_space.cpp")],
 ["CartesianTopology", "get_local_bounds"])
prop("C18", "A value layer stores one value per cell and finds true neighbourhoods",
 "In a value layer, get returns the value last set at that cell (coordinates resolved by the border rule) or else its initial value, setting one cell changes no other, and get_nghs returns the values and coordinates of exactly the cells within distance one in each dimension, clipped at sticky borders and wrapped at periodic ones, including the cell itself.",
 ["histories", "inputs"], "every sequence of set and get, every cell, every origin and extent, one to three dimensions, sticky and periodic",
 "Tests set a few cells; axis or translation slips need non-zero origins, unequal extents or edge cells.",
 ["value_layer.py", "geometry.py"], [("_Impl1D/2D/3D get, set, get_nghs; geometry.find_*_nghs_*", "value_layer.py, geometry.py")],
 ["ValueLayer.get/set/get_nghs"])
prop("C19", "After synchronize a value layer's buffer equals its neighbours' cells",
 "In a shared value layer each rank's own cells hold the values set on that rank, and after a synchronize every buffered cell within the buffer size of its local bounds (wrapped when periodic) reads the value held by the rank owning that cell at that moment. Synchronizing never changes a rank's own cells.",
 ["histories", "configurations"], "every process grid, origin, extent, buffer size up to the narrowest part and border type in one and two dimensions, one or several layers in a context, any sets on any ranks",
 "Tests check 4 and 9 ranks mostly with square even grids; slice bookkeeping differs for one or two processes in a periodic dimension.",
 ["value_layer.py"], [("SharedValueLayer._init_sync_data_1d/2d, _synch_ghosts, _buffer_self", "value_layer.py")],
 ["SharedValueLayer.get", "SharedValueLayer.grid"])
prop("C20", "A read-write value layer isolates writes until layers are swapped",
 "In a read-write value layer, reads (single values, neighbourhoods) reflect only values present before the last swap, writes never affect reads until the next swap, and swapping exchanges exactly the two. Synchronizing it through a context fills the buffers of both.",
 ["histories"], "every sequence of set, get, get_nghs, swap and synchronize, one or several layers in a context",
 "Tests exercise a fixed set-swap-get script without neighbourhood reads or context synchronization.",
 ["value_layer.py", "context.py"], [("ReadWriteValueLayer.get/set/get_nghs/swap_layers/_synch_ghosts", "value_layer.py")], ["ReadWriteValueLayer"])
prop("C21", "A reducing data set writes one correct aggregated row per log call",
 "The file of a reducing data set contains the header and then, in order, exactly one row per log call with that call's tick and, for each logger, the reduction over all ranks of the values the data sources had at that call. This holds whatever the number of log calls, the internal buffer size, and when write and close are called.",
 ["histories", "configurations"], "every number of log calls relative to internal buffer sizes, every placement of writes, operations, types and ranks",
 "Tests log a fixed number of rows with one write pattern.",
 ["logging.py"], [("ReducingDataLogger.log/reduce, ReducingDataSet.log/write/close", "logging.py")], ["output file"])
prop("C22", "A tabular logger writes every row of every rank exactly once, never overwriting",
 "The file of a tabular logger contains the header and every row logged on every rank before a write exactly once, with rows of one write grouped in rank order and in logging order within a rank. Loggers never overwrite an existing file: a free name derived from the requested one is used, and rows read back with a csv reader equal the logged values.",
 ["histories", "configurations"], "every distribution of rows over ranks and writes, any values and delimiters, any set of pre-existing files",
 "Tests log a couple of rows per rank with one write.",
 ["logging.py", "util.py"], [("TabularLogger.log_row/write/close; util.find_free_filename", "logging.py, util.py")], ["output file"])
prop("C23", "A schedule restored from a checkpoint continues as the original would have",
 "Restoring a schedule and the random state saved after any tick, into a fresh runner with the same event functions, leads to exactly the same sequence of (tick, event) executions as the uninterrupted run has after that tick, including repeating events, end events (once each), priorities, order of same-tick events, voided events staying void, events scheduled afterwards, and stops when these are restored. Stops are not restored unless asked for, ignored events are skipped, and only events with the requested tag are restored.",
 ["crash_points", "schedules"], "every schedule and every tick at which the checkpoint is taken and restored",
 "Tests checkpoint a few schedules at one tick each.",
 ["checkpoint.py", "schedule.py"], [("Checkpoint.save_schedule, restore_schedule, _schedule_evt, save_random, restore_random", "checkpoint.py")], ["event callbacks after restore"],
 [("order_idx / counter", "insertion order restored with each event", "Schedule")])
prop("C24", "Agents, spaces and networks restored from checkpoints equal those saved",
 "Saving agents, spaces, networks and other values on every rank, serializing, and restoring them into a fresh context followed by a synchronize reproduces on each rank the same local agents with their saved state, the same location of each agent in each space, and the same network edges with attributes, including cross-rank edges (on which both ranks agreed), and ghosts of their far ends. What was saved does not change when the model runs on after saving.",
 ["crash_points", "histories"], "every model history before the checkpoint and every point at which it is taken, any number of ranks",
 "Tests save one hand-made state per kind.",
 ["checkpoint.py"], [("Checkpoint.save_agents/restore_agents, save_space/restore_space, save_network/restore_network; NetworkRestorer", "checkpoint.py")], ["restored context"])
prop("C25", "Context queries report exactly the local agents, by type, in insertion order",
 "After any history of adds, removes and moves between ranks, iterating over a context's agents yields its local agents, all or of one type, in order of insertion; a count limits the number, shuffling permutes without loss or duplication; sizes by type and in total, type membership and lookup by id agree with that collection, and a type without agents is empty. Adding a projection later gives it all current agents, projections are found by name, and a duplicate projection name is refused without effect.",
 ["histories"], "every history of adds, removes and rank moves over any types",
 "Tests call each query once on a small fixed context.",
 ["context.py", "core.py"], [("SharedContext.add/remove/agents/size/contains_type/agent/add_projection/get_projection", "context.py")], ["SharedContext queries"],
 [("_agents_by_type", "local agents by type", "SharedContext")])
prop("C26", "Runs with the same seed and inputs are identical; parameters override files",
 "Initializing with a seed makes every random choice of the package a function of that seed: the same program run again, in the same or another process, yields the same event order, shuffles, query results and their order, random points and partitions. Model parameters are those of the file overridden by those given as JSON, a seed among them reseeds the generator, and the dumped parameters are exactly those in effect.",
 ["programs", "inputs"], "every seed, every program using the package's random choices, every pair of parameter file and override string",
 "Tests check one seed value.",
 ["random.py", "parameters.py", "schedule.py", "context.py", "space.py", "network.py"], [("random.init, parameters.init_params, use of random.default_rng", "random.py, parameters.py")], ["order of events, shuffles, points"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
