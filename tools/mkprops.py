"""Writes /verif/properties.jsonl (one place to edit the properties' text)."""
import json, os

H = "hyperpack/heuristics.py"; M = "hyperpack/mixins.py"; S = "hyperpack/structures.py"
A = "hyperpack/abstract.py"; P = "hyperpack/processes.py"; U = "hyperpack/utils.py"
X = "hyperpack/exceptions.py"; C = "hyperpack/constants.py"; D = "hyperpack/benchmarks"

def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None))

props = [
prop("C01", "Placed items lie inside their container and never overlap",
 "In every solution an instance exposes, whether from a single construction, a local search or a hypersearch with one or many workers, no two items placed in the same container overlap. Every placed item lies wholly inside its container: 0<=x, 0<=y, x+w<=W and y+l<=L. For a strip the upper bound is the strip's container height in force when that construction (or search) started.",
 ["inputs", "configurations"], "all valid bin and strip problems, item sequences, strategies, rotation settings, heights and operations, including every intermediate solution of a search",
 "Tests compare a few dozen fixed layouts; overlaps depend on the relative position of items (thin or tall gaps), which only appears over very many inputs.",
 [M, H], [("item fitting test", f"{M}:_check_fitting"), ("marking of an item's cells", f"{M}:_construct_solution"), ("potential point generation", f"{M}:_generate_points")],
 ["solution after solve()", "solution after local_search()", "solution after hypersearch()"],
 [("container_coords", "occupancy grid of one container", M)]),
prop("C02", "Solutions conserve the items: no loss of identity, no duplication",
 "A solution has exactly one entry per container of the instance, and each of the items asked to be placed appears at most once over all the containers, under its own id. Each entry is four integers whose last two are that item's width and length, in this or (when turned) the opposite order. No operation adds, drops or renames the instance's items or places an item that was not asked for.",
 ["inputs", "configurations", "histories"], "all problems, full and partial sequences, and operations (construction, local search, hypersearch with any number of workers)",
 "Tests check the layouts of fixed instances only; loss or duplication needs particular multi container leftovers, turned items or worker outputs.",
 [M, H, P], [("removal of placed items from the pool", f"{M}:_construct_solution"), ("carry over between containers", f"{M}:_solve"), ("copies of retained solutions", f"{M}:_deepcopy_solution"), ("worker outputs", f"{H}:_multi_process_hypersearch")],
 ["solution, items and obj_val_per_container after each operation"]),
prop("C03", "Items are turned only when rotation is enabled and needed",
 "With rotation disabled every placed item keeps the orientation it has in the instance's items. With rotation enabled (the default) an item is placed turned by 90 degrees only where it could not have been placed upright at that same spot.",
 ["inputs", "configurations"], "all problems, strategies and operations with rotation on, off or defaulted",
 "The existing tests turn a handful of items; whether a turn was needed depends on the occupancy around each spot.",
 [M, H], [("upright before turned trial", f"{M}:_construct_solution"), ("rotation setting", f"{H}:_validate_settings")],
 ["solution after each construction and operation"]),
prop("C04", "Reported utilization and objective equal what the placements give",
 "The value reported for a container equals the area of the items placed in it over the container's area (for a strip: over its width times the height the placed items reach), so it is never above 1 and is 0 for an empty one. The total objective is the sum of these values with the last container's one weighted by 0.7 when there is more than one container. This holds for the results of constructions, local searches and hypersearches alike.",
 ["inputs", "configurations"], "all problems and operations, including each intermediate solution a search judges",
 "Tests compare values of fixed instances; a wrong height, weight or stale value only shows for certain shapes and container counts, and steers every search silently.",
 [M, H, P], [("incremental utilization", f"{M}:_construct_solution"), ("strip height of a solution", f"{M}:_construct_solution"), ("total objective", f"{M}:calculate_obj_value")],
 ["obj_val_per_container", "calculate_obj_value()"]),
prop("C05", "Nothing is left out that visibly still fits",
 "With a strategy that uses all the potential point classes, an item that is left unplaced, or placed only in a later container, fits (in no orientation allowed) at none of these spots of a container of the solution: the empty container's corner, directly above a placed item's upper left corner, directly right of a placed item's lower right corner. This holds for constructions, and for the container solutions retained by bin packing searches.",
 ["inputs", "configurations"], "all problems and sequences, all full strategies, rotation on and off",
 "Lost candidate points leave valid looking but poorer packings, so tests of fixed layouts notice only the points they happen to pin.",
 [M], [("corner points of every placed item", f"{M}:_generate_points"), ("first fit over the remaining items", f"{M}:_construct_solution"), ("point selection", f"{M}:_get_current_point")],
 ["solution after each construction and operation"]),
prop("C06", "Same problem, sequence and strategy always give the same result",
 "Constructions, local searches and single worker hypersearches that are not cut short by the time limit are deterministic: repeating one on the same instance (bins), on a fresh equal instance, after other operations, or in another interpreter process gives the identical solution, values and best strategy. Item and container ids carry no weight: renaming them (keeping their order) only renames the result.",
 ["inputs", "histories", "configurations"], "all problems and strategies; all histories of prior operations; all interpreter hash seeds",
 "Tests run each case once in one process; leaked state and hash order dependence need repetition, other histories and other processes.",
 [M, H, A], [("fresh grid and point queues per construction", f"{M}:_solve"), ("order of the strategies", f"{H}:get_strategies")],
 ["results compared across repetitions, instances and processes"]),
prop("C07", "A construction follows the documented point generation heuristic exactly",
 "A construction starts at the lower left corner and repeatedly takes the next potential point, from the first non empty class in the strategy's order and first in first out inside a class; there it places the first item of the sequence that fits, upright before turned, or drops the point. Each placed item adds the potential points of the classes A, B, C, D, A', B', A\", B\", E, F exactly as their definitions give; classes absent from the strategy are never used; items left over go on to the next container in order.",
 ["inputs", "configurations"], "all problems, sequences and strategies (all orders and subsets of the classes), containers filled in order",
 "The point tests pin some 200 fixed constellations; the interplay of queues, classes and leftovers over long constructions is unbounded.",
 [M], [("point rules", f"{M}:_generate_points"), ("point queues", f"{M}:_get_current_point"), ("first fit", f"{M}:_construct_solution")],
 ["solution of solve()"]),
prop("C08", "Local search returns the best node and stops only at a local optimum",
 "A local search evaluates only sequences that differ from the current node by one swap, moves to a neighbour only if it is strictly better (for strips without a minimum height: only if it also holds all the items), and returns the best solution it accepted, never worse than the initial one, with matching values. Unless the time is out, the optimum is reached or throttling applies, it ends only after every swap of the last node was evaluated without improvement; throttling caps the neighbours examined per node and nothing else. The same holds for any user problem built on the abstract local search, maximizing or minimizing.",
 ["inputs", "histories", "configurations"], "all problems, both optimization directions, throttled and unthrottled",
 "Tests check end results of a few instances; a search that skips neighbours, forgets its best or keeps a stale solution still ends with plausible results.",
 [A, M], [("search loop", f"{A}:local_search"), ("acceptance", f"{M}:compare_node"), ("retained copies", f"{M}:get_solution")],
 ["every evaluated sequence and objective", "final solution"]),
prop("C09", "Searches respect the time limit and use the time they are given",
 "Once max_time_in_seconds has elapsed since the start of a local search or hypersearch, each worker performs at most a handful of further constructions before the operation returns, with a complete, valid result. Before the limit has elapsed, time never ends a search. For a hypersearch the limit counts from its start, over all strategies and workers.",
 ["inputs", "schedules", "configurations"], "all problems and limits, with time running out at any construction of the search, with one or more workers",
 "Tests use real seconds and small instances that finish early, so the moment of expiry is never varied.",
 [A, H, P], [("deadline of a node search", f"{A}:local_search"), ("deadline between strategies", f"{H}:_single_process_hypersearch"), ("deadline in workers", f"{P}:run")],
 ["constructions performed before and after the limit, on a virtual clock"]),
prop("C10", "Hypersearch tries every strategy once and keeps the best result",
 "A hypersearch that is not cut short by time or by reaching the maximum runs one local search for each of its strategies exactly once; by default these are all 720 orders of the free point classes followed by the fixed suffix of the packing mode. Its result is the best of all these local searches and the initial construction. The reported best strategy is the one that produced the result, and the instance's own strategy is left as it was set.",
 ["inputs", "configurations"], "all problems, strategy sets, presortings, bins and strips",
 "Tests look at end values of few instances with few strategies; a skipped strategy, a wrong best strategy or a stale best is invisible there.",
 [H, C], [("strategy set", f"{H}:get_strategies"), ("search over strategies", f"{H}:_single_process_hypersearch")],
 ["strategy and result of each local search", "best_strategy", "solution"]),
prop("C11", "Searches stop as soon as the maximum utilization is found",
 "When a search finds a solution that fills all the containers completely, it stops: a local search evaluates no further neighbour after accepting it, and a hypersearch starts at most a few further local searches per worker, also when another worker found it. The full solution is the one returned.",
 ["inputs", "schedules", "configurations"], "all perfectly packable bin problems (one or more containers), any strategy order, one or more workers",
 "Tests have no instance with several containers or workers that reaches the maximum early and count no evaluations.",
 [A, H, P, M], [("maximum test", f"{A}:global_check"), ("maximum of several containers", f"{M}:get_optimum_objective_val"), ("shared values of workers", f"{P}:run")],
 ["local searches and constructions after the first full solution"]),
prop("C12", "Many workers give what one worker gives, and always return",
 "For bin packing, a hypersearch with several workers that is not cut short reaches the same objective as with one worker, and every strategy is searched by exactly one worker. It returns whatever the number of workers relative to strategies, the size of the solutions and the order and speed of the workers and the way worker processes are started (fork, spawn, forkserver), and its reported solution, values and best strategy are those of one and the same worker. For a strip each worker packs under the instance's container height and minimum height.",
 ["schedules", "inputs", "configurations"], "all bin problems, numbers of workers and strategies, relative speeds of the workers and sizes of results; strips for the last sentence",
 "Tests use one small instance with default scheduling; large results, uneven splits and skewed workers are not driven.",
 [H, P], [("split of strategies", f"{H}:_multi_process_hypersearch"), ("collection of outputs", f"{H}:_get_process_output"), ("worker", f"{P}:run")],
 ["strategies searched per worker", "final result", "return of the call"]),
prop("C13", "Worker failures never hang or corrupt a hypersearch",
 "If some workers of a hypersearch raise, exit, are killed or stall for a while, the call still returns, with a valid result at least as good as the best that any surviving worker found, and an error is logged. If all of them fail it raises MultiProcessError. It never hangs and never reports a failed worker's data.",
 ["fault_sequences", "crash_points", "schedules"], "all combinations of failing workers, kinds of failure (exception, exit, kill, delay) and points of failure in a worker's life up to handing over its result",
 "Tests force one exception at a worker's start; deaths without a result and failures in the middle of a search are never produced.",
 [H, P], [("exception handling", f"{P}:run"), ("failed worker detection", f"{H}:_get_process_output"), ("choice of the winner", f"{H}:_multi_process_hypersearch")],
 ["return or exception of hypersearch()", "log records", "what each worker found"]),
prop("C14", "Strip searches never lose items",
 "If the first construction of a strip packing search places all the items, then so do all the solutions the search accepts and its final solution (without a minimum height), for local searches and for hypersearches with any number of workers. Among solutions with all the items the result's height is never above that of the first construction.",
 ["inputs", "configurations", "histories"], "all strip problems, strategies, heights and presortings",
 "Tests search few strips; a partial solution with a high utilization must compete with a full one to expose the loss.",
 [M, H, P], [("acceptance needs all items", f"{M}:compare_node"), ("acceptance between strategies", f"{H}:_check_solution")],
 ["items placed by the first construction and by the result", "height of both"]),
prop("C15", "The strip height limit is kept, tightened and guarded consistently",
 "A strip's container height starts at ten times its width, a construction never exceeds it, and a local search lowers it to the height of each accepted solution (not below the minimum height), strictly never raising it. Setting the height rejects values that are no positive integers or are below the minimum height, setting the minimum height rejects those above the height, and rejected values change nothing; resetting restores the start values. A strip's width and container can not be altered otherwise.",
 ["inputs", "histories"], "all strips and all sequences of height changes, resets, constructions and searches",
 "Tests set heights on one instance; sequences of searches, resets and limits are not explored.",
 [H, M, S], [("guards", f"{H}:container_height"), ("tightening", f"{S}:_set_height"), ("reset", f"{H}:reset_container_height")],
 ["container_height, container_min_height and solution after each step"]),
prop("C16", "Edits of items and containers are validated and reset the solution",
 "Whatever sequence of dictionary style edits is applied to the items or containers of an instance, they stay non empty, with string ids and positive integer dimensions under exactly the proper keys; an invalid edit raises an error and changes nothing (an update of many entries stops at its first invalid one). Any edit that changes the data discards the stored solution and values, and the next construction equals that of a fresh instance with the edited data.",
 ["histories", "inputs"], "all sequences of item/container/dimension assignments, deletions, updates, unions, pops and reassignments, valid and invalid",
 "Tests try single edits; the mapping interface has many entry points and their combinations with solving are unbounded.",
 [S, H], [("validation", f"{S}:Dimensions"), ("reset", f"{S}:reset_instance_attrs"), ("reassignment", f"{H}:items")],
 ["items, containers, solution after each edit"]),
prop("C17", "Solving leaves the problem data as they were",
 "Constructions, local searches, figures and logs never change the instance's items, containers, settings or strategy, and no operation changes the items, containers, sequences or tuples the caller passed in (presorting in a hypersearch may reorder and turn the instance's own items only; a missing figure file name is filled in with its default in the settings). Later edits of the caller's items and containers do not reach the instance, and a solution taken from an instance is not altered by its later operations.",
 ["inputs", "histories"], "all problems and sequences of operations",
 "Tests do not compare data before and after; aliasing shows only over sequences of operations.",
 [M, S, H], [("copies of items per construction", f"{S}:deepcopy"), ("copies of retained solutions", f"{M}:_deepcopy_solution")],
 ["inputs and instance data before and after each operation"]),
prop("C18", "Sorting and orienting rearrange the items exactly as asked",
 "Sorting keeps the same items with the same dimensions and orders them by area, perimeter or ratio of longest to shortest side in the asked direction; orienting makes every item wide (w>=l) or long (l>=w) by swapping its sides and changes nothing else. None skips either one, orienting is refused with a warning when rotation is disabled or the orientation is unknown, and an unknown sorting criterion is refused; refused or skipped, nothing changes.",
 ["inputs", "configurations"], "all item sets, criteria, directions and orientations, standalone and as a hypersearch's presorting",
 "Tests sort a few items; ties, extreme ratios, repeated and chained operations are not covered.",
 [M], [("sorting", f"{M}:sort_items"), ("orienting", f"{M}:orient_items")],
 ["items before and after"]),
prop("C19", "Settings are validated completely and take effect",
 "A settings value is accepted exactly when it satisfies the documented rules (types, ranges, figure export rules, plotly and kaleido version limits), at instantiation, at assignment and at revalidation; otherwise SettingsError is raised. Accepted settings take effect and missing ones take their defaults.",
 ["inputs", "configurations", "histories"], "all settings dictionaries over valid and invalid values of each key, all installed or missing plotting library versions",
 "Tests check one bad value per key; combinations, version strings and reassignments are not covered.",
 [H, M], [("solver settings", f"{H}:_validate_settings"), ("figure settings", f"{M}:_validate_figure_settings"), ("version limits", f"{M}:_check_plotly_kaleido_versions")],
 ["acceptance or error per settings value", "observable effect of accepted settings"]),
prop("C20", "A strategy is accepted exactly when it is a tuple of distinct point classes",
 "Assigning a potential points strategy succeeds exactly for tuples of distinct known point class names, and is used by the following constructions; any other value, and deletion, raises PotentialPointsError and leaves the former strategy in force. Instances start with the default strategy and do not share it.",
 ["inputs", "histories"], "all values, sequences of assignments",
 "Tests try single bad values and never check what stays in force.",
 [H], [("guard", f"{H}:potential_points_strategy")],
 ["strategy and constructions after each assignment"]),
prop("C21", "The solution log states what the solution is",
 "The solution log returned and logged states, for the solution the instance holds: the percentage of items placed, for each container its size, utilization and (strips) the height reached, and exactly the items not placed, in order. Without a solution it only warns; it never fails.",
 ["inputs", "configurations"], "all problems and operations, including empty solutions and unplaced items",
 "Tests look at two logs; the numbers can be wrong for other shapes.",
 [M, S], [("log", f"{M}:log_solution")], ["log_solution() return value", "log records"]),
prop("C22", "Figures show exactly the solution",
 "Creating a figure produces, for every container, one figure titled with it whose rectangles are exactly the placed items (position, size, label) and the container's border, written to the asked directory under the asked name and format, and shown only when asked. Without a solution or without anything to do it only warns and writes nothing; export failures raise FigureExportError; any number of items can be drawn.",
 ["inputs", "configurations"], "all solutions (any number of items and containers, bins and strips) and figure settings",
 "Tests check that files appear; the figure's content and large instances are not checked.",
 [M, C, S], [("figure", f"{M}:create_figure"), ("colors", f"{M}:colorgen")],
 ["figures handed to the plotting library", "files written"]),
prop("C23", "Generated and benchmark problems are valid and as asked",
 "Generated problem data always have the asked number of containers and items per container, with positive integer dimensions within the documented spread around the asked averages, and make valid instances. Every benchmark data set is a valid instance whose items exactly match its container's area.",
 ["inputs"], "all generator parameters and random seeds; all the benchmark data sets",
 "Tests do not exercise the generator; random extremes need many draws.",
 [U, D], [("generator", f"{U}:generate_problem_data"), ("data sets", D)], ["returned data"]),
prop("C24", "Library errors are logged when raised",
 "Every validation, deletion, strip, strategy, figure export and multiprocessing error the library raises is one of its documented exception types, carries a message, and that message is logged at error level on the library's logger. Successful operations log no errors.",
 ["inputs", "histories"], "all invalid operations on instances, containers, items, dimensions, settings and strategies; all valid ones for the last sentence",
 "Tests check the log for the cases they list one by one.",
 [X, S, H, M], [("logging exception", f"{X}:ErrorLoggingException")], ["exception type, message and log records"]),
prop("C25", "Instances are independent of each other",
 "Operations on one instance never affect another: interleaving the operations of several instances in one thread, or running them in parallel threads, gives each the result it gets alone, and no operation changes the classes' defaults.",
 ["schedules", "histories", "configurations"], "all sets of instances, interleavings of their operations at any construction, and threads",
 "Tests use one instance at a time; shared mutable defaults only show across instances.",
 [M, H, A], [("per construction state", f"{M}:_get_initial_potential_points"), ("class defaults", f"{M}:INIT_POTENTIAL_POINTS")],
 ["each instance's results alone and interleaved", "class attributes"]),
prop("C26", "Reading changes nothing; copies of an instance are equal and independent",
 "Reading an instance or its items, containers and dimensions - iterating, comparing, printing, copying, deep copying, pickling, inspecting, logging, asking for strategies, heights, settings, values - at any time, also inside a search, changes neither its data, solution and settings nor any later result. A deep copied or pickled and restored instance has the same data, solution and settings, gives the same results as the original would, and operations on either never affect the other.",
 ["inputs", "histories", "configurations"], "all problems and sequences of operations, with reads between and inside of them and copies taken at any of them",
 "Tests read what they assert and never compare with an instance that was not read; copies of instances are not tested at all.",
 [S, M, H], [("copying of structures", f"{S}:copy"), ("links of structures to the instance", f"{S}:Dimensions"), ("solution reset", f"{S}:reset_instance_attrs")],
 ["data, solution, settings and results of read, copied and untouched instances"]),
prop("C27", "Operations leave nothing behind in the process",
 "After any operation - construction, search with one or many workers, also with failing ones, figure, log, edit, refused edit, data generation - no worker process, thread, open file or file that was not asked for remains, the global state of the interpreter (random generator unless data are generated, working directory, environment, logging and warning configuration, signal handlers, limits, start method) is as before, and nothing is printed except by the data generator. An instance nobody refers to any more is freed, however it was used.",
 ["histories", "configurations", "fault_sequences"], "all operations on all problems, repeated at will, including failing ones",
 "Tests run each operation once and look at its result only; leaks and side effects on the process show in long running callers.",
 [H, P, M, S, U], [("joining of the workers", f"{H}:_multi_process_hypersearch"), ("closing of the workers' queues", f"{H}:_multi_process_hypersearch"), ("links between instance and structures", f"{S}:AbstractStructureSet"), ("figure export", f"{M}:create_figure")],
 ["the process: children, threads, descriptors, files, global state, output, live instances"]),
prop("C28", "Interrupted operations leave a usable instance and no workers",
 "When a construction, local search or hypersearch is interrupted at any point while it solves (KeyboardInterrupt, an error of a user's hook, out of memory), the exception reaches the caller, the instance's items, containers, settings, strategy and minimum height are as before, a strip's height is at most lowered, and the stored solution is empty or a valid one. Every later operation gives what a fresh instance with the same data gives, and no worker of an interrupted hypersearch goes on.",
 ["crash_points", "inputs", "configurations"], "all points of interruption of all operations on all problems",
 "No test interrupts an operation; the points to do so are as many as the calls of a search.",
 [H, M, A, P], [("restoring of the strategy", f"{H}:hypersearch"), ("ending of the workers", f"{H}:_multi_process_hypersearch"), ("solution assigned as a whole", f"{H}:solve"), ("fresh state of every construction", f"{M}:_solve")],
 ["instance data, solution and values after the exception", "results of the following operations", "live child processes"]),
prop("C29", "Items and containers read, copy and print as what they hold",
 "At any time, after any edits (also refused ones), sorting, orienting and solving, the items and containers of an instance read like ordered dictionaries of their entries: iteration, length, membership, lookups and comparisons agree with each other, unknown ids are not found. Copies, also of a sequence of ids, are equal plain dictionaries in the asked order that are the caller's own to change and make an equal problem again. Printed, each lists every entry in order with its id, width and length (a strip's container its width only).",
 ["inputs", "histories"], "all problems and histories of edits and operations",
 "Tests print and copy single structures right after they were made.",
 [S], [("copies", f"{S}:deepcopy"), ("printing of containers", f"{S}:Containers"), ("printing of items", f"{S}:Items")],
 ["everything read from, copied from and printed of the structures"]),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(props))
