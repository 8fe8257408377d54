"""The properties: one table from which properties.jsonl and MANIFEST.json are generated, and which check.py runs.

``rules`` are ("eq", reference file[, key prefixes]) or ("rule", function of jv.rules).  ``floor`` is the
number of obligations confirmed by hand; fewer means the analysis no longer sees what it claims to see.
"""

M = "jinete/models/"
A = "jinete/algorithms/"
H = A + "heuristics/"


def P(id, title, statement, over, text, why, files, mech, rules=(), floor=0, note="", technique=None, state=(),
      observe=(), na=None):
    return dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                mech=[tuple(m.split(" @ ")) for m in mech], rules=list(rules), floor=floor, note=note,
                technique=technique, state=state, observe=observe, na=na)


EQ = "value-graph comparison with reference equations (abstract interpretation of the source)"

PROPS = [
    P("P01", "Times along a route obey the schedule recurrence",
      "At every stop of a route the arrival is the departure from the previous stop (or the vehicle's earliest start "
      "at the first stop) plus the travel time, the service starts at the latest of the arrival, the opening of the "
      "stop's window and any explicitly requested start, and the departure is that start plus the longest service "
      "duration at the stop. Waiting time, travelled distance, pickup and delivery time, ride duration, and the "
      "duration, waiting, transit and distance totals of trips and routes are derived from exactly these values.",
      "inputs", "every route, vehicle, trip set, window and explicit starting time",
      "tests assert the recurrence on a handful of small routes; the recurrence must hold for every chain of stops "
      "and every combination of empty stops, windows and durations",
      M + "stops.py " + M + "planned_trips.py " + M + "routes.py " + M + "trips.py",
      ["stop times @ jinete/models/stops.py Stop.arrival_time/starting_time/departure_time",
       "derived totals @ jinete/models/routes.py Route.duration/waiting_time/transit_time/distance"],
      [("eq", "timing"), ("eq", "windows"), ("eq", "metrics")], 60),
    P("P02", "Effective time windows combine both services and the ride limit",
      "The pickup window of a trip is its own window tightened by the delivery window, the delivery duration, the "
      "travel time and the maximum ride time, and the delivery window is its own window tightened symmetrically by "
      "the pickup. A stop's window is the latest opening and the earliest closing over all pickups and deliveries "
      "performed there (unbounded when there are none), and a vehicle without destination ends at its origin.",
      "inputs", "every trip, stop and vehicle",
      "the tightening formulas mix six inputs; samples do not separate, for example, origin from destination duration",
      M + "trips.py " + M + "stops.py " + M + "vehicles.py " + M + "services.py",
      ["trip windows @ jinete/models/trips.py Trip.origin_earliest/origin_latest/destination_earliest/destination_latest",
       "stop windows @ jinete/models/stops.py Stop.earliest/latest",
       "vehicle end points @ jinete/models/vehicles.py Vehicle.destination"],
      [("eq", "windows"), ("eq", "metrics", ["Position", "Service", "law_service", "law_position"])], 24),
    P("P03", "Load on board is pickups minus deliveries",
      "The load after a stop is the load after the previous stop (zero before the first) plus the capacities of the "
      "trips picked up there minus those of the trips delivered there. A trip is empty exactly when its capacity is "
      "zero, a route is loaded exactly when it picks somebody up, and its loaded trips are exactly its non-empty ones.",
      "inputs", "every route, stop and trip capacity, fractional and zero capacities included",
      "samples use unit capacities and few stops, where many wrong accountings coincide",
      M + "stops.py " + M + "planned_trips.py " + M + "routes.py " + M + "trips.py",
      ["load recurrence @ jinete/models/stops.py Stop.capacity",
       "loaded trips @ jinete/models/routes.py Route.loaded_trips"],
      [("eq", "loads")], 9),
    P("P04", "A feasible verdict means every operational limit is met",
      "A stop is feasible exactly when its service starts within its time window and the load fits the vehicle, a "
      "planned trip exactly when both its stops are feasible and the ride does not exceed its limit, and a route "
      "exactly when it starts and ends at the vehicle's depots within their hours, respects the vehicle's maximum "
      "duration, and serves only feasible trips. A planning or result is feasible exactly when all of its routes are, "
      "and comparisons share one small tolerance.",
      "inputs", "every stop, planned trip, route and planning, empty ones included",
      "a verdict that is wrong only at one boundary or for one missing clause passes any finite sample",
      M + "stops.py " + M + "planned_trips.py " + M + "routes.py " + M + "plannings.py " + M + "results.py",
      ["verdicts @ jinete/models/routes.py Route.feasible",
       "stop verdict @ jinete/models/stops.py Stop.feasible",
       "trip verdict @ jinete/models/planned_trips.py PlannedTrip.feasible"],
      [("eq", "feasibility"), ("eq", "windows"), ("eq", "loads"), ("eq", "timing"), ("eq", "metrics")], 75),
    P("P05", "Objective values are the declared measures at every level",
      "Each objective returns the same measure whether it is asked about a result, a planning, a route, a stop or a "
      "planned trip: served requests and negated travelled distance for dial-a-ride, shared riding time for taxi "
      "sharing, travelled length plus on-time bonuses for the Hash Code problem, where trips without load count for "
      "nothing. A value that is already a tuple of figures is returned unchanged, and the value of a planning is "
      "made of the sums of its routes' values.",
      "inputs", "every result, planning, route, stop and planned trip, for each objective",
      "the levels are computed by separate code; only a proof over all inputs shows that they agree",
      M + "objectives.py",
      ["levels @ jinete/models/objectives.py Objective.optimization_function"],
      [("eq", "objectives"), ("eq", "timing"), ("eq", "loads"), ("eq", "windows")], 65),
    P("P06", "Route criteria never rank an infeasible route above a feasible one",
      "Every route criterion scores a feasible route by its declared measure (last departure, duration, average ride, "
      "useful distance, distance plus punctuality bonus) and an infeasible one by the worst value in the criterion's "
      "own direction.",
      "inputs", "every route and every criterion",
      "the sentinel of each criterion depends on its direction; a sample seldom contains an infeasible competitor",
      M + "criterions.py",
      ["scores @ jinete/models/criterions.py RouteCriterion.scoring"],
      [("eq", "criteria"), ("eq", "direction"), ("eq", "timing"), ("eq", "feasibility")], 60),
    P("P07", "Best, sorted and n-best follow one direction",
      "For every objective, criterion and direction, the best of a collection maximises (or minimises) the score, "
      "sorting lists the best first, and the n best are the first n of that order, in place only when asked and "
      "possible. Missing candidates are ignored, an empty choice yields nothing, and among equally good candidates "
      "the earliest stays first.",
      "inputs", "every collection of candidates, any number of missing ones, both directions",
      "ties, missing candidates and in-place variants are combinations no test enumerates",
      M + "constants.py " + M + "objectives.py " + M + "criterions.py",
      ["direction @ jinete/models/constants.py OptimizationDirection",
       "choice @ jinete/models/objectives.py Objective.best"],
      [("eq", "direction"), ("eq", "objectives"), ("eq", "criteria")], 40),
    P("P08", "Distances are the surface's metric, memoised without distortion",
      "The distance between two positions of a surface is the Euclidean or Manhattan distance of their coordinates "
      "as configured for that surface, whatever was asked before, in either order and for any other pair. Travel time "
      "equals distance, and services delegate both to their positions.",
      "inputs histories", "every pair of positions and every earlier sequence of queries on any surface",
      "a memo that confuses two pairs, two orders or two surfaces only shows after particular query histories",
      M + "surfaces.py " + M + "positions.py " + M + "constants.py " + M + "services.py",
      ["memo @ jinete/models/surfaces.py GeometricSurface.distance",
       "metrics @ jinete/models/constants.py DistanceMetric"],
      [("eq", "metrics"), ("rule", "memo_distance"), ("rule", "cached_decorators")], 13,
      technique=EQ + " plus key-injectivity rule on the memo table"),
    P("P09", "Problem entities compare by value, plans by identity",
      "Two positions are equal exactly when their coordinates are, two services exactly when position, window and "
      "duration are, equal values have equal hashes, and asking a surface twice for the same coordinates never "
      "registers two positions. Stops, planned trips, routes, plannings, trips and vehicles are distinct whenever they "
      "are distinct objects, and copying a planning never duplicates the problem description it refers to.",
      "inputs", "every pair of entities of each kind",
      "hash collisions and unequal-but-colliding values are never met by sampled tests",
      M + "services.py " + M + "positions.py " + M + "surfaces.py " + M + "trips.py " + M + "vehicles.py " + M + "jobs.py",
      ["value equality @ jinete/models/services.py Service.__eq__",
       "position identity @ jinete/models/positions.py GeometricPosition.__eq__",
       "copy protocol @ jinete/models/trips.py Trip.__deepcopy__"],
      [("eq", "identity"), ("rule", "hash_consistency"), ("rule", "identity_equality")], 20,
      technique=EQ + " plus hash/equality field-set rule"),
    P("P10", "Views list exactly the declared fields, in order",
      "Iterating or printing an entity yields exactly its declared field names in their fixed order, each with the "
      "current value of that field. Route and stop views list stops, positions, pickups, deliveries and trips in route "
      "order without loss or repetition.",
      "inputs", "every entity",
      "two swapped fields or a dropped element agree with the right answer on many samples",
      M + "trips.py " + M + "services.py " + M + "vehicles.py " + M + "jobs.py " + M + "stops.py " + M + "routes.py " +
      M + "plannings.py " + M + "results.py " + M + "planned_trips.py " + M + "surfaces.py " + M + "positions.py " + M + "abc.py",
      ["field views @ jinete/models/abc.py Model.__iter__"],
      [("eq", "views")], 26),
    P("P11", "Loaders map every column of an instance file to its meaning",
      "A Cordeau-Laporte file yields the declared number of identical vehicles at the depot with the stated capacity "
      "and duration limit, and one trip per request pairing pickup row and delivery row with their own coordinates, "
      "windows, durations, load and maximum ride. A Hash Code file yields its vehicles, rides, bonus and horizon "
      "likewise, each format on its own metric, and the loaded fleet and job share one surface built from the file's "
      "numbers.",
      "inputs", "every well-formed instance file",
      "column mix-ups are invisible on instances whose columns coincide, such as zero durations or unit loads",
      "jinete/loaders/file.py jinete/loaders/abc.py jinete/loaders/formatters/cordeau_laporte.py jinete/loaders/formatters/hashcode.py",
      ["Cordeau-Laporte mapping @ jinete/loaders/formatters/cordeau_laporte.py CordeauLaporteLoaderFormatter",
       "Hash Code mapping @ jinete/loaders/formatters/hashcode.py HashCodeLoaderFormatter",
       "file reading @ jinete/loaders/file.py FileLoader"],
      [("eq", "loading"), ("eq", "metrics", ["law_", "DistanceMetric"]), ("rule", "kept", "FileLoader", ("surface",))], 20),
    P("P12", "Reports state what the result holds, complete and in the declared format",
      "The columnar report lists every route (only the loaded ones on request) with its vehicle, every planned trip and "
      "every stop with their own figures, followed by the summary of the result; the Hash Code report has one line per "
      "such route with the number and identifiers of its loaded trips. Storers deliver exactly that text: to the file "
      "only after it has been produced in full, to the terminal, or to each storer of a set.",
      "inputs fault_sequences", "every result, format option and storer combination, and failures while formatting",
      "a test compares a fragment of one report; a wrong figure, a skipped route or a truncated target needs all",
      "jinete/storers/file.py jinete/storers/prompt.py jinete/storers/sets.py jinete/storers/abc.py "
      "jinete/storers/formatters/columnar.py jinete/storers/formatters/hashcode.py jinete/storers/formatters/abc.py",
      ["columnar @ jinete/storers/formatters/columnar.py ColumnarStorerFormatter.format",
       "hash code @ jinete/storers/formatters/hashcode.py HashCodeStorerFormatter.format",
       "delivery @ jinete/storers/file.py FileStorer.store"],
      [("eq", "storing"), ("eq", "aggregates"), ("eq", "timing"), ("eq", "loads"), ("rule", "format_first")], 60),
    P("P13", "The solver runs exactly the configured pipeline",
      "Solving builds the dispatcher with its own options, which loads the instance once with the loader and its "
      "options, hands its fleet and job to the algorithm with its options, optimises once, gives the result to the "
      "storer with its options (to none when there is none), and returns that same result. Options given for one "
      "component never reach another, and omitted components fall back to the documented defaults.",
      "configurations", "every combination of components and options",
      "mixing up two components' options shows only in configurations that give both",
      "jinete/solvers.py jinete/dispatchers/static.py jinete/dispatchers/abc.py",
      ["pipeline @ jinete/dispatchers/static.py StaticDispatcher.run", "options @ jinete/solvers.py Solver"],
      [("eq", "running"), ("rule", "load_once")], 5),
    P("P16", "Planning and removing trips keep the chain of stops intact",
      "A new route runs from the vehicle's origin to its destination, each stop linked to its predecessor. Inserting a "
      "stop puts it behind the stop it names (or in the first place), relinks its follower and changes nothing else; "
      "planning a trip inserts its pickup, then its delivery, and registers the trip at exactly those two stops; "
      "removing a trip takes out the stops that serve it and closes the gap; a clone repeats place, vehicle, explicit "
      "start, order and trips.",
      "inputs histories", "every route, position, stop and trip, after any sequence of such changes",
      "tests insert into routes of two or three stops; an index that is off only at one end needs another length",
      M + "routes.py " + M + "stops.py " + M + "planned_trips.py",
      ["insertion and removal @ jinete/models/routes.py Route.insert_stop_at/remove_stop_at",
       "planning a trip @ jinete/models/routes.py Route.append_planned_trip",
       "copies @ jinete/models/routes.py RouteCloner.clone"],
      [("eq", "structure"), ("eq", "changes"), ("rule", "append_planned_trip"), ("rule", "remove_trip"), ("rule", "clone")], 50,
      technique=EQ + " plus effect rules on the traced insertions, removals and copies"),
    P("P17", "Remembered figures never outlive a change of the plan",
      "Figures asked for before a change never show after it: once a route's stops are inserted or removed, trips planned or "
      "removed, or local search has swapped stops, every time, load and feasibility of the route, its stops and planned "
      "trips equals that of an identical route built anew. Setting a stop's explicit start or adding a trip to a stop "
      "refreshes that stop at once, and Route.flush the whole route.",
      "histories", "every sequence of plan changes interleaved with queries",
      "a stale figure needs a query before and another after the right change; tests query once",
      M + "routes.py " + M + "stops.py " + M + "planned_trips.py " + M + "plannings.py " + M + "results.py " +
      H + "local_search/strategies/routes/one_shift.py " + H + "local_search/strategies/routes/two_opt.py",
      ["forgetting @ jinete/models/stops.py Stop.flush",
       "forgetting on insertion @ jinete/models/routes.py Route.insert_stop_at",
       "forgetting by hand @ jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py "
       "OneShiftLocalSearchStrategy._flip"],
      [("rule", "no_frozen_memo"), ("eq", "caches")], 21,
      technique="abstract interpretation with caches in the abstract heap: remembered figures after a change against those of a "
                "fresh route; effect analysis of what caches read"),
    P("P18", "Trying out changes never touches what was given",
      "Computing insertions into a route returns new routes and leaves the given route, its stops, its planned trips and "
      "their times exactly as they were, whatever the indices. A clone shares with its original only whole trips that lie "
      "strictly before the asked index, repeats every remaining stop and trip, and is chained like the original. Local "
      "search strategies and insertion iterators work on deep copies of the result or routes they are handed.",
      "inputs histories", "every route, trip, pair of indices and strategy",
      "a stop shared by two routes only shows when one of them is changed later, several steps after the sharing",
      H + "insertion/strategies/abc.py " + H + "insertion/iterators/abc.py " + H + "local_search/strategies/abc.py " + M + "routes.py",
      ["trying insertions @ jinete/algorithms/heuristics/insertion/strategies/abc.py InsertionStrategy.compute",
       "partial clones @ jinete/models/routes.py RouteCloner",
       "private copies @ jinete/algorithms/heuristics/local_search/strategies/abc.py LocalSearchStrategy.__init__"],
      [("rule", "given_untouched"), ("rule", "copies"), ("eq", "insertion", ["law_candidate_leaves"])], 38,
      technique="ownership and effect analysis over the value graph, and symbolic shapes for what a clone shares"),
    P("P19", "Insertion candidates put the trip exactly where asked",
      "Computing insertions yields, for each requested trip and pair of indices, one new route with the same vehicle, "
      "stops and trips in the same order, plus that trip: its pickup directly behind the first index, its delivery "
      "directly before the second. Only feasible candidates are returned unless infeasible ones are asked for. The tail "
      "strategy uses the last gap, the intensive strategy every increasing pair of indices, the sampling strategy "
      "the sampled pairs.",
      "inputs", "every route, trip, pair of indices, option and strategy",
      "a delivery one gap off, or a pair never tried, still yields valid-looking routes; only the complete set of "
      "candidates tells",
      H + "insertion/strategies/abc.py " + H + "insertion/strategies/intensive.py " + H + "insertion/strategies/tail.py " +
      H + "insertion/strategies/sampling.py " + M + "routes.py",
      ["candidates @ jinete/algorithms/heuristics/insertion/strategies/abc.py InsertionStrategy.compute",
       "all pairs @ jinete/algorithms/heuristics/insertion/strategies/intensive.py IntensiveInsertionStrategy.compute",
       "last gap @ jinete/algorithms/heuristics/insertion/strategies/tail.py TailInsertionStrategy.compute"],
      [("eq", "insertion")], 43,
      technique=EQ + ", on symbolic routes of enumerated shapes and, for the pairs tried, routes of any length"),
    P("P20", "Insertion only plans what is pending, only while feasible, best first",
      "Pending are the job's trips that no initial route serves, and initial routes are copied, never edited. Each round "
      "extends one current route by pending trips only; adopting it marks exactly its new trips as done. The algorithm "
      "adopts feasible routes one after another, stops at the first infeasible one and returns one route per vehicle. The "
      "ranking and best-stateless iterators offer the best candidate by the criterion (or one drawn from the best "
      "randomized_size), trying at most neighborhood_max_size pending trips per route.",
      "inputs histories", "every fleet, job, initial routes, strategy, criterion and order of offers",
      "a stale ranking or a trip left pending shows only after several adoptions across vehicles",
      H + "insertion/iterators/abc.py " + H + "insertion/iterators/ranking.py " + H + "insertion/iterators/stateless.py " +
      H + "insertion/algorithm.py",
      ["pending @ jinete/algorithms/heuristics/insertion/iterators/abc.py InsertionIterator._set_route",
       "ranking @ jinete/algorithms/heuristics/insertion/iterators/ranking.py RankingInsertionIterator.__next__",
       "adoption @ jinete/algorithms/heuristics/insertion/algorithm.py InsertionAlgorithm._optimize"],
      [("eq", "inserting"), ("eq", "seeding", ["law_best_stateless_draw"])], 20,
      technique=EQ + ", on small symbolic jobs"),
    P("P22", "Local search moves are adopted only when feasible and strictly better",
      "Two-opt replaces a route by the best of its feasible variants with one stretch of inner stops reversed (never one "
      "holding both ends of a trip), one-shift swaps neighbouring stops (never a pickup with its own delivery) one pair at "
      "a time, and reallocation moves one trip between two routes at the best of the places tried. A move is kept only if "
      "what results is feasible and worth strictly more than what it replaces; otherwise everything stays as it was, and "
      "routes of other vehicles stay the same.",
      "inputs", "every planning, objective and strategy",
      "the guards matter for rejected and tied moves, and for the move after an accepted one; small instances rarely "
      "reject, tie or accept twice",
      H + "local_search/strategies/abc.py " + H + "local_search/strategies/routes/two_opt.py " +
      H + "local_search/strategies/routes/one_shift.py " + H + "local_search/strategies/plannings/reallocation.py",
      ["two-opt @ jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py TwoOPTLocalSearchStrategy._improve",
       "one-shift @ jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py OneShiftLocalSearchStrategy._improve",
       "reallocation @ jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py "
       "ReallocationLocalSearchStrategy._improve",
       "replacement @ jinete/algorithms/heuristics/local_search/strategies/abc.py LocalSearchStrategy._update_routes"],
      [("eq", "improving")], 22,
      technique=EQ + ", on symbolic routes of enumerated shapes"),
    P("P23", "Iterating and local search never lose the best result found",
      "Whatever the number of rounds, the planning returned by the iterative algorithm is the one of the best result "
      "of all its rounds in the job's direction, and the planning returned by local search is never worse than the "
      "initial one or than any it met: every round starts from the best so far, keeps it unless it is beaten, and local "
      "search stops exactly after the configured number of consecutive rounds without improvement.",
      "inputs histories", "every job, fleet, inner algorithm or strategy, number of rounds and threshold",
      "a round that replaces a better result by a later, worse one is rare on the small instances tests can afford",
      A + "metaheuristics/iterative.py " + H + "local_search/algorithm.py " + M + "objectives.py",
      ["rounds @ jinete/algorithms/metaheuristics/iterative.py IterativeAlgorithm._optimize",
       "local search rounds @ jinete/algorithms/heuristics/local_search/algorithm.py LocalSearchAlgorithm._optimize"],
      [("rule", "never_worse"), ("eq", "search", ["law_iterative_best", "law_local_search", "law_iterative_continues"]),
       ("eq", "objectives", ["Objective"]), ("eq", "direction")], 25,
      technique="inductive loop invariant over the value graph of the search loops, plus reference equations"),
    P("P24", "Algorithms built from algorithms run the declared steps",
      "Optimising yields a result that names the algorithm, its job and its fleet. The iterative algorithm builds its "
      "inner algorithm once per round with the fleet, job and options it was given and a seed, restarting from scratch "
      "or from the best so far as configured; the sequential algorithm hands each step the result of the previous one, "
      "with the step's own options first; GRASP iterates a first solution followed by local search, each with its own "
      "options. Omitted choices fall back to the documented defaults, and no step alters the caller's options.",
      "configurations", "every combination of inner algorithms, options, rounds and restart modes",
      "an option that is dropped or reaches the wrong step only matters in configurations that set it",
      A + "abc.py " + A + "naive.py " + A + "metaheuristics/iterative.py " + A + "metaheuristics/sequential.py " +
      A + "metaheuristics/grasp.py " + H + "local_search/algorithm.py",
      ["steps @ jinete/algorithms/metaheuristics/sequential.py SequentialAlgorithm._optimize",
       "rounds @ jinete/algorithms/metaheuristics/iterative.py IterativeAlgorithm._build_algorithm",
       "composition @ jinete/algorithms/metaheuristics/grasp.py GraspAlgorithm._optimize"],
      [("eq", "search")], 14),
    P("P21", "Sampled positions are as many different pairs as asked for",
      "sample_index_pairs(n, count) gives min(count, n(n-1)/2) different pairs (i, j) with 0 <= i < j < n, and where it "
      "draws, every such pair can be drawn. ncr(n, r) is the number of r-subsets of n elements for r <= n, and "
      "remove_duplicates keeps the first occurrence of every element, in order.",
      "inputs randomness", "every count and every outcome of the draws; n from 2 to 7 for the pairs",
      "tests look at one small n, where all pairs are given and nothing is drawn",
      "jinete/utils/random.py jinete/utils/collections.py " + H + "insertion/strategies/sampling.py",
      ["pairs of positions @ jinete/utils/random.py sample_index_pairs",
       "numbers of subsets @ jinete/utils/random.py ncr",
       "first occurrences @ jinete/utils/collections.py remove_duplicates"],
      [("rule", "sampled_pairs"), ("eq", "sampling")], 12,
      technique="symbolic summary of the sampling loop, judged by the values its draws can take (abstract value sets) and "
                "its exit condition, plus reference equations"),
    P("P25", "Random choices come only from the seed options",
      "Every random draw is made by a generator object created from a seed, 56 by default; none uses the process-wide "
      "random state or seeds itself. The insertion iterators draw the adopted candidate, the sampling strategy its "
      "positions, and the iterative and sequential algorithms one fresh seed per inner algorithm that has no seed of its "
      "own, in order, from the generator of their own seed option; GRASP hands its seed to its rounds and the insertion "
      "algorithm its seed to its iterator.",
      "inputs configurations", "every seed, number of rounds, list of steps, candidate list and route length",
      "a draw from the shared state looks random either way, and positions are only sampled from 17 stops on",
      A + "metaheuristics/iterative.py " + A + "metaheuristics/sequential.py " + A + "metaheuristics/grasp.py " +
      H + "insertion/iterators/ranking.py " + H + "insertion/iterators/stateless.py " + H +
      "insertion/strategies/sampling.py " + H + "local_search/strategies/plannings/reallocation.py jinete/utils/random.py",
      ["seeds of inner algorithms @ jinete/algorithms/metaheuristics/iterative.py IterativeAlgorithm._optimize",
       "sampled positions @ jinete/utils/random.py sample_index_pairs",
       "drawn candidate @ jinete/algorithms/heuristics/insertion/iterators/ranking.py RankingInsertionIterator"],
      [("rule", "own_random"), ("eq", "seeding")], 15,
      technique="syntax-tree analysis of every use of randomness with an interprocedural may-be-absent analysis of the "
                "generator, plus reference equations over a symbolic generator state"),
    P("P14", "The linear program is the three-index dial-a-ride formulation",
      "The problem handed to the solver minimises the distance travelled over the arcs taken (an arc from a node to "
      "itself costs 10000) and holds exactly the constraints of the three-index formulation of the job and fleet: every "
      "request picked up once and delivered by the same vehicle, every vehicle leaves the first and reaches the last "
      "depot, what enters a node leaves it, times and loads grow along every arc taken (big-M), and windows, vehicle "
      "and request timeouts and capacities bound them. Arc variables are 0 or 1; times and loads are continuous and not "
      "bounded otherwise. The depots are the first vehicle's, open from 0 to 1440.",
      "inputs", "every position, window, duration, timeout and capacity, for jobs of one or two requests and fleets of one "
      "or two vehicles",
      "a missing or misindexed constraint only matters for instances on which it binds, and a wrong big-M cuts off "
      "solutions silently",
      A + "exacts/models/three_index.py " + A + "exacts/models/abc.py",
      ["objective @ jinete/algorithms/exacts/models/three_index.py ThreeIndexLinearModel._objective",
       "constraints @ jinete/algorithms/exacts/models/three_index.py ThreeIndexLinearModel._constraints",
       "variables @ jinete/algorithms/exacts/models/three_index.py ThreeIndexLinearModel._x/_u/_w"],
      [("eq", "linear")], 8,
      technique=EQ + ", on the linear terms of symbolic jobs of enumerated sizes"),
    P("P15", "The routes of the exact algorithm are those of the solved program",
      "Every vehicle gets one route whose stops are the nodes on the arcs its solution takes (values near 0 or 1 are "
      "rounded), in order of the solved times, which become the starting times; each request on the route is "
      "planned from its own pickup node to its own delivery node, also where requests share a place. The exact algorithm "
      "builds the model it was given (the three-index model by default) with its fleet, job and options and plans exactly "
      "the routes that model gives.",
      "inputs", "every solution with increasing times along its arcs, for the enumerated visiting orders of one or two "
      "requests and one or two vehicles",
      "solutions that interleave requests, leave vehicles idle or visit one place twice are rare in small solved samples",
      A + "exacts/models/three_index.py " + A + "exacts/milp.py",
      ["routes @ jinete/algorithms/exacts/models/three_index.py ThreeIndexLinearModel.solve",
       "planned trips @ jinete/algorithms/exacts/models/three_index.py ThreeIndexLinearModel._build_planned_trips",
       "algorithm @ jinete/algorithms/exacts/milp.py MilpAlgorithm._optimize"],
      [("eq", "solving")], 13,
      technique=EQ + ", on symbolic solutions of enumerated visiting orders"),
    P("P28", "Errors of the package are one family and name their cause",
      "Every error class of the package descends from JineteException, the package never raises a bare Exception, and the "
      "message of such an error is the text it shows. A stop whose predecessor is not on the route is refused with an error "
      "that holds that route and that stop; the errors for infeasible trips and routes hold the trip or route and mention it; "
      "loader errors are a family of their own within it, formatter errors within that.",
      "inputs", "every error class, raise statement, route and stop",
      "a caller that catches the family misses the one error raised outside of it, on a path no test takes",
      "jinete/exceptions.py jinete/loaders/exceptions.py jinete/loaders/formatters/exceptions.py " + M + "routes.py",
      ["family @ jinete/exceptions.py JineteException",
       "refused stop @ jinete/models/routes.py Route.insert_stop",
       "loader errors @ jinete/loaders/formatters/exceptions.py LoaderFormatterException"],
      [("rule", "own_errors"), ("eq", "errors")], 12,
      technique="class-hierarchy and raise-statement query over the syntax tree, plus reference equations"),
    P("P29", "Aggregates report the planning and nothing else",
      "A planning's vehicles, planned trips, trips and loaded routes are exactly those of its routes, and a result's "
      "completed trips are exactly the non-empty trips served by its routes. The coverage rate is their share of all "
      "requested trips, and objective, value and direction are the job's.",
      "inputs", "every planning and result",
      "samples have one route or serve every trip, where wrong aggregates agree",
      M + "plannings.py " + M + "results.py",
      ["aggregates @ jinete/models/results.py Result.completed_trips/coverage_rate",
       "planning views @ jinete/models/plannings.py Planning"],
      [("eq", "aggregates"), ("eq", "loads"), ("eq", "views")], 14),
]

NOTE = ("Every obligation is decided for all inputs from the source alone, in real arithmetic and assuming that type "
        "annotations and assert statements are truthful; a construct the analysis cannot follow leaves its obligation "
        "undecided (reported in the evidence) rather than raising an alarm.")
