"""Writes properties.jsonl and MANIFEST.json (the single place where both are edited)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

M = "jinete/models/"
H = "jinete/algorithms/heuristics/"
ME = "jinete/algorithms/metaheuristics/"

P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe_at, state=(), technique="", note=""):
    P.append(
        dict(
            spec=dict(
                id=pid,
                title=title,
                statement=statement,
                quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(
                    files=files,
                    state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                    mechanism=[dict(name=n, where=w) for n, w in mechanism],
                    observe_at=observe_at,
                    hook_needed=None,
                ),
            ),
            technique=technique,
            note=note,
        )
    )


prop(
    "C01",
    "A route or planning is reported feasible exactly when it meets every constraint",
    "A planned request, a route and a planning are reported feasible if and only if (within the documented tolerance) "
    "every request on them is picked up and delivered inside its windows, rides no longer than its limit and never "
    "overfills the vehicle at its own stops, and the vehicle starts and ends at its depots, starts no earlier and ends "
    "no later than its shift allows and is away no longer than its limit. "
    "The verdict depends only on the requests, the vehicle and the visiting order with its starting times: not on how "
    "the route was built, edited, copied or queried before.",
    ["inputs", "histories"],
    "Every instance (windows, loads, ride limits, service times, shifts, depots), every precedence-respecting visiting "
    "order, every way of building or editing it, margins to each bound on both sides of the tolerance.",
    "The tests ask a handful of fixed routes; a constraint that is dropped, shifted by a service time, compared the "
    "wrong way round or answered from a stale value shows only on instances where exactly that constraint binds.",
    [M + "routes.py", M + "planned_trips.py", M + "stops.py", M + "plannings.py", M + "trips.py", M + "vehicles.py"],
    [
        ("Route.feasible", M + "routes.py: Route.feasible"),
        ("PlannedTrip.feasible", M + "planned_trips.py: PlannedTrip.feasible"),
        ("Stop.feasible, Stop.earliest, Stop.latest, Stop.capacity", M + "stops.py: Stop"),
        ("invalidation of remembered verdicts", M + "stops.py: Stop.flush; " + M + "planned_trips.py: PlannedTrip.flush"),
    ],
    ["feasible of planned trips, stops, routes, plannings, results"],
    technique="runtime monitor: feasibility verdicts of the real objects judged against a from-scratch re-evaluation of "
    "every constraint over pure instance data",
    note="Observes the library's own verdicts on thousands of random and boundary plans and histories of edits; says "
    "nothing about margins within the library's 0.001 tolerance. Trusts the oracle in vp/oracle.py.",
)

prop(
    "C02",
    "Every planning is a proper assignment of requests to vehicles",
    "In every planning a solver returns, each vehicle of the fleet has at most one route, each request is served at "
    "most once, by vehicles and requests of the problem only, and is picked up at its origin and delivered at its "
    "destination on the same route, the pickup before the delivery. "
    "Each route runs from its vehicle's start depot to its end depot, its stops form one chain in visiting order, and "
    "what is listed as served on a planning, route or stop is what the chain of stops serves.",
    ["inputs", "configurations", "histories"],
    "Every instance and every algorithm configuration (construction, resumed construction, local search, iterated, "
    "sequential, GRASP), including every intermediate planning handed from one phase to the next.",
    "The tests check sizes of results on a few fixed instances; duplicated, lost or misplaced requests appear only when "
    "several routes compete for a request or a search swaps routes in and out of the planning.",
    [
        H + "insertion/iterators/abc.py",
        H + "insertion/iterators/ranking.py",
        H + "insertion/algorithm.py",
        H + "local_search/strategies/abc.py",
        H + "local_search/strategies/plannings/reallocation.py",
        H + "local_search/strategies/routes/two_opt.py",
        H + "local_search/strategies/routes/one_shift.py",
        M + "plannings.py",
        M + "routes.py",
    ],
    [
        ("replacement of a vehicle's route", H + "insertion/iterators/abc.py: InsertionIterator._set_route"),
        ("requests marked as done", H + "insertion/iterators/abc.py: _mark_planned_trip_as_done; ranking.py: _update_ranking"),
        ("replacement of the routes of a planning", H + "local_search/strategies/abc.py: LocalSearchStrategy._update_routes"),
        ("linking of stops", M + "routes.py: Route.insert_stop_at, remove_stop_at, RouteCloner"),
    ],
    ["Result.planning / .routes / .trips / .vehicles of every optimize() call"],
    technique="runtime monitor on every optimize() call (outer and nested): structural invariants of each planning",
    note="All plannings returned inside thousands of randomly configured runs are walked stop by stop; reach is what the "
    "random instances and configurations make the algorithms do.",
)

prop(
    "C03",
    "The timetable is the physical consequence of the visiting order, and up to date",
    "All reported times, loads and distances of a route, its stops and its planned requests equal what driving the "
    "stops in order gives: the vehicle leaves its depot when its shift (or a later requested start) begins, travels for "
    "the travel time, waits for the earliest time and for any requested start, stays for the longest service at the "
    "stop, and carries what was picked up and not yet delivered. "
    "This is so after every edit of the route, whatever was queried before it.",
    ["inputs", "histories"],
    "Every instance, visiting order and requested starting time, every history of edits (append, remove, insert or drop "
    "a stop, share a stop, delay or release a start) interleaved with queries.",
    "Times are remembered between queries and recomputed after edits; the tests query fresh routes, so a value that "
    "survives an edit, or a formula that only differs when waiting, sharing and delaying meet, goes unseen.",
    [M + "stops.py", M + "routes.py", M + "planned_trips.py", M + "surfaces.py", H + "insertion/strategies/abc.py"],
    [
        ("arrival, starting, departure, waiting times", M + "stops.py: Stop"),
        ("invalidation", M + "stops.py: Stop.flush; " + M + "routes.py: Route.flush, insert_stop_at, remove_stop_at"),
        ("durations, distance, waiting of the route", M + "routes.py: Route"),
    ],
    ["times, loads and distances of Stop, PlannedTrip and Route after every edit"],
    technique="runtime monitor: after every step of a random editing history, all reported values compared with an "
    "independent simulation",
    note="Independent forward simulation of each observed route after every step; covers the public editing operations.",
)

prop(
    "C04",
    "Solvers only return plannings that satisfy every constraint",
    "Whatever algorithm and options are chosen (short of explicitly asking for infeasible insertions), every planning "
    "returned for a problem satisfies all constraints of that problem, judged on the problem's data alone: windows, ride "
    "limits, capacities along the whole route, shifts and depots.",
    ["inputs", "configurations"],
    "Every instance and algorithm configuration, every planning returned by any phase of a run.",
    "The tests solve a few loose fixed instances; an infeasible plan needs a constraint that binds exactly where an "
    "insertion, an exchange or a shift checks less than the whole route.",
    [
        H + "insertion/strategies/abc.py",
        H + "insertion/iterators/stateless.py",
        H + "insertion/iterators/ranking.py",
        H + "local_search/strategies/routes/two_opt.py",
        H + "local_search/strategies/routes/one_shift.py",
        H + "local_search/strategies/plannings/reallocation.py",
        M + "routes.py",
        M + "criterions.py",
    ],
    [
        ("feasibility filter of candidates", H + "insertion/strategies/abc.py: InsertionStrategy._compute_one"),
        ("feasibility of exchanged routes", H + "local_search/strategies/routes"),
        ("feasibility-aware scoring", M + "criterions.py"),
    ],
    ["Result of every optimize() call"],
    technique="runtime monitor on every optimize() call: constraint-by-constraint re-evaluation over pure instance data",
    note="Every planning of thousands of runs on tight instances re-judged from the generating data; assumes vehicles that "
    "can drive their empty route. Violations below the 0.001 tolerance are accepted.",
)

prop(
    "C05",
    "Objective values are what the objective's definition says, at every level",
    "The dial-a-ride value is first the number of requests served and then minus the distance driven (for a single request, "
    "the distance driven while it is aboard); taxi sharing is the time aboard of each request with a load; HashCode is the direct "
    "distance of each request with a load plus its bonus when its pickup is completed exactly at its earliest time. "
    "The value of a stop, a route and a planning is the sum over what it contains (distances over the whole route), that of a "
    "result the value of its planning, and all three objectives are maximized.",
    ["inputs"],
    "Every planning (empty, partial, infeasible, with requests without load, bonuses met or missed), every objective, "
    "every level (request, stop, route, planning, result).",
    "The tests evaluate mocks or one route; a wrong sum, a bonus paid for a late ride, or two levels that disagree need "
    "plans with waiting, several routes and empty requests.",
    [M + "objectives.py", M + "results.py"],
    [("optimization functions", M + "objectives.py"), ("Result.optimization_value", M + "results.py: Result")],
    ["Objective.optimization_function, best, and Result.optimization_value"],
    technique="runtime monitor: reported objective values compared with their recomputation from observed plans",
    note="Values recomputed from the observed stops and the instance's data for every level; definitions as documented in the "
    "code and contest rules.",
)

prop(
    "C06",
    "Criteria score routes as defined, and choosing returns the true best in order",
    "The criteria score a feasible route by the time it ends, its duration, the average time aboard of its requests, the direct "
    "distance of its requests, or that plus the on-time bonuses, as each says, and an infeasible one as the worst possible. "
    "Whatever the pool, best returns an element no other beats, sorting is a permutation in order of preference, and the n best "
    "are the n most preferred. "
    "Missing elements never win over real ones, and best means the same when requests, routes, plannings, results or plain values "
    "are compared under an objective.",
    ["inputs"],
    "Every pool of routes (ties, infeasible, empty, equal), every criterion, objective, direction and n.",
    "The tests order a few fixed numbers; a reversed direction, an infeasible route scoring well, or an n-best that drops "
    "the best needs mixed pools.",
    [M + "criterions.py", M + "constants.py", M + "objectives.py"],
    [
        ("scores", M + "criterions.py: RouteCriterion.scoring and its subclasses"),
        ("directions", M + "constants.py: OptimizationDirection"),
        ("comparisons of objectives", M + "objectives.py: Objective.best"),
    ],
    ["scoring / best / sorted / nbest of criteria, best of objectives"],
    technique="runtime monitor: scores recomputed from scratch, choices compared with exhaustive comparison of the pool",
    note="Random pools with ties and infeasible members; every criterion, objective and direction.",
)

prop(
    "C07",
    "Improvement procedures never return anything worse than they were given or found",
    "Every local search (and every single improvement step of it) serves the same requests with an objective value no worse than "
    "that of the planning it was given, and an iterated algorithm (GRASP included) runs the requested number of episodes, "
    "continues from the best planning so far (or, when restarting, from the planning it was given), and returns the best planning "
    "found. "
    "A sequential algorithm hands each phase's planning to the next and returns the last one; the improving phase of GRASP goes on "
    "from its own best. Local search only ends when as many consecutive attempts as allowed brought nothing. "
    "Resuming a construction from a partial planning keeps the requests already served there, on their vehicles and in their order.",
    ["inputs", "configurations", "histories"],
    "Every instance, objective (minimized or maximized), chain of phases and number of episodes; every intermediate "
    "planning inside a run.",
    "The tests check that a result comes back; keeping the last instead of the best episode, or accepting a worse "
    "neighbour, needs runs in which episodes differ under each direction of the objective.",
    [
        H + "local_search/algorithm.py",
        H + "local_search/strategies/abc.py",
        H + "local_search/strategies",
        ME + "iterative.py",
        ME + "grasp.py",
        ME + "sequential.py",
        M + "objectives.py",
    ],
    [
        ("acceptance of improvements", H + "local_search/algorithm.py: LocalSearchAlgorithm._optimize"),
        ("best of episodes", ME + "iterative.py: IterativeAlgorithm._optimize"),
        ("hand-over between phases", ME + "sequential.py: SequentialAlgorithm._optimize"),
    ],
    ["input and output plannings of every nested optimize() and improve() call"],
    technique="runtime monitor over the recorded tree of nested optimize() calls: objective values recomputed from observed "
    "plans",
    note="The trace of every nested phase is recorded and compared; reach is what random instances make the phases produce "
    "(the evidence counts the runs in which phases actually differed).",
)

prop(
    "C08",
    "Solving, scoring, comparing and storing never change what they were given",
    "Running an algorithm, computing insertions, scoring, comparing, printing or storing leaves the requests, the vehicles, "
    "the places, every plan it was given and every earlier result exactly as they were: same stops, same order, same times, "
    "now and when asked again later. "
    "A plan handed to a later phase as its starting point still says the same after that phase has built upon it. "
    "Neither are the options changed that an algorithm was configured with, and all of this holds also when the run is "
    "interrupted half-way.",
    ["inputs", "histories", "configurations", "crash_points"],
    "Every history of solver runs (complete or interrupted anywhere), candidate computations, scorings, comparisons and storings over shared requests, "
    "vehicles and plans.",
    "Candidates share stops with the routes they are derived from; the tests look at the returned object only, so a shared "
    "stop that is shifted, relinked or delayed behind the owner's back is never looked at again.",
    [
        H + "insertion/strategies/abc.py",
        H + "insertion/iterators/abc.py",
        H + "local_search/strategies",
        M + "routes.py",
        M + "plannings.py",
        M + "stops.py",
        "jinete/storers",
    ],
    [
        ("copy before edit", M + "routes.py: Route.clone, RouteCloner; " + M + "plannings.py: Planning.__deepcopy__"),
        ("delayed departures on a copy", H + "insertion/strategies/abc.py: InsertionStrategy._improve_ride_times"),
        ("separate containers", H + "insertion/iterators/abc.py: InsertionIterator.__init__"),
    ],
    ["fingerprints of all inputs before and after each call"],
    technique="runtime monitor: fingerprints (structure, identities, recomputed times) of every input around every call",
    note="Fingerprints include stop identities, links and times recomputed after dropping remembered values.",
)

prop(
    "C09",
    "A copy of a plan says exactly the same as the original and leads its own life",
    "A copy of a route, planning or result (whole, or a route copied from a position on) has the same vehicle, stops, "
    "requests, requested starting times and therefore the same times, loads and verdicts as the original. "
    "Editing the copied part of one of them afterwards never changes the other, and no place, request or vehicle is "
    "duplicated by copying.",
    ["inputs", "histories"],
    "Every route (shared stops, delayed starts, thousands of stops), every cut position, every edit on either side "
    "afterwards.",
    "The tests copy short fresh routes and compare a few fields; a request cut in half by a partial copy, a lost starting "
    "time or a stop linked into the original needs overlapping rides and later edits.",
    [M + "routes.py", M + "plannings.py", M + "stops.py", M + "planned_trips.py", M + "trips.py", M + "vehicles.py"],
    [
        ("Route.__deepcopy__", M + "routes.py: Route.__deepcopy__"),
        ("partial copies", M + "routes.py: RouteCloner"),
        ("shared immutable objects", M + "trips.py, vehicles.py, positions.py: __deepcopy__"),
    ],
    ["Route.clone(), Route.clone(idx), copy.deepcopy of routes, plannings and results"],
    technique="runtime monitor: copies compared with originals, then one side edited at random while the other is watched",
    note="All observable values compared at the copy and after each subsequent edit of either side.",
)

prop(
    "C10",
    "Insertion strategies offer exactly what they promise, and lose none that fits",
    "Each strategy offers, for a route and a request, one route per promised pair of positions (all pairs with pickup before "
    "delivery; a sample of them; only after the last served stop), each being the original route with just that pickup and "
    "delivery inserted there. "
    "Without the feasibility filter none is dropped; with it, every offered route is feasible and every insertion that is feasible "
    "when driven as early as possible (requested starts kept), or, when it comes first, after leaving the depot later by the wait there, "
    "or after picking up later by the excess, from the last to the first, those whose ride would be too long, is offered. "
    "Sampling offers as many different pairs as asked for (all, when there are no more), any of them with a chance.",
    ["inputs", "configurations"],
    "Every route (empty, long, with delayed starts), request, strategy, explicit or default positions, with and without the "
    "filter.",
    "The tests count candidates on tiny loose routes; an off-by-one in the positions or a feasible insertion lost to a "
    "too-early check shows only on routes where exactly that pair is feasible.",
    [
        H + "insertion/strategies/abc.py",
        H + "insertion/strategies/intensive.py",
        H + "insertion/strategies/sampling.py",
        H + "insertion/strategies/tail.py",
        "jinete/utils/random.py",
    ],
    [
        ("enumeration of pairs", H + "insertion/strategies/*.py: compute"),
        ("one insertion", H + "insertion/strategies/abc.py: InsertionStrategy._compute_one"),
        ("decision of the departure", H + "insertion/strategies/abc.py: InsertionStrategy._improve_ride_times"),
        ("sampled pairs", "jinete/utils/random.py: sample_index_pairs"),
    ],
    ["InsertionStrategy.compute() outputs"],
    technique="runtime monitor: offered candidates compared with a from-scratch enumeration of all insertions",
    note="Every offered candidate and every missing pair is judged against an independent enumeration and simulation.",
)

prop(
    "C11",
    "Editing a route does what it says and nothing else",
    "Appending a request inserts exactly its pickup and delivery where their predecessors say, removing one takes exactly "
    "its two visits away (keeping whatever shares its stops), inserting or dropping a stop changes exactly that stop; the "
    "order of all other stops and the requests they serve stay. "
    "After every edit all views of the route (stops, requests, deliveries, positions, loads, feasibility, links) agree with each "
    "other and with a route made afresh with the same visits; a stop whose predecessor is not on the route is refused, and a "
    "request as a whole when one of its two stops is.",
    ["inputs", "histories"],
    "Every route and every history of edits, with requests sharing stops and interleaved rides.",
    "The tests edit once and count; removing from the middle, replacing the first stop, or removing one of two requests "
    "sharing a stop needs longer histories.",
    [M + "routes.py", M + "stops.py", M + "planned_trips.py", "jinete/exceptions.py"],
    [
        ("edits", M + "routes.py: Route.insert_stop, insert_stop_at, remove_stop_at, append_planned_trip, remove_trip"),
        ("links", M + "stops.py: Stop.previous, append_pickup, append_delivery"),
    ],
    ["the public views of Route and Stop after each edit"],
    technique="runtime monitor: model-based history checking against a plain list of visits",
    note="Lock-step comparison with a list model after each of tens of thousands of edits.",
)

prop(
    "C12",
    "Greedy construction takes one of the k best insertions until none is left",
    "At every step a construction inserts one pending request into one current route, by one of the k best-scored feasible "
    "insertions (under its criterion, among all that its strategy offers for all pending requests on all routes in use and an "
    "empty vehicle; where the number of requests looked at together is limited, among theirs); with k = 1 it takes the best, with k > 1 any of the k best has a chance. "
    "It goes on until no pending request has a feasible insertion left.",
    ["inputs", "configurations", "histories"],
    "Every instance, strategy, criterion, k, starting plan and every step of every construction; fleets of equal and of "
    "different vehicles.",
    "The tests look at the final number of served requests; a step that takes a worse insertion, looks at one vehicle only "
    "or stops early still ends with a plausible plan.",
    [
        H + "insertion/algorithm.py",
        H + "insertion/iterators/abc.py",
        H + "insertion/iterators/stateless.py",
        H + "insertion/iterators/ranking.py",
        M + "criterions.py",
    ],
    [
        ("steps of the construction", H + "insertion/algorithm.py: InsertionAlgorithm._optimize"),
        ("ranking kept between steps", H + "insertion/iterators/ranking.py: RankingInsertionIterator"),
        ("candidates recomputed at each step", H + "insertion/iterators/stateless.py"),
    ],
    ["each route handed out by an insertion iterator, with the state before it"],
    technique="runtime monitor on each construction step: chosen insertion ranked among all insertions enumerated from scratch",
    note="Each step of each observed construction is judged; the strategy's own offer is C10's subject.",
)

prop(
    "C13",
    "Cordeau & Laporte files are understood completely and exactly",
    "Loading a Cordeau & Laporte benchmark yields exactly the fleet, requests and places of the file: number of vehicles, route "
    "duration limit, capacity, ride limit, depot and its horizon, and for each request its places, service times, load "
    "and windows, with Euclidean distances and the dial-a-ride objective. "
    "Routes over the loaded problem are feasible exactly when the file's constraints hold.",
    ["inputs"],
    "Every well-formed file: sizes, windows on either end, limits, depot horizons, an optional end-depot row, number spellings, "
    "white space and line ends.",
    "The tests load a few files and check counts; a column read for another, or a pair of rows mismatched, needs files whose "
    "numbers all differ.",
    ["jinete/loaders/formatters/cordeau_laporte.py", "jinete/loaders/file.py", "jinete/loaders/abc.py"],
    [
        ("reading", "jinete/loaders/file.py: FileLoader._data"),
        ("interpretation", "jinete/loaders/formatters/cordeau_laporte.py: CordeauLaporteLoaderFormatter"),
    ],
    ["fleet, job and surface of the loader; feasibility of routes over them"],
    technique="runtime monitor: loaded objects compared number by number with the generated file, routes judged against the "
    "file's constraints",
    note="Generated files with pairwise different numbers; malformed files are out of scope.",
)

prop(
    "C14",
    "HashCode files are understood completely and exactly",
    "Loading a HashCode 2018 file yields exactly its fleet size, bonus, horizon and rides: start and finish crossings, earliest "
    "start and latest finish, all vehicles starting at crossing (0, 0) at step 0, distances in city blocks, one passenger at a "
    "time, rides numbered in file order, and the HashCode objective. "
    "A route over the loaded problem is feasible exactly when every ride on it starts no earlier than its earliest start and finishes "
    "by its latest finish, one ride at a time, within the horizon.",
    ["inputs"],
    "Every well-formed file: grids, fleets, bonus, horizon, any rides (none at all, tight, loose), number spellings and line ends.",
    "The tests load one fixed example and check counts; a swapped coordinate or a finish bounding the start needs files "
    "whose numbers all differ and routes that sit on the bound.",
    ["jinete/loaders/formatters/hashcode.py", "jinete/loaders/file.py", "jinete/loaders/abc.py"],
    [
        ("reading", "jinete/loaders/file.py: FileLoader._data"),
        ("interpretation", "jinete/loaders/formatters/hashcode.py: HashCodeLoaderFormatter"),
    ],
    ["fleet, job and surface of the loader; feasibility of routes over them"],
    technique="runtime monitor: loaded objects compared number by number with the generated file, routes judged against the "
    "contest's rules",
    note="Generated files with pairwise different numbers; malformed files are out of scope.",
)

prop(
    "C15",
    "HashCode submissions are valid and worth exactly what was reported",
    "For every HashCode problem and algorithm, the submission produced has one line per route, each saying how many and which "
    "rides its vehicle takes in visiting order, no ride twice, no more lines than vehicles. "
    "Under the contest's judge every listed ride is completed in time, and the judge's score equals the reported objective value.",
    ["inputs", "configurations"],
    "Every well-formed HashCode file, every algorithm configuration, submissions as text and as written files.",
    "The tests compare one tiny submission; a bonus counted but not earned, rides in the wrong order or a plan that the judge "
    "times differently needs crowded problems with waiting.",
    [
        "jinete/storers/formatters/hashcode.py",
        "jinete/loaders/formatters/hashcode.py",
        M + "objectives.py",
        M + "stops.py",
        H + "insertion/strategies/abc.py",
        H + "insertion/strategies/tail.py",
    ],
    [
        ("submission text", "jinete/storers/formatters/hashcode.py: HashCodeStorerFormatter"),
        ("score", M + "objectives.py: HashCodeObjective"),
        ("departures", H + "insertion/strategies/abc.py: _improve_ride_times"),
    ],
    ["the submission text or file and Result.optimization_value"],
    technique="runtime monitor: submissions replayed by an implementation of the contest's judge",
    note="End-to-end runs (load, solve, write, judge); the judge is an independent 40-line simulation of the contest rules.",
)

prop(
    "C16",
    "What is reported about a solution is what the solution is",
    "The columnar report (as text, printed or written over a previous file) states for each route its vehicle and, in visiting "
    "order, each request and stop with the right places, times, loads, limits and feasibility, and as totals the objective value, "
    "its direction, the coverage, feasibility and computation time of the result; routes without requests are left out only "
    "when asked for. "
    "The drawn graph has exactly the requested and visited places and the travels of the solution, each solution on its own.",
    ["inputs", "configurations"],
    "Every solution (feasible or not, empty, partial, without requests or routes), every reporting option and target.",
    "The tests check that some text comes out; a number taken from the wrong end, a file with leftovers or an arrow of "
    "another solution is not looked at.",
    [
        "jinete/storers/formatters/columnar.py",
        "jinete/storers/formatters/abc.py",
        "jinete/storers/file.py",
        "jinete/storers/prompt.py",
        "jinete/storers/plots/graph.py",
        M + "results.py",
    ],
    [
        ("report", "jinete/storers/formatters/columnar.py: ColumnarStorerFormatter"),
        ("totals", "jinete/storers/formatters/abc.py: StorerFormatter; " + M + "results.py: Result.coverage_rate"),
        ("graph", "jinete/storers/plots/graph.py: GraphPlotStorer"),
    ],
    ["report text, written files, standard output, drawn artists"],
    technique="runtime monitor: artifacts parsed back and compared with the observed plan and pure instance data",
    note="Reads the text by its labelled columns and numbers; the graph by matplotlib's arrow artists.",
)

prop(
    "C17",
    "The pipeline loads, optimises and stores once, as configured, or fails loudly",
    "Solving through the top-level interface loads the named file once, optimises exactly that problem once with exactly the "
    "requested algorithm and options (documented defaults otherwise) and stores exactly the returned result once on each "
    "requested target. "
    "A failure in any phase propagates to the caller, nothing is stored after it, and an output file that could not be "
    "produced keeps its previous content; a second run starts afresh, and the options given stay as they were. "
    "The computation time reported is the time that optimising took.",
    ["inputs", "configurations", "fault_sequences", "histories"],
    "Every file, every choice of loader, formatter, algorithm, storer and dispatcher with options, a fault in each phase, "
    "repeated runs.",
    "The tests check construction with mocks; options dropped between layers or a store after a failure show only by recording "
    "the real pipeline.",
    [
        "jinete/solvers.py",
        "jinete/dispatchers/static.py",
        "jinete/dispatchers/abc.py",
        "jinete/loaders/file.py",
        "jinete/algorithms/abc.py",
        "jinete/storers/abc.py",
        "jinete/storers/file.py",
        "jinete/storers/sets.py",
        ME + "grasp.py",
        ME + "iterative.py",
        ME + "sequential.py",
    ],
    [
        ("selection of parts", "jinete/solvers.py: Solver"),
        ("phases", "jinete/dispatchers/static.py: StaticDispatcher.run"),
        ("several targets", "jinete/storers/sets.py: StorerSet"),
        ("output file", "jinete/storers/file.py: FileStorer.store"),
    ],
    ["event log of recording loaders, algorithms, storers and dispatchers; returned result; files"],
    technique="runtime monitor: event log of the pipeline checked against load -> optimise -> store, with faults injected",
    note="The parts are recording subclasses of the real ones; faults are injected in each phase.",
)

prop(
    "C18",
    "The exact method returns a feasible plan of least distance serving everybody",
    "For every problem with equal vehicles in which all requests can be served, the exact method returns a planning that serves "
    "all of them, satisfies every constraint, and drives the least possible total distance. "
    "When no such planning exists it says so with the library's own error instead of returning a planning. "
    "This is so at any time of the clock, with or without time limits.",
    ["inputs"],
    "Every small problem with equal vehicles: windows, unequal service times, tight or missing ride, load and duration limits, "
    "coincident places, separate end depots, more vehicles than needed.",
    "The tests solve a few fixed files and check coverage; a missing constraint, a wrong node order or a suboptimal plan shows "
    "only against an independent optimum.",
    [
        "jinete/algorithms/exacts/milp.py",
        "jinete/algorithms/exacts/models/three_index.py",
        "jinete/algorithms/exacts/models/abc.py",
    ],
    [
        ("constraints", "jinete/algorithms/exacts/models/three_index.py: _uniqueness, _connectivity, _order, _time, _feasibility"),
        ("reading of the solution", "jinete/algorithms/exacts/models/three_index.py: _solution_to_routes"),
    ],
    ["Result of MilpAlgorithm.optimize() or its error"],
    technique="runtime monitor: solutions judged on pure data and their distance compared with exhaustive search",
    note="Optimum by enumerating every assignment, order and schedule, which limits the size to about four requests.",
)

prop(
    "C19",
    "Distances and travel times are the metric's, whatever was asked before",
    "The distance between two places is the one the surface's metric defines on their coordinates (Euclidean or Manhattan, any "
    "dimension), the travel time equals it, both are symmetric, zero between equal places, and the same at every query from "
    "any thread. "
    "Equal coordinates give the same place of a surface, different coordinates different places, and surfaces do not influence "
    "each other.",
    ["inputs", "histories", "schedules"],
    "Every set of coordinates (equal hashes, tiny differences, whole and decimal, 1 to 4 dimensions), every order and "
    "interleaving of queries over one or several surfaces.",
    "The tests ask a few distances once; answers are remembered, so a wrong key or a shared memory shows only for particular "
    "histories of questions.",
    [M + "surfaces.py", M + "positions.py", M + "constants.py", M + "services.py", M + "trips.py"],
    [
        ("metric", M + "constants.py: DistanceMetric"),
        ("remembered distances", M + "surfaces.py: GeometricSurface.distance"),
        ("identity of places", M + "surfaces.py: Surface.get_or_create_position; " + M + "positions.py"),
    ],
    ["distance_to / time_to of positions, services and surfaces; Trip.distance"],
    technique="runtime monitor: every answer in random query histories (also from several threads) compared with the metric",
    note="Recomputed with exact integer/float arithmetic from the coordinates; thread interleavings are sampled, not enumerated.",
)

prop(
    "C20",
    "Every well-formed problem gets an answer: no failure and no endless run",
    "For every well-formed problem (no requests, no feasible insertion, one place, many more vehicles than requests, routes of "
    "thousands of stops) and every valid configuration of the heuristic algorithms, solving ends without failure with a "
    "planning of that problem. "
    "The result can always be valued, reported and described.",
    ["inputs", "configurations"],
    "Every well-formed problem shape and every valid option value of construction, local search, iterated, sequential and GRASP.",
    "The tests use friendly instances; division by the number of requests, an empty best or a recursion limit needs the "
    "degenerate and the huge ones.",
    [
        H + "insertion",
        H + "local_search",
        ME + "grasp.py",
        ME + "iterative.py",
        ME + "sequential.py",
        M + "results.py",
        M + "plannings.py",
        M + "routes.py",
        M + "stops.py",
        M + "jobs.py",
    ],
    [
        ("end of the construction", H + "insertion/algorithm.py; iterators"),
        ("end of local search", H + "local_search/algorithm.py"),
        ("values of empty solutions", M + "results.py, plannings.py"),
    ],
    ["returned Result, exceptions, CPU time per case"],
    technique="runtime monitor: crash and CPU-budget watchdog plus answer checks over degenerate and huge problems",
    note="Non-termination is judged by a CPU-time budget far above what any case needs.",
)

prop(
    "C21",
    "A request may be served at exactly the times that a complete service uses",
    "The library says that a request may be picked up at a time exactly when that time lies in its pickup window and, given its "
    "service time, the direct travel, its delivery window and its ride limit, some delivery time goes with it; likewise for "
    "deliveries. "
    "A route consisting of one request is feasible exactly when it serves it at such times.",
    ["inputs"],
    "Every request: one or both windows given or open, service times, ride limits, loads; times at the ends of the windows and "
    "around them.",
    "The tests read back windows they set; the derived end of a window (from the other end, ride limit and service times) is "
    "only wrong when all of these differ.",
    [M + "trips.py", M + "services.py", M + "stops.py"],
    [("derived windows", M + "trips.py: Trip.origin_earliest, origin_latest, destination_earliest, destination_latest")],
    ["windows of Trip; feasibility of one-request routes"],
    technique="runtime monitor: derived windows compared with existence of a matching service time decided from the definition",
    note="Decided at sampled times including all window ends and their neighbourhoods.",
)

prop(
    "C22",
    "Randomised methods draw from the seed they are given, and from nothing else",
    "Two runs of a randomised method (construction with random choice or sampled positions, local search by reallocation, "
    "iterated, sequential, GRASP) with the same seed on the same problem make the same choices and give the same plannings, "
    "whatever else in the process uses random numbers, and leave the process-wide generator as they found it. "
    "Different seeds, and the successive episodes of one run, explore different choices.",
    ["inputs", "configurations", "histories"],
    "Every problem, randomised configuration and seed, every state of the process-wide generator and whatever ran before.",
    "The tests never compare two runs; a dropped or hard-wired seed, or a draw from the process-wide generator, looks right in "
    "any single run.",
    [
        H + "insertion/iterators",
        H + "insertion/strategies/sampling.py",
        H + "local_search",
        ME + "iterative.py",
        ME + "grasp.py",
        ME + "sequential.py",
        "jinete/utils/random.py",
    ],
    [
        ("random choice among the best", H + "insertion/iterators/ranking.py, stateless.py"),
        ("seeds of the episodes", ME + "iterative.py, grasp.py"),
        ("sampled positions", "jinete/utils/random.py: sample_index_pairs"),
    ],
    ["results of repeated runs (also of the nested ones); state of the process-wide generator"],
    technique="runtime monitor: recorded trees of repeated runs compared under equal and different seeds, with the process-wide "
    "generator disturbed and watched",
    note="The order in which sets are iterated is held fixed (deterministic identity hashes); diversity is judged over eight "
    "seeds on problems where choices are many.",
)

prop(
    "C23",
    "Requests, vehicles, places and plans report exactly what they were made of",
    "Every model object reports, by its attributes, its derived attributes, its mapping form and its text, exactly the values "
    "it was made of, with the documented defaults for what was not given; services and places are equal exactly when all they consist "
    "of is equal. "
    "Every listing of a planning, a route or a stop (vehicles, requests, predecessors, identifiers, partial verdicts) agrees with "
    "the visits it consists of, also after edits.",
    ["inputs", "histories"],
    "Every combination of given and omitted arguments (also values with coinciding hashes), every plan and edit history.",
    "The tests read back a few values; an attribute taken from the other end of a request, a default shared between objects or a "
    "listing that forgets some shape of plan shows only for values and plans that tell them apart.",
    [
        M + "services.py",
        M + "trips.py",
        M + "vehicles.py",
        M + "positions.py",
        M + "surfaces.py",
        M + "jobs.py",
        M + "plannings.py",
        M + "planned_trips.py",
        M + "stops.py",
        M + "routes.py",
        M + "results.py",
        "jinete/exceptions.py",
    ],
    [
        ("what objects are made of", M + "services.py, trips.py, vehicles.py, jobs.py: constructors and properties"),
        ("equality", M + "services.py: Service.__eq__; " + M + "positions.py: GeometricPosition.__eq__"),
        ("listings", M + "plannings.py, routes.py, stops.py"),
    ],
    ["attributes, dict(object), repr(object), comparisons of model objects"],
    technique="runtime monitor: every attribute and listing compared with the values and visits the objects were made of",
    note="Values are drawn so that all ends and defaults differ pairwise.",
)

prop(
    "C24",
    "Runs in one process do not affect each other",
    "What a load, a solve, an edit or a stored solution gives depends on its own problem and configuration only: it is the same in a "
    "fresh process and in one that has solved other problems before, and the same alone and in a thread next to other runs, whether "
    "these work on problems of their own, on the same problem or on the same starting point.",
    ["inputs", "configurations", "schedules", "histories"],
    "Every set of runs on any problems, in every order and every interleaving of their threads.",
    "The tests run one thing at a time and never ask twice; state kept on a class, a module, a default argument or a shared file shows only "
    "when another run with other data comes between two particular steps.",
    [
        M + "surfaces.py",
        M + "positions.py",
        M + "stops.py",
        M + "routes.py",
        M + "jobs.py",
        M + "constants.py",
        "jinete/algorithms",
        "jinete/solvers.py",
        "jinete/loaders",
        "jinete/storers",
        "jinete/dispatchers",
    ],
    [
        ("remembered values", M + "stops.py, planned_trips.py, positions.py, jobs.py: values kept on the objects of one problem"),
        ("configuration", "jinete/solvers.py: Solver; jinete/algorithms: options kept per algorithm"),
        ("files", "jinete/loaders/file.py, jinete/storers/file.py: one source and one target per run"),
    ],
    ["results, reports and files of runs: alone, in a fresh process, in threads under a seeded scheduler"],
    technique="runtime monitor: runs interleaved in threads (seeded switches at library calls and lines) and replayed in fresh processes, compared with the run alone",
    note="Up to four threads; switches at entry points of the library or at any of its lines, or left to the interpreter with a tiny interval.",
)

prop(
    "C25",
    "A local search ends where no further move of its kind improves the plan",
    "The plan a local search ends with cannot be bettered by one more move of its kind: under 2-opt by reversing three or more successive "
    "stops of a route, under one-shift by exchanging two successive stops, under reallocation (where the distance counts) by handing one "
    "request to any two positions of another route already in the plan, as long as that route has few enough positions for all to be looked at. "
    "Counted are the moves that keep every constraint with the requested starting times kept (a departure before a changed first leg is "
    "decided anew). This holds from every starting plan, alone, in a sequence and inside GRASP.",
    ["inputs", "configurations", "histories"],
    "Every problem, every feasible starting plan, every strategy and every chain of improvements that leads to the end.",
    "Tests compare the value of one plan before and after; that nothing was overlooked is a statement about all moves from the plan the "
    "search ended with, which differ with every problem and every chain of moves before it.",
    [H + "local_search/algorithm.py", H + "local_search/strategies", M + "routes.py", M + "objectives.py"],
    [
        ("moves", H + "local_search/strategies/routes/two_opt.py, one_shift.py, plannings/reallocation.py: _improve"),
        ("end", H + "local_search/algorithm.py: LocalSearchAlgorithm._optimize"),
    ],
    ["the planning each LocalSearchAlgorithm of a run returns"],
    technique="runtime monitor: every plan a local search returns is taken apart, all moves of its kind made on copies and judged by an independent model",
    note="Up to seven requests on three vehicles; improvements above 1e-5 (relative); reallocation under the dial-a-ride objective.",
)

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["spec"]) + "\n")
    checks = []
    for p in P:
        pid = p["spec"]["id"]
        assert len(p["spec"]["title"]) <= 80, (pid, len(p["spec"]["title"]))
        importlib.import_module(f"vp.checks.{pid.lower()}")
        checks.append(
            dict(
                property=pid,
                quick_cmd=f"/opt/venv/bin/python -m vp.run {pid} quick",
                thorough_cmd=f"/opt/venv/bin/python -m vp.run {pid} thorough",
                evidence_file=f"evidence/{pid}.json",
                technique=p["technique"],
                level="exploration",
                level_note=p["note"],
            )
        )
    manifest = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -m vp.selftest",
        checks=checks,
        not_applicable=NOT_APPLICABLE,
        notes="Pure Python: nothing to compile. Each check imports jinete from /repo's working tree in fresh subprocesses (eight "
        "workers, half of them under python -O). No hooks in /repo; its commits are all fixes of genuine defects, listed in "
        "known_findings.json.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
