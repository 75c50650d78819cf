"""
The property catalogue: writes properties.jsonl and MANIFEST.json for every
property whose check exists. Usage: python3 tools/catalog.py
"""

import json
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique,
         note, observe=()):
    PROPS.append(dict(
        pid=pid, technique=technique, note=note,
        line=dict(
            id=pid, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=list(observe), hook_needed=None))))


CPP = "pyvrp/cpp/"
SRCH = "pyvrp/cpp/search/"

prop("C01", "Route statistics equal executing the route step by step",
     "For every valid instance, vehicle type and valid sequence of visits, the "
     "distance, duration, time warp, overtime, wait, slack, load, excess, cost, prize "
     "and feasibility figures that a route reports equal those of driving that route "
     "one visit at a time under the documented rules. This includes multiple trips with "
     "reloads, release times, time windows, shift durations, overtime, shipments, "
     "several load dimensions and routing profiles.",
     ["inputs"], "all instances, vehicle types and visit sequences",
     "The tests sample a few dozen hand-computed routes; interactions of features "
     "(release x reload x shift x overtime x shipments) are combinatorial.",
     [CPP + "Route.cpp", CPP + "DurationSegment.h", CPP + "LoadSegment.h"],
     [("Route constructor and trips", CPP + "Route.cpp"),
      ("segment concatenation", CPP + "DurationSegment.h"),
      ("load segments", CPP + "LoadSegment.h")],
     "runtime monitor: differential execution oracle on random routes",
     "Exploration: the real class runs on random feature-rich instances, and every "
     "statistic is compared with a step-by-step executor that shares no code with it.",
     ["pyvrp.Route accessors"])

prop("C02", "A route's schedule is executable and consistent with its statistics",
     "For every route, the schedule it reports visits the route's activities in order "
     "with travel, waiting, service and time warp that add up, starts and ends when the "
     "route says it does, and sums to the route's duration, wait and time warp. No other "
     "start time within the vehicle's limits gives a shorter duration at that time warp.",
     ["inputs"], "all instances and routes",
     "Tests check single schedules; the timing identities must hold for every sequence.",
     [CPP + "Route.cpp", CPP + "Route.h"],
     [("schedule construction", CPP + "Route.cpp"),
      ("start time and slack", CPP + "DurationSegment.h")],
     "runtime monitor: conservation checks on schedules plus start-time search oracle",
     "Exploration over random routes; timing conservation laws are checked per activity.",
     ["pyvrp.Route.schedule()"])

prop("C03", "Solution totals, feasibility and objective follow from its routes",
     "Every total, flag and cost a solution or cost evaluator reports equals what its "
     "routes and unvisited clients and shipments imply: sums over routes, uncollected "
     "prizes, completeness, group feasibility, excesses, and the penalised objective. "
     "The cost equals the penalised cost when feasible, and the largest integer when not.",
     ["inputs", "configurations"], "all instances, solutions and penalty values",
     "Tests use small fixed instances and one or two penalty settings.",
     [CPP + "Solution.cpp", CPP + "CostEvaluator.cpp", CPP + "CostEvaluator.h"],
     [("solution evaluation", CPP + "Solution.cpp"),
      ("penalised cost", CPP + "CostEvaluator.h")],
     "runtime monitor: differential oracle for aggregates and objective",
     "Exploration over random solutions with random penalties.",
     ["pyvrp.Solution", "pyvrp.CostEvaluator"])

prop("C04", "Only structurally valid routes and solutions can be constructed",
     "A route or solution is accepted exactly when it is structurally valid: known "
     "visits and vehicle types, each client and shipment at most once, pickups before "
     "deliveries within the same trip, no more trips or vehicles than allowed. Anything "
     "else raises an error and never yields an object or crashes.",
     ["inputs"], "all visit sequences, valid and corrupted",
     "Tests list a handful of invalid constructions.",
     [CPP + "Route.cpp", CPP + "Solution.cpp", CPP + "Activity.cpp"],
     [("route validation", CPP + "Route.cpp"),
      ("solution validation", CPP + "Solution.cpp")],
     "runtime monitor: acceptance oracle on valid and mutated sequences",
     "Exploration: accept/reject decisions compared with an independent validity "
     "predicate on random valid and corrupted inputs.",
     ["pyvrp.Route, pyvrp.Solution constructors"])

prop("C05", "Local search returns valid, never worse, locally optimal solutions",
     "From any starting solution, the local search returns a structurally valid and "
     "complete-as-possible solution whose penalised cost is never worse than the "
     "solution it started improving, for any neighbourhood, operators, penalties and "
     "random seed. An exhaustive search of an instance without optional visits ends "
     "where no single move of the configured operators between neighbours improves the "
     "solution any further.",
     ["inputs", "configurations", "histories"],
     "all starting solutions, operator subsets, penalties, seeds and call histories",
     "Tests run a few seeds on a few benchmark instances.",
     [SRCH + "LocalSearch.cpp", SRCH + "Solution.cpp", "pyvrp/search/LocalSearch.py"],
     [("improvement loop", SRCH + "LocalSearch.cpp"),
      ("insertion of missing visits", SRCH + "Solution.cpp"),
      ("export to solutions", SRCH + "Solution.cpp")],
     "runtime monitor: before/after cost and validity oracle around every search call",
     "Exploration over random instances, starts and search configurations, judged by "
     "independent cost and validity oracles and a brute-force move enumeration.",
     ["pyvrp.search.LocalSearch.__call__"])

prop("C06", "Operators report the exact cost change of the move they apply",
     "Whenever a local search operator reports an improving move, applying that move "
     "changes the penalised cost by exactly the reported amount and leaves valid routes "
     "with the same visits apart from those the operator documents to add or remove. "
     "An operator finds an improving move whenever one exists in its documented "
     "neighbourhood.",
     ["inputs", "configurations"], "all solutions, node pairs, operators and penalties",
     "Tests exercise single moves on fixed instances; early exits in delta evaluation "
     "only show for particular cost/feature combinations.",
     [SRCH + "Swap.h", SRCH + "Relocate.h", SRCH + "SwapTails.cpp",
      SRCH + "RelocateWithDepot.cpp", SRCH + "ReplaceGroup.cpp",
      CPP + "CostEvaluator.h"],
     [("delta cost evaluation", CPP + "CostEvaluator.h"),
      ("operators' evaluate and apply", SRCH)],
     "runtime monitor: evaluate/apply hooked, re-costed by an independent oracle",
     "Exploration: every applied move is re-evaluated from scratch, and completeness is "
     "decided by brute-force enumeration of the documented moves.",
     ["pyvrp.search operators' evaluate() and apply()"])

prop("C07", "Search routes report exact statistics after any sequence of edits",
     "After any sequence of insertions, removals, swaps, clears, loads and unloads, a "
     "search route or solution reports exactly the visits, trips and statistics that "
     "the same sequence of visits has from scratch. Rejected edits leave it unchanged.",
     ["histories"], "all edit histories of search routes and solutions",
     "Tests apply a few edits each; stale caches only show after particular histories.",
     [SRCH + "Route.cpp", SRCH + "Route.h", SRCH + "Solution.cpp"],
     [("update of cached segments", SRCH + "Route.cpp"),
      ("node bookkeeping", SRCH + "Route.cpp")],
     "runtime monitor: stateful model-based checker over edit histories",
     "Exploration: random edit histories shadowed by a list model and an executor.",
     ["pyvrp.search.Route, pyvrp.search.Solution"])

prop("C08", "The solver's result is the best feasible solution it ever held",
     "Solving any valid instance returns a solution of that instance, and the reported "
     "best never gets worse: it changes only to cheaper feasible solutions, its cost is "
     "the objective of the returned solution, and every solution reported to callbacks "
     "or statistics agrees with the solutions the search actually produced. Candidates "
     "are accepted by late acceptance hill climbing over the configured history, and "
     "the search restarts from the best after the configured number of iterations "
     "without improvement.",
     ["histories", "configurations", "inputs"],
     "all instances, seeds, parameters, search behaviours and stopping points",
     "Tests look at end results of a few runs; acceptance, restart and best-tracking "
     "are decided by long histories.",
     ["pyvrp/IteratedLocalSearch.py", "pyvrp/solve.py", "pyvrp/Result.py"],
     [("main loop with late acceptance", "pyvrp/IteratedLocalSearch.py"),
      ("solve entry point", "pyvrp/solve.py")],
     "runtime monitor: online trace checker on the search/callback/statistics events",
     "Exploration: real and scripted searches are hooked, and an online automaton "
     "replays the documented algorithm on the event trace.",
     ["search calls, callbacks, stopping criterion calls, pyvrp.Result"])

prop("C09", "Runs are reproducible by seed and independent of each other",
     "The same instance, seed, parameters and iteration budget always give the same "
     "sequence of solutions, whatever ran before in the process, in another thread or "
     "process, and regardless of display or statistics settings. Different entry points "
     "to the same solve give the same result.",
     ["histories", "schedules", "configurations"],
     "all instances, seeds, preceding activity and interleavings",
     "Tests compare two consecutive runs of one seed.",
     ["pyvrp/solve.py", CPP + "RandomNumberGenerator.cpp", SRCH + "LocalSearch.cpp"],
     [("single seeded generator", "pyvrp/solve.py"),
      ("no global state", SRCH + "LocalSearch.cpp")],
     "runtime monitor: trace hash comparison of repeated, interleaved and isolated runs",
     "Exploration: per-iteration solution traces of repeated runs in disturbed "
     "environments must be identical.",
     ["search calls, pyvrp.Result"])

prop("C10", "Copies, pickles, equality and hashes of value objects agree",
     "Pickling and unpickling, copying or exporting-and-importing any value object gives "
     "an object equal to it in every observable attribute, equality holds exactly when "
     "the observable content is equal, is symmetric and consistent with hashing.",
     ["inputs"], "all value objects and pairs of them",
     "Tests pickle one instance per class, often with default fields.",
     [CPP + "bindings.cpp", CPP + "ProblemData.cpp", CPP + "Route.cpp",
      CPP + "Solution.cpp"],
     [("pickle support", CPP + "bindings.cpp"),
      ("equality operators", CPP)],
     "runtime monitor: field-by-field round-trip and equality/hash law checker",
     "Exploration over random objects and single-field perturbations of them.",
     ["pickle, copy, ==, hash of public classes"])

prop("C11", "Problem data is validated, immutable and replaced field by field",
     "Building problem data or its parts succeeds exactly when the documented "
     "constraints hold and otherwise raises an error, and what is built reports exactly "
     "what was given. Nothing a caller can do afterwards changes it, and replacing "
     "fields gives data that differs in exactly those fields.",
     ["inputs", "histories"], "all field values, combinations and later uses",
     "Tests list some invalid values per class.",
     [CPP + "ProblemData.cpp", CPP + "VehicleType.cpp", CPP + "Client.cpp",
      CPP + "Shipment.cpp", CPP + "Depot.cpp", CPP + "ClientGroup.cpp",
      CPP + "bindings.cpp"],
     [("constructor validation", CPP + "ProblemData.cpp"),
      ("read-only matrix views", CPP + "bindings.cpp"),
      ("replace", CPP + "VehicleType.cpp")],
     "runtime monitor: acceptance oracle, echo check and aliasing probes",
     "Exploration over valid and corrupted fields with boundary values.",
     ["constructors, replace(), accessors"])

prop("C12", "Segment algebra equals step-by-step evaluation under any bracketing",
     "Combining duration or load segments gives the duration, time warp, load and "
     "feasibility that executing the visits one by one gives, for any grouping of the "
     "concatenations and any number of trips. Extreme and unbounded values saturate "
     "and never wrap around.",
     ["inputs"], "all segment sequences, bracketings and extreme values",
     "Tests merge a few fixed segments.",
     [CPP + "DurationSegment.h", CPP + "DurationSegment.cpp", CPP + "LoadSegment.h"],
     [("merge and finalise", CPP + "DurationSegment.h"),
      ("load merge", CPP + "LoadSegment.h")],
     "runtime monitor: algebraic differential oracle on random segment trees",
     "Exploration over random leaf segments merged in random trees.",
     ["DurationSegment.merge, LoadSegment.merge"])

prop("C13", "Penalties stay bounded and follow observed feasibility",
     "For every history of registered solutions the penalties stay within the "
     "configured bounds, never move except after the configured number of "
     "registrations, and then move up when too few and down when too many solutions "
     "were feasible, by the configured factors. The evaluators handed out reflect the "
     "penalties at that time and never change afterwards.",
     ["histories", "configurations"], "all registration histories and parameters",
     "Tests register short hand-made sequences.",
     ["pyvrp/PenaltyManager.py"],
     [("penalty update", "pyvrp/PenaltyManager.py")],
     "runtime monitor: reference automaton run alongside registration histories",
     "Exploration over random parameter settings and registration histories.",
     ["PenaltyManager.register, penalties, cost_evaluator"])

prop("C14", "Instances and solutions read from file mean what the file says",
     "Reading an instance file yields exactly the locations, demands, time windows, "
     "vehicles, groups and travel costs that the file's sections specify under the "
     "chosen rounding, for every combination of supported sections. Reading a solution "
     "file gives the routes as written, and unsupported or inconsistent sections raise "
     "errors.",
     ["inputs", "configurations"], "all section combinations, values and roundings",
     "Tests read a fixed set of files.",
     ["pyvrp/read.py"],
     [("instance parser", "pyvrp/read.py"), ("rounding", "pyvrp/read.py")],
     "runtime monitor: generated files re-read and compared with the generating model",
     "Exploration over randomly generated instance and solution files.",
     ["pyvrp.read, pyvrp.read_solution"])

prop("C15", "A model's data contains exactly what was added to it",
     "For every sequence of additions to a model, the problem data it produces has "
     "exactly those locations, depots, clients, shipments, groups and vehicle types, "
     "with the last travel cost given per edge and profile. Invalid references raise "
     "errors, and converting data to a model and back gives equal data.",
     ["histories", "inputs"], "all sequences of model-building calls",
     "Tests build a few models.",
     ["pyvrp/Model.py"],
     [("data construction", "pyvrp/Model.py"),
      ("reference resolution", "pyvrp/Model.py")],
     "runtime monitor: model-based checker over call sequences",
     "Exploration over random call sequences shadowed by a plain Python model.",
     ["pyvrp.Model"])

prop("C16", "Stopping criteria stop exactly when their condition is met",
     "Every stopping criterion returns true exactly when its documented condition holds "
     "for the calls made so far, for any sequence of best costs and elapsed times, and "
     "combinations stop when any part does. A solve never runs more iterations than its "
     "iteration limit allows.",
     ["histories", "schedules"], "all sequences of costs and clock readings",
     "Tests feed short constant sequences and real clocks.",
     ["pyvrp/stop"],
     [("criteria", "pyvrp/stop")],
     "runtime monitor: reference automata on cost histories under a virtual clock",
     "Exploration over random cost histories and injected clock readings.",
     ["stop criteria __call__"])

prop("C17", "Native code never performs undefined behaviour",
     "No use of the public interface, with valid or rejected arguments of ordinary "
     "magnitude and objects of one instance, makes the native code read or write out of "
     "bounds, use freed memory, overflow, or perform other undefined behaviour. "
     "Objects handed out stay usable after the objects they came from are dropped.",
     ["inputs", "histories"], "all call sequences, arguments and object lifetimes",
     "Tests run without sanitizers and keep owners alive.",
     [CPP + "bindings.cpp", SRCH + "bindings.cpp", CPP, SRCH],
     [("bounds checks and keep-alive policies", CPP + "bindings.cpp")],
     "AddressSanitizer and UndefinedBehaviorSanitizer over hostile workloads",
     "Exploration: the extensions are rebuilt with sanitizers and driven by the other "
     "checks' workloads, API fuzzing and lifetime probes.",
     ["whole native API"])

prop("C18", "Neighbourhoods contain exactly the best-ranked compatible neighbours",
     "For every instance and parameter setting the computed neighbourhood lists, per "
     "client and shipment pickup, the requested number of other visits that rank best "
     "by the documented proximity, without itself or duplicates; members of its own "
     "mutually exclusive group rank last. The search space keeps exactly the "
     "neighbours it is given, and tracks which visits are promising.",
     ["inputs", "configurations"], "all instances and neighbourhood parameters",
     "Tests check three instances.",
     [SRCH + "neighbourhood.cpp", "pyvrp/search/neighbourhood.py",
      SRCH + "SearchSpace.cpp"],
     [("proximity and ranking", SRCH + "neighbourhood.cpp"),
      ("search space storage", SRCH + "SearchSpace.cpp")],
     "runtime monitor: independent recomputation of proximity and ranks",
     "Exploration over random instances and parameters.",
     ["compute_neighbours, SearchSpace"])

prop("C19", "Utility structures behave as their mathematical models",
     "Bit sets, piecewise-linear functions, ring buffers and the random number "
     "generator behave for every sequence of operations as sets, functions, bounded "
     "queues and a reproducible stream of in-range numbers whose state can be saved "
     "and restored.",
     ["histories", "inputs"], "all operation sequences and argument values",
     "Tests use small fixed sizes, rarely crossing word or segment boundaries.",
     [CPP + "DynamicBitset.cpp", CPP + "PiecewiseLinearFunction.h",
      CPP + "RandomNumberGenerator.cpp", "pyvrp/RingBuffer.py"],
     [("bit set", CPP + "DynamicBitset.cpp"),
      ("piecewise linear function", CPP + "PiecewiseLinearFunction.h"),
      ("generator", CPP + "RandomNumberGenerator.cpp")],
     "runtime monitor: model-based checker over operation sequences",
     "Exploration against Python models, including a reference generator.",
     ["DynamicBitset, PiecewiseLinearFunction, RandomNumberGenerator, RingBuffer"])

prop("C20", "Fleet minimisation never returns an insufficient fleet",
     "Minimising the fleet returns the original vehicle type with at least one and at "
     "most the original number of vehicles, and whenever it reduces the number, a "
     "feasible solution with that many vehicles exists. Instances it does not support "
     "raise an error.",
     ["inputs"], "all instances, seeds and stopping points",
     "Tests check two benchmark instances.",
     ["pyvrp/minimise_fleet.py"],
     [("fleet reduction loop", "pyvrp/minimise_fleet.py")],
     "runtime monitor: brute-force fleet oracle on small instances",
     "Exploration over small random instances for which the true minimum is enumerated.",
     ["minimise_fleet"])

prop("C21", "Perturbation changes a bounded number of visits and keeps solutions valid",
     "Perturbing a solution performs between the configured minimum and maximum number "
     "of removals and insertions, never duplicates or loses track of a visit, leaves "
     "all other visits' order intact, and marks what it touched for the search.",
     ["inputs", "configurations", "histories"], "all solutions, parameters and seeds",
     "Tests check counts on one instance.",
     [SRCH + "PerturbationManager.cpp", SRCH + "PerturbationManager.h"],
     [("perturb", SRCH + "PerturbationManager.cpp")],
     "runtime monitor: before/after structural diff of perturbed solutions",
     "Exploration over random solutions, parameters and seeds.",
     ["PerturbationManager.perturb"])

prop("C22", "Statistics and results round-trip and summarise what was collected",
     "Statistics collected for any history of iterations survive writing to and reading "
     "from file exactly, and results report cost, feasibility, gap and summaries that "
     "agree with their solution. Progress output never alters a run and prints figures "
     "that match.",
     ["histories", "inputs"], "all collected histories and results",
     "Tests round-trip one run.",
     ["pyvrp/Statistics.py", "pyvrp/Result.py", "pyvrp/ProgressPrinter.py"],
     [("collection and CSV", "pyvrp/Statistics.py"), ("summary", "pyvrp/Result.py")],
     "runtime monitor: recorded event log compared with collected statistics and files",
     "Exploration over random histories, including non-finite and extreme values.",
     ["Statistics, Result, ProgressPrinter"])

prop("C23", "Random and inserted solutions are valid and complete",
     "Randomly generated solutions are structurally valid for every instance and seed, "
     "visit all that must be visited at most once, and use only allowed vehicles. "
     "Inserting an unvisited client or shipment into a search solution places exactly "
     "that visit, at a position whose cost is the best of those considered.",
     ["inputs", "histories"], "all instances, seeds and insertion histories",
     "Tests generate a few solutions.",
     [CPP + "Solution.cpp", SRCH + "Solution.cpp"],
     [("random construction", CPP + "Solution.cpp"),
      ("insertion", SRCH + "Solution.cpp")],
     "runtime monitor: validity and best-insertion oracle",
     "Exploration over random instances and insertion histories.",
     ["Solution.make_random, search.Solution.insert"])

prop("C24", "Concurrent use of independent or shared read-only objects is safe",
     "Threads that each run their own search on shared problem data get the results "
     "they would get alone, without data races or crashes. Objects shared read-only "
     "between threads never change.",
     ["schedules"], "all interleavings of threads on shared data",
     "Tests are single threaded.",
     [CPP, SRCH],
     [("no hidden mutable state", CPP)],
     "ThreadSanitizer on a threaded native driver plus trace comparison",
     "Exploration: a native multi-threaded driver is rebuilt under ThreadSanitizer.",
     ["native API from several threads"])

prop("C25", "The command line solves, reports and writes what the library gives",
     "For every set of instance files and options, the command line program solves each "
     "instance as the library does under the same seed, parameters and stopping limits, "
     "and its table, averages, solution files and statistics files show exactly those "
     "results. A configuration file sets exactly the parameters it names. Unusable options "
     "and configurations end it with an error.",
     ["inputs", "configurations"], "all instance files and combinations of options",
     "Tests run the program on a few instances and look for output.",
     ["pyvrp/cli.py", "pyvrp/solve.py"],
     [("solve and write", "pyvrp/cli.py"), ("table", "pyvrp/cli.py"),
      ("SolveParams.from_file", "pyvrp/solve.py")],
     "runtime monitor: output and files of the program compared with library runs",
     "Exploration over random files and options, with a virtual clock.",
     ["pyvrp command line"])

prop("C26", "Plots show exactly the figures of what they are given",
     "Plotting any instance, solution, route or result draws exactly its figures: all "
     "locations by role, every trip's visits in visiting order with the edges from and to "
     "its depots, unplanned visits, sorted demands and time windows, the costs and runtimes "
     "of each iteration, and a route's times, driving, service, slack and load in the "
     "vehicle over the distance travelled. It draws on the given axes only.",
     ["inputs"], "all instances, solutions, routes, results and plotting options",
     "Tests compare images of a few instances, with a tolerance.",
     ["pyvrp/plotting/plot_route_schedule.py", "pyvrp/plotting/plot_solution.py",
      "pyvrp/plotting/plot_coordinates.py", "pyvrp/plotting/plot_objectives.py",
      "pyvrp/plotting/plot_demands.py", "pyvrp/plotting/plot_time_windows.py",
      "pyvrp/plotting/plot_runtimes.py"],
     [("schedule traces", "pyvrp/plotting/plot_route_schedule.py"),
      ("routes and trips", "pyvrp/plotting/plot_solution.py")],
     "runtime monitor: artists drawn on the axes against an independent trace of the object",
     "Exploration over random instances, solutions, routes and histories.",
     ["matplotlib artists of pyvrp.plotting functions"])


def main():
    lines, checks = [], []
    for p in PROPS:
        pid = p["pid"]
        if not (VERIF / "checks" / f"{pid.lower()}.py").exists():
            print("no check yet:", pid)
            continue
        lines.append(json.dumps(p["line"], ensure_ascii=False))
        checks.append(dict(
            property=pid,
            quick_cmd=f"./run.py {pid} --tier quick",
            thorough_cmd=f"./run.py {pid} --tier thorough",
            evidence_file=f"evidence/{pid}.json",
            technique=p["technique"], level="exploration",
            level_note=p["note"]))
    (VERIF / "properties.jsonl").write_text("\n".join(lines) + "\n")
    manifest = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python vlib/build.py std asan tsan",
        checks=checks,
        hooks=dict(
            guard="PYVRP_VERIF (unused: no hook was added to /repo)",
            enable="Nothing to enable: monitors attach from outside, by "
                   "rebuilding the extensions (with sanitizers and assertions) "
                   "and wrapping Python objects.",
            source_commits=[]),
        not_applicable=[],
        notes="Every check rebuilds the native extensions from /repo's working "
              "tree into /verif/.build. See DESIGN.md.")
    (VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")


main()
