"""The solver keeps, reports and returns the best feasible solution."""

import math

from vlib import gen, oracle
from vlib.harness import Part, Skip
from vlib.lazy import P, S

PROPERTY = "C08"
VARIANT = "std"
RULE = ("an evaluation is one condition on one event of a monitored run "
        "(search call, registration, stopping call, callback, collected "
        "datum, final result); distinct nontrivial counts distinct "
        "(accept/reject, late entry present, improving, exhaustive outcome, "
        "restart) event patterns per window of three iterations")
ASSUME = ["scripted search methods do not return a feasible solution that is "
          "worse than the one they got when asked for a complete search",
          "the no-improvement limit is at least one iteration"]

INT_MAX = (1 << 63) - 1


def as_routes(sol):
    return [([str(a) for a in r][1:-1], r.vehicle_type())
            for r in sol.routes()]


def pens_of(pm):
    loads, tw, dist = pm.penalties()
    return list(loads), float(tw), float(dist)


class Monitor:
    """
    Online checker: replays the documented algorithm (late acceptance hill
    climbing with restarts) on the events it sees, and compares.
    """

    def __init__(self, obs, rng, init, ils_params, collect, check_search=True):
        self.obs = obs
        self.rng = rng
        self.init = init
        self.curr = self.best = init
        self.hist = [None] * ils_params["history_length"]
        self.pos = 0
        self.no_impr = 0
        self.par = ils_params
        self.collect = collect
        self.check_search = check_search
        self.iters = 0
        self.started = self.ended = False
        self.stops = []
        self.calls = []  # search calls of this iteration
        self.registered = []
        self.restarted = 0
        self.bests = []  # on_best calls of this iteration
        self.data = []
        self.pattern = []
        self.need_restart = False
        self.pm = None
        self.evals = []

    def check(self, *args):
        self.obs.check(*args)

    # Events ------------------------------------------------------------

    def on_start(self, ils):
        self.check(not self.started and not self.stops and not self.calls,
                   "search start was reported late or twice")
        self.started = True
        self.check(ils.initial_solution == self.init,
                   "initial solution changed")

    def on_stop(self, best_cost):
        self.check(self.started, "stopping criterion before the start")
        want = (self._cost(self.best))
        self.obs.equal(best_cost, want,
                       "cost given to the stopping criterion",
                       lambda: f"iteration {self.iters}")
        self.check(not self.calls and not self.restarted,
                   "stopping criterion called within an iteration")
        self.stops.append(best_cost)

    def _cost(self, sol):
        # Objective: independent of the penalties when feasible.
        if not sol.is_feasible():
            return INT_MAX
        return self.obj(sol)

    def obj(self, sol):
        return (sol.distance_cost() + sol.duration_cost()
                + sol.fixed_vehicle_cost() + sol.uncollected_prizes())

    def on_restart(self, best):
        self.restarted += 1
        self.check(best == self.best, "solution given at a restart")
        self.check(not self.calls, "restart within an iteration")

    def on_search(self, sol, ce, exhaustive, out):
        if self.check_search:
            if not self.calls:
                due = self.no_impr == self.par["num_iters_no_improvement"]
                self.obs.equal(self.restarted, int(due),
                               "number of restarts before this iteration",
                               lambda: f"iteration {self.iters + 1}")
                if due:
                    self.obs.count("restarts")
                    self.curr = self.best
                    self.hist = [None] * len(self.hist)
                    self.pos = 0
                    self.no_impr = 0
                self.check(not exhaustive,
                           "an iteration did not start with a limited search")
                self.check(sol == self.curr,
                           "search did not start from the current solution",
                           lambda: f"iteration {self.iters + 1}")
            else:
                self.check(len(self.calls) == 1 and exhaustive
                           and self.par["exhaustive_on_best"]
                           and sol == self.calls[0][0]
                           and self._cost(sol) < self._cost(self.best),
                           "unexpected second search in an iteration")
        self.calls.append((out, ce))

    def on_register(self, sol):
        self.registered.append(sol)

    def on_best(self, best):
        self.bests.append(best)

    def on_iteration(self, curr, cand, best, ce):
        obs = self.obs
        self.iters += 1
        obs.ev()
        n = self.iters
        why = lambda: f"iteration {n}"  # noqa: E731
        obs.equal(len(self.stops), n, "stopping criterion calls", why)
        first = self.calls[0][0]
        obs.equal(len(self.registered), 1,
                  "solutions registered in an iteration", why)
        obs.check(self.registered[0] == first,
                  "the registered solution is not the candidate", why)
        self.no_impr += 1
        improving = self._cost(first) < self._cost(self.best)
        want_cand = first
        exh = "-"
        if improving:
            self.best = first
            self.no_impr = 0
            if self.par["exhaustive_on_best"]:
                obs.equal(len(self.calls), 2,
                          "search calls for a new best solution", why)
                want_cand = self.calls[1][0]
                exh = "infeasible"
                if want_cand.is_feasible():
                    exh = "better" if want_cand != first else "same"
                    self.best = want_cand
            else:
                obs.equal(len(self.calls), 1, "search calls", why)
            obs.equal(len(self.bests), 1, "reports of a new best", why)
            obs.check(self.bests[0] == self.best, "new best as reported", why)
        else:
            obs.equal(len(self.calls), 1, "search calls", why)
            obs.equal(len(self.bests), 0,
                      "reports of a new best without one", why)
        obs.check(best == self.best, "best solution of an iteration", why)
        obs.check(cand == want_cand, "candidate of an iteration", why)

        # Late acceptance.
        pc = ce.penalised_cost
        late = self.hist[self.pos % len(self.hist)]
        late_cost = pc(late if late is not None else self.init)
        c_cand, c_curr = pc(want_cand), pc(self.curr)
        accept = c_cand < late_cost or c_cand < c_curr
        if accept:
            self.curr = want_cand
            c_curr = c_cand
        obs.count("ties", late is not None and late != self.curr
                  and c_curr == late_cost)
        obs.check(curr == self.curr,
                  "late acceptance decision",
                  lambda: f"iteration {n}: candidate {c_cand}, current "
                          f"{c_curr}, late {late_cost} ({late is not None}), "
                          f"expected {'accept' if accept else 'reject'}")
        if c_curr < late_cost or late is None:
            self.hist[self.pos % len(self.hist)] = self.curr
        self.pos += 1
        # The evaluator of this iteration is the one the search was given.
        obs.equal([pc(s) for s in (first, curr, best)],
                  [self.calls[0][1].penalised_cost(s)
                   for s in (first, curr, best)],
                  "cost evaluator reported for an iteration", why)
        self.data.append((pc(curr), curr.is_feasible(), pc(cand),
                          cand.is_feasible(), pc(best), best.is_feasible()))
        self.pattern.append((accept, late is not None, improving, exh,
                             self.restarted))
        obs.seen(tuple(self.pattern[-3:]), len(self.hist) > 3)
        obs.count("iterations")
        obs.count("accepted" if accept else "rejected")
        if improving:
            obs.count("new_bests")
            obs.count(f"exhaustive_{exh}")
        self.calls, self.registered, self.bests = [], [], []
        self.restarted = 0

    def on_end(self, res):
        self.ended = True
        self.finish(res)

    def finish(self, res):
        obs = self.obs
        obs.check(self.ended, "search end was not reported")
        obs.check(res.best == self.best, "result's solution")
        obs.equal(res.num_iterations, self.iters, "result's iterations")
        obs.equal(res.is_feasible(), self.best.is_feasible(),
                  "result's feasibility")
        want = self._cost(self.best)
        obs.equal(res.cost(), math.inf if want == INT_MAX else want,
                  "result's cost")
        obs.check(res.runtime >= 0, "negative runtime")
        if self.collect:
            got = [(d.current_cost, d.current_feas, d.candidate_cost,
                    d.candidate_feas, d.best_cost, d.best_feas)
                   for d in res.stats]
            obs.equal(got, self.data, "collected statistics")
            obs.equal((res.stats.num_iterations, len(res.stats.runtimes)),
                      (self.iters, self.iters), "collected iterations")
            obs.check(all(r >= 0 for r in res.stats.runtimes),
                      "negative iteration runtime")
        else:
            obs.equal((res.stats.num_iterations, len(res.stats.data),
                       len(res.stats.runtimes)), (0, 0, 0),
                      "statistics were collected though not asked for")


def callbacks(mon):
    base = P.IteratedLocalSearchCallbacks

    class Calls(base):
        def on_start(self, ils):
            mon.on_start(ils)

        def on_end(self, result):
            mon.on_end(result)

        def on_iteration(self, current, candidate, best, cost_evaluator):
            mon.on_iteration(current, candidate, best, cost_evaluator)

        def on_restart(self, best):
            mon.on_restart(best)

        def on_best(self, best):
            mon.on_best(best)

    return Calls()


class Stop:
    def __init__(self, mon, n, target=None):
        self.mon, self.n, self.target = mon, n, target

    def __call__(self, best_cost):
        self.mon.on_stop(best_cost)
        if self.target is not None and best_cost <= self.target:
            return True
        return self.mon.iters >= self.n


def manager_class():
    class Manager(P.PenaltyManager):
        mon = None

        def register(self, sol):
            if self.mon is not None:
                self.mon.on_register(sol)
            return super().register(sol)

    return Manager


def gen_instance(rng, easy, **kw):
    force = {}
    if easy:
        force = dict(time=False, reload=rng.random() < .3, shift=False,
                     max_distance=False, dims=rng.choice([0, 1, 1, 2]))
    spec = gen.gen_spec(rng, **{
        "max_clients": 8, "max_shipments": 3, "min_visits": 1,
        "release_ok": True, **gen.large(rng, 0.01, huge=False), **force, **kw})
    if easy:
        for vt in spec["vehicle_types"]:
            if rng.random() < 0.6:
                vt["capacity"] = [max(rng.choice([30, 10**6]), v)
                                  for v in vt["initial_load"]]
    return spec


def coarse(rng, spec):
    """Figures so small that different solutions often cost the same."""
    m = rng.choice([2, 3])
    spec["dist"] = [[[v % m for v in r] for r in mat] for mat in spec["dist"]]
    for vt in spec["vehicle_types"]:
        vt.update(fixed_cost=rng.choice([0, 0, 1]), unit_distance_cost=1,
                  unit_duration_cost=0, unit_overtime_cost=0,
                  capacity=[rng.choice([0, 1, 3]) for _ in vt["capacity"]],
                  initial_load=[0 for _ in vt["capacity"]])
    for c in spec["clients"]:
        for key in ("delivery", "pickup"):
            c[key] = [v % m for v in c[key]]
        c["prize"] %= m
    for s in spec["shipments"]:
        s["amount"] = [v % m for v in s["amount"]]
        s["prize"] %= m
    return spec


def ils_params(rng, mon=None):
    return dict(num_iters_no_improvement=rng.choice([1, 2, 3, 5, 10, 1000]),
                history_length=rng.choice([1, 2, 3, 5, 8, 50]),
                exhaustive_on_best=rng.random() < 0.6)


def pen_params(rng, volatile=False):
    if volatile:
        return P.PenaltyParams(
            solutions_between_updates=rng.choice([1, 2, 3]),
            penalty_increase=3.0, penalty_decrease=0.3, target_feasible=0.5,
            min_penalty=rng.choice([0, 0.3]), max_penalty=30.0)
    lo = rng.choice([0, 0.1, 1.0])
    return P.PenaltyParams(
        solutions_between_updates=rng.choice([1, 2, 5, 50]),
        penalty_increase=rng.choice([1.0, 1.5, 3.0]),
        penalty_decrease=rng.choice([0.3, 0.9, 1.0]),
        target_feasible=rng.choice([0.0, 0.4, 0.65, 1.0]),
        min_penalty=lo, max_penalty=rng.choice([lo, 50.0, 1e4]))


def scripted(rng, obs, tier):
    """Adversarial search methods: any solution may come back at any time."""
    ties = rng.random() < 0.4
    if ties:
        spec = coarse(rng, gen_instance(rng, True, dims=rng.choice([1, 2])))
    else:
        spec = gen_instance(rng, rng.random() < 0.7)
    data = gen.build(spec)
    pool = []
    for _ in range(rng.randint(10, 25) if ties else rng.randint(2, 14)):
        inc = 0.0 if rng.random() < 0.8 else 0.3
        pool.append(gen.make_solution(data, gen.gen_routes(
            rng, spec, p_skip_req=inc)))
    init = rng.choice(pool)
    par = ils_params(rng)
    if ties:
        par.update(num_iters_no_improvement=rng.choice([10, 1000]),
                   history_length=rng.choice([1, 2, 4]))
    collect = rng.random() < 0.7
    mon = Monitor(obs, rng, init, par, collect)
    pp = pen_params(rng, ties)
    pen = (lambda: rng.choice([1.0, 1.0, 2.0])) if ties else (
        lambda: rng.uniform(0, 30))
    pm = manager_class()(([pen() for _ in range(spec["dims"])], pen(), pen()),
                         pp)
    pm.mon = mon

    def search(solution, cost_evaluator, exhaustive=False):
        # The evaluator in use reflects the penalties of this moment.
        # A complete search uses the evaluator of its iteration.
        ref = (mon.calls[0][1] if exhaustive and mon.calls
               else P.CostEvaluator(*pens_of(pm)))
        for s in pool[:4]:
            obs.equal(cost_evaluator.penalised_cost(s), ref.penalised_cost(s),
                      "cost evaluator given to the search")
        if exhaustive:
            base = cost_evaluator.penalised_cost(solution)
            opts = [s for s in pool
                    if cost_evaluator.penalised_cost(s) <= base]
            out = rng.choice(opts + [solution])
        else:
            out = rng.choice(pool)
            if ties and rng.random() < 0.6:  # as good as the current one
                pc = cost_evaluator.penalised_cost
                base = pc(solution)
                out = rng.choice([s for s in pool if pc(s) == base]
                                 or [solution])
        mon.on_search(solution, cost_evaluator, exhaustive, out)
        return out

    algo = P.IteratedLocalSearch(
        data, pm, search, init,
        P.IteratedLocalSearchParams(callbacks=callbacks(mon), **par))
    for again in range(rng.choice([1, 1, 2, 3])):
        if again:  # the same object runs again, from its initial solution
            collect = rng.random() < 0.7
            mon.__init__(obs, rng, init, par, collect)
            obs.count("runs_of_used_objects")
        n = rng.choice([0, 1, 5, 20, 60])
        target = None
        if rng.random() < 0.2:
            target = mon._cost(rng.choice(pool))
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = algo.run(Stop(mon, n, target), collect_stats=collect,
                           display=rng.random() < 0.3,
                           display_interval=rng.choice([0.0, 5.0]))
        mon.finish(res)
        obs.equal(len(mon.stops), mon.iters + 1, "stopping criterion calls")
        # Best is monotone over stopping criterion calls.
        obs.check(all(a >= b for a, b in zip(mon.stops, mon.stops[1:])),
                  "best cost got worse", lambda: mon.stops)
        obs.count("scripted_runs")
    if spec["clients"]:
        obs.sample(f"{mon.iters} iterations, {par}, stops {mon.stops[:8]}")


def valid(obs, spec, sol, why, complete=True):
    out = as_routes(sol)
    obs.check(all(oracle.route_valid(spec, a, v) for a, v in out)
              and oracle.solution_valid(spec, out), f"{why}: malformed",
              lambda: out)
    st = oracle.solution_stats(spec, out)
    obs.equal((sol.is_feasible(), sol.is_complete()),
              (st["is_feasible"], st["is_complete"]), f"{why}: feasibility",
              lambda: out)
    if complete:
        obs.check(st["is_complete"], f"{why}: incomplete", lambda: out)
    obs.equal(sol.distance_cost() + sol.duration_cost()
              + sol.fixed_vehicle_cost() + sol.uncollected_prizes(),
              oracle.penalised_cost(st, ([0] * spec["dims"], 0, 0)),
              f"{why}: objective", lambda: out)
    return st


def real(rng, obs, tier):
    """The real local search, wrapped; all produced solutions re-evaluated."""
    spec = gen_instance(rng, rng.random() < 0.5)
    data = gen.build(spec)
    par = ils_params(rng)
    collect = rng.random() < 0.7
    gen_rng = P.RandomNumberGenerator(rng.getrandbits(31))
    nb = S.compute_neighbours(data)
    mn = rng.choice([1, 1, 2, 5])
    ls = S.LocalSearch(data, gen_rng, nb, S.PerturbationManager(
        S.PerturbationParams(mn, mn + rng.choice([0, 5, 25]))))
    objs = [op(data) for op in S.OPERATORS if op.supports(data)]
    for o in objs:
        ls.add_operator(o)
    if rng.random() < 0.5:
        init = gen.make_solution(data, gen.gen_routes(rng, spec))
    else:
        init = P.Solution.make_random(data, gen_rng)
    mon = Monitor(obs, rng, init, par, collect)
    pp = pen_params(rng)
    pm = manager_class()(pp.midpoint_penalties(data), pp)
    pm.mon = mon
    feas = []

    def search(solution, cost_evaluator, exhaustive=False):
        out = ls(solution, cost_evaluator, exhaustive)
        st = valid(obs, spec, out, "candidate")
        if st["is_feasible"]:
            feas.append(oracle.penalised_cost(st, ([0] * spec["dims"], 0, 0)))
        mon.on_search(solution, cost_evaluator, exhaustive, out)
        return out

    algo = P.IteratedLocalSearch(
        data, pm, search, init,
        P.IteratedLocalSearchParams(callbacks=callbacks(mon), **par))
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = algo.run(Stop(mon, rng.choice([3, 20, 40])),
                       collect_stats=collect)
    mon.finish(res)
    st0 = valid(obs, spec, init, "initial", complete=False)
    if st0["is_feasible"]:
        feas.append(oracle.penalised_cost(st0, ([0] * spec["dims"], 0, 0)))
    if feas:
        obs.equal(res.cost(), min(feas),
                  "result is not the best feasible solution produced")
        obs.count("real_feasible")
    else:
        obs.equal(res.cost(), math.inf, "result's cost without feasible one")
        obs.count("real_infeasible")
    obs.check(all(a >= b for a, b in zip(mon.stops, mon.stops[1:])),
              "best cost got worse", lambda: mon.stops)


def solve(rng, obs, tier):
    """The solve() entry points, observed through callbacks."""
    spec = gen_instance(rng, rng.random() < 0.5)
    data = gen.build(spec)
    par = ils_params(rng)
    collect = rng.random() < 0.7
    seen = dict(iters=0, bests=[], starts=0, ends=0, stops=[])
    feas = []
    ces = []

    class Calls(P.IteratedLocalSearchCallbacks):
        def on_start(self, ils):
            seen["starts"] += 1
            seen["init"] = ils.initial_solution
            st = valid(obs, spec, ils.initial_solution, "initial",
                       complete=initial is None)
            if st["is_feasible"]:
                feas.append(oracle.penalised_cost(
                    st, ([0] * spec["dims"], 0, 0)))

        def on_end(self, result):
            seen["ends"] += 1
            seen["res"] = result

        def on_iteration(self, current, candidate, best, cost_evaluator):
            seen["iters"] += 1
            for s, w in ((current, "current"), (candidate, "candidate"),
                         (best, "best")):
                st = valid(obs, spec, s, w, complete=False)
                if st["is_feasible"]:
                    feas.append(oracle.penalised_cost(
                        st, ([0] * spec["dims"], 0, 0)))
            if collect:
                ces.append(tuple(
                    x for s in (current, candidate, best)
                    for x in (cost_evaluator.penalised_cost(s),
                              s.is_feasible())))

        def on_best(self, best):
            seen["bests"].append(valid(obs, spec, best, "new best"))

    params = P.SolveParams(
        ils=P.IteratedLocalSearchParams(callbacks=Calls(), **par),
        penalty=pen_params(rng), display_interval=rng.choice([0.0, 5.0]),
        perturbation=S.PerturbationParams(1, rng.choice([1, 5, 25])))
    initial = None
    if rng.random() < 0.4:
        initial = gen.make_solution(data, gen.gen_routes(
            rng, spec, p_skip_req=rng.choice([0.0, 0.0, 0.3])))
    n = rng.choice([0, 1, 10, 30])
    costs = []

    class Crit:
        inner = P.MaxIterations(n)

        def __call__(self, best_cost):
            costs.append(best_cost)
            return self.inner(best_cost)

    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = dict(seed=rng.getrandbits(31), collect_stats=collect,
                  display=rng.random() < 0.2, params=params,
                  initial_solution=initial)
        if rng.random() < 0.3 and not spec["features"]["shared_locs"]:
            res = P.Model.from_data(data).solve(Crit(), **kw)
        else:
            res = P.solve(data, Crit(), **kw)
    obs.equal((seen["starts"], seen["ends"], seen["iters"]), (1, 1, n),
              "number of start, end and iteration reports")
    obs.equal(res.num_iterations, n, "result's iterations")
    obs.check(seen["res"] is res or seen["res"] == res,
              "reported and returned result")
    if initial is not None:
        obs.check(seen["init"] == initial, "warm start was not used")
    want = min(feas) if feas else None
    obs.equal(res.cost(), math.inf if want is None else want,
              "result is not the best feasible solution reported")
    valid(obs, spec, res.best, "result", complete=feas or initial is None)
    obs.check(all(a >= b for a, b in zip(costs, costs[1:])),
              "best cost got worse", lambda: costs)
    obs.equal(costs[-1], INT_MAX if want is None else want,
              "last cost given to the stopping criterion")
    prev = costs[0]
    for st in seen["bests"]:
        c = oracle.penalised_cost(st, ([0] * spec["dims"], 0, 0))
        obs.check(st["is_feasible"] and c < prev,
                  "reported new best is not an improvement",
                  lambda: (c, prev))
        prev = c
    obs.equal(len(seen["bests"]), len(set(costs)) - 1,
              "number of new best reports", lambda: costs)
    if collect:
        obs.equal([(d.current_cost, d.current_feas, d.candidate_cost,
                    d.candidate_feas, d.best_cost, d.best_feas)
                   for d in res.stats], ces, "collected statistics")
    obs.count("solve_runs")
    obs.count("solve_feasible" if feas else "solve_infeasible")


PARTS = [
    Part("scripted", scripted, 1500, 40000,
         need={"accepted": 1000, "rejected": 1000, "new_bests": 300,
               "restarts": 200, "runs_of_used_objects": 200, "ties": 200,
               "exhaustive_infeasible": 10,
               "exhaustive_better": 50, "exhaustive_same": 20}),
    Part("real", real, 200, 6000,
         need={"real_feasible": 50, "real_infeasible": 5}),
    Part("solve", solve, 240, 7000,
         need={"solve_feasible": 60, "solve_infeasible": 5}),
]
