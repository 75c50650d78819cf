"""Penalties stay bounded and follow the observed feasibility."""

import math
import warnings
from fractions import Fraction

from vlib import gen
from vlib.harness import Part, Skip
from vlib.lazy import P

PROPERTY = "C13"
VARIANT = "std"
RULE = ("an evaluation is one penalty value, evaluator cost or warning "
        "decision after one registration; distinct nontrivial counts "
        "distinct (dimension kind, update direction, at bound, warning) "
        "transitions per parameter class")
ASSUME = ["decisions that hinge on less than 1e-9 of rounding in the "
          "feasibility percentage may go either way"]

EPS = 1e-9


def close(a, b):
    return a == b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-300)


def gen_params(rng):
    lo = rng.choice([0, 0.0, 0.1, 1, 5.5, 1e-3, rng.uniform(0, 10)])
    hi = lo + rng.choice([0, 1, 10, 1000, 99_999, rng.uniform(0, 1e5)])
    return dict(
        solutions_between_updates=rng.choice([1, 1, 2, 3, 5, 10, 40]),
        penalty_increase=rng.choice([1, 1.0, 1.1, 1.5, 2, 10.0,
                                     rng.uniform(1, 4)]),
        penalty_decrease=rng.choice([0, 1, 0.9, 0.5, rng.random()]),
        target_feasible=rng.choice([0, 0.0, 1.0, 0.5, 0.65, rng.random()]),
        feas_tolerance=rng.choice([0, 0.0, 0.05, 0.25, 1.0, rng.random()]),
        min_penalty=lo, max_penalty=hi)


class Automaton:
    """Reference: what the penalties may be after each registration."""

    def __init__(self, initial, par):
        loads, tw, dist = initial
        self.par = par
        self.pens = [min(max(float(p), float(par["min_penalty"])),
                         float(par["max_penalty"]))
                     for p in [*loads, tw, dist]]
        self.lists = [[] for _ in self.pens]
        self.prev = [None] * len(self.pens)

    def register(self, viols):
        """
        Returns, per dimension, the allowed next penalties, and the allowed
        numbers of warnings (as a minimum and maximum).
        """
        par, allowed = self.par, []
        wmin = wmax = 0
        for i, v in enumerate(viols):
            lst = self.lists[i]
            lst.append(v)
            if len(lst) < par["solutions_between_updates"]:
                allowed.append({("same", self.pens[i])})
                continue
            feas = Fraction(sum(x == 0 for x in lst), len(lst))
            avg = Fraction(sum(lst), len(lst))
            diff = float(Fraction(par["target_feasible"]) - feas)
            tol = float(par["feas_tolerance"])
            lst.clear()

            lo, hi = float(par["min_penalty"]), float(par["max_penalty"])
            opts = set()
            if abs(diff) < tol + EPS:
                opts.add(("same", self.pens[i]))
            if abs(diff) > tol - EPS:
                if diff > -EPS:
                    new = self.pens[i] * par["penalty_increase"]
                    opts.add(("up", min(max(new, lo), hi)))
                if diff < EPS:
                    new = self.pens[i] * par["penalty_decrease"]
                    opts.add(("down", min(max(new, lo), hi)))
            allowed.append(opts)

            # Warn at the maximum, when too infeasible and not improving.
            at_max = [self.pens[i] >= hi * (1 - EPS), self.pens[i] >= hi]
            few = [diff > tol - EPS, diff > tol + EPS]
            if self.prev[i] is None:
                worse = [False, False]
            else:
                gap = avg - self.prev[i]
                slack = Fraction(1, 10**12) * max(avg, 1)
                worse = [gap >= -slack,
                         gap >= 0 and (gap == 0 or gap > slack)]
            wmax += at_max[0] and few[0] and worse[0]
            wmin += at_max[1] and few[1] and worse[1]
            self.prev[i] = avg
        return allowed, wmin, wmax

    def commit(self, i, value):
        self.pens[i] = value


def viols_of(spec_free_sol):
    s = spec_free_sol
    return [*s.excess_load(), s.time_warp(), s.excess_distance()]


def flat(pens):
    loads, tw, dist = pens
    return [*loads, tw, dist]


def pool_of(rng, data, spec):
    pool = [gen.make_solution(data, gen.gen_routes(rng, spec))
            for _ in range(8)]
    pool.append(P.Solution(data, []))  # no violations at all
    return pool


def follow(obs, auto, pm, par, viols, warned):
    """Advances the reference by one registration, and compares."""
    before = list(auto.pens)
    allowed, wmin, wmax = auto.register(viols)
    got = flat(pm.penalties())
    obs.equal(len(got), len(before), "number of penalties")
    sig = []
    for i, (g, opts) in enumerate(zip(got, allowed)):
        hit = [(kind, w) for kind, w in opts if close(g, w)]
        obs.check(hit, "penalty after a registration",
                  lambda: f"penalty {i} went from {before[i]} to {g}, "
                          f"expected {opts}; {par}; violations {viols}")
        obs.check(par["min_penalty"] <= g <= par["max_penalty"],
                  "penalty is out of bounds", lambda: (g, par))
        kind = hit[0][0]
        auto.commit(i, float(g))
        obs.count(f"moved_{kind}")
        sig.append((kind, g == par["max_penalty"], g == par["min_penalty"],
                    viols[i] == 0))
    obs.check(wmin <= warned <= wmax, "penalty bound warning",
              lambda: f"{warned} warnings, expected {wmin} to {wmax}; {par}; "
                      f"before {before}; violations {viols}")
    obs.count("warnings", warned)
    obs.seen(tuple(sig), bool(warned), par["solutions_between_updates"] == 1)


def initial_penalties(rng, dims, par):
    lo, hi = par["min_penalty"], par["max_penalty"]

    def one():
        return rng.choice([0, 1, 20, lo, hi, lo - 1, hi * 2, (lo + hi) / 2,
                           int(hi) // 2, rng.uniform(lo, hi)])

    if rng.random() < 0.3:  # whole numbers only
        return [rng.randint(0, 30) for _ in range(dims)], 4, 6
    return [one() for _ in range(dims)], one(), one()


def history(rng, obs, tier):
    spec = gen.gen_spec(rng, max_clients=6, max_shipments=2, min_visits=2)
    if rng.random() < 0.2:  # tiny next to huge violations
        for c in spec["clients"]:
            c["delivery"] = [rng.choice([0, 1, 2, 10**12])
                             for _ in c["delivery"]]
        for vt in spec["vehicle_types"]:
            vt["capacity"] = list(vt["initial_load"])
    data = gen.build(spec)
    pool = pool_of(rng, data, spec)
    par = gen_params(rng)
    if rng.random() < 0.2:
        par.update(min_penalty=int(par["min_penalty"]),
                   max_penalty=int(par["max_penalty"]) + 1)
    params = P.PenaltyParams(**par)
    init = initial_penalties(rng, data.num_load_dimensions, par)
    copy = (list(init[0]), init[1], init[2])
    pm = P.PenaltyManager(init, params)
    auto = Automaton(init, par)
    got = flat(pm.penalties())
    for g, w in zip(got, auto.pens, strict=True):
        obs.check(close(g, w), "initial penalty is not clipped as documented",
                  lambda: f"{got} for {init} with {par}")
    obs.equal((list(init[0]), init[1], init[2]), copy,
              "the given initial penalties were modified")

    ref_max = P.CostEvaluator([par["max_penalty"]] * len(copy[0]),
                              par["max_penalty"], par["max_penalty"])
    handed = []  # evaluators, with the costs they gave at the time
    feas = [s for s in pool if not any(viols_of(s))]
    bias = rng.random()
    for step in range(rng.choice([10, 30, 90])):
        if rng.random() < 0.05:
            bias = rng.choice([0, 1, rng.random()])
        sol = rng.choice(feas if rng.random() < bias else pool)
        # Evaluators reflect the penalties now.
        if rng.random() < 0.3:
            ce = pm.cost_evaluator()
            pens = flat(pm.penalties())
            want = P.CostEvaluator(pens[:-2], pens[-2], pens[-1])
            probe = rng.choice(pool)
            cost = ce.penalised_cost(probe)
            obs.equal(cost, want.penalised_cost(probe),
                      "cost evaluator does not use the current penalties",
                      lambda: pens)
            pair = (ce.tw_penalty(1000), ce.dist_penalty(1000, 0),
                    [ce.load_penalty(1000, 0, d)
                     for d in range(len(pens) - 2)])
            obs.equal(pair, (want.tw_penalty(1000),
                             want.dist_penalty(1000, 0),
                             [want.load_penalty(1000, 0, d)
                              for d in range(len(pens) - 2)]),
                      "cost evaluator does not use the current penalties",
                      lambda: pens)
            handed.append((ce, probe, cost, pair))
            mx = pm.max_cost_evaluator()
            obs.equal((mx.penalised_cost(probe), mx.tw_penalty(77),
                       mx.dist_penalty(77, 0)),
                      (ref_max.penalised_cost(probe), ref_max.tw_penalty(77),
                       ref_max.dist_penalty(77, 0)),
                      "maximum cost evaluator", lambda: par)
            obs.equal(flat(pm.penalties()), pens,
                      "asking for an evaluator moved the penalties")
            pm.penalties()[0].append(3)  # scribble over the returned list
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            pm.register(sol)
        warned = sum(issubclass(w.category, P.PenaltyBoundWarning)
                     for w in caught)
        follow(obs, auto, pm, par, viols_of(sol), warned)
    for ce, probe, cost, pair in handed:
        obs.equal((ce.penalised_cost(probe), ce.tw_penalty(1000),
                   ce.dist_penalty(1000, 0)), (cost, pair[0], pair[1]),
                  "an evaluator handed out earlier changed")
    obs.count("histories")
    obs.sample(f"{par} {init} -> {pm.penalties()}")


def solves(rng, obs, tier):
    """The same automaton, alongside real searches."""
    from pyvrp.search import OPERATORS, LocalSearch, compute_neighbours

    spec = gen.gen_spec(rng, min_visits=3, release_ok=True)
    data = gen.build(spec)
    par = gen_params(rng)
    par["solutions_between_updates"] = rng.choice([1, 2, 5])
    par["max_penalty"] = max(min(par["max_penalty"], 1000.0),
                             par["min_penalty"])
    init = initial_penalties(rng, data.num_load_dimensions, par)
    auto = Automaton(init, par)

    class Watched(P.PenaltyManager):
        def register(self, sol):
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                super().register(sol)
            warned = sum(issubclass(w.category, P.PenaltyBoundWarning)
                         for w in caught)
            follow(obs, auto, self, par, viols_of(sol), warned)
            obs.count("solver_registrations")

    pm = Watched(init, P.PenaltyParams(**par))
    rn = P.RandomNumberGenerator(rng.randint(1, 10**6))
    ls = LocalSearch(data, rn, compute_neighbours(data))
    for op in OPERATORS:
        if op.supports(data):
            ls.add_operator(op(data))
    ils = P.IteratedLocalSearch(data, pm, ls,
                                P.Solution.make_random(data, rn))
    ils.run(P.MaxIterations(15), collect_stats=False, display=False)


FIELDS = dict(
    solutions_between_updates=lambda v: v >= 1,
    penalty_increase=lambda v: v >= 1,
    penalty_decrease=lambda v: 0 <= v <= 1,
    target_feasible=lambda v: 0 <= v <= 1,
    feas_tolerance=lambda v: 0 <= v <= 1,
    min_penalty=lambda v: v >= 0,
)


def params(rng, obs, tier):
    par = gen_params(rng)
    for f in rng.sample(list(par), rng.choice([0, 1, 1, 2])):
        par[f] = rng.choice([-1, 0, 1, 2, -0.01, 1.01, 0.999, 1.0, 1e6])
    par["solutions_between_updates"] = int(par["solutions_between_updates"])
    ok = (all(c(par[f]) for f, c in FIELDS.items())
          and par["max_penalty"] >= par["min_penalty"])
    try:
        p = P.PenaltyParams(**par)
    except ValueError:
        obs.check(not ok, "valid penalty parameters were rejected",
                  lambda: par)
        obs.count("params_rejected")
        return
    obs.check(ok, "invalid penalty parameters were accepted", lambda: par)
    obs.count("params_accepted")
    obs.equal({f: getattr(p, f) for f in par}, par, "parameters as given")
    spec = gen.gen_spec(rng, max_clients=2)
    data = gen.build(spec)
    loads, tw, dist = p.midpoint_penalties(data)
    mid = (par["min_penalty"] + par["max_penalty"]) / 2
    obs.equal(len(loads), data.num_load_dimensions, "number of penalties")
    for v in [*loads, tw, dist]:
        obs.check(close(v, mid) or math.isclose(v, mid, rel_tol=1e-9,
                                                abs_tol=1e-9),
                  "midpoint penalty", lambda: (v, par))
    d = P.PenaltyParams()
    obs.check(d.min_penalty <= d.max_penalty
              and P.PenaltyParams() == d, "default parameters")


PARTS = [
    Part("history", history, 3000, 30000,
         need={"histories": 300, "moved_up": 500, "moved_down": 500,
               "warnings": 50}),
    Part("solves", solves, 400, 4000,
         need={"solver_registrations": 500}),
    Part("params", params, 400, 10000,
         need={"params_accepted": 50, "params_rejected": 50}),
]
