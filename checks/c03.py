"""Solution aggregates, feasibility and objective."""

from vlib import gen, oracle
from vlib.harness import Part
from vlib.lazy import P

PROPERTY = "C03"
VARIANT = "std"
RULE = ("an evaluation is one solution-level quantity (aggregate, flag, "
        "unplanned set, cost) compared with the value recomputed from the "
        "instance; distinct nontrivial counts distinct combinations of which "
        "violations, missing visits and cost components were present")
ASSUME = ["penalties times violations stay below 2**63"]


def compare(obs, spec, data, routes, rng, sol=None):
    if sol is None:
        sol = gen.make_solution(data, routes)
    st = oracle.solution_stats(spec, routes)
    for name, want in st.items():
        if name in ("_routes", "unplanned"):
            continue
        obs.equal(getattr(sol, name)(), want, f"solution {name}",
                  lambda: routes)
    obs.equal(sorted(str(a) for a in sol.unplanned()), st["unplanned"],
              "unplanned activities", lambda: routes)
    obs.equal(len(sol.routes()), len(routes), "number of routes")
    for r, (acts, vt) in zip(sol.routes(), routes):
        obs.equal(([str(a) for a in r][1:-1], r.vehicle_type()),
                  (list(acts), vt), "solution's routes", lambda: routes)
        obs.equal(r.is_feasible(),
                  oracle.Execution(spec, acts, vt).stats()["is_feasible"],
                  "route feasibility", lambda: routes)

    for _ in range(3):
        ce, pens = gen.gen_cost_evaluator(rng, spec["dims"])
        obs.equal(ce.penalised_cost(sol), oracle.penalised_cost(st, pens),
                  "penalised cost", lambda: f"{routes} {pens}")
        obs.equal(ce.cost(sol), oracle.cost(st, pens), "cost",
                  lambda: f"{routes} {pens}")
        if st["is_feasible"]:
            obs.equal(ce.cost(sol), ce.penalised_cost(sol),
                      "cost of feasible solution", lambda: routes)
            obs.count("feasible_costs")
        else:
            obs.count("infeasible_costs")
    obs.count("solutions")
    if not st["is_complete"]:
        obs.count("incomplete")
    if st["uncollected_prizes"]:
        obs.count("with_uncollected_prizes")
    obs.seen(st["has_time_warp"], st["has_excess_distance"],
             tuple(e > 0 for e in st["excess_load"]),
             min(st["num_missing_clients"], 2),
             min(st["num_missing_groups"], 2),
             min(st["num_missing_shipments"], 2),
             st["num_routes"], st["num_trips"] > st["num_routes"],
             st["fixed_vehicle_cost"] > 0, st["duration_cost"] > 0,
             st["distance_cost"] > 0, st["prizes"] > 0,
             st["uncollected_prizes"] > 0, st["overtime"] > 0)
    obs.sample(routes)


def small(rng, obs, tier):
    spec = gen.gen_spec(rng)
    data = gen.build(spec)
    for _ in range(2):
        routes = gen.gen_routes(rng, spec, p_skip_req=rng.choice([0, 0, .4]),
                                any_reload=rng.random() < 0.2)
        compare(obs, spec, data, routes, rng)


def easy(rng, obs, tier):
    """Loosely constrained instances, to see many feasible solutions."""
    spec = gen.gen_spec(rng, time=rng.random() < 0.5, shift=False,
                        dims=rng.choice([0, 1]), optional=True,
                        max_distance=False, scale=rng.choice([5, 100]),
                        load_scale=1, max_types=4)
    for vt in spec["vehicle_types"]:
        vt["capacity"] = [1000] * spec["dims"]
        vt["tw_early"], vt["tw_late"], vt["start_late"] = 0, gen.INF, None
    for c in spec["clients"]:
        if rng.random() < 0.9:
            c["tw_late"] = gen.INF
    data = gen.build(spec)
    for _ in range(2):
        compare(obs, spec, data,
                gen.gen_routes(rng, spec, p_skip_req=rng.choice([0, 0, .1])),
                rng)


def large(rng, obs, tier):
    spec = gen.gen_spec(rng, max_clients=rng.choice([80, 140]),
                        max_shipments=rng.choice([20, 80]), min_visits=20,
                        max_types=4)
    for vt in spec["vehicle_types"]:
        vt["num_available"] += rng.randint(0, 8)
    data = gen.build(spec)
    compare(obs, spec, data, gen.gen_routes(rng, spec), rng)


def many(rng, obs, tier):
    """More routes, trips and visits than a byte can count."""
    n = rng.choice([257, 300])
    spec = gen.gen_spec(rng, max_clients=n, min_visits=n, max_shipments=0,
                        clients=True, groups=False, max_types=2)
    for vt in spec["vehicle_types"]:
        vt["num_available"] = n
    data = gen.build(spec)
    routes, left = [], list(range(len(spec["clients"])))
    rng.shuffle(left)
    while left:
        vt = rng.randrange(len(spec["vehicle_types"]))
        k = 1 + (rng.random() < 0.08)
        routes.append((gen.gen_route(rng, spec, vt, left[:k], [], 0.3), vt))
        left = left[k:]
    if rng.random() < 0.3:
        routes = routes[:rng.randint(0, len(routes))]
    compare(obs, spec, data, routes, rng)
    obs.count("many_routes", len(routes) > 256)


def lists(rng, obs, tier):
    """Solutions made from lists of client indices use vehicle type zero."""
    spec = gen.gen_spec(rng, shipments=False, clients=True, min_visits=1,
                        groups=False, max_types=2)
    spec["vehicle_types"][0]["num_available"] = len(spec["clients"]) + 1
    data = gen.build(spec)
    order = list(range(len(spec["clients"])))
    rng.shuffle(order)
    order = order[: rng.randint(0, len(order))]
    cut, routes = 0, []
    while cut < len(order):
        k = rng.randint(1, len(order) - cut)
        routes.append(order[cut:cut + k])
        cut += k
    sol = P.Solution(data, routes)
    compare(obs, spec, data, [([f"C{i}" for i in r], 0) for r in routes], rng,
            sol)
    obs.count("list_ctor")


def evaluator(rng, obs, tier):
    """The elementary penalty functions, over the whole value range."""
    dims = rng.randint(0, 3)
    ce, (loads, tw, dist) = gen.gen_cost_evaluator(rng, dims)

    def val():
        return rng.choice([0, 1, rng.randint(0, 10), rng.randint(0, 10**6),
                           rng.randint(0, 10**12)])

    for _ in range(20):
        a, b = val(), val()
        over = max(a - b, 0)
        for d in range(dims):
            obs.equal(ce.load_penalty(a, b, d), int(loads[d] * over),
                      "load penalty", lambda: (a, b, loads[d]))
        obs.equal(ce.tw_penalty(a), int(tw * a), "time warp penalty",
                  lambda: (a, tw))
        obs.equal(ce.dist_penalty(a, b), int(dist * over), "distance penalty",
                  lambda: (a, b, dist))
    bad = rng.choice([-1.0, -0.001, -1e9])
    which = rng.randrange(3)
    args = [[1.0] * (dims + 1), 1.0, 1.0]
    if which == 0:
        args[0][rng.randrange(dims + 1)] = bad
    else:
        args[which] = bad
    obs.raises(ValueError, lambda: P.CostEvaluator(*args),
               "negative penalty accepted", lambda: args)
    obs.count("penalty_functions")


PARTS = [
    Part("small", small, 6000, 80_000,
         {"solutions": 500, "incomplete": 100, "infeasible_costs": 200}),
    Part("easy", easy, 5000, 60_000, {"feasible_costs": 300,
                                      "with_uncollected_prizes": 100}),
    Part("large", large, 250, 5000),
    Part("many", many, 12, 300, {"many_routes": 1}),
    Part("lists", lists, 800, 8000, {"list_ctor": 50}),
    Part("evaluator", evaluator, 600, 8000, {"penalty_functions": 50}),
]
