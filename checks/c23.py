"""Random and inserted solutions are valid and complete."""

from vlib import gen, moves, oracle
from vlib.harness import Part, Skip
from vlib.lazy import P, S, X

PROPERTY = "C23"
VARIANT = "std"
RULE = ("an evaluation is one condition on a random solution or an "
        "insertion; distinct nontrivial counts distinct (size, route sizes) "
        "of random solutions and (position kinds considered, decision) of "
        "insertions")
ASSUME = ["search routes are updated after each insertion, as the search "
          "does", "no client is released only after a reload depot that its "
          "vehicle may use has closed (known finding of C06)"]


def acts_of(route):
    return [str(a) for a in route][1:-1]


def make_random(rng, obs, tier):
    big = rng.random() < 0.1
    spec = gen.gen_spec(rng, max_clients=rng.choice([60, 140]) if big else 12,
                        max_shipments=rng.choice([20, 80]) if big else 5)
    data = gen.build(spec)
    for _ in range(4):
        seed = rng.getrandbits(32)
        gen_ = P.RandomNumberGenerator(seed)
        sol = P.Solution.make_random(data, gen_)
        routes = [(acts_of(r), r.vehicle_type()) for r in sol.routes()]
        what = lambda: f"{seed=} {routes} {spec['features']}"  # noqa: E731
        for a, v in routes:
            obs.check(oracle.route_valid(spec, a, v), "invalid random route",
                      what)
            obs.check(bool(moves.visits(a)), "empty random route", what)
            obs.check(all(x[0] != "D" for x in a), "random reload", what)
        obs.check(oracle.solution_valid(spec, routes),
                  "invalid random solution", what)
        st = oracle.solution_stats(spec, routes)
        obs.check(st["is_complete"], "incomplete random solution", what)
        obs.check(sol.is_complete(),
                  "random solution reports being incomplete", what)
        # The same state gives the same solution.
        again = P.Solution.make_random(data, P.RandomNumberGenerator(seed))
        obs.check(again == sol, "same seed, different solution", what)
        n = sum(len([x for x in a if x[0] != "U"]) for a, _ in routes)
        if n >= 2:
            obs.seen("r", n, sorted(len(a) for a, _ in routes))
        fleet = sum(v["num_available"] for v in spec["vehicle_types"])
        if n:
            # Visits are spread evenly over the vehicles.
            most = max(len([x for x in a if x[0] != "U"]) for a, _ in routes)
            obs.equal(most, -(-n // fleet) if n > fleet else 1,
                      "visits are not spread evenly", what)
        obs.count("random_solutions")


def diversity(rng, obs, tier):
    """Whatever is optional is sometimes there and sometimes not."""
    spec = gen.gen_spec(rng, max_clients=6, max_shipments=3, min_visits=1,
                        optional=True)
    data = gen.build(spec)
    gen_ = P.RandomNumberGenerator(rng.getrandbits(32))
    runs = 120
    seen = {}
    vts = set()
    pairs = {}
    for _ in range(runs):
        sol = P.Solution.make_random(data, gen_)
        for r in sol.routes():
            vts.add(r.vehicle_type())
            a = acts_of(r)
            for x in a:
                seen[x] = seen.get(x, 0) + 1
    what = lambda: f"{seen} {spec['clients']} {spec['groups']}"  # noqa: E731
    for i, c in enumerate(spec["clients"]):
        n = seen.get(f"C{i}", 0)
        if c["group"] is not None:
            size = len(spec["groups"][c["group"]]["clients"])
            required = spec["groups"][c["group"]]["required"]
            if size == 1 and required:
                obs.equal(n, runs, "required group is skipped", what)
            else:
                obs.check(0 < n < runs, "group member always or never there",
                          what)
        elif c["required"]:
            obs.equal(n, runs, "required client is skipped", what)
        else:
            obs.check(0 < n < runs, "optional client always or never there",
                      what)
    for i, s in enumerate(spec["shipments"]):
        n = seen.get(f"L{i}", 0)
        if s["required"]:
            obs.equal(n, runs, "required shipment is skipped", what)
        else:
            obs.check(0 < n < runs,
                      "optional shipment always or never there", what)
    total = sum(seen.values())
    if total >= runs:
        obs.equal(len(vts), len(spec["vehicle_types"]),
                  "vehicle types used", what)
    obs.count("diversity")
    obs.seen("d", len(spec["clients"]), len(spec["shipments"]), len(vts))


# -------------------------------------------------------------- insertion ---


def read(ss):
    return [[acts_of(r), r.vehicle_type] for r in ss.routes]


def client_options(spec, state, nb, order, c, costs):
    """Costs of what is considered: (base options, ordered empty routes)."""
    prize = 0  # costs.route is net of prizes
    base, empties = [], []

    def at(k, pos):
        acts, vt = state[k]
        new = acts[:pos] + [c] + acts[pos:]
        return (costs.route(new, vt) - costs.route(acts, vt) - prize, k, new)

    base.append(at(0, 0))
    for v in nb:
        loc = moves.locate(state, v)
        if loc is not None:
            k, pos = loc
            base.append(at(k, pos + 1))
    for _, offset, avail in order:
        for k in range(offset, offset + avail):
            if not moves.visits(state[k][0]):
                empties.append(at(k, 0))
                break
    return base, empties


def shipment_options(spec, state, nb, order, s, costs):
    base, empties = [], []
    pick, drop = f"L{s}", f"U{s}"

    def at(k, i, j):  # pickup before position i, delivery before position j
        acts, vt = state[k]
        new = acts[:i] + [pick] + acts[i:j] + [drop] + acts[j:]
        return costs.route(new, vt) - costs.route(acts, vt), k, new

    for v in nb:
        loc = moves.locate(state, v)
        if loc is None:
            continue
        k, pos = loc
        acts = state[k][0]
        for i in (pos, pos + 1):  # before or after the neighbour
            j = i
            base.append(at(k, i, j))
            while j < len(acts) and acts[j][0] != "D":
                j += 1
                base.append(at(k, i, j))
    for _, offset, avail in order:
        for k in range(offset, offset + avail):
            if not moves.visits(state[k][0]):
                empties.append(at(k, 0, 0))
                break
    return base, empties


def insert(rng, obs, tier):
    spec = gen.gen_spec(rng, max_clients=8, max_shipments=3, min_visits=2,
                        release_ok=True)
    data = gen.build(spec)
    ce, pens = gen.gen_cost_evaluator(rng, spec["dims"])
    costs = moves.Costs(spec, pens)
    routes = gen.gen_routes(rng, spec, p_skip_opt=0.6, p_skip_req=0.5)
    ss = X.Solution(data)
    ss.load(gen.make_solution(data, routes))
    nc, ns = len(spec["clients"]), len(spec["shipments"])
    keys = [f"C{i}" for i in range(nc)] + [f"L{i}" for i in range(ns)]
    everyone = keys + [f"U{i}" for i in range(ns)]
    nb = {}
    for k in keys:
        pool = [v for v in everyone if v != k
                and not (k[0] == "L" and v == "U" + k[1:])]
        nb[k] = rng.sample(pool, rng.randint(0, len(pool)))
    sp = X.SearchSpace(data, {P.Activity(k): [P.Activity(v) for v in vs]
                              for k, vs in nb.items()})
    if rng.random() < 0.7:
        sp.shuffle(P.RandomNumberGenerator(rng.getrandbits(32)))

    todo = keys[:]
    rng.shuffle(todo)
    done = 0
    for k in todo:
        state = read(ss)
        if moves.locate(state, k) is not None:
            continue
        avail = [v["num_available"] for v in spec["vehicle_types"]]
        order = [(v, sum(avail[:v]), avail[v])
                 for v, _ in sp.veh_type_order()]
        required = rng.random() < 0.4
        idx = int(k[1:])
        if k[0] == "C":
            base, empties = client_options(spec, state, nb[k], order, k,
                                           costs)
            got = ss.insert(ss.clients[idx], sp, ce, required)
        else:
            base, empties = shipment_options(spec, state, nb[k], order, idx,
                                             costs)
            pick, drop = ss.shipments[idx]
            got = ss.insert(pick, drop, sp, ce, required)
        for r in ss.routes:
            r.update()
        after = read(ss)
        best = min((d for d, _, _ in base), default=None)
        empty = next((e for e in empties if best is None or e[0] < best),
                     None)
        what = lambda: (f"{k} {required=} {base=} {empties=} "  # noqa: E731
                        f"before {state} after {after} pens {pens}")
        if empty is not None:
            options = [empty]
        else:
            options = [o for o in base if o[0] == best]
        value = options[0][0] if options else None
        want = required or (value is not None and value < 0)
        obs.equal(got, want, "whether it was inserted", what)
        changed = [i for i in range(len(state)) if state[i] != after[i]]
        if not want:
            obs.equal(changed, [], "changed without insertion", what)
            obs.count("not_inserted")
        else:
            obs.equal(len(changed), 1, "number of changed routes", what)
            i = changed[0]
            rest = [a for a in after[i][0] if a != k
                    and a != ("U" + k[1:] if k[0] == "L" else k)]
            obs.equal(rest, state[i][0], "other visits moved", what)
            if options:
                obs.check(any(o[1] == i and o[2] == after[i][0]
                              for o in options),
                          "not inserted at a best position", what)
            used = [(a, v) for a, v in after if moves.visits(a)]
            if oracle.solution_valid(spec, used):  # not twice in a group
                obs.equal(ce.penalised_cost(ss.unload()), costs.state(after),
                          "cost after insertion", what)
            obs.count("inserted")
        done += 1
        obs.seen(k[0], required, want, len(base), len(empties),
                 empty is not None, None if value is None else value < 0)
    if not done:
        raise Skip


PARTS = [
    Part("random", make_random, 2500, 60_000, {"random_solutions": 8000}),
    Part("diversity", diversity, 500, 10_000, {"diversity": 300}),
    Part("insert", insert, 4000, 80_000,
         {"inserted": 3000, "not_inserted": 500}),
]
