"""Every search operator's cost delta is exact and misses no improving move."""

from vlib import gen, moves, oracle
from vlib.harness import Part
from vlib.lazy import P, S, X

PROPERTY = "C06"
VARIANT = "std"
RULE = ("an evaluation is one operator evaluation on one (U, V) pair compared "
        "with brute-force execution of all outcomes of that move, or one "
        "applied move whose actual cost change is compared with the reported "
        "delta; distinct nontrivial counts distinct (operator, route shapes, "
        "verdict) combinations")
ASSUME = ["no client is released only after a reload depot closed, except in "
          "the part that reproduces that known finding",
          "operators are called the way the local search calls them: U is a "
          "client or pickup, V a visit or a start depot"]


def all_ops():
    return [*S.OPERATORS, S.Relocate3, S.Swap31, S.Swap32, S.Swap33]


def snapshot(ss):
    return [[[str(n) for n in r][1:-1], r.vehicle_type] for r in ss.routes]


def settle(ss):
    for r in ss.routes:
        r.update()
        if r.num_clients() + r.num_shipments() == 0 and len(r) > 2:
            r.clear()
            r.update()


def valid(spec, state):
    routes = [(a, v) for a, v in state if moves.visits(a)]
    return (all(oracle.route_valid(spec, a, v) for a, v in routes)
            and oracle.solution_valid(spec, routes)
            and oracle.solution_stats(spec, routes)["is_complete"])


def targets(ss):
    out = []
    seen_empty = set()
    for k, r in enumerate(ss.routes):
        if r.num_clients() + r.num_shipments() == 0:
            if r.vehicle_type in seen_empty:
                continue
            seen_empty.add(r.vehicle_type)
        out.append((r[0], ("start", k)))
        for n in list(r)[1:-1]:
            if not n.is_reload_depot():
                out.append((n, str(n)))
    return out


def probe(obs, spec, ss, state, op, name, U, V, ce, costs):
    """Evaluates a single move; returns true when it should be applied."""
    nodes = (U,) if V is None else (U, V[0])
    args = (str(U),) if V is None else (str(U), V[1])
    outcomes = moves.MODEL[name](spec, state, *args)
    delta, apply = op.evaluate(*nodes, ce)
    obs.count(f"evaluated.{name}")
    base = costs.state(state)

    def why():
        return (f"{name}{args} delta={delta} apply={apply} on {state} "
                f"penalties={costs.pens}")

    if not apply:
        free = name == "RemoveAdjacentDepot"
        for o in outcomes or ():
            d = costs.state(o) - base
            obs.check(d > 0 or (d == 0 and not free),
                      "operator missed an improving move",
                      lambda: f"{why()}: {d} for {o}")
        return False
    obs.check(delta < 0 or (name == "RemoveAdjacentDepot" and delta == 0),
              "non-improving move would be applied", why)
    return True


def commit(obs, spec, ss, state, op, name, U, V, delta, costs):
    args = (str(U),) if V is None else (str(U), V[1])
    outcomes = moves.MODEL[name](spec, state, *args)
    nodes = (U,) if V is None else (U, V[0])
    op.apply(*nodes)
    for r in ss.routes:
        r.update()
    after = snapshot(ss)
    actual = costs.state(after) - costs.state(state)

    def why():
        return f"{name}{args}: {state} -> {after} penalties={costs.pens}"

    obs.check(valid(spec, after), "applied move gives an invalid solution",
              why)
    obs.equal(delta, actual, "delta differs from actual cost change", why)
    if outcomes:
        obs.check(after in outcomes, "applied move is not the documented one",
                  why)
    obs.count(f"applied.{name}")
    shape = tuple(sorted((len(a), sum(x[0] == "D" for x in a),
                          any(x[0] == "L" for x in a))
                         for a, _ in after if a))
    obs.seen(name, shape[:3], V is not None and isinstance(V[1], tuple))
    settle(ss)


def check_walk(rng, obs, spec, steps, per_step, ops=None):
    data = gen.build(spec)
    routes = gen.gen_routes(rng, spec)
    sol = gen.make_solution(data, routes)
    ce, pens = gen.gen_cost_evaluator(rng, spec["dims"])
    costs = moves.Costs(spec, pens)
    ss = X.Solution(data)
    ss.load(sol)
    cands = [o for o in (ops or all_ops()) if o.supports(data)]
    if not cands:
        return
    objs = [o(data) for o in cands]
    for _ in range(steps):
        for o in objs:
            if hasattr(o, "init"):
                o.init(ss)
        state = snapshot(ss)
        us = [c for c in ss.clients] + [s[0] for s in ss.shipments]
        vs = targets(ss)
        applied = False
        for _ in range(per_step):
            op = rng.choice(objs)
            name = type(op).__name__
            U = rng.choice(us)
            V = None
            if isinstance(op, S.BinaryOperator):
                V = rng.choice(vs)
                if str(V[0]) in (str(U), "U" + str(U)[1:]) and not isinstance(
                        V[1], tuple):
                    continue
            if name == "RelocateShipment" and not hasattr(op, "init"):
                op = type(op)(data)  # no way to reset its cache from here
            if probe(obs, spec, ss, state, op, name, U, V, ce, costs):
                nodes = (U,) if V is None else (U, V[0])
                obs.equal(snapshot(ss), state, "evaluation changed a route")
                delta, _ = op.evaluate(*nodes, ce)
                commit(obs, spec, ss, state, op, name, U, V, delta, costs)
                applied = True
                break
        if not applied:
            obs.equal(snapshot(ss), state, "evaluation changed a route")
            if rng.random() < 0.5:
                break
    obs.count("walks")


def walk(rng, obs, tier):
    spec = gen.gen_spec(rng, min_visits=2, release_ok=True, max_clients=7,
                        max_shipments=3)
    check_walk(rng, obs, spec, 6, 40)


def focused(rng, obs, tier):
    """A single operator, on an instance that makes it applicable."""
    op = rng.choice(all_ops())
    n = op.__name__
    force = dict()
    if "Shipment" in n or n in ("RelocatePickup", "RelocateDelivery"):
        force.update(shipments=True, max_shipments=5)
    if "Optional" in n:
        force.update(optional=True)
    if "Group" in n or "Alternative" in n:
        force.update(groups=True, clients=True)
    if "Depot" in n:
        force.update(reload=True, clients=True)
    if "Client" in n:
        force.update(clients=True)
    spec = gen.gen_spec(rng, min_visits=3, release_ok=True, max_clients=8,
                        **{"max_shipments": 2, **force})
    if rng.random() < 0.5:  # roomy: penalties do not drown distances
        for vt in spec["vehicle_types"]:
            vt["capacity"] = [max(10**6, v) for v in vt["initial_load"]]
    check_walk(rng, obs, spec, 5, 60, [op])


def searches(rng, obs, tier):
    """
    Operators as the search uses them: what they remember between moves, calls
    and solutions may not make a delta wrong. The native search asserts each
    applied delta; the sum of many, and moves missed, are judged here.
    """
    from checks.c05 import core_search

    groups = rng.random() < 0.4
    spec = gen.gen_spec(rng, min_visits=3, release_ok=True, max_clients=7,
                        max_shipments=5, shipments=rng.random() < 0.7,
                        groups=groups)
    data = gen.build(spec)
    cands = [o for o in all_ops() if o.supports(data)]
    if groups and rng.random() < 0.5:
        cands = [o for o in cands if "Altern" in o.__name__] or cands
    ops = rng.sample(cands, rng.randint(1, min(4, len(cands))))
    nb = S.compute_neighbours(data)
    ls, objs = core_search(data, ops, nb)
    for _ in range(4):
        routes = gen.gen_routes(rng, spec)
        sol = gen.make_solution(data, routes)
        ce, pens = gen.gen_cost_evaluator(rng, spec["dims"])
        costs = moves.Costs(spec, pens)
        res = ls(sol, ce, exhaustive=True)
        out = [[[str(a) for a in r][1:-1], r.vehicle_type()]
               for r in res.routes()]
        gain = costs.state([[a, v] for a, v in routes]) - costs.state(out)
        n = sum(o.statistics.num_applications for o in objs
                if type(o).__name__ != "RemoveAdjacentDepot")
        what = lambda: (f"{[o.__name__ for o in ops]} {n} moves gain "  # noqa
                        f"{gain}: {routes} -> {out} {pens}")
        obs.check(valid(spec, out), "moves give an invalid solution", what)
        obs.check(gain >= n, "applied moves did not each improve", what)
        obs.count("searches")
        obs.count("search_moves", n)
        if groups or spec["features"]["optional"]:
            continue
        ss = X.Solution(data)
        ss.load(res)
        state = snapshot(ss)
        fresh = [o(data) for o in ops]
        for o in fresh:
            if hasattr(o, "init"):
                o.init(ss)
        for act, near in nb.items():
            U = ss[act]
            vs = [ss[x] for x in near]
            vs += [v.route[0] for v in vs if v.pos == 1]
            for op in fresh:
                for V in (vs if isinstance(op, S.BinaryOperator) else [None]):
                    nodes = (U,) if V is None else (U, V)
                    delta, apply = op.evaluate(*nodes, ce)
                    obs.check(not apply, "a used operator missed a move",
                              lambda: f"{type(op).__name__} "
                              f"{[str(x) for x in nodes]} {delta} {what()}")
                    obs.count("search_probes")


def supports(rng, obs, tier):
    """Operators offer themselves whenever the instance has their feature."""
    spec = gen.gen_spec(rng)
    data = gen.build(spec)
    c = [x for x in spec["clients"] if not x["required"]
         and (x["group"] is None
              or not spec["groups"][x["group"]]["required"])]
    loose = [x for x in spec["clients"] if not x["required"]
             and x["group"] is None]
    s = [x for x in spec["shipments"] if not x["required"]]
    reload = any(v["reload_depots"] and v["max_reloads"] > 0
                 for v in spec["vehicle_types"])
    multi = sum(v["num_available"] for v in spec["vehicle_types"]) > 1
    want = {
        "InsertOptionalClient": c, "RemoveOptionalClient": c,
        "ReplaceOptionalClient": loose,
        "InsertOptionalShipment": s, "RemoveOptionalShipment": s,
        "ReplaceOptionalShipment": s,
        "RelocateWithDepot": reload, "RemoveAdjacentDepot": reload,
        "ReplaceGroup": spec["groups"], "RelocateAlternative": spec["groups"],
        "RelocatePickup": spec["shipments"],
        "RelocateDelivery": spec["shipments"],
        "RelocateShipment": spec["shipments"] and multi,
        "SwapTails": spec["clients"] and multi,
        "Relocate1": spec["clients"], "Relocate2": spec["clients"],
        "Swap11": spec["clients"], "Swap21": spec["clients"],
        "Swap22": spec["clients"],
    }
    for name, needed in want.items():
        if needed:
            obs.check(getattr(S, name).supports(data),
                      "operator not offered for an instance it applies to",
                      name)
    obs.count("supports_checked")


def known(rng, obs, tier):
    """
    Fixed instance of the known finding: a client is released only after the
    reload depot where its trip starts has closed.
    """
    client = dict(delivery=[], pickup=[], service_duration=0, tw_early=0,
                  tw_late=1000, prize=0, required=True, group=None)
    spec = dict(
        locations=[dict(x=0.0, y=0.0)] * 3,
        depots=[dict(location=0, tw_early=0, tw_late=1000,
                     service_duration=0),
                dict(location=0, tw_early=0, tw_late=38,
                     service_duration=0)],
        clients=[dict(client, location=1, release_time=50),
                 dict(client, location=2, release_time=0)],
        groups=[], shipments=[],
        vehicle_types=[dict(
            num_available=2, capacity=[], start_depot=0, end_depot=0,
            fixed_cost=0, tw_early=0, tw_late=1000,
            shift_duration=gen.INF, max_distance=gen.INF,
            unit_distance_cost=1, unit_duration_cost=0, profile=0,
            start_late=None, initial_load=[], reload_depots=[1],
            max_reloads=3, max_overtime=0, unit_overtime_cost=0)],
        dist=[[[0, 3, 4], [3, 0, 5], [4, 5, 0]]],
        dur=[[[0, 3, 4], [3, 0, 5], [4, 5, 0]]], dims=0)
    data = gen.build(spec)
    pens = ([], 100.0, 1.0)
    ce = P.CostEvaluator(*pens)
    costs = moves.Costs(spec, pens)
    state = [[["D1", "C0", "C1"], 0], [[], 0]]
    after = [[["D1", "C0"], 0], [["C1"], 0]]
    sol = gen.make_solution(data, [(state[0][0], 0)])
    ss = X.Solution(data)
    ss.load(sol)
    op = S.Relocate1(data)
    op.init(ss)
    obs.equal(ce.penalised_cost(sol), costs.state(state),
              "cost of known finding's instance")
    delta, apply = op.evaluate(ss.clients[1], ss.routes[1][0], ce)
    want = costs.state(after) - costs.state(state)
    obs.sample(f"known finding: delta {delta} actual {want}")
    obs.count("known_evaluated")
    if apply:
        obs.equal(delta, want, "late-release reload delta is inexact",
                  "Relocate1 of C1 in [D1, C0, C1], released at 50 where D1 "
                  "closed at 38")


PARTS = [
    Part("walk", walk, 4500, 60_000, {"walks": 300}),
    Part("focused", focused, 5500, 70_000),
    Part("searches", searches, 2500, 40_000,
         {"searches": 3000, "search_moves": 3000, "search_probes": 10_000}),
    Part("supports", supports, 500, 5000, {"supports_checked": 50}),
    Part("known", known, 1, 1, {"known_evaluated": 1}),
]
