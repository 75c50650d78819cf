"""
Random instance, route and solution generators. An instance is a plain Python
"spec" (dicts, lists, ints) from which the real ProblemData is built; oracles
only ever look at the spec, never at ProblemData.
"""

from __future__ import annotations

import random

INF = (1 << 63) - 1  # int64 max: PyVRP's "unconstrained"
MAX_SIZE = (1 << 64) - 1


def _tw(rng, horizon, p_inf=0.2, p_point=0.1, p_bound=0.15):
    u = rng.random()
    if u < p_inf:
        return 0, INF
    if u < p_inf + p_point:
        t = rng.randint(0, horizon)
        return t, t
    if u < p_inf + p_point + p_bound:
        return rng.choice([(0, horizon), (horizon, horizon), (0, 0),
                           (horizon // 2, INF)])
    a, b = sorted((rng.randint(0, horizon), rng.randint(0, horizon)))
    return a, b


def _matrix(rng, n, scale, style, coords):
    if style == "euclid":
        m = [[int(round(((coords[i][0] - coords[j][0]) ** 2
                         + (coords[i][1] - coords[j][1]) ** 2) ** 0.5
                        * scale / 100)) for j in range(n)] for i in range(n)]
    elif style == "asym":
        m = [[rng.randint(0, scale) for _ in range(n)] for _ in range(n)]
    elif style == "zero":
        m = [[0] * n for _ in range(n)]
    elif style == "few":
        m = [[rng.choice([0, 1, scale]) for _ in range(n)] for _ in range(n)]
    else:  # sparse: some edges are effectively forbidden
        far = min(1000 * scale, max(10**9, scale))
        m = [[rng.randint(0, scale) if rng.random() < 0.9 else far
              for _ in range(n)] for _ in range(n)]
    for i in range(n):
        m[i][i] = 0
    return m


def large(rng, p=0.02, huge=True):
    """
    With probability p, sizes that cross word boundaries of bit sets and other
    thresholds that small instances stay below.
    """
    if rng.random() >= p:
        return {}
    if huge and rng.random() < 0.1:  # beyond what a byte can count
        n = rng.choice([258, 300])
        return dict(max_clients=n, min_visits=n, max_shipments=0,
                    clients=True)
    return rng.choice([
        dict(max_clients=rng.choice([66, 130]), min_visits=64,
             max_shipments=2, shipments=False, clients=True),
        dict(max_clients=3, max_shipments=rng.choice([66, 130]),
             min_visits=66, shipments=True, clients=False),
        dict(max_clients=70, max_shipments=70, min_visits=66,
             shipments=True, clients=True)])


def flatten(spec):
    """
    Removes all distances, durations and time restrictions, so that routes
    differ in nothing but their visits.
    """
    for mats in (spec["dist"], spec["dur"]):
        mats[:] = [[[0] * len(row) for row in m] for m in mats]
    for x in spec["depots"] + spec["clients"] + spec["vehicle_types"]:
        x.update(tw_early=0, tw_late=INF)
        if "service_duration" in x:
            x["service_duration"] = 0
        if "release_time" in x:
            x["release_time"] = 0
    for x in spec["shipments"]:
        for k in ("pickup_", "delivery_"):
            x.update({k + "tw_early": 0, k + "tw_late": INF,
                      k + "service_duration": 0})
    for x in spec["vehicle_types"]:
        x["start_late"] = None


def _lone(rng, H, depots, clients, shipments, vehicle_types):
    """Leaves a time window at only one place, or nowhere."""
    places = []
    for x in depots + clients + vehicle_types:
        x.update(tw_early=0, tw_late=INF)
        places.append((x, ""))
    for x in shipments:
        for k in ("pickup_", "delivery_"):
            x.update({k + "tw_early": 0, k + "tw_late": INF})
            places.append((x, k))
    for x in vehicle_types:
        x["start_late"] = None
    if rng.random() < 0.4:
        # Only some vehicles have a duration cost, and of one kind only.
        for x in vehicle_types:
            x.update(unit_duration_cost=0, shift_duration=INF, max_overtime=0,
                     unit_overtime_cost=0)
            short = rng.randint(0, H)
            x.update(rng.choice([
                {}, dict(unit_duration_cost=rng.randint(1, 3)),
                dict(shift_duration=short),
                dict(shift_duration=short, unit_overtime_cost=3),
                dict(shift_duration=short, max_overtime=rng.randint(1, H),
                     unit_overtime_cost=rng.choice([0, 2])),
                dict(shift_duration=short, max_overtime=INF,
                     unit_overtime_cost=rng.randint(1, 5))]))
        if rng.random() < 0.7:
            return
    x, k = rng.choice(places)
    if k and rng.random() < 0.5:  # the others are more
        x, k = rng.choice([p for p in places if p[1]])
    e, l = _tw(rng, H, p_inf=0.1)
    u = rng.random()
    if u < 0.3:
        e = 0
    elif u < 0.5:
        l = INF
    if "capacity" in x and rng.random() < 0.4:
        x["start_late"] = l
    elif "release_time" not in x or x["release_time"] <= l:
        x[k + "tw_early"], x[k + "tw_late"] = e, l
        # Keeps a delivery possible after its pickup.
        if k == "pickup_" and rng.random() < 0.5:
            x[k + "tw_late"] = INF


def gen_spec(rng: random.Random, max_clients=10, max_shipments=4,
             max_depots=None, max_types=None, min_visits=0, **force) -> dict:
    """
    Generates a random instance. Features can be forced through ``force``:
    keys of the feature dictionary below.
    """
    # Now and then, many of something other than visits.
    many = rng.choice(["depots", "types", "dims", "profiles", "groups",
                      "fleet"]) \
        if rng.random() < 0.1 else None
    max_depots = max_depots or (9 if many == "depots" else 4)
    max_types = max_types or (9 if many == "types" else 3)
    f = dict(
        time=rng.random() < 0.75,
        release=rng.random() < 0.4,
        reload=rng.random() < 0.5,
        groups=rng.random() < 0.35,
        shipments=rng.random() < 0.5,
        clients=rng.random() < 0.93,
        optional=rng.random() < 0.5,
        profiles=rng.random() < 0.35,
        dims=rng.choice([0, 1, 1, 1, 2, 3]),
        initial_load=rng.random() < 0.25,
        overtime=rng.random() < 0.4,
        max_distance=rng.random() < 0.4,
        shift=rng.random() < 0.4,
        unit_costs=rng.random() < 0.5,
        fixed=rng.random() < 0.4,
        depot_tw=rng.random() < 0.35,
        depot_service=rng.random() < 0.4,
        hetero_depots=rng.random() < 0.5,
        shared_locs=rng.random() < 0.25,
        scale=rng.choice([5, 20, 100, 1000, 10**6]),
        load_scale=1,
        dist_zero=rng.random() < 0.05,
        flat=rng.random() < 0.05,  # statistics do not tell visits apart
        names=rng.random() < 0.3,
        tight=rng.random() < 0.5,
        release_ok=False,
        lone=rng.random() < 0.06,  # at most one time window
    )
    if f["flat"]:
        f.update(dist_zero=True, depot_tw=False, depot_service=False,
                 time=rng.random() < 0.3)
    if many == "dims":
        f["dims"] = rng.randint(4, 8)
    if many == "profiles":
        f["profiles"] = True
    if many == "groups":
        f["groups"] = True
    f["negative"] = rng.random() < 0.04  # fixed costs
    if rng.random() < 0.05:  # quantities beyond 32 bits
        f.update(rng.choice([dict(scale=5 * 10**9),
                             dict(load_scale=10**9)]))
    f.update(force)
    S = f["scale"]
    L = f["load_scale"]
    H = S * rng.choice([2, 5, 10])
    dims = f["dims"]

    n_dep = rng.randint(1, max_depots)
    n_cli = rng.randint(0, max_clients) if f["clients"] else 0
    n_shp = rng.randint(0, max_shipments) if f["shipments"] else 0
    if n_cli + n_shp < min_visits:
        if f["clients"] or not f["shipments"]:
            n_cli = max(min_visits - n_shp, 0)
        else:
            n_shp = max(min_visits - n_cli, 0)
    need = n_dep + n_cli + 2 * n_shp
    n_loc = max(1, rng.randint(1, need)) if f["shared_locs"] else need
    n_loc = max(n_loc, 1)

    def nm(prefix, i):
        if not f["names"]:
            return ""
        return rng.choice([f"{prefix}{i}", "", "näme ü", "x" * 40])

    coords = [(rng.randint(0, 100), rng.randint(0, 100)) for _ in range(n_loc)]
    sign = rng.choice([1, 1, 1, -1])
    locations = [dict(x=float(x) if rng.random() < 0.9 else x + 0.5,
                      y=float(sign * y), name=nm("loc", i))
                 for i, (x, y) in enumerate(coords)]

    order = list(range(n_loc))
    if not f["shared_locs"]:
        if rng.random() < 0.5:
            rng.shuffle(order)
        it = iter(order)
        take = lambda: next(it)  # noqa: E731
    else:
        take = lambda: rng.randrange(n_loc)  # noqa: E731

    depots = []
    for i in range(n_dep):
        e, l = (0, INF)
        if f["time"] and f["depot_tw"]:
            e, l = _tw(rng, H, p_inf=0.3, p_point=0.05)
        depots.append(dict(
            location=take(), tw_early=e, tw_late=l,
            service_duration=rng.randint(0, S) if f["depot_service"] else 0,
            name=nm("dep", i)))

    def qty(hi=10):
        return [rng.choice([0, L * rng.randint(0, hi)]) for _ in range(dims)]

    groups = []
    clients = []
    for i in range(n_cli):
        e, l = _tw(rng, H) if f["time"] else (0, INF)
        rel = 0
        if f["release"] and rng.random() < 0.5:
            rel = rng.randint(0, min(l, H))
            if rng.random() < 0.1:
                rel = min(l, H)
        opt = f["optional"] and rng.random() < 0.5
        clients.append(dict(
            location=take(), delivery=qty(), pickup=qty(),
            service_duration=rng.choice([0, rng.randint(0, S)]),
            tw_early=e, tw_late=l, release_time=rel,
            prize=rng.choice([0, rng.randint(0, 20 * S)])
            if opt else rng.choice([0, 0, rng.randint(0, S)]),
            required=not opt, group=None, name=nm("cli", i)))

    if f["groups"] and n_cli:
        pool = list(range(n_cli))
        rng.shuffle(pool)
        for _ in range(rng.randint(1, 9 if many == "groups" else 3)):
            k = rng.choice([1, 2, 2, 3, 4, rng.randint(1, 12)])
            members, pool = pool[:k], pool[k:]
            if not members:
                break
            gidx = len(groups)
            groups.append(dict(clients=members, required=rng.random() < 0.6,
                               name=nm("grp", gidx)))
            for m in members:
                clients[m]["group"] = gidx
                clients[m]["required"] = False

    shipments = []
    for i in range(n_shp):
        pe, pl = _tw(rng, H) if f["time"] else (0, INF)
        de, dl = _tw(rng, H) if f["time"] else (0, INF)
        if dl < pe:
            dl = rng.choice([pe, INF, pe + S])
        de = min(de, dl)
        opt = f["optional"] and rng.random() < 0.5
        shipments.append(dict(
            pickup_location=take(), delivery_location=take(),
            pickup_tw_early=pe, pickup_tw_late=pl,
            pickup_service_duration=rng.choice([0, rng.randint(0, S)]),
            delivery_tw_early=de, delivery_tw_late=dl,
            delivery_service_duration=rng.choice([0, rng.randint(0, S)]),
            amount=qty(), prize=rng.choice([0, rng.randint(0, 20 * S)])
            if opt else rng.choice([0, 0, rng.randint(0, S)]),
            required=not opt, name=nm("shp", i)))

    n_prof = rng.randint(1, 7 if many == "profiles" else 3) if f["profiles"] else 1
    styles = ["euclid", "euclid", "asym", "asym", "few", "sparse"]
    dist, dur = [], []
    same = rng.random() < 0.3
    for _ in range(n_prof):
        d = _matrix(rng, n_loc, S,
                    "zero" if f["dist_zero"] else rng.choice(styles), coords)
        t = d if same else _matrix(
            rng, n_loc, S,
            rng.choice(styles + ["zero"]) if f["time"]
            else rng.choice(["zero", "euclid"]), coords)
        dist.append(d)
        dur.append(t)

    vehicle_types = []
    for i in range(rng.randint(1, max_types)):
        sd = rng.randrange(n_dep) if f["hetero_depots"] else 0
        ed = rng.randrange(n_dep) if f["hetero_depots"] else 0
        cap = [rng.choice([0, L * rng.randint(0, 15), L * rng.randint(5, 40),
                           INF // 4]) for _ in range(dims)]
        init = [0] * dims
        if f["initial_load"]:
            init = [rng.randint(0, min(c, 10 * L)) for c in cap]
        e, l = (0, INF)
        if f["time"] and rng.random() < 0.6:
            e, l = _tw(rng, H, p_inf=0.1, p_point=0.03)
        # Must overlap with start and end depot's opening hours.
        for dep in (depots[sd], depots[ed]):
            if not (e <= dep["tw_late"] and dep["tw_early"] <= l):
                e, l = 0, INF
        late = None
        if rng.random() < 0.4:
            late = rng.randint(e, min(l, max(e, 2 * H)))
        reloads = []
        if f["reload"] and rng.random() < 0.8:
            reloads = [rng.randrange(n_dep)
                       for _ in range(rng.randint(1, min(n_dep, 3)))]
            reloads = list(dict.fromkeys(reloads))
        vt = dict(
            num_available=rng.choice([1, 1, 2, 3, 5]
                                     if many != "fleet" else [2, 9, 17, 40, 70, 260]),
            capacity=cap, start_depot=sd, end_depot=ed,
            fixed_cost=rng.choice([0, rng.randint(0, 5 * S)])
            if f["fixed"] else 0,
            tw_early=e, tw_late=l,
            shift_duration=rng.randint(0, H if f["tight"] else 4 * H)
            if f["shift"] and f["time"] else INF,
            max_distance=rng.randint(0, 4 * S)
            if f["max_distance"] and rng.random() < 0.7 else INF,
            unit_distance_cost=rng.choice([0, 1, 1, 3])
            if f["unit_costs"] else 1,
            unit_duration_cost=rng.choice([0, 1, 2])
            if f["unit_costs"] else 0,
            profile=rng.randrange(n_prof), start_late=late,
            initial_load=init, reload_depots=reloads,
            max_reloads=rng.choice([MAX_SIZE, 0, 1, 2, 3]) if reloads
            else rng.choice([MAX_SIZE, 0, 2]),
            max_overtime=rng.choice([0, rng.randint(0, H), INF])
            if f["overtime"] else 0,
            unit_overtime_cost=rng.choice([0, 1, 5])
            if f["overtime"] else 0,
            name=nm("veh", i))
        if f["negative"] and rng.random() < 0.7:
            vt["fixed_cost"] = -rng.randint(0, 3 * S)
        vehicle_types.append(vt)

    if f["flat"]:
        for c in clients:
            c["service_duration"] = 0
        for x in shipments:
            x["pickup_service_duration"] = x["delivery_service_duration"] = 0
        for vt in vehicle_types:
            vt["start_late"] = None

    if f["lone"]:
        _lone(rng, H, depots, clients, shipments, vehicle_types)

    if f["release_ok"]:
        # No client is released only after a reload depot has closed.
        latest = max([c["release_time"] for c in clients], default=0)
        for vt in vehicle_types:
            for d in vt["reload_depots"]:
                depots[d]["tw_late"] = max(depots[d]["tw_late"], latest)

    return dict(locations=locations, depots=depots, clients=clients,
                groups=groups, shipments=shipments,
                vehicle_types=vehicle_types, dist=dist, dur=dur, dims=dims,
                features=f, horizon=H)


def build_entities(spec):
    from pyvrp import (Client, ClientGroup, Depot, Location, Shipment,
                       VehicleType)

    return dict(
        locations=[Location(**d) for d in spec["locations"]],
        clients=[Client(**d) for d in spec["clients"]],
        depots=[Depot(**d) for d in spec["depots"]],
        vehicle_types=[VehicleType(**d) for d in spec["vehicle_types"]],
        groups=[ClientGroup(**d) for d in spec["groups"]],
        shipments=[Shipment(**d) for d in spec["shipments"]],
    )


def build(spec):
    """Builds the real ProblemData from the given spec."""
    import numpy as np
    from pyvrp import ProblemData

    ent = build_entities(spec)
    return ProblemData(
        **ent,
        distance_matrices=[np.array(m, dtype=np.int64) for m in spec["dist"]],
        duration_matrices=[np.array(m, dtype=np.int64) for m in spec["dur"]],
    )


def max_trips(vt) -> int:
    return 1 if not vt["reload_depots"] else min(vt["max_reloads"] + 1,
                                                 MAX_SIZE)


# Activities in specs are strings: "C3", "D0", "L2" (pickup), "U2" (delivery).


def gen_route(rng, spec, vt_idx, clients, shipments, p_reload=0.3,
              any_reload=False):
    """
    Random valid activity sequence visiting exactly the given clients and
    shipments, for the given vehicle type.
    """
    vt = spec["vehicle_types"][vt_idx]
    items = [("C", c) for c in clients] + [("S", s) for s in shipments]
    rng.shuffle(items)
    trips_left = max_trips(vt) - 1
    depots = vt["reload_depots"]
    if any_reload and depots:
        depots = list(range(len(spec["depots"])))

    # Partition into trips.
    trips = [[]]
    while trips_left > 0 and depots and rng.random() < p_reload * 0.5:
        trips.append([])  # possibly empty trips at the start
        trips_left -= 1
    for it in items:
        if trips_left > 0 and depots and rng.random() < p_reload:
            trips.append([])
            trips_left -= 1
        trips[-1].append(it)
    while trips_left > 0 and depots and rng.random() < p_reload * 0.4:
        trips.append([])
        trips_left -= 1

    out = []
    for k, trip in enumerate(trips):
        if k:
            out.append(f"D{rng.choice(depots)}")
        seq = []
        for kind, idx in trip:
            if kind == "C":
                seq.insert(rng.randint(0, len(seq)), f"C{idx}")
            else:
                a = rng.randint(0, len(seq))
                seq.insert(a, f"L{idx}")
                b = rng.randint(a + 1, len(seq))
                seq.insert(b, f"U{idx}")
        out += seq
    return out


def gen_routes(rng, spec, p_skip_opt=0.3, p_skip_req=0.0, p_reload=0.3,
               any_reload=False, respect_groups=True):
    """
    Random valid solution as a list of (activities, vehicle type) pairs. When
    ``p_skip_req`` is positive the solution may be incomplete.
    """
    use_c = []
    for i, c in enumerate(spec["clients"]):
        if c["group"] is not None:
            continue
        p = p_skip_req if c["required"] else max(p_skip_opt, p_skip_req)
        if rng.random() >= p:
            use_c.append(i)
    for g in spec["groups"]:
        p = p_skip_req if g["required"] else max(p_skip_opt, p_skip_req)
        if rng.random() >= p:
            use_c.append(rng.choice(g["clients"]))
    use_s = []
    for i, s in enumerate(spec["shipments"]):
        p = p_skip_req if s["required"] else max(p_skip_opt, p_skip_req)
        if rng.random() >= p:
            use_s.append(i)

    vehicles = [k for k, vt in enumerate(spec["vehicle_types"])
                for _ in range(vt["num_available"])]
    rng.shuffle(vehicles)
    vehicles = vehicles[: rng.randint(1, len(vehicles))]
    assign = [([], []) for _ in vehicles]
    for c in use_c:
        rng.choice(assign)[0].append(c)
    for s in use_s:
        rng.choice(assign)[1].append(s)
    out = []
    for vt, (cs, ss) in zip(vehicles, assign):
        if not cs and not ss:
            continue
        out.append((gen_route(rng, spec, vt, cs, ss, p_reload, any_reload),
                    vt))
    return out


def make_route(data, acts, vt):
    from pyvrp import Activity, Route

    return Route(data, [Activity(a) for a in acts], vt)


def tweak_routes(rng, spec, routes, any_depot=True):
    """The given routes after a small change that keeps them valid."""
    routes = [([*a], v) for a, v in routes]
    spots = [(r, k) for r, (a, _) in enumerate(routes) for k in range(len(a))]
    pick = lambda t: [(r, k) for r, k in spots  # noqa: E731
                      if routes[r][0][k][0] == t]
    kind = rng.choice(["clients", "depot", "new", "type", "shipments", "drop",
                       "order", "routes"])
    cs = pick("C")
    if kind == "clients" and len(cs) > 1:
        (r, i), (q, j) = rng.sample(cs, 2)
        routes[r][0][i], routes[q][0][j] = routes[q][0][j], routes[r][0][i]
    elif kind == "depot" and pick("D") and any_depot:
        r, k = rng.choice(pick("D"))
        routes[r][0][k] = f"D{rng.randrange(len(spec['depots']))}"
    elif kind == "new" and cs:
        used = {routes[r][0][k] for r, k in cs}
        free = [f"C{i}" for i, c in enumerate(spec["clients"])
                if f"C{i}" not in used and c["group"] is None]
        r, k = rng.choice(cs)
        if free:
            routes[r][0][k] = rng.choice(free)
    elif kind == "type" and routes:
        r = rng.randrange(len(routes))
        acts = routes[r][0]
        trips = 1 + sum(a[0] == "D" for a in acts)
        ok = [t for t, vt in enumerate(spec["vehicle_types"])
              if sum(v == t for _, v in routes) < vt["num_available"]
              and trips <= max_trips(vt)]
        if ok:
            routes[r] = (acts, rng.choice(ok))
    elif kind == "shipments" and len(spec["shipments"]) > 1:
        a, b = rng.sample(range(len(spec["shipments"])), 2)
        m = {f"L{a}": f"L{b}", f"L{b}": f"L{a}",
             f"U{a}": f"U{b}", f"U{b}": f"U{a}"}
        routes = [([m.get(x, x) for x in acts], v) for acts, v in routes]
    elif kind == "drop" and routes:
        routes.pop(rng.randrange(len(routes)))
    elif kind == "order":
        rng.shuffle(routes)
    elif kind == "routes" and len(routes) > 1:
        r, q = rng.sample(range(len(routes)), 2)
        (a, v), (b, w) = routes[r], routes[q]
        fits = lambda x, t: 1 + sum(y[0] == "D" for y in x) <= max_trips(  # noqa: E731,E501
            spec["vehicle_types"][t])
        if fits(b, v) and fits(a, w):
            routes[r], routes[q] = (b, v), (a, w)
    return routes


def make_solution(data, routes):
    from pyvrp import Solution

    return Solution(data, [make_route(data, a, v) for a, v in routes])


def gen_cost_evaluator(rng, dims):
    from pyvrp import CostEvaluator

    pens = gen_penalties(rng, dims)
    return CostEvaluator(*pens), pens


def gen_penalties(rng, dims):
    def p():
        return rng.choice([0.0, 1.0, 5.0, 20.0, 0.5, 0.1, 1 / 3, 100.0,
                           rng.uniform(0, 50), 10_000.0])

    return [p() for _ in range(dims)], p(), p()
