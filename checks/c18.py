"""Neighbourhoods contain exactly the best-ranked compatible neighbours."""

from vlib import gen
from vlib.harness import Part, Skip
from vlib.lazy import P, S, X

PROPERTY = "C18"
VARIANT = "std"
RULE = ("an evaluation is one condition on a neighbourhood or on a search "
        "space after an operation; distinct nontrivial counts distinct "
        "(size, features, parameters, number of non-feasible pairs) of "
        "instances with at least two visits, and distinct search space "
        "histories")
ASSUME = ["proximities are compared with a relative tolerance of 1e-9, so "
          "the order of (nearly) tied neighbours is not judged"]

MAX = 1.7976931348623157e308


def visit(spec, act):
    """(location, service, tw early, tw late) of an activity."""
    k, i = act[0], int(act[1:])
    if k == "C":
        c = spec["clients"][i]
        return (c["location"], c["service_duration"], c["tw_early"],
                c["tw_late"])
    s = spec["shipments"][i]
    p = "pickup" if k == "L" else "delivery"
    return (s[f"{p}_location"], s[f"{p}_service_duration"],
            s[f"{p}_tw_early"], s[f"{p}_tw_late"])


def proximity(spec, a, b, wait, symmetric):
    """Cheapest over all vehicle types, directions and steps of a shipment."""
    best = MAX
    froms = [a] if a[0] == "C" else [a, "U" + a[1:]]
    for frm in froms:
        pairs = [(frm, b), (b, frm)] if symmetric else [(frm, b)]
        for x, y in pairs:
            lx, sx, ex, lax = visit(spec, x)
            ly, _, ey, lay = visit(spec, y)
            for vt in spec["vehicle_types"]:
                t = spec["dur"][vt["profile"]][lx][ly]
                d = spec["dist"][vt["profile"]][lx][ly]
                if ex + sx + t > lay:
                    continue  # can never be driven in time
                idle = max(ey - t - sx - lax, 0)
                best = min(best, float(vt["unit_distance_cost"] * d
                                       + vt["unit_duration_cost"] * (t + idle))
                           + wait * idle)
    return best


def same(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1.0)


def neighbours(rng, obs, tier):
    big = rng.random() < 0.08
    kw = dict(max_clients=80, max_shipments=rng.choice([8, 70])) if big else dict(
        max_clients=12, max_shipments=5)
    spec = gen.gen_spec(rng, **kw)
    data = gen.build(spec)
    wait = rng.choice([0.0, 0.2, 0.2, 1.0, 3.5, 1e-3, 50.0])
    num = rng.choice([1, 2, 3, 5, 8, 13, 20, 50, 50, 10**6, 2**40])
    sym = rng.random() < 0.5
    if rng.random() < 0.25:
        wait, num, sym = 0.2, 50, True
        got = S.compute_neighbours(data)
        params = "default"
    else:
        params = S.NeighbourhoodParams(wait, num, sym)
        obs.equal((params.weight_wait_time, params.num_neighbours,
                   params.symmetric_proximity), (wait, num, sym),
                  "neighbourhood parameters differ from those given")
        got = S.compute_neighbours(data, params)

    if rng.random() < 0.2:  # what the caller does with it is its own affair
        for vs in got.values():
            vs.clear()
        got.clear()
        got = S.compute_neighbours(data, *([] if params == "default"
                                           else [params]))
        obs.count("recomputed")

    nc, ns = len(spec["clients"]), len(spec["shipments"])
    keys = [f"C{i}" for i in range(nc)] + [f"L{i}" for i in range(ns)]
    everyone = keys + [f"U{i}" for i in range(ns)]
    got = {str(k): [str(v) for v in vs] for k, vs in got.items()}
    where = lambda k="": f"{k} in {spec['features']}, {nc=}, {ns=}, " \
        f"{wait=}, {num=}, {sym=}"  # noqa: E731

    obs.equal(sorted(got), sorted(keys), "neighbourhood keys", where)
    size = min(num, max(nc - 1, 0) + 2 * max(ns - 1, 0))
    infeasible = 0
    for k in keys:
        mine = got[k]
        obs.equal(len(mine), size, "neighbourhood size", lambda: where(k))
        obs.equal(len(set(mine)), len(mine), "duplicate neighbour",
                  lambda: where(k))
        own = {k, "U" + k[1:]} if k[0] == "L" else {k}
        obs.check(not own & set(mine), "visit neighbours itself",
                  lambda: where(k))
        obs.check(set(mine) <= set(everyone), "unknown neighbour",
                  lambda: where(k))

        group = None
        if k[0] == "C":
            group = spec["clients"][int(k[1:])]["group"]
        prox = {}
        for v in everyone:
            if v in own:
                continue
            if (group is not None and v[0] == "C"
                    and spec["clients"][int(v[1:])]["group"] == group):
                prox[v] = MAX
            else:
                prox[v] = proximity(spec, k, v, wait, sym)
        infeasible += sum(p == MAX for p in prox.values())

        for a, b in zip(mine, mine[1:]):
            obs.check(prox[a] <= prox[b] or same(prox[a], prox[b]),
                      "neighbours are not ordered by proximity",
                      lambda: f"{a} {prox[a]} {b} {prox[b]} of {where(k)}")
        if mine:
            worst = max(prox[v] for v in mine)
            for v, p in prox.items():
                if v not in mine:
                    obs.check(p >= worst or same(p, worst),
                              "a closer visit is not a neighbour",
                              lambda: f"{v} {p} vs {worst} of {where(k)}: "
                              f"{mine}")
        obs.count("neighbourhoods")
        obs.count("neighbours", len(mine))
    if nc + ns >= 2:
        obs.seen("n", nc, ns, wait, num, sym, infeasible,
                 len(spec["vehicle_types"]), len(spec["groups"]))
    if size and infeasible:
        obs.sample(f"{where()}; {keys[0]}: {got[keys[0]][:8]}; "
                   f"{infeasible} pairs that cannot be driven in time")

    # Independent of the vehicle types' order and duplicates of them.
    if rng.random() < 0.3 and not big:
        other = dict(spec)
        other["vehicle_types"] = list(spec["vehicle_types"])
        other["vehicle_types"].append(dict(rng.choice(spec["vehicle_types"])))
        rng.shuffle(other["vehicle_types"])
        args = () if params == "default" else (params,)
        again = S.compute_neighbours(gen.build(other), *args)
        again = {str(k): [str(v) for v in vs] for k, vs in again.items()}
        obs.equal(again, got, "order of vehicle types matters", where)
        obs.count("permuted")


def rejected(rng, obs):
    obs.raises(ValueError, lambda: S.NeighbourhoodParams(0.2, 0, True),
               "no neighbours accepted")
    a = (rng.choice([0.0, 0.2, 1.0]), rng.choice([1, 5]), rng.random() < 0.5)
    b = (rng.choice([0.0, 0.2, 1.0]), rng.choice([1, 5]), rng.random() < 0.5)
    obs.equal(S.NeighbourhoodParams(*a) == S.NeighbourhoodParams(*b), a == b,
              "parameter equality")


def space(rng, obs, tier):
    """A search space after any history is what its operations say."""
    sizes = rng.choice([(12, 5), (12, 5), (70, 4), (66, 0), (2, 40), (4, 70), (130, 2)])
    spec = gen.gen_spec(rng, max_clients=sizes[0], max_shipments=sizes[1])
    nc, ns = len(spec["clients"]), len(spec["shipments"])
    if rng.random() < 0.2:
        rejected(rng, obs)
    if nc + ns == 0:
        raise Skip
    data = gen.build(spec)
    keys = [f"C{i}" for i in range(nc)] + [f"L{i}" for i in range(ns)]
    everyone = keys + [f"U{i}" for i in range(ns)]

    def structure():
        out = {}
        for k in keys:
            pool = [v for v in everyone if v != k]
            out[k] = rng.sample(pool, rng.randint(0, min(len(pool), 6)))
        return out

    def native(nb):
        return {P.Activity(k): [P.Activity(v) for v in vs]
                for k, vs in nb.items()}

    nb = structure()
    sp = X.SearchSpace(data, native(nb))
    sol = X.Solution(data)
    routes = gen.gen_routes(rng, spec)
    sol.load(gen.make_solution(data, routes))
    vts = []
    offset = 0
    for i, vt in enumerate(spec["vehicle_types"]):
        vts.append((i, offset))
        offset += vt["num_available"]
    vorder, aorder = None, None
    prom = {k for k in keys if sp.is_promising(P.Activity(k))}
    hist = []

    for _ in range(rng.randint(3, 25)):
        op = rng.choice(["mark", "mark", "mark", "node", "node", "all",
                         "none", "none", "shuffle", "set", "bad", "none"])
        if op == "mark":
            v = rng.choice(everyone)
            sp.mark_promising(P.Activity(v))
            prom = prom | {v.replace("U", "L")}
        elif op == "node":
            rts = [r for r in sol.routes]
            r = rng.choice(rts)
            pos = rng.randrange(len(r))
            sp.mark_promising(r[pos])
            for q in (pos - 1, pos, pos + 1):
                if 0 <= q < len(r):
                    n = str(r[q].activity)
                    if n[0] != "D":
                        prom = prom | {n.replace("U", "L")}
        elif op == "all":
            sp.mark_all_promising()
            prom = set(keys)
        elif op == "none":
            sp.unmark_all_promising()
            prom = set()
        elif op == "shuffle":
            sp.shuffle(P.RandomNumberGenerator(rng.getrandbits(32)))
            aorder = vorder = None
        elif op == "set":
            nb = structure()
            sp.neighbours = native(nb)
        else:
            kind = rng.choice(["size", "self", "kind"])
            bad = structure()
            k = rng.choice(keys)
            if kind == "size":
                if len(keys) == 1:
                    continue
                del bad[k]
            elif kind == "self":
                bad[k].append(k)
            else:
                if not ns:
                    continue
                del bad[k]
                bad["U0"] = []
            if not bad:
                continue

            def setter():
                sp.neighbours = native(bad)

            obs.raises((RuntimeError, ValueError), setter,
                       f"bad neighbourhood accepted: {kind}")
            obs.raises((RuntimeError, ValueError),
                       lambda: X.SearchSpace(data, native(bad)),
                       f"bad neighbourhood accepted: {kind}")
        hist.append(op)
        what = lambda: f"{hist} {nc=} {ns=}"  # noqa: E731
        obs.count("operations")

        got = {k for k in keys if sp.is_promising(P.Activity(k))}
        obs.equal(got, prom, "promising visits", what)
        if ns:
            i = rng.randrange(ns)
            obs.equal(sp.is_promising(P.Activity(f"U{i}")), f"L{i}" in prom,
                      "delivery differs from its pickup", what)
        order = [str(a) for a in sp.activity_order()]
        obs.equal(sorted(order), sorted(keys), "activity order", what)
        if aorder is not None:
            obs.equal(order, aorder, "activity order changed by itself", what)
        aorder = order
        vt = [tuple(x) for x in sp.veh_type_order()]
        obs.equal(sorted(vt), vts, "vehicle type order and offsets", what)
        if vorder is not None:
            obs.equal(vt, vorder, "vehicle order changed by itself", what)
        vorder = vt
        stored = {str(k): [str(v) for v in vs]
                  for k, vs in sp.neighbours.items()}
        obs.equal(stored, nb, "stored neighbourhood", what)
        k = rng.choice(keys)
        obs.equal([str(v) for v in sp.neighbours_of(P.Activity(k))], nb[k],
                  "neighbours of a visit", what)
    obs.seen("space", nc, ns, hist)
    obs.count("histories")


PARTS = [
    Part("neighbours", neighbours, 3000, 60_000,
         {"neighbourhoods": 8000, "permuted": 300}),
    Part("space", space, 2000, 40_000, {"operations": 8000}),
]
