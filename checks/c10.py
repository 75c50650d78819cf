"""Round trips, equality and hashes of value objects."""

import copy
import pickle

import random

from vlib import gen
from vlib.harness import Part, Skip
from vlib.lazy import P, S

PROPERTY = "C10"
VARIANT = "std"
RULE = ("an evaluation is one attribute comparison or equality/hash law on "
        "one object or pair of objects; distinct nontrivial counts distinct "
        "(class, field values in which the pair differs) combinations and "
        "object contents")
ASSUME = ["names contain no NUL characters",
          "routes and solutions are compared within one problem instance"]

INF = gen.INF


def snap(x, depth=0):
    """Full observable content of an object, as plain Python values."""
    import numpy as np

    if isinstance(x, (str, int, float, bool, type(None), bytes)):
        return x
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [snap(v, depth) for v in x]
    cls = type(x)
    name = cls.__name__
    if name == "ActivityType":
        return str(x)
    out = [name]
    zero_arg = name in ("Route", "Solution", "ProblemData")
    for attr in sorted(dir(cls)):
        if attr.startswith("_"):
            continue
        member = getattr(cls, attr)
        if isinstance(member, property):
            out.append((attr, snap(getattr(x, attr), depth + 1)))
        elif zero_arg and callable(member):
            if attr in SKIP.get(name, ()):
                continue
            out.append((attr, snap(getattr(x, attr)(), depth + 1)))
        elif name in ("Activity", "ScheduledActivity") and \
                attr.startswith("is_"):
            out.append((attr, getattr(x, attr)()))
    if name in ("Route", "ClientGroup"):
        out.append(("items", [snap(v, depth + 1) for v in x]))
        out.append(("len", len(x)))
    if name == "DynamicBitset":
        out.append([x[i] for i in range(len(x))])
    if len(out) == 1:
        raise AssertionError(f"nothing observable on {name}")
    return out


SKIP = {"ProblemData": ("replace", "location", "client", "depot", "group",
                        "shipment", "vehicle_type", "distance_matrix",
                        "duration_matrix"),
        "Solution": ("make_random",)}


def shown(x):
    try:
        return str(snap(x))
    except AssertionError:
        return str(getattr(x, "__dict__", x))


def laws(obs, a, b, same, what):
    """Equality laws for a pair whose contents are equal iff ``same``."""
    obs.equal((a == b, b == a, a != b, b != a),
              (same, same, not same, not same), f"equality of {what}",
              lambda: f"{shown(a)} versus {shown(b)}")
    if same and type(a).__hash__ is not None:
        try:
            ha, hb = hash(a), hash(b)
        except TypeError:
            return
        obs.equal(ha, hb, f"hashes of equal {what}",
                  lambda: f"{shown(a)}")


def round_trip(obs, rng, x, what, again=True):
    ref = snap(x)
    proto = rng.choice([2, 3, 4, 5])
    ways = [("pickle", lambda: pickle.loads(pickle.dumps(x, proto))),
            ("copy", lambda: copy.copy(x)),
            ("deepcopy", lambda: copy.deepcopy(x))]
    for how, fn in ways:
        y = fn()
        obs.equal(type(y), type(x), f"{how} of {what}: type")
        got = snap(y)
        if got != ref:
            diff = [(p, q) for p, q in zip(ref, got) if p != q]
            obs.equal(got, ref, f"{how} of {what}",
                      f"differing: {diff[:3]}")
        obs.ev()
        if type(x).__eq__ is not object.__eq__:
            laws(obs, x, y, True, what)
        obs.equal(snap(x), ref, f"{how} of {what} changed the original")
        obs.count(f"{how}_{what}")
    z = pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x, proto))))
    obs.equal(snap(z), ref, f"second pickle of {what}")
    foreign = [None, 1, "x", [], object()]
    obs.check(not any(x == f for f in foreign)
              and all(x != f for f in foreign),
              f"equality of {what} with unrelated objects")
    obs.seen(what, str(ref))


def alter(rng, v):
    """Some other valid-ish value."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int) and v >= INF - 10:
        return rng.choice([v - 1, v - 7, 1000])
    if isinstance(v, int):
        return rng.choice([v + 1, v + 7, max(v - 1, 0)])
    if isinstance(v, float):
        return v + rng.choice([0.5, 1.0, 1e-9])
    if isinstance(v, str):
        return rng.choice([v + "x", v[:-1] if v else "y", v.upper() + "Z",
                           "ü"])
    if isinstance(v, list):
        if v and rng.random() < 0.5:
            w = list(v)
            i = rng.randrange(len(w))
            w[i] = w[i] + 1
            return w
        return v + [0]
    if v is None:
        return 0
    raise TypeError(v)


def make(cls, kw):
    return getattr(P, cls)(**kw)


def entities(rng, obs, tier):
    """Locations, clients, depots, ... and single-field variations of them."""
    spec = gen.gen_spec(rng, min_visits=2, names=rng.random() < 0.7)
    groups = [("Location", "locations"), ("Client", "clients"),
              ("Depot", "depots"), ("Shipment", "shipments"),
              ("VehicleType", "vehicle_types"), ("ClientGroup", "groups")]
    for cls, key in groups:
        if not spec[key]:
            continue
        kw = dict(rng.choice(spec[key]))
        if rng.random() < 0.15:  # defaults for some fields
            for f in list(kw):
                if rng.random() < 0.3 and f not in (
                        "location", "pickup_location", "delivery_location",
                        "x", "y"):
                    kw.pop(f)
            try:
                make(cls, kw)
            except (ValueError, TypeError):
                kw = dict(rng.choice(spec[key]))
        x = make(cls, kw)
        for f, v in kw.items():  # reports what it was given
            if cls == "Shipment" and f.startswith(("pickup_", "delivery_")):
                which, attr = f.split("_", 1)
                got = getattr(getattr(x, which), attr)
            elif f == "start_late":
                got = x.start_late
                v = x.tw_late if v is None else v
            else:
                got = getattr(x, f)
            if isinstance(got, list):
                got = list(got)
            if cls == "Client" and f in ("delivery", "pickup"):
                n = max(len(kw.get("delivery", [])), len(kw.get("pickup", [])))
                v = v + [0] * (n - len(v))
            if cls == "VehicleType" and f in ("capacity", "initial_load"):
                n = max(len(kw.get("capacity", [])),
                        len(kw.get("initial_load", [])))
                v = v + [0] * (n - len(v))
            obs.equal(got, v, f"{cls}.{f} as given", lambda: kw)
        round_trip(obs, rng, x, cls)
        laws(obs, x, make(cls, kw), True, cls)
        if cls == "Shipment":
            round_trip(obs, rng, x.pickup, "ShipmentStep")
            laws(obs, x.pickup, x.delivery,
                 snap(x.pickup) == snap(x.delivery), "ShipmentStep")
            for st, pre in ((x.pickup, "pickup"), (x.delivery, "delivery")):
                args = [kw.get(f"{pre}_{a}", d) for a, d in (
                    ("location", 0), ("tw_early", 0), ("tw_late", INF),
                    ("service_duration", 0))]
                y = P.ShipmentStep(*args)
                laws(obs, st, y, True, "ShipmentStep")
                i = rng.randrange(4)
                args[i] = alter(rng, args[i])
                try:
                    z = P.ShipmentStep(*args)
                except (ValueError, TypeError):
                    continue
                laws(obs, st, z, snap(st) == snap(z), "ShipmentStep")
        # One or more fields differ: unequal exactly when the content is.
        for f in list(kw):
            kw2 = dict(kw)
            kw2[f] = alter(rng, kw2[f])
            if cls == "Client" and f in ("delivery", "pickup"):
                pass
            try:
                y = make(cls, kw2)
            except (ValueError, TypeError):
                continue
            same = snap(x) == snap(y)
            laws(obs, x, y, same, f"{cls} differing in {f}")
            if not same:
                obs.count(f"differ_{cls}_{f}")
                obs.seen(cls, f, str(kw2[f]))
        other = make(cls, dict(rng.choice(spec[key])))
        laws(obs, x, other, snap(x) == snap(other), cls)


def activities(rng, obs, tier):
    kinds = ["C", "D", "L", "U"]
    objs = []
    for _ in range(12):
        k, i = rng.choice(kinds), rng.choice([0, 1, 2, 10, 63, 64, 1000,
                                              2**31, 2**40])
        objs.append((k, i, P.Activity(f"{k}{i}")))
    types = dict(C=P.ActivityType.CLIENT, D=P.ActivityType.DEPOT,
                 L=P.ActivityType.PICKUP, U=P.ActivityType.DELIVERY)
    table = {}
    for k, i, a in objs:
        obs.equal((a.type, a.idx, str(a)), (types[k], i, f"{k}{i}"),
                  "activity from text")
        obs.equal((a.is_client(), a.is_depot(), a.is_pickup(),
                   a.is_delivery(), a.is_shipment()),
                  (k == "C", k == "D", k == "L", k == "U", k in "LU"),
                  "activity predicates")
        b = P.Activity(types[k], i)
        laws(obs, a, b, True, "Activity")
        round_trip(obs, rng, a, "Activity")
        table[a] = (k, i)
    for k, i, a in objs:
        obs.equal(table.get(P.Activity(types[k], i)), (k, i),
                  "activity as dictionary key")
        for l, j, b in objs:
            laws(obs, a, b, (k, i) == (l, j), "Activity")


def problem_data(rng, obs, tier):
    import numpy as np

    spec = gen.gen_spec(rng, **gen.large(rng))
    data = gen.build(spec)
    round_trip(obs, rng, data, "ProblemData")
    laws(obs, data, gen.build(spec), True, "ProblemData")
    laws(obs, data, data.replace(), True, "ProblemData")
    # Change one entry somewhere.
    ent = dict(locations=data.locations(), clients=data.clients(),
               depots=data.depots(), vehicle_types=data.vehicle_types(),
               groups=data.groups(), shipments=data.shipments())
    mats = dict(distance_matrices=[np.array(m) for m in
                                   data.distance_matrices()],
                duration_matrices=[np.array(m) for m in
                                   data.duration_matrices()])
    n = len(spec["locations"])
    for key in ("distance_matrices", "duration_matrices"):
        if n < 2:
            continue
        ms = [m.copy() for m in mats[key]]
        p, i, j = rng.randrange(len(ms)), rng.randrange(n), rng.randrange(n)
        if i == j:
            continue
        ms[p][i, j] += 1
        other = data.replace(**{key: ms})
        laws(obs, data, other, False, f"ProblemData differing in {key}")
        obs.count(f"differ_{key}")
        round_trip(obs, rng, other, "ProblemData")
    plain = ["locations", "clients", "depots", "shipments", "groups",
             "vehicle_types"]
    for key in plain:
        if not spec[key]:
            continue
        i = rng.randrange(len(spec[key]))
        kw = dict(spec[key][i])
        kw["name"] = kw["name"] + "_"
        cls = dict(locations="Location", clients="Client", depots="Depot",
                   shipments="Shipment", vehicle_types="VehicleType",
                   groups="ClientGroup")[key]
        objs = list(ent[key])
        objs[i] = make(cls, kw)
        other = data.replace(**{key: objs})
        laws(obs, data, other, False, f"ProblemData differing in {key}")
        obs.count(f"differ_{key}")
    # Appended entries.
    other = data.replace(vehicle_types=[*ent["vehicle_types"],
                                        ent["vehicle_types"][0]])
    laws(obs, data, other, False, "ProblemData with another vehicle type")
    if len(mats["distance_matrices"]) > 1 and rng.random() < 0.5:
        ms = {k: list(reversed(v)) for k, v in mats.items()}
        other = data.replace(**ms)
        laws(obs, data, other, snap(data) == snap(other),
             "ProblemData with profiles exchanged")


def canon(routes):
    return sorted((v, tuple(a)) for a, v in routes)


def solutions(rng, obs, tier):
    spec = gen.gen_spec(rng, **{"min_visits": 2, **gen.large(rng)})
    if rng.random() < 0.2:
        gen.flatten(spec)
        obs.count("flat_instances")
    data = gen.build(spec)
    pool = []
    for _ in range(4):
        routes = gen.gen_routes(rng, spec,
                                p_skip_req=rng.choice([0.0, 0.0, 0.2]))
        pool.append(routes)
    # Close variations: permuted routes, reversed visits, other vehicles.
    base = pool[0]
    if base:
        p = list(base)
        rng.shuffle(p)
        pool.append(p)
        k = rng.randrange(len(base))
        acts, vt = base[k]
        if all(a[0] == "C" for a in acts):
            cut = rng.randrange(len(acts))  # another route for some of them
            if cut:
                pool.append([*base[:k], (acts[:cut], vt), *base[k + 1:],
                             (acts[cut:], vt)])
            pool.append([*base[:k], (acts[::-1], vt), *base[k + 1:]])
        for v2 in range(len(spec["vehicle_types"])):
            if v2 != vt and not any(a[0] == "D" for a in acts):
                pool.append([*base[:k], (acts, v2), *base[k + 1:]])
    sols = []
    for routes in pool:
        try:
            sols.append((routes, gen.make_solution(data, routes)))
        except (RuntimeError, ValueError):
            continue
    back = pickle.loads(pickle.dumps(data))
    for routes, sol in sols:
        round_trip(obs, rng, sol, "Solution")
        again = gen.make_solution(back, routes)
        laws(obs, sol, again, True, "Solution")
        obs.equal(snap(again), snap(sol), "solution on unpickled data")
        if sol.unplanned():
            obs.count("with_unplanned")
        for r in sol.routes():
            round_trip(obs, rng, r, "Route")
            for a in r.schedule()[:3]:
                ref = snap(a)
                for b in (pickle.loads(pickle.dumps(a)), copy.copy(a),
                          copy.deepcopy(a)):
                    obs.equal(snap(b), ref, "round trip of ScheduledActivity")
        for a, b in zip(sol.routes(), gen.make_solution(data, routes)
                        .routes()):
            laws(obs, a, b, True, "Route")
    for ra, a in sols:
        for rb, b in sols:
            laws(obs, a, b, canon(ra) == canon(rb), "Solution")
            obs.count("equal_pairs" if canon(ra) == canon(rb)
                      else "different_pairs")
    allr = [(acts, vt, gen.make_route(data, acts, vt))
            for routes, _ in sols for acts, vt in routes][:8]
    for aa, va, a in allr:
        for ab, vb, b in allr:
            laws(obs, a, b, (aa, va) == (ab, vb), "Route")
    uniq = {s for _, s in sols}
    obs.equal(len(uniq), len({str(canon(r)) for r, _ in sols}),
              "solutions as set members")


def misc(rng, obs, tier):
    n = rng.choice([0, 1, 5, 63, 64, 65, 128, 200])
    bits = P.DynamicBitset(n)
    for i in range(n):
        if rng.random() < 0.4:
            bits[i] = True
    ref = [bits[i] for i in range(len(bits))]
    for how in (lambda x: pickle.loads(pickle.dumps(x)), copy.copy,
                copy.deepcopy):
        b2 = how(bits)
        obs.equal([b2[i] for i in range(len(b2))], ref, "copied bit set")
        laws(obs, bits, b2, True, "DynamicBitset")
    if n:
        i = rng.randrange(n)
        b2 = pickle.loads(pickle.dumps(bits))
        b2[i] = not b2[i]
        laws(obs, bits, b2, False, "DynamicBitset")
        obs.equal([bits[i] for i in range(len(bits))], ref,
                  "bit set changed with its copy")
    pts = sorted({rng.randint(-50, 50) for _ in range(rng.randint(2, 6))})
    if len(pts) >= 2:
        bp = pts
        segs = [(rng.randint(-5, 5), rng.randint(-5, 5))
                for _ in range(len(bp) + 1)]
        f = P.PiecewiseLinearFunction(bp, segs)
        g = pickle.loads(pickle.dumps(f))
        obs.equal((list(g.breakpoints), [tuple(s) for s in g.segments]),
                  (list(f.breakpoints), [tuple(s) for s in f.segments]),
                  "pickled piecewise linear function")
        laws(obs, f, g, True, "PiecewiseLinearFunction")
        xs = [rng.randint(-60, 60) for _ in range(10)]
        obs.equal([g(x) for x in xs], [f(x) for x in xs],
                  "values of a pickled function")
        segs2 = list(segs)
        k = rng.randrange(len(segs2))
        segs2[k] = (segs2[k][0], segs2[k][1] + 1)
        laws(obs, f, P.PiecewiseLinearFunction(bp, segs2), False,
             "PiecewiseLinearFunction")
        bp2 = [*bp[:-1], bp[-1] + 1]
        laws(obs, f, P.PiecewiseLinearFunction(bp2, segs), False,
             "PiecewiseLinearFunction")
    # Parameter classes.
    a, b = rng.randint(0, 4), rng.randint(4, 9)
    laws(obs, S.PerturbationParams(a, b), S.PerturbationParams(a, b), True,
         "PerturbationParams")
    laws(obs, S.PerturbationParams(a, b), S.PerturbationParams(a, b + 1),
         False, "PerturbationParams")
    laws(obs, S.PerturbationParams(a, b), S.PerturbationParams(a + 1, b + 1),
         False, "PerturbationParams")
    kw = dict(weight_wait_time=rng.choice([0.0, 0.2]),
              num_neighbours=rng.randint(1, 20),
              symmetric_proximity=rng.random() < 0.5)
    laws(obs, S.NeighbourhoodParams(**kw), S.NeighbourhoodParams(**kw), True,
         "NeighbourhoodParams")
    for k in kw:
        kw2 = dict(kw)
        kw2[k] = (not kw2[k]) if isinstance(kw2[k], bool) else kw2[k] + 1
        laws(obs, S.NeighbourhoodParams(**kw), S.NeighbourhoodParams(**kw2),
             False, f"NeighbourhoodParams differing in {k}")
    ils = dict(num_iters_no_improvement=rng.randint(1, 9),
               history_length=rng.randint(1, 9),
               exhaustive_on_best=rng.random() < 0.5)
    pen = dict(solutions_between_updates=rng.randint(1, 9),
               penalty_increase=rng.uniform(1, 2),
               penalty_decrease=rng.uniform(0, 0.9),
               target_feasible=rng.uniform(0, 0.9),
               feas_tolerance=rng.uniform(0, 0.9),
               min_penalty=rng.uniform(0, 3),
               max_penalty=rng.uniform(5, 9))
    for cls, kw in ((P.IteratedLocalSearchParams, ils),
                    (P.PenaltyParams, pen)):
        laws(obs, cls(**kw), cls(**kw), True, cls.__name__)
        for k, v in kw.items():
            kw2 = {**kw, k: (not v) if isinstance(v, bool) else
                   v + 0.0625 if isinstance(v, float) else v + 1}
            laws(obs, cls(**kw), cls(**kw2), False,
                 f"{cls.__name__} differing in {k}")

    def part(k, n):
        return dict(ils=lambda: P.IteratedLocalSearchParams(n + 1),
                    penalty=lambda: P.PenaltyParams(n + 1),
                    neighbourhood=lambda: S.NeighbourhoodParams(
                        num_neighbours=n + 1),
                    operators=lambda: list(S.OPERATORS)[n % 3:],
                    display_interval=lambda: float(n),
                    perturbation=lambda: S.PerturbationParams(n, n + 2))[k]()

    n = rng.randint(0, 6)
    names = rng.sample(["ils", "penalty", "neighbourhood", "operators",
                        "display_interval", "perturbation"],
                       rng.randint(1, 6))
    one = P.SolveParams(**{k: part(k, n) for k in names})
    laws(obs, one, P.SolveParams(**{k: part(k, n) for k in names}), True,
         "SolveParams")
    for k in names:
        laws(obs, one, P.SolveParams(**{
            j: part(j, n + (j == k)) for j in names}), False,
            f"SolveParams differing in {k}")
    obs.count("misc")


def shared(rng, obs, tier):
    """One pickle with data, solutions and routes together, used further."""
    spec = gen.gen_spec(rng, min_visits=2, release_ok=True)
    data = gen.build(spec)
    routes = gen.gen_routes(rng, spec)
    sol = gen.make_solution(data, routes)
    data2, sol2, rs = pickle.loads(pickle.dumps((data, sol, sol.routes())))
    obs.equal(snap(sol2), snap(sol), "solution pickled along with its data")
    obs.check(P.Solution(data2, rs) == sol, "solution of unpickled routes")
    ce, pens = gen.gen_cost_evaluator(rng, spec["dims"])
    obs.equal(ce.penalised_cost(sol2), ce.penalised_cost(sol),
              "cost of an unpickled solution")
    seed = rng.getrandbits(31)
    outs = []
    for d, s in ((data, sol), (data2, sol2)):
        ls = S.LocalSearch(d, P.RandomNumberGenerator(seed),
                           S.compute_neighbours(d))
        ops = [op(d) for op in S.OPERATORS if op.supports(d)]
        for o in ops:
            ls.add_operator(o)
        outs.append(snap(ls(s, ce, exhaustive=True)))
    obs.equal(outs[0], outs[1], "search from an unpickled solution")
    obs.count("shared")


PARTS = [
    Part("entities", entities, 1500, 40000,
         need={"pickle_Client": 300, "pickle_ShipmentStep": 100,
               "differ_Client_group": 1, "differ_VehicleType_max_reloads": 50,
               "differ_VehicleType_start_late": 20,
               "differ_VehicleType_reload_depots": 20,
               "differ_VehicleType_initial_load": 1}),
    Part("activities", activities, 200, 4000,
         need={"pickle_Activity": 500}),
    Part("data", problem_data, 500, 15000,
         need={"pickle_ProblemData": 300, "differ_duration_matrices": 100,
               "differ_groups": 20, "differ_shipments": 50}),
    Part("solutions", solutions, 500, 15000,
         need={"pickle_Solution": 500, "pickle_Route": 500,
               "with_unplanned": 50, "equal_pairs": 500,
               "different_pairs": 500}),
    Part("misc", misc, 400, 8000, need={"misc": 100}),
    Part("shared", shared, 150, 5000, need={"shared": 50}),
]
