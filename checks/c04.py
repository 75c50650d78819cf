"""Exactly the well-formed routes and solutions can be constructed."""

from vlib import gen, oracle
from vlib.harness import Part
from vlib.lazy import P

PROPERTY = "C04"
VARIANT = "std"
RULE = ("an evaluation is one attempt to construct a route or solution from a "
        "mutated activity list, compared with the independent well-formedness "
        "predicate; distinct nontrivial counts distinct (mutation kinds, "
        "verdict, shape) combinations")
ASSUME = ["routes given to a solution were built from the same instance"]


def mutate(rng, spec, acts):
    acts = list(acts)
    kinds = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        k = rng.choice(["drop", "dup", "swap", "depot", "oob", "shuffle",
                        "move", "pair"])
        kinds.append(k)
        n = len(acts)
        if k == "drop" and n:
            acts.pop(rng.randrange(n))
        elif k == "dup" and n:
            acts.insert(rng.randint(0, n), rng.choice(acts))
        elif k == "swap" and n > 1:
            i, j = rng.sample(range(n), 2)
            acts[i], acts[j] = acts[j], acts[i]
        elif k == "depot":
            acts.insert(rng.randint(0, n),
                        f"D{rng.randint(0, len(spec['depots']))}")
        elif k == "oob":
            kind = rng.choice("CDLU")
            size = {"C": len(spec["clients"]), "D": len(spec["depots"])}.get(
                kind, len(spec["shipments"]))
            acts.insert(rng.randint(0, n), f"{kind}{size + rng.choice([0, 0, 1, 70, 10**6])}")
        elif k == "shuffle":
            rng.shuffle(acts)
        elif k == "move" and n > 1:
            a = acts.pop(rng.randrange(n))
            acts.insert(rng.randint(0, len(acts)), a)
        elif k == "pair" and spec["shipments"]:
            i = rng.randrange(len(spec["shipments"]))
            a = [f"L{i}", f"U{i}"]
            if rng.random() < 0.3:
                a.reverse()
            for x in a:
                acts.insert(rng.randint(0, len(acts)), x)
    return acts, kinds


def route(rng, obs, tier):
    spec = gen.gen_spec(rng, reload=rng.random() < 0.7, **gen.large(rng))
    data = gen.build(spec)
    for _ in range(6):
        vt = rng.randrange(len(spec["vehicle_types"]))
        cs = [i for i in range(len(spec["clients"])) if rng.random() < 0.5]
        ss = [i for i in range(len(spec["shipments"])) if rng.random() < 0.6]
        acts, kinds = mutate(rng, spec, gen.gen_route(rng, spec, vt, cs, ss))
        want = oracle.route_valid(spec, acts, vt)
        try:
            r = gen.make_route(data, acts, vt)
            got = True
        except ValueError:
            got = False
        obs.equal(got, want, "route accepted" if got else "route rejected",
                  lambda: f"{acts} vt={spec['vehicle_types'][vt]}")
        if got:
            obs.equal(([str(a) for a in r][1:-1], r.vehicle_type()),
                      (acts, vt), "route differs from its activities")
        obs.count("route_valid" if want else "route_invalid")
        obs.seen("route", tuple(sorted(kinds)), want, len(acts),
                 sum(a[0] == "D" for a in acts))
    n = len(spec["vehicle_types"])
    for vt in (n, n + rng.randint(1, 100), gen.MAX_SIZE):
        obs.raises((ValueError, IndexError),
                   lambda: gen.make_route(data, [], vt),
                   "unknown vehicle type accepted", vt)


def solution(rng, obs, tier):
    spec = gen.gen_spec(rng, **{"min_visits": 1, **gen.large(rng)})
    data = gen.build(spec)
    for _ in range(4):
        routes = gen.gen_routes(rng, spec, p_skip_req=rng.choice([0, .3]))
        kinds = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            k = rng.choice(["dup_route", "dup_visit", "empty", "vehicles",
                            "drop", "group", "reload_only"])
            kinds.append(k)
            if k == "dup_route" and routes:
                routes.insert(rng.randint(0, len(routes)),
                              rng.choice(routes))
            elif k == "dup_visit" and routes:
                acts, vt = rng.choice(routes)
                src = rng.choice(routes)[0]
                cs = [a for a in src if a[0] == "C"]
                ss = [a for a in src if a[0] == "L"]
                extra = []
                if cs and (not ss or rng.random() < 0.5):
                    extra = [rng.choice(cs)]
                elif ss:
                    i = rng.choice(ss)[1:]
                    extra = [f"L{i}", f"U{i}"]
                j = rng.randrange(len(routes))
                routes[j] = (routes[j][0] + extra, routes[j][1])
            elif k == "empty":
                routes.insert(rng.randint(0, len(routes)),
                              ([], rng.randrange(len(spec["vehicle_types"]))))
            elif k == "reload_only":
                vt = rng.randrange(len(spec["vehicle_types"]))
                v = spec["vehicle_types"][vt]
                if gen.max_trips(v) > 1:
                    routes.append(([f"D{v['reload_depots'][0]}"], vt))
            elif k == "vehicles" and routes:
                vt = rng.randrange(len(spec["vehicle_types"]))
                routes = [(a, vt) for a, _ in routes]
            elif k == "drop" and routes:
                routes.pop(rng.randrange(len(routes)))
            elif k == "group" and spec["groups"]:
                g = rng.choice(spec["groups"])
                c = rng.choice(g["clients"])
                if routes:
                    j = rng.randrange(len(routes))
                    routes[j] = (routes[j][0] + [f"C{c}"], routes[j][1])
                else:
                    routes.append(([f"C{c}"], 0))
        if not all(oracle.route_valid(spec, a, v) for a, v in routes):
            continue
        want = oracle.solution_valid(spec, routes)
        built = [gen.make_route(data, a, v) for a, v in routes]
        try:
            sol = P.Solution(data, built)
            got = True
        except RuntimeError:
            got = False
        obs.equal(got, want,
                  "solution accepted" if got else "solution rejected",
                  lambda: f"{routes} groups={spec['groups']}")
        if got:
            obs.equal([([str(a) for a in r][1:-1], r.vehicle_type())
                       for r in sol.routes()],
                      [(list(a), v) for a, v in routes],
                      "solution differs from its routes")
        obs.count("solution_valid" if want else "solution_invalid")
        obs.seen("solution", tuple(sorted(kinds)), want, len(routes))
        obs.sample((routes, want))


def activity(rng, obs, tier):
    """Descriptions of activities and their parts agree."""
    T = P.ActivityType
    kinds = {"C": T.CLIENT, "D": T.DEPOT, "L": T.PICKUP, "U": T.DELIVERY}
    for _ in range(10):
        k = rng.choice("CDLU")
        i = rng.choice([0, 1, rng.randint(0, 10**6), rng.randint(0, 2**40)])
        a, b = P.Activity(f"{k}{i}"), P.Activity(kinds[k], i)
        obs.check(a == b and hash(a) == hash(b), "activity parsing",
                  lambda: f"{k}{i}")
        obs.equal((str(a), a.type, a.idx), (f"{k}{i}", kinds[k], i),
                  "activity fields")
        obs.equal((a.is_client(), a.is_depot(), a.is_pickup(),
                   a.is_delivery(), a.is_shipment()),
                  (k == "C", k == "D", k == "L", k == "U", k in "LU"),
                  "activity predicates", lambda: f"{k}{i}")
        other = P.Activity(kinds[rng.choice("CDLU")], rng.choice([i, i + 1]))
        obs.equal(a == other, str(a) == str(other), "activity equality")
    bad = rng.choice(["", "X0", "C", "c0", "0", "Q12", "CC1"])
    obs.raises(ValueError, lambda: P.Activity(bad), "bad activity accepted",
               bad)
    obs.count("activities")


def foreign(rng, obs, tier):
    """Routes made for one instance are not silently taken by another."""
    a, b = (gen.gen_spec(rng, min_visits=1, max_types=4) for _ in range(2))
    da, db = gen.build(a), gen.build(b)
    routes = gen.gen_routes(rng, a)
    fits = all(
        vt < len(b["vehicle_types"])
        and all(int(x[1:]) < len(b["clients"]) if x[0] == "C" else
                int(x[1:]) < len(b["shipments"]) if x[0] in "LU" else True
                for x in acts) for acts, vt in routes)
    fits = fits and (not routes or da.num_load_dimensions
                     == db.num_load_dimensions)
    if fits:  # then it is up to the library to take or reject these
        obs.count("foreign_fits")
        return
    built = [gen.make_route(da, acts, vt) for acts, vt in routes]
    obs.raises((RuntimeError, ValueError, IndexError),
               lambda: P.Solution(db, built),
               "solution accepts routes of another instance",
               lambda: f"{routes}")
    obs.count("foreign")
    obs.seen("foreign", len(routes), len(b["clients"]), len(b["shipments"]))


PARTS = [
    Part("foreign", foreign, 1000, 20_000, {"foreign": 100}),
    Part("route", route, 7000, 100_000,
         {"route_valid": 300, "route_invalid": 300}),
    Part("solution", solution, 7000, 100_000,
         {"solution_valid": 300, "solution_invalid": 300}),
    Part("activity", activity, 400, 5000, {"activities": 20}),
]
