"""Fleet minimisation never returns an insufficient fleet."""

import functools
import itertools
import sys

from vlib import gen, oracle
from vlib.harness import Part, Skip
from vlib.lazy import P

PROPERTY = "C20"
VARIANT = "std"
RULE = ("an evaluation is one condition on a returned fleet; distinct "
        "nontrivial counts distinct (original size, smallest possible fleet, "
        "returned size, number of visits) of instances for which more than "
        "one fleet size was possible")
ASSUME = ["the smallest fleet is enumerated for instances of at most four "
          "visits; for larger ones a returned fleet is compared with the "
          "solutions that the solver found on the way"]

FIELDS = ("capacity", "start_depot", "end_depot", "fixed_cost", "tw_early",
          "tw_late", "shift_duration", "max_distance", "unit_distance_cost",
          "unit_duration_cost", "profile", "start_late", "initial_load",
          "reload_depots", "max_reloads", "max_overtime",
          "unit_overtime_cost", "name")


def smallest(spec):
    """Smallest number of vehicles that can do all visits, or None."""
    vt = spec["vehicle_types"][0]
    visits = [("C", i) for i in range(len(spec["clients"]))]
    visits += [("S", i) for i, s in enumerate(spec["shipments"])
               if s["required"]]
    reloads = sorted(set(vt["reload_depots"])) if gen.max_trips(vt) > 1 else []

    @functools.lru_cache(None)
    def doable(subset):
        steps = []
        for k, i in subset:
            steps += [f"C{i}"] if k == "C" else [f"L{i}", f"U{i}"]
        for order in itertools.permutations(steps):
            pos = {a: p for p, a in enumerate(order)}
            if any(a[0] == "U" and pos["L" + a[1:]] > pos[a] for a in order):
                continue
            gaps = [[None] + reloads for _ in range(len(order) + 1)]
            for choice in itertools.product(*gaps):
                if sum(c is not None for c in choice) + 1 > gen.max_trips(vt):
                    continue
                acts = []
                for dep, a in zip(choice, [*order, None]):
                    if dep is not None:
                        acts.append(f"D{dep}")
                    if a is not None:
                        acts.append(a)
                if not oracle.route_valid(spec, acts, 0):
                    continue
                if oracle.Execution(spec, acts, 0).stats()["is_feasible"]:
                    return True
        return False

    if not visits:
        return 0

    best = None

    def split(rest, used):
        nonlocal best
        if best is not None and used >= best:
            return
        if not rest:
            best = used
            return
        head, tail = rest[0], rest[1:]
        for k in range(len(tail) + 1):
            for mates in itertools.combinations(tail, k):
                if doable((head, *mates)):
                    split([v for v in tail if v not in mates], used + 1)

    split(visits, 0)
    return best


class Watch:
    """Records what each solve on the way found."""

    def __init__(self):
        self.found = []
        self.mod = sys.modules.get("pyvrp.minimise_fleet")
        self.real = getattr(self.mod, "solve", None)

    def __enter__(self):
        if self.real is not None:
            def solve(data, *args, **kwargs):
                res = self.real(data, *args, **kwargs)
                self.found.append((data.num_vehicles, res.best.num_routes(),
                                   res.best.is_feasible()))
                return res

            self.mod.solve = solve
        return self

    def __exit__(self, *exc):
        if self.real is not None:
            self.mod.solve = self.real


@functools.lru_cache(None)
def hooked():
    """Whether solves on the way can be watched."""
    data = P.ProblemData(
        locations=[P.Location(0, 0)], clients=[P.Client(0)],
        depots=[P.Depot(0)], vehicle_types=[P.VehicleType(3)],
        distance_matrices=[[[0]]], duration_matrices=[[[0]]])
    with Watch() as watch:
        P.minimise_fleet(data, P.MaxIterations(1))
    return bool(watch.found)


def run(rng, spec, obs, data, stop, seed):
    pristine = gen.build(spec)
    with Watch() as watch:
        out = P.minimise_fleet(data, stop, seed)
    obs.check(data == pristine, "the instance was changed")
    old = data.vehicle_type(0)
    for f in FIELDS:
        obs.equal(getattr(out, f), getattr(old, f),
                  f"fleet minimisation changed {f}")
    n, orig = out.num_available, old.num_available
    obs.check(1 <= n <= orig, "fleet size out of range", (n, orig))
    obs.count("fleets")
    if n < orig:
        obs.count("reduced")
        if watch.found:
            obs.check(any(ok and routes <= n for _, routes, ok in watch.found),
                      "no feasible solution with the returned fleet was "
                      "found", lambda: (n, orig, watch.found))
    obs.count("solves", len(watch.found))
    return n, watch.found


def mkstop(rng):
    u = rng.random()
    if u < 0.6:
        return P.MaxIterations(rng.choice([0, 1, 2, 5, 20, 60]))
    if u < 0.8:
        return P.NoImprovement(rng.choice([1, 2, 5, 20]))
    return P.MultipleCriteria([P.MaxIterations(rng.choice([3, 10, 40])),
                               P.NoImprovement(rng.choice([2, 5]))])


def small(rng, obs, tier):
    spec = gen.gen_spec(rng, max_clients=4, max_shipments=2, max_types=1,
                        max_depots=2, min_visits=2, groups=False,
                        optional=False, load_scale=1, negative=False,
                        shipments=rng.random() < 0.3,
                        tight=rng.random() < 0.7, release_ok=True)
    vt = spec["vehicle_types"][0]
    for c in spec["clients"]:
        c["required"] = True
    if len(spec["clients"]) + len(spec["shipments"]) > 4:
        raise Skip
    vt["reload_depots"] = vt["reload_depots"][:1]  # keeps enumeration short
    if rng.random() < 0.7:  # only loads and distances bind
        vt.update(shift_duration=gen.INF, tw_early=0, tw_late=gen.INF,
                  start_late=None)
        for d in spec["depots"]:
            d.update(tw_early=0, tw_late=gen.INF)
        for c in spec["clients"]:
            c.update(tw_early=0, tw_late=gen.INF)
        for s in spec["shipments"]:
            s.update(pickup_tw_early=0, pickup_tw_late=gen.INF,
                     delivery_tw_early=0, delivery_tw_late=gen.INF)
        if rng.random() < 0.7:
            vt["max_distance"] = gen.INF
    if rng.random() < 0.6:  # capacity that suffices for a single visit
        for d in range(spec["dims"]):
            dem = [c["delivery"][d] for c in spec["clients"]]
            dem += [c["pickup"][d] for c in spec["clients"]]
            dem += [s["amount"][d] for s in spec["shipments"]]
            hi = max(dem, default=0)
            vt["capacity"][d] = hi + rng.choice([0, rng.randint(0, 12)])
            vt["initial_load"][d] = min(vt["initial_load"][d],
                                        vt["capacity"][d])
    vt["num_available"] = rng.choice([1, 2, 3, 4, 4, 5, 8])
    data = gen.build(spec)
    seed = rng.choice([0, 1, rng.getrandbits(31)])
    state = rng.getstate()
    n, found = run(rng, spec, obs, data, mkstop(rng), seed)
    low = smallest(spec)
    orig = vt["num_available"]
    what = lambda: f"{n=} {orig=} {low=} {found} {spec}"  # noqa: E731
    if n < orig:
        obs.check(low is not None and low <= n,
                  "the returned fleet cannot do all visits", what)
        obs.count("enumerated")
    if low is not None and low < n and n > 1 and hooked():
        obs.check(any(v == n - 1 for v, _, _ in found),
                  "a smaller fleet that suffices was not tried", what)
        obs.count("tried")
    if low is None or low > orig:
        obs.equal(n, orig, "fleet of an infeasible instance", what)
        obs.count("infeasible_instances")
    if low is not None and max(low, 1) < orig:
        obs.seen(orig, low, n, len(spec["clients"]), len(spec["shipments"]))
        if n == max(low, 1):
            obs.count("smallest_reached")
        obs.sample(f"{orig} vehicles given, {n} returned, {low} needed; "
                   f"solves (vehicles, routes, feasible): {found}")
    if rng.random() < 0.2:
        rng.setstate(state)
        m, _ = run(rng, spec, obs, data, mkstop(rng), seed)
        obs.equal(m, n, "same seed, different fleet", what)


def larger(rng, obs, tier):
    spec = gen.gen_spec(rng, max_clients=14, max_shipments=4, max_types=1,
                        min_visits=3, groups=False, optional=False,
                        load_scale=1, negative=False, release_ok=True)
    vt = spec["vehicle_types"][0]
    for c in spec["clients"]:
        c["required"] = True
    vt["num_available"] = rng.choice([2, 4, 8, 12, 20])
    free = rng.random() < 0.4
    if free:  # nothing binds, so one vehicle suffices and is easily found
        for d in range(spec["dims"]):
            vt["capacity"][d] = 10**9
        vt.update(shift_duration=gen.INF, max_distance=gen.INF, tw_early=0,
                  tw_late=gen.INF, start_late=None)
        for d in spec["depots"]:
            d.update(tw_early=0, tw_late=gen.INF)
        for c in spec["clients"]:
            c.update(tw_early=0, tw_late=gen.INF)
        for s in spec["shipments"]:
            s.update(pickup_tw_early=0, pickup_tw_late=gen.INF,
                     delivery_tw_early=0, delivery_tw_late=gen.INF)
    data = gen.build(spec)
    stop = P.MaxIterations(100) if free else mkstop(rng)
    n, found = run(rng, spec, obs, data, stop, rng.getrandbits(31))
    if free:
        obs.equal(n, 1, "one vehicle suffices", lambda: f"{found} {spec}")
        obs.count("free_instances")
    obs.seen("l", vt["num_available"], n, len(spec["clients"]))


def unsupported(rng, obs, tier):
    spec = gen.gen_spec(rng, max_clients=6, max_types=3, min_visits=1,
                        clients=True)
    multi = len(spec["vehicle_types"]) > 1
    opt = any(not c["required"] for c in spec["clients"])
    data = gen.build(spec)
    if not multi and not opt:
        raise Skip
    obs.raises(ValueError,
               lambda: P.minimise_fleet(data, P.MaxIterations(1)),
               "unsupported instance accepted", lambda: (multi, opt))
    obs.count("unsupported")
    obs.count("unsupported_types" if multi else "unsupported_optional")


PARTS = [
    Part("small", small, 4000, 60_000, {"fleets": 800, "reduced": 150,
                                        "enumerated": 400,
                                        "infeasible_instances": 20}),
    Part("larger", larger, 400, 4000, {"fleets": 100, "reduced": 30}),
    Part("unsupported", unsupported, 400, 4000,
         {"unsupported_types": 50, "unsupported_optional": 20}),
]
