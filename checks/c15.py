"""A model's data contains exactly what was added to it."""

import copy
import warnings

from checks.c10 import snap
from checks.c11 import echo, spec_ok
from vlib import gen
from vlib.harness import Part, Skip
from vlib.lazy import P

PROPERTY = "C15"
VARIANT = "std"
RULE = ("an evaluation is one call's outcome or one field of the resulting "
        "data compared with a shadow model; distinct nontrivial counts "
        "distinct (call kind, outcome) bigrams")
ASSUME = ["distances and durations of data converted to a model are not "
          "negative (models do not accept such edges)"]

INF = gen.INF
LOC, KEYS = ("locations", ("clients", "depots", "groups", "shipments",
                           "vehicle_types"))


class Shadow:
    """Plain lists of what was added, with edges per profile."""

    def __init__(self):
        self.spec = dict(locations=[], clients=[], depots=[], groups=[],
                         shipments=[], vehicle_types=[])
        self.base = {}  # (i, j) -> (distance, duration)
        self.prof = []  # a dictionary like base per profile

    def data_spec(self, missing):
        from pyvrp.constants import MAX_VALUE

        fill = min(missing, MAX_VALUE)
        n = len(self.spec["locations"])
        s = copy.deepcopy(self.spec)
        s["dist"], s["dur"] = [], []
        for edges in self.prof or [{}]:
            for k, key in enumerate(("dist", "dur")):
                m = [[0 if i == j else fill for j in range(n)]
                     for i in range(n)]
                for layer in (self.base, edges):
                    for (i, j), val in layer.items():
                        m[i][j] = val[k]
                s[key].append(m)
        return s


def scalar(rng, v):
    """A list of one value may be given as that value."""
    if len(v) == 1 and rng.random() < 0.6:
        return v[0]
    return list(v)


def calls(rng, obs, tier):
    target = gen.gen_spec(rng, **{"max_clients": 7, "max_shipments": 3,
                                  **gen.large(rng, 0.005)})
    model, sh = P.Model(), Shadow()
    locs, depots, groups, profs = [], [], [], []
    others = P.Model()
    o_loc = others.add_location(0, 0)
    o_dep = others.add_depot(o_loc)
    o_grp = others.add_client_group()
    o_prof = others.add_profile()
    todo = {k: list(range(len(target[k]))) for k in
            ("locations", *KEYS)}
    n_prof = rng.choice([0, 1, len(target["dist"])])
    todo["profiles"] = list(range(n_prof))
    last = "start"
    kept = []  # earlier data objects, with their snapshots
    missing = rng.choice([None, 0, 5, 1000, 1 << 44, 1 << 50])

    def pick(objs):
        i = rng.randrange(len(objs))
        return i, objs[i]

    def step(kind):
        s = sh.spec
        if kind == "locations":
            kw = target["locations"][todo[kind].pop(0)]
            if rng.random() < 0.3 and s["locations"]:
                kw = rng.choice(s["locations"])  # equal, but another one
            locs.append(model.add_location(kw["x"], kw["y"],
                                           name=kw["name"]))
            s["locations"].append(dict(kw))
        elif kind == "profiles":
            todo[kind].pop(0)
            profs.append(model.add_profile(name=rng.choice(["", "p"])))
            sh.prof.append({})
        elif kind == "groups":
            kw = target["groups"][todo[kind].pop(0)]
            groups.append(model.add_client_group(required=kw["required"],
                                                 name=kw["name"]))
            s["groups"].append(dict(kw, clients=[]))
        elif kind == "depots":
            kw = dict(target["depots"][todo[kind].pop(0)])
            if rng.random() < 0.3 and s["depots"]:
                kw = dict(rng.choice(s["depots"]))
            kw["location"], loc = pick(locs)
            depots.append(model.add_depot(loc, **{
                k: v for k, v in kw.items() if k != "location"}))
            s["depots"].append(kw)
        elif kind == "clients":
            kw = dict(target["clients"][todo[kind].pop(0)])
            kw["location"], loc = pick(locs)
            kw["group"], grp = None, None
            if groups and rng.random() < 0.5:
                kw["group"], grp = pick(groups)
                kw["required"] = False
            args = {k: v for k, v in kw.items() if k != "location"}
            args.update(group=grp, delivery=scalar(rng, kw["delivery"]),
                        pickup=scalar(rng, kw["pickup"]))
            model.add_client(loc, **args)
            if grp is not None:
                s["groups"][kw["group"]]["clients"].append(len(s["clients"]))
            s["clients"].append(kw)
        elif kind == "shipments":
            kw = dict(target["shipments"][todo[kind].pop(0)])
            kw["pickup_location"], a = pick(locs)
            kw["delivery_location"], b = pick(locs)
            args = dict(kw, pickup_location=a, delivery_location=b,
                        amount=scalar(rng, kw["amount"]))
            model.add_shipment(**args)
            s["shipments"].append(kw)
        elif kind == "vehicle_types":
            kw = dict(target["vehicle_types"][todo[kind].pop(0)])
            kw["start_depot"], a = pick(depots)
            kw["end_depot"], b = pick(depots)
            args = dict(kw, start_depot=a, end_depot=b)
            if kw["start_depot"] == 0 and rng.random() < 0.5:
                args["start_depot"] = None
            if kw["end_depot"] == 0 and rng.random() < 0.5:
                args["end_depot"] = None
            kw["profile"], args["profile"] = 0, None
            if profs:
                kw["profile"], p = pick(profs)
                if kw["profile"] or rng.random() < 0.5:
                    args["profile"] = p
            picks = [pick(depots) for _ in kw["reload_depots"]]
            kw["reload_depots"] = [i for i, _ in picks]
            args["reload_depots"] = [d for _, d in picks]
            args["capacity"] = scalar(rng, kw["capacity"])
            args["initial_load"] = scalar(rng, kw["initial_load"])
            model.add_vehicle_type(**args)
            s["vehicle_types"].append(kw)
        elif kind == "edge":
            (i, a), (j, b) = pick(locs), pick(locs)
            d, t = rng.choice([0, rng.randint(0, 99), 1 << 44]), \
                rng.randint(0, 99)
            if i == j:
                if rng.random() < 0.5:
                    obs.raises(ValueError, lambda: model.add_edge(a, b, d + 1,
                                                                  t),
                               "self loop with a distance")
                    return "rejected"
                d = t = 0
            if rng.random() < 0.3:
                t = 0
                args = (a, b, d)
            else:
                args = (a, b, d, t)
            if profs and rng.random() < 0.5:
                k, p = pick(profs)
                e = (model.add_edge(*args, profile=p) if rng.random() < 0.5
                     else p.add_edge(*args))
                sh.prof[k][i, j] = (d, t)
            else:
                e = model.add_edge(*args)
                sh.base[i, j] = (d, t)
            obs.check(e.frm is a and e.to is b and (e.distance, e.duration)
                      == (d, t), "returned edge")
        return "ok"

    def bad():
        """A call that must fail, and must leave no trace."""
        k = rng.choice(["client_loc", "client_group", "client_req", "depot",
                        "ship_p", "ship_d", "start", "end", "prof", "reload",
                        "edge", "edge_dur", "client_tw", "vt_num",
                        "ship_tw", "depot_tw"])
        loc = locs[0] if locs else o_loc
        grp = groups[0] if groups else o_grp
        fs = dict(
            client_loc=lambda: model.add_client(
                o_loc, group=grp, required=False),
            client_group=lambda: model.add_client(loc, group=o_grp,
                                                  required=False),
            client_req=lambda: model.add_client(loc, group=grp,
                                                required=True),
            client_tw=lambda: model.add_client(
                loc, tw_early=5, tw_late=2, group=grp, required=False),
            depot=lambda: model.add_depot(o_loc),
            depot_tw=lambda: model.add_depot(loc, tw_early=5, tw_late=2),
            ship_p=lambda: model.add_shipment(o_loc, loc),
            ship_d=lambda: model.add_shipment(loc, o_loc),
            ship_tw=lambda: model.add_shipment(loc, loc, pickup_tw_early=5,
                                               pickup_tw_late=2),
            start=lambda: model.add_vehicle_type(start_depot=o_dep),
            end=lambda: model.add_vehicle_type(end_depot=o_dep),
            prof=lambda: model.add_vehicle_type(profile=o_prof),
            reload=lambda: model.add_vehicle_type(
                reload_depots=[*depots, o_dep]),
            vt_num=lambda: model.add_vehicle_type(num_available=0),
            edge=lambda: model.add_edge(loc, loc, -1, 1),
            edge_dur=lambda: model.add_edge(loc, o_loc, 1, -1))
        obs.raises(ValueError, fs[k], f"invalid call was accepted ({k})")
        obs.count("bad_calls")
        return k

    order = []
    while any(todo.values()):
        kinds = []
        for k, left in todo.items():
            if not left:
                continue
            if k in ("depots", "clients", "shipments") and not locs:
                continue
            if k == "vehicle_types" and not depots:
                continue
            kinds.append(k)
        u = rng.random()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if u < 0.12:
                kind = bad()
            elif u < 0.4 and locs:
                kind = "edge"
                step("edge")
            elif u < 0.45 and sh.spec["vehicle_types"]:
                kind = "data"
                take(obs, rng, model, sh, kept, missing)
            else:
                kind = rng.choice(kinds)
                step(kind)
        obs.seen(last, kind)
        last = kind
        order.append(kind)
    for _ in range(rng.randint(0, 12)):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            step("edge")
    # The views list the added objects themselves, in order.
    obs.check(len(model.locations) == len(locs)
              and all(a is b for a, b in zip(model.locations, locs))
              and len(model.depots) == len(depots)
              and all(a is b for a, b in zip(model.depots, depots))
              and len(model.groups) == len(groups)
              and all(a is b for a, b in zip(model.groups, groups))
              and len(model.profiles) == len(profs)
              and len(model.clients) == len(sh.spec["clients"])
              and len(model.shipments) == len(sh.spec["shipments"])
              and len(model.vehicle_types) == len(sh.spec["vehicle_types"]),
              "model's lists", lambda: order)
    take(obs, rng, model, sh, kept, missing)
    for data, ref in kept:
        obs.equal(snap(data), ref, "earlier data changed with the model")
    obs.count("histories")


def take(obs, rng, model, sh, kept, missing):
    """model.data() against the shadow."""
    missing = missing if missing is not None else 1 << 44
    spec = sh.data_spec(missing)
    want = spec_ok(spec)
    try:
        data = (model.data() if missing == 1 << 44
                else model.data(missing_value=missing))
    except (ValueError, IndexError):
        obs.check(not want, "valid model was rejected", lambda: spec)
        obs.count("data_rejected")
        return
    obs.check(want, "invalid model was accepted", lambda: spec)
    echo(obs, spec, data, rng)
    obs.count("data_accepted")
    kept.append((data, snap(data)))


def roundtrip(rng, obs, tier):
    """Data to model and back; then extended."""
    spec = gen.gen_spec(rng, **{"min_visits": 1, **gen.large(rng)})
    data = gen.build(spec)
    ref = snap(data)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model = P.Model.from_data(data)
        again = model.data()
        obs.check(again == data, "model of data gives other data",
                  lambda: spec)
        obs.equal(snap(again), ref, "model of data gives other data",
                  lambda: spec)
        # Extend it, and compare with extending the data.
        i, j = (rng.randrange(len(spec["locations"])) for _ in range(2))
        new = copy.deepcopy(spec)
        for k in ("dist", "dur"):
            new[k] = [[list(r) for r in m] for m in new[k]]
        if i != j:
            p = rng.randrange(data.num_profiles)
            model.add_edge(model.locations[i], model.locations[j], 7, 8,
                           profile=model.profiles[p])
            new["dist"][p][i][j], new["dur"][p][i][j] = 7, 8
        if spec["groups"]:
            g = rng.randrange(len(spec["groups"]))
            kw = dict(copy.deepcopy(spec["clients"][0]), location=i,
                      group=g, required=False)
            model.add_client(model.locations[i], **dict(
                {k: v for k, v in kw.items() if k != "location"},
                group=model.groups[g]))
            new["groups"][g]["clients"].append(len(new["clients"]))
            new["clients"].append(kw)
        got = model.data()
    echo(obs, new, got, rng)
    obs.equal(snap(data), ref, "extending a model changed the data")
    obs.count("roundtrips")
    obs.seen("roundtrip", str(spec["features"]))


def solving(rng, obs, tier):
    """Model.solve() is solve() on its data."""
    spec = gen.gen_spec(rng, min_visits=2, max_clients=6, release_ok=True)
    data = gen.build(spec)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        model = P.Model.from_data(data)
        seed, n = rng.randint(0, 99), rng.choice([1, 5, 10])
        init = None
        if rng.random() < 0.5:
            init = gen.make_solution(data, gen.gen_routes(rng, spec))
        a = model.solve(P.MaxIterations(n), seed=seed, display=False,
                        collect_stats=rng.random() < 0.5,
                        initial_solution=init)
        b = P.solve(data, P.MaxIterations(n), seed=seed, display=False,
                    initial_solution=init)
    obs.equal((snap(a.best), a.num_iterations), (snap(b.best),
                                                 b.num_iterations),
              "solving a model differs from solving its data")
    obs.count("solves")


PARTS = [
    Part("calls", calls, 2500, 60000,
         need={"histories": 1000, "bad_calls": 500, "data_accepted": 500,
               "data_rejected": 100}),
    Part("roundtrip", roundtrip, 400, 10000, need={"roundtrips": 150}),
    Part("solving", solving, 60, 2000, need={"solves": 30}),
]
