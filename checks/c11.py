"""Problem data: validated, echoed back, immutable, replaced by field."""

import copy

from checks.c10 import snap
from vlib import gen
from vlib.harness import Part, Skip
from vlib.lazy import P

PROPERTY = "C11"
VARIANT = "std"
RULE = ("an evaluation is one accept/reject decision, reported field, "
        "mutation attempt or replaced field; distinct nontrivial counts "
        "distinct (class, mutated fields, decision) combinations")
ASSUME = ["integer fields are given values that fit 64 bits",
          "fixed vehicle costs and matrix entries are unconstrained"]

INF = gen.INF
MAX_SIZE = gen.MAX_SIZE
ERRORS = (ValueError, IndexError, TypeError, OverflowError)


def size_ok(v):
    return 0 <= v <= MAX_SIZE


def pad(a, b):
    n = max(len(a), len(b))
    return list(a) + [0] * (n - len(a)), list(b) + [0] * (n - len(b))


def client_ok(k):
    return (size_ok(k["location"]) and min(k["delivery"] + [0]) >= 0
            and min(k["pickup"] + [0]) >= 0 and k["service_duration"] >= 0
            and 0 <= k["tw_early"] <= k["tw_late"]
            and 0 <= k["release_time"] <= k["tw_late"] and k["prize"] >= 0
            and (k["group"] is None or size_ok(k["group"])))


def depot_ok(k):
    return (size_ok(k["location"]) and k["service_duration"] >= 0
            and 0 <= k["tw_early"] <= k["tw_late"])


def shipment_ok(k):
    for s in ("pickup", "delivery"):
        if not (size_ok(k[f"{s}_location"])
                and k[f"{s}_service_duration"] >= 0
                and 0 <= k[f"{s}_tw_early"] <= k[f"{s}_tw_late"]):
            return False
    return (k["delivery_tw_late"] >= k["pickup_tw_early"]
            and min(k["amount"] + [0]) >= 0 and k["prize"] >= 0)


def vehicle_ok(k):
    cap, init = pad(k["capacity"], k["initial_load"])
    late = k["tw_late"] if k["start_late"] is None else k["start_late"]
    return (0 < k["num_available"] <= MAX_SIZE and min(cap + [0]) >= 0
            and size_ok(k["start_depot"]) and size_ok(k["end_depot"])
            and size_ok(k["profile"]) and size_ok(k["max_reloads"])
            and 0 <= k["tw_early"] <= late <= k["tw_late"]
            and k["shift_duration"] >= 0 and k["max_distance"] >= 0
            and k["unit_distance_cost"] >= 0 and k["unit_duration_cost"] >= 0
            and k["unit_overtime_cost"] >= 0 and k["max_overtime"] >= 0
            and all(0 <= i <= c for i, c in zip(init, cap))
            and all(size_ok(d) for d in k["reload_depots"]))


def group_ok(k):
    return (len(set(k["clients"])) == len(k["clients"])
            and all(size_ok(c) for c in k["clients"]))


CLASSES = {
    "Client": ("clients", client_ok), "Depot": ("depots", depot_ok),
    "Shipment": ("shipments", shipment_ok),
    "VehicleType": ("vehicle_types", vehicle_ok),
    "ClientGroup": ("groups", group_ok),
}


def overlap(a, b):
    return a["tw_early"] <= b["tw_late"] and b["tw_early"] <= a["tw_late"]


def dims_of(spec):
    if spec["vehicle_types"]:
        k = spec["vehicle_types"][0]
        return len(pad(k["capacity"], k["initial_load"])[0])
    return None


def spec_ok(spec):
    n_loc, n_dep = len(spec["locations"]), len(spec["depots"])
    n_cli, n_grp = len(spec["clients"]), len(spec["groups"])
    if not n_dep or not spec["vehicle_types"]:
        return False
    dims = dims_of(spec)
    for i, c in enumerate(spec["clients"]):
        if c["location"] >= n_loc:
            return False
        if len(pad(c["delivery"], c["pickup"])[0]) != dims:
            return False
        if c["group"] is not None:
            if c["group"] >= n_grp or c["required"]:
                return False
            if i not in spec["groups"][c["group"]]["clients"]:
                return False
    if any(d["location"] >= n_loc for d in spec["depots"]):
        return False
    for g, grp in enumerate(spec["groups"]):
        if not grp["clients"]:
            return False
        if any(c >= n_cli or spec["clients"][c]["group"] != g
               for c in grp["clients"]):
            return False
    for s in spec["shipments"]:
        if (s["pickup_location"] >= n_loc or s["delivery_location"] >= n_loc
                or len(s["amount"]) != dims):
            return False
    for v in spec["vehicle_types"]:
        if len(pad(v["capacity"], v["initial_load"])[0]) != dims:
            return False
        if v["start_depot"] >= n_dep or v["end_depot"] >= n_dep:
            return False
        if v["profile"] >= len(spec["dist"]):
            return False
        if not (overlap(v, spec["depots"][v["start_depot"]])
                and overlap(v, spec["depots"][v["end_depot"]])):
            return False
        if any(d >= n_dep for d in v["reload_depots"]):
            return False
    if not spec["dist"] or len(spec["dist"]) != len(spec["dur"]):
        return False
    for m in spec["dist"] + spec["dur"]:
        if len(m) != n_loc or any(len(r) != n_loc for r in m):
            return False
        if any(m[i][i] for i in range(n_loc)):
            return False
    return True


def poke(rng, v, key):
    """Another value for a field, close to the limits of validity."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, str):
        return rng.choice(["", "q", "ß" * 3])
    if isinstance(v, list):
        if not v:
            return [rng.choice([0, 1, -1])]
        w = list(v)
        u = rng.random()
        if u < 0.5:
            i = rng.randrange(len(w))
            w[i] = rng.choice([-1, 0, 1, w[i] + 1, w[i] - 1, INF])
        elif u < 0.75:
            w.append(rng.choice([0, 1, -1, w[-1]]))
        else:
            w.pop()
        return w
    if v is None:
        return rng.choice([0, 1, 50])
    return rng.choice([-1, 0, 1, v - 1, v + 1 if v < INF else v, INF,
                       rng.randint(0, 200)])


def reported(obs, cls, kw, x):
    """The object reports what it was given."""
    want = dict(kw)
    if cls == "Client":
        want["delivery"], want["pickup"] = pad(kw["delivery"], kw["pickup"])
    if cls == "VehicleType":
        want["capacity"], want["initial_load"] = pad(kw["capacity"],
                                                     kw["initial_load"])
        if kw["start_late"] is None:
            want["start_late"] = kw["tw_late"]
        want["max_duration"] = min(kw["shift_duration"] + kw["max_overtime"],
                                   INF)
        want["max_trips"] = gen.max_trips(kw)
    for f, v in want.items():
        if cls == "Shipment" and f.split("_")[0] in ("pickup", "delivery"):
            which, attr = f.split("_", 1)
            got = getattr(getattr(x, which), attr)
        else:
            got = getattr(x, f)
        if isinstance(got, list):
            got = list(got)
        obs.equal(got, v, f"{cls}.{f} as given", lambda: kw)
    if cls == "ClientGroup":
        obs.equal((list(x), len(x), x.mutually_exclusive),
                  (kw["clients"], len(kw["clients"]), True),
                  "ClientGroup's clients")


def entities(rng, obs, tier):
    """Accept exactly what is valid; report back what was given."""
    spec = gen.gen_spec(rng, min_visits=2)
    for cls, (key, ok) in CLASSES.items():
        if not spec[key]:
            continue
        for _ in range(6):
            kw = copy.deepcopy(rng.choice(spec[key]))
            fields = rng.sample(list(kw), rng.choice([0, 1, 1, 1, 2, 3]))
            for f in fields:
                kw[f] = poke(rng, kw[f], f)
            if cls == "VehicleType" and kw["fixed_cost"] < 0:
                kw["fixed_cost"] = 0
            want = ok(kw)
            try:
                x = getattr(P, cls)(**kw)
            except ERRORS as exc:
                obs.check(not want, f"valid {cls} was rejected",
                          lambda: f"{type(exc).__name__}: {exc}: {kw}")
                obs.count(f"rejected_{cls}")
            else:
                obs.check(want, f"invalid {cls} was accepted", lambda: kw)
                obs.count(f"accepted_{cls}")
                reported(obs, cls, kw, x)
            obs.seen(cls, sorted(fields), want)
            if not want and fields:
                obs.sample(f"{cls} rejected with {fields}: {kw}")
    # Numeric types other than int, when they are whole numbers.
    import numpy as np

    if spec["clients"]:
        kw = dict(rng.choice(spec["clients"]))
        kw2 = {k: (np.int64(v) if isinstance(v, int)
                   and not isinstance(v, bool) else v)
               for k, v in kw.items()}
        kw2["delivery"] = np.array(kw["delivery"], dtype=np.int64)
        obs.check(P.Client(**kw) == P.Client(**kw2),
                  "client of numpy integers differs", lambda: kw)


def unalias(spec):
    """Gives distances and durations lists of their own."""
    for k in ("dist", "dur"):
        spec[k] = [[list(r) for r in m] for m in spec[k]]
    return spec


def corrupt(rng, spec):
    """One structural mutation; returns what it did."""
    try:
        return corrupt_some(rng, spec)
    except (IndexError, ValueError):  # nothing left to mutate that way
        return "none"


def corrupt_some(rng, spec):
    s = spec
    n_loc, n_dep = len(s["locations"]), len(s["depots"])
    moves = ["none", "no_depots", "no_types", "no_mats", "mats_differ",
             "diag", "shape", "loc_client", "loc_depot", "dims_client",
             "dims_vehicle", "start_depot", "end_depot", "profile", "reload",
             "overlap", "group_idx", "group_member", "group_empty",
             "required_in_group", "group_extra", "loc_shipment",
             "dims_shipment", "drop_location", "add_location", "group_other"]
    what = rng.choice(moves)
    if what == "no_depots":
        s["depots"] = []
    elif what == "no_types":
        s["vehicle_types"] = []
    elif what == "no_mats":
        if rng.random() < 0.5:
            s["dist"] = []
        else:
            s["dur"] = []
        if rng.random() < 0.3:
            s["dist"] = s["dur"] = []
    elif what == "mats_differ":
        k = rng.choice(["dist", "dur"])
        s[k] = s[k] + [[list(r) for r in s[k][0]]]
    elif what == "diag" and n_loc:
        m = rng.choice(s["dist"] + s["dur"])
        i = rng.randrange(n_loc)
        m[i][i] = rng.choice([1, -1, 5])
    elif what == "shape" and n_loc:
        k = rng.choice(["dist", "dur"])
        i = rng.randrange(len(s[k]))
        m = s[k][i]
        u = rng.random()
        if u < 0.3:
            s[k][i] = [r + [1] for r in m] + [[1] * n_loc + [0]]
        elif u < 0.6:
            s[k][i] = [r[:-1] for r in m[:-1]]
        elif u < 0.8:
            s[k][i] = [r + [1] for r in m]
        else:
            s[k][i] = m + [[1] * n_loc]
    elif what == "loc_client" and s["clients"]:
        rng.choice(s["clients"])["location"] = n_loc + rng.choice([0, 1, 99])
    elif what == "loc_depot":
        rng.choice(s["depots"])["location"] = n_loc + rng.choice([0, 1, 99])
    elif what == "loc_shipment" and s["shipments"]:
        k = rng.choice(["pickup_location", "delivery_location"])
        rng.choice(s["shipments"])[k] = n_loc + rng.choice([0, 1, 99])
    elif what == "dims_client" and s["clients"]:
        c = rng.choice(s["clients"])
        c["delivery"] = poke(rng, c["delivery"] + [0], "")
        c["delivery"] = [abs(x) for x in c["delivery"]]
    elif what == "dims_shipment" and s["shipments"]:
        c = rng.choice(s["shipments"])
        c["amount"] = rng.choice([c["amount"] + [0], c["amount"][:-1]])
    elif what == "dims_vehicle":
        v = rng.choice(s["vehicle_types"])
        v["capacity"] = v["capacity"] + [3]
    elif what in ("start_depot", "end_depot"):
        rng.choice(s["vehicle_types"])[what] = n_dep + rng.choice([0, 1, 99])
    elif what == "profile":
        rng.choice(s["vehicle_types"])["profile"] = len(s["dist"]) + \
            rng.choice([0, 1, 99])
    elif what == "reload":
        rng.choice(s["vehicle_types"])["reload_depots"].append(
            n_dep + rng.choice([0, 1, -1, 99]))
    elif what == "overlap":
        v = rng.choice(s["vehicle_types"])
        d = s["depots"][v[rng.choice(["start_depot", "end_depot"])]]
        a, b = rng.randint(0, 50), rng.randint(0, 50)
        v.update(tw_early=a, tw_late=a + b, start_late=None)
        c = max(0, rng.choice([a + b, a + b + 1, a - 1, a]))
        if c >= a:
            d.update(tw_early=c, tw_late=c + 10)
        else:
            d.update(tw_early=0, tw_late=c)
    elif what == "group_idx" and s["clients"]:
        c = rng.choice(s["clients"])
        c["group"] = rng.choice([len(s["groups"]), len(s["groups"]) + 5, 0])
        c["required"] = False
    elif what == "group_member" and s["groups"]:
        g = rng.choice(s["groups"])
        g["clients"].pop(rng.randrange(len(g["clients"])))
    elif what == "group_empty":
        s["groups"].append(dict(clients=[], required=True, name=""))
    elif what == "required_in_group" and s["groups"]:
        g = rng.choice(s["groups"])
        s["clients"][rng.choice(g["clients"])]["required"] = True
    elif what == "group_extra" and s["groups"]:
        g = rng.choice(s["groups"])
        c = rng.choice([len(s["clients"]), len(s["clients"]) + 3,
                        rng.randrange(max(len(s["clients"]), 1))])
        if c not in g["clients"]:
            g["clients"].append(c)
    elif what == "group_other" and len(s["groups"]) > 1:
        a, b = rng.sample(range(len(s["groups"])), 2)
        s["clients"][s["groups"][a]["clients"][0]]["group"] = b
    elif what == "drop_location":
        s["locations"].pop()
    elif what == "add_location":
        s["locations"].append(dict(x=0.0, y=0.0, name=""))
    else:
        what = "none"
    return what


def echo(obs, spec, data, rng):
    import numpy as np

    obs.equal((data.num_locations, data.num_clients, data.num_depots,
               data.num_groups, data.num_shipments, data.num_vehicle_types,
               data.num_profiles, data.num_load_dimensions,
               data.num_vehicles),
              (len(spec["locations"]), len(spec["clients"]),
               len(spec["depots"]), len(spec["groups"]),
               len(spec["shipments"]), len(spec["vehicle_types"]),
               len(spec["dist"]), dims_of(spec),
               sum(v["num_available"] for v in spec["vehicle_types"])),
              "problem dimensions")
    tw = any(e["tw_early"] or e["tw_late"] != INF
             for e in spec["clients"] + spec["depots"]
             + spec["vehicle_types"])
    tw |= any(s[f"{w}_tw_early"] or s[f"{w}_tw_late"] != INF
              for s in spec["shipments"] for w in ("pickup", "delivery"))
    tw |= any(v["start_late"] not in (None, INF)
              for v in spec["vehicle_types"])
    obs.equal(data.has_time_windows(), tw, "has_time_windows")
    for cls, (key, _) in CLASSES.items():
        many = getattr(data, key)()
        one = getattr(data, {"vehicle_types": "vehicle_type"}.get(
            key, key[:-1]))
        obs.equal(len(many), len(spec[key]), f"number of {key}")
        for i, kw in enumerate(spec[key]):
            reported(obs, cls, kw, many[i])
            obs.check(one(i) == many[i], f"{cls} by index")
        for bad in (len(spec[key]), len(spec[key]) + 7, MAX_SIZE):
            obs.raises(IndexError, lambda: one(bad),
                       f"unknown {cls} index", lambda: bad)
        obs.raises((TypeError, IndexError), lambda: one(-1),
                   f"negative {cls} index")
    for i, kw in enumerate(spec["locations"]):
        loc = data.location(i)
        obs.equal((loc.x, loc.y, loc.name), (kw["x"], kw["y"], kw["name"]),
                  "location as given")
    for name, mats in (("distance", spec["dist"]), ("duration", spec["dur"])):
        got = getattr(data, f"{name}_matrices")()
        obs.equal(len(got), len(mats), f"number of {name} matrices")
        for p, m in enumerate(mats):
            for g in (got[p], getattr(data, f"{name}_matrix")(p)):
                obs.equal((g.dtype, g.tolist()), (np.int64, m),
                          f"{name} matrix as given")
        obs.raises(IndexError,
                   lambda: getattr(data, f"{name}_matrix")(len(mats)),
                   f"unknown {name} matrix")


def whole(rng, obs, tier):
    spec = unalias(gen.gen_spec(rng, **{"max_clients": 6, "max_shipments": 3,
                                    **gen.large(rng, 0.01)}))
    what = "none"
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        w = corrupt(rng, spec)
        what = w if w != "none" else what
    for key in ("clients", "shipments", "depots", "vehicle_types", "groups"):
        cls = [c for c, (k, _) in CLASSES.items() if k == key][0]
        if not all(CLASSES[cls][1](k) for k in spec[key]):
            raise Skip
    want = spec_ok(spec)
    try:
        data = gen.build(spec)
    except (ValueError, IndexError) as exc:
        obs.check(not want, "valid data was rejected",
                  lambda: f"{exc}: {what}: {spec}")
        obs.count("rejected_data")
        obs.count(f"reject_{what}")
    else:
        obs.check(want, "invalid data was accepted",
                  lambda: f"{what}: {spec}")
        obs.count("accepted_data")
        echo(obs, spec, data, rng)
    obs.seen("data", what, want)


def immutable(rng, obs, tier):
    """Nothing done to what went in or came out changes the data."""
    import numpy as np

    spec = gen.gen_spec(rng, min_visits=2)
    ent = gen.build_entities(spec)
    dist = [np.array(m, dtype=np.int64) for m in spec["dist"]]
    dur = [np.array(m, dtype=np.int64) for m in spec["dur"]]
    data = P.ProblemData(**ent, distance_matrices=dist,
                         duration_matrices=dur)
    ref = snap(data)
    reps = {}

    def same(what):
        obs.equal(snap(data), ref, f"data changed: {what}")
        obs.count("probe_" + what.replace(" ", "_"))

    # Inputs.
    for m in dist + dur:
        m += 1
    for key in list(ent):
        if key == "groups":
            for g in ent[key]:
                try:
                    g.add_client(10**6)
                except ValueError:
                    pass
        ent[key].clear()
    same("inputs were modified")

    # Outputs: every list and matrix handed out.
    for name in ("locations", "clients", "depots", "groups", "shipments",
                 "vehicle_types", "distance_matrices", "duration_matrices"):
        got = getattr(data, name)()
        got.clear()
        same("returned lists were cleared")
    for g in data.groups():
        g.add_client(10**6)
    for i in range(data.num_groups):
        data.group(i).add_client(10**6 + 1)
    same("returned groups were extended")
    for name in ("distance_matrices", "duration_matrices"):
        for m in [*getattr(data, name)(),
                  getattr(data, name.replace("ices", "ix"))(0)]:
            if not m.size:
                continue
            obs.raises(ValueError, lambda: m.__setitem__((0, 0), 7),
                       "a returned matrix is writeable")
            try:
                m.flags.writeable = True
                m[0, 0] = 7
            except ValueError:
                pass
            v = m.T
            try:
                v[0, 0] = 7
            except ValueError:
                pass
    same("returned matrices were written")
    for objs, attrs in (
            (data.clients(), ("delivery", "pickup")),
            (data.vehicle_types(), ("capacity", "initial_load",
                                    "reload_depots")),
            (data.shipments(), ("amount",))):
        for x in objs:
            for a in attrs:
                lst = getattr(x, a)
                lst.append(3)
                lst[0] = 9
    same("returned amounts were modified")
    for x in [*data.clients(), *data.depots(), *data.vehicle_types(),
              *data.locations(), *data.shipments(), *data.groups()]:
        for a in dir(type(x)):
            if a.startswith("_") or not isinstance(
                    getattr(type(x), a), property):
                continue
            obs.raises(AttributeError,
                       lambda: setattr(x, a, getattr(x, a)),
                       "a field can be assigned",
                       lambda: f"{type(x).__name__}.{a}")
    same("fields were assigned")

    # Uses: routes, solutions, searches, models.
    from pyvrp.search import OPERATORS, LocalSearch, compute_neighbours

    sol = gen.make_solution(data, gen.gen_routes(rng, spec))
    ce, _ = gen.gen_cost_evaluator(rng, spec["dims"])
    if spec["features"]["release"] is False or not any(
            v["reload_depots"] for v in spec["vehicle_types"]):
        ls = LocalSearch(data, P.RandomNumberGenerator(1),
                         compute_neighbours(data))
        ops = [op(data) for op in OPERATORS if op.supports(data)]
        for o in ops:
            ls.add_operator(o)
        ls(sol, ce, exhaustive=True)
        same("a search used it")
    model = P.Model.from_data(data)
    for _ in range(2):
        loc = model.add_location(1, 2)
        grp = model.add_client_group()
        model.add_client(loc, group=grp, required=False)
        model.add_vehicle_type()
    if model.groups:
        model.add_client(model.locations[0], group=model.groups[0],
                         required=False)
    same("a model derived from it was extended")
    data.replace(vehicle_types=[P.VehicleType(
        capacity=[0] * spec["dims"])])
    same("replace was called")
    obs.seen("immutable", str(spec["features"]))


def replace(rng, obs, tier):
    """replace() changes the given fields and nothing else."""
    import numpy as np

    spec = gen.gen_spec(rng, min_visits=1)
    other = gen.gen_spec(rng, min_visits=1)
    data = gen.build(spec)
    ref = snap(data)
    new = unalias(copy.deepcopy(spec))
    keys = rng.sample(["locations", "clients", "depots", "vehicle_types",
                       "groups", "shipments", "dist", "dur"],
                      rng.choice([1, 1, 2, 3, 8]))
    foreign = rng.random() < 0.3
    for k in keys:
        if foreign:
            new[k] = copy.deepcopy(other[k])
        elif k in ("dist", "dur"):
            for m in new[k]:
                for i in range(len(m)):
                    for j in range(len(m)):
                        if i != j:
                            m[i][j] += 1
        elif k == "vehicle_types" and rng.random() < 0.5:
            new[k] = new[k] + [dict(rng.choice(new[k]), num_available=9)]
        else:
            for e in new[k]:
                e["name"] = e["name"] + "!"
    args = {}
    ent = gen.build_entities(new)
    for k in keys:
        if k == "dist":
            args["distance_matrices"] = [np.array(m, dtype=np.int64)
                                         for m in new[k]]
        elif k == "dur":
            args["duration_matrices"] = [np.array(m, dtype=np.int64)
                                         for m in new[k]]
        else:
            args[k] = ent[k]
    want = spec_ok(new)
    try:
        got = data.replace(**args)
    except (ValueError, IndexError):
        obs.check(not want, "valid replacement was rejected", lambda: keys)
        obs.count("replace_rejected")
    else:
        obs.check(want, "invalid replacement was accepted", lambda: keys)
        echo(obs, new, got, rng)
        obs.count("replace_accepted")
    obs.equal(snap(data), ref, "replace changed the original")
    obs.seen("replace", sorted(keys), want, foreign)

    # Vehicle types.
    kw = dict(rng.choice(spec["vehicle_types"]))
    vt = P.VehicleType(**kw)
    vref = snap(vt)
    full = dict(kw)
    full["start_late"] = vt.start_late
    full["capacity"], full["initial_load"] = vt.capacity, vt.initial_load
    donor = dict(rng.choice(other["vehicle_types"]))
    fields = rng.sample(list(kw), rng.choice([0, 1, 1, 2, 3]))
    ch = {}
    for f in fields:
        ch[f] = rng.choice([poke(rng, full[f], f), donor[f]])
        if ch[f] is None:
            ch[f] = 5
    if ch.get("fixed_cost", 0) < 0:
        ch["fixed_cost"] = 1
    full.update(ch)
    try:
        got = vt.replace(**ch)
    except ERRORS:
        obs.check(not vehicle_ok(full), "valid vehicle type replacement was "
                  "rejected", lambda: (kw, ch))
        obs.count("vt_rejected")
    else:
        obs.check(vehicle_ok(full), "invalid vehicle type replacement was "
                  "accepted", lambda: (kw, ch))
        reported(obs, "VehicleType", full, got)
        obs.count("vt_accepted")
    obs.equal(snap(vt), vref, "replace changed the vehicle type")
    obs.seen("vt", sorted(fields), vehicle_ok(full))


def membership(rng, obs, tier):
    """Clients and groups refer to each other, and to nothing else."""
    n, ng = rng.choice([rng.randint(1, 5)] * 4 + [20]), rng.randint(0, 4)
    for _ in range(10):
        refs = [rng.choice([None, *range(ng)]) for _ in range(n)]
        lists = [[c for c in range(n) if refs[c] == g] for g in range(ng)]
        req = [r is None and rng.random() < 0.5 for r in refs]
        for _ in range(rng.choice([0, 1, 1, 2])):  # disturbed
            u = rng.random()
            if u < 0.4 and lists:
                g = rng.choice(lists)
                new = [c for c in range(n + (rng.random() < 0.1))
                       if c not in g]
                if new:
                    g.insert(rng.randint(0, len(g)), rng.choice(new))
            elif u < 0.6 and lists:
                g = rng.choice(lists)
                if g:
                    g.pop(rng.randrange(len(g)))
            elif u < 0.9:
                refs[rng.randrange(n)] = rng.choice(
                    [None, *range(ng + (rng.random() < 0.2))])
            else:
                req[rng.randrange(n)] = True
        ok = (all(lists)
              and all(refs[c] == g for g, cs in enumerate(lists)
                      for c in cs if c < n)
              and all(c < n for cs in lists for c in cs)
              and all(r is None or (r < ng and c in lists[r])
                      for c, r in enumerate(refs))
              and not any(q and r is not None for q, r in zip(req, refs)))
        what = lambda: f"{refs} {lists} {req}"  # noqa: E731

        def make():
            return P.ProblemData(
                locations=[P.Location(0, 0)],
                clients=[P.Client(0, required=q, group=r)
                         for q, r in zip(req, refs)],
                depots=[P.Depot(0)], vehicle_types=[P.VehicleType()],
                distance_matrices=[[[0]]], duration_matrices=[[[0]]],
                groups=[P.ClientGroup(cs) for cs in lists])
        if ok:
            data = make()
            obs.equal([list(g) for g in data.groups()], lists,
                      "members of the groups", what)
        else:
            obs.raises((ValueError, IndexError), make,
                       "inconsistent groups accepted", what)
        obs.count("consistent_groups" if ok else "inconsistent_groups")
        obs.seen("membership", refs, lists)


def groups(rng, obs, tier):
    """Client groups: insertion order, no duplicates, rejected adds."""
    g = P.ClientGroup(required=rng.random() < 0.5, name="g")
    model = []
    for _ in range(12):
        c = rng.randint(0, 7)
        if c in model:
            obs.raises(ValueError, lambda: g.add_client(c),
                       "duplicate client in group")
        else:
            g.add_client(c)
            model.append(c)
        obs.equal((list(g.clients), list(g), len(g)),
                  (model, model, len(model)), "group members")
    obs.count("group_histories")
    big = rng.choice([2**31 - 1, 2**31, 2**32 + 5, 2**40])
    data = P.ProblemData(
        locations=[P.Location(0, 0)], clients=[], depots=[P.Depot(0)],
        vehicle_types=[P.VehicleType(big), P.VehicleType(3)],
        distance_matrices=[[[0]]], duration_matrices=[[[0]]])
    obs.equal(data.num_vehicles, big + 3, "number of vehicles")


PARTS = [
    Part("entities", entities, 1500, 40000,
         need={"accepted_Client": 500, "rejected_Client": 500,
               "accepted_VehicleType": 500, "rejected_VehicleType": 500,
               "rejected_Shipment": 200, "rejected_Depot": 200,
               "rejected_ClientGroup": 50}),
    Part("whole", whole, 3000, 80000,
         need={"accepted_data": 500, "rejected_data": 500,
               "reject_overlap": 10, "reject_group_extra": 5,
               "reject_required_in_group": 5}),
    Part("immutable", immutable, 250, 8000,
         need={"probe_fields_were_assigned": 100}),
    Part("replace", replace, 1200, 30000,
         need={"replace_accepted": 200, "replace_rejected": 100,
               "vt_accepted": 200, "vt_rejected": 100}),
    Part("membership", membership, 1000, 30000,
         need={"consistent_groups": 300, "inconsistent_groups": 300}),
    Part("groups", groups, 100, 2000, need={"group_histories": 50}),
]
