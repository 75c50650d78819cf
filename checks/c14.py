"""Files read mean what they say; solutions survive being written."""

import contextlib
import io
import math
import os
import pathlib
import shutil
import sys
import tempfile
import warnings

from vlib.gen import INF, MAX_SIZE
from vlib.harness import Part, Skip
from vlib.lazy import P

PROPERTY = "C14"
VARIANT = "std"
RULE = ("an evaluation is one field read from a generated file compared with "
        "the value written; distinct nontrivial counts distinct combinations "
        "of sections, edge weight kind and rounding")
ASSUME = ["fractional values are only used together with a rounding function",
          "files list each client in at most one group, and clients with a "
          "prize are not alone in their group",
          "Euclidean distances within 1e-6 of a rounding boundary may go "
          "either way"]

ROUND = {
    "round": lambda v: int(round(v)),
    "trunc": lambda v: int(v),
    "dimacs": lambda v: int(10 * v),
    "exact": lambda v: int(round(1000 * v)),
    "none": lambda v: v,
}
SCALE = dict(round=1, trunc=1, dimacs=10, exact=1000, none=1)


class File:
    """A random instance file, and what it says."""

    def __init__(self, rng, big=False):
        self.rng = rng
        self.big = big and rng.random() < 0.1  # very large distances
        wide = rng.random() < 0.06
        self.rf = rng.choice(list(ROUND))
        self.sc = ROUND[self.rf]
        self.frac = self.rf != "none" and rng.random() < 0.7
        self.pd = rng.random() < 0.2
        self.nd = rng.choice([1, 1, 2, 3])
        n = rng.randint(10, 40) if wide else rng.randint(1, 8)
        self.n = 2 * ((n + 1) // 2) if self.pd else n
        self.dim = self.nd + self.n
        self.specs, self.sections, self.has = [], [], set()
        self.nv = self.n
        if self.pd or rng.random() < 0.7:
            self.nv = rng.choice([rng.randint(8, 24)] * 4 + [140]) \
                if wide else rng.randint(1, 6)
            self.spec("VEHICLES", self.nv)
        self.dims = 1
        self.edges()
        self.depots()
        if self.pd:
            self.pairs()
        else:
            self.clients()
        self.vehicles()
        if not self.pd and "backhaul" in self.has and rng.random() < 0.4 \
                and not (set(self.pos(self.demand))
                         & set(self.pos(self.backhaul))) and self.dims == 1 \
                and "demand" in self.has:
            self.type = "VRPB"
        else:
            self.type = rng.choice(["CVRP", "VRPTW", None])
        if self.type:
            self.spec("TYPE", self.type)

    def pos(self, rows):
        return [i for i, r in enumerate(rows) if any(self.sc(x) > 0
                                                     for x in r)]

    # Helpers ---------------------------------------------------------

    def num(self, hi, lo=0):
        r = self.rng
        if self.frac and r.random() < 0.7:
            v = r.randint(lo * 1000, hi * 1000) / 1000
            if self.rf == "round" and abs(v % 1 - 0.5) < 1e-9:
                v += 0.125
            return v
        return r.randint(lo, hi)

    def spec(self, key, value):
        self.has.add(key.lower())
        self.specs.append(f"{key}{self.rng.choice([':', ' : ', ': '])}"
                          f"{value}")

    def section(self, name, rows, index=True):
        sep = self.rng.choice([" ", "\t", "  "])
        lines = [name + "_SECTION"]
        for i, row in enumerate(rows, 1):
            row = list(row) if isinstance(row, (list, tuple)) else [row]
            vals = ([i] if index else []) + row
            lines.append(sep.join(str(v) for v in vals))
        self.has.add(name.lower())
        self.sections.append(lines)

    # Parts -----------------------------------------------------------

    def edges(self):
        r = self.rng
        kind = r.choice(["EUC_2D", "EUC_2D", "FULL", "LOWER"])
        if kind == "FULL" and self.pd:
            kind = "LOWER"
        self.kind = kind
        coords = [(self.num(200), self.num(200)) for _ in range(self.dim)]
        self.has_coords = kind == "EUC_2D" or r.random() < 0.3
        self.coords = coords if self.has_coords else [(0, 0)] * self.dim
        if self.has_coords:
            self.section("NODE_COORD", coords)
        if kind == "EUC_2D":
            self.spec("EDGE_WEIGHT_TYPE", "EUC_2D")
            return
        self.spec("EDGE_WEIGHT_TYPE", "EXPLICIT")
        w = [[0] * self.dim for _ in range(self.dim)]
        for i in range(self.dim):
            for j in range(self.dim):
                if i != j:
                    w[i][j] = self.num(500)
                    if self.big and r.random() < 0.2:
                        w[i][j] = ((1 << 44) // SCALE[self.rf]
                                   + r.choice([-9, -1, 0, 0, 0, 1, 7]))
        if kind == "LOWER":
            for i in range(self.dim):
                for j in range(i):
                    w[j][i] = w[i][j]
            self.spec("EDGE_WEIGHT_FORMAT", "LOWER_ROW")
            self.section("EDGE_WEIGHT", [w[i][:i] for i in
                                         range(1, self.dim)], index=False)
        else:
            self.spec("EDGE_WEIGHT_FORMAT", "FULL_MATRIX")
            self.section("EDGE_WEIGHT", w, index=False)
        self.w = w

    def depots(self):
        if self.nd > 1 or self.rng.random() < 0.7:
            self.section("DEPOT", [[i + 1] for i in range(self.nd)] + [[-1]],
                         index=False)

    def window(self):
        a, b = self.num(300), self.num(300)
        return (min(a, b), max(a, b))

    def clients(self):
        r, dim = self.rng, self.dim
        has = {k: r.random() < 0.5 for k in
               ("demand", "backhaul", "service", "tw", "release", "prize",
                "groups")}
        self.dims = r.choice([1, 1, 2]) if has["demand"] else 1
        zero = [[0] * self.dims for _ in range(dim)]
        self.demand, self.backhaul = zero, zero
        only = r.random() < 0.5  # linehaul or backhaul, never both

        def amounts(skip=()):
            return [[0] * self.dims if i < self.nd or i in skip
                    else [self.num(30) for _ in range(self.dims)]
                    for i in range(dim)]

        if has["demand"]:
            skip = {i for i in range(dim) if only and r.random() < 0.4}
            self.demand = amounts(skip)
            self.section(r.choice(["DEMAND", "LINEHAUL"]), self.demand)
            self.has.add("demand")
        if has["backhaul"]:
            skip = {i for i in range(dim)
                    if only and any(x > 0 for x in self.demand[i])}
            self.backhaul = amounts(skip)
            self.section("BACKHAUL", self.backhaul)
        self.service = [0] * dim
        if has["service"]:
            if r.random() < 0.3:
                v = self.num(20)
                self.spec("SERVICE_TIME", v)
                self.service = [0] * self.nd + [v] * self.n
            else:
                self.service = [self.num(20) for _ in range(dim)]
                self.section("SERVICE_TIME", self.service)
        self.tw = [(None, None)] * dim
        if has["tw"]:
            self.tw = [self.window() for _ in range(dim)]
            self.section("TIME_WINDOW", self.tw)
        self.release = [0] * dim
        if has["release"]:
            self.release = [self.num(0 if self.tw[i][1] is None else 1)
                            if False else
                            (self.num(100) if self.tw[i][1] is None
                             else min(self.num(100), self.tw[i][1]))
                            for i in range(dim)]
            self.section("RELEASE_TIME", self.release)
        self.groups = []
        single = set()
        if has["groups"]:
            left = list(range(self.n))
            r.shuffle(left)
            rows = []
            while left and r.random() < 0.7:
                k = r.choice([1, 1, 2, 3])
                rows.append([left.pop() for _ in range(min(k, len(left)))])
            if rows and r.random() < 0.15:
                rows.insert(r.randrange(len(rows) + 1), [])
            if rows:
                self.section("MUTUALLY_EXCLUSIVE_GROUP",
                             [[c + self.nd + 1 for c in g] for g in rows])
                self.groups = [g for g in rows if len(g) > 1]
                single = {g[0] for g in rows if len(g) == 1}
        self.prize = [0] * dim
        if has["prize"]:
            self.prize = [0 if i < self.nd or i - self.nd in single
                          else r.choice([0, self.num(50, 1)])
                          for i in range(dim)]
            self.section("PRIZE", self.prize)

    def pairs(self):
        r = self.rng
        locs = list(range(self.nd, self.dim))
        r.shuffle(locs)
        self.pd_pairs = []
        rows = [None] * self.dim
        self.tw = [self.window() for _ in range(self.dim)]
        for i in range(self.nd):
            rows[i] = [0, *self.tw[i], 0, 0, 0]
        for p, d in zip(locs[::2], locs[1::2]):
            if self.tw[d][1] < self.tw[p][0]:
                self.tw[d] = (self.tw[d][0], self.tw[p][0])
            amount = self.num(30)
            sp, sd = self.num(20), self.num(20)
            rows[p] = [amount, *self.tw[p], sp, 0, d + 1]
            rows[d] = [-amount, *self.tw[d], sd, p + 1, 0]
            self.pd_pairs.append((p, d, amount, sp, sd))
        self.pd_pairs.sort()
        self.section("PICKUP_AND_DELIVERY", rows)
        self.groups = []

    def per_vehicle(self, name, func, default, spec=True):
        r = self.rng
        u = r.random()
        if u < 0.5:
            return [default] * self.nv
        if spec and u < 0.7:
            v = func()
            self.spec(name, v)
            return [v] * self.nv
        few = [func() for _ in range(r.choice([1, 2, 3]))]
        vals = [r.choice(few) for _ in range(self.nv)]
        self.section(name, vals)
        return vals

    def vehicles(self):
        r = self.rng
        if self.dims == 1:
            caps = self.per_vehicle("CAPACITY", lambda: self.num(100), None)
            self.cap = [[c] for c in caps]
        else:
            self.cap = [[self.num(100) for _ in range(self.dims)]
                        for _ in range(self.nv)]
            self.section("CAPACITY", self.cap)
        self.max_dist = self.per_vehicle("VEHICLES_MAX_DISTANCE",
                                         lambda: self.num(900), None)
        self.max_dur = self.per_vehicle("VEHICLES_MAX_DURATION",
                                        lambda: self.num(900), None)
        self.max_rel = self.per_vehicle("VEHICLES_MAX_RELOADS",
                                        lambda: r.randint(0, 3), MAX_SIZE)
        self.fixed = self.per_vehicle("VEHICLES_FIXED_COST",
                                      lambda: self.num(90), 0, spec=False)
        self.unit = self.per_vehicle("VEHICLES_UNIT_DISTANCE_COST",
                                     lambda: r.randint(0, 4), 1, spec=False)
        self.depot = [0] * self.nv
        if r.random() < 0.5:
            self.depot = [r.randrange(self.nd) for _ in range(self.nv)]
            self.section("VEHICLES_DEPOT", [d + 1 for d in self.depot])
        self.reload = [()] * self.nv
        if r.random() < 0.4:
            k = r.choice([None, 1])
            self.reload = [
                tuple(r.sample(range(self.nd), k or r.randint(1, self.nd)))
                for _ in range(self.nv)]
            self.section("VEHICLES_RELOAD_DEPOT",
                         [[d + 1 for d in ds] for ds in self.reload])
        every = tuple(range(self.nd, self.dim))
        self.allowed = [every] * self.nv
        if not self.pd and r.random() < 0.35:
            few = [tuple(sorted(r.sample(every, r.randint(1, self.n))))
                   for _ in range(2)] + [every]
            if r.random() < 0.3:
                few = [(c,) for c in every]
            self.allowed = [r.choice(few) for _ in range(self.nv)]
            self.section("VEHICLES_ALLOWED_CLIENTS",
                         [[c + 1 for c in cs] for cs in self.allowed])

    def text(self, drop=()):
        r = self.rng
        specs = [f"NAME : x{r.choice(['', ': y'])}",
                 f"DIMENSION: {self.dim}", *self.specs]
        if r.random() < 0.3:
            specs.append("COMMENT: (a: b)")
        specs = [s for s in specs if not any(s.startswith(d) for d in drop)]
        r.shuffle(specs)
        r.shuffle(self.sections)
        lines = specs[:]
        for s in self.sections:
            if not any(s[0].startswith(d) for d in drop):
                lines += s
        if r.random() < 0.3:
            for _ in range(3):
                lines.insert(r.randrange(len(lines) + 1),
                             r.choice(["", "# comment", "   "]))
        lines.append("EOF")
        return r.choice(["\n", "\r\n"]).join(lines) + "\n"


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c14-", dir="/tmp")
    try:
        yield pathlib.Path(d)
    finally:
        shutil.rmtree(d)


def func_of(name):
    """A rounding function as a user would write it."""
    import numpy as np

    def func(vals):
        if name == "none":
            return vals
        vals = np.asarray(vals) * SCALE[name]
        if name in ("round", "exact"):
            vals = np.round(vals)
        return vals.astype(np.int64)

    return func


def read_file(rng, f, path):
    path.write_bytes(f.text().encode())
    func = f.rf
    if f.rf == "none" and rng.random() < 0.5:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return P.read(str(path))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return P.read(path, func)


def compare(obs, f, data):
    from pyvrp.constants import MAX_VALUE

    sc = f.sc

    def eq(got, want, what):
        obs.equal(got, want, what, lambda: f"{f.rf} {f.has}\n{f.text()}")

    eq((data.num_locations, data.num_depots, data.num_clients,
        data.num_shipments, data.num_vehicles, data.num_groups,
        data.num_load_dimensions),
       (f.dim, f.nd, 0 if f.pd else f.n, f.n // 2 if f.pd else 0, f.nv,
        len(f.groups), f.dims), "dimensions read")
    for i, (x, y) in enumerate(f.coords):
        loc = data.location(i)
        eq((loc.x, loc.y), (sc(x), sc(y)), "coordinates read")
    for i, d in enumerate(data.depots()):
        eq((d.location, d.tw_early, d.tw_late, d.service_duration),
           (i, 0, INF, 0), "depot read")
    gidx = {c: g for g, cs in enumerate(f.groups) for c in cs}
    for g, cs in enumerate(f.groups):
        grp = data.group(g)
        eq((sorted(grp.clients), grp.required), (sorted(cs), True),
           "group read")
    for j, c in enumerate(data.clients()):
        i = j + f.nd
        e, la = f.tw[i]
        prize = sc(f.prize[i])
        eq(dict(loc=c.location, delivery=list(c.delivery),
                pickup=list(c.pickup), service=c.service_duration,
                tw=(c.tw_early, c.tw_late), release=c.release_time,
                prize=c.prize, group=c.group, required=c.required),
           dict(loc=i, delivery=[sc(v) for v in f.demand[i]],
                pickup=[sc(v) for v in f.backhaul[i]],
                service=sc(f.service[i]),
                tw=(0, INF) if la is None else (sc(e), sc(la)),
                release=sc(f.release[i]), prize=prize, group=gidx.get(j),
                required=prize == 0 and j not in gidx), "client read")
    if f.pd:
        for s, (p, d, amount, sp, sd) in zip(data.shipments(), f.pd_pairs,
                                             strict=True):
            eq(dict(p=s.pickup.location, d=s.delivery.location,
                    amount=list(s.amount), required=s.required,
                    ptw=(s.pickup.tw_early, s.pickup.tw_late),
                    dtw=(s.delivery.tw_early, s.delivery.tw_late),
                    ps=s.pickup.service_duration,
                    ds=s.delivery.service_duration, name=s.name),
               dict(p=p, d=d, amount=[sc(amount)], required=True,
                    ptw=tuple(map(sc, f.tw[p])), dtw=tuple(map(sc, f.tw[d])),
                    ps=sc(sp), ds=sc(sd), name=f"{p + 1} -> {d + 1}"),
               "shipment read")

    # Vehicles.
    seen, keys = {}, set()
    for t, vt in enumerate(data.vehicle_types()):
        vs = [int(v) for v in vt.name.split(",")]
        eq(vt.num_available, len(vs), "vehicles per type")
        for v in vs:
            obs.check(v not in seen, "vehicle listed twice", lambda: vt.name)
            seen[v] = t
    eq(sorted(seen), list(range(f.nv)), "vehicles listed")
    for v in range(f.nv):
        vt = data.vehicle_type(seen[v])
        e, la = f.tw[f.depot[v]]
        tw = (0, INF) if la is None else (sc(e), sc(la))
        want = dict(
            capacity=[INF if c is None else sc(c) for c in f.cap[v]],
            start=f.depot[v], end=f.depot[v], fixed=sc(f.fixed[v]), tw=tw,
            late=tw[1],
            shift=INF if f.max_dur[v] is None else sc(f.max_dur[v]),
            dist=INF if f.max_dist[v] is None else sc(f.max_dist[v]),
            unit=f.unit[v], reload=list(f.reload[v]), reloads=f.max_rel[v],
            rest=(0, 0, 0, [0] * f.dims))
        eq(dict(capacity=list(vt.capacity), start=vt.start_depot,
                end=vt.end_depot, fixed=vt.fixed_cost,
                tw=(vt.tw_early, vt.tw_late), late=vt.start_late,
                shift=vt.shift_duration, dist=vt.max_distance,
                unit=vt.unit_distance_cost, reload=list(vt.reload_depots),
                reloads=vt.max_reloads,
                rest=(vt.unit_duration_cost, vt.max_overtime,
                      vt.unit_overtime_cost, list(vt.initial_load))),
           want, "vehicle read")
        keys.add(str(sorted(want.items())) + str(f.allowed[v]))
    eq(data.num_vehicle_types, len(keys), "number of vehicle types")

    # Distances and durations, per vehicle.
    line = set(f.pos(f.demand)) if f.type == "VRPB" else set()
    back = set(f.pos(f.backhaul)) if f.type == "VRPB" else set()
    done = set()
    for v in range(f.nv):
        prof = data.vehicle_type(seen[v]).profile
        if (prof, f.allowed[v]) in done:
            continue
        done.add((prof, f.allowed[v]))
        dist = data.distance_matrix(prof).tolist()
        eq(data.duration_matrix(prof).tolist(), dist, "durations read")
        ok = set(range(f.nd)) | set(f.allowed[v])
        for i in range(f.dim):
            for j in range(f.dim):
                got = dist[i][j]
                if i == j:
                    eq(got, 0, "diagonal read")
                elif i not in ok or j not in ok:
                    eq(got, MAX_VALUE, "distance to a disallowed client")
                elif j in back and i < f.nd or i in back and j in line:
                    eq(got, MAX_VALUE, "VRPB distance")
                elif f.kind != "EUC_2D":
                    eq(got, sc(f.w[i][j]), "distance read")
                else:
                    real = math.dist(f.coords[i], f.coords[j]) * SCALE[f.rf]
                    if f.rf in ("round", "exact"):
                        good = abs(got - real) <= 0.5 + 1e-5
                    else:
                        good = -1e-5 <= real - got <= 1 + 1e-5
                    obs.check(good, "Euclidean distance read",
                              lambda: (f.rf, got, real))
    obs.count("type_" + str(f.type))
    obs.count("profiles", data.num_profiles > 1)


def instances(rng, obs, tier):
    f = File(rng, big=True)
    with scratch() as d:
        data = read_file(rng, f, d / "x.vrp")
        if f.big or rng.random() < 0.2:
            # The same again, now through a function; one is warned of
            # values above the documented limit, and of no others.
            with warnings.catch_warnings(record=True) as got:
                warnings.simplefilter("always")
                again = P.read(d / "x.vrp", func_of(f.rf))
            obs.check(again == data, "read with a function, not its name",
                      lambda: f"{f.rf} {f.text()}")
            top = max(m.max() for m in data.distance_matrices())
            got = [w for w in got if issubclass(w.category,
                                                P.ScalingWarning)]
            obs.equal(bool(got), bool(top > 1 << 44), "scaling warning",
                      lambda: f"{top} {f.text()}")
            obs.count("warned" if got else "not_warned")
            obs.count("big", f.big)
    compare(obs, f, data)
    obs.count("files")
    obs.count(f"round_{f.rf}")
    obs.count("pd", f.pd)
    obs.count("pd_multi_depot", f.pd and f.nd > 1)
    obs.count("groups_read", len(f.groups))
    obs.count("multi_dim", f.dims > 1)
    obs.seen(sorted(f.has), f.kind, f.rf, f.nd > 1)
    obs.sample(f.text())


def gen_solution_rows(rng, f):
    """Location sequences per vehicle, as a solution file lists them."""
    rows = [[] for _ in range(f.nv)]
    if f.pd:
        for p, d, *_ in f.pd_pairs:
            if rng.random() < 0.8:
                row = rows[rng.randrange(f.nv)]
                i = rng.randint(0, len(row))
                row.insert(i, p)
                row.insert(rng.randint(i + 1, len(row)), d)
        return rows
    taken = set()
    for c in range(f.nd, f.dim):
        grp = [i for i, g in enumerate(f.groups) if c - f.nd in g]
        if rng.random() < 0.85 and not taken & set(grp):
            taken |= set(grp)
            row = rows[rng.randrange(f.nv)]
            row.insert(rng.randint(0, len(row)), c)
    for v, row in enumerate(rows):
        if f.reload[v] and len(row) > 1 and rng.random() < 0.6:
            for _ in range(min(f.max_rel[v], rng.choice([1, 2]))):
                at = [i for i in range(1, len(row))
                      if row[i] >= f.nd and row[i - 1] >= f.nd]
                if at:
                    row.insert(rng.choice(at), rng.choice(f.reload[v]))
    return rows


def canon(sol):
    return sorted((r.vehicle_type(), [str(a) for a in r][1:-1])
                  for r in sol.routes())


def expected_routes(f, data, rows):
    veh = {int(v): t for t, vt in enumerate(data.vehicle_types())
           for v in vt.name.split(",")}
    name = {i: f"D{i}" for i in range(f.nd)}
    if f.pd:
        for k, (p, d, *_) in enumerate(f.pd_pairs):
            name[p], name[d] = f"L{k}", f"U{k}"
    else:
        name.update({i: f"C{i - f.nd}" for i in range(f.nd, f.dim)})
    return sorted((veh[v], [name[x] for x in row])
                  for v, row in enumerate(rows) if row)


def solutions(rng, obs, tier):
    f = File(rng)
    with scratch() as d:
        data = read_file(rng, f, d / "x.vrp")
        rows = gen_solution_rows(rng, f)
        trail = rng.random() < 0.5  # leave out empty routes at the end
        last = max([v for v, row in enumerate(rows) if row], default=-1)
        lines = []
        for v, row in enumerate(rows[:last + 1] if trail else rows):
            lines.append(f"Route #{v + 1}: {' '.join(map(str, row))}")
        lines.append(rng.choice(["Cost: 12", "Cost 12.5", "", "Cost: inf"]))
        path = d / "x.sol"
        path.write_text("\n".join(lines) + "\n")
        sol = P.read_solution(rng.choice([path, str(path)]), data)
        want = expected_routes(f, data, rows)
        obs.equal(canon(sol), want, "routes read", lambda: f.text())
        obs.count("solutions_read")
        obs.count("reloads_read", sum(a[0] == "D" for _, r in want
                                      for a in r))

        # Written by PyVRP, and read again.
        from pyvrp.cli import write_solution

        stats = P.Statistics()
        res = P.Result(sol, stats, 3, 0.1)
        out = d / "y.sol"
        write_solution(out, data, res)
        again = P.read_solution(out, data)
        obs.equal(canon(again), want, "solution written and read",
                  lambda: out.read_text())
        obs.check(again == sol, "written solution differs",
                  lambda: out.read_text())
        text = out.read_text().splitlines()
        obs.check(text[-1].startswith("Cost"), "no cost line")
        cost = float(text[-1].split()[-1])
        obs.check(cost == res.cost() or abs(cost - res.cost()) < 0.01,
                  "cost written", lambda: text[-1])
        obs.count("solutions_written")
        obs.count("multi_type", data.num_vehicle_types > 1)
        obs.count("shipments_written", f.pd and bool(want))
    obs.seen("sol", data.num_vehicle_types, len(want), f.pd,
             any(a[0] == "D" for _, r in want for a in r))


def bad_files(rng, obs, tier):
    f = File(rng)
    what = rng.choice(["round", "dimension", "depots", "vehicles", "weights",
                       "window", "allowed_len"])
    with scratch() as d:
        path = d / "x.vrp"

        def expect(types, text, rf=f.rf):
            path.write_text(text)
            obs.raises(types, lambda: P.read(path, rf),
                       f"malformed file was read ({what})", lambda: text)

        text = f.text()
        if what == "round":
            for rf in ("rund", "", 3, None):
                expect(TypeError, text, rf)
        elif what == "dimension":
            expect(ValueError, f.text(drop=("DIMENSION",)))
        elif what == "depots":
            body = f.text(drop=("DEPOT",)).replace("EOF", "")
            bad = rng.choice([[2], [1, 3], [2, 1], []])
            if bad == [1, 3] and f.dim < 3:
                raise Skip
            rows = "\n".join(map(str, bad + [-1]))
            expect(ValueError, body + f"DEPOT_SECTION\n{rows}\nEOF\n")
        elif what in ("vehicles", "allowed_len"):
            if "vehicles_fixed_cost" in f.has:
                raise Skip
            body = text.replace("EOF", "")
            n = f.nv + rng.choice([-1, 1, 2])
            if n < 1 or n == 1:
                n = f.nv + 2
            name = "VEHICLES_FIXED_COST"
            if what == "allowed_len":
                name = "VEHICLES_DEPOT"
                body = f.text(drop=(name,)).replace("EOF", "")
            rows = "\n".join(f"{i + 1} 1" for i in range(n))
            expect(ValueError, body + f"{name}_SECTION\n{rows}\nEOF\n")
        elif what == "weights":
            body = f.text(drop=("EDGE_WEIGHT_TYPE",))
            kind = rng.choice(["FOO", "EUC", "EXPLICIT"])
            body = f"EDGE_WEIGHT_TYPE: {kind}\n" + f.text(
                drop=("EDGE_WEIGHT_TYPE", "EDGE_WEIGHT_FORMAT"))
            expect((ValueError, TypeError), body)
        else:
            if f.pd or "time_window" in f.has or "release_time" in f.has:
                raise Skip
            rows = "\n".join(f"{i + 1} 5 {3 if i == f.dim - 1 else 9}"
                             for i in range(f.dim))
            expect(ValueError, text.replace("EOF", "")
                   + f"TIME_WINDOW_SECTION\n{rows}\nEOF\n")
        obs.count(f"bad_{what}")
        obs.count("bad")
        obs.seen("bad", what)


def cli(rng, obs, tier):
    """The command line solves, writes and reports the same solution."""
    from pyvrp import cli as mod

    # Forbidden edges cost 2^44, which overflows in infeasible solutions (see
    # C17's known finding).
    for _ in range(50):
        f = File(rng)
        if f.n > 1 and f.type != "VRPB" and len(set(f.allowed)) == 1 \
                and len(f.allowed[0]) == f.n:
            break
    else:
        raise Skip
    per_client = rng.random() < 0.3 and not f.pd
    iters = rng.choice([1, 5, 20])
    seed = rng.randint(0, 1000)
    with scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        path = d / "abc.vrp"
        data = read_file(rng, f, path)
        args = ["pyvrp", str(path), "--seed", str(seed), "--max_iterations",
                str(iters), "--round_func", f.rf, "--sol_dir", str(d / "s"),
                "--stats_dir", str(d / "t")]
        if per_client:
            args.append("--per_client")
        argv, sys.argv = sys.argv, args
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                mod.main()
        finally:
            sys.argv = argv
        n = iters * data.num_clients if per_client else iters
        ref = P.solve(data, P.MaxIterations(n), seed, display=False)
        sol = P.read_solution(d / "s" / "abc.sol", data)
        obs.equal(canon(sol), canon(ref.best), "solution file of the command "
                  "line", lambda: f.text())
        stats = P.Statistics.from_csv(d / "t" / "abc.csv")
        obs.equal(stats.num_iterations, n, "iterations in the statistics")
        row = [ln for ln in out.getvalue().splitlines()
               if ln.strip().startswith("abc")]
        obs.equal(len(row), 1, "rows in the table", out.getvalue)
        cells = row[0].split()
        obs.equal((cells[0], cells[1], cells[3]),
                  ("abc", "Y" if ref.is_feasible() else "N", str(n)),
                  "table row", out.getvalue)
        obs.check(float(cells[2]) == ref.cost()
                  or abs(float(cells[2]) - ref.cost()) < 0.01,
                  "objective in the table", out.getvalue)
        obs.count("cli_runs")
        obs.count("cli_feasible", ref.is_feasible())
        obs.seen("cli", ref.is_feasible(), per_client, f.pd)


PARTS = [
    Part("instances", instances, 4000, 100000,
         need={"files": 1000, "pd": 100, "pd_multi_depot": 30,
               "type_VRPB": 20, "profiles": 100, "groups_read": 100,
               "multi_dim": 50, "warned": 20, "not_warned": 200}),
    Part("solutions", solutions, 1500, 40000,
         need={"solutions_read": 500, "reloads_read": 50,
               "solutions_written": 500, "multi_type": 200,
               "shipments_written": 50}),
    Part("bad_files", bad_files, 600, 10000, need={"bad": 200}),
    Part("cli", cli, 60, 2000, need={"cli_runs": 20}),
]
