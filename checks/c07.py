"""Search routes report exact statistics after any history of edits."""

from vlib import gen, oracle
from vlib.harness import Part
from vlib.lazy import P, S, X

PROPERTY = "C07"
VARIANT = "std"
RULE = ("an evaluation is one statistic or node attribute of a search route, "
        "read after an edit and update, and compared with a list model and "
        "independent execution of the visits; distinct nontrivial counts "
        "distinct (edit kind, route shape) combinations")
ASSUME = ["statistics are read after update(), as the class requires",
          "shipments are paired within a trip when statistics are read"]

STATS = ("distance", "distance_cost", "excess_distance", "duration",
         "overtime", "duration_cost", "time_warp", "num_clients",
         "num_shipments", "num_trips", "num_depots", "excess_load",
         "has_excess_load", "has_excess_distance", "has_time_warp",
         "is_feasible", "start_depot", "end_depot", "fixed_vehicle_cost")


def paired(acts):
    open_ = set()
    for a in acts:
        if a[0] == "L":
            open_.add(a[1:])
        elif a[0] == "U":
            if a[1:] not in open_:
                return False
            open_.discard(a[1:])
        elif a[0] == "D" and open_:
            return False
    return not open_


def structure(obs, route, acts, vt, spec, why):
    v = spec["vehicle_types"][vt]
    want = [f"D{v['start_depot']}", *acts, f"D{v['end_depot']}"]
    got = [str(n) for n in route]
    obs.equal(got, want, "search route's activities", why)
    obs.equal(len(route), len(want), "search route's size", why)
    obs.equal(route.vehicle_type, vt, "search route's vehicle type", why)
    trip = 0
    for k in range(len(want)):
        n = route[k]
        start, end = k == 0, k == len(want) - 1
        if n.is_depot() and not start:
            trip += 1
        obs.equal((n.pos, n.trip, n.idx), (k, trip, int(want[k][1:])),
                  "node's position, trip or index", why)
        obs.check(n.route is route, "node's route", why)
        c = want[k][0]
        obs.equal((n.is_client(), n.is_depot(), n.is_start_depot(),
                   n.is_end_depot(), n.is_reload_depot(), n.is_pickup(),
                   n.is_delivery(), n.is_shipment()),
                  (c == "C", c == "D", start, end,
                   c == "D" and not start and not end, c == "L", c == "U",
                   c in "LU"), "node predicates", why)


def statistics(obs, route, acts, vt, spec, rng, why):
    ex = oracle.Execution(spec, acts, vt)
    st = ex.stats()
    for name in STATS:
        obs.equal(getattr(route, name)(), st[name], f"search route {name}",
                  why)
    obs.equal(route.num_pickups(), st["num_shipments"],
              "search route num_pickups", why)
    obs.equal(route.load(), [sum(x) for x in ex._trip_loads],
              "search route load", why)
    v = ex.vt
    obs.equal((route.capacity(), route.max_distance(), route.profile(),
               route.unit_distance_cost(), route.unit_duration_cost(),
               route.shift_duration(), route.max_trips(),
               route.unit_overtime_cost(), route.max_overtime()),
              (v["capacity"], v["max_distance"], v["profile"],
               v["unit_distance_cost"], v["unit_duration_cost"],
               v["shift_duration"], gen.max_trips(v),
               v["unit_overtime_cost"], v["max_overtime"]),
              "search route's vehicle data", why)

    if st["distance_cost"] or st["excess_distance"]:
        obs.check(route.has_distance_cost(), "has_distance_cost", why)
    if st["duration_cost"] or st["time_warp"]:
        obs.check(route.has_duration_cost(), "has_duration_cost", why)
    locs = [oracle.step(spec, a)[0] for a in ex.seq]
    n = len(locs)
    prof = rng.randrange(len(spec["dist"]))
    for p in {prof, v["profile"]}:
        cum = [0]
        for a, b in zip(locs, locs[1:]):
            cum.append(cum[-1] + spec["dist"][p][a][b])
        i = rng.randrange(n)
        j = i
        while j + 1 < n and rng.random() < 0.7:  # within a single trip
            j += 1
            if ex.seq[j][0] == "D":
                break
        obs.equal(route.dist_between(i, j, p), cum[j] - cum[i],
                  "distance between", why)
        obs.equal(route.dist_at(i, p), 0, "distance at", why)
        if p == v["profile"]:
            obs.equal((route.dist_before(i), route.dist_after(i)),
                      (cum[i], cum[-1] - cum[i]), "distance before or after",
                      why)
    # Loads and durations of stretches without depots.
    i = rng.randrange(1, n - 1) if n > 2 else None
    if i is not None and ex.seq[i][0] != "D":
        j = i
        while j + 1 < n - 1 and ex.seq[j + 1][0] != "D" and rng.random() < .7:
            j += 1
        for d in range(spec["dims"]):
            ls = route.load_between(i, j, d)
            need = delta = 0
            for a in ex.seq[i:j + 1]:
                if a[0] == "C":
                    need += spec["clients"][int(a[1:])]["delivery"][d]
            load = peak = need
            for a in ex.seq[i:j + 1]:
                k = int(a[1:])
                if a[0] == "C":
                    load += (spec["clients"][k]["pickup"][d]
                             - spec["clients"][k]["delivery"][d])
                else:
                    amt = spec["shipments"][k]["amount"][d]
                    load += amt if a[0] == "L" else -amt
                peak = max(peak, load)
            if all(a[0] == "C" for a in ex.seq[i:j + 1]):
                obs.equal((ls.initial(), ls.load(), ls.delta()),
                          (need, peak, load - need), "load between", why)
        p = rng.randrange(len(spec["dur"]))
        seg = None
        prev = None
        for a in ex.seq[i:j + 1]:
            loc, e, l, s, rel = oracle.step(spec, a)
            one = P.DurationSegment(s, 0, e, l, rel)
            seg = one if seg is None else P.DurationSegment.merge(
                spec["dur"][p][prev][loc], seg, one)
            prev = loc
        obs.equal(str(route.duration_between(i, j, p)), str(seg),
                  "duration between", why)
    obs.equal((route.duration_after(0).duration(),
               route.duration_after(0).time_warp(route.max_duration())),
              (st["duration"], st["time_warp"]), "duration after", why)
    if spec["features"]["release_ok"]:
        obs.equal((route.duration_before(n - 1).duration(),
                   route.duration_before(n - 1).time_warp(
                       route.max_duration())),
                  (st["duration"], st["time_warp"]), "duration before", why)
        obs.count("before_checked")
    segments(obs, route, ex, v, spec, rng, why)
    obs.count("statistics_checked")


def segments(obs, route, ex, v, spec, rng, why):
    """The parts of a route before, after and between positions."""
    seq, n = ex.seq, len(ex.seq)

    def visit_delta(a, d):
        k = int(a[1:])
        if a[0] == "C":
            c = spec["clients"][k]
            return c["delivery"][d], c["pickup"][d] - c["delivery"][d]
        amt = spec["shipments"][k]["amount"][d]
        return 0, amt if a[0] == "L" else -amt

    def peak(part, d, initial):
        need = initial + sum(visit_delta(a, d)[0] for a in part)
        level = top = need
        for a in part:
            level += visit_delta(a, d)[1]
            top = max(top, level)
        return top

    def trips_of(lo, hi):
        """Visits of lo..hi per trip, cut at the reload depots within."""
        out = [[]]
        for k in range(lo, hi + 1):
            if seq[k][0] == "D" and lo < k < hi:
                out.append([])
            elif seq[k][0] != "D":
                out[-1].append(seq[k])
        return out

    i = rng.randrange(n)
    for d in range(spec["dims"]):
        cap, init = v["capacity"][d], v["initial_load"][d]
        for what, seg, lo, hi in (
                ("before", route.load_before(i, d), 0, i),
                ("after", route.load_after(i, d), i, n - 1)):
            peaks = [peak(t, d, init if lo == 0 and k == 0 else 0)
                     for k, t in enumerate(trips_of(lo, hi))]
            obs.equal(seg.excess_load(cap),
                      sum(max(x - cap, 0) for x in peaks),
                      f"excess load {what}", why)
            obs.equal(seg.load(), peaks[-1 if what == "before" else 0],
                      f"load {what}", why)
    prof = v["profile"]

    def single(k, first=False):
        loc, e, l, s, rel = oracle.step(spec, seq[k])
        if k == 0:
            late = v["start_late"]
            late = v["tw_late"] if late is None else late
            return P.DurationSegment.merge(
                0, P.DurationSegment(0, 0, v["tw_early"], late),
                P.DurationSegment(s, 0, e, l)), loc
        if k == n - 1:
            return P.DurationSegment.merge(
                0, P.DurationSegment(0, 0, e, l),
                P.DurationSegment(0, 0, v["tw_early"], v["tw_late"])), loc
        if seq[k][0] == "D":  # service is part of what follows the depot
            return P.DurationSegment(s if first else 0, 0, e, l), loc
        return P.DurationSegment(s, 0, e, l, rel), loc

    def fold(lo, hi, p):
        seg, prev = single(lo, first=lo != hi)
        for k in range(lo + 1, hi + 1):
            one, loc = single(k)
            seg = P.DurationSegment.merge(spec["dur"][p][prev][loc], seg, one)
            prev = loc
        return seg

    def same(got, want, what):
        obs.equal((got.duration(), got.time_warp(), got.start_early(),
                   got.start_late(), got.release_time()),
                  (want.duration(), want.time_warp(), want.start_early(),
                   want.start_late(), want.release_time()), what, why)

    depots = [k for k in range(n) if seq[k][0] == "D"]
    t = rng.randrange(len(depots) - 1)
    lo, hi = depots[t], depots[t + 1]
    a = rng.randint(lo, hi)
    if rng.random() < 0.5:
        a = lo
    b = rng.randint(a, hi)
    p = rng.randrange(len(spec["dur"]))
    same(route.duration_between(a, b, p), fold(a, b, p),
         "duration between depots")
    same(route.duration_at(a, p), fold(a, a, p), "duration at")
    b = rng.randint(0, depots[1])
    same(route.duration_before(b), fold(0, b, prof), "duration before")
    a = rng.randint(depots[-2], n - 1)
    same(route.duration_after(a), fold(a, n - 1, prof), "duration after")
    obs.count("segments_checked")


def edits(rng, obs, tier, steps=25):
    spec = gen.gen_spec(rng, release_ok=rng.random() < 0.7,
                        reload=rng.random() < 0.7,
                        **{"min_visits": 2, **gen.large(rng, 0.01)})
    if spec["features"]["release_ok"]:
        # Any depot is inserted below, not only the reload depots.
        latest = max([c["release_time"] for c in spec["clients"]], default=0)
        for d in spec["depots"]:
            d["tw_late"] = max(d["tw_late"], latest)
    data = gen.build(spec)
    nv = len(spec["vehicle_types"])
    vts = [rng.randrange(nv) for _ in range(2)]
    routes = [X.Route(data, vt) for vt in vts]
    model = [[], []]
    names = [f"C{i}" for i in range(len(spec["clients"]))]
    # Shipments are stored as pairs, as in the search solution.
    names += [f"{k}{i}" for i in range(len(spec["shipments"])) for k in "LU"]
    node = {n: X.Node(n) for n in names}
    where = {n: None for n in names}
    hist = []

    def why():
        return f"vts={vts} history={hist} model={model}"

    for _ in range(steps):
        kind = rng.choice(["insert", "insert", "append", "remove", "swap",
                           "depot", "depot", "pair", "pair", "clear",
                           "transfer"])
        r = rng.randrange(2)
        acts, route = model[r], routes[r]
        free = [n for n in names if where[n] is None]
        if kind in ("insert", "append"):
            cand = [n for n in free if n[0] == "C"]
            if not cand:
                continue
            n = rng.choice(cand)
            k = len(acts) if kind == "append" else rng.randint(0, len(acts))
            (route.append(node[n]) if kind == "append"
             else route.insert(k + 1, node[n]))
            acts.insert(k, n)
            where[n] = r
            hist.append((kind, r, k, n))
        elif kind == "pair":
            cand = [n for n in free if n[0] == "L"]
            if not cand:
                continue
            n = rng.choice(cand)
            m = "U" + n[1:]
            i = rng.randint(0, len(acts))
            hi = i
            while hi < len(acts) and acts[hi][0] != "D":
                hi += 1
            j = rng.randint(i, hi) + 1
            route.insert(i + 1, node[n])
            acts.insert(i, n)
            route.insert(j + 1, node[m])
            acts.insert(j, m)
            where[n] = where[m] = r
            hist.append((kind, r, i, j, n))
        elif kind == "depot":
            d = rng.randrange(len(spec["depots"]))
            spots = [k for k in range(len(acts) + 1) if paired(acts[:k])]
            k = rng.choice(spots)
            hist.append((kind, r, k, d))
            full = (1 + sum(a[0] == "D" for a in acts) >= gen.max_trips(
                spec["vehicle_types"][vts[r]]))
            if full:
                obs.raises(ValueError,
                           lambda: route.insert(k + 1, X.Node(f"D{d}")),
                           "too many trips accepted", why)
                obs.count("rejected_inserts")
            else:
                route.insert(k + 1, X.Node(f"D{d}"))
                acts.insert(k, f"D{d}")
        elif kind == "remove":
            if not acts:
                continue
            k = rng.randrange(len(acts))
            n = acts[k]
            hist.append((kind, r, k, n))
            drop = [n]
            if n[0] in "LU":
                drop = ["L" + n[1:], "U" + n[1:]]
            elif n[0] == "D" and not paired(acts[:k] + acts[k + 1:]):
                continue
            if n[0] == "D":
                del route[k + 1]
                acts.pop(k)
            else:
                for x in drop:
                    k = acts.index(x)
                    del route[k + 1]
                    acts.pop(k)
                    where[x] = None
                    obs.check(node[x].route is None, "removed node's route",
                              why)
        elif kind == "swap":
            cs = [n for n in names if n[0] == "C"]
            if len(cs) < 2:
                continue
            a, b = rng.sample(cs, 2)
            hist.append((kind, a, b))
            X.Route.swap(node[a], node[b])
            ra, rb = where[a], where[b]
            ia = model[ra].index(a) if ra is not None else None
            ib = model[rb].index(b) if rb is not None else None
            if ra is not None:
                model[ra][ia] = b
            if rb is not None:
                model[rb][ib] = a
            where[a], where[b] = rb, ra
        elif kind == "transfer":
            cs = [n for n in acts if n[0] == "C"]
            if not cs:
                continue
            n = rng.choice(cs)
            hist.append((kind, r, n))
            k = acts.index(n)
            del route[k + 1]
            acts.pop(k)
            o = 1 - r
            k = rng.randint(0, len(model[o]))
            routes[o].insert(k + 1, node[n])
            model[o].insert(k, n)
            where[n] = o
        elif kind == "clear":
            if rng.random() < 0.7:
                continue
            hist.append((kind, r))
            route.update()
            route.clear()
            for n in acts:
                if n[0] != "D":
                    where[n] = None
                    obs.check(node[n].route is None, "cleared node's route",
                              why)
            acts.clear()
        obs.count(f"edit.{kind}")
        if rng.random() < 0.3:
            continue  # several edits before the next update
        for q in range(2):
            routes[q].update()
            structure(obs, routes[q], model[q], vts[q], spec, why)
            if paired(model[q]):
                statistics(obs, routes[q], model[q], vts[q], spec, rng, why)
            obs.seen(kind, len(model[q]),
                     sum(a[0] == "D" for a in model[q]),
                     any(a[0] == "L" for a in model[q]))
        for n in names:
            if where[n] is None:
                obs.check(node[n].route is None, "unplanned node's route",
                          why)
    obs.sample(hist[:12])


def load_unload(rng, obs, tier):
    """Search solutions hold exactly what was loaded, whatever came before."""
    spec = gen.gen_spec(rng, **{"min_visits": 1, **gen.large(rng)})
    data = gen.build(spec)
    ss = X.Solution(data)
    for step in range(8):
        routes = gen.gen_routes(rng, spec, p_skip_req=rng.choice([0, .3]),
                                any_reload=rng.random() < 0.3)
        if step and rng.random() < 0.6:  # small change of what is there
            routes = prev
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                routes = gen.tweak_routes(rng, spec, routes)
        prev = routes
        sol = gen.make_solution(data, routes)
        ss.load(sol)

        def why():
            return f"step {step}: {routes}"

        off = 0
        want_all = []
        for vt, v in enumerate(spec["vehicle_types"]):
            mine = [list(a) for a, t in routes if t == vt]
            mine += [[] for _ in range(v["num_available"] - len(mine))]
            for k, acts in enumerate(mine):
                r = ss.routes[off + k]
                structure(obs, r, acts, vt, spec, why)
                statistics(obs, r, acts, vt, spec, rng, why)
            off += v["num_available"]
            want_all += [(a, vt) for a in mine if a]
        obs.equal(len(ss.routes), off, "number of search routes", why)
        planned = {a for acts, _ in routes for a in acts}
        for n in ([*ss.clients] + [x for s in ss.shipments for x in s]):
            obs.equal(n.route is not None, str(n) in planned,
                      "planned activities after loading",
                      lambda: f"{n} {why()}")
        out = ss.unload()
        got = [([str(a) for a in r][1:-1], r.vehicle_type())
               for r in out.routes()]
        obs.equal(got, want_all, "unloaded solution", why)
        obs.check(out == sol, "unloaded solution differs from loaded one",
                  why)
        obs.count("loads")
        obs.seen("load", step, len(routes), len(planned))


PARTS = [
    Part("edits", edits, 2500, 40_000,
         {"statistics_checked": 1000, "rejected_inserts": 50,
          "before_checked": 200}),
    Part("load_unload", load_unload, 4000, 20_000, {"loads": 300}),
]
