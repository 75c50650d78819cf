"""Plots draw the figures of the objects they are given."""

import os
import pathlib
import warnings

from vlib import gen, oracle
from vlib.harness import Part, Violation
from vlib.lazy import P

os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", str(
    pathlib.Path(__file__).resolve().parent.parent / ".build" / "mpl"))

PROPERTY = "C26"
VARIANT = "std"
RULE = ("an evaluation is one drawn line, set of points, bar series, shade or "
        "label compared with the figures of the plotted object; distinct "
        "nontrivial counts distinct (plot, options, number of trips, visits "
        "and unplanned visits by kind, time warp, slack) patterns")
ASSUME = ["what is drawn is read from the axes' artists and their legend "
          "labels, not from pixels",
          "time windows and demands are only plotted for instances with load "
          "dimensions where the documentation requires them"]


def plt():
    import matplotlib.pyplot as plt
    import pyvrp.plotting

    pathlib.Path(os.environ["MPLCONFIGDIR"]).mkdir(parents=True,
                                                   exist_ok=True)
    return plt, pyvrp.plotting


class Canvas:
    """An axes to draw on: a given one, or one that the plot makes itself."""

    def __init__(self, rng):
        self.plt, self.plotting = plt()
        self.plt.close("all")
        self.given = rng.random() < 0.5
        self.ax = None
        if self.given:
            _, axes = self.plt.subplots(1, 2)
            self.ax, self.other = axes

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.plt.close("all")

    def draw(self, obs, func, *args, **kw):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if self.given:
                func(*args, ax=self.ax, **kw)
                obs.check(not self.other.lines and not self.other.collections
                          and not self.other.patches,
                          "drawn on axes that were not given")
                obs.equal(len(self.plt.get_fignums()), 1, "figures")
            else:
                func(*args, **kw)
                obs.equal(len(self.plt.get_fignums()), 1, "figures")
                self.ax = self.plt.gcf().axes[0]
        obs.count("drawn")
        return Axes(self.ax)


def pts(xy):
    return tuple((float(x), float(y)) for x, y in xy)


class Axes:
    """What is drawn on some axes, as plain figures."""

    def __init__(self, ax):
        from matplotlib.collections import LineCollection, PathCollection
        from matplotlib.text import Annotation

        self.ax = ax
        self.lines = [(ln.get_label(), pts(ln.get_xydata()), ln.get_color())
                      for ln in ax.lines]
        self.points = [(c.get_label(), pts(c.get_offsets()))
                       for c in ax.collections
                       if isinstance(c, PathCollection)]
        self.segments = [(c.get_label(), [pts(s) for s in c.get_segments()])
                         for c in ax.collections
                         if isinstance(c, LineCollection)]
        self.shades = {c.get_label(): pts(c.get_paths()[0].vertices)
                       for c in ax.collections
                       if type(c).__name__ in ("PolyCollection",
                                               "FillBetweenPolyCollection")
                       and c.get_paths()}
        self.bars = [(float(p.get_x() + p.get_width() / 2), float(p.get_y()),
                      float(p.get_height())) for p in ax.patches]
        self.arrows = [(pts([a.xyann])[0], pts([a.xy])[0]) for a in ax.texts
                       if isinstance(a, Annotation)]
        self.title = ax.get_title()

    def line(self, label):
        found = [xy for lb, xy, _ in self.lines if lb == label]
        assert len(found) == 1, f"{len(found)} lines {label!r}"
        return found[0]

    def dots(self, label):
        return sorted(p for lb, xy in self.points if lb == label for p in xy)

    def legend(self):
        lg = self.ax.get_legend()
        return [t.get_text() for t in lg.get_texts()] if lg else None


def where(spec, act):
    loc = spec["locations"][oracle.step(spec, act)[0]]
    return (float(loc["x"]), float(loc["y"]))


def places(spec, kind):
    n = {"C": "clients", "D": "depots", "L": "shipments",
         "U": "shipments"}[kind]
    return sorted(where(spec, f"{kind}{i}") for i in range(len(spec[n])))


def make(rng, **kw):
    kw = {**dict(max_clients=7, max_shipments=3, release_ok=True), **kw}
    return gen.gen_spec(rng, **kw)


def check_coordinates(obs, spec, got):
    for label, kind in (("Depot", "D"), ("Clients", "C"), ("Pickups", "L"),
                        ("Deliveries", "U")):
        obs.equal(got.dots(label), places(spec, kind), f"points of {label}")
    obs.equal(sum(len(xy) for _, xy in got.points),
              len(spec["depots"]) + len(spec["clients"])
              + 2 * len(spec["shipments"]), "number of points")
    obs.equal(got.lines, [], "lines between coordinates")


def check_demands(obs, spec, got, dim):
    want = sorted(float(c["delivery"][dim]) for c in spec["clients"])
    obs.equal(got.bars, [(float(i), 0.0, d) for i, d in enumerate(want)],
              "bars of demands")


def check_windows(obs, spec, got):
    want = sorted((c["tw_early"], c["tw_late"]) for c in spec["clients"])
    obs.equal(got.bars, [(float(i), float(a), float(b - a))
                         for i, (a, b) in enumerate(want)],
              "bars of time windows")


def instance(rng, obs, tier):
    """Coordinates, demands and time windows of an instance."""
    spec = make(rng)
    data = gen.build(spec)
    dims, n = spec["dims"], len(spec["clients"])
    with Canvas(rng) as cv:
        kind = rng.choice(["coordinates", "demands", "windows", "all"])
        title = rng.choice([None, "A title"])
        kw = {} if title is None else {"title": title}
        if kind == "coordinates":
            got = cv.draw(obs, cv.plotting.plot_coordinates, data, **kw)
            check_coordinates(obs, spec, got)
            obs.equal(got.title, title or "Coordinates", "title")
        elif kind == "demands":
            dim = rng.randint(0, dims)
            if dim and rng.random() < 0.5:
                dim -= 1
            if dim >= dims:
                obs.raises(ValueError, lambda: cv.plotting.plot_demands(
                    data, dim, ax=cv.ax), "dimension out of bounds", dim)
                obs.count("refused")
                return
            got = cv.draw(obs, cv.plotting.plot_demands, data, dim, **kw)
            check_demands(obs, spec, got, dim)
            mean = sum(c["delivery"][dim] for c in spec["clients"]) \
                / max(n, 1)
            if title:
                obs.equal(got.title, title, "title")
            elif mean:
                veh = sum(v["num_available"] for v in spec["vehicle_types"])
                cap = sum(float(v["capacity"][dim]) * v["num_available"]
                          for v in spec["vehicle_types"]) / veh
                obs.check(f"{cap:.2f}" in got.title
                          and f"{cap / mean:.2f}" in got.title,
                          "title of the demands",
                          lambda: f"{got.title} {cap} {mean}")
        elif kind == "windows":
            got = cv.draw(obs, cv.plotting.plot_time_windows, data, **kw)
            check_windows(obs, spec, got)
            obs.equal(got.title, title or "Time windows", "title")
        else:
            kind = "all"
            fig = cv.plt.figure() if cv.given else None
            if dims == 0:
                obs.raises(ValueError,
                           lambda: cv.plotting.plot_instance(data, fig),
                           "demands of an instance without load dimensions")
                return
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                cv.plotting.plot_instance(data, fig)
            axes = [Axes(a) for a in (fig or cv.plt.gcf()).axes]
            obs.equal(len(axes), 3, "parts of the instance plot")
            check_windows(obs, spec, axes[0])
            check_demands(obs, spec, axes[1], 0)
            check_coordinates(obs, spec, axes[2])
            obs.count("drawn")
    obs.count(f"instance_{kind}")
    obs.count("without_clients", not n)
    obs.seen("instance", kind, n, len(spec["shipments"]),
             len(spec["depots"]), dims)


def check_solution(obs, spec, routes, unplanned, got, locations):
    obs.equal(got.dots("Depot"), places(spec, "D"), "points of depots")
    lines, dots, arrows, colours = [], {}, [], []
    for k, (acts, vt_idx) in enumerate(routes, 1):
        vt = spec["vehicle_types"][vt_idx]
        seq = [f"D{vt['start_depot']}", *acts, f"D{vt['end_depot']}"]
        stops = [i for i, a in enumerate(seq) if a[0] == "D"]
        mine = []
        for i, j in zip(stops, stops[1:]):
            xy = tuple(where(spec, a) for a in seq[i + 1: j])
            if not xy:
                continue
            if locations or len(xy) == 1:
                dots.setdefault(f"Route {k}", []).extend(xy)
            if len(xy) > 1:
                lines.append(xy)
                mine.append(xy)
            lines.append((xy[-1], where(spec, seq[j])))
            arrows.append((where(spec, seq[i]), xy[0]))
        colours.append(mine)
    what = lambda: f"{routes} {got.lines}"  # noqa: E731
    obs.equal(sorted(xy for _, xy, _ in got.lines), sorted(lines),
              "lines of the routes and to the depots", what)
    obs.equal(sorted(got.arrows), sorted(arrows), "arrows from the depots",
              what)
    for k in range(1, len(routes) + 1):
        obs.equal(got.dots(f"Route {k}"), sorted(dots.get(f"Route {k}", [])),
                  "points of a route", what)
    want = sorted(where(spec, a) for a in unplanned) if locations else []
    obs.equal(got.dots("Unvisited"), want, "points of unplanned visits", what)
    obs.equal(sum(len(xy) for _, xy in got.points),
              len(spec["depots"]) + len(want)
              + sum(len(v) for v in dots.values()), "number of points", what)
    return len(lines)


def unplanned_of(spec, routes):
    seen = {a for acts, _ in routes for a in acts}
    return [a for a in [*(f"C{i}" for i in range(len(spec["clients"]))),
                        *(f"{t}{i}" for i in range(len(spec["shipments"]))
                          for t in "LU")] if a not in seen]


def solution(rng, obs, tier):
    """Routes, trips and unplanned visits of a solution."""
    spec = make(rng, min_visits=1, max_types=3, dims=rng.choice([0, 1]))
    data = gen.build(spec)
    routes = gen.gen_routes(rng, spec, p_skip_req=rng.choice([0, 0.4]))
    sol = gen.make_solution(data, routes)
    shown = [([str(a) for a in r][1:-1], r.vehicle_type())
             for r in sol.routes()]
    un = unplanned_of(spec, shown)
    locations = rng.random() < 0.5
    with Canvas(rng) as cv:
        got = cv.draw(obs, cv.plotting.plot_solution, sol, data,
                      **({"plot_locations": True} if locations else {}))
        obs.count("solution_lines",
                  check_solution(obs, spec, shown, un, got, locations))
    trips = [sum(a[0] == "D" for a in r) for r, _ in shown]
    obs.count("several_trips", any(trips))
    obs.count("unplanned", bool(un and locations))
    obs.seen("solution", locations, tuple(trips), len(un),
             tuple("".join(a[0] for a in r) for r, _ in shown))


def loads_of(spec, seq, vt, dim):
    """Load in the vehicle: (on arrival, when leaving) of each activity."""
    def item(a):
        k, i = a[0], int(a[1:])
        if k == "C":
            c = spec["clients"][i]
            return c["pickup"][dim], c["delivery"][dim]
        if k == "D":
            return 0, 0
        amt = spec["shipments"][i]["amount"][dim]
        return (amt, 0) if k == "L" else (0, amt)

    out, load = [], vt["initial_load"][dim]
    stops = [i for i, a in enumerate(seq) if a[0] == "D"]
    for n, a in enumerate(seq):
        before = load
        if a[0] == "D":
            if n == len(seq) - 1:
                out.append((before, before))
                continue
            nxt = next(j for j in stops if j > n)
            start = sum(item(b)[1] for b in seq[n + 1: nxt] if b[0] == "C")
            if n == 0:
                load += start
                before = load
            else:  # everything left is unloaded, the next trip's is loaded
                load = start
        else:
            p, d = item(a)
            load += p - d
        out.append((before, load))
    return out


def schedule(rng, obs, tier):
    """The time, driving, service and load traces of a route."""
    spec = make(rng, min_visits=1, reload=rng.random() < 0.6,
                max_types=3)
    data = gen.build(spec)
    routes = gen.gen_routes(rng, spec)
    if not routes:
        return
    acts, vt_idx = rng.choice(routes)
    vt = spec["vehicle_types"][vt_idx]
    if rng.random() < 0.1:
        acts = []
    route = gen.make_route(data, acts, vt_idx)
    seq = [f"D{vt['start_depot']}", *acts, f"D{vt['end_depot']}"]
    dim = rng.randint(0, max(spec["dims"], 1))
    legend = rng.random() < 0.7
    title = rng.choice([None, "Some route"])
    kw = {k: v for k, v, d in (("load_dimension", dim, 0),
                               ("legend", legend, True),
                               ("title", title, None))
          if v != d or rng.random() < 0.5}
    dist, dur = (spec[m][vt["profile"]] for m in ("dist", "dur"))
    sched = route.schedule()
    obs.equal([str(a) for a in sched], seq, "scheduled activities")
    loads = loads_of(spec, seq, vt, dim) if dim < spec["dims"] else None
    time, serv, drive, load, windows, warped = [], [], [], [], [], []
    d = t = s = 0
    for n, a in enumerate(sched):
        loc, early, late, service, _ = oracle.step(spec, seq[n])
        if n:
            prev = oracle.step(spec, seq[n - 1])[0]
            d += dist[prev][loc]
            t += dur[prev][loc]
        time += [(d, a.start_time - a.wait_duration), (d, a.start_time),
                 (d, a.end_time)]
        serv += [(d, t + s), (d, t + s)]
        s += service if n < len(sched) - 1 else 0
        serv.append((d, t + s))
        drive += [(d, t)] * 3
        windows.append(((d, early), (d, late)))
        if loads:
            load += [(d, loads[n][0]), (d, loads[n][1]), (d, loads[n][1])]
        if a.time_warp:
            warped.append((d, a.start_time + a.time_warp))
    with Canvas(rng) as cv:
        got = cv.draw(obs, cv.plotting.plot_route_schedule, data, route, **kw)
        what = lambda: f"{seq} {vt} {got.lines}"  # noqa: E731
        for label, want in (("Time (earliest)", time),
                            ("Drive + service time", serv),
                            ("Drive time", drive)):
            obs.equal(thin(got.line(label)), thin(pts(want)), label, what)
        obs.equal(len(got.lines), 3, "number of lines", what)
        segs = dict(got.segments)
        obs.equal(sorted(segs.get("Time window", [])),
                  sorted(pts(w) for w in windows), "time windows", what)
        obs.equal(sorted(max(x, key=lambda p: p[1]) if x[0][1] != x[1][1]
                         else x[0] for x in segs.get("Time warp", [])
                         ) if all_late(spec, sched, seq) else
                  sorted(x[0] for x in segs.get("Time warp", [])),
                  sorted(pts(warped)), "time warp", what)
        slack = route.slack()
        obs.equal("Time (slack)" in got.shades, slack > 0, "slack shown",
                  what)
        if slack > 0:
            obs.equal(hull(got.shades["Time (slack)"]),
                      hull(pts(time) + pts((x, y + slack) for x, y in time)),
                      "shade of the slack", what)
            obs.count("with_slack")
        twins = [a for a in got.ax.figure.axes
                 if a is not got.ax and a.bbox.bounds == got.ax.bbox.bounds]
        obs.equal(len(twins), int(loads is not None), "axes for the load")
        if loads is not None:
            tw = Axes(twins[0])
            obs.equal(hull(tw.shades.get("Load in vehicle", ())),
                      hull(pts(load) + pts((x, 0) for x, _ in load)),
                      "load in the vehicle", what)
            cap = vt["capacity"][dim]
            if cap:
                obs.equal(tuple(map(float, tw.ax.get_ylim())),
                          (0.0, float(cap)), "load axis")
            obs.check(f"{cap:.0f}" in tw.ax.get_ylabel(), "capacity label",
                      tw.ax.get_ylabel)
            obs.equal(tw.legend() is not None, legend, "legend of the load")
            obs.count("with_load")
        obs.equal(got.legend() is not None, legend, "legend of the schedule")
        obs.equal(got.title, title or "", "title")
    trips = sum(a[0] == "D" for a in acts)
    obs.count("schedules")
    obs.count("multi_trip", trips > 0)
    obs.count("warped", bool(warped))
    obs.seen("schedule", "".join(a[0] for a in seq), bool(warped),
             slack > 0, loads is not None, legend)


def all_late(spec, sched, seq):
    """Whether all time warp is due to the activities' own time windows."""
    return all(a.start_time >= oracle.step(spec, x)[2]
               for a, x in zip(sched, seq) if a.time_warp)


def thin(xy):
    """Drops repeated points, which cannot be seen."""
    return [p for i, p in enumerate(xy) if not i or xy[i - 1] != p]


def hull(xy):
    return sorted({*xy})


def trend(times):
    """Least squares over the iterations 1, 2, ..., as (x, y) pairs."""
    n = len(times)
    mx, my = (n + 1) / 2, sum(times) / n
    sl = sum((i + 1 - mx) * (t - my) for i, t in enumerate(times)) \
        / sum((i + 1 - mx) ** 2 for i in range(n))
    return [(float(i + 1), my + sl * (i + 1 - mx)) for i in range(n)]


def follows(xy, line, shift, times):
    """Whether the points are those of the line's ends, moved to the left."""
    tol = 1e-6 * max(times) + 1e-12
    sl = (line[-1][1] - line[0][1]) / (line[-1][0] - line[0][0])
    return (len(xy) >= 2
            and (xy[0][0], xy[-1][0]) == (1.0 - shift, len(line) - shift)
            and all(abs(y - (line[0][1] + sl * (x + shift - 1))) <= tol
                    for x, y in xy))


def trending(rng, obs, tier):
    """Fixed runtimes: the known finding of the trend line's place."""
    from pyvrp import Statistics

    spec = make(rng, min_visits=1, max_clients=2, shipments=False, dims=1)
    data = gen.build(spec)
    sol = gen.make_solution(data, gen.gen_routes(rng, spec))
    stats = Statistics()
    for _ in range(5):
        stats.collect(sol, sol, sol, P.CostEvaluator([1.0], 1.0, 1.0))
    stats.runtimes[:] = [1.0, 3.0, 5.0, 7.0, 9.0]  # 2 x - 1
    with Canvas(rng) as cv:
        got = cv.draw(obs, cv.plotting.plot_runtimes,
                      P.Result(sol, stats, 5, 1.0))
        xy = [(round(x, 6), round(y, 6)) for x, y in got.lines[1][1]]
        obs.count("trends")
        if xy[0] == (0.0, 1.0) and xy[-1] == (4.0, 9.0):
            raise Violation("trend line of the runtimes is out of place",
                            "runtimes 2 x - 1 drawn as 2 x + 1")
        obs.check((xy[0], xy[-1]) == ((1.0, 1.0), (5.0, 9.0)),
                  "trend line of known runtimes", lambda: xy)


def result(rng, obs, tier):
    """Objectives and runtimes of each iteration, and the best solution."""
    spec = make(rng, min_visits=1, max_clients=5, max_shipments=2,
                dims=rng.choice([0, 1]), time=rng.random() < 0.3,
                reload=rng.random() < 0.4)
    data = gen.build(spec)
    sols = [gen.make_solution(data, gen.gen_routes(rng, spec))
            for _ in range(4)]
    ce = P.CostEvaluator([3.0] * spec["dims"], 2.0, 1.0)
    n = rng.choice([1, 2, 5, 21, 45, 110])
    stats = P.Statistics()
    rows = []
    for _ in range(n):
        a, b, c = (rng.choice(sols) for _ in range(3))
        stats.collect(a, b, c, ce)
        rows.append(tuple(float(ce.penalised_cost(s)) for s in (a, b, c)))
    times = stats.runtimes
    best = rng.choice(sols)
    res = P.Result(best, stats, n, 1.0)
    kind = rng.choice(["objectives", "objectives", "runtimes", "all"])

    def objectives(got, skip):
        for k, label in enumerate(("Current", "Candidate", "Best")):
            obs.equal(got.line(label),
                      tuple((float(i + 1), rows[i][k])
                            for i in range(skip, n)), f"line {label}")
        obs.equal(len(got.lines), 3, "number of lines")

    def runtimes(got):
        obs.check(("" not in got.lines) and got.lines
                  and got.lines[0][1] == tuple(
                      (float(i + 1), float(t)) for i, t in enumerate(times)),
                  "line of the runtimes", lambda: f"{got.lines} {times}")
        obs.equal(len(got.lines), 1 + (n > 1), "number of lines")
        if n > 1:
            # Where the trend is drawn is judged in the part "trend".
            xy = got.lines[1][1]
            obs.check(any(follows(xy, trend(times), k, times)
                          for k in (0, 1)),
                      "trend line of the runtimes", lambda: f"{xy} {times}")

    with Canvas(rng) as cv:
        if kind == "objectives":
            kw, skip = {}, int(0.05 * n)
            if rng.random() < 0.5:
                kw["num_to_skip"] = skip = rng.choice([0, 0, 1, n // 2, n])
            lo, hi = 0.99, 1.05
            if rng.random() < 0.4:
                lo, hi = kw["ylim_adjust"] = rng.choice([(0.5, 2.0),
                                                         (0.0, 1.25)])
            got = cv.draw(obs, cv.plotting.plot_objectives, res, **kw)
            objectives(got, skip)
            cost = best.is_feasible() and res.cost()
            if cost and cost > 0:
                y = got.ax.get_ylim()
                obs.check(abs(y[0] - cost * lo) <= 1e-9 * cost
                          and abs(y[1] - cost * hi) <= 1e-9 * cost,
                          "range of the objectives", lambda: (y, cost))
                obs.count("feasible_results")
        elif kind == "runtimes":
            runtimes(cv.draw(obs, cv.plotting.plot_runtimes, res))
        else:
            fig = cv.plt.figure() if cv.given else None
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                cv.plotting.plot_result(res, data, fig)
            axes = [Axes(a) for a in (fig or cv.plt.gcf()).axes]
            obs.equal(len(axes), 3, "parts of the result plot")
            objectives(axes[0], int(0.05 * n))
            runtimes(axes[1])
            shown = [([str(a) for a in r][1:-1], r.vehicle_type())
                     for r in best.routes()]
            check_solution(obs, spec, shown, [], axes[2], False)
            obs.count("drawn")
    obs.count(f"result_{kind}")
    obs.seen("result", kind, n, best.is_feasible())


PARTS = [
    Part("instance", instance, 300, 6000,
         need={"instance_coordinates": 30, "instance_demands": 20,
               "instance_windows": 30, "instance_all": 20, "refused": 5,
               "without_clients": 3}),
    Part("solution", solution, 300, 6000,
         need={"solution_lines": 300, "several_trips": 20, "unplanned": 20}),
    Part("schedule", schedule, 300, 6000,
         need={"schedules": 200, "multi_trip": 30, "warped": 20,
               "with_slack": 20, "with_load": 60}),
    Part("result", result, 200, 4000,
         need={"result_objectives": 50, "result_runtimes": 20,
               "result_all": 20, "feasible_results": 20}),
    Part("trend", trending, 1, 1, need={"trends": 1}),
]
