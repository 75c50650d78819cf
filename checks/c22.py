"""Statistics, results and progress output report what happened."""

import contextlib
import io
import logging
import math
import pathlib
import re
import shutil
import tempfile

from checks.c16 import Clock  # patches the clock before PyVRP is imported
from vlib import gen, oracle
from vlib.harness import Part
from vlib.lazy import P

PROPERTY = "C22"
VARIANT = "std"
RULE = ("an evaluation is one reported figure, file or progress line compared "
        "with the recorded history; distinct nontrivial counts distinct "
        "(kind of record, feasibility pattern, delimiter or line kinds) "
        "signatures")
ASSUME = ["not-a-number runtimes do not occur (clocks do not return them)",
          "progress lines keep the order of their documented columns"]

FIELDS = ["current_cost", "current_feas", "candidate_cost", "candidate_feas",
          "best_cost", "best_feas"]


@contextlib.contextmanager
def scratch():
    d = pathlib.Path(tempfile.mkdtemp(prefix="c22_"))
    try:
        yield d
    finally:
        shutil.rmtree(d)


def gen_solutions(rng, spec, n):
    out = []
    for _ in range(n):
        p = rng.choice([0, 0, 0.2])
        out.append(gen.gen_routes(rng, spec, p_skip_req=p))
    return out


def rows_of(stats):
    return [tuple(getattr(d, f) for f in FIELDS) for d in stats.data]


def random_row(rng):
    def c():
        return rng.choice([0, 1, rng.randint(-1000, 10**6), (1 << 63) - 1,
                           -(1 << 63), rng.randint(0, 1 << 62)])

    return [c(), rng.random() < 0.5, c(), rng.random() < 0.5, c(),
            rng.random() < 0.5]


def collect(rng, obs, stats=None, flag=True):
    """Collects for random solutions, on the virtual clock."""
    spec = gen.gen_spec(rng, max_clients=6, max_shipments=2)
    data = gen.build(spec)
    sols = gen_solutions(rng, spec, rng.randint(1, 4))
    made = [gen.make_solution(data, s) for s in sols]
    st = [oracle.solution_stats(spec, s) for s in sols]
    n = rng.choice([0, 1, 2, 5, 20])
    Clock.on, Clock.now = True, rng.choice([0.0, 17.25, 1e6])
    want, times = [], []
    try:
        stats = P.Statistics(collect_stats=flag)
        for _ in range(n):
            dt = rng.choice([0.0, 0.1, 1 / 3, 2.5, 1e-9, 86400.125])
            before = Clock.now
            Clock.now += dt
            times.append(Clock.now - before)
            ijk = [rng.randrange(len(sols)) for _ in range(3)]
            pens = gen.gen_penalties(rng, spec["dims"])
            ce = P.CostEvaluator(*pens)
            stats.collect(made[ijk[0]], made[ijk[1]], made[ijk[2]], ce)
            row = []
            for i in ijk:
                row += [oracle.penalised_cost(st[i], pens),
                        st[i]["is_feasible"]]
            want.append(tuple(row))
    finally:
        Clock.on = False
    return stats, want, times


def collecting(rng, obs, tier):
    flag = rng.random() < 0.85
    stats, want, times = collect(rng, obs, flag=flag)
    obs.check(stats.is_collecting() == flag, "collecting or not")
    if not flag:
        want, times = [], []
        obs.count("not_collecting")
    obs.equal(rows_of(stats), want, "collected figures")
    obs.equal([tuple(getattr(d, f) for f in FIELDS) for d in stats], want,
              "iterated figures")
    obs.equal(stats.num_iterations, len(want), "number of iterations")
    obs.equal(stats.runtimes, times, "collected runtimes")
    obs.count("collected", len(want))
    if want:
        obs.seen("collect", len(want), [r[1::2] for r in want][:4])


def csv(rng, obs, tier):
    kind = rng.choice(["filled", "filled", "collected"])
    if kind == "collected":
        stats, *_ = collect(rng, obs)
    else:
        from pyvrp.Statistics import _Datum

        stats = P.Statistics()
        for _ in range(rng.choice([0, 1, 3, 30])):
            stats.data.append(_Datum(*random_row(rng)))
            stats.runtimes.append(rng.choice(
                [0.0, 0.1, 1 / 3, 1e-300, 5e-324, 1.7e308, math.inf,
                 rng.random(), rng.expovariate(1e-3)]))
            stats.num_iterations += 1
    delim = rng.choice([",", ",", ";", "\t", "|", " ", ":", "#"])
    args, read_args = {}, {}
    if delim != "," or rng.random() < 0.3:
        args["delimiter"] = read_args["delimiter"] = delim
    if rng.random() < 0.6:
        args["quoting"] = rng.choice([0, 1, 2, 3])
    if rng.random() < 0.2:
        args["quotechar"] = read_args["quotechar"] = "'"
    if rng.random() < 0.2:
        args["lineterminator"] = rng.choice(["\n", "\r\n"])
    want = rows_of(stats), list(stats.runtimes), stats.num_iterations
    with scratch() as d:
        path = d / rng.choice(["s.csv", "a b.txt", "x"])
        where = rng.choice([str, pathlib.Path])(path)
        if rng.random() < 0.2:
            path.write_text("old content\n" * 100)
        stats.to_csv(where, **args)
        obs.equal((rows_of(stats), stats.runtimes, stats.num_iterations),
                  want, "writing changed the statistics")
        back = P.Statistics.from_csv(where, **read_args)
        got = rows_of(back), back.runtimes, back.num_iterations
        obs.equal(got, want, "statistics read back",
                  lambda: f"{args} {path.read_text()[:2000]}")
        obs.check(all(type(a) is type(b) for x, y in zip(got[0], want[0])
                      for a, b in zip(x, y)), "types read back")
        obs.check(back == stats and stats == back and not stats != back,
                  "statistics read back are not equal")
        # The file itself: one row per iteration, under a header.
        lines = path.read_text().split("\n")
        lines = [ln for ln in lines if ln.strip()]
        obs.equal(len(lines), 1 + len(stats.data), "lines in the file")
        head = [h.strip("\"'") for h in lines[0].rstrip("\r").split(delim)]
        obs.equal(sorted(head), sorted(["runtime", *FIELDS]), "header")
        for ln, row, rt in zip(lines[1:], *want[:2]):
            cells = dict(zip(head, [c.strip("\"'") for c in
                                    ln.rstrip("\r").split(delim)]))
            obs.equal([int(cells[f]) for f in FIELDS], list(map(int, row)),
                      "figures in the file", ln)
            obs.equal(float(cells["runtime"]), rt, "runtime in the file", ln)
        # Foreign columns and another order of columns are understood.
        if rng.random() < 0.3:
            import csv as lib

            cols = ["runtime", *FIELDS, "extra"]
            rng.shuffle(cols)
            with open(path, "w", newline="") as fh:
                w = lib.writer(fh, delimiter=delim)
                w.writerow(cols)
                for row, rt in zip(*want[:2]):
                    c = dict(zip(FIELDS, map(int, row)), runtime=repr(rt),
                             extra="what")
                    w.writerow([c[x] for x in cols])
            back = P.Statistics.from_csv(path, delimiter=delim)
            obs.check(back == stats, "statistics with foreign columns")
            obs.count("foreign_columns")
    # Equality notices any difference.
    if stats.data:
        i = rng.randrange(len(stats.data))
        what = rng.choice(["runtime", "drop", "iters", *FIELDS])
        if what == "runtime":
            back.runtimes[i] += 1 if math.isfinite(
                back.runtimes[i]) and back.runtimes[i] < 1e9 else -math.inf
            if back.runtimes[i] == stats.runtimes[i] \
                    or math.isnan(back.runtimes[i]):
                back.runtimes[i] = -1.0
        elif what == "drop":
            back.data.pop(i)
        elif what == "iters":
            back.num_iterations += 1
        else:
            v = getattr(back.data[i], what)
            setattr(back.data[i], what,
                    not v if isinstance(v, bool) else v ^ 1)
        obs.check(back != stats and stats != back,
                  "different statistics are equal", what)
        obs.count("different")
    else:
        obs.check(P.Statistics(True) == P.Statistics(True)
                  and P.Statistics(False) != P.Statistics(True),
                  "equality of empty statistics")
    obs.check(stats != 1 and stats != "x", "equality with something else")
    obs.count("files")
    obs.count(f"quoting_{args.get('quoting', 'default')}")
    obs.seen("csv", delim, args.get("quoting"), len(stats.data),
             [r[1::2] for r in want[0]][:3])


def summary_figures(text):
    out = {}
    for ln in text.splitlines():
        m = re.match(r"\s*([#\w\- ]*[\w]):\s+(.*\S)\s*$", ln)
        if m:
            out[m.group(1).strip()] = m.group(2)
    return out


def check_summary(obs, text, st, iters, runtime, detail):
    f = summary_figures(text)
    obj = (str(oracle.cost(st)) if st["is_feasible"] else "INFEASIBLE")
    want = {"# routes": str(st["num_routes"]), "# trips": str(st["num_trips"]),
            "# clients": str(st["num_clients"]),
            "# shipments": str(st["num_shipments"]), "objective": obj,
            "distance": str(st["distance"]), "duration": str(st["duration"]),
            "# iterations": str(iters)}
    for k, v in want.items():
        obs.equal(f.get(k), v, f"summary: {k}", detail)
    got = f.get("run-time", "").split()
    obs.check(got and abs(float(got[0]) - runtime) <= 0.00501 + 1e-9 * runtime,
              "summary: run-time", detail)


def results(rng, obs, tier):
    spec = gen.gen_spec(rng, max_clients=8, max_shipments=3)
    data = gen.build(spec)
    [routes] = gen_solutions(rng, spec, 1)
    sol = gen.make_solution(data, routes)
    st = oracle.solution_stats(spec, routes)
    iters = rng.choice([0, 1, 7, 10**9])
    runtime = rng.choice([0, 0.0, 0.005, 1.234, 99.999, 12345.678])
    stats = P.Statistics()
    res = P.Result(sol, stats, iters, runtime)
    what = lambda: f"{routes} {res}"  # noqa: E731
    obs.check(res.best == sol and res.stats is stats
              and res.num_iterations == iters and res.runtime == runtime,
              "fields of the result")
    obs.check(res.is_feasible() == st["is_feasible"],
              "feasibility of the result", what)
    obs.equal(res.cost(), oracle.cost(st) if st["is_feasible"] else math.inf,
              "cost of the result", what)
    check_summary(obs, res.summary(), st, iters, runtime, what)
    text = str(res)
    check_summary(obs, text, st, iters, runtime, what)
    # The routes are printed too, in order.
    shown = [ln for ln in text.splitlines() if ln.startswith("Route #")]
    obs.equal(len(shown), len(routes), "routes shown", what)
    for k, (ln, (acts, _)) in enumerate(zip(shown, routes)):
        visits = " ".join("|" if a[0] == "D" else a for a in acts)
        obs.equal(ln.split(), f"Route #{k + 1}: {visits}".split(),
                  "route shown", what)
    other = P.Result(sol, P.Statistics(), iters, runtime)
    obs.check(res == other, "equal results differ", what)
    obs.check(res != P.Result(sol, stats, iters + 1, runtime)
              and res != P.Result(sol, stats, iters, runtime + 1),
              "different results are equal", what)
    obs.raises(ValueError, lambda: P.Result(
        sol, stats, -rng.randint(1, 5), runtime), "negative iterations")
    obs.raises(ValueError, lambda: P.Result(
        sol, stats, iters, -rng.choice([1, 0.001])), "negative runtime")
    obs.count("results")
    obs.count("results_infeasible", not st["is_feasible"])
    obs.seen("result", st["is_feasible"], st["num_routes"], st["num_trips"],
             st["num_shipments"])


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())

    def take(self):
        out, self.lines = "\n".join(self.lines).splitlines(), []
        return out


@contextlib.contextmanager
def captured():
    log = logging.getLogger("pyvrp")
    h = Capture()
    old, prop = log.level, log.propagate
    log.addHandler(h)
    log.setLevel(logging.INFO)
    log.propagate = False
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield h
    finally:
        log.removeHandler(h)
        log.setLevel(old)
        log.propagate = prop


LINE = re.compile(r"^\s*(H?)\s*(\d+)\s+(-?\d+)s\s*\|"
                  r"\s*(-?\d+)\s+([YN])\s+(-?\d+)\s+([YN])\s+(-?\d+)\s+([YN])"
                  r"\s*$")


def parse_line(obs, line):
    m = LINE.match(line)
    obs.check(m is not None, "progress line", line)
    g = m.groups()
    row = (int(g[3]), g[4] == "Y", int(g[5]), g[6] == "Y", int(g[7]),
           g[8] == "Y")
    return g[0] == "H", int(g[1]), int(g[2]), row


def counts_in(text):
    return {k.rstrip("s"): int(n) for n, k in re.findall(
        r"(\d+) (depots?|clients?|shipments?|vehicle types?|vehicles?)\b",
        text)}


def check_start(obs, lines, spec):
    text = "\n".join(lines)
    got = counts_in(text)
    fleet = sum(v["num_available"] for v in spec["vehicle_types"])
    obs.equal(got, {"depot": len(spec["depots"]),
                    "client": len(spec["clients"]),
                    "shipment": len(spec["shipments"]),
                    "vehicle": fleet,
                    "vehicle type": len(spec["vehicle_types"])},
              "instance shown at the start", text)


def check_end(obs, lines, st, iters, runtime):
    text = "\n".join(lines)
    m = re.search(r"([\d.]+)s after (\d+) iterations", text)
    obs.check(m is not None, "end of the search", text)
    obs.check(abs(float(m.group(1)) - runtime) <= 0.00501 + 1e-9 * runtime
              and int(m.group(2)) == iters, "end of the search", text)
    m = re.search(r"cost (\S+)\.$", text, re.M)
    want = oracle.cost(st) if st["is_feasible"] else math.inf
    obs.check(m is not None and float(m.group(1)) == float(want),
              "cost at the end", text)
    check_summary(obs, text, st, iters, runtime, lambda: text)


def printer(rng, obs, tier):
    from pyvrp.ProgressPrinter import ProgressPrinter
    from pyvrp.Statistics import _Datum

    on = rng.random() < 0.85
    flag = rng.random() < 0.85
    interval = rng.choice([0, 0, 0.0, 0.5, 5.0, 1000])
    obs.raises(ValueError, lambda: ProgressPrinter(
        on, -rng.choice([1, 0.01, 1e9])), "negative interval")
    spec = gen.gen_spec(rng, max_clients=4, max_shipments=2)
    data = gen.build(spec)
    Clock.on, Clock.now = True, rng.choice([0.0, 100.0])
    try:
        with captured() as h:
            pr = ProgressPrinter(on, interval)
            last = Clock.now
            pr.start(data)
            lines = h.take()
            if on:
                check_start(obs, lines, spec)
            else:
                obs.equal(lines, [], "printed although off")
            stats = P.Statistics(collect_stats=flag)
            shown_best = math.inf
            kinds = []
            best = None
            for it in range(rng.choice([1, 5, 25])):
                dt = rng.choice([0.0, 0.25, 0.5, 1.0, 4.75, 5.0, 600.0])
                Clock.now += dt
                if rng.random() < 0.1:
                    pr.restart()
                    lines = h.take()
                    obs.equal(len(lines), int(on), "restart line", lines)
                    obs.check(not on or "restart" in lines[0],
                              "restart line", lines)
                if flag:
                    row = random_row(rng)
                    if best is not None and rng.random() < 0.7:
                        row[4:] = best
                        if rng.random() < 0.4:
                            row[4] -= rng.choice([1, 1, 5, -1])
                    best = row[4:]
                    stats.data.append(_Datum(*row))
                    stats.runtimes.append(dt)
                    stats.num_iterations += 1
                pr.iteration(stats)
                lines = h.take()
                due = on and flag and Clock.now - last >= interval
                obs.equal(len(lines), int(due), "lines printed",
                          lambda: f"{Clock.now - last} of {interval}")
                if not due:
                    kinds.append("-")
                    continue
                last = Clock.now
                heur, n, secs, got = parse_line(obs, lines[0])
                obs.equal(got, tuple(row), "figures of a progress line",
                          lines[0])
                obs.equal(n, it + 1, "iteration of a progress line", lines[0])
                obs.check(abs(secs - sum(stats.runtimes)) <= 0.5,
                          "time of a progress line", lines[0])
                new = row[5] and row[4] < shown_best
                obs.equal(heur, new, "new best marker", lines[0])
                if new:
                    shown_best = row[4]
                kinds.append("H" if new else ".")
                obs.count("lines")
                obs.count("lines_new_best", new)
            [routes] = gen_solutions(rng, spec, 1)
            st = oracle.solution_stats(spec, routes)
            iters, rt = rng.choice([0, 1, 999]), rng.choice([0.0, 3.14159])
            pr.end(P.Result(gen.make_solution(data, routes), stats, iters, rt))
            lines = h.take()
            if on:
                check_end(obs, lines, st, iters, rt)
            else:
                obs.equal(lines, [], "printed although off")
                obs.count("printers_off")
    finally:
        Clock.on = False
    obs.seen("printer", on, flag, interval, "".join(kinds)[:6])
    obs.count("printers")


def runs(rng, obs, tier):
    """Output of a whole run: a line per iteration, and the same run."""
    spec = gen.gen_spec(rng, min_visits=1, max_clients=6, max_shipments=2,
                        release_ok=True)
    data = gen.build(spec)
    n = rng.choice([0, 1, 4, 12])
    seed = rng.randint(0, 999)
    params = P.SolveParams(ils=P.IteratedLocalSearchParams(
        num_iters_no_improvement=rng.choice([1, 2, 3, 50]),
        history_length=rng.choice([1, 3, 50])))
    quiet = P.solve(data, P.MaxIterations(n), seed, collect_stats=True,
                    display=False, params=params)
    none = P.solve(data, P.MaxIterations(n), seed, collect_stats=False,
                   display=False, params=params)
    with captured() as h:
        res = _solve_displayed(data, n, seed, params)
        lines = h.take()
    def figures(r):
        return (list(map(str, r.best.routes())), r.num_iterations,
                rows_of(r.stats))

    obs.equal(figures(res), figures(quiet), "displaying changed the run")
    obs.equal((list(map(str, none.best.routes())), none.num_iterations),
              (list(map(str, quiet.best.routes())), n),
              "collecting changed the run")
    obs.equal(rows_of(none.stats), [], "collected although off")
    its = [ln for ln in lines if LINE.match(ln)]
    obs.equal(len(its), n, "progress lines of a run", lambda: lines)
    for i, ln in enumerate(its):
        _, k, _, row = parse_line(obs, ln)
        obs.equal((k, row), (i + 1, rows_of(res.stats)[i]),
                  "progress line of a run", ln)
    first = next((i for i, ln in enumerate(lines) if LINE.match(ln)),
                 len(lines))
    check_start(obs, lines[:first], spec)
    after = max([i for i, ln in enumerate(lines) if LINE.match(ln)],
                default=0)
    routes = [([str(a) for a in r][1:-1], r.vehicle_type())
              for r in res.best.routes()]
    st = oracle.solution_stats(spec, routes)
    check_end(obs, lines[after:], st, n, res.runtime)
    obs.equal(len(res.stats.runtimes), n, "runtimes collected")
    obs.check(all(t >= 0 for t in res.stats.runtimes)
              and sum(res.stats.runtimes) <= res.runtime + 1e-6,
              "runtimes of the iterations exceed that of the run",
              lambda: f"{res.stats.runtimes} {res.runtime}")
    # What is collected last is what is returned.
    if n:
        d = res.stats.data[-1]
        obs.equal(d.best_feas, res.is_feasible(), "last best feasibility")
        if d.best_feas:
            obs.equal(d.best_cost, res.cost(), "last best cost")
    obs.count("runs")
    obs.count("runs_feasible", res.is_feasible())
    obs.count("restart_lines", sum("restart" in ln for ln in lines))
    obs.seen("run", n, res.is_feasible(), sum("restart" in x for x in lines))


def _solve_displayed(data, n, seed, params):
    sp = P.SolveParams(ils=params.ils, penalty=params.penalty,
                       neighbourhood=params.neighbourhood,
                       display_interval=0.0)
    return P.solve(data, P.MaxIterations(n), seed, collect_stats=True,
                   display=True, params=sp)


PARTS = [
    Part("collecting", collecting, 800, 20000,
         need={"collected": 1000, "not_collecting": 20}),
    Part("csv", csv, 1500, 40000,
         need={"files": 800, "different": 200, "foreign_columns": 100,
               "quoting_0": 50, "quoting_1": 50, "quoting_2": 50,
               "quoting_3": 50}),
    Part("results", results, 800, 20000,
         need={"results": 500, "results_infeasible": 50}),
    Part("printer", printer, 800, 20000,
         need={"printers": 400, "lines": 1000, "lines_new_best": 200,
               "printers_off": 20}),
    Part("runs", runs, 200, 5000,
         need={"runs": 100, "runs_feasible": 20, "restart_lines": 20}),
]
