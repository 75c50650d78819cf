"""The command line solves, reports and writes what the library gives."""

import contextlib
import io
import math
import pathlib
import re
import shutil
import sys
import tempfile
import warnings

from checks.c16 import Clock  # patches the clock before PyVRP is imported
from checks.c14 import File, canon, read_file
from checks.c22 import rows_of
from vlib.harness import Part, Skip
from vlib.lazy import P, S

PROPERTY = "C25"
VARIANT = "std"
RULE = ("an evaluation is one figure, file or row of a command line run "
        "compared with the library's own run; distinct nontrivial counts "
        "distinct (number of instances, options given, feasibility) patterns")
ASSUME = ["instances have no forbidden edges (their cost overflows in "
          "infeasible solutions, as documented for MAX_VALUE)"]


@contextlib.contextmanager
def scratch():
    d = pathlib.Path(tempfile.mkdtemp(prefix="c25_"))
    try:
        yield d
    finally:
        shutil.rmtree(d)


def gen_files(rng, n):
    files = []
    for _ in range(300):
        f = File(rng)
        if f.n > 1 and f.type != "VRPB" and len(set(f.allowed)) == 1 \
                and len(f.allowed[0]) == f.n:
            if not files or f.rf == files[0].rf:
                files.append(f)
        if len(files) == n:
            return files
    raise Skip


def call(args):
    from pyvrp import cli as mod

    argv, sys.argv = sys.argv, ["pyvrp", *map(str, args)]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(io.StringIO()):
            mod.main()
    finally:
        sys.argv = argv
    return out.getvalue()


def gen_config(rng):
    """A random configuration file, and the parameters it stands for."""
    lines, kw = [], {}
    if rng.random() < 0.4:
        names = [op.__name__ for op in S.OPERATORS]
        ops = rng.sample(names, rng.randint(1, len(names)))
        lines.append("operators = [" + ", ".join(f'"{o}"' for o in ops) + "]")
        kw["operators"] = [getattr(S, o) for o in ops]
    if rng.random() < 0.6:
        ils = dict(num_iters_no_improvement=rng.choice([1, 2, 50]),
                   history_length=rng.choice([1, 4, 100]))
        lines += ["[ils]", *(f"{k} = {v}" for k, v in ils.items())]
        kw["ils"] = P.IteratedLocalSearchParams(**ils)
    if rng.random() < 0.6:
        pen = dict(solutions_between_updates=rng.choice([1, 4]),
                   min_penalty=0.5, target_feasible=rng.choice([0.2, 0.8]))
        lines += ["[penalty]", *(f"{k} = {v}" for k, v in pen.items())]
        kw["penalty"] = P.PenaltyParams(**pen)
    if rng.random() < 0.6:
        nb = dict(num_neighbours=rng.choice([1, 3, 100]))
        lines += ["[neighbourhood]", *(f"{k} = {v}" for k, v in nb.items())]
        kw["neighbourhood"] = S.NeighbourhoodParams(**nb)
    if rng.random() < 0.6:
        pt = dict(min_perturbations=1, max_perturbations=rng.choice([1, 9]))
        lines += ["[perturbation]", *(f"{k} = {v}" for k, v in pt.items())]
        kw["perturbation"] = S.PerturbationParams(**pt)
    return "\n".join(lines) + "\n", P.SolveParams(**kw)


class Options:
    """Random options, with the stopping criterion that they stand for."""

    def __init__(self, rng, d, files, runtime_ok):
        self.iters = rng.choice([1, 4, 10, 25])
        self.seed = rng.randint(0, 500)
        self.args = ["--seed", self.seed, "--round_func", files[0].rf]
        self.runtime = self.no_impr = math.inf
        kinds = rng.choice(["i", "i", "in", "n"] + ["ir"] * (2 * runtime_ok))
        if "i" in kinds:
            self.args += ["--max_iterations", self.iters]
        else:
            self.iters = math.inf
        if "n" in kinds:
            self.no_impr = rng.choice([1, 3, 6])
            self.args += ["--no_improvement", self.no_impr]
        if "r" in kinds:
            self.runtime = rng.choice([0.0, 0.25, 1.0])
            self.args += ["--max_runtime", self.runtime]
        self.per_client = rng.random() < 0.3
        if self.per_client:
            self.args.append("--per_client")
        self.stats = self.sols = None
        if rng.random() < 0.7:
            self.stats = d / "x" / "t"
            self.args += ["--stats_dir", self.stats]
        if rng.random() < 0.7:
            self.sols = d / "x" / "s"
            self.args += ["--sol_dir", self.sols]
        self.params = P.SolveParams()
        self.config = rng.random() < 0.5
        if self.config:
            text, self.params = gen_config(rng)
            (d / "cfg.toml").write_text(text)
            self.args += ["--config_loc", d / "cfg.toml"]
        self.kinds = kinds
        rng.shuffle(files)

    def stop(self, data):
        m = data.num_clients if self.per_client else 1
        crit = []
        if self.runtime < math.inf:
            crit.append(P.MaxRuntime(self.runtime * m))
        if self.iters < math.inf:
            crit.append(P.MaxIterations(self.iters * m))
        if self.no_impr < math.inf:
            crit.append(P.NoImprovement(self.no_impr * m))
        return P.MultipleCriteria(crit)


def solution_cost(text):
    m = re.search(r"^cost:?\s+(\S+)", text, re.M | re.I)
    return m and float(m.group(1))


def check_one(obs, row, opts, data, ref, stem, text):
    """Row of the table and the files written for one instance."""
    what = lambda: f"{opts.args} {text}"  # noqa: E731
    obs.equal((row[1], row[3]), ("Y" if ref.is_feasible() else "N",
                                 str(ref.num_iterations)),
              "row of the table", what)
    obs.check(float(row[2]) == ref.cost()
              or abs(float(row[2]) - ref.cost()) < 0.01,
              "objective in the table", what)
    if opts.sols:
        path = opts.sols / f"{stem}.sol"
        obs.equal(canon(P.read_solution(path, data)), canon(ref.best),
                  "solution file of the command line",
                  lambda: f"{what()} {path.read_text()}")
        cost = solution_cost(path.read_text())
        obs.check(cost is not None and (
            cost == ref.cost() or abs(cost - ref.cost()) < 0.01),
            "cost in the solution file", path.read_text)
        obs.count("solution_files")
    if opts.stats:
        s = P.Statistics.from_csv(opts.stats / f"{stem}.csv")
        obs.equal(rows_of(s), rows_of(ref.stats),
                  "statistics file of the command line", what)
        obs.count("statistics_files")


def check_totals(obs, text, refs, runtimes):
    bad = sum(not r.is_feasible() for r in refs)
    m = re.search(r"not OK:\s*(\d+)", text)
    obs.check(m and int(m.group(1)) == bad, "infeasible instances", text)
    m = re.search(r"iterations:\s*(\d+)", text)
    avg = sum(r.num_iterations for r in refs) / len(refs)
    obs.check(m and abs(int(m.group(1)) - avg) <= 0.51,
              "average iterations", text)
    m = re.search(r"objective:\s*(\S+)", text)
    avg = sum(r.cost() for r in refs) / len(refs)
    obs.check(m and (float(m.group(1)) == avg
                     or abs(float(m.group(1)) - avg) <= 0.51),
              "average objective", text)
    m = re.search(r"run-time:\s*([\d.]+)s", text)
    avg = sum(runtimes) / len(runtimes)
    obs.check(m and abs(float(m.group(1)) - avg) <= 0.0065,
              "average run-time", text)


def table(text, stems):
    return [ln.split() for ln in text.splitlines()
            if ln.split() and ln.split()[0] in stems and "%" not in ln]


class Ticking:
    """Every look at the clock takes a little time."""

    def __init__(self, on, step):
        self.on, self.step = on, step

    def __enter__(self):
        if self.on:
            Clock.on, Clock.now, Clock.step = True, 5.0, self.step

    def __exit__(self, *_):
        Clock.on, Clock.step = False, 0.0


def single(rng, obs, tier):
    files = gen_files(rng, 1)
    with scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opts = Options(rng, d, files, runtime_ok=True)
        ticking = "r" in opts.kinds
        step = rng.choice([0.01, 0.04])
        stem = rng.choice(["abc", "X-n101", "a.b"])
        path = d / f"{stem}.vrp"
        data = read_file(rng, files[0], path)
        with Ticking(ticking, step):
            text = call([path, *opts.args])
        with Ticking(ticking, step):
            ref = P.solve(data, opts.stop(data), opts.seed,
                          collect_stats=opts.stats is not None,
                          params=opts.params, display=False)
        rows = table(text, [stem])
        obs.equal(len(rows), 1, "rows in the table", text)
        check_one(obs, rows[0], opts, data, ref, stem, text)
        if ticking:
            obs.check(abs(float(rows[0][4]) - ref.runtime) <= 0.00051,
                      "run-time in the table", text)
            obs.count("runtime_limited",
                      opts.iters * (data.num_clients if opts.per_client
                                    else 1) > ref.num_iterations)
        check_totals(obs, text, [ref], [float(rows[0][4])])
        obs.check(not (d / "x").exists() or opts.sols or opts.stats,
                  "files written unasked")
        for sub, on in (("t", opts.stats), ("s", opts.sols)):
            obs.equal((d / "x" / sub).exists(), bool(on),
                      "directory written or not", sub)
    obs.count("single")
    obs.count("per_client", opts.per_client)
    obs.count("configs", opts.config)
    obs.count("feasible", ref.is_feasible())
    obs.seen("single", opts.kinds, opts.per_client, opts.config,
             ref.is_feasible(), bool(opts.stats), bool(opts.sols))


def several(rng, obs, tier):
    files = gen_files(rng, rng.choice([2, 3]))
    names = rng.sample(["b", "a", "c-1", "z", "inst.x"], len(files))
    with scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opts = Options(rng, d, files, runtime_ok=False)
        datas, paths = [], []
        for name, f in zip(names, files):
            paths.append(d / f"{name}.vrp")
            datas.append(read_file(rng, f, paths[-1]))
        text = call([*paths, *opts.args, "--num_procs",
                     rng.choice([1, 2, 3])])
        order = sorted(range(len(files)), key=lambda i: paths[i])
        rows = table(text, [p.stem for p in paths])
        obs.equal([r[0] for r in rows], [paths[i].stem for i in order],
                  "instances in the table", text)
        refs = []
        for row, i in zip(rows, order):
            refs.append(P.solve(datas[i], opts.stop(datas[i]), opts.seed,
                                display=False, params=opts.params))
            check_one(obs, row, opts, datas[i], refs[-1], paths[i].stem, text)
        check_totals(obs, text, refs, [float(r[4]) for r in rows])
    obs.count("several")
    obs.seen("several", len(files), opts.kinds, opts.config, opts.per_client,
             tuple(r.is_feasible() for r in refs))


def refused(rng, obs, tier):
    """Unusable options end the program with an error, before solving."""
    files = gen_files(rng, 1)
    with scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        path = d / "abc.vrp"
        read_file(rng, files[0], path)
        good = [path, "--round_func", files[0].rf, "--seed", 1,
                "--max_iterations", 1]
        bad = rng.choice([
            good[:3] + good[5:],  # no seed
            good[1:],  # no instance
            [*good, "--round_func", "nonsense"],
            [*good, "--max_iterations", "many"],
            [*good, "--unknown", 1],
            [*good, "--seed", "x"],
        ])
        exc = obs.raises(SystemExit, lambda: call(bad), "options accepted",
                         bad)
        obs.check(exc.code not in (0, None), "exit code of a refusal", bad)
        kind, args = rng.choice([
            (ValueError, [*good[:5], "--max_iterations", -1]),
            (ValueError, [*good[:5], "--no_improvement", -2]),
            (ValueError, [*good[:5], "--max_runtime", -0.5]),
            (OSError, [d / "none.vrp", *good[1:]]),
            (OSError, [*good, "--config_loc", d / "none.toml"]),
        ])
        obs.raises(kind, lambda: call(args), "unusable value accepted", args)
    obs.count("refused", 2)


FIELDS = {
    "ils": dict(num_iters_no_improvement=(0, 1, 77), history_length=(1, 9),
                exhaustive_on_best=(False, True)),
    "penalty": dict(solutions_between_updates=(1, 33),
                    penalty_increase=(1, 1.0, 2.5),
                    penalty_decrease=(0, 0.0, 0.5, 1),
                    target_feasible=(0, 0.0, 0.3, 1.0),
                    feas_tolerance=(0, 0.0, 0.2, 1),
                    min_penalty=(0, 0.0, 1.5), max_penalty=(2, 33.5)),
    "neighbourhood": dict(weight_wait_time=(0, 0.0, 0.7),
                          num_neighbours=(1, 2, 60),
                          symmetric_proximity=(False, True)),
    "perturbation": dict(min_perturbations=(0, 1, 2),
                         max_perturbations=(2, 3, 40)),
}


def config(rng, obs, tier):
    """A parameter file means what it says, whatever it says."""
    default = P.SolveParams()
    want, lines, tail = {}, [], []

    def text(v):
        return str(v).lower() if isinstance(v, bool) else repr(v)

    if rng.random() < 0.5:
        v = want["display_interval"] = rng.choice([0, 0.0, 0.25, 5, 100])
        lines.append(f"display_interval = {v}")
    if rng.random() < 0.5:
        names = [op.__name__ for op in S.OPERATORS]
        names = rng.sample(names, rng.choice([0, 1, rng.randint(0, len(names)),
                                              len(names)]))
        lines.append("operators = [" + ", ".join(f"'{n}'" for n in names)
                     + "]")
        want["operators"] = [getattr(S, n) for n in names]
    rng.shuffle(lines)
    for sec in rng.sample(list(FIELDS), rng.randint(0, 4)):
        fields = FIELDS[sec]
        tail.append(f"[{sec}]")
        for k in rng.sample(list(fields), rng.randint(0, len(fields))):
            v = want[sec, k] = rng.choice(fields[k])
            tail.append(f"{k} = {text(v)}")
    bad = None
    if rng.random() < 0.2:
        bad = rng.choice(["key", "operator", "value", "syntax"])
        if bad == "key":
            tail += [] if tail else ["[ils]"]
            tail.append(rng.choice(["unknown = 3", "callback = 1"]))
        elif bad == "operator":
            lines = ["operators = ['NoSuchOperator']"]
        elif bad == "value":
            tail = rng.choice([
                ["[ils]", "history_length = 0"],
                ["[penalty]", "penalty_increase = 0.5"],
                ["[penalty]", "min_penalty = -1.0"],
                ["[neighbourhood]", "num_neighbours = 0"],
                ["[perturbation]", "min_perturbations = 5",
                 "max_perturbations = 4"]])
        else:
            lines.append("this is not = = TOML")
    with scratch() as d:
        path = d / "cfg.toml"
        path.write_text("\n".join(lines + tail) + "\n")
        loc = rng.choice([path, str(path)])
        what = path.read_text
        if bad:
            obs.raises(Exception, lambda: P.SolveParams.from_file(loc),
                       "unusable configuration accepted", what())
            obs.count("config_refused")
            return
        got = P.SolveParams.from_file(loc)
        for k in ("display_interval", "operators"):
            obs.equal(getattr(got, k), want.get(k, getattr(default, k)), k,
                      what)
        for sec, fields in FIELDS.items():
            for k in fields:
                exp = want.get((sec, k), getattr(getattr(default, sec), k))
                v = getattr(getattr(got, sec), k)
                obs.equal((v, isinstance(v, bool)),
                          (exp, isinstance(exp, bool)), f"{sec}.{k}", what)
                obs.count("fields")
        obs.check(got.ils.callbacks is not None, "no callbacks")
        obs.equal(got == default,
                  all(v == (getattr(default, k) if isinstance(k, str)
                            else getattr(getattr(default, k[0]), k[1]))
                      for k, v in want.items()),
                  "equal to the default parameters", what)
        obs.count("config_files")
        obs.seen("config", tuple(sorted(str(k) for k in want)))


PARTS = [
    Part("config", config, 2000, 20000,
         need={"config_files": 1000, "config_refused": 100}),
    Part("single", single, 160, 4000,
         need={"single": 100, "per_client": 10, "configs": 30,
               "feasible": 20, "runtime_limited": 10, "solution_files": 40,
               "statistics_files": 40}),
    Part("several", several, 60, 1200, need={"several": 30}),
    Part("refused", refused, 40, 400, need={"refused": 40}),
]
