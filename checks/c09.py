"""Same seed, same run: whatever ran before, alongside, or elsewhere."""

import dataclasses
import hashlib
import json
import logging
import os
import pickle
import random
import subprocess
import sys
import tempfile
import threading
import warnings

from vlib import gen
from vlib.harness import Part
from vlib.lazy import P, S

PROPERTY = "C09"
VARIANT = "std"
RULE = ("an evaluation is one comparison of two complete per-iteration traces "
        "(current, candidate and best routes and their costs) that must be "
        "equal; distinct nontrivial counts distinct traces observed")
ASSUME = ["runs are limited by iterations, not by time",
          "threads: the native code may run in parallel; C24 watches that with a "
          "race detector, here only the outcomes are compared"]


def show(sol):
    return [(r.vehicle_type(), [str(a) for a in r]) for r in sol.routes()]


def make_case(seed):
    """Everything a run depends on, derived from one number."""
    rng = random.Random(seed)
    spec = gen.gen_spec(rng, **{
        "max_clients": rng.choice([4, 8, 20]), "min_visits": 1,
        "release_ok": True, **gen.large(rng, 0.02, huge=False)})
    conf = dict(
        seed=rng.getrandbits(rng.choice([1, 16, 31, 32])),
        ils=dict(num_iters_no_improvement=rng.choice([2, 5, 1000]),
                 history_length=rng.choice([1, 3, 300]),
                 exhaustive_on_best=rng.random() < 0.7),
        penalty=dict(solutions_between_updates=rng.choice([1, 3, 500]),
                     penalty_increase=rng.choice([1.5, 1.1]),
                     penalty_decrease=rng.choice([0.9, 0.5]),
                     target_feasible=rng.choice([0.4, 0.65]),
                     min_penalty=rng.choice([0.1, 1.0]),
                     max_penalty=rng.choice([100.0, 1000.0])),
        neighbourhood=dict(num_neighbours=rng.choice([1, 3, 20, 60]),
                           weight_wait_time=rng.choice([0.0, 0.2]),
                           symmetric_proximity=rng.random() < 0.5),
        perturbation=dict(min_perturbations=1,
                          max_perturbations=rng.choice([1, 5, 25])),
        iters=rng.choice([3, 8, 15]))
    size = len(spec["clients"]) + len(spec["shipments"])
    if size > 40:  # many visits, few iterations
        conf["iters"] = rng.choice([0, 1])
        conf["neighbourhood"]["num_neighbours"] = 3
    elif size <= 6 and rng.random() < 0.15:  # or the other way around
        conf["iters"] = rng.choice([100, 550])
    conf["show_every"] = rng.choice([0.0, 0.0, 0.01, 5.0])
    if rng.random() < 0.4:
        ops = [o.__name__ for o in S.OPERATORS]
        conf["operators"] = rng.sample(ops, rng.randint(1, len(ops)))
    return spec, conf


def make_params(conf, cb):
    kw = {}
    if "operators" in conf:
        kw["operators"] = [getattr(S, o) for o in conf["operators"]]
    return P.SolveParams(
        ils=P.IteratedLocalSearchParams(callbacks=cb, **conf["ils"]),
        penalty=P.PenaltyParams(**conf["penalty"]),
        neighbourhood=S.NeighbourhoodParams(**conf["neighbourhood"]),
        perturbation=S.PerturbationParams(**conf["perturbation"]),
        display_interval=conf["show_every"], **kw)


def toml(conf):
    def val(v):
        if isinstance(v, bool):
            return str(v).lower()
        return json.dumps(v)

    lines = [f"display_interval = {conf['show_every']}"]
    if "operators" in conf:
        lines.append(f"operators = {json.dumps(conf['operators'])}")
    for sec in ("ils", "penalty", "neighbourhood", "perturbation"):
        lines.append(f"[{sec}]")
        lines += [f"{k} = {val(v)}" for k, v in conf[sec].items()]
    return "\n".join(lines) + "\n"


class Tracer:
    def __init__(self, hook=None):
        self.events = []
        self.hook = hook

    def callbacks(self):
        t = self

        class Calls(P.IteratedLocalSearchCallbacks):
            def on_start(self, ils):
                t.events.append(("start", show(ils.initial_solution)))

            def on_iteration(self, current, candidate, best, cost_evaluator):
                t.events.append((
                    show(current), show(candidate), show(best),
                    [cost_evaluator.penalised_cost(s)
                     for s in (current, candidate, best)]))
                if t.hook:
                    t.hook()

            def on_restart(self, best):
                t.events.append(("restart", show(best)))

            def on_end(self, result):
                t.events.append(("end", show(result.best),
                                 result.num_iterations, result.cost()))

        return Calls()


def run(data, conf, how="solve", iters=None, hook=None,
        limits=False, **kw):
    t = Tracer(hook)
    params = make_params(conf, t.callbacks())
    stop = P.MaxIterations(conf["iters"] if iters is None else iters)
    if limits:  # that do not bind
        stop = P.MultipleCriteria([P.MaxRuntime(1e6), stop,
                                   P.NoImprovement(10**6)])
    kw.setdefault("display", False)
    if how == "solve":
        P.solve(data, stop, seed=conf["seed"], params=params, **kw)
    elif how == "model":
        P.Model.from_data(data).solve(stop, seed=conf["seed"], params=params,
                                      **kw)
    elif how == "toml":
        with tempfile.TemporaryDirectory() as tmp:
            loc = os.path.join(tmp, "conf.toml")
            with open(loc, "w") as fh:
                fh.write(toml(conf))
            params = P.SolveParams.from_file(loc)
        want = make_params(conf, t.callbacks())
        assert params == want, "SolveParams.from_file differs"
        assert params.ils.callbacks is not None
        params.ils.callbacks = t.callbacks()
        P.solve(data, stop, seed=conf["seed"], params=params, **kw)
    elif how == "manual":
        # The steps that solve() documents, by hand.
        rng = P.RandomNumberGenerator(seed=conf["seed"])
        ls = S.LocalSearch(data, rng,
                           S.compute_neighbours(data, params.neighbourhood),
                           S.PerturbationManager(params.perturbation))
        ops = [op(data) for op in params.operators if op.supports(data)]
        for op in ops:
            ls.add_operator(op)
        pm = P.PenaltyManager(params.penalty.midpoint_penalties(data),
                              params.penalty)
        init = ls(P.Solution.make_random(data, rng), pm.max_cost_evaluator(),
                  exhaustive=True)
        P.IteratedLocalSearch(data, pm, ls, init, params.ils).run(stop)
    return t.events


def digest(events):
    return hashlib.blake2b(repr(events).encode(), digest_size=16).hexdigest()


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"event {i}: {x} versus {y}"
    return f"lengths {len(a)} and {len(b)}"


def quiet():
    warnings.simplefilter("ignore")
    logging.getLogger("pyvrp").setLevel(logging.CRITICAL)


def disturbed(rng, obs, tier):
    quiet()
    seed = rng.getrandbits(60)
    spec, conf = make_case(seed)
    data = gen.build(spec)
    base = run(data, conf)
    obs.seen(digest(base))
    other_spec, other_conf = make_case(rng.getrandbits(60))
    other = gen.build(other_spec)

    def same(events, what):
        obs.equal(digest(events), digest(base), f"run differs: {what}",
                  lambda: f"case {seed}: {first_diff(base, events)}")
        obs.count("same_" + what.replace(" ", "_"))

    # Something else ran first; the data is rebuilt, copied, or reused.
    run(other, other_conf)
    same(run(data, conf), "after another run")
    same(run(gen.build(spec), conf), "on rebuilt data")
    same(run(pickle.loads(pickle.dumps(data)), conf), "on unpickled data")
    same(run(data, conf, display=True), "with display")
    same(run(data, conf, limits=True), "with further limits")
    same(run(data, conf, how="toml"), "with parameters from file")
    same(run(data, conf, how="manual"), "built by hand")
    same(run(data, conf, how="model"), "through a model")
    plain = run(data, conf, collect_stats=False, display=True)
    same(plain, "without statistics")

    # What is not given has the documented value.
    size = len(spec["clients"]) + 2 * len(spec["shipments"])
    k = rng.choice([0, 2, 8])
    small = data if size < 40 else gen.build(gen.gen_spec(
        rng, max_clients=8, min_visits=1, release_ok=True))
    given = dict(seed=0, collect_stats=True, display=False,
                 params=P.SolveParams(), initial_solution=None)
    left_out = rng.sample(sorted(given), rng.randint(1, len(given)))
    outs = []
    for kw in (given, {n: v for n, v in given.items() if n not in left_out}):
        res = P.solve(small, P.MaxIterations(k), **kw)
        outs.append((show(res.best), res.num_iterations, res.cost(),
                     res.stats.is_collecting(),
                     [dataclasses.astuple(d) for d in res.stats]))
    obs.equal(outs[1], outs[0], "defaults of solve()",
              lambda: f"case {seed}: without {left_out}")
    obs.count("defaults")

    # Something else runs in between the iterations.
    state = {"n": 0}

    def hook():
        state["n"] += 1
        if state["n"] % 3 == 0:
            run(other, other_conf, iters=1)
            S.compute_neighbours(data)
            P.Solution.make_random(data, P.RandomNumberGenerator(state["n"]))

    same(run(data, conf, hook=hook), "interleaved with other runs")

    # A shorter run is a prefix of a longer one.
    k = rng.randint(0, conf["iters"])
    short = run(data, conf, iters=k)
    n = len(short) - 1
    obs.equal(short[:n], base[:n], "a shorter run is no prefix of a longer")
    obs.check(sum(len(e) == 4 and e[0] != "end" for e in short) == k,
              "iterations run")
    if n > 2:
        obs.sample(f"case {seed}: {len(base)} events, {digest(base)}")


def threads(rng, obs, tier):
    """Runs in several threads, on shared and on separate data."""
    quiet()
    cases = [make_case(rng.getrandbits(60)) for _ in range(2)]
    datas = [gen.build(s) for s, _ in cases]
    want = [digest(run(d, c)) for d, (_, c) in zip(datas, cases)]
    got = {}
    errors = []
    barrier = threading.Barrier(6)
    old = sys.getswitchinterval()

    def body(i):
        try:
            barrier.wait()
            k = i % 2
            d = datas[k] if i < 4 else gen.build(cases[k][0])
            got[i] = digest(run(d, cases[k][1]))
        except BaseException as exc:  # noqa: BLE001
            errors.append(exc)

    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=body, args=(i,)) for i in range(6)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    for i in range(6):
        obs.equal(got[i], want[i % 2], "run differs in a thread")
        obs.count("thread_runs")
    obs.seen(*want)


CHILD = """
import sys, json, pickle
from checks import c09
from vlib import gen
c09.quiet()
out = []
for seed in json.loads(sys.argv[1]):
    spec, conf = c09.make_case(seed)
    data = gen.build(spec)
    out.append(c09.digest(c09.run(data, conf)))
print("TRACES " + json.dumps(out))
"""


def processes(rng, obs, tier):
    """Runs in fresh processes, with other hash seeds and memory contents."""
    quiet()
    seeds = [rng.getrandbits(60) for _ in range(12)]
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 1000)),
               MALLOC_PERTURB_=str(rng.randint(1, 255)),
               MALLOC_ARENA_MAX=str(rng.randint(1, 8)),
               PYTHONMALLOC=rng.choice(["malloc", "pymalloc"]))
    proc = subprocess.run([sys.executable, "-c", CHILD, json.dumps(seeds)],
                          env=env, capture_output=True, text=True,
                          timeout=600)
    lines = [ln for ln in proc.stdout.splitlines() if ln.startswith("TRACES ")]
    obs.check(proc.returncode == 0 and len(lines) == 1,
              "run failed in a fresh process",
              lambda: f"{proc.returncode}: {proc.stderr[-2000:]}")
    got = json.loads(lines[0][7:])
    for seed, there in zip(seeds, got):
        spec, conf = make_case(seed)
        here = digest(run(gen.build(spec), conf))
        obs.equal(there, here, "run differs in a fresh process",
                  lambda: f"case {seed}, environment {env}")
        obs.count("process_runs")
        obs.seen(here)


def seeds(rng, obs, tier):
    """Different seeds give different random streams, equal ones the same."""
    spec = gen.gen_spec(rng, max_clients=12, min_visits=6, groups=False,
                        optional=False, shipments=False, release_ok=True)
    data = gen.build(spec)
    sols = []
    for s in range(8):
        a = P.Solution.make_random(data, P.RandomNumberGenerator(s))
        b = P.Solution.make_random(data, P.RandomNumberGenerator(s))
        obs.equal(show(a), show(b), "random solutions of one seed")
        sols.append(repr(show(a)))
    if len(set(sols)) > 1:
        obs.count("seeds_differ")
    obs.seen(*sols[:2])


def pieces(rng, obs, tier):
    """Components called directly on equal generator states."""
    spec, conf = make_case(rng.getrandbits(60))
    data = gen.build(spec)
    data2 = gen.build(spec)
    nb = S.compute_neighbours(data)
    obs.equal({str(k): [str(x) for x in v] for k, v in nb.items()},
              {str(k): [str(x) for x in v]
               for k, v in S.compute_neighbours(data2).items()},
              "neighbourhoods of equal data")
    ce, _ = gen.gen_cost_evaluator(rng, spec["dims"])
    init = gen.make_solution(data, gen.gen_routes(rng, spec))
    s = rng.getrandbits(31)
    outs = []
    for d in (data, data2):
        r = P.RandomNumberGenerator(s)
        ls = S.LocalSearch(d, r, nb, S.PerturbationManager(
            S.PerturbationParams(1, 4)))
        ops = [op(d) for op in S.OPERATORS if op.supports(d)]
        for o in ops:
            ls.add_operator(o)
        cur, log = init, []
        for k in range(4):
            cur = ls(cur, ce, exhaustive=k == 2)
            log.append(show(cur))
        outs.append((log, r.state()))
    obs.equal(outs[0], outs[1], "two local searches in the same state differ")
    obs.count("pieces")
    obs.seen(repr(outs[0][0]))


PARTS = [
    Part("disturbed", disturbed, 100, 4000, need={"same_after_another_run": 50}),
    Part("threads", threads, 24, 800, need={"thread_runs": 60}),
    Part("processes", processes, 16, 500, need={"process_runs": 60}),
    Part("seeds", seeds, 50, 1000, need={"seeds_differ": 40}),
    Part("pieces", pieces, 200, 8000, need={"pieces": 100}),
]
