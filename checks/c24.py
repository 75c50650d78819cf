"""Concurrent use is race free and gives the results of running alone."""

import contextlib
import copy
import faulthandler
import gc
import logging
import pickle
import random
import sys
import threading
import time

from checks import c06, c09
from vlib import gen
from vlib.harness import Part, Skip, Violation
from vlib.lazy import P, S, X

PROPERTY = "C24"
VARIANT = "tsan"
RULE = ("an evaluation is one comparison of what a thread got with what the "
        "same work gave alone, or of a shared object with what it was before; "
        "distinct nontrivial counts distinct interleavings: the order in "
        "which the threads' native calls started and ended")
ASSUME = ["objects that a search changes (search methods, operators, "
          "generators, perturbation managers, search solutions) are not "
          "shared between threads", "the interpreter itself is not "
          "instrumented, its lock's mutex operations are"]

WATCHDOG = 150  # seconds without progress of a case; cases take about one


def instance(rng, big=True):
    return gen.gen_spec(rng, max_clients=rng.choice([8, 25] if big else [6]),
                        max_shipments=rng.choice([3, 8] if big else [3]),
                        min_visits=3, release_ok=True)


@contextlib.contextmanager
def stress(rng):
    """Thread switches at a random pace, and a watchdog."""
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4, 5e-3]))
    faulthandler.dump_traceback_later(WATCHDOG)
    try:
        yield
    finally:
        faulthandler.cancel_dump_traceback_later()
        sys.setswitchinterval(old)


class Events:
    """Order of starts and ends of native calls over all threads."""

    def __init__(self):
        self.log = []

    def start(self, k):
        self.log.append((k, "+"))

    def end(self, k):
        self.log.append((k, "-"))

    def overlaps(self):
        open_, n = set(), 0
        for k, what in self.log:
            if what == "+":
                n += len(open_)
                open_.add(k)
            else:
                open_.discard(k)
        return n


def together(rng, jobs, obs):
    """Runs the jobs in threads that start at the same time."""
    out, errors = [None] * len(jobs), []
    gate = threading.Barrier(len(jobs))

    def body(k):
        try:
            gate.wait()
            out[k] = jobs[k]()
        except BaseException as exc:  # noqa: BLE001
            import traceback

            errors.append((exc, traceback.format_exc()))

    ths = [threading.Thread(target=body, args=(k,)) for k in range(len(jobs))]
    order = list(ths)
    rng.shuffle(order)
    for t in order:
        t.start()
    for t in ths:
        t.join()
    for exc, tb in errors:
        if isinstance(exc, Violation):
            raise exc
    obs.check(not errors, "a thread raised", lambda: errors[0][1])
    obs.count("threads", len(jobs))
    return out


def make_search(data, neighbours, rng, own):
    args = (S.PerturbationManager(S.PerturbationParams(1, 9)),) if own else ()
    ls = S.LocalSearch(data, rng, neighbours, *args)
    ops = []
    for op in S.OPERATORS:
        if op.supports(data):
            ops.append(op(data))
            ls.add_operator(ops[-1])
    return ls, ops


def search_job(data, neighbours, init, ce, seed, own, plan, events=None, k=0,
               nap=None):
    """A sequence of searches: the trace of solutions and statistics."""

    def job():
        rng = P.RandomNumberGenerator(seed)
        ls, ops = make_search(data, neighbours, rng, own)
        sol = init if init is not None else P.Solution.make_random(data, rng)
        trace = []
        for exhaustive in plan:
            if events:
                events.start(k)
            new = ls(sol, ce, exhaustive)
            if events:
                events.end(k)
            st = ls.statistics
            trace.append((c09.show(new), ce.penalised_cost(new),
                          st.num_moves, st.num_improving, st.num_updates,
                          rng.state()))
            sol = new
            if nap:
                time.sleep(nap.choice([0, 0, 1e-4, 1e-3]))
        return trace, [(op.statistics.num_evaluations,
                        op.statistics.num_applications) for op in ops]

    return job


def searches(rng, obs, tier):
    spec = instance(rng)
    data = gen.build(spec)
    nb = S.compute_neighbours(data, S.NeighbourhoodParams(
        num_neighbours=rng.choice([2, 10, 50])))
    ce, _ = gen.gen_cost_evaluator(rng, spec["dims"])
    init = None
    if rng.random() < 0.6:
        init = gen.make_solution(data, gen.gen_routes(rng, spec,
                                                      p_skip_req=0.1))
    n = rng.choice([2, 3, 4, 6])
    log = rng.random() < 0.3
    args = []
    for k in range(n):
        plan = [rng.random() < 0.3 for _ in range(rng.choice([2, 4, 8]))]
        args.append((data, nb, init, ce, rng.getrandbits(32),
                     rng.random() < 0.5, plan))
    if rng.random() < 0.3:
        args = [args[0]] * n  # all the same
    before = pickle.dumps((data, init)), repr(nb)
    alone = [search_job(*a)() for a in args]
    for _ in range(2):
        ev = Events()
        jobs = [search_job(*a, events=ev, k=k,
                           nap=random.Random(k) if k % 2 else None)
                for k, a in enumerate(args)]
        with stress(rng), (debug_log(obs) if log else
                           contextlib.nullcontext()):
            got = together(rng, jobs, obs)
        for k in range(n):
            for i, (g, w) in enumerate(zip(got[k][0], alone[k][0])):
                obs.equal(g, w, "search in a thread differs from alone",
                          lambda: f"thread {k} call {i} of {n} threads")
            obs.equal(got[k][1], alone[k][1], "operator statistics differ")
        obs.seen("".join(f"{k}{w}" for k, w in ev.log))
        obs.count("searches", sum(len(a[6]) for a in args))
        obs.count("overlapping_searches", ev.overlaps())
    obs.equal((pickle.dumps((data, init)), repr(nb)), before,
              "a shared object changed")


class Messages(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.n = 0

    def emit(self, record):
        self.n += 1
        assert record.getMessage()


@contextlib.contextmanager
def debug_log(obs):
    """Python-side handling of the native code's debug messages."""
    lg = logging.getLogger("pyvrp.search")
    h = Messages()
    old = lg.level, lg.propagate
    lg.setLevel(logging.DEBUG)
    lg.propagate = False
    lg.addHandler(h)
    try:
        yield h
    finally:
        lg.removeHandler(h)
        lg.setLevel(old[0])
        lg.propagate = old[1]
        obs.count("debug_messages", h.n)


def solves(rng, obs, tier):
    """Whole runs of the solver, with everything read-only shared."""
    base = rng.getrandbits(40)
    spec, _ = c09.make_case(base)
    data = gen.build(spec)
    n = rng.choice([2, 3, 4])
    confs = []
    for k in range(n):
        _, conf = c09.make_case(rng.getrandbits(40))
        confs.append(dict(conf, iters=rng.choice([2, 5])))
    alone = [c09.run(data, c) for c in confs]
    before = pickle.dumps(data)

    def job(k):
        nap = random.Random(k)
        return lambda: c09.run(data, confs[k], hook=lambda: time.sleep(
            nap.choice([0, 1e-5, 1e-3])))

    with stress(rng):
        got = together(rng, [job(k) for k in range(n)], obs)
    for k in range(n):
        obs.equal(got[k], alone[k], "run in a thread differs from alone",
                  lambda: f"thread {k}")
    obs.equal(pickle.dumps(data), before, "shared data changed")
    obs.count("solves", n)
    obs.seen("solve", repr(alone)[:2000])


def readers(rng, obs, tier):
    """Reading shared objects while searches use them."""
    spec = instance(rng)
    data = gen.build(spec)
    nb = S.compute_neighbours(data)
    ce, _ = gen.gen_cost_evaluator(rng, spec["dims"])
    routes = gen.gen_routes(rng, spec, p_skip_req=0.1)
    init = gen.make_solution(data, routes)
    names = ["distance", "duration", "time_warp", "prizes", "excess_load",
             "start_time", "end_time", "slack", "delivery", "pickup",
             "schedule", "wait_duration", "overtime", "is_feasible"]

    def look(sol):
        out = [ce.penalised_cost(sol), ce.cost(sol), str(sol),
               sol.is_feasible(), hash(sol), sol.num_missing_clients()]
        for r in sol.routes():
            for nm in names:
                v = getattr(r, nm)()
                if nm == "schedule":
                    v = [(str(s.type), s.idx, s.start_time, s.end_time)
                         for s in v]
                out.append(v)
        out.append(copy.copy(sol) == sol and copy.deepcopy(sol) == sol)
        out.append(pickle.loads(pickle.dumps(sol)) == sol)
        return out

    def look_data():
        m = [data.distance_matrix(p).sum() for p in range(data.num_profiles)]
        return (m, [str(c.tw_late) for c in data.clients()],
                [v.capacity for v in data.vehicle_types()],
                [str(g.clients) for g in data.groups()],
                data.replace() == data, data.num_vehicles,
                sorted((str(k), list(map(str, v))) for k, v in
                       S.compute_neighbours(data).items()))

    def reader(k):
        r = random.Random(k)

        def job():
            out = []
            for _ in range(3):
                out += [look(init), look_data()]
                if r.random() < 0.3:
                    gc.collect()
            return out

        return job

    plan = [rng.random() < 0.5 for _ in range(4)]
    want_l, want_d = look(init), look_data()
    srch = [search_job(data, nb, init, ce, rng.getrandbits(32), False, plan)
            for _ in range(2)]
    alone = [j() for j in srch]
    with stress(rng):
        got = together(rng, srch + [reader(k) for k in range(3)], obs)
    obs.equal(got[:2], alone, "search differs while others read")
    for out in got[2:]:
        for i, o in enumerate(out):
            obs.equal(o, want_d if i % 2 else want_l,
                      "reading differs while others search")
    obs.count("reads", 18)
    obs.seen("read", repr(want_l)[:500])


def perturbing(rng, obs, tier):
    spec = instance(rng)
    data = gen.build(spec)
    nb = S.compute_neighbours(data)
    ce, _ = gen.gen_cost_evaluator(rng, spec["dims"])
    init = gen.make_solution(data, gen.gen_routes(rng, spec))

    def job(seed, ev=None, k=0):
        def body():
            g = P.RandomNumberGenerator(seed)
            pm = X.PerturbationManager(X.PerturbationParams(1, 20))
            space = X.SearchSpace(data, nb)
            out = []
            for _ in range(6):
                sol = X.Solution(data)
                sol.load(init)
                pm.shuffle(g)
                space.shuffle(g)
                if ev:
                    ev.start(k)
                pm.perturb(sol, space, ce)
                if ev:
                    ev.end(k)
                out.append((pm.num_perturbations(), c06.snapshot(sol)))
            return out

        return body

    seeds = [rng.getrandbits(32) for _ in range(rng.choice([2, 4]))]
    alone = [job(s)() for s in seeds]
    ev = Events()
    with stress(rng):
        got = together(rng, [job(s, ev, k) for k, s in enumerate(seeds)], obs)
    obs.equal(got, alone, "perturbation in a thread differs from alone")
    obs.count("perturbations", 6 * len(seeds))
    obs.count("overlapping_perturbations", ev.overlaps())
    obs.seen("p", "".join(f"{k}{w}" for k, w in ev.log))


def dropping(rng, obs, tier):
    """Everything else lets go of the objects while a search uses them."""
    spec = instance(rng)
    ce_args = gen.gen_penalties(rng, spec["dims"])
    seeds = [rng.getrandbits(32) for _ in range(3)]
    routes = gen.gen_routes(rng, spec, p_skip_req=0.1)

    def parts():
        data = gen.build(spec)
        return (data, S.compute_neighbours(data),
                gen.make_solution(data, routes))

    data, nb, init = parts()
    ce = P.CostEvaluator(*ce_args)
    alone = []
    for s in seeds:
        ls, _ = make_search(data, nb, P.RandomNumberGenerator(s), False)
        alone.append([c09.show(ls(init, ce, True)), c09.show(ls(init, ce))])
    del data, nb, init, ce, ls

    box = {}

    def job(k):
        def body():
            ls, init = box.pop(k)
            # The arguments are not referred to by anything but the call.
            a = c09.show(ls(copy.copy(init), P.CostEvaluator(*ce_args), True))
            b = c09.show(ls(init, P.CostEvaluator(*ce_args)))
            return [a, b]

        return body

    for k, s in enumerate(seeds):
        data, nb, init = parts()
        box[k] = (make_search(data, nb, P.RandomNumberGenerator(s),
                              False)[0], init)
        del data, nb, init

    def collector():
        for _ in range(20):
            gc.collect()
            junk = [gen.build(spec) for _ in range(3)]
            del junk

    with stress(rng):
        got = together(rng, [job(k) for k in range(3)] + [collector], obs)
    obs.equal(got[:3], alone, "search without other references differs")
    obs.count("dropped", 3)
    obs.seen("drop", repr(alone)[:500])


def messages(rng, obs, tier):
    """Debug messages match what the search did, in each thread."""
    spec = instance(rng)
    data = gen.build(spec)
    nb = S.compute_neighbours(data)
    ce, _ = gen.gen_cost_evaluator(rng, spec["dims"])
    recs = {}

    class Rec(logging.Handler):
        def emit(self, record):
            recs.setdefault(threading.get_ident(), []).append(
                record.getMessage())

    seeds = [rng.getrandbits(32) for _ in range(3)]

    def job(seed):
        def body():
            g = P.RandomNumberGenerator(seed)
            ls, ops = make_search(data, nb, g, False)
            sol = P.Solution.make_random(data, g)
            me = threading.get_ident()
            out = []
            for ex in (False, True):
                at = len(recs.get(me, []))
                sol = ls(sol, ce, ex)
                out.append((recs.get(me, [])[at:],
                            ls.statistics.num_improving,
                            ls.statistics.num_updates,
                            ls.statistics.num_moves))
            return out, c09.show(sol)

        return body

    silent = [job(s)()[1] for s in seeds]
    h = Rec(logging.DEBUG)
    with debug_log(obs):
        lg = logging.getLogger("pyvrp.search")
        lg.addHandler(h)
        try:
            with stress(rng):
                got = together(rng, [job(s) for s in seeds], obs)
        finally:
            lg.removeHandler(h)
    for (out, sol), want in zip(got, silent):
        obs.equal(sol, want, "logging changed the search")
        for msgs, improving, updates, moves in out:
            done = [m for m in msgs if "improving=" in m]
            if not done:
                raise Skip  # such messages are not part of this build
            obs.equal(len(done), 1, "completion messages", msgs)
            obs.check(f"improving={improving}," in done[0]
                      and f"updates={updates}," in done[0]
                      and f"moves={moves}." in done[0],
                      "figures of the completion message", done)
            applied = [m for m in msgs if m.startswith("Applying operator")]
            obs.equal(len(applied), improving, "moves logged", msgs)
            obs.count("logged_moves", len(applied))
    obs.count("logged")


PARTS = [
    Part("searches", searches, 60, 3000,
         need={"searches": 300, "overlapping_searches": 100,
               "debug_messages": 100}),
    Part("solves", solves, 24, 800, need={"solves": 30}),
    Part("readers", readers, 16, 600, need={"reads": 100}),
    Part("perturbing", perturbing, 24, 800,
         need={"perturbations": 100}),
    Part("dropping", dropping, 16, 600, need={"dropped": 20}),
    Part("messages", messages, 16, 500),
]
