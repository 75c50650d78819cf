"""No undefined behaviour in native code: sanitizers over hostile workloads."""

import copy
import gc
import importlib
import os
import pathlib
import pickle
import random
import re
import shutil
import subprocess
import tempfile
import time

from vlib import build, gen
from vlib.harness import PY, VERIF, Obs, Part, Skip, Violation
from vlib.lazy import P, S, X

PROPERTY = "C17"
VARIANT = "asan"
RULE = ("an evaluation is one native call or use of a handed-out object that "
        "returned under AddressSanitizer, UndefinedBehaviorSanitizer and "
        "enabled assertions; distinct nontrivial counts distinct (workload, "
        "call, argument class, outcome) combinations")
ASSUME = ["objects of different instances are not mixed, load penalties match "
          "the load dimensions, and quantities are small enough for costs to "
          "fit 64 bits, as the documentation asks for",
          "reads of uninitialised memory are watched by valgrind, for heap "
          "memory, over a smaller sample of the same workloads"]
BUDGET = {"quick": 200, "thorough": 3000}

# Other checks' workloads. Their verdicts do not count here, only what the
# sanitizers make of them.
WORK = {
    "c01": 1, "c02": 1, "c03": 1, "c04": 2, "c05": 5, "c06": 5, "c07": 4,
    "c08": 3, "c10": 2, "c11": 3, "c12": 2, "c14": 1, "c15": 1, "c18": 2,
    "c19": 3, "c20": 1, "c21": 3, "c23": 3,
}


def comparisons(rng, obs):
    """Solutions that differ in nothing but the routes they consist of."""
    spec = gen.gen_spec(rng, min_visits=2, groups=False)
    gen.flatten(spec)
    data = gen.build(spec)
    sols = [gen.make_solution(data, gen.gen_routes(rng, spec, 0, 0))
            for _ in range(5)]
    for a in sols:
        for b in sols:
            obs.seen("compared", a == b, a.num_routes() > b.num_routes())
            obs.count("comparisons")


def workloads(rng, obs, tier):
    if rng.random() < 0.1:
        comparisons(rng, obs)
        return
    name = rng.choice([k for k, w in WORK.items() for _ in range(w)])
    try:
        mod = importlib.import_module(f"checks.{name}")
    except ImportError:
        raise Skip from None
    part = rng.choice(mod.PARTS)
    scratch = Obs()
    try:
        part.func(rng, scratch, tier)
        out = "ran"
    except (Skip, Violation):
        out = "stopped"
    except MemoryError:
        raise
    except Exception as exc:
        out = type(exc).__name__
    obs.ev(scratch.evaluations + 1)
    obs.count("workloads")
    obs.count(f"workload_{name}_{part.name}")
    obs.seen("work", name, part.name, out)


# -------------------------------------------------------------- memcheck ----


def prepare(tier):
    from vlib import build

    std = build.build("std")
    asan = build.build("asan")
    env = build.runtime_env("asan", asan)
    env["VERIF_STD_OVERLAY"] = str(std)
    return asan, env


MEMWORK = {
    "c01": 2, "c02": 2, "c03": 2, "c04": 2, "c05": 4, "c06": 5, "c07": 5,
    "c11": 2, "c12": 2, "c18": 3, "c19": 3, "c21": 3, "c23": 3,
}


def memcheck_main(seed, seconds):
    """Runs within valgrind: workloads until the time is up."""
    rng = random.Random(seed)
    end = time.monotonic() + seconds
    n = 0
    while time.monotonic() < end and n < 40:
        name = rng.choice([k for k, w in MEMWORK.items() for _ in range(w)])
        mod = importlib.import_module(f"checks.{name}")
        part = rng.choice(mod.PARTS)
        try:
            part.func(random.Random(rng.getrandbits(64)), Obs(), "quick")
        except Exception:
            pass
        n += 1
        print(f"RAN {name} {part.name}", flush=True)
    os._exit(0)


def memcheck(rng, obs, tier):
    seed = rng.getrandbits(32)
    std = os.environ["VERIF_STD_OVERLAY"]
    env = build.runtime_env("std", pathlib.Path(std))
    for k in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS"):
        env.pop(k, None)
    env["PYTHONMALLOC"] = "malloc"
    d = pathlib.Path(tempfile.mkdtemp(prefix="c17_"))
    try:
        log = d / "log"
        proc = subprocess.run(
            ["valgrind", "--tool=memcheck", "--leak-check=no",
             "--error-limit=no", "--num-callers=14", f"--log-file={log}",
             PY, "-c", "from checks import c17; "
             f"c17.memcheck_main({seed}, {20 if tier == 'quick' else 40})"],
            env=env, cwd=str(VERIF), stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, text=True, timeout=600)
        text = log.read_text()
        ran = [ln.split()[1:] for ln in proc.stdout.splitlines()
               if ln.startswith("RAN")]
        obs.count("memchecked", len(ran))
        for name, part in ran:
            obs.count(f"memcheck_{name}_{part}")
            obs.seen("memcheck", name, part)
        for para in re.split(r"\n==\d+== *\n", text):
            if re.search("uninitialised|Invalid (read|write|free)", para):
                obs.check("_pyvrp.cpython" not in para
                          and "_search.cpython" not in para,
                          "valgrind: " + re.sub(r"==\d+==\s*", "",
                                                para.split("\n")[0]), para)
        obs.ev(len(ran))
    except subprocess.TimeoutExpired:
        raise Skip from None
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------- lifetimes ----


def churn(rng):
    """Recycles freed memory, so that a stale reference reads something."""
    junk = [bytearray(rng.choice([16, 24, 32, 64, 100, 200, 400, 1000]))
            for _ in range(40)]
    gc.collect(0)
    del junk


def touch(x, depth=2, acc=None):
    """
    Uses whatever an object offers without arguments; what it shows is added
    to acc.
    """
    n = 1
    if acc is None:
        acc = []
    acc += [t for t in (str(x), repr(x)) if " at 0x" not in t]
    if isinstance(x, (int, float, str, bool, type(None))):
        return n
    if isinstance(x, (list, tuple)):
        for y in list(x)[:6]:
            n += touch(y, depth, acc)
        return n
    if isinstance(x, dict):
        for k, v in list(x.items())[:4]:
            n += touch(k, 0, acc) + touch(v, 0, acc)
        return n
    if hasattr(x, "tolist"):  # numpy: its methods may write
        acc.append(repr((x.tolist(), x.tobytes(), x.copy().sum())))
        return n
    if depth <= 0:
        return n
    for name in dir(type(x)):
        if name.startswith("_") or name in ("clear", "update", "make_random",
                                            "supports", "shuffle", "replace",
                                            "mark_all_promising",
                                            "unmark_all_promising"):
            continue
        try:
            y = getattr(x, name)
            if callable(y):
                y = y()
        except (TypeError, ValueError, IndexError, RuntimeError, KeyError):
            continue
        n += touch(y, depth - 1, acc)
    if type(x).__name__ in ("Route", "ClientGroup"):
        for y in x:
            n += touch(y, 0, acc)
    return n


def _search_solution(data, sol):
    ss = X.Solution(data)
    ss.load(sol)
    return ss


def child(rng, spec, data, sol, pens):
    """Gets something out of freshly made owners, which then go away."""
    kinds = ["data_list", "data_item", "data_item", "route", "schedule", "iter_route",
             "visit", "solution_part", "search_route", "search_node",
             "search_client", "node_route", "iter_search", "neighbours",
             "operators", "local_search", "group", "group_iter", "space",
             "matrix", "copy", "own_route", "stats", "names", "nodes",
             "operator", "operator"]
    kind = rng.choice(kinds)
    data = pickle.loads(pickle.dumps(data))
    sol = gen.make_solution(data, [([str(a) for a in r][1:-1],
                                    r.vehicle_type()) for r in sol.routes()])
    if kind == "data_list":
        out = getattr(data, rng.choice(
            ["locations", "clients", "depots", "groups", "shipments",
             "vehicle_types", "distance_matrices", "duration_matrices"]))()
        out = rng.choice([out, list(out)[:1]])
    elif kind == "data_item":
        what, n = rng.choice([("shipment", data.num_shipments),
                              ("location", data.num_locations),
                              ("client", data.num_clients),
                              ("depot", data.num_depots),
                              ("group", data.num_groups),
                              ("shipment", data.num_shipments),
                              ("vehicle_type", data.num_vehicle_types)])
        if n == 0:
            raise Skip
        out = getattr(data, what)(rng.randrange(n))
        if rng.random() < 0.3:  # an object of its own
            out = pickle.loads(pickle.dumps(out))
        if what == "shipment" and rng.random() < 0.8:  # not both: either
            out = rng.choice([out.pickup, out.delivery])  # keeps the owner
        if what == "vehicle_type" and rng.random() < 0.5:
            out = (out.capacity, out.initial_load, out.reload_depots)
    elif kind == "matrix":
        out = data.distance_matrix(rng.randrange(data.num_profiles))
        out = rng.choice([out, out[::-1], out.T, out.copy(), out[0]])
    elif kind == "names":
        out = [getattr(x, "name") for x in data.clients()] + \
            [str(x) for x in data.vehicle_types()]
    elif kind == "group":
        if not data.num_groups:
            raise Skip
        out = data.groups()[0]
        out = rng.choice([out, out.clients, iter(out), iter(data.group(0))])
        if not isinstance(out, (list, type(data.group(0)))):
            out = _Iter(out)
    elif kind == "group_iter":
        g = P.ClientGroup(list(range(rng.randint(1, 40))))
        out = _Iter(iter(g))
    elif kind in ("route", "schedule", "iter_route", "visit"):
        if not sol.num_routes():
            raise Skip
        r = rng.choice(sol.routes())
        if kind == "schedule":
            out = r.schedule()
        elif kind == "iter_route":
            out = _Iter(iter(r))
            next(out.it)
        elif kind == "visit":
            out = r[rng.randrange(-len(r), len(r))]
        else:
            out = rng.choice([r, r.delivery(), r.pickup(), r.excess_load()])
    elif kind == "solution_part":
        out = rng.choice([sol.routes(), sol.unplanned(), sol.excess_load(),
                          copy.copy(sol).routes(), sol])
    elif kind == "search_route":
        out = rng.choice(_search_solution(data, sol).routes)
    elif kind == "search_node":
        r = rng.choice(_search_solution(data, sol).routes)
        out = r[rng.randrange(-len(r), len(r))]
    elif kind == "search_client":
        ss = _search_solution(data, sol)
        pool = list(ss.clients) + [x for s in ss.shipments for x in s]
        if not pool:
            raise Skip
        out = rng.choice(pool)
        if rng.random() < 0.5:
            out = ss[out.activity]
    elif kind == "node_route":
        ss = _search_solution(data, sol)
        pool = [n for r in ss.routes for n in r]
        out = rng.choice(pool).route
    elif kind == "iter_search":
        r = rng.choice(_search_solution(data, sol).routes)
        out = _Iter(iter(r))
    elif kind in ("neighbours", "operators", "local_search", "stats"):
        ls = S.LocalSearch(data, P.RandomNumberGenerator(1),
                           S.compute_neighbours(data))
        for cls in rng.sample(S.OPERATORS, 4):
            if cls.supports(data):
                ls.add_operator(cls(data))
        ev = P.CostEvaluator(*pens)
        res = ls(sol, ev, exhaustive=rng.random() < 0.5)
        if kind == "neighbours":
            out = rng.choice([ls.neighbours, S.compute_neighbours(data)])
        elif kind == "operators":
            out = list(ls.unary_operators) + list(ls.binary_operators)
        elif kind == "stats":
            ops = list(ls.unary_operators) + list(ls.binary_operators)
            out = [ls.statistics] + [op.statistics for op in ops]
        else:
            out = _Call(lambda ls=ls, sol=res, ev=ev: ls(sol, ev))
    elif kind == "space":
        sp = X.SearchSpace(data, S.compute_neighbours(data))
        out = rng.choice([sp, sp.activity_order(), sp.veh_type_order(),
                          sp.neighbours])
    elif kind == "own_route":
        vt = rng.randrange(data.num_vehicle_types)
        r = X.Route(data, vt)
        for c in range(min(data.num_clients, 3)):
            r.append(X.Node(f"C{c}"))
        r.update()
        out = rng.choice([r, r[1 if len(r) > 2 else 0]])
    elif kind == "nodes":
        r = X.Route(data, rng.randrange(data.num_vehicle_types))
        n = X.Node("C0")
        if not data.num_clients:
            raise Skip
        if rng.random() < 0.5:
            r.append(n)
        else:
            r.insert(1, n)
        r.update()
        out = rng.choice([n, n.route])
    elif kind == "operator":
        # The operator outlives its (equal) instance.
        cls = rng.choice([c for c in S.OPERATORS if c.supports(data)])
        op = cls(pickle.loads(pickle.dumps(data)))
        ss, ev = _search_solution(data, sol), P.CostEvaluator(*pens)
        us = [n for r in ss.routes for n in r if not n.is_depot()]
        us += [n for n in ss.clients if not n.route]
        us += [n for n, _ in ss.shipments if not n.route]
        us = [u for u in us if not u.is_delivery()]
        if not us:
            raise Skip
        us = rng.sample(us, min(len(us), 4))
        vs = [(n, r[0]) for n in us for r in ss.routes[:3]]
        vs += [(u, v) for u in us for v in us if v.route and u is not v]
        churn(rng)

        def use():
            if hasattr(op, "init"):
                op.init(ss)
            unary = isinstance(op, X.UnaryOperator)
            for args in ([(u,) for u in us] if unary else vs):
                op.evaluate(*args, ev)
        out = _Call(use)
    else:  # copies
        out = rng.choice([copy.deepcopy(sol), copy.copy(sol),
                          pickle.loads(pickle.dumps(sol))])
    shown = []
    if not isinstance(out, (_Iter, _Call)) and rng.random() < 0.5:
        touch(out, 2, shown)
    return kind, out, shown


class _Iter:
    def __init__(self, it):
        self.it = it

    def use(self):
        return [str(x) for x in self.it]


class _Call:
    def __init__(self, f):
        self.use = f


def lifetimes(rng, obs, tier):
    spec = gen.gen_spec(rng, min_visits=1, release_ok=True)
    data = gen.build(spec)
    sol = gen.make_solution(data, gen.gen_routes(rng, spec))
    pens = gen.gen_penalties(rng, data.num_load_dimensions)
    for _ in range(6):
        try:
            kind, out, shown = child(rng, spec, data, sol, pens)
        except Skip:
            continue
        churn(rng)
        if isinstance(out, (_Iter, _Call)):
            out.use()
            n = 1
        else:
            again = []
            n = touch(out, 2, again)
            if shown:
                obs.equal(again, shown, f"{kind} after its owner went away")
                obs.count("lifetime_values")
        gc.collect(0)
        churn(rng)
        del out
        obs.ev(n)
        obs.count("lifetimes")
        obs.count(f"lifetime_{kind}")
        obs.seen("life", kind, n)


# ------------------------------------------------------------ hostile API ----

WRONG = (TypeError, ValueError, IndexError, RuntimeError, KeyError,
         OverflowError, AttributeError)


def hostile_int(rng, n):
    return rng.choice([0, n - 1, n, n + 1, -1, -n, -n - 1, 2**31 - 1, 2**31,
                       -2**31, 2**32, 2**63 - 1, 2**63, -2**63, 2**64 - 1,
                       2**64, rng.randint(-2 * n - 3, 2 * n + 3)])


def hostile(rng, n):
    return rng.choice([hostile_int(rng, n)] * 6
                      + [None, 1.5, float("nan"), "x", [], b"1", True])


def hostile_matrix(rng, n):
    import numpy as np

    k = rng.choice(["shape", "dtype", "order", "stride", "dims", "zero", "neg",
                    "ok", "list", "reverse"])
    if k == "shape":
        return np.zeros((rng.randint(0, n + 2), rng.randint(0, n + 2)), int)
    if k == "dtype":
        return np.ones((n, n), rng.choice([np.float64, np.int32, np.uint8,
                                           np.bool_, np.complex128, object]))
    if k == "order":
        return np.asfortranarray(np.arange(n * n).reshape(n, n))
    if k == "stride":
        return np.arange(4 * n * n).reshape(2 * n, 2 * n)[::2, ::2]
    if k == "reverse":
        return np.arange(n * n).reshape(n, n)[::-1, ::-1]
    if k == "dims":
        return np.zeros(rng.choice([(), (n,), (n, n, n), (1, n, n)]), int)
    if k == "zero":
        return np.zeros((0, 0), int)
    if k == "neg":
        return -np.ones((n, n), int)
    if k == "list":
        return [[0] * n for _ in range(n)]
    return np.zeros((n, n), int)


def api(rng, obs, tier):
    spec = gen.gen_spec(rng, min_visits=1, release_ok=True)
    data = gen.build(spec)
    routes = gen.gen_routes(rng, spec)
    sol = gen.make_solution(data, routes)
    dims = data.num_load_dimensions
    pens = gen.gen_penalties(rng, dims)
    T = P.ActivityType
    types = [T.CLIENT, T.DEPOT, T.PICKUP, T.DELIVERY]

    def hostile_acts():
        n = max(data.num_clients, 1)
        out = []
        for _ in range(rng.randint(0, 5)):
            if rng.random() < 0.3:
                out.append(hostile(rng, n))
            else:
                idx = abs(hostile_int(rng, n)) % 2**64
                out.append(P.Activity(rng.choice(types), idx))
        return out

    def group_ops():
        g = P.ClientGroup()
        for _ in range(8):
            try:
                rng.choice([lambda: g.add_client(hostile(rng, 4)), g.clear,
                            lambda: list(g), lambda: len(g),
                            lambda: g.clients])()
            except WRONG:
                pass
        return g

    def bitset():
        n = rng.choice([0, 1, 63, 64, 65, 128, 200])
        b = P.DynamicBitset(n)
        for _ in range(6):
            i = hostile(rng, n)
            try:
                if rng.random() < 0.5:
                    b[i] = True
                else:
                    b[i]
            except WRONG:
                pass
        return b.count()

    def neighbourhood():
        params = S.NeighbourhoodParams(
            weight_wait_time=rng.choice([0, 0.2, 10, 1e18, -1.0]),
            num_neighbours=abs(hostile_int(rng, 5)) % 2**64)
        return S.compute_neighbours(data, params)

    def neigh_dict():
        nb = S.compute_neighbours(data)
        keys = list(nb)
        k = rng.choice(["drop", "alien", "self", "empty", "depot", "dup"])
        if k == "drop" and keys:
            del nb[rng.choice(keys)]
        elif k == "alien":
            nb[P.Activity(T.CLIENT, 2**40)] = []
        elif k == "self" and keys:
            nb[keys[0]] = [keys[0]]
        elif k == "empty":
            nb = {x: [] for x in keys}
        elif k == "depot":
            nb[P.Activity(T.DEPOT, 0)] = []
        elif k == "dup" and keys:
            nb[keys[0]] = nb[keys[0]] * 3
        ls = S.LocalSearch(data, P.RandomNumberGenerator(3), nb)
        ls.add_operator(S.Relocate1(data))
        return ls(sol, P.CostEvaluator(*pens), exhaustive=True)

    def generator():
        r = P.RandomNumberGenerator(rng.choice(
            [hostile(rng, 5), [1, 2, 3, 4], [0, 0, 0, 0], [1], [2**32] * 4]))
        r.rand(), r()
        return r.randint(rng.choice([hostile(rng, 5), 1, 2**31 - 1]))

    def search_perturb():
        pp = S.PerturbationParams(*sorted(
            [rng.randint(0, 5), rng.choice([0, 1, 30, 1000])]))
        ls = S.LocalSearch(data, P.RandomNumberGenerator(rng.randint(0, 99)),
                           S.compute_neighbours(data),
                           S.PerturbationManager(pp))
        for cls in S.OPERATORS:
            if cls.supports(data) and rng.random() < 0.7:
                ls.add_operator(cls(data))
        s = sol
        for _ in range(3):
            s = ls(s, P.CostEvaluator(*pens),
                   exhaustive=rng.random() < 0.3)
        return s

    vt = lambda: rng.choice([hostile(rng, data.num_vehicle_types), 0])  # noqa
    calls = {
        "location": lambda: data.location(hostile(rng, data.num_locations)),
        "client": lambda: data.client(hostile(rng, data.num_clients)),
        "depot": lambda: data.depot(hostile(rng, data.num_depots)),
        "group": lambda: data.group(hostile(rng, data.num_groups)),
        "shipment": lambda: data.shipment(hostile(rng, data.num_shipments)),
        "vehicle_type": lambda: data.vehicle_type(
            hostile(rng, data.num_vehicle_types)),
        "distance_matrix": lambda: data.distance_matrix(
            hostile(rng, data.num_profiles)).sum(),
        "duration_matrix": lambda: data.duration_matrix(
            hostile(rng, data.num_profiles)).sum(),
        "matrices": lambda: data.replace(
            distance_matrices=[hostile_matrix(rng, data.num_locations)
                               for _ in range(data.num_profiles)]),
        "route_visits": lambda: P.Route(
            data, [hostile(rng, data.num_clients)
                   for _ in range(rng.randint(0, 4))], vt()),
        "route_acts": lambda: P.Route(data, hostile_acts(), vt()),
        "route_index": lambda: rng.choice(sol.routes())[hostile(rng, 6)],
        "solution": lambda: P.Solution(data, [
            [hostile(rng, data.num_clients)
             for _ in range(rng.randint(0, 3))]
            for _ in range(rng.randint(0, data.num_vehicles + 1))]),
        "activity": lambda: P.Activity(rng.choice(
            ["", "C", "C-1", "C99999999999999999999999", "D 1", "L\0", "U1x",
             "CC", "\xff0", "C0" * 50])),
        "group_ops": group_ops,
        "bitset": bitset,
        "neighbourhood": neighbourhood,
        "neighbour_dict": neigh_dict,
        "generator": generator,
        "search": search_perturb,
        "evaluator": lambda: P.CostEvaluator(
            [rng.choice([0, 1, -1, 1e3])] * dims,
            rng.choice([0, -1, 5]), rng.choice([0, 1])).penalised_cost(sol),
        "replace_vt": lambda: data.replace(vehicle_types=[
            data.vehicle_type(0).replace(**{rng.choice(
                ["num_available", "start_depot", "end_depot", "profile",
                 "max_reloads", "tw_early", "tw_late", "shift_duration"]):
                hostile(rng, 3)})]),
        "replace_client": lambda: data.replace(clients=[
            P.Client(hostile(rng, data.num_locations),
                     group=rng.choice([None, hostile(rng, 2)]))]),
        "replace_group": lambda: data.replace(groups=[
            P.ClientGroup([abs(hostile_int(rng, 3)) % 2**40])]),
        "make_random": lambda: P.Solution.make_random(
            data, P.RandomNumberGenerator(rng.randint(0, 2**32 - 1))),
        "search_route": lambda: X.Route(data, 0)[hostile(rng, 2)],
    }
    for name in rng.sample(sorted(calls), 8):
        try:
            touch(calls[name](), 1)
            out = "ok"
        except WRONG as exc:
            out = type(exc).__name__
        obs.ev()
        obs.count("api_calls")
        obs.count(f"api_{name}_{'ok' if out == 'ok' else 'rejected'}")
        obs.seen("api", name, out)


FIELDS = {
    "Location": ["x", "y", "name"],
    "Depot": ["location", "tw_early", "tw_late", "service_duration", "name"],
    "Client": ["location", "delivery", "pickup", "service_duration",
               "tw_early", "tw_late", "release_time", "prize", "required",
               "group", "name"],
    "ClientGroup": ["clients", "required", "name"],
    "VehicleType": ["num_available", "capacity", "start_depot", "end_depot",
                    "fixed_cost", "tw_early", "tw_late", "shift_duration",
                    "max_distance", "unit_distance_cost",
                    "unit_duration_cost", "profile", "start_late",
                    "initial_load", "reload_depots", "max_reloads",
                    "max_overtime", "unit_overtime_cost", "name"],
    "CostEvaluator": ["load_penalties", "tw_penalty", "dist_penalty"],
    "RandomNumberGenerator": ["seed", "state"],
    "PiecewiseLinearFunction": ["breakpoints", "segments"],
}


def fields(rng, obs, tier):
    """Constructors given values of all sorts, by position and by name."""
    def value():
        v = hostile(rng, 5)
        if rng.random() < 0.3:
            v = [hostile(rng, 5) for _ in range(rng.randint(0, 3))]
        return v

    for _ in range(12):
        cls = rng.choice(sorted(FIELDS))
        names = FIELDS[cls]
        k = rng.randint(0, min(len(names), 4))
        kw = {f: value() for f in rng.sample(names, k)}
        args = [value() for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        try:
            x = getattr(P, cls)(*args, **kw)
            touch(x, 1)
            out = "ok"
        except WRONG as exc:
            out = type(exc).__name__
        obs.ev()
        obs.count("constructions")
        obs.count(f"construct_{cls}_{'ok' if out == 'ok' else 'rejected'}")
        obs.seen("fields", cls, sorted(kw), out)


PARTS = [
    Part("fields", fields, 3000, 40_000, {"constructions": 12_000}),
    Part("workloads", workloads, 1500, 40_000, {"workloads": 300}),
    Part("lifetimes", lifetimes, 2500, 60_000,
         {"lifetimes": 1500, "lifetime_operator": 100, "lifetime_values": 300}),
    Part("api", api, 800, 20_000, {"api_calls": 1500}),
    Part("memcheck", memcheck, 8, 120, {"memchecked": 16}),
]
