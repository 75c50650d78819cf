"""Local search: valid, complete, non-worsening, input untouched, optimal."""

from vlib import gen, moves, oracle
from vlib.harness import Part, Skip
from vlib.lazy import P, S, X

PROPERTY = "C05"
VARIANT = "std"
RULE = ("an evaluation is one monitored condition on one local search call "
        "(structure, completeness, cost comparison, input unchanged, local "
        "optimality of each remaining move, same outcome for reused and fresh "
        "search objects); distinct nontrivial counts distinct (instance "
        "features, operator set, applied operators, direction) combinations")
ASSUME = ["no client is released only after a reload depot closed (known "
          "finding of C06)",
          "local optimality is checked on instances without optional visits "
          "and groups, where a move's value depends on its two routes alone"]


def all_ops():
    return [*S.OPERATORS, S.Relocate3, S.Swap31, S.Swap32, S.Swap33]


def as_routes(sol):
    return [([str(a) for a in r][1:-1], r.vehicle_type())
            for r in sol.routes()]


def pick_ops(rng, data):
    ops = [op for op in all_ops() if op.supports(data)]
    u = rng.random()
    if u < 0.3:
        return ops
    if u < 0.6:
        return [o for o in S.OPERATORS if o.supports(data)]
    return rng.sample(ops, rng.randint(1, min(len(ops), 6)))


def pick_neighbours(rng, data):
    return S.compute_neighbours(data, S.NeighbourhoodParams(
        num_neighbours=rng.choice([1, 2, 5, 50]),
        weight_wait_time=rng.choice([0.0, 0.2, 1.0]),
        symmetric_proximity=rng.random() < 0.7))


def core_search(data, ops, nb, pert=None):
    ls = X.LocalSearch(data, nb, pert or S.PerturbationManager())
    objs = [op(data) for op in ops]
    for o in objs:
        ls.add_operator(o)
    return ls, objs


def judge(obs, spec, routes, before, sol, res, ce, pens, exhaustive,
          has_ops=True):
    """Monitors one call. Returns the result as plain routes."""
    out = as_routes(res)
    obs.equal(as_routes(sol), before, "local search changed its input")
    obs.check(all(oracle.route_valid(spec, a, v) for a, v in out)
              and oracle.solution_valid(spec, out),
              "local search result is malformed", lambda: (routes, out))
    st0 = oracle.solution_stats(spec, routes)
    st = oracle.solution_stats(spec, out)
    obs.check(st["is_complete"], "local search result is incomplete",
              lambda: (routes, out))
    c0 = oracle.penalised_cost(st0, pens)
    c1 = oracle.penalised_cost(st, pens)
    obs.equal(ce.penalised_cost(res), c1, "cost of local search result",
              lambda: out)
    obs.count("ls_calls")
    if not st0["is_complete"]:
        obs.count("repaired_incomplete")
    if exhaustive and st0["is_complete"]:
        obs.check(c1 <= c0, "exhaustive local search worsened the solution",
                  lambda: f"{c0} -> {c1}: {routes} -> {out} {pens}")
        obs.count("improved" if c1 < c0 else "unchanged")
        if c1 == c0:
            pass
    return out, c0, c1


def feature_key(spec):
    f = spec["features"]
    return tuple(k for k in ("time", "reload", "groups", "shipments",
                             "optional", "release", "profiles") if f[k])


def calls(rng, obs, tier, big=False):
    spec = gen.gen_spec(rng, **{
        "min_visits": 2, "release_ok": True,
        **(dict(max_clients=40, max_shipments=12) if big else {}),
        **gen.large(rng, 0.15 if big else 0, huge=False)})
    if big:
        for vt in spec["vehicle_types"]:
            vt["num_available"] += rng.randint(0, 5)
    data = gen.build(spec)
    ops = pick_ops(rng, data)
    nb = pick_neighbours(rng, data)
    mn = rng.choice([0, 1, 3])
    pm = S.PerturbationManager(S.PerturbationParams(
        mn, mn + rng.choice([0, 2, 25])))
    ls = S.LocalSearch(data, P.RandomNumberGenerator(rng.getrandbits(31)),
                       nb, pm)
    objs = [op(data) for op in ops]
    for o in objs:
        ls.add_operator(o)
    prev = None
    for _ in range(3):
        if prev is not None and rng.random() < 0.4:
            routes = prev
        else:
            routes = gen.gen_routes(rng, spec,
                                    p_skip_req=rng.choice([0, 0, .3]))
        sol = gen.make_solution(data, routes)
        before = as_routes(sol)
        ce, pens = gen.gen_cost_evaluator(rng, spec["dims"])
        ex = rng.random() < 0.6
        res = ls(sol, ce, exhaustive=ex)
        out, c0, c1 = judge(obs, spec, routes, before, sol, res, ce, pens,
                            ex)
        prev = out
        stats = ls.statistics
        applied = {type(o).__name__: o.statistics.num_applications
                   for o in objs}
        evaluated = sum(o.statistics.num_evaluations for o in objs)
        obs.equal((stats.num_moves, stats.num_improving),
                  (evaluated, sum(applied.values())),
                  "local search statistics", lambda: applied)
        obs.check(stats.num_updates >= stats.num_improving,
                  "more improving moves than updates")
        if ex and sum(applied.values()) == 0 and oracle.solution_stats(
                spec, routes)["is_complete"]:
            obs.equal(sorted(map(repr, out)), sorted(
                repr((list(a), v)) for a, v in routes),
                "solution changed without an applied move")
        for k, v in applied.items():
            if v:
                obs.count(f"applied.{k}")
        obs.seen(feature_key(spec), ex, c1 < c0, c1 == c0,
                 tuple(sorted(k for k, v in applied.items() if v)))
        obs.sample((routes, out))


def large(rng, obs, tier):
    calls(rng, obs, tier, big=True)


def method(rng, obs, tier):
    """An applied move pays: with a single operator type, cost decreases."""
    spec = gen.gen_spec(rng, min_visits=2, release_ok=True, max_types=2)
    data = gen.build(spec)
    routes = gen.gen_routes(rng, spec)
    sol = gen.make_solution(data, routes)
    before = as_routes(sol)
    nb = S.compute_neighbours(data)
    for op in all_ops():
        if not op.supports(data) or rng.random() < 0.5:
            continue
        ce, pens = gen.gen_cost_evaluator(rng, spec["dims"])
        ls, (obj,) = core_search(data, [op], nb)
        res = ls(sol, ce, exhaustive=True)
        out, c0, c1 = judge(obs, spec, routes, before, sol, res, ce, pens,
                            True)
        n = obj.statistics.num_applications
        strict = op.__name__ != "RemoveAdjacentDepot"  # also removes for free
        if n and strict:
            obs.check(c1 <= c0 - n, "applied moves did not improve the cost",
                      lambda: f"{op.__name__} {n} moves {c0}->{c1} {routes}")
            obs.count("single_op_improved")
            obs.seen("single", op.__name__, min(n, 4), feature_key(spec))


def optimum(rng, obs, tier):
    """No configured move improves the outcome of an exhaustive search."""
    kw = dict(min_visits=2, max_clients=8, max_shipments=3)
    wide = rng.random() < 0.008  # more visits than a byte counts
    if wide:
        kw = dict(min_visits=280, max_clients=280, clients=True,
                  shipments=False, scale=1000)
        obs.count("wide_optima")
    spec = gen.gen_spec(rng, release_ok=True, optional=False, groups=False,
                        **kw)
    data = gen.build(spec)
    ops = pick_ops(rng, data)
    nb = pick_neighbours(rng, data)
    if wide:
        ops = rng.sample([o for o in (S.Relocate1, S.Swap11, S.SwapTails)
                          if o.supports(data)], 1)
        nb = S.compute_neighbours(data, S.NeighbourhoodParams(3))
    routes = gen.gen_routes(rng, spec)
    sol = gen.make_solution(data, routes)
    ce, pens = gen.gen_cost_evaluator(rng, spec["dims"])
    ls, _ = core_search(data, ops, nb)
    res = ls(sol, ce, exhaustive=True)
    ss = X.Solution(data)
    ss.load(res)
    objs = [op(data) for op in ops]
    for o in objs:
        if hasattr(o, "init"):
            o.init(ss)
    una = [o for o in objs if isinstance(o, S.UnaryOperator)]
    bina = [o for o in objs if isinstance(o, S.BinaryOperator)]
    n = 0
    state = [[[str(x) for x in r][1:-1], r.vehicle_type] for r in ss.routes]
    costs = moves.Costs(spec, pens)
    base = costs.state(state)
    own = not wide and rng.random() < 0.3  # enumerate the documented moves ourselves

    def probe(op, *nodes):
        nonlocal n
        n += 1
        delta, apply = op.evaluate(*nodes, ce)
        if own:
            name = type(op).__name__
            args = [str(nodes[0])]
            if len(nodes) > 1:
                v = nodes[1]
                if str(v) in (args[0], "U" + args[0][1:]):
                    return  # its own other half
                args.append(("start", next(
                    k for k, r in enumerate(ss.routes) if r[0] is v))
                    if v.is_start_depot() else str(v))
            for o in moves.MODEL[name](spec, state, *args) or ():
                obs.check(costs.state(o) >= base,
                          "a move improves the outcome of exhaustive search",
                          lambda: f"{name} {args}: {state} -> {o} {pens}")
                obs.count("moves_enumerated")
        obs.check(not apply, "improving move left after exhaustive search",
                  lambda: f"{type(op).__name__} {[str(x) for x in nodes]} "
                          f"delta={delta} {as_routes(res)} from {routes} "
                          f"{pens} nb={nb}")

    empties, off = [], 0
    for vt in spec["vehicle_types"]:
        for k in range(off, off + vt["num_available"]):
            if ss.routes[k].num_clients() + ss.routes[k].num_shipments() == 0:
                empties.append(ss.routes[k])
                break
        off += vt["num_available"]
    for act, neigh in nb.items():
        U = ss[act]
        for op in una:
            probe(op, U)
        for other in neigh:
            V = ss[other]
            if V.route is None:
                continue
            for op in bina:
                probe(op, U, V)
                pV = V.route[V.pos - 1]
                if pV.is_start_depot():
                    probe(op, U, pV)
        for r in empties:
            for op in bina:
                probe(op, U, r[0])
    obs.count("optima_checked")
    obs.count("moves_probed", n)
    obs.seen("opt", feature_key(spec), tuple(sorted(o.__name__ for o in ops)))


def counts(ls):
    st = ls.statistics
    return st.num_moves, st.num_improving, st.num_updates


def history(rng, obs, tier):
    """A used search object behaves like a new one."""
    spec = gen.gen_spec(rng, min_visits=2, release_ok=True)
    data = gen.build(spec)
    ops = pick_ops(rng, data)
    nb = pick_neighbours(rng, data)
    k = rng.choice([1, 1, 2, 4])
    params = S.PerturbationParams(k, k)
    used, _ = core_search(data, ops, nb, S.PerturbationManager(params))
    prev = last = None
    for step in range(5):
        if prev is not None and rng.random() < 0.5:
            sol = prev
        else:
            sol = gen.make_solution(data, gen.gen_routes(
                rng, spec, p_skip_req=rng.choice([0, 0, .3])))
            if last is not None and rng.random() < 0.4:
                sol = gen.make_solution(data, gen.tweak_routes(
                    rng, spec, last, any_depot=False))
        last = [([x for x in map(str, r)][1:-1], r.vehicle_type())
                for r in sol.routes()]
        if rng.random() < 0.6 or step == 0:
            ce, pens = gen.gen_cost_evaluator(rng, spec["dims"])
        ex = rng.random() < 0.5
        before = as_routes(sol)
        fresh, _ = core_search(data, ops, nb, S.PerturbationManager(params))
        a = used(sol, ce, exhaustive=ex)
        b = fresh(sol, ce, exhaustive=ex)
        obs.equal(as_routes(a), as_routes(b),
                  "reused local search object differs from a fresh one",
                  lambda: f"step {step} exhaustive={ex} {before} {pens}")
        obs.equal(counts(used), counts(fresh),
                  "statistics of a reused search object differ",
                  lambda: f"step {step} exhaustive={ex} {before} {pens}")
        st = used.statistics
        obs.check(st.num_improving <= st.num_updates
                  and st.num_improving <= st.num_moves,
                  "search statistics", lambda: f"{counts(used)}")
        obs.check(st.num_updates > 0 or not ex
                  or sorted(as_routes(a)) == sorted(before),
                  "updates not counted", before)
        mine = [*used.unary_operators, *used.binary_operators]
        obs.equal((st.num_moves, st.num_improving),
                  (sum(o.statistics.num_evaluations for o in mine),
                   sum(o.statistics.num_applications for o in mine)),
                  "search statistics do not add up the operators'")
        obs.equal(as_routes(sol), before, "local search changed its input")
        obs.count("reuse_compared")
        obs.seen("reuse", step, ex, feature_key(spec))
        prev = a


PARTS = [
    Part("calls", calls, 5000, 60_000,
         {"ls_calls": 500, "improved": 200, "repaired_incomplete": 50}),
    Part("large", large, 300, 6000),
    Part("method", method, 700, 8000, {"single_op_improved": 100}),
    Part("optimum", optimum, 2500, 40_000, {"optima_checked": 200,
                                            "moves_enumerated": 10_000}),
    Part("history", history, 2000, 30_000, {"reuse_compared": 300}),
]
