"""Perturbation changes a bounded number of visits, keeping solutions valid."""

from checks import c07, c23
from vlib import gen, moves, oracle
from vlib.harness import Part, Skip
from vlib.lazy import P, S, X

PROPERTY = "C21"
VARIANT = "std"
RULE = ("an evaluation is one condition on a perturbed solution or a number "
        "of perturbations drawn; distinct nontrivial counts distinct "
        "(perturbations, removals, insertions, visits) quadruples with at "
        "least one change")
ASSUME = ["no client is released only after a reload depot that its vehicle "
          "may use has closed (known finding of C06)"]


def touched(state, order, nb, num):
    """The visits to be perturbed, in order, with their current route."""
    out, seen = [], set()
    for u in order:
        groups = {}
        for v in [u, *nb[u]]:
            v = "L" + v[1:] if v[0] == "U" else v
            if v in seen:
                continue
            seen.add(v)
            loc = moves.locate(state, v)
            groups.setdefault(None if loc is None else loc[0], []).append(v)
        for r, vs in groups.items():
            for v in vs:
                out.append((v, r))
                if len(out) == num:
                    return out
    return out


def perturb(rng, obs, tier):
    big = rng.random() < 0.15
    spec = gen.gen_spec(rng, max_clients=70 if big else 10,
                        max_shipments=rng.choice([8, 70]) if big else 4, min_visits=1,
                        release_ok=True)
    data = gen.build(spec)
    nc, ns = len(spec["clients"]), len(spec["shipments"])
    keys = [f"C{i}" for i in range(nc)] + [f"L{i}" for i in range(ns)]
    everyone = keys + [f"U{i}" for i in range(ns)]
    if rng.random() < 0.5:
        nb = S.compute_neighbours(
            data, S.NeighbourhoodParams(0.2, rng.choice([1, 2, 4, 20]), True))
        nb = {str(k): [str(v) for v in vs] for k, vs in nb.items()}
    else:
        nb = {}
        for k in keys:
            pool = [v for v in everyone if v != k]
            nb[k] = rng.sample(pool, rng.randint(0, min(len(pool), 8)))
    sp = X.SearchSpace(data, {P.Activity(k): [P.Activity(v) for v in vs]
                              for k, vs in nb.items()})
    ce, pens = gen.gen_cost_evaluator(rng, spec["dims"])
    num = rng.choice([0, 1, 1, 2, 3, 5, 8, 25, nc + ns, nc + ns + 1, 10**6])
    full = rng.random() < 0.3
    skip = 0.0 if full else rng.choice([0.1, 0.5, 0.9])
    ss = X.Solution(data)

    for _ in range(rng.choice([1, 1, 3])):
        routes = gen.gen_routes(rng, spec, p_skip_opt=skip, p_skip_req=skip)
        ss.load(gen.make_solution(data, routes))
        sp.shuffle(P.RandomNumberGenerator(rng.getrandbits(32)))
        for k in keys:
            if rng.random() < 0.3:
                sp.mark_promising(P.Activity(k))
        marked = {k for k in keys if sp.is_promising(P.Activity(k))}
        pm = X.PerturbationManager(S.PerturbationParams(num, num))
        obs.equal(pm.num_perturbations(), num, "number of perturbations")
        before = c23.read(ss)
        order = [str(a) for a in sp.activity_order()]
        pm.perturb(ss, sp, ce)
        after = c23.read(ss)
        what = lambda: (f"{num=} {nc=} {ns=} {order} {nb} "  # noqa: E731
                        f"before {before} after {after}")
        prom = {k for k in keys if sp.is_promising(P.Activity(k))}
        if num == 0:
            obs.equal(after, before, "changed without perturbation", what)
            obs.equal(prom, marked, "marks changed without perturbation",
                      what)
            obs.count("none")
            continue

        hit = touched(before, order, nb, num)
        obs.equal(len(hit), min(num, nc + ns), "model: number of changes")
        gone = {v for v, r in hit if r is not None}
        new = {v for v, r in hit if r is None}

        def steps(vs):
            return vs | {"U" + v[1:] for v in vs if v[0] == "L"}

        flat = [a for acts, _ in after for a in acts if a[0] != "D"]
        was = [a for acts, _ in before for a in acts if a[0] != "D"]
        obs.equal(len(flat), len(set(flat)), "visit is there twice", what)
        obs.equal(set(was) - set(flat), steps(gone), "removed visits", what)
        obs.equal(set(flat) - set(was), steps(new), "inserted visits", what)
        for (a, va), (b, vb) in zip(before, after):
            obs.equal(vb, va, "vehicle type changed", what)
            obs.equal([x for x in b if x not in steps(new)],
                      [x for x in a if x not in steps(gone)],
                      "other visits moved", what)
            obs.check(oracle.route_valid(spec, b, vb),
                      "invalid route after perturbation", what)
        for k in keys:  # nodes know where they are
            node = ss[P.Activity(k)]
            obs.equal(node.route is not None, k in flat,
                      "node of a visit disagrees with the routes", what)
        for r, (acts, vt) in zip(ss.routes, after):
            c07.structure(obs, r, acts, vt, spec, what)
            if moves.visits(acts):
                c07.statistics(obs, r, acts, vt, spec, rng, what)

        obs.check(gone | new <= prom, "perturbed visit is not promising",
                  lambda: f"{(gone | new) - prom} {what()}")
        if not new:  # then where things were is known at all times
            want, cur = set(), [list(a) for a, _ in before]
            for v, r in hit:
                for s in ([v] if v[0] == "C" else [v, "U" + v[1:]]):
                    i = cur[r].index(s)
                    for j in (i - 1, i, i + 1):
                        if 0 <= j < len(cur[r]) and cur[r][j][0] != "D":
                            want.add(cur[r][j].replace("U", "L"))
                    cur[r].remove(s)
            obs.equal(prom, want, "promising visits", what)
            obs.count("exact_marks")
        else:
            obs.check(len(prom) <= 5 * len(hit), "too many promising visits",
                      what)
        obs.count("perturbed")
        obs.count("removals", len(gone))
        obs.count("insertions", len(new))
        obs.seen(num, len(gone), len(new), nc + ns)


def numbers(rng, obs, tier):
    """Every number in the range comes up, and none outside it."""
    lo = rng.choice([0, 0, 1, 2, 10, 1000])
    hi = lo + rng.choice([0, 1, 2, 5, 24])
    params = S.PerturbationParams(lo, hi)
    obs.equal((params.min_perturbations, params.max_perturbations), (lo, hi),
              "perturbation parameters")
    obs.check(params == S.PerturbationParams(lo, hi)
              and params != S.PerturbationParams(lo, hi + 1),
              "equality of parameters")
    pm = X.PerturbationManager(params)
    obs.check(lo <= pm.num_perturbations() <= hi, "initial number")
    gen_ = P.RandomNumberGenerator(rng.getrandbits(32))
    seen = set()
    for _ in range(60 * (hi - lo + 1)):
        pm.shuffle(gen_)
        n = pm.num_perturbations()
        obs.check(lo <= n <= hi, "number of perturbations out of range",
                  (n, lo, hi))
        seen.add(n)
    obs.equal(seen, set(range(lo, hi + 1)), "numbers of perturbations drawn")
    obs.count("draws", 60 * (hi - lo + 1))
    obs.raises(ValueError, lambda: S.PerturbationParams(hi + 1, hi),
               "minimum above maximum accepted")
    default = S.PerturbationParams()
    obs.check(default.min_perturbations <= default.max_perturbations,
              "default parameters")


def search(rng, obs, tier):
    """What a search without operators does is its perturbation."""
    spec = gen.gen_spec(rng, max_clients=14, max_shipments=4, min_visits=2,
                        release_ok=True)
    data = gen.build(spec)
    lo = rng.choice([0, 1, 1, 3])
    hi = lo + rng.choice([0, 1, 4, 20])
    pm = S.PerturbationManager(S.PerturbationParams(lo, hi))
    gen_ = P.RandomNumberGenerator(rng.getrandbits(32))
    ls = S.LocalSearch(data, gen_, S.compute_neighbours(data), pm)
    ce, pens = gen.gen_cost_evaluator(rng, spec["dims"])
    sol = gen.make_solution(data, gen.gen_routes(rng, spec))
    for _ in range(4):
        new = ls(sol, ce)
        n = pm.num_perturbations()
        obs.check(lo <= n <= hi, "number of perturbations of a search",
                  (n, lo, hi))
        before = [c23.acts_of(r) for r in sol.routes()]
        after = [c23.acts_of(r) for r in new.routes()]
        what = lambda: f"{n=} {before} {after} {spec}"  # noqa: E731
        flat_b = {a for r in before for a in r if a[0] != "D"}
        flat_a = {a for r in after for a in r if a[0] != "D"}
        # Visits whose successor or predecessor changed were perturbed or
        # next to one that was.
        if n == 0:
            if sol.is_complete():
                obs.equal(sorted(after), sorted(before),
                          "unperturbed solution changed", what)
            obs.count("unperturbed")
        keep = flat_a & flat_b
        free = [a for a in keep if a[0] == "C"]
        touch = sum(a[0] != "U" for a in flat_a ^ flat_b)
        groups = len(spec["groups"])
        # Perturbing n visits plans or unplans at most n; to that come
        # insertions of required visits and removals from groups.
        if sol.is_complete() and new.is_complete():
            obs.check(touch <= n + groups,
                      "more visits were planned or unplanned than perturbed",
                      what)
        obs.count("searches")
        obs.seen("s", n, touch, len(free))
        sol = new


PARTS = [
    Part("perturb", perturb, 3000, 60_000,
         {"perturbed": 2000, "removals": 2000, "insertions": 2000,
          "exact_marks": 200}),
    Part("numbers", numbers, 300, 5000, {"draws": 20_000}),
    Part("search", search, 1200, 30_000, {"searches": 2000}),
]
