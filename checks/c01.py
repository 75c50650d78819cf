"""Route statistics agree with executing the route."""

from vlib import gen, oracle
from vlib.harness import Part
from vlib.lazy import P

PROPERTY = "C01"
VARIANT = "std"
RULE = ("an evaluation is one reported statistic of one constructed route "
        "compared with the execution oracle; distinct nontrivial counts "
        "distinct (statistic, relevant state) signatures: which of wait, time "
        "warp, overtime, excess, multi-trip, release and shipment behaviour "
        "the executed route showed, with its trip and visit counts")
ASSUME = ["instances within int64 range (sums below 2**62)",
          "the execution oracle in vlib/oracle.py states the documented "
          "semantics of routes"]


def signature(st, acts):
    return (st["duration"] > 0, st["wait_duration"] > 0, st["time_warp"] > 0,
            st["overtime"] > 0, st["excess_distance"] > 0,
            tuple(x > 0 for x in st["excess_load"]), st["num_trips"],
            st["release_time"] > 0, st["slack"] > 0, st["slack"] > 1 << 61,
            st["num_clients"], st["num_shipments"], st["prizes"] > 0)


def compare(obs, spec, data, acts, vt, key="route"):
    ex = oracle.Execution(spec, acts, vt)
    st = ex.stats()
    route = gen.make_route(data, acts, vt)
    for name, want in st.items():
        got = getattr(route, name)()
        obs.equal(got, want, f"route {name}",
                  lambda: f"{acts} vt={spec['vehicle_types'][vt]}")
    obs.equal(len(route), len(acts) + 2, "route length")
    obs.equal([str(a) for a in route],
              ex.seq, "route activities", lambda: acts)
    obs.seen(key, *signature(st, acts))
    obs.count("routes")
    for name in ("time_warp", "overtime", "wait_duration", "excess_distance",
                 "release_time", "has_excess_load"):
        if st[name]:
            obs.count(f"routes_with_{name}")
    if st["num_trips"] > 1:
        obs.count("routes_multi_trip")
    if st["num_shipments"]:
        obs.count("routes_with_shipments")
    return route, st, ex


def small(rng, obs, tier):
    spec = gen.gen_spec(rng)
    data = gen.build(spec)
    for acts, vt in gen.gen_routes(rng, spec, p_skip_req=rng.choice([0, .3]),
                                   any_reload=rng.random() < 0.3):
        compare(obs, spec, data, acts, vt)
    # Also a route without any visits, with and without reload stops.
    vt = rng.randrange(len(spec["vehicle_types"]))
    compare(obs, spec, data, gen.gen_route(rng, spec, vt, [], []), vt, "empty")
    obs.sample(f"features {spec['features']}")


def large(rng, obs, tier):
    """Long routes, with many trips."""
    spec = gen.gen_spec(rng, max_clients=80, max_shipments=rng.choice([20, 80]),
                        max_depots=5,
                        max_types=2, min_visits=20, groups=False,
                        time=True, reload=rng.random() < 0.7)
    data = gen.build(spec)
    vt = rng.randrange(len(spec["vehicle_types"]))
    for _ in range(2):
        cs = [i for i in range(len(spec["clients"])) if rng.random() < 0.8]
        ss = [i for i in range(len(spec["shipments"])) if rng.random() < 0.8]
        acts = gen.gen_route(rng, spec, vt, cs, ss,
                             p_reload=rng.choice([0.05, 0.3]))
        compare(obs, spec, data, acts, vt, "large")
        obs.count("large_routes")


def timing(rng, obs, tier):
    """Concentrates on multi-trip timing with release times and tight hours."""
    spec = gen.gen_spec(rng, max_clients=6, max_shipments=2, time=True,
                        release=True, reload=True, depot_tw=True,
                        depot_service=True, clients=True, min_visits=2,
                        scale=rng.choice([3, 5, 10]), shift=True,
                        overtime=rng.random() < 0.7)
    data = gen.build(spec)
    for acts, vt in gen.gen_routes(rng, spec, p_reload=0.5):
        compare(obs, spec, data, acts, vt, "timing")


def visits(rng, obs, tier):
    """The client-index constructor is the same as the activity one."""
    spec = gen.gen_spec(rng, shipments=False, clients=True, min_visits=1)
    data = gen.build(spec)
    vt = rng.randrange(len(spec["vehicle_types"]))
    idcs = [rng.randrange(len(spec["clients"]))
            for _ in range(rng.randint(0, 8))]
    acts = [f"C{i}" for i in idcs]
    a = P.Route(data, idcs, vt)
    b, st, _ = compare(obs, spec, data, acts, vt, "visits")
    obs.check(a == b, "constructors differ", lambda: idcs)
    for name, want in st.items():
        obs.equal(getattr(a, name)(), want, f"route {name} (visits)")
    obs.count("visit_ctor")


PARTS = [
    Part("small", small, 9000, 150_000, {
        "routes": 1000, "routes_with_time_warp": 50,
        "routes_with_overtime": 50, "routes_multi_trip": 50,
        "routes_with_shipments": 50, "routes_with_release_time": 50}),
    Part("large", large, 800, 15_000, {"large_routes": 50}),
    Part("timing", timing, 6000, 100_000),
    Part("visits", visits, 1000, 10_000, {"visit_ctor": 20}),
]
