"""The reported schedule is the executed timetable."""

from vlib import gen, oracle
from vlib.harness import Part

PROPERTY = "C02"
VARIANT = "std"
RULE = ("an evaluation is one scheduled activity (or schedule-wide relation) "
        "compared with the executed timetable; distinct nontrivial counts "
        "distinct schedules by their per-activity pattern of kind, trip, wait "
        "and time warp")
ASSUME = ["vehicle time windows other than the latest start bound the route's "
          "start and end, not the individual activities"]


def compare(obs, spec, data, acts, vt):
    ex = oracle.Execution(spec, acts, vt)
    st = ex.stats()
    route = gen.make_route(data, acts, vt)
    want = ex.schedule(st["start_time"])
    got = [(str(a), a.trip, a.start_time, a.end_time, a.wait_duration,
            a.time_warp) for a in route.schedule()]
    obs.equal(len(got), len(want), "schedule length", lambda: acts)
    for g, w in zip(got, want):
        obs.equal(g, w, "scheduled activity",
                  lambda: f"{acts} vt={spec['vehicle_types'][vt]} {got}")
    for a in route.schedule():
        obs.equal(a.duration, a.end_time - a.start_time, "activity duration")
    # Element access and iteration show the same timetable.
    for i, w in enumerate(want):
        for a in (route[i], route[i - len(want)]):
            obs.equal((str(a), a.trip, a.start_time, a.end_time,
                       a.wait_duration, a.time_warp), w, "indexed activity")
    obs.equal([(str(a), a.trip, a.start_time) for a in route],
              [w[:3] for w in want], "iterated activities")
    obs.raises(IndexError, lambda: route[len(want)], "index past the end")
    obs.raises(IndexError, lambda: route[-len(want) - 1],
               "index before the start")

    # Relations a reader of the timetable relies on, stated on the reported
    # values alone.
    vt_d = spec["vehicle_types"][vt]
    dur = spec["dur"][vt_d["profile"]]
    locs = [oracle.step(spec, a)[0] for a in ex.seq]
    sched = route.schedule()
    for k in range(1, len(sched)):
        a, b = sched[k - 1], sched[k]
        obs.equal(b.start_time - b.wait_duration + b.time_warp,
                  a.end_time + dur[locs[k - 1]][locs[k]],
                  "arrival times do not chain", lambda: got)
        obs.check(b.wait_duration >= 0 and b.time_warp >= 0
                  and min(b.wait_duration, b.time_warp) == 0
                  and a.trip <= b.trip, "malformed schedule entry",
                  lambda: got)
        _, early, late, _, _ = oracle.step(spec, ex.seq[k])
        obs.check(early <= b.start_time <= late,
                  "activity outside its time window", lambda: got)
    if route.is_feasible():
        obs.check(not any(a.time_warp for a in sched),
                  "feasible route with a late activity", lambda: got)
        obs.equal(route.end_time(), max(sched[-1].end_time,
                                        vt_d["tw_early"]),
                  "feasible route's end time", lambda: got)
        obs.check(sched[0].start_time + 0 >= route.release_time()
                  and route.start_time() >= route.release_time(),
                  "feasible route leaves before its release", lambda: got)
        obs.count("feasible_schedules")
    obs.seen([(a[0][0], a[1], a[4] > 0, a[5] > 0) for a in got])
    obs.count("schedules")
    obs.count("waits", sum(a[4] > 0 for a in got))
    obs.count("warps", sum(a[5] > 0 for a in got))
    if st["num_trips"] > 1:
        obs.count("multi_trip_schedules")
    obs.sample(got)


def small(rng, obs, tier):
    spec = gen.gen_spec(rng)
    data = gen.build(spec)
    for acts, vt in gen.gen_routes(rng, spec, p_skip_req=rng.choice([0, .3]),
                                   any_reload=rng.random() < 0.3):
        compare(obs, spec, data, acts, vt)


def timing(rng, obs, tier):
    spec = gen.gen_spec(rng, max_clients=7, max_shipments=2, time=True,
                        release=rng.random() < 0.8, reload=True,
                        depot_tw=True, depot_service=True, clients=True,
                        min_visits=2, scale=rng.choice([3, 5, 10, 50]))
    data = gen.build(spec)
    for acts, vt in gen.gen_routes(rng, spec, p_reload=0.5):
        compare(obs, spec, data, acts, vt)


PARTS = [
    Part("small", small, 8000, 120_000,
         {"schedules": 500, "waits": 200, "warps": 200,
          "multi_trip_schedules": 100, "feasible_schedules": 100}),
    Part("timing", timing, 7000, 120_000),
]
