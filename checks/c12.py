"""Segment algebra equals executing the visits one by one."""

from vlib.gen import INF
from vlib.harness import Part
from vlib.lazy import P

PROPERTY = "C12"
VARIANT = "std"
RULE = ("an evaluation is one reported figure of a merged segment compared "
        "with execution; distinct nontrivial counts distinct shapes (number "
        "of leaves, merge tree, and whether waiting, time warp, release and "
        "saturation occurred)")
ASSUME = ["times and durations other than 'unbounded' stay below 2^61, so "
          "that sums of them fit 64 bits"]


def leaf(rng, big):
    H = rng.choice([5, 20, 100])
    if big:
        H = rng.choice([H, 10**6, 2**40, 2**59])
    u = rng.random()
    if u < 0.25:
        early, late = 0, INF
    elif u < 0.4:
        early = rng.randint(0, H)
        late = INF
    elif u < 0.5:
        early = late = rng.randint(0, H)
    else:
        early, late = sorted((rng.randint(0, H), rng.randint(0, H)))
    service = rng.choice([0, 0, rng.randint(0, H // 4)])
    release = 0
    if rng.random() < 0.3:
        release = rng.randint(0, min(late, H))
    travel = rng.choice([0, 1, rng.randint(0, H // 3)])
    return [travel, early, late, service, release]


def seg(lf):
    return P.DurationSegment(lf[3], 0, lf[1], lf[2], lf[4])


def tree(rng, leaves):
    """Merges leaves in a random bracketing; returns (segment, shape)."""
    if len(leaves) == 1:
        return seg(leaves[0]), "."
    k = rng.choice([1, len(leaves) - 1, rng.randrange(1, len(leaves))])
    a, sa = tree(rng, leaves[:k])
    b, sb = tree(rng, leaves[k:])
    return (P.DurationSegment.merge(leaves[k][0], a, b), f"({sa}{sb})")


def execute(lvs, t):
    """Drive a single trip starting at t, without release times."""
    now, wait, warp, busy = t, 0, 0, 0
    for i, (travel, early, late, service, _) in enumerate(lvs):
        travel = travel if i else 0
        now += travel
        busy += travel + service
        if now < early:
            wait += early - now
            now = early
        if now > late:
            warp += now - late
            now = late
        now += service
    return busy + wait, warp, now


def window(lvs):
    """
    Minimum duration and time warp, and the first and last start times in the
    first leaf's window that attain both.
    """
    # Candidates: bounds shifted back to the start, and chains of bounds.
    c, cand = 0, {lvs[0][1], lvs[0][2]}
    for i, (travel, early, late, service, _) in enumerate(lvs):
        c += travel if i else 0
        cand |= {early - c, late - c}
        c += service
    lo, hi = lvs[0][1], lvs[0][2]
    cand = sorted(x for x in cand if lo <= x <= hi)
    res = [(x, *execute(lvs, x)[:2]) for x in cand]
    warp = min(r[2] for r in res)
    dur = min(r[1] for r in res)
    ok = [r[0] for r in res if (r[1], r[2]) == (dur, warp)]
    return dur, warp, ok


def single(rng, obs, tier):
    """One trip, any bracketing."""
    big = rng.random() < 0.4
    lvs = [leaf(rng, big) for _ in range(rng.choice([1, 2, 3, 4, 6, 10, 25]))]
    dur, warp, ok = window(lvs)
    obs.check(ok, "no start time attains both minima (oracle)")
    early, late = ok[0], ok[-1]
    release = max(x[4] for x in lvs)
    s_early, s_late = max(early, release), max(late, release)
    tw = warp + max(release - late, 0)
    net = dur - tw
    want = dict(
        duration=dur, time_warp=tw, start_early=s_early, start_late=s_late,
        release_time=release, end_early=s_early + net,
        end_late=min(s_late + net, INF), prev_end_late=INF,
        slack=min(s_late - s_early, INF - release))
    shapes = set()
    for _ in range(4):
        s, shape = tree(rng, lvs)
        shapes.add(shape)
        for f, v in want.items():
            obs.equal(getattr(s, f)(), v, f"segment {f}",
                      lambda: f"{lvs} {shape}")
        for m in (0, 1, max(net, 0), max(net - 1, 0), net + 1 if net > 0
                  else 1, INF, rng.randint(0, 200)):
            if net < -2**60:
                continue
            obs.equal(s.time_warp(m), tw + max(net - m, 0),
                      "time warp with a maximum duration",
                      lambda: f"{lvs} {shape} {m}")
        text = str(s)
        for part in (f"duration={dur}", f"time_warp={tw}",
                     f"start_early={s_early}", f"start_late={s_late}"):
            obs.check(part in text, "printed segment", lambda: text)
    waited = dur > sum(x[3] for x in lvs) + sum(x[0] for x in lvs[1:])
    obs.count("trees", 4)
    obs.count("with_wait", waited)
    obs.count("with_warp", warp > 0)
    obs.count("release_binding", release > early)
    obs.count("release_late", release > late)
    obs.count("saturated", want["end_late"] == INF)
    for sh in shapes:
        obs.seen("single", len(lvs), sh if len(lvs) < 7 else "", waited,
                 warp > 0, release > early, release > late,
                 want["end_late"] == INF)
    if waited and warp:
        obs.sample(f"{lvs} -> {want}")

    # Finalising at the front keeps the figures and resets release times.
    s, _ = tree(rng, lvs)
    f = s.finalise_front()
    for name in ("duration", "time_warp", "start_early", "start_late",
                 "end_early", "end_late"):
        obs.equal(getattr(f, name)(), want[name], f"finalise_front: {name}",
                  lambda: lvs)
    obs.equal(f.release_time(), 0, "finalise_front: release_time")
    b = s.finalise_back()
    obs.equal((b.duration(), b.time_warp(), b.start_early(),
               b.release_time(), b.prev_end_late(), b.start_late()),
              (dur, tw, want["end_early"], want["end_early"],
               want["end_late"], INF), "finalise_back", lambda: lvs)


def trips(rng, obs, tier):
    """Several trips, finalised from either side."""
    big = rng.random() < 0.25
    n = rng.choice([2, 2, 3, 5])
    ts = [[leaf(rng, big) for _ in range(rng.choice([1, 2, 3, 5]))]
          for _ in range(n)]
    spread, pos = rng.choice([0, 0, 20, 60]), 0
    for t in ts:  # later windows for later visits: feasible more often
        for lf in t:
            lf[1] += pos
            if lf[2] != INF:
                lf[2] += pos * 2
            pos += spread
    for t in ts:
        t[0][0] = 0  # trips start where the previous one ended

    # Reference: greedy execution, starting at the first trip's start time.
    stages = []
    for k, t in enumerate(ts):
        rel = max(x[4] for x in t)
        for i, (travel, early, late, service, _) in enumerate(t):
            floor = rel if i == 0 and k else 0
            stages.append((travel if i else 0, floor, early, late, service))

    def run(t):
        now, wait, warp, busy = t, 0, 0, 0
        for travel, floor, early, late, service in stages:
            now += travel
            busy += travel + service
            for lo in (floor, early):
                if now < lo:
                    wait += lo - now
                    now = lo
            if now > late:
                warp += now - late
                now = late
            now += service
        return busy + wait, warp

    release = max(x[4] for x in ts[0])
    lo, hi = ts[0][0][1], ts[0][0][2]
    c, cand = 0, {lo, hi}
    for travel, floor, early, late, service in stages:
        c += travel
        cand |= {floor - c, early - c, late - c}
        c += service
    cand = [x for x in cand if lo <= x <= hi]
    dur = min(run(x)[0] for x in cand)
    warp = run(max(lo, release))[1]

    segs = [tree(rng, t)[0] for t in ts]
    fwd = segs[0]
    for s in segs[1:]:
        fwd = P.DurationSegment.merge(0, fwd.finalise_back(), s)
    bwd = segs[-1]
    for s in reversed(segs[:-1]):
        bwd = P.DurationSegment.merge(0, s, bwd.finalise_front())
    k = rng.randrange(1, n)
    mid = segs[0]
    for s in segs[1:k]:
        mid = P.DurationSegment.merge(0, mid.finalise_back(), s)
    rest = segs[-1]
    for s in reversed(segs[k:-1]):
        rest = P.DurationSegment.merge(0, s, rest.finalise_front())
    mids = [P.DurationSegment.merge(0, mid.finalise_back(), rest),
            P.DurationSegment.merge(0, mid.finalise_back(),
                                    rest.finalise_front()),
            fwd.finalise_back(), bwd.finalise_front()]
    for name, s in zip(["forward", "backward", "middle", "both",
                        "forward finalised", "backward finalised"],
                       [fwd, bwd, *mids]):
        obs.equal((s.duration(), s.time_warp()), (dur, warp),
                  f"multi-trip figures ({name})", lambda: ts)
        m = rng.randint(0, 200)
        if dur - warp > -2**60:
            obs.equal(s.time_warp(m), warp + max(dur - warp - m, 0),
                      f"multi-trip maximum duration ({name})", lambda: ts)
    obs.count("multi_trip")
    obs.count("multi_warp", warp > 0)
    obs.count("multi_feasible", warp == 0)
    obs.count("multi_release", any(x[4] for t in ts[1:] for x in t))
    obs.seen("trips", n, [len(t) for t in ts], warp > 0)


def load(rng, obs, tier):
    """Load segments: peak and excess load of the visits in order."""
    H = rng.choice([3, 20, 10**6, 2**55])
    n = rng.choice([1, 2, 3, 5, 10, 30])
    leaves, states = [], []
    for _ in range(n):
        kind = rng.choice(["client", "up", "down"])
        d = p = 0
        if kind == "client":
            d, p = rng.randint(0, H), rng.randint(0, H)
            leaves.append(P.LoadSegment(d, p - d, max(0, p - d)))
        elif kind == "up":
            p = rng.randint(0, H)
            leaves.append(P.LoadSegment(0, p, p))
        else:
            p = -rng.randint(0, H)
            leaves.append(P.LoadSegment(0, p, 0))
        states.append((d, p - d))

    def merge(a, b):
        if b - a == 1:
            return leaves[a]
        k = rng.randrange(a + 1, b)
        return P.LoadSegment.merge(merge(a, k), merge(k, b))

    initial = sum(s[0] for s in states)
    cur = peak = 0
    for _, delta in states:
        cur += delta
        peak = max(peak, cur)
    for _ in range(3):
        s = merge(0, n)
        obs.equal((s.initial(), s.delta(), s.increase(), s.load()),
                  (initial, cur, peak, initial + peak), "load segment",
                  lambda: states)
        for cap in (0, initial + peak, max(initial + peak - 1, 0), INF,
                    rng.randint(0, 3 * H)):
            exc = max(initial + peak - cap, 0)
            obs.equal(s.excess_load(cap), exc, "excess load",
                      lambda: (states, cap))
            f = s.finalise(cap)
            obs.equal((f.initial(), f.delta(), f.increase(), f.load(),
                       f.excess_load(0), f.excess_load(INF)),
                      (0, 0, 0, 0, exc, exc), "finalised load")
            g = P.LoadSegment.merge(f, s)
            obs.equal((g.load(), g.excess_load(cap)),
                      (initial + peak, 2 * exc), "two trips' excess load")
            g = P.LoadSegment.merge(s, f)
            obs.equal((g.load(), g.excess_load(cap)),
                      (initial + peak, 2 * exc), "two trips' excess load")
    obs.count("load_trees", 3)
    obs.count("load_peak_inside", peak > max(cur, 0))
    obs.seen("load", n, peak > cur, peak > 0, cur < 0)


PARTS = [
    Part("single", single, 20000, 600000,
         need={"trees": 20000, "with_wait": 1000, "with_warp": 1000,
               "release_binding": 1000, "release_late": 200,
               "saturated": 500}),
    Part("trips", trips, 15000, 400000,
         need={"multi_trip": 5000, "multi_warp": 500,
               "multi_feasible": 500, "multi_release": 500}),
    Part("load", load, 8000, 200000,
         need={"load_trees": 5000, "load_peak_inside": 500}),
]
