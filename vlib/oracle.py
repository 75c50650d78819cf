"""
Independent reference semantics of PyVRP's data model. Routes are *executed*:
for a given start time the vehicle drives the activities in order, waits when
it is early, and is moved back in time ("time warp") when it is late. The
statistics are then derived from that execution over the candidate start times
where its behaviour can change. None of PyVRP's segment algebra is used.
"""

from __future__ import annotations

from .gen import INF, max_trips

INT_MAX = INF


def step(spec, act):
    """(location, early, late, service, release) of a single activity."""
    k, i = act[0], int(act[1:])
    if k == "C":
        c = spec["clients"][i]
        return (c["location"], c["tw_early"], c["tw_late"],
                c["service_duration"], c["release_time"])
    if k == "D":
        d = spec["depots"][i]
        return (d["location"], d["tw_early"], d["tw_late"],
                d["service_duration"], 0)
    s = spec["shipments"][i]
    p = "pickup" if k == "L" else "delivery"
    return (s[f"{p}_location"], s[f"{p}_tw_early"], s[f"{p}_tw_late"],
            s[f"{p}_service_duration"], 0)


class Execution:
    """Executes one route: a vehicle type and the activities in between."""

    def __init__(self, spec, acts, vt_idx):
        self.spec = spec
        self.acts = list(acts)
        vt = self.vt = spec["vehicle_types"][vt_idx]
        self.vt_idx = vt_idx
        self.dur = spec["dur"][vt["profile"]]
        self.dist = spec["dist"][vt["profile"]]
        start = f"D{vt['start_depot']}"
        end = f"D{vt['end_depot']}"
        self.seq = [start, *self.acts, end]
        self.start_late = (vt["tw_late"] if vt["start_late"] is None
                           else vt["start_late"])

        # Release time per trip: the latest of its clients'.
        self.release = [0]
        for a in self.acts:
            if a[0] == "D":
                self.release.append(0)
            else:
                self.release[-1] = max(self.release[-1], step(spec, a)[4])

        # A program of (travel, floor, early, late, service) stages: after the
        # travel, time is at least floor (no time warp for that), then must be
        # in [early, late].
        prog = [(0, 0, vt["tw_early"], self.start_late, 0)]
        trip, prev = 0, None
        for pos, a in enumerate(self.seq):
            loc, early, late, service, _ = step(spec, a)
            floor = 0
            if pos == len(self.seq) - 1:
                service = 0
            elif a[0] == "D" and pos:
                trip += 1
                floor = self.release[trip]
            travel = 0 if prev is None else self.dur[prev][loc]
            prog.append((travel, floor, early, late, service))
            prev = loc
        prog.append((0, 0, vt["tw_early"], vt["tw_late"], 0))
        self.prog = prog

    def run(self, t):
        """Executes from start time t: (elapsed duration, time warp)."""
        now, wait, warp, busy = t, 0, 0, 0
        for travel, floor, early, late, service in self.prog:
            now += travel
            busy += travel + service
            if now < floor:
                wait += floor - now
                now = floor
            if now < early:
                wait += early - now
                now = early
            if now > late:
                warp += now - late
                now = late
            now += service
        return busy + wait, warp

    def candidates(self):
        """Start times at which the execution's behaviour changes."""
        cands = {0}
        # Time at the current stage as a function of t: clamp(t + c, lo, hi).
        c, lo, hi = 0, None, None

        def low(x):
            nonlocal lo, hi
            cands.add(x - c)
            lo = x if lo is None else max(lo, x)
            if hi is not None:
                hi = max(hi, x)

        def high(x):
            nonlocal lo, hi
            cands.add(x - c)
            hi = x if hi is None else min(hi, x)
            if lo is not None:
                lo = min(lo, x)

        def bounds():
            if lo is not None:
                cands.add(lo - c)
            if hi is not None:
                cands.add(hi - c)

        for travel, floor, early, late, service in self.prog:
            c += travel
            lo = None if lo is None else lo + travel
            hi = None if hi is None else hi + travel
            low(floor)
            low(early)
            high(late)
            bounds()
            c += service
            lo = None if lo is None else lo + service
            hi = None if hi is None else hi + service
        return sorted(cands)

    def time_stats(self):
        r0 = self.release[0]
        cands = self.candidates()
        far = max(cands) + 1
        best_dur = self.run(far)[0]  # nonincreasing in the start time
        cands = [c for c in cands if c >= r0] + [r0]
        warp = self.run(r0)[1]  # nondecreasing in the start time
        early = min(c for c in cands if self.run(c)[0] == best_dur)
        ok = [c for c in cands if self.run(c)[1] == warp]
        late = max(ok)
        return best_dur, warp, early, late

    def stats(self):
        spec, vt = self.spec, self.vt
        dims = spec["dims"]
        duration, warp, early, late = self.time_stats()
        max_dur = min(vt["shift_duration"] + vt["max_overtime"], INF)
        # The maximum duration applies to the duration net of time warp.
        time_warp = warp + max(duration - warp - max_dur, 0)
        overtime = max(duration - vt["shift_duration"], 0)

        distance = travel = 0
        for a, b in zip(self.seq, self.seq[1:]):
            la, lb = step(spec, a)[0], step(spec, b)[0]
            distance += self.dist[la][lb]
            travel += self.dur[la][lb]
        service = sum(step(spec, a)[3] for a in self.seq[:-1])

        delivery, pickup, excess = [], [], []
        trip_loads = []
        for d in range(dims):
            exc, loads = 0, []
            tot_del, tot_pick = 0, vt["initial_load"][d]
            for k, trip in enumerate(self.trips()):
                load = vt["initial_load"][d] if k == 0 else 0
                for a in trip:
                    if a[0] == "C":
                        load += spec["clients"][int(a[1:])]["delivery"][d]
                peak = load
                for a in trip:
                    i = int(a[1:])
                    if a[0] == "C":
                        c = spec["clients"][i]
                        load += c["pickup"][d] - c["delivery"][d]
                        tot_del += c["delivery"][d]
                        tot_pick += c["pickup"][d]
                    elif a[0] == "L":
                        load += spec["shipments"][i]["amount"][d]
                    elif a[0] == "U":
                        load -= spec["shipments"][i]["amount"][d]
                    peak = max(peak, load)
                loads.append(peak)
                exc += max(peak - vt["capacity"][d], 0)
            delivery.append(tot_del)
            pickup.append(tot_pick)
            excess.append(exc)
            trip_loads.append(loads)

        prizes = 0
        for a in self.acts:
            if a[0] == "C":
                prizes += spec["clients"][int(a[1:])]["prize"]
            elif a[0] == "L":
                prizes += spec["shipments"][int(a[1:])]["prize"]

        excess_distance = max(distance - vt["max_distance"], 0)
        n_c = sum(a[0] == "C" for a in self.acts)
        n_s = sum(a[0] == "L" for a in self.acts)
        n_d = sum(a[0] == "D" for a in self.acts)
        out = dict(
            distance=distance,
            distance_cost=vt["unit_distance_cost"] * distance,
            excess_distance=excess_distance,
            duration=duration,
            overtime=overtime,
            duration_cost=vt["unit_duration_cost"] * duration
            + vt["unit_overtime_cost"] * overtime,
            time_warp=time_warp,
            service_duration=service,
            travel_duration=travel,
            wait_duration=duration - travel - service,
            start_time=early,
            end_time=early + duration - time_warp,
            slack=min(late - early, INF - self.release[0]),
            release_time=self.release[0],
            delivery=delivery, pickup=pickup, excess_load=excess,
            fixed_vehicle_cost=vt["fixed_cost"],
            prizes=prizes,
            num_clients=n_c, num_shipments=n_s, num_trips=n_d + 1,
            num_depots=n_d + 2,
            start_depot=vt["start_depot"], end_depot=vt["end_depot"],
            vehicle_type=self.vt_idx,
            has_excess_load=any(excess),
            has_excess_distance=excess_distance > 0,
            has_time_warp=time_warp > 0,
            is_feasible=not any(excess) and excess_distance == 0
            and time_warp == 0,
        )
        self._trip_loads = trip_loads
        return out

    def trips(self):
        trips = [[]]
        for a in self.acts:
            if a[0] == "D":
                trips.append([])
            else:
                trips[-1].append(a)
        return trips

    def schedule(self, start_time):
        """
        Per-activity (activity, trip, start, end, wait, time warp), when the
        route is started at the given time. Vehicle time windows other than
        the latest start are not part of the schedule.
        """
        out, now, trip, prev = [], start_time, 0, None
        for pos, a in enumerate(self.seq):
            loc, early, late, service, _ = step(self.spec, a)
            if prev is not None:
                now += self.dur[prev][loc]
            prev = loc
            is_end = pos == len(self.seq) - 1
            if pos == 0:
                early = max(early, min(self.release[0], late))
                late = min(late, self.start_late)
            elif is_end:
                trip += 1
                service = 0
            elif a[0] == "D":
                trip += 1
                early = max(early, min(self.release[trip], late))
            wait = max(early - now, 0)
            warp = max(now - late, 0)
            now += wait - warp
            out.append((a, trip, now, now + service, wait, warp))
            now += service
        return out


def route_valid(spec, acts, vt_idx):
    """Independent structural validity of an activity sequence."""
    if vt_idx >= len(spec["vehicle_types"]):
        return False
    picked, delivered, open_, trips = set(), set(), set(), 1
    for a in acts:
        k, i = a[0], int(a[1:])
        if k == "D":
            trips += 1
            if i >= len(spec["depots"]) or open_:
                return False
        elif k == "C":
            if i >= len(spec["clients"]):
                return False
        else:
            if i >= len(spec["shipments"]):
                return False
            if k == "L":
                if i in picked:
                    return False
                picked.add(i)
                open_.add(i)
            else:
                if i not in picked or i in delivered:
                    return False
                delivered.add(i)
                open_.discard(i)
    return not open_ and trips <= max_trips(spec["vehicle_types"][vt_idx])


def solution_valid(spec, routes):
    """Routes are (acts, vt), each of which is a valid route."""
    if len(routes) > sum(v["num_available"] for v in spec["vehicle_types"]):
        return False
    used = [0] * len(spec["vehicle_types"])
    seen_c, seen_s, seen_g = set(), set(), set()
    for acts, vt in routes:
        used[vt] += 1
        if not any(a[0] != "D" for a in acts):
            return False
        for a in acts:
            i = int(a[1:])
            if a[0] == "C":
                if i in seen_c:
                    return False
                seen_c.add(i)
                g = spec["clients"][i]["group"]
                if g is not None:
                    if g in seen_g:
                        return False
                    seen_g.add(g)
            elif a[0] == "L":
                if i in seen_s:
                    return False
                seen_s.add(i)
    return all(u <= v["num_available"]
               for u, v in zip(used, spec["vehicle_types"]))


def solution_stats(spec, routes):
    """Independent aggregates of a valid solution."""
    per = [Execution(spec, a, v).stats() for a, v in routes]
    cs = {int(a[1:]) for acts, _ in routes for a in acts if a[0] == "C"}
    ss = {int(a[1:]) for acts, _ in routes for a in acts if a[0] == "L"}
    miss_c = [i for i, c in enumerate(spec["clients"])
              if c["required"] and i not in cs]
    miss_s = [i for i, s in enumerate(spec["shipments"])
              if s["required"] and i not in ss]
    miss_g = [g for g, grp in enumerate(spec["groups"])
              if grp["required"] and not any(c in cs for c in grp["clients"])]
    all_prizes = sum(c["prize"] for c in spec["clients"]) + sum(
        s["prize"] for s in spec["shipments"])

    def tot(key):
        return sum(p[key] for p in per)

    prizes = tot("prizes")
    complete = not (miss_c or miss_s or miss_g)
    out = {k: tot(k) for k in ("distance", "distance_cost", "duration",
                               "overtime", "duration_cost", "time_warp",
                               "excess_distance", "fixed_vehicle_cost",
                               "num_trips", "num_clients", "num_shipments",
                               "prizes")}
    excess = [sum(p["excess_load"][d] for p in per)
              for d in range(spec["dims"])]
    out.update(
        excess_load=excess,
        uncollected_prizes=all_prizes - prizes,
        num_routes=len(routes),
        num_missing_clients=len(miss_c),
        num_missing_groups=len(miss_g),
        num_missing_shipments=len(miss_s),
        has_excess_load=any(excess),
        has_excess_distance=out["excess_distance"] > 0,
        has_time_warp=out["time_warp"] > 0,
        is_complete=complete,
        is_feasible=complete and not any(excess)
        and out["excess_distance"] == 0 and out["time_warp"] == 0,
        unplanned=sorted([f"C{i}" for i in range(len(spec["clients"]))
                          if i not in cs]
                         + [f"{k}{i}" for i in range(len(spec["shipments"]))
                            if i not in ss for k in "LU"]),
    )
    out["_routes"] = per
    return out


def penalised_cost(stats, pens):
    """Penalised objective from solution_stats and penalty weights."""
    loads, tw, dist = pens
    cost = stats["uncollected_prizes"]
    for r in stats["_routes"]:
        cost += r["distance_cost"] + r["duration_cost"]
        cost += r["fixed_vehicle_cost"]
        for exc, pen in zip(r["excess_load"], loads):
            cost += int(pen * exc)
        cost += int(tw * r["time_warp"])
        cost += int(dist * r["excess_distance"])
    return cost


def cost(stats, pens=None):
    if not stats["is_feasible"]:
        return INT_MAX
    return penalised_cost(stats, pens or ([0] * 99, 0, 0))
