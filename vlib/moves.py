"""
Independent model of the local search moves on plain activity lists. For an
operator and its arguments, returns every outcome the move may have.

A state is a list of [activities, vehicle type], one per vehicle, where the
activities exclude the start and end depot. U is a "C<i>" or "L<i>" activity;
V is an activity, or ("start", vehicle) for a vehicle's start depot.
"""

from .gen import max_trips
from .oracle import Execution


def locate(state, act):
    for r, (acts, _) in enumerate(state):
        if act in acts:
            return r, acts.index(act)
    return None


def place(state, V):
    """(vehicle, position of V), where the start depot has position -1."""
    if isinstance(V, tuple):
        return V[1], -1
    return locate(state, V)


def trip(acts, pos):
    return sum(a[0] == "D" for a in acts[: max(pos, 0)])


def with_routes(state, changes):
    out = [[list(a), v] for a, v in state]
    for r, acts in changes.items():
        out[r][0] = list(acts)
    return out


def splits(seg):
    """Whether the segment contains only part of a shipment."""
    ships = {a[1:] for a in seg if a[0] in "LU"}
    return any((f"L{s}" in seg) != (f"U{s}" in seg) for s in ships)


def bad_segment(acts, pos, n):
    """Segments move only when no shipment is on board at either end."""
    seg = acts[pos:pos + n]
    return (len(seg) < n or any(a[0] == "D" for a in seg) or splits(seg)
            or splits(acts[:pos]))


def visits(acts):
    return sum(a[0] != "D" for a in acts)


def next_act(state, v):
    r, p = v
    acts = state[r][0]
    return acts[p + 1] if p + 1 < len(acts) else None


def relocate(n, spec, state, U, V):
    u, v = locate(state, U), place(state, V)
    if u is None or v is None:
        return []
    ua, va = state[u[0]][0], state[v[0]][0]
    if bad_segment(ua, u[1], n):
        return []
    seg = ua[u[1]:u[1] + n]
    rest = ua[:u[1]] + ua[u[1] + n:]
    if u[0] == v[0]:
        if trip(ua, u[1]) != trip(ua, v[1]):
            return []
        if u[1] <= v[1] < u[1] + n or v[1] + 1 == u[1]:
            return []
        at = 0 if v[1] == -1 else rest.index(ua[v[1]]) + 1
        return [with_routes(state, {u[0]: rest[:at] + seg + rest[at:]})]
    at = v[1] + 1
    return [with_routes(state, {u[0]: rest,
                                v[0]: va[:at] + seg + va[at:]})]


def swap(n, m, spec, state, U, V):
    u, v = locate(state, U), place(state, V)
    if u is None or v is None or v[1] == -1:
        return []
    ua, va = state[u[0]][0], state[v[0]][0]
    if bad_segment(ua, u[1], n) or bad_segment(va, v[1], m):
        return []
    useg, vseg = ua[u[1]:u[1] + n], va[v[1]:v[1] + m]
    if n == m and (int(U[1:]), U[0] != "C") > (int(V[1:]), V[0] != "C"):
        return None  # evaluated with U and V exchanged
    if u[0] == v[0]:
        if trip(ua, u[1]) != trip(ua, v[1]):
            return []
        (a, la), (b, lb) = sorted([(u[1], n), (v[1], m)])
        if a + la >= b:
            return []
        new = (ua[:a] + ua[b:b + lb] + ua[a + la:b] + ua[a:a + la]
               + ua[b + lb:])
        return [with_routes(state, {u[0]: new})]
    return [with_routes(state, {
        u[0]: ua[:u[1]] + vseg + ua[u[1] + n:],
        v[0]: va[:v[1]] + useg + va[v[1] + m:]})]


def swap_tails(spec, state, U, V):
    u, v = locate(state, U), place(state, V)
    if u is None or v is None or u[0] == v[0]:
        return []
    ua, va = state[u[0]][0], state[v[0]][0]
    ut, vt = ua[u[1] + 1:], va[v[1] + 1:]
    if any(a[0] == "D" for a in ut + vt) or splits(ut) or splits(vt):
        return []
    if not ut and not vt:
        return []
    if u[0] > v[0] and visits(va) and v[1] != -1:
        return None  # evaluated with U and V exchanged
    return [with_routes(state, {u[0]: ua[:u[1] + 1] + vt,
                                v[0]: va[:v[1] + 1] + ut})]


def relocate_alternative(spec, state, U, V):
    u, v = locate(state, U), place(state, V)
    if u is None or v is None or U[0] != "C" or U == V:
        return []
    g = spec["clients"][int(U[1:])]["group"]
    if g is None or next_act(state, v) == U:
        return []
    if u[0] == v[0] and trip(state[u[0]][0], u[1]) != trip(
            state[u[0]][0], v[1]):
        return []
    out = []
    for c in spec["groups"][g]["clients"]:
        if f"C{c}" == U:
            continue
        st = with_routes(state, {})
        va = st[v[0]][0]
        va.insert(v[1] + 1, f"C{c}")
        st[u[0]][0].remove(U)
        out.append(st)
    return out


def relocate_pickup(spec, state, U):
    u = locate(state, U)
    if u is None or U[0] != "L":
        return []
    acts = state[u[0]][0]
    rest = [a for a in acts if a != U]
    end = rest.index("U" + U[1:])
    begin = end
    while begin > 0 and rest[begin - 1][0] != "D":
        begin -= 1
    return [with_routes(state, {u[0]: rest[:k] + [U] + rest[k:]})
            for k in range(begin, end + 1) if k != u[1]]


def relocate_delivery(spec, state, U):
    u = locate(state, U)
    if u is None or U[0] != "L":
        return []
    acts, D = state[u[0]][0], "U" + U[1:]
    pos = acts.index(D)
    rest = [a for a in acts if a != D]
    end = u[1] + 1
    while end < len(rest) and rest[end][0] != "D":
        end += 1
    return [with_routes(state, {u[0]: rest[:k] + [D] + rest[k:]})
            for k in range(u[1] + 1, end + 1) if k != pos]


def _insert_shipment(acts, at, ship):
    """All ways to insert pickup at ``at`` and delivery later in the trip."""
    out = []
    k = at
    while True:
        out.append(acts[:at] + [f"L{ship}"] + acts[at:k] + [f"U{ship}"]
                   + acts[k:])
        if k >= len(acts) or acts[k][0] == "D":
            return out
        k += 1


def relocate_shipment(spec, state, U, V):
    u, v = locate(state, U), place(state, V)
    if u is None or v is None or U[0] != "L" or u[0] == v[0]:
        return []
    rest = [a for a in state[u[0]][0] if a not in (U, "U" + U[1:])]
    return [with_routes(state, {u[0]: rest, v[0]: new}) for new in
            _insert_shipment(state[v[0]][0], v[1] + 1, U[1:])]


def relocate_with_depot(spec, state, U, V):
    u, v = locate(state, U), place(state, V)
    if u is None or v is None or U[0] != "C":
        return []
    va, vt = state[v[0]]
    veh = spec["vehicle_types"][vt]
    if not visits(va) or next_act(state, v) == U:
        return []
    if 1 + sum(a[0] == "D" for a in va) >= max_trips(veh):
        return []
    if u[0] == v[0] and trip(va, u[1]) != trip(va, v[1]):
        return []
    upto = va[: v[1] + 1]
    if sum(a[0] == "L" for a in upto) != sum(a[0] == "U" for a in upto):
        return []
    nxt = next_act(state, v)
    out = []
    for d in veh["reload_depots"]:
        kinds = [[f"D{d}", U]]
        if nxt is None or nxt[0] != "D":
            kinds.append([U, f"D{d}"])
        for ins in kinds:
            st = with_routes(state, {})
            a = st[v[0]][0]
            a[v[1] + 1:v[1] + 1] = ["new"]
            st[u[0]][0].remove(U)
            k = a.index("new")
            a[k:k + 1] = ins
            out.append(st)
    return out


def remove_adjacent_depot(spec, state, U):
    u = locate(state, U)
    if u is None:
        return []
    acts = state[u[0]][0]
    out = []
    for k in (u[1] - 1, u[1] + 1):
        if 0 <= k < len(acts) and acts[k][0] == "D":
            out.append(with_routes(state, {u[0]: acts[:k] + acts[k + 1:]}))
    return out


def remove_optional_client(spec, state, U):
    u = locate(state, U)
    if u is None or U[0] != "C":
        return []
    c = spec["clients"][int(U[1:])]
    if c["required"] or (c["group"] is not None
                         and spec["groups"][c["group"]]["required"]):
        return []
    return [with_routes(state, {u[0]: [a for a in state[u[0]][0]
                                       if a != U]})]


def remove_optional_shipment(spec, state, U):
    u = locate(state, U)
    if u is None or U[0] != "L":
        return []
    if spec["shipments"][int(U[1:])]["required"]:
        return []
    return [with_routes(state, {u[0]: [a for a in state[u[0]][0]
                                       if a not in (U, "U" + U[1:])]})]


def replace_group(spec, state, U):
    if locate(state, U) or U[0] != "C":
        return []
    g = spec["clients"][int(U[1:])]["group"]
    if g is None:
        return []
    for c in spec["groups"][g]["clients"]:
        v = locate(state, f"C{c}")
        if v:
            acts = list(state[v[0]][0])
            acts[v[1]] = U
            return [with_routes(state, {v[0]: acts})]
    return []


def insert_optional_client(spec, state, U, V):
    v = place(state, V)
    if locate(state, U) or v is None or U[0] != "C":
        return []
    g = spec["clients"][int(U[1:])]["group"]
    if g is not None:
        grp = spec["groups"][g]
        if grp["required"] or any(locate(state, f"C{c}")
                                  for c in grp["clients"]):
            return []
    va = state[v[0]][0]
    return [with_routes(state, {v[0]: va[:v[1] + 1] + [U] + va[v[1] + 1:]})]


def insert_optional_shipment(spec, state, U, V):
    v = place(state, V)
    if locate(state, U) or v is None or U[0] != "L":
        return []
    return [with_routes(state, {v[0]: new}) for new in
            _insert_shipment(state[v[0]][0], v[1] + 1, U[1:])]


def replace_optional_client(spec, state, U, V):
    v = place(state, V)
    if (locate(state, U) or v is None or v[1] == -1 or U[0] != "C"
            or V[0] != "C"):
        return []
    uc, vc = spec["clients"][int(U[1:])], spec["clients"][int(V[1:])]
    if vc["required"] or uc["group"] is not None or vc["group"] is not None:
        return []
    va = list(state[v[0]][0])
    va[v[1]] = U
    return [with_routes(state, {v[0]: va})]


def replace_optional_shipment(spec, state, U, V):
    v = place(state, V)
    if (locate(state, U) or v is None or v[1] == -1 or U[0] != "L"
            or V[0] not in "LU"):
        return []
    if spec["shipments"][int(V[1:])]["required"]:
        return []
    sub = {"L" + V[1:]: U, "U" + V[1:]: "U" + U[1:]}
    return [with_routes(state, {v[0]: [sub.get(a, a)
                                       for a in state[v[0]][0]]})]


def _reloc(n):
    return lambda *a: relocate(n, *a)


def _swap(n, m):
    return lambda *a: swap(n, m, *a)


MODEL = {
    **{f"Relocate{n}": _reloc(n) for n in (1, 2, 3)},
    **{f"Swap{n}{m}": _swap(n, m) for n, m in
       ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3))},
    "SwapTails": swap_tails,
    "RelocateAlternative": relocate_alternative,
    "RelocatePickup": relocate_pickup,
    "RelocateDelivery": relocate_delivery,
    "RelocateShipment": relocate_shipment,
    "RelocateWithDepot": relocate_with_depot,
    "RemoveAdjacentDepot": remove_adjacent_depot,
    "RemoveOptionalClient": remove_optional_client,
    "RemoveOptionalShipment": remove_optional_shipment,
    "ReplaceGroup": replace_group,
    "InsertOptionalClient": insert_optional_client,
    "InsertOptionalShipment": insert_optional_shipment,
    "ReplaceOptionalClient": replace_optional_client,
    "ReplaceOptionalShipment": replace_optional_shipment,
}


class Costs:
    """Penalised cost of states, by executing each distinct route once."""

    def __init__(self, spec, pens):
        self.spec, self.pens = spec, pens
        self.memo = {}
        self.total_prize = sum(c["prize"] for c in spec["clients"]) + sum(
            s["prize"] for s in spec["shipments"])

    def route(self, acts, vt):
        if not visits(acts):
            return 0
        key = (tuple(acts), vt)
        if key not in self.memo:
            st = Execution(self.spec, acts, vt).stats()
            loads, tw, dist = self.pens
            cost = (st["distance_cost"] + st["duration_cost"]
                    + st["fixed_vehicle_cost"] - st["prizes"])
            for e, p in zip(st["excess_load"], loads):
                cost += int(p * e)
            cost += int(tw * st["time_warp"])
            cost += int(dist * st["excess_distance"])
            self.memo[key] = cost
        return self.memo[key]

    def state(self, state):
        return self.total_prize + sum(self.route(a, v) for a, v in state)
