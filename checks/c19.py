"""Utility structures behave as their mathematical models."""

import copy
import itertools
import pickle

from vlib import gen
from vlib.harness import Part
from vlib.lazy import P, X

PROPERTY = "C19"
VARIANT = "std"
RULE = ("an evaluation is one answer of a structure compared with its "
        "model's; distinct nontrivial counts distinct (structure, size, "
        "operation history) triples")
ASSUME = ["bit sets are only combined with bit sets of the same size, ring "
          "buffers hold no None, and function values stay within 64 bits, "
          "as documented or asserted by the code"]


# ------------------------------------------------------------------ bits ----


def bits(rng, obs, tier):
    n = rng.choice([0, 1, 2, 31, 63, 64, 65, 127, 128, 129, 200,
                    rng.randint(0, 400), rng.randint(0, 400)])
    pool = [P.DynamicBitset(n) for _ in range(3)]
    size = (n + 63) // 64 * 64
    model = [set() for _ in pool]
    every = set(range(size))
    hist = []
    for _ in range(rng.randint(3, 40)):
        i, j = rng.randrange(3), rng.randrange(3)
        op = rng.choice(["on", "on", "on", "off", "or", "and", "xor", "inv",
                         "set", "reset", "out", "copy", "pickle", "on",
                         "blocks"])
        a, b = pool[i], pool[j]
        before = set(model[j])
        if op in ("on", "off") and size:
            k = rng.choice([0, size - 1, min(63, size - 1), size // 2,
                            min(64, size - 1), rng.randrange(size)])
            a[k] = op == "on"
            (model[i].add if op == "on" else model[i].discard)(k)
        elif op == "blocks" and size:
            for k in range(rng.randrange(size), size):
                a[k] = True
                model[i].add(k)
        elif op in ("or", "and", "xor"):
            c = a | b if op == "or" else a & b if op == "and" else a ^ b
            m = (model[i] | model[j] if op == "or" else
                 model[i] & model[j] if op == "and" else model[i] ^ model[j])
            k = rng.randrange(3)
            pool[k], model[k] = c, set(m)
            if k != j:
                before = set(model[j])
            else:
                before = set(m)
        elif op == "inv":
            pool[i], model[i] = ~a, every - model[i]
            obs.equal(~pool[i] == a, True, "double complement")
        elif op == "set":
            a.set()
            model[i] = set(every)
        elif op == "reset":
            a.reset()
            model[i] = set()
        elif op == "out":
            for k in (size, size + 1, 2**40, size + 64):
                obs.raises(IndexError, lambda: a[k], "read out of range")
                obs.raises(IndexError, lambda: a.__setitem__(k, True),
                           "write out of range")
        elif op == "copy":
            pool[i], model[i] = copy.copy(b), set(model[j])
        elif op == "pickle":
            pool[i] = pickle.loads(pickle.dumps(b))
            model[i] = set(model[j])
        hist.append((op, i, j))
        obs.count("bit_operations")
        what = lambda: f"{n=} {hist}"  # noqa: E731
        if i != j and op not in ("or", "and", "xor"):
            obs.equal(model[j], before, "model error", what)
        for x, m in zip(pool, model):
            obs.equal(len(x), size, "size of a bit set", what)
            obs.equal(x.count(), len(m), "count", what)
            obs.equal((x.any(), x.none(), x.all()),
                      (bool(m), not m, m == every), "any, none, all", what)
            obs.equal({k for k in range(size) if x[k]}, m, "members", what)
        for p, q in itertools.combinations(range(3), 2):
            obs.equal(pool[p] == pool[q], model[p] == model[q], "equality",
                      what)
    obs.seen("bits", n, hist)


# ------------------------------------------------------------- functions ----


def evaluate(points, x):
    """Value of the function through the given points at x."""
    if x < points[0][0]:
        seg = points[0], points[1]
    else:
        seg = None
        for p, q in zip(points, points[1:]):
            if p[0] < q[0] and p[0] <= x:
                seg = p, q  # the last one starting at or before x
    (x0, y0), (x1, y1) = seg
    return y0 + (y1 - y0) // (x1 - x0) * (x - x0)


def linear(rng, obs, tier):
    big = rng.choice([10, 100, 10**6])
    slope_hi = rng.choice([1, 5, 1000])
    x = rng.randint(-big, big)
    y = rng.randint(-big, big)
    points = [(x, y)]
    n = rng.randint(1, 7)
    for i in range(n):
        if 0 < i and rng.random() < 0.3 and points[-1][0] != points[-2][0]:
            points.append((x, y + rng.randint(-big, big)))  # a jump
            y = points[-1][1]
        dx = rng.randint(1, rng.choice([1, 5, big]))
        if rng.random() < 0.4:
            slope = rng.randint(0, slope_hi)
        else:
            slope = rng.randint(-slope_hi, slope_hi)
        x, y = x + dx, y + slope * dx
        points.append((x, y))
    if rng.random() < 0.4:  # a monotone one
        points = [(px, 0) for px, _ in points]
        y, out = rng.randint(-5, 5), []
        for (px, _), nxt in zip(points, points[1:] + [None]):
            if out:
                dx = px - out[-1][0]
                y += rng.randint(0, 3) * dx if dx else rng.choice([0, 3])
            out.append((px, y))
        points = out

    f = P.PiecewiseLinearFunction(points)
    what = lambda: f"{points}"  # noqa: E731
    xs = {p[0] + d for p in points for d in (-1, 0, 1, -7, 7)}
    xs |= {rng.randint(-2 * big, 8 * big) for _ in range(10)}
    for v in sorted(xs):
        obs.equal(f(v), evaluate(points, v), "function value",
                  lambda: f"x={v} {points}")
    starts = [p for p, q in zip(points, points[1:]) if p[0] != q[0]]
    obs.equal(list(f.breakpoints), [p[0] for p in starts[1:]],
              "breakpoints", what)
    obs.equal(len(f.segments), len(starts), "number of segments", what)
    up = all(q[1] >= p[1] for p, q in zip(points, points[1:]))
    obs.equal(f.is_monotonically_increasing(), up, "monotonicity", what)
    obs.count("functions")
    obs.count("monotone" if up else "not_monotone")
    obs.count("jumps", len(points) - len(starts) - 1)
    obs.seen("pwl", points)

    # The other constructor, copies and equality.
    g = P.PiecewiseLinearFunction(list(f.breakpoints), list(f.segments))
    for h in (g, pickle.loads(pickle.dumps(f)), copy.copy(f)):
        obs.check(h == f, "copies differ", what)
        for v in sorted(xs)[::3]:
            obs.equal(h(v), f(v), "copies differ in value", what)
        obs.equal(h.is_monotonically_increasing(), up, "copy's monotonicity",
                  what)
    i = rng.randrange(len(f.segments))
    segs = list(f.segments)
    segs[i] = (segs[i][0] + rng.choice([-1, 1]), segs[i][1])
    obs.check(P.PiecewiseLinearFunction(list(f.breakpoints), segs) != f,
              "functions with different segments are equal", what)

    # Malformed input.
    bad = list(points)
    kind = rng.choice(["few", "first", "last", "order", "slope", "empty",
                       "count", "breaks"])
    if kind == "few":
        args = (points[:rng.randint(0, 1)],)
    elif kind == "first":
        args = ([(points[0][0], 3)] + bad,)
    elif kind == "last":
        args = (bad + [(points[-1][0], 3)],)
    elif kind == "order":
        args = (bad[::-1],)
    elif kind == "slope":
        px, py = bad[-1]
        args = (bad + [(px + 2, py + rng.choice([1, -1, 3, -3]))],)
    elif kind == "empty":
        args = ([], [])
    elif kind == "count":
        if rng.random() < 0.5:
            args = ([*f.breakpoints, x + 10**7], list(f.segments))
        else:
            args = (list(f.breakpoints), [*f.segments, (0, 0)])
    else:
        b = [*f.breakpoints, 5, rng.choice([5, 4])]
        args = (b, [(0, 1)] * (len(b) + 1))
    obs.raises(ValueError, lambda: P.PiecewiseLinearFunction(*args),
               f"malformed function accepted: {kind}", lambda: args)
    obs.count(f"malformed_{kind}")


# ---------------------------------------------------------------- random ----


class Xor128:
    """The generator the documentation names (Marsaglia, p. 5)."""

    def __init__(self, state):
        self.s = list(state)

    def __call__(self):
        a, b, c, d = self.s
        t = (d ^ (d << 11)) & 0xFFFFFFFF
        t ^= t >> 8
        r = t ^ a ^ (a >> 19)
        self.s = [r, a, b, c]
        return r


def generator(rng, obs, tier):
    if rng.random() < 0.5:
        seed = rng.choice([0, 1, 2, 42, 2**31, 2**32 - 1,
                           rng.getrandbits(32)])
        real = P.RandomNumberGenerator(seed)
        model = Xor128([seed, 123456789, 362436069, 521288629])
    else:
        state = [rng.getrandbits(32) for _ in range(4)]
        real = P.RandomNumberGenerator(state)
        model = Xor128(state)
    obs.equal(list(real.state()), model.s, "initial state")
    lo, hi = P.RandomNumberGenerator.min(), P.RandomNumberGenerator.max()
    obs.equal((lo, hi), (0, 2**32 - 1), "range of the generator")
    hist = []
    for _ in range(rng.randint(5, 120)):
        op = rng.choice(["call", "rand", "int", "int", "restore", "bad"])
        hist.append(op)
        what = lambda: f"{hist}"  # noqa: E731
        if op == "call":
            obs.equal(real(), model(), "number drawn", what)
        elif op == "rand":
            got = real.rand()
            obs.check(0 <= got <= 1, "number outside [0, 1]", got)
            obs.equal(got, model() / (2**32 - 1), "number drawn", what)
        elif op == "int":
            high = rng.choice([1, 2, 3, 7, 10, 100, 2**16, 2**31 - 1,
                               rng.randint(1, 2**31 - 1)])
            got = real.randint(high)
            obs.check(0 <= got < high, "integer out of range", (got, high))
            obs.equal(got, model() % high, "integer drawn", what)
        elif op == "restore":
            other = P.RandomNumberGenerator(real.state())
            ahead = [other() for _ in range(3)]
            m = Xor128(model.s)
            obs.equal(ahead, [m() for _ in range(3)], "restored stream", what)
        else:
            obs.raises(ValueError,
                       lambda: real.randint(rng.choice([0, -1, -2**31])),
                       "no positive bound accepted")
        obs.equal(list(real.state()), model.s, "state", what)
        obs.count("draws")
    obs.seen("rng", model.s)


def shuffles(rng, obs, tier):
    """Every order comes up, and about as often as any other."""
    nc = rng.choice([2, 3, 3, 4])
    data = P.ProblemData(
        locations=[P.Location(0, 0)],
        clients=[P.Client(0) for _ in range(nc)],
        depots=[P.Depot(0)],
        vehicle_types=[P.VehicleType() for _ in range(3)],
        distance_matrices=[[[0]]], duration_matrices=[[[0]]])
    nb = {P.Activity(f"C{i}"): [] for i in range(nc)}
    sp = X.SearchSpace(data, nb)
    real = P.RandomNumberGenerator(rng.getrandbits(32))
    total = 2400
    seen = {}
    vts = {}
    for _ in range(total):
        sp.shuffle(real)
        key = tuple(str(a) for a in sp.activity_order())
        seen[key] = seen.get(key, 0) + 1
        key = tuple(v for v, _ in sp.veh_type_order())
        vts[key] = vts.get(key, 0) + 1
    for counts, k in ((seen, nc), (vts, 3)):
        perms = 1
        for i in range(2, k + 1):
            perms *= i
        mean = total / perms
        obs.equal(len(counts), perms, "orders that came up")
        for key, v in counts.items():
            obs.check(abs(v - mean) < 8 * mean**0.5,
                      "orders are not equally likely", (key, v, mean))
    obs.count("shuffles", total)


# ---------------------------------------------------------------- buffer ----


def buffer(rng, obs, tier):
    from pyvrp.RingBuffer import RingBuffer

    n = rng.choice([1, 1, 2, 3, 5, 8, rng.randint(1, 50)])
    real = RingBuffer(n)
    slots, at = [None] * n, 0
    hist = []
    for _ in range(rng.randint(5, 5 * n + 20)):
        op = rng.choice(["add", "add", "add", "add", "skip", "clear", "peek"]
                        if rng.random() < 0.3 else ["add", "add", "skip"])
        if op == "add":
            v = rng.choice([0, "", False, rng.random(), [], len(hist)])
            real.append(v)
            slots[at] = v
            at = (at + 1) % n
        elif op == "skip":
            real.skip()
            at = (at + 1) % n
        elif op == "clear":
            real.clear()
            slots, at = [None] * n, 0
        hist.append(op)
        what = lambda: f"{n=} {hist}"  # noqa: E731
        obs.equal(real.maxlen, n, "maximum length", what)
        obs.equal(len(real), sum(v is not None for v in slots), "length",
                  what)
        obs.check(real.peek() is slots[at], "next element to overwrite",
                  lambda: f"{real.peek()} {slots[at]} {what()}")
        obs.count("buffer_operations")
    obs.seen("ring", n, hist)


# -------------------------------------------------------------- activity ----


def activity(rng, obs, tier):
    kinds = {"D": "DEPOT", "C": "CLIENT", "L": "PICKUP", "U": "DELIVERY"}
    made = []
    for _ in range(8):
        k = rng.choice(sorted(kinds))
        i = rng.choice([0, 1, 9, 10, 99, 100, 10**9, 2**32,
                        rng.randint(0, 2**40)])
        t = getattr(P.ActivityType, kinds[k])
        a = P.Activity(t, i)
        b = P.Activity(f"{k}{i}")
        obs.equal((str(a), a.idx, a.type), (f"{k}{i}", i, t), "activity")
        obs.check(a == b and hash(a) == hash(b), "parsed activity differs")
        obs.equal((a.is_depot(), a.is_client(), a.is_pickup(),
                   a.is_delivery(), a.is_shipment()),
                  (k == "D", k == "C", k == "L", k == "U", k in "LU"),
                  "kind of activity", f"{k}{i}")
        obs.check(pickle.loads(pickle.dumps(a)) == a, "pickled activity")
        made.append((k, i, a))
        obs.seen("act", k, i)
    for (k, i, a), (m, j, b) in itertools.combinations(made, 2):
        obs.equal(a == b, (k, i) == (m, j), "activity equality", (k, i, m, j))
    obs.raises(ValueError, lambda: P.Activity(rng.choice(
        ["X1", "", "c1", "1", "11", "Q9", " C1", "Cx", "Dü"])),
        "malformed activity accepted")
    obs.count("activities", len(made))


PARTS = [
    Part("bits", bits, 1500, 40_000, {"bit_operations": 20_000}),
    Part("linear", linear, 6000, 120_000,
         {"functions": 4000, "monotone": 500, "jumps": 500}),
    Part("generator", generator, 3000, 60_000, {"draws": 50_000}),
    Part("shuffles", shuffles, 40, 500, {"shuffles": 40_000}),
    Part("buffer", buffer, 3000, 60_000, {"buffer_operations": 50_000}),
    Part("activity", activity, 1500, 30_000, {"activities": 8000}),
]
