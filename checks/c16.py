"""Stopping criteria stop exactly when their condition is met."""

import sys
import threading
import time

from vlib import gen
from vlib.harness import Part
from vlib.lazy import P

PROPERTY = "C16"
VARIANT = "std"
RULE = ("an evaluation is one answer of a criterion, or one condition on a "
        "run it ended; distinct nontrivial counts distinct (criterion tree "
        "shape, number of calls until it stopped) pairs")
ASSUME = ["a combination's parts are not asked again after it has stopped"]

INT_MAX = (1 << 63) - 1


class Clock:
    """A virtual clock that PyVRP sees in place of the real one."""

    on = False
    now = 0.0
    step = 0.0  # added by every look at the clock


def _others():
    """Whether it is other code, like that of a progress bar, that looks."""
    if threading.current_thread() is not threading.main_thread():
        return True
    name = sys._getframe(2).f_globals.get("__name__") or ""
    return name.split(".")[0] in ("tqdm", "logging", "threading",
                                  "multiprocessing", "concurrent")


def _patch():
    # Before PyVRP is imported, so that no name escapes it.
    for name in ("perf_counter", "monotonic", "time", "process_time"):
        for suffix, scale in (("", 1), ("_ns", 10**9)):
            real = getattr(time, name + suffix)

            def fake(real=real, scale=scale):
                if not Clock.on or _others():
                    return real()
                now = Clock.now
                Clock.now += Clock.step
                return int(now * scale) if scale > 1 else now

            setattr(time, name + suffix, fake)


_patch()


class Iters:
    def __init__(self, n):
        self.n, self.calls = n, 0

    def make(self):
        return P.MaxIterations(self.n)

    def __call__(self, cost):
        self.calls += 1
        return self.calls > self.n

    def __repr__(self):
        return f"I{self.n}"


class NoImpr:
    def __init__(self, n):
        self.n, self.costs = n, []

    def make(self):
        return P.NoImprovement(self.n)

    def __call__(self, cost):
        # Calls since the best cost was last strictly improved.
        self.costs.append(cost)
        best, since = None, 0
        for c in self.costs:
            if best is None or c < best:
                best, since = c, 0
            else:
                since += 1
        return since >= self.n

    def __repr__(self):
        return f"N{self.n}"


class Runtime:
    def __init__(self, s):
        self.s, self.start = s, None

    def make(self):
        return P.MaxRuntime(self.s)

    def __call__(self, cost):
        if self.start is None:
            self.start = Clock.now
        return Clock.now - self.start > self.s

    def __repr__(self):
        return f"R{self.s}"


class Feas:
    def make(self):
        return P.FirstFeasible()

    def __call__(self, cost):
        return cost < INT_MAX

    def __repr__(self):
        return "F"


class Any:
    def __init__(self, parts):
        self.parts = parts

    def make(self):
        return P.MultipleCriteria([p.make() for p in self.parts])

    def __call__(self, cost):
        return any([p(cost) for p in self.parts])

    def __repr__(self):
        return f"({''.join(map(repr, self.parts))})"


def gen_crit(rng, depth=0):
    k = rng.choice(["iters", "noimpr", "runtime", "feas", "any", "any"]
                   if depth < 2 else ["iters", "noimpr", "runtime", "feas"])
    if k == "iters":
        return Iters(rng.choice([0, 1, 2, 7, 30, 500, float("inf")]))
    if k == "noimpr":
        return NoImpr(rng.choice([0, 1, 2, 5, 17, 100, float("inf")]))
    if k == "runtime":
        return Runtime(rng.choice([0, 0.0, 0.25, 1, 3.5, 100, float("inf")]))
    if k == "feas":
        return Feas() if depth == 0 or rng.random() < 0.3 else Iters(20)
    return Any([gen_crit(rng, depth + 1)
                for _ in range(rng.choice([1, 2, 3, 5]))])


def costs(rng, n):
    """Best costs as a solver gives them, or any sequence at all."""
    kind = rng.choice(["best", "best", "any", "flat"])
    c = rng.choice([INT_MAX, 10**6, 0, 10**15])
    for _ in range(n):
        yield c
        u = rng.random()
        if kind == "best" and u < 0.15:
            if c == INT_MAX:
                c = rng.randint(0, 10**6)
            else:
                c -= rng.choice([0, 1, 1, rng.randint(0, 1000)])
        elif kind == "any" and u < 0.5:
            c = rng.choice([INT_MAX, c + 1, c - 1, rng.randint(-50, 50)])
            c = min(c, INT_MAX)


def histories(rng, obs, tier):
    ref = gen_crit(rng)
    Clock.on, Clock.now = True, rng.choice([0.0, -5.0, 1e6, 123.5])
    try:
        crit = ref.make()
        Clock.now += rng.choice([0, 0, 1000])  # starts at the first call
        stopped = None
        log = []
        for i, c in enumerate(costs(rng, rng.choice([5, 40, 150]))):
            want = ref(c)
            got = crit(c)
            log.append((Clock.now, c, got))
            obs.check(got is want or got == want, "stopping decision",
                      lambda: f"{ref}: call {i} gave {got}; {log[-30:]}")
            obs.count("calls")
            if want and stopped is None:
                stopped = i
                obs.count("stops")
            if want and isinstance(ref, Any):
                break
            Clock.now += rng.choice([0, 0, 0.25, 0.25, 1, 2.75])
    finally:
        Clock.on = False
    obs.seen(repr(ref) if len(repr(ref)) < 12 else type(ref).__name__,
             stopped)
    obs.count(f"kind_{type(ref).__name__}")
    if stopped and stopped > 3:
        obs.sample(f"{ref} stopped at call {stopped}: {log[-4:]}")


def invalid(rng, obs, tier):
    for cls in (P.MaxIterations, P.NoImprovement, P.MaxRuntime):
        v = -rng.choice([1, 2, 10**6])
        obs.raises(ValueError, lambda: cls(v), "negative limit")
        cls(0)
    obs.raises(ValueError, lambda: P.MaxRuntime(-0.001), "negative limit")
    obs.raises(ValueError, lambda: P.MultipleCriteria([]),
               "no criteria at all")
    # Independent instances do not share their state.
    n = rng.randint(1, 9)
    a, b = P.MaxIterations(n), P.MaxIterations(n)
    for _ in range(n + 1):
        last = a(1)
    obs.check(last and not b(1), "criteria share state")
    c, d = P.NoImprovement(n), P.NoImprovement(n)
    for _ in range(n + 1):
        last = c(1)
    obs.check(last and not d(1), "criteria share state")
    obs.count("invalid")


def runs(rng, obs, tier):
    """A solve ends at the first 'stop', having run the calls before it."""
    spec = gen.gen_spec(rng, min_visits=1, max_clients=5, release_ok=True)
    data = gen.build(spec)
    ref = Any([gen_crit(rng, 2), Iters(rng.choice([0, 1, 3, 8, 15]))])
    answers = []
    step = rng.choice([0.25, 1.0])
    crit = None

    def stop(cost):
        want = ref(cost)
        got = crit(cost)
        obs.check(bool(got) == want, "stopping decision during a solve",
                  lambda: f"{ref} {answers}")
        obs.check(not (answers and answers[-1]),
                  "the solver went on after it was told to stop")
        answers.append(want)
        Clock.now += step
        return got

    Clock.on, Clock.now = True, 10.0
    try:
        crit = ref.make()
        res = P.solve(data, stop, seed=rng.randint(0, 100), display=False)
    finally:
        Clock.on = False
    obs.check(answers and answers[-1], "the solver stopped unasked",
              lambda: f"{ref} {answers}")
    obs.equal(res.num_iterations, answers.count(False),
              "iterations run", lambda: repr(ref))
    obs.equal(res.stats.num_iterations, res.num_iterations,
              "iterations collected")
    obs.count("runs")
    obs.seen("run", len(answers), type(ref.parts[0]).__name__)

    # The limits themselves, given directly.
    n = rng.choice([0, 1, 2, 7])
    res = P.solve(data, P.MaxIterations(n), seed=1, display=False)
    obs.equal(res.num_iterations, n, "iterations with MaxIterations")
    m = rng.choice([1, 2, 5])
    # Infeasible solutions cost the same: such runs end after m in a row.
    res = P.solve(data, P.MultipleCriteria([P.NoImprovement(m),
                                            P.MaxIterations(60)]),
                  seed=1, display=False)
    obs.check(m <= res.num_iterations <= 60,
              "iterations with NoImprovement", lambda: res.num_iterations)
    res = P.solve(data, P.MultipleCriteria([P.FirstFeasible(),
                                            P.MaxIterations(30)]),
                  seed=1, display=False)
    obs.check(res.is_feasible() or res.num_iterations == 30,
              "FirstFeasible stopped without a feasible solution")
    obs.count("first_feasible", res.is_feasible())


PARTS = [
    Part("histories", histories, 6000, 200000,
         need={"calls": 50000, "stops": 1500, "kind_Runtime": 200,
               "kind_NoImpr": 200, "kind_Iters": 200, "kind_Feas": 200}),
    Part("invalid", invalid, 50, 500, need={"invalid": 20}),
    Part("runs", runs, 150, 5000, need={"runs": 80, "first_feasible": 20}),
]
