import time
import warnings

from mc import engine
from mc import systems

L = engine.Level
INF = float("inf")


class Clock:
  """Stand-in for the process clocks: the time depends on the number of
  sweeps completed so far, following a script."""

  def __init__(self):
    self.script = None
    self.updates = 0
    self.per_sweep = 1
    self.reals = {}

  def watch(self, solver):
    real = solver.min_marginal_average

    def wrapped(*args, **kwargs):
      out = real(*args, **kwargs)
      self.updates += 1
      return out

    solver.min_marginal_average = wrapped

  def install(self):
    for name in ("perf_counter", "monotonic", "time", "process_time"):
      real = getattr(time, name)
      self.reals[name] = real
      setattr(time, name, lambda real=real: self.read(real))

  def read(self, real):
    if self.script is None:
      return real()
    i = min(self.updates // self.per_sweep, len(self.script) - 1)
    return 1000.0 + self.script[i]


CLOCK = Clock()
MAX_SWEEPS = 200


class CHECK(engine.Check):
  """The clock is scripted: for every system, every point at which the
  soft time-out can elapse (start, each sweep boundary, never) and several
  tolerances, the loop runs on the real code and its log is replayed update by
  update on an independent copy and compared with the documented stopping rule
  (states: system x clock script x tolerance, transitions: logged updates).
  """

  id = "C20"
  case_timeout = 60.0

  def prepare(self):
    warnings.simplefilter("ignore")
    CLOCK.install()
    CLOCK.watch(systems.mods()["s"])
    probe = systems.System({"dags": [systems.unary(0, [1, 2]),
                                     systems.unary(1, [1, 2])]})
    probe.s.solve_system_with_sweeps(probe.system.data)
    # are updates made through the public function?
    self.visible = CLOCK.updates > 0

  def levels(self):
    t = self.thorough

    def expand(it):
      for i, c in enumerate(it):
        yield dict(c, fast=bool(i % 2))

    def single():
      for x in ([1, 2], [0, "inf"], [-3, -3]):
        yield {"dags": [systems.unary(4, x)]}
        yield {"dags": [systems.unary(4, x), systems.unary(4, [0, 5])]}

    def long():
      # chains of decisions with conflicting preferences: many sweeps
      for n in range(2, 7 if t else 5):
        for pat in ([0, 1, 1, 0], [0, 4, 2, 1], [3, "inf", 0, 1]):
          ds = [systems.table2(i, i + 1, pat) for i in range(n - 1)]
          ds += [systems.table2(i, i + 1, pat[::-1]) for i in range(n - 1)]
          ds += [systems.unary(i, [i % 3, (i * 2) % 5]) for i in range(n)]
          yield {"dags": ds}

    return [
        L("single", "systems with a single decision", single),
        L("mentions", "1-3 diagrams mentioning different decisions",
          lambda: expand(systems.partial_mentions(t))),
        L("cycles", "cycles of three decisions",
          lambda: expand(systems.cycles(t))),
        L("long", "chains of decisions", long),
        L("wide", "systems of 4-6 decisions and up to 17 diagrams",
          lambda: expand(systems.wide(t))),
        L("units", "cycles in units of 2^-30, 2^40 and 1/3",
          lambda: expand(systems.units(systems.cycles(False)))),
        L("many", "up to 65 diagrams sharing a few decisions",
          lambda: expand(systems.many())),
        L("two", "two diagrams over two decisions",
          lambda: expand(systems.pairs_two(t))),
    ]

  def run_case(self, case, ctx):
    base = systems.System(case, bool(case.get("fast")))
    s, nk = base.s, len(base.keys)
    if nk == 0:
      return
    for tol in (1e-5, 0.4, 1e-3, 0.5, 1.0):
      tol *= base.unit
      if base.opt < INF:
        free = self._run(base, INF, None, tol, ctx)
        most = len(free.objective_at_sweep)
      elif not self.visible:
        continue
      else:
        # without a consistent assignment the bound may grow for ever, so
        # only time-outs within the first pairs of sweeps are tried
        free = None
        script = [0.0] + [1.0] * 3 + [5.0] * MAX_SWEEPS
        most = len(self._run(base, 2.0, script, tol, ctx).time_at_sweep)
      if not self.visible:
        continue
      # the time-out elapses after the k-th sweep
      for k in range(0, min(most, 7)):
        script = [0.0] + [1.0] * k + [5.0 + i for i in range(MAX_SWEEPS)]
        res = self._run(base, 2.0, script, tol, ctx)
        engine.same(len(res.objective_at_sweep), k + 1,
                    f"sweeps when the time-out elapses after sweep {k}")
        # exactly at the time-out is not yet beyond it
        script = [0.0] + [2.0] * k + [2.0001] * MAX_SWEEPS
        res = self._run(base, 2.0, script, tol, ctx)
        engine.same(len(res.objective_at_sweep), k + 1,
                    f"sweeps when the time-out elapses after sweep {k}")
      if free is None:
        continue
      script = [0.0] + [0.5 * (i + 1) for i in range(MAX_SWEEPS)]
      res = self._run(base, 1000.0, script, tol, ctx)
      engine.same(list(res.variable_at_step), list(free.variable_at_step),
                  "steps under a time-out that never elapses")

  def _run(self, base, soft_timeout, script, tol, ctx):
    s, np, nk = base.s, base.np, len(base.keys)
    data = s.clone_system_data(base.system.data)
    CLOCK.script, CLOCK.updates, CLOCK.per_sweep = script, 0, max(1, nk - 1)
    try:
      if soft_timeout == INF and tol == 1e-5:
        res = s.solve_system_with_sweeps(data)
      else:
        res = s.solve_system_with_sweeps(
            data, soft_timeout=soft_timeout, tolerance=tol)
    finally:
      CLOCK.script = None
    steps = [int(v) for v in res.variable_at_step]
    objs = [float(x) for x in res.objective_at_step]
    sweeps = [float(x) for x in res.objective_at_sweep]
    marks = [int(x) for x in res.steps_at_sweep]
    times = [float(x) for x in res.time_at_sweep]
    engine.same(len(steps), len(objs), "one logged bound per update")
    engine.same((len(marks), len(times)), (len(sweeps), len(sweeps)),
                "one entry per sweep")
    # order of the updates
    exp, exp_marks = [], []
    for i in range(len(sweeps)):
      if nk == 1:
        exp += [0]
      else:
        exp += (list(range(0, nk - 1)) if i % 2 == 0 else
                list(range(nk - 1, 0, -1)))
      exp_marks.append(len(exp))
    engine.same(steps, exp, "order of the updates")
    engine.same(marks, exp_marks, "updates per sweep")
    # replay
    other = s.clone_system_data(base.system.data)
    before = -INF
    improved = []
    for v, o in zip(steps, objs):
      got = float(s.min_marginal_average(other, v))
      systems.close_inf(base, o, got, "logged bound of an update")
      engine.ensure(o >= before - systems.slack(base, o) if o != INF else
                    True, "logged bounds decrease", before, o)
      if o == INF and before == INF:
        improved.append(0.0)
      else:
        improved.append(o - before)
      before = o
    engine.same(systems.snapshot(other), systems.snapshot(data),
                "returned system")
    for i, m in enumerate(marks):
      engine.same(sweeps[i], objs[m - 1], "bound of a sweep")
    final = systems.bound(systems.dag_costs(base, data))
    systems.close_inf(base, sweeps[-1], final, "final bound")
    engine.ensure(final <= base.opt + systems.slack(base, base.opt),
                  "final bound above the optimum")
    # times and stopping
    if script is not None:
      for i, x in enumerate(times):
        engine.close(x, script[min(i + 1, len(script) - 1)] - script[0],
                     "time of a sweep")
    else:
      engine.ensure(all(b >= a >= 0 for a, b in zip(times, times[1:])),
                    "times not increasing")

    def pair_improves(p):
      lo = marks[2 * p - 1] if p else 0
      hi = marks[min(2 * p + 1, len(marks) - 1)]
      for x, o in zip(improved[lo:hi], objs[lo:hi]):
        if abs(x - tol) < 1e-9 * max(base.unit, tol):
          exact = x == tol and (o / base.unit * 1024.0).is_integer()
          if exact:
            continue  # not more than the tolerance
          return None
      return any(x > tol for x in improved[lo:hi])

    over = [i for i, x in enumerate(times) if x > soft_timeout]
    npairs = len(sweeps) // 2
    for p in range(npairs):
      last = 2 * p + 1 == len(sweeps) - 1
      imp = pair_improves(p)
      if not last:
        engine.ensure(imp in (True, None),
                      "went on after a pair of sweeps without improvement")
    if over:
      engine.same(over[0], len(sweeps) - 1, "sweep at which it timed out")
      last_pair = (len(sweeps) - 1) // 2
      if pair_improves(last_pair):
        engine.ensure(not res.reached_plateau, "plateau after a time-out")
    else:
      engine.same(len(sweeps) % 2, 0, "number of sweeps without time-out")
      engine.ensure(pair_improves(npairs - 1) in (False, None),
                    "stopped although the bound still improved")
      engine.same(bool(res.reached_plateau), True, "plateau flag")
    ctx.count(states=1, transitions=len(steps), traces=len(steps))
    ctx.outcome((nk, len(sweeps), bool(over), bool(res.reached_plateau)))
    return res
