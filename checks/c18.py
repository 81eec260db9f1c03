import itertools

from mc import engine
from mc import systems

L = engine.Level
INF = float("inf")


class CHECK(engine.Check):
  """Search over all sequences of dual updates (any decision, any order),
  starting also from systems with imposed hard or soft constraints, with state
  deduplication on the penalties; after every update the bound, the sum of
  the diagrams' minima, every joint assignment's total cost and the
  min-marginals are compared with brute force (states: distinct penalty
  tables, transitions: updates)."""

  id = "C18"

  def prepare(self):
    systems.mods()

  def levels(self):
    t = self.thorough

    def deep(it, depth, fast=False):
      for c in it:
        c = dict(c, depth=depth)
        if fast:
          c["fast"] = True
        yield c

    def constrained():
      base = list(systems.cycles(False))[::9] + list(
          systems.partial_mentions(False))[::7]
      for c in base:
        for pre in (
            [[0, "a", INF]], [[0, "b", 2.5]], [[0, "a", 1.0], [1, "b", INF]],
            [[1, "-", 4.0]], [[0, "a", 2.0 ** -30]], [[0, "b", 1e7]],
            [[1, "a", -1.5], [0, "a", 1e-4]], [[0, "b", 0.5], [0, "a", 0.25]]):
          yield dict(c, pre=pre, depth=3 if t else 2)

    return [
        L("two", "two diagrams over two decisions, arbitrary tables, all "
          "update sequences", lambda: deep(systems.pairs_two(True), 6 if t else 4)),
        L("mentions", "1-3 diagrams mentioning different decisions, two "
          "weightings", lambda: deep(systems.partial_mentions(t),
                                     6 if t else 4, True)),
        L("cycles", "three decisions in a cycle of three diagrams",
          lambda: deep(systems.cycles(t), 6 if t else 4)),
        L("units", "cycles in units of 2^-30, 2^40 and 1/3",
          lambda: deep(systems.units(systems.cycles(False)), 3)),
        L("fine", "costs that hardly differ, or differ by magnitudes",
          lambda: deep(systems.fine(), 4 if t else 3)),
        L("many", "up to 65 diagrams sharing a few decisions",
          lambda: deep(systems.many(), 2)),
        L("constrained", "systems with imposed hard and soft constraints",
          constrained),
        L("wide", "systems of 4-6 decisions and up to 17 diagrams",
          lambda: deep(systems.wide(t), 2)),
        L("sweeps", "the same, two full sweeps each way, in both orders",
          lambda: (dict(c, sweeps=o) for c in systems.wide(t)
                   for o in (0, 1))),
    ]

  def run_case(self, case, ctx):
    sysm = systems.System(case, bool(case.get("fast")))
    s, np = sysm.s, sysm.np
    extra = {}
    for key, value, pen in case.get("pre", []):
      if key not in sysm.keys:
        continue
      s.constrain_system(sysm.system, {key: value}, pen)
      for v in systems.VALUES:
        if v != value:
          extra[key, v] = extra.get((key, v), 0.0) + pen
    joint = {}
    for a, c in sysm.joint.items():
      joint[a] = c + sum(extra.get((k, systems.VALUES[v]), 0.0)
                         for k, v in zip(sysm.keys, a))
    opt = min(joint.values(), default=INF)
    start = sysm.system.data
    self._audit(sysm, start, joint, opt, None)
    seen = {systems.snapshot(start)}
    frontier = [(start, systems.bound(systems.dag_costs(sysm, start)))]
    states, trans = 1, 0
    for _ in range(2 if "sweeps" in case else 0):
      order = list(range(len(sysm.keys)))
      if case["sweeps"]:
        order.reverse()
      data, before = frontier[0]
      data = s.clone_system_data(data)
      for v in order + order[::-1]:
        now = self._audit(sysm, data, joint, opt,
                          s.min_marginal_average(data, v))
        trans += 1
        engine.ensure(now >= before - systems.slack(sysm, before)
                      if before != INF else now == INF,
                      "update lowered the bound from", before, "to", now)
        before = now
      states += 2 * len(order)
      frontier = [(data, before)]
    for _ in range(case.get("depth", 0)):
      nxt = []
      for data, before in frontier:
        for v in range(len(sysm.keys)):
          d2 = s.clone_system_data(data)
          engine.same(systems.snapshot(d2), systems.snapshot(data), "clone")
          got = s.min_marginal_average(d2, v)
          trans += 1
          now = self._audit(sysm, d2, joint, opt, got)
          engine.ensure(now >= before - systems.slack(sysm, before)
                        if before != INF else now == INF,
                        "update lowered the bound from", before, "to", now)
          sn = systems.snapshot(d2)
          if sn not in seen:
            seen.add(sn)
            states += 1
            nxt.append((d2, now))
      frontier = nxt
    ctx.count(states=states, transitions=trans, traces=trans)
    ctx.outcome((states, round(opt, 3)))

  def _audit(self, sysm, data, joint, opt, reported):
    costs = systems.dag_costs(sysm, data)
    b = systems.bound(costs)
    for a, c in joint.items():
      tot = sum(costs[d].get(sysm.sub(d, a), INF)
                for d in range(len(costs)))
      systems.close_inf(sysm, tot, c, f"total cost of joint assignment {a}")
    engine.ensure(b <= opt + systems.slack(sysm, opt),
                  "bound", b, "above the optimum", opt)
    if reported is not None:
      systems.close_inf(sysm, reported, b, "reported bound")
    for v in range(len(sysm.keys)):
      clone = sysm.s.clone_system_data(data)
      got = sysm.s.system_min_marginals(clone, v)
      exp = systems.marginals(sysm, costs, v)
      for x, y in zip(got, exp):
        systems.close_inf(sysm, x, y, f"aggregated min-marginals of decision {v}")
      engine.same(systems.snapshot(clone), systems.snapshot(data),
                  "penalties after a query")
    return b
