import itertools
import warnings

from mc import engine
from mc import systems

L = engine.Level
INF = float("inf")


class CHECK(engine.Check):
  """From every state reached by all short sequences of dual updates, both
  greedy decodings run and are compared with the greedy rule evaluated by
  brute force and with the true cost of the assignment; every partial set of
  decisions is imposed (hard, soft, twice), every commitment setting is
  applied, and symmetry breaking is applied, and the cost of every joint
  assignment is recomputed (states: system states, transitions: operations).
  """

  id = "C19"

  def prepare(self):
    warnings.simplefilter("ignore")
    systems.mods()

  def levels(self):
    t = self.thorough

    def states(it, depth):
      for i, c in enumerate(it):
        nk = len({e[3] for d in c["dags"] for e in d["edges"]
                  if e[3] is not None})
        for n in range(depth + 1):
          for seq in itertools.product(range(nk), repeat=n):
            yield dict(c, seq=list(seq), fast=bool(i % 2))

    def constr(it):
      for i, c in enumerate(it):
        yield dict(c, constrain=True, fast=bool(i % 2))

    return [
        L("decode-two", "decoding from all update histories, two diagrams",
          lambda: states(systems.pairs_two(t), 2)),
        L("decode-mentions", "decoding, diagrams mentioning different "
          "decisions", lambda: states(systems.partial_mentions(t), 2)),
        L("decode-cycles", "decoding from all update histories, cycles",
          lambda: states(systems.cycles(t), 3 if t else 2)),
        L("constrain", "all partial sets of imposed decisions",
          lambda: constr(itertools.chain(
              systems.partial_mentions(t), systems.cycles(t),
              systems.pairs_two(t)))),
        L("decode-units", "decoding, cycles in units of 2^-30, 2^40 and 1/3",
          lambda: states(systems.units(systems.cycles(False)), 1)),
        L("decode-fine", "decoding, costs that hardly differ or differ by "
          "magnitudes", lambda: states(systems.fine(), 2 if t else 1)),
        L("constrain-fine", "imposed decisions, such costs",
          lambda: constr(itertools.islice(systems.fine(), None, None,
                                          1 if t else 4))),
        L("decode-many", "decoding, up to 65 diagrams",
          lambda: states(systems.many(), 1)),
        L("constrain-many", "imposed decisions, up to 65 diagrams",
          lambda: constr(systems.many((21, 33)))),
        L("decode-wide", "decoding, systems of 4-6 decisions",
          lambda: (dict(c, seq=seq, fast=False) for c in systems.wide(t)
                   for seq in ([], [0], [1, 2, 3], list(range(3)) * 2))),
        L("constrain-wide", "all partial sets of imposed decisions, systems "
          "of 4 decisions",
          lambda: constr(itertools.islice(systems.wide(t), 24 if t else 6))),
    ]

  def run_case(self, case, ctx):
    sysm = systems.System(case, bool(case.get("fast")))
    if case.get("constrain"):
      self._constrain(sysm, case, ctx)
      return
    s = sysm.s
    data = sysm.system.data
    for v in case["seq"]:
      if v >= len(sysm.keys):
        continue
      s.min_marginal_average(data, v)
    before = systems.snapshot(data)
    costs = systems.dag_costs(sysm, data)
    bound = systems.bound(costs)
    for direction in s.SweepDirection:
      self._decode(sysm, data, costs, sysm.joint, bound, direction)
      engine.same(systems.snapshot(data), before, "system after decoding")
      ctx.count(states=1, transitions=len(sysm.keys), traces=1)
    for tgt, gap in ((1.0, 1.0), (0.5, 0.5), (2.0, 0.0)):
      for direction in s.SweepDirection:
        self._commit(sysm, data, costs, direction, tgt, gap)
        engine.same(systems.snapshot(data), before, "system, copy committed")
    ctx.outcome((tuple(case["seq"]), round(bound, 3)))

  def _decode(self, sysm, data, costs, joint, bound, direction):
    s = sysm.s
    vec, cost = s.greedy_extract(data, direction)
    engine.same(len(vec), len(sysm.keys), "one value per decision")
    if not sysm.keys:
      return
    engine.ensure(all(0 <= int(v) < 3 for v in vec), "value range", vec)
    a = tuple(int(v) for v in vec)
    got = s.assignments_from_assignment_vector(sysm.system, vec)
    engine.same(dict(got), {k: systems.VALUES[v]
                            for k, v in zip(sysm.keys, a)}, "assignments")
    systems.close_inf(sysm, cost, joint[a], f"cost of the decoded assignment {a}")
    engine.ensure(cost >= bound - systems.slack(sysm, bound)
                  if bound != INF else cost == INF,
                  "decoded cost", cost, "below the bound", bound)
    # the greedy rule
    order = list(range(len(sysm.keys)))
    if direction.name == "REVERSE":
      order.reverse()
    cur = [dict(t) for t in costs]
    for v in order:
      m = systems.marginals(sysm, cur, v)
      best = min(m)
      if best == INF:
        break
      engine.ensure(m[a[v]] <= best + systems.slack(sysm, best),
                    f"decision {v} decoded as {a[v]}, marginals {m}")
      for d, t in enumerate(cur):
        if sysm.keys[v] in sysm.dag_keys[d]:
          i = sysm.dag_keys[d].index(sysm.keys[v])
          cur[d] = {x: c for x, c in t.items() if x[i] == a[v]}

  def _commit(self, sysm, data, costs, direction, tgt, gap):
    s, np = sysm.s, sysm.np
    if not sysm.keys:
      return
    lows = [min(systems.marginals(sysm, costs, v))
            for v in range(len(sysm.keys))]
    if any(x == INF for x in lows):
      return  # no consistent assignment is left to commit to
    clone = s.clone_system_data(data)
    allowed = [set(range(3)) for _ in sysm.keys]
    status = s.partially_commit(clone, direction, tgt, gap)
    for v in range(len(sysm.keys)):
      for x in range(3):
        pens = [float(m.penalties[int(clone.dag_variable_index_map[v, d]), x])
                for d, m in enumerate(clone.dag_tables)
                if clone.dag_variable_index_map[v, d] != -1]
        if any(p == INF for p in pens):
          engine.ensure(all(p == INF for p in pens),
                        "value forbidden in some diagrams only")
          allowed[v].discard(x)
      engine.ensure(allowed[v], "no value left for decision", v)
    for a, c in sysm.joint.items():
      now = sum(t.get(sysm.sub(d, a), INF)
                for d, t in enumerate(systems.dag_costs(sysm, clone)))
      exp = c if all(x in allowed[v] for v, x in enumerate(a)) else INF
      systems.close_inf(sysm, now, exp, f"cost of {a} after committing")
    changed = systems.snapshot(clone) != systems.snapshot(data)
    if status is s.PartialCommitmentStatus.MADE_PARTIAL_ASSIGNMENT:
      engine.ensure(changed, "nothing committed")
      engine.ensure(len(sysm.keys) * 3 - sum(map(len, allowed)) > 0,
                    "nothing forbidden")
    else:
      for a, c in sysm.joint.items():
        engine.ensure(c == INF or all(x in allowed[v]
                                      for v, x in enumerate(a)),
                      "feasible assignment forbidden with status", status)

  def _constrain(self, sysm, case, ctx):
    s = sysm.s
    base = s.clone_system(sysm.system)
    opts = [None] + systems.VALUES
    few = len(sysm.keys) < 3 or case.get("finest")
    for combo in itertools.product(opts, repeat=len(sysm.keys)):
      imposed = {k: v for k, v in zip(sysm.keys, combo) if v is not None}
      for pen, twice in ((None, False), (2.5, False), (INF, True),
                         (0.75, True), (-1.25, False), (2.0 ** -12, False),
                         (1e-9, True), (1e6, False))[:None if few else 4]:
        clone = s.clone_system(sysm.system)
        given = dict(imposed)
        for _ in range(2 if twice else 1):
          if pen is None:
            s.constrain_system(clone, given)
          else:
            s.constrain_system(clone, given, pen)
        engine.same(given, imposed, "constraints afterwards")
        engine.same(systems.snapshot(sysm.system.data),
                    systems.snapshot(base.data), "system that was cloned")
        p = INF if pen is None else pen * (2 if twice else 1)
        joint = {}
        for a, c in sysm.joint.items():
          off = sum(1 for k, v in zip(sysm.keys, a)
                    if k in imposed and imposed[k] != systems.VALUES[v])
          joint[a] = c + (off * p if off else 0.0)
        costs = systems.dag_costs(sysm, clone.data)
        for a in joint:
          now = sum(t.get(sysm.sub(d, a), INF) for d, t in enumerate(costs))
          systems.close_inf(sysm, now, joint[a], f"cost of {a} under {imposed}")
        for direction in s.SweepDirection:
          self._decode(sysm, clone.data, costs, joint, systems.bound(costs),
                       direction)
        # further optimisation keeps them
        for v in range(len(sysm.keys)):
          s.min_marginal_average(clone.data, v)
        costs = systems.dag_costs(sysm, clone.data)
        for a in joint:
          now = sum(t.get(sysm.sub(d, a), INF) for d, t in enumerate(costs))
          systems.close_inf(sysm, now, joint[a],
                            f"cost of {a} under {imposed} after a sweep")
        ctx.count(states=1, transitions=len(imposed) + 2, traces=1)
    self._symmetry(sysm, ctx)

  def _symmetry(self, sysm, ctx):
    s, np = sysm.s, sysm.np
    for seed in (0, 7):
      tabs = []
      for _ in range(2):
        clone = s.clone_system(sysm.system)
        s.break_symmetry_randomly(clone, 0.5, seed)
        costs = systems.dag_costs(sysm, clone.data)
        extra = clone.data.extra_unary_costs
        engine.ensure(((extra >= 0) & (extra <= 0.5)).all(),
                      "noise outside [0, scale]")
        for a, c in sysm.joint.items():
          now = sum(t.get(sysm.sub(d, a), INF) for d, t in enumerate(costs))
          systems.close_inf(sysm, now, c + sum(float(extra[i, v]) for i, v in enumerate(a)),
              f"cost of {a} with noise")
        tabs.append(systems.snapshot(clone.data))
      engine.same(tabs[0], tabs[1], "same seed, same noise")
    ctx.count(states=2, transitions=4, traces=4)
