import itertools
import math

from mc import dags
from mc import engine
from mc import packing

L = engine.Level
INF = math.inf


class CHECK(engine.Check):
  """For every diagram of the packing space, every partial assignment of its
  decisions is imposed and every menu of penalties is set; the path returned
  is replayed edge by edge on the original (and tagged) diagram and compared
  with the optimum over all paths (states: diagrams x imposed decisions,
  transitions: edges of the replayed paths)."""

  id = "C17"

  def prepare(self):
    import numba  # pylint: disable=g-import-not-at-top
    import numpy as np  # pylint: disable=g-import-not-at-top
    from r_u_sure.decision_diagrams import packed_dags  # pylint: disable=g-import-not-at-top
    self.pd = packed_dags
    self.np = np
    self.numba = numba

  def levels(self):
    t = self.thorough

    def two():
      for it in (dags.all_dags(2, packing.L01, 3),
                 dags.all_dags(3, packing.L01, 2)):
        for case in packing.ordered(packing.pruned(it)):
          for p in ("rev", "neg", "one", "fine", "huge"):
            yield packing.with_costs(case, p)

    def more():
      for it in (
          dags.all_dags(4, packing.L01 if t else [
              packing.L01[0], packing.L01[1], packing.L01[4]], 1,
                        orders=("src", "late")),
          dags.all_dags(4, packing.L012, 2 if t else 1,
                        pairs=[(0, 1), (1, 2), (2, 3), (0, 3), (1, 3)]),
          dags.all_dags(5, packing.L012, 1,
                        pairs=[(0, 1), (0, 2), (1, 2), (1, 3), (2, 3),
                               (3, 4)]),
      ):
        for case in packing.ordered(packing.pruned(it)):
          for p in ("rev", "neg"):
            yield packing.with_costs(case, p)

    def skips():
      for case in packing.skips(8 if t else 7):
        for p in ("rev", "neg"):
          yield packing.with_costs(case, p)

    return [
        L("skips", "chains of 4-%d decisions, all ways past three or more "
          "of them: up to two decisions imposed, or all" % (8 if t else 7),
          skips),
        L("two", "all ordered diagrams of <=3 states, <=2 parallel edges",
          two),
        L("more", "all ordered diagrams of 4 and 5 states (edge menus)",
          more),
        L("ladders", "chains of up to 16 decisions, three ways per step: one "
          "or two decisions imposed, or all of them",
          lambda: ({"ladder": n, "shift": s}
                   for n in range(3, 17 if t else 13) for s in range(3))),
    ]

  def _ladder(self, n, shift, ctx):
    """Separable costs, so the optimum is the sum of the steps' optima."""
    pd, np = self.pd, self.np
    step = []
    for k in range(n):
      c = [float((3 * k + shift) % 7), float((k * k + shift) % 5 - 1),
           float((5 * k) % 4)]
      step.append({"a": c[0], "b": c[1], "-": c[2]})
    case = {"n": n + 1, "edges": []}
    for k in range(n):
      case["edges"] += [[k, k + 1, step[k]["a"], k, "a"],
                        [k, k + 1, step[k]["b"], k, "b"],
                        [k, k + 1, step[k]["-"], None, None]]
    real = dags.to_real(case)
    keys = list(range(n))
    packed, conv = pd.convert_dag_to_packed(real, "-", None)

    def impositions():
      yield {}
      for k in range(n):
        for v in "ab-":
          yield {k: v}
          for k2 in range(k):
            yield {k: v, k2: "ab-"[(k + k2) % 3]}
      for s in range(9):
        yield {k: "ab-"[(k * (s // 3 + 1) + s) % 3] for k in keys}

    for imposed in impositions():
      opt = sum(step[k][imposed[k]] if k in imposed
                else min(step[k].values()) for k in keys)
      path, assign = pd.constrained_best_path(packed, conv, dict(imposed))
      self._replay(case, real, path, dict(assign), keys, "-")
      for k, v in imposed.items():
        engine.same(assign[k], v, f"imposed decision {k}")
      engine.same(sum(float(e.cost) for e in path), opt, "cost of the path")
      ctx.count(states=1, transitions=len(path), traces=1)
    values = list(conv.variable_values)
    for s in range(4):
      memo = pd.empty_unpenalized_table(packed)
      pen = {}
      for k in keys:
        pen[k] = {v: float((k * (s + 1) + 3 * i + s) % 6 - 2)
                  for i, v in enumerate(values)}
        pd.set_penalties(memo, k, np.array(
            [pen[k][v] for v in values], dtype=memo.penalties.dtype))
      opt = sum(min(step[k][v] + pen[k][v] for v in values) for k in keys)
      path, assign = pd.extract_minimal_cost_path_and_assignments(memo, conv)
      self._replay(case, real, path, dict(assign), keys, "-")
      engine.same(sum(float(e.cost) for e in path)
                  + sum(pen[k][assign[k]] for k in keys), opt,
                  "cost of the extracted path")
    ctx.outcome((n, shift))

  def run_case(self, case, ctx):
    if "ladder" in case:
      self._ladder(case["ladder"], case["shift"], ctx)
      return
    pd, np = self.pd, self.np
    real = dags.to_real(case)
    keys = dags.keys_of(case)
    for missing in ("-", "a"):
      packed, conv = pd.convert_dag_to_packed(real, missing, None)
      values = list(conv.variable_values)
      table = []
      for p in dags.paths(case):
        a = dags.path_assignment(case, p)
        table.append((dags.path_cost(case, p),
                      {k: a.get(k, missing) for k in keys}))
      # imposed decisions
      for combo in itertools.product([None] + values, repeat=len(keys)):
        if case.get("skip") and 2 < sum(
            v is not None for v in combo) < len(keys):
          continue
        imposed = {k: v for k, v in zip(keys, combo) if v is not None}
        opt = min([c for c, a in table
                   if all(a[k] == v for k, v in imposed.items())],
                  default=INF)
        if opt == INF:
          continue
        given = dict(imposed)
        path, assign = pd.constrained_best_path(packed, conv, given)
        engine.same(given, imposed, "the imposed decisions afterwards")
        self._replay(case, real, path, dict(assign), keys, missing)
        for k, v in imposed.items():
          engine.same(assign[k], v, f"imposed decision {k}")
        engine.same(sum(float(e.cost) for e in path), opt,
                    "cost of the best path under imposed decisions")
        ctx.count(states=1, transitions=len(path), traces=1)
      # penalties
      menus = [[0.0, 0.0, 0.0], [3.0, -2.0, 1.0], [INF, 0.0, -4.0],
               [-8.0, INF, 16.0]]
      if case.get("pattern") == "fine":
        e = 2.0 ** -30
        menus = [[0.0, 0.0, 0.0], [e, 0.0, 2 * e], [1.0, 1 + 3 * e, 1 - e]]
      elif case.get("pattern") == "huge":
        menus = [[0.0] * 3, [2.0 ** 41, 2.0 ** 41 + 1, 2.0 ** 40],
                 [INF, 2.0 ** 42, -1.0]]
      menus = [m[:len(values)] for m in menus]
      for choice in itertools.product(range(len(menus)), repeat=len(keys)):
        if case.get("skip") and sum(x > 0 for x in choice) > 1:
          continue
        pen = {k: dict(zip(values, menus[c])) for k, c in zip(keys, choice)}
        opt = min((c + sum(pen[k][a[k]] for k in keys) for c, a in table),
                  default=INF)
        memo = pd.empty_unpenalized_table(packed)
        for i, c in enumerate(choice):
          pd.set_penalties(memo, i, np.array(menus[c],
                                             dtype=memo.penalties.dtype))
        engine.same(float(pd.compute_minimal_cost(
            memo, pd.MinimalCostComputationStrategy.AT_END)), opt,
                    "reported minimum")
        if opt == INF:
          continue
        path, assign = pd.extract_minimal_cost_path_and_assignments(
            memo, conv)
        self._replay(case, real, path, dict(assign), keys, missing)
        engine.same(sum(float(e.cost) for e in path)
                    + sum(pen[k][assign[k]] for k in keys), opt,
                    "cost of the extracted path")
        tpath, tassign = pd.extract_minimal_cost_path_and_assignments(
            memo, conv, tagged=True)
        self._tagged(conv, packed, tpath, real)
        tot = sum(float(e.cost) for e in tpath)
        dec = {}
        for e in tpath:
          if e.required_assignment is not None:
            dec[e.required_assignment.key] = e.required_assignment.value
        engine.same(dict(tassign), dec, "decisions of the tagged path")
        engine.same(tot + sum(pen[k][dec[k]] for k in keys), opt,
                    "cost of the tagged path")
        ctx.count(states=1, transitions=len(path) + len(tpath), traces=2)
    ctx.outcome((case["n"], len(keys), len(case["edges"])))

  def _replay(self, case, real, path, assign, keys, missing):
    state = real.initial_state
    made = {}
    for e in path:
      engine.ensure(any(e == r for r in real.edges), "edge not in diagram", e)
      engine.same(e.source, state, "source of the next edge")
      state = e.dest
      if e.required_assignment is not None:
        made[e.required_assignment.key] = e.required_assignment.value
    engine.same(state, real.final_state, "end of the path")
    engine.same(assign, {k: made.get(k, missing) for k in keys},
                "decisions reported for the path")

  def _tagged(self, conv, packed, path, real):
    state = conv.tagged_states[0]
    last = -1
    for e in path:
      engine.ensure(any(e == x for x in conv.tagged_edges), "tagged edge", e)
      engine.same(e.source, state, "source of the next tagged edge")
      if e.required_assignment is not None:
        k = conv.variable_key_index_from_key[e.required_assignment.key]
        engine.same(k, last + 1, "decision order")
        last = k
      state = e.dest
    engine.same(state, conv.tagged_states[-1], "end of the tagged path")
    engine.same(last, packed.num_variable_keys - 1, "last decision")
