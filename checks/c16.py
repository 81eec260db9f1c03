import itertools
import math

from mc import dags
from mc import engine
from mc import packing

L = engine.Level
INF = math.inf


class CHECK(engine.Check):
  """Breadth-first search with state deduplication over all sequences of
  table operations (set penalties, refresh prefixes / suffixes up to a tag,
  make valid, one / all min-marginals, minimum cost by each strategy, copy)
  on each of a family of packed diagrams; after every operation every table
  entry that is reported valid and every answer is compared with brute force
  over all paths (states: distinct table contents, transitions: operations)."""

  id = "C16"

  def prepare(self):
    import numpy as np  # pylint: disable=g-import-not-at-top
    from r_u_sure.decision_diagrams import packed_dags  # pylint: disable=g-import-not-at-top
    self.pd = packed_dags
    self.np = np

  def levels(self):
    t = self.thorough

    def family(it, patterns, stride=1):
      seen = 0
      for case in packing.ordered(it):
        seen += 1
        if seen % stride:
          continue
        for p in patterns:
          c = packing.with_costs(case, p)
          c["depth"] = 5 if t else 4
          yield c

    def small():
      yield from family(packing.pruned(dags.all_dags(2, packing.L01, 2)),
                        ("pow", "neg"))
      yield from family(packing.pruned(dags.all_dags(3, packing.L01, 1)),
                        ("pow", "neg"))

    def three():
      yield from family(packing.pruned(dags.all_dags(
          4, packing.L012, 1, pairs=[(0, 1), (1, 2), (2, 3), (0, 2),
                                     (1, 3)])), ("neg",), 1 if t else 3)

    def plain():
      for k in range(1, 4):
        yield {"n": k + 1, "depth": 3,
               "edges": [[i, i + 1, i + 1, None, None] for i in range(k)]}
      yield {"n": 3, "depth": 3, "edges": [
          [0, 1, 1, None, None], [0, 2, 5, None, None],
          [1, 2, 3, None, None]]}

    def fine():
      for it in (dags.all_dags(2, packing.L01, 2),
                 dags.all_dags(3, [packing.L01[0], packing.L01[1],
                                   packing.L01[2], packing.L01[4]], 1)):
        for p in ("fine", "huge"):
          for c in family(packing.pruned(it), (p,)):
            yield dict(c, menu=p, depth=4 if t else 3)

    def deep():
      base = [
          [[0, 1, 1, 0, "a"], [0, 1, 3, 0, "b"], [1, 2, 2, 1, "a"],
           [1, 2, 0, 1, "b"]],
          [[0, 1, 1, 0, "a"], [0, 2, 3, 0, "b"], [1, 3, 2, 1, "a"],
           [2, 3, 0, 1, "b"], [2, 3, 4, None, None]],
          [[0, 1, 1, 0, "a"], [0, 1, -1, None, None], [1, 2, 2, 2, "b"],
           [1, 3, 0, 1, "b"], [2, 3, 4, None, None]],
      ]
      for es in base:
        yield {"n": 1 + max(e[1] for e in es), "edges": es,
               "depth": 8 if t else 6}

    def long():
      for n, depth in ((5, 3 if t else 2), (9, 2)):
        for skip in (0, 2, 3):
          es = []
          for k in range(n):
            es += [[k, k + 1, (3 * k) % 4, k, "a"],
                   [k, k + 1, (k * k) % 5 - 1, k, "b"]]
            if skip and k % skip == 0:
              es.append([k, k + 1, 1, None, None])
            if skip == 3 and k % 3 == 1 and k + 2 <= n:
              es.append([k, k + 2, 2, k + 1, "b"])
          yield {"n": n + 1, "edges": es, "depth": depth, "light": True}

    return [
        L("plain", "diagrams without any decision", plain),
        L("small", "all well-ordered diagrams of <=3 states over two "
          "decisions", small),
        L("three", "4-state diagrams over three decisions"
          + ("" if t else " (every third)"), three),
        L("fine", "costs and penalties with differences of 2^-30 and with "
          "magnitudes of 2^40, <=3 states", fine),
        L("deep", "three diagrams, all sequences of %d operations"
          % (8 if t else 6), deep),
        L("long", "ladders of 5 and 9 decisions, all sequences of 2%s "
          "operations" % ("-3" if t else ""), long),
    ]

  # ------------------------------------------------------------ reference

  def _truth(self, packed, pen):
    """Prefix / suffix costs of every state, and marginals, from raw edges."""
    m = [(int(e["source_index"]), int(e["dest_index"]), float(e["cost"]),
          int(e["required_assignment_key_index"]),
          int(e["required_assignment_value_index"]))
         for e in packed.packed_edge_matrix]
    n, nk = packed.num_tagged_states, packed.num_variable_keys
    w = [c + (pen[k][v] if k >= 0 else 0.0) for _, _, c, k, v in m]
    pre, suf = [INF] * n, [INF] * n
    pre[0], suf[n - 1] = 0.0, 0.0
    for _ in range(n):
      for (s, d, _, _, _), x in zip(m, w):
        pre[d] = min(pre[d], pre[s] + x)
        suf[s] = min(suf[s], suf[d] + x)
    marg = [[INF] * packed.num_variable_values for _ in range(nk)]
    for (s, d, _, k, v), x in zip(m, w):
      if k >= 0:
        marg[k][v] = min(marg[k][v], pre[s] + x + suf[d])
    return pre, suf, marg

  def run_case(self, case, ctx):
    pd, np = self.pd, self.np
    packed, _ = pd.convert_dag_to_packed(dags.to_real(case), "-", None)
    nk, nv = packed.num_variable_keys, packed.num_variable_values
    sb = [int(x) for x in packed.state_variable_boundary_indices]
    strategies = list(pd.MinimalCostComputationStrategy)
    menus = [[0.0] * nv, [1.0, -2.0, 4.0][:nv], [-1.0, INF, 2.0][:nv]]
    if case.get("menu") == "fine":
      e = 2.0 ** -30
      menus = [[0.0] * 3, [1.0, 1.0 + e, e], [1.0 + e, 1.0, 2 * e]]
    elif case.get("menu") == "huge":
      menus = [[0.0] * 3, [2.0 ** 40 + 1, 2.0 ** 40, 0.5],
               [2.0 ** 40 + 2, INF, -(2.0 ** 40)]]
    menus = [m[:nv] for m in menus]
    menus = [m + [0.0] * (nv - len(m)) for m in menus]
    truths = {}

    def truth(choice):
      if choice not in truths:
        truths[choice] = self._truth(packed, [menus[i] for i in choice])
      return truths[choice]

    # the raw packed edges are themselves tied to the original diagram
    keys = dags.keys_of(case)
    values = sorted({e[4] for e in case["edges"] if e[4] is not None} | {"-"})
    for choice in ([] if case.get("light") else
                   itertools.product(range(3), repeat=nk)):
      table = packing.reference(case, keys, values, "-")
      marg = truth(choice)[2]
      best = INF
      for a, c in table.items():
        best = min(best, c + sum(menus[choice[i]][v]
                                 for i, v in enumerate(a)))
      engine.same(truth(choice)[0][-1], best, "brute force minimum")
      for i in range(nk):
        for v in range(nv):
          e = min([c + sum(menus[choice[j]][x] for j, x in enumerate(a))
                   for a, c in table.items() if a[i] == v], default=INF)
          engine.same(marg[i][v], e, "brute force marginal")

    ops = [("valid",), ("all",)]
    ops += [("min", s) for s in range(len(strategies))] + [("min", None)]
    for i in range(nk):
      ops += [("pen", i, m) for m in range(3)]
      ops += [("marg", i)]
    for tag in range(-1, nk):
      ops += [("pre", tag), ("suf", tag)]

    def apply(memo, choice, op):
      kind = op[0]
      pre, suf, marg = truth(choice)
      if kind == "pen":
        row = np.array(menus[op[2]], dtype=memo.penalties.dtype)
        pd.set_penalties(memo, op[1], row)
        row[:] = 99.0
        choice = choice[:op[1]] + (op[2],) + choice[op[1] + 1:]
      elif kind == "pre":
        pd.update_prefixes_up_to(memo, op[1])
        self._filled(pd.masked_prefixes(memo)[:sb[op[1] + 2]], op)
      elif kind == "suf":
        pd.update_suffixes_up_to(memo, op[1])
        self._filled(pd.masked_suffixes(memo)[sb[op[1] + 1]:], op)
      elif kind == "valid":
        pd.make_fully_valid(memo)
        self._filled(pd.masked_prefixes(memo), op)
        self._filled(pd.masked_suffixes(memo), op)
      elif kind == "marg":
        got = pd.compute_min_marginals_for_variable(memo, op[1])
        engine.same([float(x) for x in got], marg[op[1]], "min-marginals")
      elif kind == "all":
        got = pd.compute_all_min_marginals(memo)
        engine.same([[float(x) for x in r] for r in got], marg,
                    "all min-marginals")
      elif op[1] is None:
        engine.same(float(pd.compute_minimal_cost(memo)), pre[-1],
                    "minimum cost")
      else:
        engine.same(float(pd.compute_minimal_cost(memo, strategies[op[1]])),
                    pre[-1], f"minimum cost {strategies[op[1]].name}")
      return choice

    def audit(memo, choice):
      pre, suf, _ = truth(choice)
      for name, got, exp in (("prefix", pd.masked_prefixes(memo), pre),
                             ("suffix", pd.masked_suffixes(memo), suf)):
        for i, x in enumerate(got):
          if not math.isnan(x):
            engine.same(float(x), exp[i], f"{name} cost of state {i}")
      engine.same([[float(x) for x in r] for r in memo.penalties],
                  [menus[i] for i in choice], "stored penalties")

    def sig(memo):
      return (memo.prefix_table.tobytes(), memo.suffix_table.tobytes(),
              memo.penalties.tobytes(),
              int(memo.prefixes_valid_ending_at_tag),
              int(memo.suffixes_valid_starting_from_tag))

    zero = (0,) * nk
    start = pd.empty_unpenalized_table(packed)
    audit(start, zero)
    for m in range(3):
      pen = np.array([menus[m]] * nk, dtype=start.penalties.dtype
                     ).reshape((nk, nv))
      memo = pd.empty_table(packed, pen)
      if nk:
        pen[:] = 55.0
      audit(memo, (m,) * nk)
    seen = {sig(start)}
    frontier = [(start, zero)]
    nstates, ntrans = 1, 0
    for _ in range(case["depth"]):
      nxt = []
      for memo, choice in frontier:
        before = sig(memo)
        for op in ops:
          clone = pd.copy_memo(memo)
          engine.same(sig(clone), before, "copied table")
          c2 = apply(clone, choice, op)
          audit(clone, c2)
          ntrans += 1
          engine.same(sig(memo), before, f"original table after {op} on copy")
          s = sig(clone)
          if s not in seen:
            seen.add(s)
            nstates += 1
            nxt.append((clone, c2))
      frontier = nxt
    # and the other direction: changing the original leaves the copy alone
    memo = pd.copy_memo(start)
    pd.make_fully_valid(memo)
    clone = pd.copy_memo(memo)
    before = sig(clone)
    for i in range(nk):
      apply(memo, zero, ("pen", i, 1))
      pd.make_fully_valid(memo)
    engine.same(sig(clone), before, "copy after changes to the original")
    ctx.count(states=nstates, transitions=ntrans, traces=ntrans)
    ctx.outcome((nstates, len(packed.packed_edge_matrix)))

  def _filled(self, arr, op):
    engine.ensure(not any(math.isnan(x) for x in arr),
                  "entries not valid after", op)
