import itertools

from mc import dags
from mc import engine

L = engine.Level
LABELS = [(1, None, None), (2, 0, 1), ("inf", None, None), (-1, 1, 0)]
SIZES = (1, 2, 3, 7, 64, 1031)
EXTREME = [(1, None, None), ("-inf", 0, 1), ("inf", None, None), (1e308, 0, 0)]


class CHECK(engine.Check):
  """All small diagrams (every subset of labelled edges, several edge orders,
  three kinds of states with and without colliding hashes) are pruned by all
  three implementations and renumbered with five scratch-table sizes, and
  compared with a search over the edges; all histories of add-edge calls over
  a few states are compared with the topological-order rule (states: partial
  diagrams, transitions: calls)."""

  id = "C14"

  def prepare(self):
    import numba  # pylint: disable=g-import-not-at-top
    import numpy as np  # pylint: disable=g-import-not-at-top
    self.g = dags.gsd()
    self.np = np
    self.numba = numba
    self.prune_overloads = numba.OVERLOADS.get("prune_to_reachable", [])
    self.add_overloads = numba.OVERLOADS.get("partial_state_dag_add_edge", [])

  def levels(self):
    t = self.thorough

    def graphs():
      for n in (1, 2, 3):
        yield from dags.all_dags(n, LABELS, 2 if n < 3 else 1,
                                 orders=("src", "dst", "late"))
      yield from dags.all_dags(
          4, LABELS, 1, orders=("src", "late"))

    def graphs5():
      yield from dags.all_dags(5, LABELS[:1], 1,
                               orders=("src", "dst", "late"))

    def graphs6():
      yield from dags.all_dags(
          6, LABELS[:1], 1, orders=("late",),
          pairs=[(i, j) for i in range(6) for j in range(i + 1, 6)
                 if j - i <= 4])

    def shuffled():
      # final state in the middle of the numbering, dead ends behind it
      for case in dags.all_dags(4, LABELS[:1], 1, orders=("src",)):
        for perm in itertools.permutations(range(4)):
          yield {"n": 4, "edges": [
              [perm[e[0]], perm[e[1]]] + e[2:] for e in case["edges"]]}

    def wide():
      for k in list(range(1, 40)) + [100, 300, 700, 1500]:
        e = []
        for i in range(k):
          e += [[i, i + 1, 1, None, None], [i, i + 1, 2, i, 0]]
          if i % 3 == 0:
            e.append([i, k + 1 + i, 1, None, None])  # dead ends
        yield {"n": k + 1, "edges": e}

    def histories():
      arcs = [[s, d] for s in range(4) for d in range(4) if s != d]
      for k in range(0, 6 if t else 5):
        for h in itertools.product(arcs, repeat=k):
          yield {"history": [list(x) for x in h]}

    def sequences():
      # every order of every (multi-)edge list that is topological
      arcs = [(i, j) for i in range(4) for j in range(i + 1, 4)]
      for k in range(1, 8 if t else 7):
        for seq in itertools.product(arcs, repeat=k):
          started = set()
          for s, d in seq:
            started.add(s)
            if d in started:
              break
          else:
            if any(d == 3 for _, d in seq):
              yield {"n": 4, "edges": [
                  [s, d, n, None, None] for n, (s, d) in enumerate(seq)]}

    out = [
        L("sequences", "all topologically ordered sequences of <=6 edges over "
          "4 states, repeated edges included", sequences),
        L("n4", "all diagrams of <=4 states with <=1 edge per pair over 4 "
          "labels, 3 orders", graphs),
        L("n5", "all diagrams of 5 states, plain edges", graphs5),
        L("extreme", "all diagrams of <=3 states (4: <=1 edge) with extreme "
          "costs",
          lambda: (c for n in (2, 3, 4) for c in dags.all_dags(
              n, EXTREME if n < 4 else EXTREME[:3], 2 if n < 4 else 1))),
        L("relabelled", "all relabellings of all plain 4-state diagrams",
          shuffled),
        L("wide", "chains with dead ends of up to 1500 states", wide),
        L("history", "all sequences of <=4 edge insertions over 4 states",
          histories),
    ]
    if t:
      out.append(L("n6", "all diagrams of 6 states, plain edges", graphs6))
    return out

  def run_case(self, case, ctx):
    if "history" in case:
      self._history(case["history"], ctx)
      return
    g = self.g
    live, fwd = dags.live_edges(case)
    valid_order = self._topological(case)
    big = len(case["edges"]) > 200
    for kind, mk in dags.STATE_KINDS.items():
      if big and kind not in ("int", "spread"):
        continue
      real = dags.to_real(case, mk, cls=self.numba.typed.List)
      snapshot = (real.initial_state, list(real.edges), real.final_state)
      exp = [real.edges[k] for k in live]
      if valid_order:
        fns = [g.prune_to_reachable, g.prune_to_reachable_jit]
        fns += [f(real) for f in self.prune_overloads]
        for fn in fns:
          got = fn(real)
          engine.same(list(got.edges), exp, f"pruned edges ({kind})")
          engine.same((got.initial_state, got.final_state),
                      (real.initial_state, real.final_state), "end states")
        for size in SIZES:
          self._rewrite(case, real, exp, live, size, kind)
      order = []
      for e in real.edges:
        for s in (e.source, e.dest):
          if s not in order:
            order.append(s)
      engine.same(g.extract_state_list(real), order, "state list")
      engine.same((real.initial_state, list(real.edges), real.final_state),
                  snapshot, "input diagram afterwards")
    ctx.count(states=case["n"], transitions=len(case["edges"]),
              traces=len(SIZES) * len(dags.STATE_KINDS))
    ctx.outcome((case["n"], tuple(live)))

  def _topological(self, case):
    seen = set()
    for s, d, *_ in case["edges"]:
      seen.add(s)
      if d in seen:
        return False
    return True

  def _rewrite(self, case, real, exp, live, size, kind):
    np = self.np
    table = np.full((size,), 12345, dtype=np.int32)
    has_path = bool(live) or case["n"] == 1
    try:
      got = self.g.prune_unreachable_and_rewrite_states(real, table)
    except ValueError as e:
      engine.ensure("path" in str(e), "unexpected ValueError", e)
      engine.ensure(not has_path, "diagram with a path rejected", kind, size)
      return
    engine.ensure(has_path, "diagram without a path accepted", kind, size)
    engine.same(len(got.edges), len(exp), f"edges kept ({kind}, {size})")
    to_new = {id(None): None}
    new_of = {}

    def tie(old, new, what):
      new = int(new)
      engine.ensure(new_of.setdefault(old, new) == new,
                    what, old, "numbered", new_of[old], "and", new, kind, size)

    tie(real.initial_state, got.initial_state, "initial state")
    tie(real.final_state, got.final_state, "final state")
    for a, b in zip(exp, got.edges):
      tie(a.source, b.source, "source")
      tie(a.dest, b.dest, "dest")
      engine.same((b.cost, b.required_assignment, b.info),
                  (a.cost, a.required_assignment, a.info), "edge contents")
    engine.same(sorted(new_of.values()), list(range(len(new_of))),
                f"state numbers ({kind}, {size})")
    del to_new

  def _history(self, hist, ctx):
    g = self.g
    for mode in ("plain", "traced", "compiled"):
      dag = g.partial_state_dag_starting_from(0)
      add = g.partial_state_dag_add_edge
      if mode == "compiled":
        if not self.add_overloads:
          continue
        old = g.CHECK_ORDERING_UNDER_JIT
        g.CHECK_ORDERING_UNDER_JIT = True
        try:
          add = self.add_overloads[0](dag, None)
        finally:
          g.CHECK_ORDERING_UNDER_JIT = old
      started = set()
      kept = []
      for k, (s, d) in enumerate(hist):
        edge = g.Edge(s, d, 1.5 * k, g.SharedVariableAssignment(k, s),
                      {"at": k} if k % 2 else k)
        try:
          if mode == "traced":
            with g.adding_edge_tracebacks():
              add(dag, edge)
          else:
            add(dag, edge)
        except (ValueError, RuntimeError):
          engine.ensure(d in started, "edge", (s, d), "rejected after", kept)
        else:
          engine.ensure(d not in started, "edge", (s, d), "accepted after",
                        kept)
          started.add(s)
          kept.append(edge)
        engine.same(len(dag.edges), len(kept), "edges in the diagram")
      got = g.partial_state_dag_finish(dag, 3)
      if mode == "traced":
        for e in got.edges:
          engine.ensure("traceback" in e.info, "no traceback recorded")
        stripped = [g.strip_traceback_from_edge(e) for e in got.edges]
      else:
        stripped = [g.strip_traceback_from_edge(e) for e in got.edges]
        engine.same(stripped, list(got.edges), "nothing to strip")
      engine.same(stripped, kept, f"edges added ({mode})")
      engine.same((got.initial_state, got.final_state), (0, 3), "end states")
      ctx.count(states=len(hist) + 1, transitions=len(hist), traces=1)
    ctx.outcome((len(hist), len(kept)))
