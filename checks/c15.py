
from mc import dags
from mc import engine
from mc import packing

L = engine.Level


class CHECK(engine.Check):
  """All small pruned diagrams (well ordered or not), two cost patterns and two
  designated missing values are packed by the plain and the specialised
  converter; the cost of every complete assignment, computed from the raw
  packed edges, is compared with brute force over all paths of the original;
  the documented layout is checked; ill-ordered and unpruned diagrams must be
  rejected or packed correctly (states: tagged states, transitions: packed
  edges)."""

  id = "C15"

  def prepare(self):
    import numba  # pylint: disable=g-import-not-at-top
    from r_u_sure.decision_diagrams import packed_dags  # pylint: disable=g-import-not-at-top
    self.pd = packed_dags
    self.numba = numba
    self.fast, self.cast = (
        packed_dags.make_specialized_fn__convert_dag_to_packed(
            example_state=0, example_variable_key=0,
            example_variable_value="a", example_info=0, with_numba=True))

  def levels(self):
    t = self.thorough

    def unpruned():
      for n, labels, par in ((2, packing.L01, 2), (3, packing.L01, 1),
                             (4, [packing.L01[0], packing.L01[1],
                                  packing.L01[4]], 1)):
        for case in dags.all_dags(n, labels, par):
          live, _ = dags.live_edges(case)
          if case["edges"] and len(live) != len(case["edges"]):
            yield case
      inf = [packing.PLAIN, (0, 0, "a"), ("inf", None, None),
             ("inf", 1, "b")]
      yield from dags.all_dags(3, inf, 2)

    def wide():
      for k in list(range(1, 14)) + ([25, 40] if t else []):
        e = []
        for i in range(k):
          e += [[i, i + 1, 1, i, "a"], [i, i + 1, 1, i, "b"],
                [i, i + 1, 5, None, None]]
        yield {"n": k + 1, "edges": e, "big": True}
        e = [[i, i + 1, 1, None, None] for i in range(k)]
        e[0][3:] = [3, "a"]
        e.append([0, k, 7, 1, "b"])
        yield {"n": k + 1, "edges": sorted(e, key=lambda x: x[0])}

    return [
        L("pruned", "all pruned diagrams: <=3 states with <=2 parallel edges "
          "over 5 labels, 4 and 5 states with <=1",
          lambda: packing.space(t)),
        L("unpruned", "all diagrams of <=4 states with dead or infinite edges",
          unpruned),
        L("wide", "chains of up to 14 decisions", wide),
        L("skips", "chains of 4-%d decisions, all ways past three or more "
          "of them" % (11 if t else 9),
          lambda: packing.skips(11 if t else 9)),
    ]

  def run_case(self, case, ctx):
    big = case.get("big")
    ok = big or dags.ordered_ok(case)
    live = dags.live_edges(case)[0]
    pruned = bool(live) and len(live) == len(case["edges"])
    for pattern in ("pow", "neg", "fine", "huge"):
      if pattern in ("fine", "huge") and (case["n"] > 3 or not pruned):
        continue
      c = packing.with_costs(case, pattern)
      real = dags.to_real(c)
      snapshot = list(real.edges)
      for missing, ordering in (("-", None), ("a", ["b", "a"]),
                                ("-", ["a", "-", "zz", "b"])):
        if case.get("skip") and ordering:
          continue
        for fn, cast in ((self.pd.convert_dag_to_packed, None),
                         (self.fast, self.cast)):
          given = cast(real) if cast else real
          try:
            packed, conv = fn(given, missing, ordering)
          except Exception as e:  # pylint: disable=broad-except
            if ok and pruned:
              raise
            if pruned:
              engine.ensure(isinstance(e, (ValueError, RuntimeError)),
                            "ordering violation reported as", repr(e))
            continue
          engine.ensure(ok or not pruned,
                        "ill-ordered diagram accepted silently")
          engine.same(list(real.edges), snapshot, "input afterwards")
          values = ordering or sorted(
              {e[4] for e in c["edges"] if e[4] is not None} | {missing})
          engine.same(list(conv.variable_values), values, "value order")
          if not pruned:
            keys = dags.keys_of(c)
            engine.same(packing.bellman(packed),
                        packing.reference(c, keys, values, missing),
                        "costs of an unpruned diagram that was accepted")
            continue
          used = packing.check_structure(packed, conv, c, real)
          engine.same(used, {k: 1 for k in live}, "copies of the edges")
          if big and len(conv.variable_keys) > 6:
            continue
          got = packing.bellman(packed)
          exp = packing.reference(c, conv.variable_keys, values, missing)
          engine.same(got, exp, f"cost per assignment (missing={missing})")
          for scale in (0.5, 3.0, 1.0, -2.0, 0.0, 1 / 3, 2.0 ** -40,
                        1234.5678, 2.0 ** 50):
            before = packed.packed_edge_matrix.copy()
            sc = self.pd.scale_packed_dag_costs(packed, scale)
            engine.ensure((packed.packed_edge_matrix == before).all(),
                          "scaling changed its input")
            same_rest = all(
                (before[f] == sc.packed_edge_matrix[f]).all()
                for f in before.dtype.names if f != "cost")
            engine.ensure(same_rest, "scaling changed the structure")
            engine.same([float(x) for x in sc.packed_edge_matrix["cost"]],
                        [scale * float(x) for x in before["cost"]],
                        "scaled costs")
            if scale > 0:
              by = packing.bellman(sc)
              engine.same(sorted(by), sorted(exp), "feasible assignments")
              for a, v in exp.items():
                engine.ensure(
                    abs(by[a] - v * scale) <= 1e-12 * scale * max(
                        1.0, abs(v)), "scaled cost of", a, by[a], v, scale)
          ctx.count(states=packed.num_tagged_states,
                    transitions=len(packed.packed_edge_matrix), traces=1)
    ctx.outcome((case["n"], ok, pruned, len(case["edges"]),
                 tuple(str(e[3]) for e in case["edges"])))
