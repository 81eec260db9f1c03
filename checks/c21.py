from mc import annot
from mc import engine
from mc import trees

L = engine.Level
A = ["t", "a", None]
A2 = ["t", "a", "k"]
B = ["t", "bbb", None]
D = ["d", " "]


class CHECK(engine.Check):
  """For every pair of prototype and target within the bounds and several
  parameter sets, the cheapest path of the edit diagram for every assignment
  (all consistent ones, everything else must have no path) is compared with an
  independent minimisation over alignments (states: prototype/target pairs,
  transitions: edges of the diagrams, traces: assignments)."""

  id = "C21"

  def prepare(self):
    m = annot.mods()
    self.m = m
    self.build = {
        False: m["ed"].make_edit_dag_builder(with_numba=False),
        True: m["ed"].make_edit_dag_builder(with_numba=True)}
    self.packer, self.cast = m["ed"].make_specialized_dag_packer(False)

  def levels(self):
    t = self.thorough
    tg3 = list(trees.forests_upto(3, [A, B], [None]))
    tg2 = list(trees.forests_upto(2, [A, B], [None]))

    def plain():
      for p in trees.forests_upto(4 if t else 3, [A, B], [None]):
        for q in tg3:
          yield [p, q]

    def regions():
      for p in trees.forests_upto(4 if t else 3, [A, B, "S", "E"], [None]):
        for q in tg3 if t else tg2:
          yield [p, q]

    def regions4():
      for p in trees.forests(5 if t else 4, [A, "S", "E"], [None]):
        for q in ([], [A], [["g", [A], None]], [A, A], [B, A]):
          yield [p, q]

    def exits():
      for p in trees.forests_upto(4 if t else 3, [A, B, "S", "X"], [None]):
        for q in tg2:
          yield [p, q]

    def kinds():
      leaves = [A, A2, D]
      for p in trees.forests_upto(3, leaves, [None, "k"], 1):
        for q in trees.forests_upto(2, leaves, [None, "k"], 1):
          yield [p, q]

    def spaces():
      # decorations on either side, inside and outside regions
      tgs = ([A, A], [A, D, A], [D, A], [A, D], [D],
             [["g", [D, A], None]], [A, ["g", [A, D], None]])
      for p in trees.forests_upto(5 if t else 4, [A, D, "S", "E"], [None], 1):
        if "'S'" not in repr(p) or "'E'" not in repr(p):
          continue
        for q in tgs:
          yield [p, q]
      for p in ([A, A], [A, "X", A], [A, ["g", [A, A], None]],
                [["g", [A, "X", A], None], A]):
        for opt in ([], ["S"]):
          p2 = opt + p + (["E"] if opt else [])
          for q in trees.forests_upto(5 if t else 4, [A, D], [None], 1):
            yield [p2, q]

    def mixed():
      tgs = ([A], [A, A], [["g", [A], None], A], [B])
      for p in trees.forests_upto(5 if t else 4, [A, "S", "E", "X"], [None]):
        if "X" not in repr(p) or "'S'" not in repr(p) or "'E'" not in repr(p):
          continue
        for q in tgs:
          yield [p, q]

    def long():
      s = [["S", A, "E"], ["S", B, "E", A], [A, "X"], ["S", A, A, "E"]]
      for x in s:
        for y in s:
          for q in ([A, B], [B, A, A], [["g", [A], None], B],
                    [A, A, A, A]):
            yield [x + y, q]
            yield [[["g", x, None]] + y, q]
            yield [[["g", x, None]] + y, [["g", q, None], A]]
            yield [["S", ["g", x, None]] + y + ["E"], q]

    return [
        L("plain", "prototypes and targets of <=%d/3 nodes, no decisions"
          % (4 if t else 3), plain),
        L("regions", "prototypes of <=%d nodes with region options"
          % (4 if t else 3), regions),
        L("regions4", "prototypes of %d nodes, one token, region options"
          % (5 if t else 4), regions4),
        L("exits", "prototypes with early exits and region starts", exits),
        L("kinds", "token / group kinds and decorations", kinds),
        L("spaces", "regions with white space on either side, <=%d nodes"
          % (5 if t else 4), spaces),
        L("mixed", "regions and early exits together, <=%d nodes"
          % (5 if t else 4), mixed),
        L("texts", "all pairs of %d texts and of %d kinds, with a region, a "
          "group, a neighbour" % (len(annot.TEXTS), len(annot.KINDS)),
          lambda: annot.text_pairs(True)),
        L("words", "%d different tokens, one region / exit / group anywhere, "
          "all subsequences, swaps, insertions" % (6 if t else 5),
          lambda: ([p, q] for p in annot.long_prototypes(6 if t else 5)
                   for q in annot.long_targets(6 if t else 5))),
        L("towers", "groups nested %d deep, one difference anywhere"
          % (6 if t else 4),
          lambda: annot.tower_pairs((3, 4, 5, 6) if t else (4,))),
        L("rates", "a few pairs under %d extreme sets of rates"
          % len(annot.RATES), lambda: annot.rate_pairs({})),
        L("flat", "flat sequences of up to %d tokens, shifted, reversed, "
          "thinned" % (70 if t else 40),
          lambda: ({"flat": [p, q]} for p, q in annot.flat_pairs(
              (3, 11, 40, 70) if t else (3, 11, 40)))),
        L("far", "%d tokens beside the decision points, short targets"
          % (70 if t else 30),
          lambda: ([p, q] for p in annot.far((12, 70) if t else (12, 30))
                   for q in ([], [annot.WORD[2]],
                             [annot.WORD[0], annot.WORD[2]]))),
        L("abyss", "groups nested %d deep" % (40 if t else 20),
          lambda: ([p, q] for d in ((12, 20, 40) if t else (12, 20))
                   for p in (annot.tower(d), annot.tower(d, "SE", d),
                             annot.tower(d, "mid", d - 1),
                             annot.tower(d, "X", d))
                   for q in (annot.tower(d), annot.tower(d, drop=2 * d),
                             annot.tower(d, drop=2 * d + 1),
                             annot.tower(d - 1)))),
        L("bundles", "groups of 0-12 children against one another",
          lambda: annot.bundles((0, 1, 2, 7, 12))),
        L("long", "combinations of small regions, up to 8 nodes", long),
    ]

  def run_case(self, case, ctx):
    if isinstance(case, dict):
      self._flat(case["flat"], ctx)
      return
    proto, target = case[:2]
    sets = annot.PARAMS
    if len(case) > 2:
      sets = [annot.RATES[case[2]["rates"]]]
    keys = annot.decisions(proto)
    anns = [a for a, _ in annot.annotations(proto, nested=False)]
    for pi, par in enumerate(sets):
      exp = {tuple(a[k] for k in keys):
             annot.edit_cost(proto, target, a, par) for a in anns}
      typed = bool(pi % 2)
      dag, _ = self.build[typed](
          annot.pack(proto, typed), annot.pack(target, typed),
          annot.real_params(par))
      got = annot.costs_of_raw(dag, keys)
      annot.compare_tables(got, exp, f"edit diagram (parameters {pi})")
      if pi == 0:
        pruned = self.m["g"].prune_to_reachable(dag)
        packed, conv = self.m["ed"].pack_dag(pruned)
        annot.compare_tables(annot.costs_of_packed(packed, conv, keys), exp,
                             "packed edit diagram")
      elif pi == 1:
        pruned = self.m["g"].prune_to_reachable(dag)
        packed, conv = self.packer(self.cast(pruned))
        annot.compare_tables(annot.costs_of_packed(packed, conv, keys), exp,
                             "specialised packed edit diagram")
      ctx.count(states=1, transitions=len(dag.edges), traces=len(exp))
    ctx.outcome((len(keys), len(exp), round(min(exp.values()), 4)))

  def _flat(self, pair, ctx):
    """Long flat sequences: one region option around all of it."""
    p, q = pair
    proto = ["S"] + [["t", x, None] for x in p] + ["E"]
    target = [["t", x, None] for x in q]
    keys = annot.decisions(proto)
    anns = [a for a, _ in annot.annotations(proto, nested=False)]
    for typed, par in ((False, annot.PARAMS[0]), (True, annot.PARAMS[1])):
      exp = {}
      for a in anns:
        c = annot.flat_cost(p, q, a[0, "S"] == "T", par)
        if len(p) < 4:
          annot.near(annot.edit_cost(proto, target, a, par), c, "reference")
        exp[tuple(a[k] for k in keys)] = c
      dag, _ = self.build[typed](annot.pack(proto, typed),
                                 annot.pack(target, typed),
                                 annot.real_params(par))
      annot.compare_tables(annot.costs_of_raw(dag, keys), exp,
                           "edit diagram of long sequences")
      ctx.count(states=1, transitions=len(dag.edges), traces=len(exp))
    ctx.outcome((len(p), len(q)))
