from mc import annot
from mc import engine
from mc import selection
from mc import trees

L = engine.Level
A = ["t", "a", None]
A2 = ["t", "a", "k"]
B = ["t", "bbb", None]
D = ["d", " "]


def reward(text, kind):
  return (len(text) * 1.25 + (0.5 if kind == "k" else 0.0),
          len(text) * 0.375 + (0.0625 if kind == "k" else 0.0))


REWARDS = [
    lambda text, kind: (len(text) * 2.0 ** -30, len(text) * 2.0 ** -31),
    lambda text, kind: (len(text) * 2.0 ** 30, len(text) * 2.0 ** 29),
    lambda text, kind: (0.0, 0.0), lambda text, kind: (0.0, 1.0),
    lambda text, kind: (-0.5, -1.0), lambda text, kind: (-2.0, 3.0),
    lambda text, kind: (64.0 / (1 + len(text)), 2.0 ** -len(text)),
]


class CHECK(engine.Check):
  """For every prototype with region markers and every target within the
  bounds, the cheapest path of the part-selection diagram for every assignment
  (all consistent ones; all others must have no path) is compared with a
  minimisation over the occurrences of the selected parts in the target, and
  the report of every optimal path is read back (states: pairs, transitions:
  edges, traces: assignments)."""

  id = "C23"

  def prepare(self):
    from r_u_sure.edit_distance_utility import part_selection_dags  # pylint: disable=g-import-not-at-top
    self.m = annot.mods()
    self.ps = ps = part_selection_dags

    self.reward = reward

    def fn(node):
      u, d = self.reward(node.text_contents, node.match_type)
      return ps.UtilitiesAndCostsForNode(match_utility=u, delete_cost=d)

    par = ps.PartSelectionUtilityParameters(token_node_utility_fn=fn)
    self.build = {b: ps.make_selection_dag_builder(par, with_numba=b)
                  for b in (False, True)}
    self.packer, self.cast = ps.make_specialized_dag_packer(False)

  def levels(self):
    t = self.thorough

    def small():
      tg = list(trees.forests_upto(3, [A, B], [None]))
      for p in trees.forests_upto(4 if t else 3, [A, B, "S", "E"], [None]):
        for q in tg:
          yield [p, q]

    def flat():
      tg = [q for n in range(5) for q in trees.forests(n, [A, B], [], 0)]
      for n in (4, 5, 6) if t else (4, 5):
        for p in trees.forests(n, [A, B, "S", "E"], [], 0):
          if p.count("S") and p.count("E"):
            for q in tg if n < 5 or t else tg[7:15]:
              yield [p, q]

    def grouped():
      tg = list(trees.forests_upto(4 if t else 3, [A], [None]))
      for p in trees.forests(5 if t else 4, [A, "S", "E"], [None]):
        if "S" in str(p) and "E" in str(p):
          for q in tg:
            yield [p, q]

    def kinds():
      tg = list(trees.forests_upto(2, [A, A2, D], [None, "k"], 1))
      for p in trees.forests_upto(3, [A, A2, D], [None, "k"], 1):
        for q in tg:
          yield [["S"] + p + ["E"], q]
          if len(p) > 1:
            yield [["S", p[0], "E", "S"] + p[1:] + ["E"], q]

    def two():
      ps = [[], [A], [B], [A, B], [A, A], [["g", [A], None]],
            [["g", [A], None], B], [["g", [], None]]]
      tg = [[A, B, A], [A, A, A, A], [B, A, B], [["g", [A], None], B, A],
            [A, ["g", [A], None], B], [["g", [["g", [A], None]], None]]]
      for x in ps:
        for y in ps:
          for z in ([], [A]):
            for q in tg:
              yield [["S"] + x + ["E"] + z + ["S"] + y + ["E"], q]
              yield [["S"] + x + ["S", "E"] + z + y + ["E"], q]
              yield [["S", ["g", ["S"] + x + ["E"], None], "E"] + z + ["S"] +
                     y + ["E"], q]

    def far_targets():
      w = [["t", "ab"[i % 2] * (1 + i % 3), None] for i in range(40)]
      c = annot.WORD[2]
      yield from ([c], w, w + [c], [c] + w, w[:30] + [c], w[:12],
                  [["g", w[:12], None], c], [["g", [c], None]])

    def parts():
      for k in range(3, 10 if t else 8):
        w = [["t", f"w{i}", None] for i in range(k)]
        p = []
        for x in w:
          p += ["S", x, "E"]
        yield [p, w]
        yield [p, w[::-1]]
        yield [p, w[1:] + w[:1]]
        yield [p, w[::2]]
        yield [p, w + w]

    return [
        L("small", "prototypes of <=%d nodes, targets of <=3"
          % (4 if t else 3), small),
        L("flat", "flat prototypes of 4-%d nodes, flat targets of <=4"
          % (6 if t else 5), flat),
        L("grouped", "nested prototypes of %d nodes with markers"
          % (5 if t else 4), grouped),
        L("kinds", "token / group kinds and decorations", kinds),
        L("texts", "all pairs of %d texts and of %d kinds, with a region, a "
          "group, a neighbour" % (len(annot.TEXTS), len(annot.KINDS)),
          lambda: annot.text_pairs(True)),
        L("words", "%d different tokens, one or two parts anywhere, all "
          "subsequences, swaps, insertions" % (6 if t else 5),
          lambda: ([p, q] for p in annot.long_prototypes(6 if t else 5, False)
                   for q in annot.long_targets(6 if t else 5))),
        L("bundles", "groups of 0-12 children against one another",
          lambda: annot.bundles((0, 1, 2, 7, 12))),
        L("far", "up to %d tokens beside the parts, targets of 1-40 tokens"
          % (70 if t else 30),
          lambda: ([p, q] for p in annot.far((12, 70) if t else (12, 30))
                   if "'X'" not in repr(p) for q in far_targets())),
        L("abyss", "groups nested 12 and 20 deep",
          lambda: ([p, q] for d in (12, 20)
                   for p in (annot.tower(d, "SE", d), annot.tower(d, "SE", 0),
                             annot.tower(d, "mid", d - 1))
                   for q in (annot.tower(d), annot.tower(d, drop=2 * d),
                             annot.tower(d, drop=2 * d + 1),
                             annot.tower(d - 1)))),
        L("parts", "up to 9 parts, all of them in the target or not",
          parts),
        L("rates", "utilities of 2^-30, 2^30, zero, negative",
          lambda: ([p, q, r] for r in range(len(REWARDS))
                   for p in ([["S", A, B, "E"], ["S", A, "E", "S", B, "E"],
                              ["S", A, "E", B, "S", A, "E"],
                              ["S", ["g", [A, B], None], "E", A]])
                   for q in ([], [A], [A, B], [B, A], [A, A],
                             [["g", [A, B], None], A]))),
        L("two", "two parts of <=3 nodes each, adjacent, nested, apart", two),
    ]

  def report(self, dag, path, proto, target, cost):
    groups = list(self.ps.extract_match_groups(
        path, annot.pack(proto), annot.pack(target)))
    C = self.ps.DagStateCategory
    annot.near(sum(g.cost for g in groups), cost, "sum over the report")
    shown, used = [], []
    for g in groups:
      if g.category == C.SKIP_IN_TARGET:
        used += g.content_tokens
        annot.near(g.cost, 0.0, "cost of skipping in the target")
        continue
      shown += g.content_tokens
      if g.category == C.SELECT_MATCHED:
        used += g.content_tokens
      elif g.category == C.SKIP_UNSELECTED_IN_PROTOTYPE:
        annot.near(g.cost, 0.0, "cost of unselected tokens")
      else:
        engine.same(g.category, C.SELECT_UNMATCHED, "category of a group")
    engine.same(shown, [s[1] for _, s in selection.steps(proto) if s[0] == "t"],
                "prototype tokens of the report")
    toks = [s[1] for _, s in selection.steps(target) if s[0] == "t"]
    engine.same(used, toks[:len(used)], "target tokens of the report")

  def run_case(self, case, ctx):
    proto, target = case[:2]
    self.reward = REWARDS[case[2]] if len(case) > 2 else reward
    keys = annot.decisions(proto)
    anns = [a for a, _ in annot.annotations(proto, nested=False)]
    exp = {tuple(a[k] for k in keys): selection.best_cost(
               proto, target, a, self.reward)
           for a in anns}
    for typed in (False, True):
      dag = self.build[typed](annot.pack(proto, typed),
                              annot.pack(target, typed))
      annot.compare_tables(annot.costs_of_raw(dag, keys), exp,
                           "selection diagram")
      ctx.count(transitions=len(dag.edges))
    pruned = self.m["g"].prune_to_reachable(dag)
    packed, conv = self.packer(self.cast(pruned))
    annot.compare_tables(annot.costs_of_packed(packed, conv, keys), exp,
                         "packed selection diagram")
    packed, conv = self.ps.pack_dag(pruned)
    annot.compare_tables(annot.costs_of_packed(packed, conv, keys), exp,
                         "specialised packed selection diagram")
    # an optimal path for every annotation
    real = {}
    best = {dag.initial_state: {(): (0.0, ())}}
    for e in dag.edges:
      src = best.get(e.source)
      if not src:
        continue
      slot = best.setdefault(e.dest, {})
      r = e.required_assignment
      for a, (c, p) in src.items():
        a2 = a if r is None else a + ((r.key, r.value),)
        if a2 not in slot or c + e.cost < slot[a2][0]:
          slot[a2] = (c + e.cost, p + (e,))
    for a, (c, p) in best[dag.final_state].items():
      real[a] = c
      self.report(dag, list(p), proto, target, c)
    ctx.count(states=1, traces=len(exp))
    ctx.outcome((len(keys), len(exp), round(min(exp.values()), 4)))
