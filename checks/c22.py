from mc import annot
from mc import engine
from mc import trees

L = engine.Level
A = ["t", "a", None]
D = ["d", " "]


class CHECK(engine.Check):
  """For every prototype within the bounds, the set of assignments accepted by
  the constraint diagram (all its complete paths, plain and specialised
  builder, before and after packing) is compared with an enumeration of all
  well-formed annotations (states: nodes of the prototypes, transitions:
  edges, traces: assignments)."""

  id = "C22"

  def prepare(self):
    m = annot.mods()
    self.builders = [m["cd"].make_constraint_dag_builder(with_numba=False),
                     m["cd"].make_constraint_dag_builder(with_numba=True)]
    self.packers = [
        m["cd"].make_specialized_dag_packer(False),
        m["cd"].make_specialized_dag_packer(True)]
    self.m = m

  def levels(self):
    t = self.thorough

    def all_():
      yield from trees.forests_upto(5, [A, D, "S", "E", "X"],
                                    [None])

    def deeper():
      yield from trees.forests(7 if t else 6, [A, "S", "E"], [None])
      yield from trees.forests(6 if t else 5, [A, "S", "X"], [None])

    def flat():
      yield from trees.forests(7 if t else 6, [A, "S", "E", "X"], [None], 0)
      yield from trees.forests(7 if t else 6, ["S", "E"], [None], 2)

    return [
        L("all", "all prototypes of <=5 nodes over token, decoration, "
          "start, end, exit, group", all_),
        L("deeper", "all prototypes of %d nodes without exits / without ends"
          % (6 if t else 5), deeper),
        L("long", "7 tokens with one or two regions or an exit anywhere; "
          "towers up to depth 9",
          lambda: (c for it in (annot.long_prototypes(7),
                                annot.towers(range(1, 10))) for c in it)),
        L("far", "up to 130 tokens beside the decision points; groups "
          "nested up to 40 deep",
          lambda: (c for it in (
              annot.far((20, 70, 130)),
              (annot.tower(d, m, k) for d in (12, 20, 40)
               for m in ("SE", "X", "mid")
               for k in sorted({0, 1, d // 2, d - 1, d}))) for c in it)),
        L("many", "up to 7 region or exit options in a row",
          lambda: (x * k + z for k in range(1, 8)
                   for x in (["S", A, "E"], ["S", A, D], [A, "E"], ["X", A],
                             ["S", ["g", ["S", A, "E"], None], "E"])
                   for z in ([], ["E"], [A]) if k < 6 or "X" not in x)),
        L("flat", "flat prototypes of %d nodes" % (7 if t else 6), flat),
    ]

  def run_case(self, case, ctx):
    m = self.m
    keys = annot.decisions(case)
    exp = {}
    for a, _ in annot.annotations(case, nested=True):
      exp[tuple(a[k] for k in keys)] = 0.0
    for typed, build in ((False, self.builders[0]), (True, self.builders[1])):
      dag = build(annot.pack(case, typed))
      got = annot.costs_of_raw(dag, keys)
      annot.compare_tables(got, exp, "constraint diagram")
    pruned = m["g"].prune_to_reachable(dag)
    packed, conv = m["cd"].pack_dag(pruned)
    annot.compare_tables(annot.costs_of_packed(packed, conv, keys), exp,
                         "packed constraint diagram")
    packer, cast = self.packers[0]
    packed, conv = packer(cast(pruned))
    annot.compare_tables(annot.costs_of_packed(packed, conv, keys), exp,
                         "specialised packed constraint diagram")
    ctx.count(states=trees.size(case), transitions=len(dag.edges),
              traces=len(exp))
    ctx.outcome((len(keys), len(exp)))
