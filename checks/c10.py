import itertools

from mc import engine
from mc import transforming
from mc import trees
from ref import transform as ref

FILTERS = {
    "all": lambda n: True,
    "none": lambda n: False,
    "small": lambda n: ref.is_token(n) or len(n[1]) <= 1,
    "pseudo": lambda n: n[2] not in (
        "MATCH_LEFT", "MATCH_INNER", "MATCH_RIGHT") and not (
            ref.is_token(n) and n[1] == "\n"),
}


class CHECK(transforming.TransformCheck):
  """Every forest within the bounds goes through every insertion transform with
  every combination of settings and four node filters; results are compared
  with references on the flat event form, the input is compared before and
  after, stripping must restore the original, and the balance of starts and
  ends at each level is checked directly."""

  id = "C10"

  def prepare(self):
    super().prepare()
    from r_u_sure.wrappers import parser_tools  # pylint: disable=g-import-not-at-top
    sn = trees.nodes()
    self.real_filters = {
        "all": None,
        "none": lambda n: False,
        "small": lambda n: (isinstance(n, sn.TextTokenNode)
                            or len(n.children) <= 1),
        "pseudo": parser_tools.allow_regions_around_pseudoparse_node,
    }

  def levels(self):
    return transforming.tree_levels(self.thorough)

  def run_case(self, case, ctx):
    tf = self.tf
    base = ref.strip(case)
    n = 0
    for within, start in itertools.product((True, False), repeat=2):
      out = trees.from_real(self.apply(
          case, "insert_early_exit", tf.insert_early_exit,
          allowed_within_group=within, allowed_at_start=start))
      engine.same(out, ref.early_exit(case, within, start),
                  f"insert_early_exit(within={within}, start={start})")
      n += 1
    engine.same(trees.from_real(tf.insert_early_exit(trees.to_real(case))),
                ref.early_exit(case, True, True), "insert_early_exit defaults")
    for empty in (True, False):
      for name, accepts in FILTERS.items():
        kw = dict(allow_empty_regions=empty)
        if self.real_filters[name] is not None:
          kw["node_filter"] = self.real_filters[name]
        out = trees.from_real(self.apply(
            case, "insert_region_options_around_subsequences",
            tf.insert_region_options_around_subsequences, **kw))
        engine.same(out, ref.regions(case, empty, accepts),
                    f"regions around subsequences (empty={empty}, {name})")
        engine.same(ref.strip(out), base, "text and groups after stripping")
        n += 1
    out = trees.from_real(self.apply(
        case, "insert_region_options_around_single_nodes",
        tf.insert_region_options_around_single_nodes))
    engine.same(out, ref.single_regions(case), "regions around single nodes")
    if "region_scope" not in repr(case):
      engine.same(ref.unscope(out), base, "scopes and decisions removed")
    # the order in which the wrappers apply them
    both = tf.insert_region_options_around_subsequences(
        tf.insert_early_exit(trees.to_real(case)), allow_empty_regions=False)
    engine.same(trees.from_real(both), ref.regions(
        ref.early_exit(case, True, True), False, FILTERS["all"]),
                "early exits, then regions")
    ctx.count(states=1, transitions=n + 2, traces=n + 2)
    ctx.outcome(out)
