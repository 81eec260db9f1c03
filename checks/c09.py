from mc import engine
from mc import transforming
from mc import trees
from ref import transform as ref

L = engine.Level


class CHECK(transforming.TransformCheck):
  """Every forest within the bounds goes through flatten_groups,
  flatten_singleton_groups, strip_decision_nodes and the text renderer; results
  are compared with references computed on the flat event form; the input is
  compared before and after, and repeated and composed application is checked
  (states: forests, transitions: transform applications)."""

  id = "C09"

  def levels(self):
    return transforming.tree_levels(self.thorough)

  def run_case(self, case, ctx):
    tf = self.tf
    flat = self.apply(case, "flatten_groups", tf.flatten_groups)
    engine.same(trees.from_real(flat), ref.flatten(case), "flatten_groups")
    engine.same(trees.from_real(tf.flatten_groups(flat)), ref.flatten(case),
                "flatten_groups twice")
    single = self.apply(case, "flatten_singleton_groups",
                        tf.flatten_singleton_groups)
    engine.same(trees.from_real(single), ref.flatten_singletons(case),
                "flatten_singleton_groups")
    again = tf.flatten_singleton_groups(single)
    engine.same(trees.from_real(again), ref.flatten_singletons(
        ref.flatten_singletons(case)), "flatten_singleton_groups twice")
    engine.same(trees.size(trees.from_real(again)),
                trees.size(trees.from_real(single)),
                "size after flattening singletons twice")
    stripped = self.apply(case, "strip_decision_nodes",
                          tf.strip_decision_nodes)
    engine.same(trees.from_real(stripped), ref.strip(case),
                "strip_decision_nodes")
    engine.same(trees.from_real(tf.strip_decision_nodes(stripped)),
                ref.strip(case), "strip_decision_nodes twice")
    engine.same(
        trees.from_real(tf.flatten_groups(stripped)),
        trees.from_real(tf.strip_decision_nodes(flat)),
        "strip and flatten commute")
    text = trees.text(case)
    for seq, what in ((flat, "flattened"), (single, "singleton-flattened"),
                      (stripped, "stripped")):
      engine.same(self.helpers.render_text_contents(seq), text,
                  f"text of the {what} tree")
    for node, spec in zip(trees.to_real(case), case):
      engine.same(
          trees.from_real([tf.flatten_singleton_groups_for_node(node)]),
          ref.flatten_singletons([spec]), "flatten_singleton of one node")
      engine.same(self.helpers.render_text_contents(node), trees.text([spec]),
                  "text of one node")
    ctx.count(states=1, transitions=7, traces=7)
    ctx.outcome(ref.flatten_singletons(case))
