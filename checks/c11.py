from mc import engine
from mc import transforming
from mc import trees
from ref import transform as ref


class CHECK(transforming.TransformCheck):
  """Every forest within the bounds is cut at every offset from 0 to two past
  its text; the result is compared with a reference on the flat event form, its
  text with the slice of the text, and the input before and after (states:
  (forest, offset) pairs)."""

  id = "C11"

  def levels(self):
    return transforming.tree_levels(self.thorough)

  def run_case(self, case, ctx):
    text = trees.text(case)
    for offset in range(len(text) + 3):
      got = trees.from_real(self.apply(
          case, "truncate_prefix_at_offset",
          self.tf.truncate_prefix_at_offset, offset))
      engine.same(trees.text(got), text[offset:], f"text after {offset}")
      engine.same(got, ref.truncate(case, offset), f"tree cut at {offset}")
      ctx.outcome(got)
    ctx.count(states=len(text) + 3, transitions=len(text) + 3,
              traces=len(text) + 3)
