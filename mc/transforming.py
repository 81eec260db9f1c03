"""Shared tree spaces for the transform checks."""
import itertools

from mc import engine
from mc import parsing
from mc import trees

L = engine.Level
RICH = [["t", "ab", "k"], ["t", "", "k"], ["t", "\n", None], ["d", " "],
        ["d", ""], "S", "E", "X"]
MID = [["t", "ab", "k"], ["t", "", "CONTENT_LEAF"], ["d", " x"], "S", "X"]
LEAN = [["t", "ab", "k"], ["d", " "], "E"]
TWO = [["t", "a", "k"], ["d", "\n "]]
KINDS = ["MATCH_INNER", None]


def tree_levels(thorough, plain=False):
  d = 1 if thorough else 0
  rich = [l for l in RICH if not isinstance(l, str)] if plain else RICH
  mid = [l for l in MID if not isinstance(l, str)] if plain else MID
  return [
      L("rich", f"all forests of <={4} nodes over {len(rich)} leaves, 2 kinds",
        lambda: trees.forests_upto(4, rich, KINDS)),
      L("mid", f"all forests of {5 + d} nodes over {len(mid)} leaves",
        lambda: itertools.chain(*[trees.forests(n, mid, ["MATCH_LEFT"])
                                  for n in range(5, 6 + d)])),
      L("lean", f"all forests of <={6 + d} nodes over 3 leaves",
        lambda: itertools.chain(*[trees.forests(n, LEAN, ["SPLIT_GROUP"])
                                  for n in range(6, 7 + d)])),
      L("deep", f"all forests of <={8 + d} nodes over 2 leaves",
        lambda: itertools.chain(*[trees.forests(n, TWO, ["g"])
                                  for n in range(7, 8 + d)])),
      L("families", "growing chains, combs and repetitions of 8 motifs",
        lambda: families(thorough)),
      L("values", "every kind of text (long, blank, every Latin or white-space "
        "character) and of node kind in 6 places", values),
  ] + ([L("rich5", "all forests of 5 nodes over the rich leaves",
          lambda: trees.forests(5, rich, KINDS))] if thorough else [])


def families(thorough):
  """Growing families: chains, combs and repetitions of every small motif."""
  big = 60 if thorough else 36
  motifs = [["t", "ab", "k"]], [["t", "", "k"]], [["d", " "]], ["X"], [
      "S", ["t", "c", None], "E"], [["g", [["t", "x", "k"]], "MATCH"]], [
          ["g", [], "g"]], [["t", "word" * 6, "k"], ["d", "\n"]]
  for motif in motifs:
    for k in range(1, big):
      yield motif * k
      chain = list(motif)
      comb = list(motif)
      left = list(motif)
      for _ in range(k):
        chain = [["g", chain, "g"]]
        comb = [["t", "l", "k"], ["g", comb, "MATCH_INNER"], "X"]
        left = [["g", left, "g"], ["d", " "]]
      yield chain
      if k < big // 2:
        yield comb
        yield left
        yield [["g", motif * k, "g"], ["g", motif * k, "MATCH_LEFT"]]


KIND_NAMES = ["ROOT", "MATCH", "MATCH_LEFT", "MATCH_RIGHT", "MATCH_INNER",
              "CONTENT_LEAF", "NON_CONTENT_LEAF", "WHITE_SPACE_LEAF",
              "SPLIT_GROUP", "STRING_LITERAL", "subtoken", "region_scope", "",
              ["a", "b"], ["region_scope"], [None], "None", 0, 1]


def long_text(n):
  """No two places look the same."""
  return "".join(f"{i:03d}{chr(97 + i % 26)}" for i in range(n))[:n]


def values():
  """Every text and kind in every place of a few shapes."""

  def shapes(text, kind):
    t, d = ["t", text, kind], ["d", text]
    yield [t]
    yield [["g", [t], kind]]
    yield ["X", ["g", ["S", t, "E"], kind], d, ["t", "z", "k"], "X"]
    yield [["t", "a", "k"], d, ["g", [["g", [d, t], "k"], t], kind]]
    yield [["t", "ab", "k"], ["g", [], kind], t, t]
    yield [["g", [["t", "q", "k"]], kind], d]

  for kind in KIND_NAMES:
    for text in ("ab", "", " "):
      yield from shapes(text, kind)
  for c in parsing.SPECIAL:
    yield from shapes(chr(c), "k")
  for text in parsing.WORDS:
    yield from shapes(text, "k")
  for n in (17, 33, 65, 129, 257, 513):
    yield from shapes(long_text(n), "k")
    yield from shapes(" " * n, "k")
  for n in (50, 130, 260):
    yield [["t", long_text(n)[i:i + 2], "k"] for i in range(0, n, 2)]
    yield [["g", [["t", str(i), "k"]], "g"] for i in range(n)]


class TransformCheck(engine.Check):

  def prepare(self):
    from r_u_sure.tree_structure import sequence_node_helpers  # pylint: disable=g-import-not-at-top
    from r_u_sure.tree_structure import transforms  # pylint: disable=g-import-not-at-top
    self.tf = transforms
    self.helpers = sequence_node_helpers

  def apply(self, forest, what, fn, *args, **kw):
    """Runs fn on a fresh tree; fails if the input tree changed."""
    real = trees.to_real(forest)
    shape_ids = trees.object_ids(real)
    out = fn(real, *args, **kw)
    engine.same(trees.from_real(real), forest, f"input of {what} afterwards")
    engine.same(trees.object_ids(real), shape_ids,
                f"identity of the input nodes after {what}")
    if trees.size(forest) <= 6:
      # the same node object at several places of the tree
      shared = trees.to_real(forest, {})
      again = fn(shared, *args, **kw)
      engine.same(trees.from_real(again), trees.from_real(out),
                  f"{what} of a tree with shared nodes")
      engine.same(trees.from_real(shared), forest,
                  f"tree with shared nodes after {what}")
    return out
