from mc import engine
from mc import transforming
from mc import trees

L = engine.Level
CAT = {"d": "TEXT_DECORATION_NODE", "t": "TEXT_TOKEN_NODE", "g": "GROUP_NODE",
       "S": "REGION_START_NODE", "E": "REGION_END_NODE",
       "X": "EARLY_EXIT_NODE"}


def cat(n):
  return CAT[n if isinstance(n, str) else n[0]]


def walk(forest, path=()):
  """(node, path) in depth-first order."""
  for i, n in enumerate(forest):
    yield n, path + (i,)
    if not isinstance(n, str) and n[0] == "g":
      yield from walk(n[1], path + (i,))


class CHECK(engine.Check):
  """Every forest within the bounds is packed (plain and typed), unpacked,
  looked up by every path and every index, traversed in order with and without
  decorations (also through the implementation registered for compiled code)
  and walked with every option; everything is compared with a reference
  traversal (states: nodes, transitions: lookups)."""

  id = "C12"

  def prepare(self):
    import numba  # pylint: disable=g-import-not-at-top
    from r_u_sure.tree_structure import packed_sequence_nodes  # pylint: disable=g-import-not-at-top
    from r_u_sure.tree_structure import sequence_node_helpers  # pylint: disable=g-import-not-at-top
    from r_u_sure.wrappers import parser_tools  # pylint: disable=g-import-not-at-top
    self.p, self.h, self.pt = (
        packed_sequence_nodes, sequence_node_helpers, parser_tools)
    self.overloads = numba.OVERLOADS.get("in_order_traversal", [])

  def levels(self):
    return transforming.tree_levels(self.thorough)

  def run_case(self, case, ctx):
    p = self.p
    real = trees.to_real(case)
    order = list(walk(case))
    index = {path: i for i, (_, path) in enumerate(order)}
    sn = trees.nodes()
    for typed in (False, True):
      s = self.pt.pack_sequence_from_pseudoparser(real, typed)
      engine.same(trees.from_real(p.unpack(s)), case, "pack then unpack")
      engine.same([(i.preorder_index, i.category.name)
                   for i in s.preorder_traversal],
                  [(k, cat(n)) for k, (n, _) in enumerate(order)],
                  "depth-first order")
      engine.same([tuple(x) for x in s.parents_and_offsets_from_preorder],
                  [(index[path[:-1]] if len(path) > 1 else -1, path[-1])
                   for _, path in order], "parents and offsets")
      engine.same(list(s.level_from_preorder),
                  [len(path) - 1 for _, path in order], "levels")
      engine.same(s.depth, max([len(path) for _, path in order] + [1]),
                  "depth")
      engine.same([i.preorder_index for i in s.root_sequence],
                  [index[(k,)] for k in range(len(case))], "root sequence")
      for c in ("d", "t", "g"):
        of_cat = [i for i in s.preorder_traversal
                  if i.category.name == CAT[c]]
        engine.same([i.index_in_category for i in of_cat],
                    list(range(len(of_cat))), "indices in category " + c)
      for k, (n, path) in enumerate(order):
        nid = s.preorder_traversal[k]
        real_path = sn.NestedNodePath(path)
        engine.same(s.node_id_from_node_path(real_path), nid,
                    f"node at path {path}")
        engine.same(s.path_from_preorder_index(k), real_path,
                    f"path of node {k}")
        engine.same(p.render_text_contents_of_node(nid, s), trees.text([n]),
                    "text of a packed node")
        if not isinstance(n, str) and n[0] == "g":
          engine.same(
              [i.preorder_index for i in s.subsequence_from_node_path(
                  real_path)],
              [index[path + (j,)] for j in range(len(n[1]))],
              f"children at {path}")
          self._rejects(s, sn.NestedNodePath(path + (len(n[1]), 0)))
        else:
          self._rejects(s, sn.NestedNodePath(path + (0,)))
      self._rejects(s, sn.NestedNodePath(()))
      self._rejects(s, sn.NestedNodePath((len(case), 0)))
      self._rejects(s, sn.NestedNodePath((-1, 0)))
      engine.same(p.render_text_contents_of_list(s.root_sequence, s),
                  trees.text(case), "text of the packed tree")
      for strip in (False, True):
        exp = list(self._in_order(case, (), index, strip))
        fns = [p.in_order_traversal]
        for factory in self.overloads:
          fns.append(factory(s, strip))
        for fn in fns:
          engine.same([(i.category.name, i.node_id.preorder_index)
                       for i in fn(s, strip)], exp,
                      f"in-order traversal (strip={strip})")
          for i in fn(s, strip):
            engine.same(i.node_id,
                        s.preorder_traversal[i.node_id.preorder_index],
                        "node id in traversal")
    engine.same(trees.from_real(real), case, "packed tree afterwards")
    engine.same(self.h.compute_depth(real), self._depth(case),
                "nesting depth")
    for before in (False, True):
      for after in (False, True):
        got = [(trees.from_real([n])[0], path.path, tag.name)
               for n, path, tag in self.h.walk_with_paths(real, before, after)]
        engine.same(got, list(self._tagged(case, (), before, after)),
                    f"walk(before={before}, after={after})")
    ctx.count(states=len(order), transitions=4 * len(order), traces=2)
    ctx.outcome([path for _, path in order])

  def _rejects(self, s, path):
    try:
      got = s.node_id_from_node_path(path)
    except ValueError:
      return
    raise engine.Violation(f"path {path} accepted: {got}")

  def _in_order(self, forest, path, index, strip):
    for i, n in enumerate(forest):
      here = path + (i,)
      if not isinstance(n, str) and n[0] == "g":
        yield ("BEFORE_GROUP", index[here])
        yield from self._in_order(n[1], here, index, strip)
        yield ("AFTER_GROUP", index[here])
      elif not (strip and n[0] == "d"):
        yield ("LEAF", index[here])

  def _depth(self, forest):
    return 1 + max([self._depth(n[1]) for n in forest
                    if not isinstance(n, str) and n[0] == "g"] + [0])

  def _tagged(self, forest, path, before, after):
    for i, n in enumerate(forest):
      here = path + (i,)
      if not isinstance(n, str) and n[0] == "g":
        if before:
          yield (n, here, "GROUP_BEFORE_CHILDREN")
        yield from self._tagged(n[1], here, before, after)
        if after:
          yield (n, here, "GROUP_AFTER_CHILDREN")
      else:
        yield (n, here, "LEAF")
