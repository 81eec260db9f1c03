"""Node trees as JSON values, their enumeration, and conversion to real nodes.

A forest is a list; a node is ["t", text, kind], ["d", text],
["g", [children], kind], "S" (region start), "E" (region end) or
"X" (early exit).
"""
import functools

_sn = None


def nodes():
  global _sn
  if _sn is None:
    from r_u_sure.tree_structure import sequence_nodes  # pylint: disable=g-import-not-at-top
    _sn = sequence_nodes
  return _sn


def kind_in(k):
  return tuple(kind_in(x) for x in k) if isinstance(k, list) else k


def kind_out(k):
  return [kind_out(x) for x in k] if isinstance(k, tuple) else k


def to_real(forest, shared=None):
  """With a dictionary, equal nodes become one and the same object."""
  sn = nodes()
  out = []
  for n in forest:
    if shared is not None:
      key = repr(n)
      if key not in shared:
        if not isinstance(n, str) and n[0] == "g":
          shared[key] = sn.GroupNode(to_real(n[1], shared), kind_in(n[2]))
        else:
          shared[key] = to_real([n])[0]
      out.append(shared[key])
    elif n == "S":
      out.append(sn.RegionStartNode())
    elif n == "E":
      out.append(sn.RegionEndNode())
    elif n == "X":
      out.append(sn.EarlyExitNode())
    elif n[0] == "t":
      out.append(sn.TextTokenNode(n[1], kind_in(n[2])))
    elif n[0] == "d":
      out.append(sn.TextDecorationNode(n[1]))
    else:
      out.append(sn.GroupNode(to_real(n[1]), kind_in(n[2])))
  return out


def from_real(seq):
  sn = nodes()
  out = []
  for n in seq:
    t = type(n)
    if t is sn.RegionStartNode:
      out.append("S")
    elif t is sn.RegionEndNode:
      out.append("E")
    elif t is sn.EarlyExitNode:
      out.append("X")
    elif t is sn.TextTokenNode:
      out.append(["t", n.text_contents, kind_out(n.match_type)])
    elif t is sn.TextDecorationNode:
      out.append(["d", n.text_contents])
    elif t is sn.GroupNode:
      out.append(["g", from_real(n.children), kind_out(n.match_type)])
    else:
      out.append(["?", repr(n)])
  return out


def object_ids(seq, out=None):
  """Identities of all group nodes and child lists."""
  sn = nodes()
  if out is None:
    out = set()
  out.add(id(seq))
  for n in seq:
    if isinstance(n, sn.GroupNode):
      out.add(id(n))
      object_ids(n.children, out)
  return out


def forests(n, leaves, groups, max_depth=99):
  """All forests of exactly n nodes over the given leaves and group kinds."""
  return _forests(n, tuple(_freeze(l) for l in leaves), tuple(groups),
                  max_depth)


def _freeze(x):
  return tuple(_freeze(y) for y in x) if isinstance(x, list) else x


def _thaw(x):
  return [_thaw(y) for y in x] if isinstance(x, tuple) else x


@functools.lru_cache(maxsize=None)
def _all(n, leaves, groups, depth):
  if n == 0:
    return ((),)
  out = []
  for l in leaves:
    for rest in _all(n - 1, leaves, groups, depth):
      out.append((l,) + rest)
  if depth > 0:
    for inner_n in range(n):
      for inner in _all(inner_n, leaves, groups, depth - 1):
        for k in groups:
          for rest in _all(n - 1 - inner_n, leaves, groups, depth):
            out.append((("g", inner, k),) + rest)
  return tuple(out)


def _forests(n, leaves, groups, depth):
  if n == 0:
    yield []
    return
  for l in leaves:
    for rest in _all(n - 1, leaves, groups, depth):
      yield _thaw((l,) + rest)
  if depth > 0:
    for inner_n in range(n):
      for inner in _all(inner_n, leaves, groups, depth - 1):
        for k in groups:
          for rest in _all(n - 1 - inner_n, leaves, groups, depth):
            yield _thaw((("g", inner, k),) + rest)


def forests_upto(n, leaves, groups, max_depth=99):
  for k in range(n + 1):
    yield from forests(k, leaves, groups, max_depth)


def text(forest):
  out = []
  for n in forest:
    if isinstance(n, str):
      continue
    out.append(text(n[1]) if n[0] == "g" else n[1])
  return "".join(out)


def events(forest, path=()):
  """Flat bracketed form: ("open", kind) / ("close",) / leaf."""
  for n in forest:
    if not isinstance(n, str) and n[0] == "g":
      yield ("open", n[2])
      yield from events(n[1])
      yield ("close",)
    else:
      yield ("leaf", n)


def from_events(evs):
  stack = [[]]
  kinds = []
  for e in evs:
    if e[0] == "open":
      stack.append([])
      kinds.append(e[1])
    elif e[0] == "close":
      kids = stack.pop()
      stack[-1].append(["g", kids, kinds.pop()])
    else:
      stack[-1].append(e[1])
  return stack[0]


def size(forest):
  return sum(1 + (size(n[1]) if not isinstance(n, str) and n[0] == "g" else 0)
             for n in forest)
