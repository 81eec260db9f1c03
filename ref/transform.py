"""Reference tree transforms on the flat event form of mc.trees."""
from mc import trees


def is_group(n):
  return not isinstance(n, str) and n[0] == "g"


def is_token(n):
  return not isinstance(n, str) and n[0] == "t"


def flatten(forest):
  return [e[1] for e in trees.events(forest) if e[0] == "leaf"]


def flatten_singletons(forest):
  out = []
  for n in forest:
    kinds = []
    while is_group(n) and len(n[1]) == 1 and (
        is_group(n[1][0]) or is_token(n[1][0])):
      kinds.append(n[2])
      n = n[1][0]
    if is_group(n):
      out.append(["g", flatten_singletons(n[1]), kinds + [n[2]]])
    elif is_token(n):
      out.append(["t", n[1], kinds + [n[2]]])
    else:
      out.append(n)
  return out


def strip(forest):
  return trees.from_events(
      e for e in trees.events(forest)
      if not (e[0] == "leaf" and isinstance(e[1], str)))


def early_exit(forest, within, at_start):
  out = [("leaf", "X")] if at_start else []
  depth = 0
  for e in trees.events(forest):
    out.append(e)
    depth += (e[0] == "open") - (e[0] == "close")
    ends_node = e[0] == "close" or (e[0] == "leaf" and is_token(e[1]))
    if ends_node and (within or depth == 0):
      out.append(("leaf", "X"))
  return trees.from_events(out)


def regions(forest, allow_empty, accepts):
  """accepts(node) decides whether a node may start/end a region."""
  out = []
  for n in forest:
    if is_group(n):
      new = ["g", regions(n[1], allow_empty, accepts), n[2]]
    else:
      new = n
    if (is_group(n) or is_token(n)) and accepts(n):
      out += (["S", "E"] if allow_empty else ["S"]) + [new, "E"]
    else:
      out.append(new)
  return out + (["S", "E"] if allow_empty else [])


def single_regions(forest):
  out = []
  for e in trees.events(forest):
    if e[0] == "leaf" and not is_token(e[1]):
      out.append(e)
      continue
    pre = [("open", "region_scope"), ("leaf", "S")]
    post = [("leaf", "E"), ("close",)]
    if e[0] == "open":
      out += pre + [e]
    elif e[0] == "close":
      out += [e] + post
    else:
      out += pre + [e] + post
  return trees.from_events(out)


def unscope(forest):
  """Removes decision nodes and region_scope groups."""
  out = []
  for n in forest:
    if isinstance(n, str):
      continue
    if is_group(n):
      inner = unscope(n[1])
      if n[2] == "region_scope":
        out += inner
      else:
        out.append(["g", inner, n[2]])
    else:
      out.append(n)
  return out


def truncate(forest, offset):
  """Cuts at the first text leaf whose end reaches the offset."""
  evs = list(trees.events(forest))
  pos = 0
  cut = None
  for i, e in enumerate(evs):
    if e[0] == "leaf" and not isinstance(e[1], str):
      pos += len(e[1][1])
      if pos >= offset:
        cut = i
        break
  if cut is None:
    return []
  opens = []
  for e in evs[:cut]:
    if e[0] == "open":
      opens.append(e)
    elif e[0] == "close":
      opens.pop()
  leaf = list(evs[cut][1])
  keep = pos - offset
  middle = []
  if keep:
    leaf[1] = leaf[1][len(leaf[1]) - keep:]
    middle = [("leaf", leaf)]
  return trees.from_events(opens + middle + evs[cut + 1:])
