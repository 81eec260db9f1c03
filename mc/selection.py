"""Part selection: the selected parts and the best way to find them."""
from mc import annot

INF = annot.INF


def steps(forest):
  """The in-order walk without decorations: (preorder index, item)."""
  for ev, i, n, _ in annot.flat(forest):
    if ev == "open":
      yield i, ("(", n[2])
    elif ev == "close":
      yield i, (")", n[2])
    elif isinstance(n, str):
      yield i, n
    elif n[0] == "t":
      yield i, ("t", n[1], n[2])


def parts(proto, assign):
  """The selected parts as lists of walk items."""
  out = []
  cur = None
  for i, s in steps(proto):
    if s == "S":
      if assign[i, "S"] == "T":
        cur = []
    elif s == "E":
      if assign[i, "E"] == "T":
        out.append(cur)
        cur = None
    elif cur is not None:
      cur.append(s)
  return out


def best_cost(proto, target, assign, reward):
  """reward(text, kind) -> (match utility, deletion cost)."""
  return min(c for c, _ in outcomes(proto, target, assign, reward,
                                    lambda part, hit: ()))


def outcomes(proto, target, assign, reward, note):
  """[(cost, concatenated notes)] of the best ways to place the parts; one for
  each distinct sequence of notes."""
  tg = [s for _, s in steps(target)]
  best = {(0, ()): 0.0}  # (first free position in the target, notes) -> cost

  def put(d, k, c):
    if c < d.get(k, INF):
      d[k] = c

  for part in parts(proto, assign):
    toks = [s for s in part if s[0] == "t"]
    hit = -sum(reward(s[1], s[2])[0] for s in toks)
    miss = sum(reward(s[1], s[2])[1] for s in toks)
    new = {}
    for (pos, notes), c in best.items():
      put(new, (pos, notes + note(part, False)), c + miss)
      for j in range(pos, len(tg) - len(part) + 1):
        if tg[j:j + len(part)] == part:
          put(new, (j + len(part), notes + note(part, True)), c + hit)
    best = new
  out = {}
  for (_, notes), c in best.items():
    put(out, notes, c)
  return [(c, n) for n, c in out.items()]
