"""Small decision diagrams: enumeration, real objects, brute force.

A diagram is {"n": states, "edges": [[src, dst, cost, key, value], ...]} with
initial state 0 and final state n-1; key/value null for plain edges; cost is a
number or "inf".
"""
import itertools
import math

_g = None


def gsd():
  global _g
  if _g is None:
    from r_u_sure.decision_diagrams import gated_state_dag  # pylint: disable=g-import-not-at-top
    _g = gated_state_dag
  return _g


def cost_of(c):
  return math.inf if c == "inf" else float(c)


class Colliding:
  """A state whose hash is the same for all (or few) values."""

  def __init__(self, i, h):
    self.i, self.h = i, h

  def __hash__(self):
    return self.h

  def __eq__(self, other):
    return isinstance(other, Colliding) and other.i == self.i

  def __repr__(self):
    return f"Colliding({self.i})"


STATE_KINDS = {
    "int": lambda i: i,
    "tuple": lambda i: ("s", -i),
    "collide": lambda i: Colliding(i, 7),
    "halfcollide": lambda i: Colliding(i, -(i % 2) - 5),
    "spread": lambda i: 97 * i + 1000,
    "signed": lambda i: (i // 2) * (1 - 2 * (i % 2)) - i % 2,
}


def to_real(case, state=lambda i: i, info=lambda k: k, cls=list):
  g = gsd()
  edges = cls()
  for k, (s, d, c, key, val) in enumerate(case["edges"]):
    req = None
    if key is not None:
      req = g.SharedVariableAssignment(key, val)
    edges.append(g.Edge(state(s), state(d), cost_of(c), req, info(k)))
  return g.CompleteStateDAG(state(0), edges, state(case["n"] - 1))


def finite_edges(case):
  return [(k, e) for k, e in enumerate(case["edges"]) if e[2] != "inf"]


def live_edges(case):
  """Indices of edges on some finite complete path (by search, any order)."""
  fin = finite_edges(case)
  n = case["n"]
  fwd, bwd = {0}, {n - 1}
  grew = True
  while grew:
    grew = False
    for _, (s, d, *_r) in fin:
      if s in fwd and d not in fwd:
        fwd.add(d)
        grew = True
      if d in bwd and s not in bwd:
        bwd.add(s)
        grew = True
  return [k for k, (s, d, *_r) in fin if s in fwd and d in bwd], fwd


def paths(case):
  """All complete finite paths as tuples of edge indices."""
  out = {}
  for k, (s, d, *_r) in finite_edges(case):
    out.setdefault(s, []).append((k, d))
  res = []

  def rec(s, path):
    if s == case["n"] - 1:
      res.append(tuple(path))
      # a final state may have outgoing edges in malformed diagrams
    for k, d in out.get(s, []):
      rec(d, path + [k])

  rec(0, [])
  return res


def path_cost(case, path):
  return sum(cost_of(case["edges"][k][2]) for k in path)


def path_assignment(case, path):
  out = {}
  for k in path:
    _, _, _, key, val = case["edges"][k]
    if key is not None:
      out[key] = val
  return out


def keys_of(case):
  return sorted({e[3] for e in case["edges"] if e[3] is not None})


def assignment_costs(case, keys, values, missing):
  """{complete assignment tuple: cheapest cost} over the given keys/values."""
  table = {}
  for p in paths(case):
    a = path_assignment(case, p)
    t = tuple(a.get(k, missing) for k in keys)
    c = path_cost(case, p)
    table[t] = min(table.get(t, math.inf), c)
  del values
  return table


def ordered_ok(case):
  """Every path mentions keys in strictly increasing order."""
  for p in paths(case):
    ks = [case["edges"][k][3] for k in p if case["edges"][k][3] is not None]
    if any(a >= b for a, b in zip(ks, ks[1:])):
      return False
  return True


def all_dags(n, labels, max_parallel=1, pairs=None, orders=("src",)):
  """All diagrams on n states: for each pair i<j a multiset of labels."""
  if pairs is None:
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
  menus = []
  for _ in pairs:
    menu = [()]
    for m in range(1, max_parallel + 1):
      menu += list(itertools.combinations(range(len(labels)), m))
    menus.append(menu)
  for choice in itertools.product(*menus):
    edges = []
    for (i, j), sel in zip(pairs, choice):
      for l in sel:
        edges.append([i, j] + list(labels[l]))
    for order in orders:
      if order == "src":
        es = sorted(edges, key=lambda e: e[0])
      elif order == "dst":
        es = sorted(edges, key=lambda e: e[1])
      else:  # "late": by destination, later sources first
        es = sorted(edges, key=lambda e: (e[1], -e[0]))
      yield {"n": n, "edges": [list(e) for e in es]}
