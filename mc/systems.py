"""Small systems of decision diagrams and their brute-force costs."""
import itertools
import math

from mc import dags
from mc import engine
from mc import packing

INF = math.inf
VALUES = ["-", "a", "b"]

_m = {}


def mods():
  if not _m:
    import numba  # pylint: disable=g-import-not-at-top
    import numpy as np  # pylint: disable=g-import-not-at-top
    from r_u_sure.decision_diagrams import consistent_path_dual_solver as s  # pylint: disable=g-import-not-at-top
    from r_u_sure.decision_diagrams import packed_dags as pd  # pylint: disable=g-import-not-at-top
    _m.update(numba=numba, np=np, s=s, pd=pd)
    _m["fast"], _m["cast"] = pd.make_specialized_fn__convert_dag_to_packed(
        example_state=0, example_variable_key=0, example_variable_value="a",
        example_info=0, with_numba=True)
  return _m


def scaled(d, unit):
  return dict(d, edges=[
      [e[0], e[1], e[2] if e[2] == "inf" else e[2] * unit, e[3], e[4]]
      for e in d["edges"]])


UNITS = [2.0 ** -30, 2.0 ** 40, 1 / 3]


def units(it, which=None):
  for c in it:
    for u in which or UNITS:
      yield dict(c, unit=u)


def fine():
  """Costs that differ only slightly, or in very different magnitudes."""
  e = 2.0 ** -30
  menu = [[1, 1 + e, 1 + 2 * e, 1 - e], [e, 0, 2 * e, 5 * e],
          [1e6, 1e6 + e, 1e6 - 1, 1e6 + 1], [1e-4, 2e-4, 0, 1e-5],
          [0, 1e9, 1e-6, 1], [0.1, 0.2, 0.3, 0.7], [-e, e, -1e-5, 0]]
  for a, b in itertools.product(menu, repeat=2):
    yield {"dags": [table2(0, 1, a), table2(0, 1, b[::-1])], "finest": True}
    yield {"dags": [table2(0, 1, a), unary(0, b[:2]), unary(1, b[2:])],
           "finest": True}
    yield {"dags": [table2(0, 1, a), table2(1, 2, b), table2(0, 2, a[::-1])],
           "weights": [0.3, 1e-3, 70.0], "finest": True}


def many(ns=(21, 33, 65)):
  """Many diagrams sharing a few decisions."""
  for n in ns:
    yield {"dags": [unary(k % 2, [k % 4, (7 * k + 1) % 5])
                    for k in range(n)]}
    yield {"dags": [table2(0, 1, [k % 3, (5 * k) % 4, (3 * k) % 5, k % 2])
                    for k in range(n)]}
    yield {"dags": [table2(0, 1 + k % 3, [k % 3, (5 * k) % 4, (3 * k) % 5, 1])
                    for k in range(n)],
           "weights": [1.0 / (k + 1) for k in range(n)]}


def unary(k, costs):
  return {"n": 2, "edges": [[0, 1, c, k, v] for v, c in zip("ab", costs)
                            if c != "inf"]}


def table2(i, j, costs, base=0):
  """costs for (aa, ab, ba, bb) of decisions i < j."""
  edges, n = [], 1
  rows = {"a": costs[:2], "b": costs[2:]}
  for v, row in rows.items():
    if all(c == "inf" for c in row):
      continue
    edges.append([0, n, base, i, v])
    for w, c in zip("ab", row):
      if c != "inf":
        edges.append([n, None, c, j, w])
    n += 1
  for e in edges:
    if e[1] is None:
      e[1] = n
  return {"n": n + 1, "edges": sorted(edges, key=lambda e: e[0])}


def tables2(i, j, menu):
  for costs in itertools.product(menu, repeat=4):
    if any(c != "inf" for c in costs):
      yield table2(i, j, costs)


class System:
  """The real system with its brute-force joint costs."""

  def __init__(self, case, fast=False):
    m = mods()
    self.np, self.s, self.pd = m["np"], m["s"], m["pd"]
    self.case = case
    conv = []
    # all costs in units: tolerances are relative to the unit
    self.unit = case.get("unit", 1.0)
    if self.unit != 1.0:
      case = self.case = dict(case, dags=[scaled(d, self.unit)
                                          for d in case["dags"]])
    for d in case["dags"]:
      real = dags.to_real(d)
      if fast:
        conv.append(m["fast"](m["cast"](real), "-",
                              m["numba"].typed.List(VALUES)))
      else:
        conv.append(self.pd.convert_dag_to_packed(real, "-", VALUES))
    w = case.get("weights")
    if w is not None:
      w = self.np.array(w, dtype=self.np.float64)
    self.system = self.s.make_system(conv, w)
    self.keys = sorted({k for d in case["dags"] for k in dags.keys_of(d)})
    engine.same(list(self.system.variable_keys), self.keys, "decisions")
    engine.same(list(self.system.variable_values), VALUES, "values")
    self.dag_keys = [dags.keys_of(d) for d in case["dags"]]
    self.tables = []
    for d, ks in zip(case["dags"], self.dag_keys):
      self.tables.append(packing.reference(d, ks, VALUES, "-"))
    # the largest cost in the system, to judge rounding errors by
    self.magnitude = max([abs(e[2]) for d in case["dags"] for e in d["edges"]
                          if e[2] != "inf"] + [self.unit])
    self.magnitude *= len(case["dags"]) * 4
    self.assignments = list(itertools.product(range(3),
                                              repeat=len(self.keys)))
    self.joint = {a: self.dag_sum(a) for a in self.assignments}
    self.opt = min(self.joint.values(), default=INF)

  def sub(self, d, a):
    return tuple(a[self.keys.index(k)] for k in self.dag_keys[d])

  def dag_sum(self, a):
    return sum(self.tables[d].get(self.sub(d, a), INF)
               for d in range(len(self.tables)))


def dag_costs(sysm, data):
  """Per diagram {sub assignment: cost + current penalties}."""
  out = []
  for d, t in enumerate(sysm.tables):
    pen = data.dag_tables[d].penalties
    row = {}
    for a, c in t.items():
      row[a] = c + sum(float(pen[i, v]) for i, v in enumerate(a))
    out.append(row)
  return out


def bound(costs):
  return sum(min(t.values(), default=INF) for t in costs)


def marginals(sysm, costs, var):
  """Sum over diagrams of the min-marginals of one decision."""
  out = []
  for v in range(3):
    tot = 0.0
    for d, t in enumerate(costs):
      if sysm.keys[var] in sysm.dag_keys[d]:
        i = sysm.dag_keys[d].index(sysm.keys[var])
        tot += min([c for a, c in t.items() if a[i] == v], default=INF)
      else:
        tot += min(t.values(), default=INF)
    out.append(tot)
  return out


def snapshot(data):
  return tuple(
      (m.penalties.tobytes(),) for m in data.dag_tables
  ) + (data.extra_unary_costs.tobytes(),
       data.dag_variable_index_map.tobytes(),
       data.dag_update_proportions.tobytes())


TOL = 1e-11


def slack(sysm, *values):
  """Rounding allowance for sums of costs of about these magnitudes."""
  return TOL * max([sysm.magnitude] + [abs(v) for v in values
                                       if math.isfinite(v)])


def close_inf(sysm, a, b, what):
  a, b = float(a), float(b)
  if a == b:
    return
  if math.isnan(a) or math.isinf(a) or math.isinf(b):
    raise engine.Violation(f"{what}: got {a!r}, expected {b!r}")
  if abs(a - b) > slack(sysm, a, b):
    raise engine.Violation(f"{what}: got {a!r}, expected {b!r}")


# ------------------------------------------------------------------- spaces

MENU = [0, 3, "inf"]


def pairs_two(thorough):
  """Two diagrams over the same two decisions, arbitrary cost tables."""
  all_t = list(tables2(0, 1, [0, 3, "inf"]))
  if thorough:
    for x, y in itertools.product(all_t, repeat=2):
      yield {"dags": [x, y]}
    return
  some = [table2(0, 1, c) for c in (
      [0, 3, 3, 0], [1, 0, 0, 1], [0, "inf", "inf", 0],
      ["inf", 0, 0, "inf"], [0, 2, 4, 6], ["inf", "inf", 1, 2],
      [5, 1, "inf", 0], [-2, 0, 1, -3])]
  for x in all_t:
    for y in some:
      yield {"dags": [x, y]}


def partial_mentions(thorough):
  """Diagrams that mention different decisions and skip some on some paths."""
  skip = {"n": 3, "edges": [[0, 1, 1, 0, "a"], [0, 2, 4, None, None],
                            [1, 2, 0, 1, "b"], [1, 2, 2, None, None]]}
  skip2 = {"n": 3, "edges": [[0, 1, 1, 0, "b"], [0, 1, 0, None, None],
                             [1, 2, 3, 1, "a"], [1, 2, 5, 1, "-"]]}
  plain = {"n": 2, "edges": [[0, 1, 7, None, None]]}
  none_then = {"n": 3, "edges": [[0, 1, 0, 0, "-"], [0, 1, 2, 0, "a"],
                                 [1, 2, 0, 2, "b"], [1, 2, -1, 2, "a"]]}
  menu = [skip, skip2, plain, none_then, unary(0, [1, 2]), unary(1, [5, 0]),
          unary(2, [0, "inf"]), table2(0, 1, [0, 3, 3, 0]),
          table2(1, 2, [1, 0, 0, 1]), table2(0, 2, [2, "inf", 0, 1])]
  for x in menu:
    yield {"dags": [x]}
  for x, y in itertools.product(menu, repeat=2):
    yield {"dags": [x, y]}
    yield {"dags": [x, y], "weights": [0.25, 3.0]}
  for x, y, z in (itertools.product(menu, repeat=3) if thorough else
                  itertools.combinations(menu, 3)):
    yield {"dags": [x, y, z]}
    yield {"dags": [x, y, z], "weights": [1.0, 0.5, 0.125]}


def cycles(thorough):
  """Three decisions in a cycle of pairwise tables (duality gaps occur)."""
  menu = [[0, 1, 1, 0], [1, 0, 0, 1], [0, "inf", "inf", 0],
          ["inf", 0, 0, "inf"], [0, 4, 2, 1], [3, "inf", 0, 1]]
  if thorough:
    menu += [[0, 0, 0, "inf"], ["inf", 1, 1, "inf"], [-1, 2, -3, 4],
             [0, 5, 5, 5]]
  for a, b, c in itertools.product(menu, repeat=3):
    yield {"dags": [table2(0, 1, a), table2(1, 2, b), table2(0, 2, c)]}


def wide(thorough):
  """Systems of four to six decisions: chains, stars, many diagrams."""
  pats = [[0, 1, 1, 0], [0, 4, 2, 1], [3, "inf", 0, 1], [-2, 5, 0, -1]]
  for n in (4, 5, 6) if thorough else (4, 5):
    for i, pat in enumerate(pats):
      other = pats[(i + 1) % 4]
      chain = [table2(k, k + 1, pat if k % 2 else other)
               for k in range(n - 1)]
      star = [table2(0, k, other if k % 2 else pat) for k in range(1, n)]
      un = [unary(k, [k % 3, (2 * k) % 5]) for k in range(n)]
      yield {"dags": chain}
      yield {"dags": chain[::-1] + un}
      yield {"dags": star + un[::-1]}
      yield {"dags": chain + star,
             "weights": [1.0 / (k + 1) for k in range(2 * n - 2)]}
      ladder = {"n": n + 1, "edges": []}
      for k in range(n):
        ladder["edges"] += [[k, k + 1, (3 * k) % 4, k, "a"],
                            [k, k + 1, (k * k) % 5, k, "b"],
                            [k, k + 1, 2, None, None]]
      yield {"dags": [ladder] + un}
      yield {"dags": [ladder, ladder] + chain}
  # one decision shared by many diagrams
  for m in (5, 9, 17):
    yield {"dags": [unary(k % 3, [k % 4, (7 * k) % 5]) for k in range(m)]}
