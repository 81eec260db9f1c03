"""Annotations (regions, early exit) of prototypes: reference semantics.

Assignments are {(preorder index, "S"|"E"|"N"|"X"): "T"|"F"|"-"} where "-" is
"not applicable".
"""
import math

from mc import engine
from mc import trees

INF = math.inf


def is_group(n):
  return not isinstance(n, str) and n[0] == "g"


def flat(forest):
  """[(event, preorder index, node, depth)] with open/close for groups."""
  out = []
  counter = [0]

  def rec(seq, depth):
    for n in seq:
      i = counter[0]
      counter[0] += 1
      if is_group(n):
        out.append(("open", i, n, depth))
        rec(n[1], depth + 1)
        out.append(("close", i, n, depth + 1))
      else:
        out.append(("leaf", i, n, depth))

  rec(forest, 0)
  return out


def decisions(forest):
  """All decision keys in depth-first order."""
  out = []
  for ev, i, n, _ in flat(forest):
    if ev == "open":
      out.append((i, "N"))
    elif ev == "leaf":
      if n in ("S", "E", "X"):
        out.append((i, n))
      elif n[0] == "t":
        out.append((i, "N"))
  return out


def annotations(forest, nested):
  """All consistent annotations.

  nested=True: a region ends in the sequence in which it started (what the
  constraint diagram demands); nested=False: only the order of the decisions
  matters (what the edit diagram can see).
  """
  evs = flat(forest)
  keys = decisions(forest)

  def rec(k, region, acc):
    # region: None or the depth at which it started
    if k == len(evs):
      if region is None:
        yield dict(acc), False
      return
    ev, i, n, depth = evs[k]
    if ev == "close":
      if nested and region is not None and region == depth:
        return
      yield from rec(k + 1, region, acc)
    elif ev == "open" or n not in ("S", "E", "X"):
      if ev == "leaf" and n[0] == "d":
        yield from rec(k + 1, region, acc)
      else:
        v = "F" if region is None else "T"
        yield from rec(k + 1, region, acc + [((i, "N"), v)])
    elif n == "S":
      if region is None:
        yield from rec(k + 1, None, acc + [((i, "S"), "F")])
        yield from rec(k + 1, depth, acc + [((i, "S"), "T")])
      else:
        yield from rec(k + 1, region, acc + [((i, "S"), "-")])
    elif n == "E":
      if region is None:
        yield from rec(k + 1, None, acc + [((i, "E"), "-")])
      else:
        yield from rec(k + 1, region, acc + [((i, "E"), "F")])
        if not nested or region == depth:
          yield from rec(k + 1, None, acc + [((i, "E"), "T")])
    else:
      yield from rec(k + 1, region, acc + [((i, "X"), "F")])
      yield dict(acc + [((i, "X"), "T")]), True

  for a, exited in rec(0, None, []):
    yield {key: a.get(key, "-") for key in keys}, exited


def well_formed(forest, assign):
  """Is it one of annotations(forest, nested=True)?"""
  region, exited = None, False
  want = {}
  for ev, i, n, depth in flat(forest):
    kind = n if ev == "leaf" and isinstance(n, str) else "N"
    if ev == "leaf" and not isinstance(n, str) and n[0] != "t":
      continue
    if ev == "close":
      if region == depth and not exited:
        return False
      continue
    got = assign.get((i, kind))
    if exited:
      want[i, kind] = "-"
    elif kind == "N":
      want[i, kind] = "F" if region is None else "T"
    elif kind == "S":
      want[i, kind] = ("-" if region is not None else
                       "T" if got == "T" else "F")
      if want[i, kind] == "T":
        region = depth
    elif kind == "E":
      ends = region == depth and got == "T"
      want[i, kind] = "-" if region is None else "T" if ends else "F"
      if ends:
        region = None
    else:
      exited = got == "T"
      want[i, kind] = "T" if exited else "F"
  return assign == want and (region is None or exited)


def simple(forest):
  """Annotations with at most one region or one exit."""
  evs = flat(forest)
  keys = decisions(forest)
  spots = [(i, n, d) for ev, i, n, d in evs
           if ev == "leaf" and isinstance(n, str)]

  def make(start, end, leave):
    out = dict.fromkeys(keys, "-")
    for i, k in keys:
      if leave is not None and i > leave:
        continue
      inside = start is not None and start < i < end
      if k == "N":
        out[i, k] = "T" if inside else "F"
      elif k == "S":
        out[i, k] = "T" if i == start else "-" if inside else "F"
      elif k == "E":
        out[i, k] = "T" if i == end else "F" if inside else "-"
      else:
        out[i, k] = "T" if i == leave else "F"
    return out

  yield make(None, None, None)
  for i, n, d in spots:
    if n == "X":
      yield make(None, None, i)
    if n == "S":
      for j, e, f in spots:
        if e == "E" and j > i and d == f:
          a = make(i, j, None)
          if well_formed(forest, a):
            yield a


def shown(forest, assign):
  """[(text, in region, is token)] plus ("", True, None) for empty regions."""
  out = []
  region = False
  empty = False
  for ev, i, n, _ in flat(forest):
    if ev != "leaf":
      continue
    if n == "S":
      if assign[i, "S"] == "T":
        region = empty = True
    elif n == "E":
      if assign[i, "E"] == "T":
        if empty:
          out.append((None, True, None))
        region = empty = False
    elif n == "X":
      if assign[i, "X"] == "T":
        break
    else:
      out.append((n[1], region, n[0] == "t"))
      empty = False
  return out


# ------------------------------------------------------------- real objects

_m = {}


def mods():
  if not _m:
    import numba  # pylint: disable=g-import-not-at-top
    from r_u_sure.decision_diagrams import gated_state_dag  # pylint: disable=g-import-not-at-top
    from r_u_sure.decision_diagrams import packed_dags  # pylint: disable=g-import-not-at-top
    from r_u_sure.edit_distance_utility import constraint_dags  # pylint: disable=g-import-not-at-top
    from r_u_sure.edit_distance_utility import edit_dags  # pylint: disable=g-import-not-at-top
    from r_u_sure.edit_distance_utility import region_decisions  # pylint: disable=g-import-not-at-top
    from r_u_sure.wrappers import parser_tools  # pylint: disable=g-import-not-at-top
    _m.update(numba=numba, g=gated_state_dag, pd=packed_dags,
              cd=constraint_dags, ed=edit_dags, rd=region_decisions,
              pt=parser_tools)
    rd = region_decisions
    _m["cat"] = {
        "S": rd.DecisionCategory.REGION_SHOULD_START,
        "E": rd.DecisionCategory.REGION_SHOULD_END,
        "N": rd.DecisionCategory.NODE_IN_REGION,
        "X": rd.DecisionCategory.SHOULD_EARLY_EXIT}
    _m["val"] = {"T": rd.DecisionValue.TRUE, "F": rd.DecisionValue.FALSE,
                 "-": rd.DecisionValue.NOT_APPLICABLE}
    _m["uncat"] = {v: k for k, v in _m["cat"].items()}
    _m["unval"] = {v: k for k, v in _m["val"].items()}
  return _m


def pack(forest, typed=False):
  return mods()["pt"].pack_sequence_from_pseudoparser(
      trees.to_real(forest), typed)


def real_key(k):
  m = mods()
  return m["rd"].DecisionKey(k[0], m["cat"][k[1]])


def real_assign(assign):
  m = mods()
  return {real_key(k): m["val"][v] for k, v in assign.items()}


def unreal_assign(assign):
  m = mods()
  return {(k.prototype_preorder_index, m["uncat"][k.category]): m["unval"][v]
          for k, v in assign.items()}


def costs_of_raw(dag, keys, want_mult=False):
  """{assignment tuple over keys: cheapest cost} from the raw edges."""
  m = mods()
  best = {dag.initial_state: {(): 0.0}}
  for e in dag.edges:
    src = best.get(e.source)
    if not src or e.cost == INF:
      continue
    slot = best.setdefault(e.dest, {})
    if e.required_assignment is None:
      add = ()
    else:
      k, v = e.required_assignment
      add = (((k.prototype_preorder_index, m["uncat"][k.category]),
              m["unval"][v]),)
    for a, c in src.items():
      a2, c2 = a + add, c + float(e.cost)
      if c2 < slot.get(a2, INF):
        slot[a2] = c2
  out = {}
  index = {k: i for i, k in enumerate(keys)}
  for a, c in best.get(dag.final_state, {}).items():
    row = ["-"] * len(keys)
    last = -1
    for k, v in a:
      if k not in index:
        raise engine.Violation(f"unknown decision {k} on a path")
      if index[k] <= last:
        raise engine.Violation(f"decision {k} out of order on a path")
      last = index[k]
      row[index[k]] = v
    t = tuple(row)
    out[t] = min(out.get(t, INF), c)
  return out


def costs_of_packed(packed, conv, keys):
  m = mods()
  from mc import packing  # pylint: disable=g-import-not-at-top
  got = packing.bellman(packed)
  ks = [(k.prototype_preorder_index, m["uncat"][k.category])
        for k in conv.variable_keys]
  vs = [m["unval"][v] for v in conv.variable_values]
  out = {}
  for a, c in got.items():
    row = dict(zip(ks, (vs[i] for i in a)))
    out[tuple(row.get(k, "-") for k in keys)] = c
  if not all(k in keys for k in ks):
    raise engine.Violation("unknown decisions in the packed diagram")
  return out


def compare_tables(got, exp, what):
  if set(got) != set(exp):
    extra = sorted(set(got) - set(exp))[:2]
    missing = sorted(set(exp) - set(got))[:2]
    raise engine.Violation(
        f"{what}: accepted but ill-formed {extra}; well-formed but rejected "
        f"{missing}")
  for a, c in exp.items():
    near(got[a], c, f"{what}: cost of {a}")


def near(a, e, what):
  """All rates are sums of few powers of two, so that sums are exact."""
  a, e = float(a), float(e)
  if a != e and not abs(a - e) <= 1e-12 * max(abs(a), abs(e)):
    raise engine.Violation(f"{what}: got {a!r}, expected {e!r}")


# ------------------------------------------------------------ edit reference


def edit_cost(proto, target, assign, par):
  """Optimal edit cost of one annotation.

  par: dict hm, hd, lm, ld, ins, reg, hs, ls (rates per character, cost per
  region, cost of starting to edit in high / low confidence).
  """
  target = strip(target)
  low = [False]
  exited = [False]
  matches = {}

  def resolve(seq, start):
    """Prototype nodes with their confidence; stops at the exit."""
    out = []
    i = start
    for n in seq:
      if exited[0]:
        break
      if is_group(n):
        kids, j = resolve(n[1], i + 1)
        out.append(("g", n[2], kids, exited[0]))
        i = j
      elif n == "S":
        if assign[i, "S"] == "T":
          low[0] = True
          out.append(("ctl", True, par["reg"]))
        i += 1
      elif n == "E":
        if assign[i, "E"] == "T":
          low[0] = False
          out.append(("ctl", False, 0.0))
        i += 1
      elif n == "X":
        if assign[i, "X"] == "T":
          exited[0] = True
          out.append(("exit",))
        i += 1
      else:
        if n[0] == "t":
          out.append(("t", n[1], n[2], low[0]))
        i += 1
    return out, i

  p, _ = resolve(proto, 0)

  def delete(n):
    if n[0] == "t":
      return len(n[1]) * (par["ld"] if n[3] else par["hd"])
    if n[0] == "g":
      return sum(delete(k) for k in n[2])
    if n[0] == "ctl":
      return n[2]
    return 0.0

  def insert(n):
    if n[0] == "t":
      return len(n[1]) * par["ins"]
    return sum(insert(k) for k in n[1])

  def align(p, t, low):
    """p: resolved nodes, low: confidence in front of them."""
    memo = {}

    def conf_at(i):
      c = low
      for n in p[:i]:
        if n[0] == "ctl":
          c = n[1]
        elif n[0] == "g":
          c = last_conf(n[2], c)
      return c

    def last_conf(seq, c):
      for n in seq:
        if n[0] == "ctl":
          c = n[1]
        elif n[0] == "g":
          c = last_conf(n[2], c)
      return c

    def rate(c):
      return par["ls"] if c else par["hs"]

    def after_match(i, j):
      if (i, j) in memo:
        return memo[i, j]
      best = INF
      # the gap in the prototype is p[i:i2]
      for i2 in range(i, len(p) + 1):
        gap = p[i:i2]
        if any(n[0] == "exit" for n in gap[:-1]):
          break
        first = next((k for k, n in enumerate(gap)
                      if n[0] in ("t", "g")), None)
        dcost = sum(delete(n) for n in gap)
        upto = len(gap) if first is None else first
        start = min(rate(conf_at(i + k)) for k in range(upto + 1))
        if gap and (gap[-1][0] == "exit"
                    or (gap[-1][0] == "g" and gap[-1][3])):
          best = min(best, dcost + (0.0 if first is None else start))
          continue
        for j2 in range(j, len(t) + 1):
          icost = sum(insert(n) for n in t[j:j2])
          c = dcost + icost
          if first is not None or j2 > j:
            c += start
          if i2 == len(p) and j2 == len(t):
            best = min(best, c)
          elif i2 < len(p) and j2 < len(t):
            m = match(p[i2], t[j2], conf_at(i2))
            if m is None:
              continue
            if p[i2][0] == "g" and p[i2][3]:
              best = min(best, c + m)
            else:
              best = min(best, c + m + after_match(i2 + 1, j2 + 1))
      memo[i, j] = best
      return best

    return after_match(0, 0)

  def match(n, m, low):
    if n[0] == "t" and m[0] == "t" and n[1] == m[1] and n[2] == m[2]:
      return -len(n[1]) * (par["lm"] if n[3] else par["hm"])
    if n[0] == "g" and m[0] == "g" and n[1] == m[2]:
      slot = (id(n), id(m), low)
      if slot not in matches:
        matches[slot] = align(n[2], m[1], low)
      return matches[slot]
    return None

  return align(p, target, False)


def strip(seq):
  """Removes decorations (and decision nodes) of a target."""
  out = []
  for n in seq:
    if is_group(n):
      out.append(["g", strip(n[1]), n[2]])
    elif not isinstance(n, str) and n[0] == "t":
      out.append(n)
  return out


def real_params(par):
  ed = mods()["ed"]
  return ed.TrustRegionUtilityParameters(
      high_confidence_match_utility_per_char=par["hm"],
      high_confidence_delete_cost_per_char=par["hd"],
      low_confidence_match_utility_per_char=par["lm"],
      low_confidence_delete_cost_per_char=par["ld"],
      insert_cost_per_char=par["ins"],
      low_confidence_region_cost=par["reg"],
      high_confidence_start_editing_cost=par["hs"],
      low_confidence_start_editing_cost=par["ls"])


PARAMS = [
    dict(hm=1.0, hd=1.375, lm=0.625, ld=0.25, ins=0.0625, reg=0.75, hs=0.5,
         ls=0.125),
    dict(hm=1.0, hd=0.5, lm=0.75, ld=0.125, ins=0.3125, reg=0.03125,
         hs=0.25, ls=1.5),
    dict(hm=0.5, hd=0.0, lm=2.0, ld=3.0, ins=1.0, reg=5.0, hs=0.0, ls=0.0),
]


RATES = [
    {k: v * 2.0 ** -30 for k, v in PARAMS[0].items()},
    {k: v * 2.0 ** 20 for k, v in PARAMS[1].items()},
    dict(PARAMS[0], reg=200.0), dict(PARAMS[0], reg=2.0 ** -20),
    dict(PARAMS[0], reg=0.0), dict(PARAMS[0], reg=-0.5),
    dict(PARAMS[0], hs=128.0, ls=2.0 ** -10),
    dict(PARAMS[0], hs=2.0 ** -12, ls=128.0),
    dict(hm=512.0, hd=512.0, lm=512.0, ld=512.0, ins=512.0, reg=0.5,
         hs=2.0 ** -12, ls=128.0),
    dict(hm=512.0, hd=512.0, lm=512.0, ld=512.0, ins=512.0, reg=0.5,
         hs=128.0, ls=2.0 ** -12),
    dict(PARAMS[1], ins=128.0), dict(PARAMS[1], ins=0.0),
    dict(PARAMS[1], ins=2.0 ** -15), dict(PARAMS[1], ins=-0.25),
    dict(PARAMS[0], hm=0.0, lm=0.0), dict(PARAMS[0], hd=0.0, ld=0.0),
    dict(PARAMS[0], hd=256.0, ld=2.0 ** -14),
    dict(PARAMS[0], hm=-0.5, lm=256.0), dict(PARAMS[0], hd=-1.0, ld=-2.0),
]


def rate_pairs(par):
  """Few pairs under every extreme set of rates."""
  a, b = ["t", "a", None], ["t", "bbb", None]
  protos = ([a, b], ["S", a, "E", b], ["S", a, b, "E"], [a, "X", b],
            [a, "S", b, "X", "E", a], [["g", [a, "S", b, "E"], None], a])
  targets = ([], [a], [b, a], [a, b], [NEW], [["g", [b], None], a],
             [a, NEW, b])
  for p in protos:
    for q in targets:
      for r in range(len(RATES)):
        yield [p, q, dict(par, rates=r)]


# --------------------------------------------------------- longer families

WORD = [["t", x, None] for x in ("a", "bb", "ccc", "d", "ee", "f", "gg")]
NEW = ["t", "zz", None]


def long_prototypes(n, exits=True):
  """n different tokens with one region, or one exit, or two regions, at every
  place, flat and with every neighbouring pair grouped."""
  base = WORD[:n]
  for i in range(n + 1):
    for j in range(i, n + 1):
      yield base[:i] + ["S"] + base[i:j] + ["E"] + base[j:]
    if exits:
      yield base[:i] + ["X"] + base[i:]
  for i in range(n - 1):
    g = ["g", base[i:i + 2], "k"]
    yield base[:i] + [g] + base[i + 2:]
    yield base[:i] + ["S", g, "E"] + base[i + 2:]
    yield base[:i] + [["g", ["S", base[i], "E", base[i + 1]], "k"]] + (
        base[i + 2:])
  for i in range(1, n):
    yield ["S"] + base[:i] + ["E", "S"] + base[i:] + ["E"]


def long_targets(n):
  """All subsequences of the n tokens; one swap; one insertion; one group."""
  base = WORD[:n]
  for mask in range(2 ** n):
    yield [x for i, x in enumerate(base) if mask >> i & 1]
  for i in range(n - 1):
    yield base[:i] + [base[i + 1], base[i]] + base[i + 2:]
    yield base[:i] + [["g", base[i:i + 2], "k"]] + base[i + 2:]
  for i in range(n + 1):
    yield base[:i] + [NEW] + base[i:]


TEXTS = ["", "a", "A", "aa", "a.", "\u00e9", "e\u0301", "\u00df", "ss", "\t",
         "0", "00", "x" * 25, "x" * 24 + "y", "X" * 25, "q" * 300, "a\r",
         "a\r\n", "a\n", "\U0001f600", "q" * 1030, "q" * 1029 + "r"]
KINDS = [None, "", "k", "K", "kk"]


def text_pairs(blank=True):
  """Pairs of one-token sequences over all pairs of texts and over all pairs of
  kinds, alone, in a region, in a group and beside another token."""
  texts = TEXTS + ([" ", " a", "a ", "\n"] if blank else [])
  pairs = [(["t", x, "k"], ["t", y, "k"]) for x in texts for y in texts]
  pairs += [(["t", x, j], ["t", x, k]) for x in ("a", "")
            for j in KINDS for k in KINDS]
  pairs += [(["g", c, j], ["g", c, k]) for c in ([], [["t", "a", None]])
            for j in KINDS for k in KINDS]
  o = ["t", "oo", None]
  for x, y in pairs:
    yield [[x], [y]]
    yield [["S", x, "E"], [y]]
    yield [[["g", [x], None]], [["g", [y], None]]]
    yield [["S", x, o, "E"], [o, y, x]]


def tower(d, mark=None, at=-1, drop=-1):
  """Nested groups of depth d, a token on either side at every level."""
  out = [["t", "x", None]]
  for k in range(d, -1, -1):
    left, right = ["t", "l", None], ["t", "rr", None]
    seq = ([left] if drop != 2 * k else []) + out + (
        [right] if drop != 2 * k + 1 else [])
    if k == at:
      seq = {"SE": ["S"] + seq + ["E"], "X": seq + ["X"],
             "S-": ["S"] + seq, "mid": [seq[0], "S"] + seq[1:] + ["E"],
             "G": [["g", seq, "k"]]}[mark]
    out = seq if k == 0 else [["g", seq, None]]
  return out


def far(ns):
  """Many plain tokens in front of, around or between the decision points."""
  for n in ns:
    w = [["t", "ab"[i % 2] * (1 + i % 3), None] for i in range(n)]
    g = [["g", w, None]]
    yield w + ["S", WORD[2], "E"]
    yield w + ["X", WORD[2]]
    yield w + [["g", ["S", WORD[2], "E"], None]]
    yield g + ["S", WORD[2], "E"]
    yield ["S"] + w + ["E", WORD[2]]
    yield ["S"] + g + ["E", "X"]
    yield [["g", w + ["S", WORD[2], "E"], None], "X"]
    yield [["g", [WORD[0]], None]] * n + ["S", WORD[2], "E", WORD[3]]
    yield [["d", " "], WORD[0]] * n + ["S", WORD[2], "E", ["d", " "]]


def bundles(sizes):
  """Groups of very different sizes against one another."""
  def g(n, kind):
    return ["g", [["t", "ab"[i % 2], None] for i in range(n)], kind]
  for n in sizes:
    for m in sizes:
      for p in ([g(n, "k")], ["S", g(n, "k"), "E"],
                [["g", ["S"] + g(n, 0)[1] + ["E"], "k"]]):
        for q in ([g(m, "k")], [g(m, None)], g(m, 0)[1],
                  [g(m, "k"), g(n, "k")]):
          yield [p, q]


def flat_pairs(ns):
  """Long flat sequences of different tokens, shifted against one another."""
  for n in ns:
    w = [f"t{i}" + "x" * (i % 3) for i in range(n)]
    new = [f"n{i}" for i in range(n)]
    for k in sorted({1, 2, n // 4, n // 2, n - 1} - {0}):
      yield w, w[k:]
      yield w, w[:n - k]
      yield w, new[:k] + w
      yield w, w + new[:k]
      yield w, w[:n // 2] + new[:k] + w[n // 2:]
      yield w[k:], w
      yield w, w[k:] + w[:k]
      yield w[:k] * (n // k), w[:k] * (n // k - 1)
    yield w, w[::-1]
    yield w, w[::2]
    yield w[1::2], w
    yield w, [x for p in zip(w, new) for x in p]
    yield w, []


def flat_cost(p, q, low, par):
  """Optimal cost for two sequences of tokens, the first one entirely outside
  of (or inside) one region."""
  m, d, s = ((par["lm"], par["ld"], par["ls"]) if low else
             (par["hm"], par["hd"], par["hs"]))
  ins = par["ins"]
  np_, nq = len(p), len(q)
  done = {}
  for i in range(np_, -1, -1):
    for j in range(nq, -1, -1):
      both = INF
      if i < np_ and j < nq and p[i] == q[j]:
        both = done[i + 1, j + 1][0] - m * len(p[i])
      gap = 0.0 if (i, j) == (np_, nq) else INF
      gap = min(gap, both)
      if i < np_:
        gap = min(gap, done[i + 1, j][1] + d * len(p[i]))
      if j < nq:
        gap = min(gap, done[i, j + 1][1] + ins * len(q[j]))
      free = 0.0 if (i, j) == (np_, nq) else INF
      # before the start and behind the end of the region, its outside counts
      start = min(s, par["hs"]) if i in (0, np_) else s
      done[i, j] = (min(free, both, start + gap), gap)
  return done[0, 0][0] + (par["reg"] if low else 0.0)


def towers(depths):
  for d in depths:
    yield tower(d)
    for at in range(d + 1):
      for mark in ("SE", "X", "mid"):
        yield tower(d, mark, at)


def tower_pairs(depths):
  for d in depths:
    targets = [tower(d, drop=k) for k in range(-1, 2 * d + 2)]
    targets += [tower(d, "G", at) for at in range(d + 1)]
    for p in towers([d]):
      for q in targets:
        yield [p, q]
