import itertools
import math

from checks import c13
from checks import c28
from mc import annot
from mc import engine
from mc import trees
from mc import wrapping

L = engine.Level
INF = math.inf
LP = [-0.0625, -0.5, -1.75, 0.0, math.log(0.5), -1000.0, -1e-9, -20.0]
PAR = (0.7, 5.0, 0.5)
TP = (0.3, 0.7)
TP_EDGE = (0.0, 1e-6, 0.5, 1.0)
FR = (0.0, 0.3, 0.5, 1.0)
DEPTHS = ((1, 1), (2, 1), (1, 2), (3, 3))
PTOK = (0.0, 1e-6, 0.3, 0.5, 0.7, 0.9, 1.0)
PPRE = (0.0, 1e-6, 0.01, 0.1, 0.3, 0.5, 0.9, 1.0)
CHARS = (0, 1, 2, 3, 5, 8, 20, 50, 200)
LINES = (1, 2, 3, 9, 16)
DEEP = [("python", "x = [[[", "a]]] + b\n"), ("python", "", "[[[a]]]"),
        ("python", "", "[[a],b]"), ("java", "{{", "a;}b;}c;"),
        ("python", "if a:\n  if b:\n", "    c\n  d\ne\n"),
        ("python", "", "f(g(h(x)))"), ("python", "q\n", "\u00e9 = '\xdf'"),
        ("python", "a\r\n", "b\r\nc"), ("java", "", "{{{a;}}}"),
        ("raw_simple_tokens", "x ", "w" * 60 + " b"),
        ("raw_simple_tokens", "x ", "b " + "w" * 4000 + " cc"),
        ("python", "", "a\n" * 5), ("python", "z\n", "if a:\n  b\n"),
        ("python", "\u65e5\n", "f(\U0001f600, x)"), ("raw_simple_tokens", "", "  "),
        ("raw_simple_tokens", "", " ".join("abcdefg"))]
TEXTS = [("python", "y = ", "f(x)"), ("python", "", "a b"),
         ("python", "z\n", "a\nb\n"), ("python", "if a:\n", "  b\n  c\n"),
         ("raw_simple_tokens", "x ", "a bb"), ("raw_simple_tokens", "", "ab1"),
         ("python", "q", "qq r"), ("java", "", "a; b;"),
         ("java", "{\n", "a;\n\n}\n"), ("python", "x = [", "]\ny"),
         ("python", "x", ""), ("python", "x ", "'s t'"),
         ("python", "if a:\n  b", "\nc\n")]


def pieces(text, how):
  out, pos = [], 0
  for n in how:
    out.append(text[pos:pos + n])
    pos += n
  return out


def leaves(proto):
  """[(preorder index, kind t/d/X, text, depth)] in order."""
  return [(i, n if isinstance(n, str) else n[0],
           "" if isinstance(n, str) else n[1], d)
          for ev, i, n, d in annot.flat(proto) if ev == "leaf"]


def least(proto, flagged, par):
  """(tokens missed, cost) of the best annotation for the prototype itself:
  as a match is worth more than anything else, everything is kept."""
  best = {None: (0, 0.0)}
  for ev, i, n, depth in annot.flat(proto):
    if ev == "close":
      best.pop(depth, None)
    elif n == "S":
      missed, cost = best[None]
      best[depth] = min(best.get(depth, (INF, 0)), (missed, cost + par["reg"]))
    elif n == "E":
      best[None] = min(best[None], best.get(depth, (INF, 0)))
    elif ev == "leaf" and n[0] == "t":
      k = len(n[1])
      best = {r: (m + (i in flagged and r is None),
                  c - k * par["hm" if r is None else "lm"])
              for r, (m, c) in best.items()}
  return best[None]


class CHECK(engine.Check):
  """For every text, tokenisation by the model and probabilities within the
  bounds, every baseline is compared with its rule (prefix and call baselines
  exactly; region baselines with brute force over all annotations).  States:
  inputs, transitions: baselines, traces: annotations."""

  id = "C29"

  def prepare(self):
    m = wrapping.mods()
    self.m = m
    with wrapping.small_tables():
      self._wrappers(m)
    for nb in (False, True):
      wrapping.wrapper("calls", nb, 0.3)

  def _wrappers(self, m):
    self.uw = {nb: m["uw"].UncertaintyRegionsWrapper(
        *PAR, use_numba=nb, baseline_token_prob_thresholds=TP,
        baseline_example_fractions=FR, baseline_depth_cutoffs=DEPTHS)
               for nb in (False, True)}
    self.edge = m["uw"].UncertaintyRegionsWrapper(
        *PAR, use_numba=False, baseline_token_prob_thresholds=TP_EDGE,
        baseline_example_fractions=FR, baseline_depth_cutoffs=DEPTHS)
    self.pw = {nb: m["pw"].PrefixByEditDistanceWrapper(
        use_numba=nb, baseline_token_prob_thresholds=PTOK,
        baseline_prefix_prob_thresholds=PPRE, baseline_max_characters=CHARS,
        baseline_max_lines=LINES) for nb in (False, True)}
    self.pw["default"] = m["pw"].PrefixByEditDistanceWrapper(use_numba=False)
    self.pw["both"] = m["pw"].PrefixByEditDistanceWrapper(
        use_numba=False, also_insert_uncertainty_regions=True)

  def levels(self):
    t = self.thorough

    def probs(text, limit):
      n = len(text)
      hows = [[1] * n, [n] if n else []]
      if n > 2:
        hows.append([2] * (n // 2) + [1] * (n % 2))
      for how in hows:
        k = len(how)
        if k > limit:
          how = how[:limit - 1] + [sum(how[limit - 1:])]
          k = limit
        for w in itertools.product(range(3), repeat=k):
          yield how, list(w)

    def prefix():
      for lang, c, s in TEXTS:
        for how, w in probs(s, 6 if t else 5):
          yield {"k": "p", "l": lang, "c": c, "s": s, "h": how, "w": w}

    def tokenisations():
      for lang, c, s in TEXTS:
        for how in c13.compositions(len(s), 0):
          yield {"k": "p", "l": lang, "c": c, "s": s, "h": list(how),
                 "w": [2 - j % 3 for j in range(len(how))]}

    def long():
      # positions of one unlikely token, the place of the threshold
      for n in range(1, 40, 1 if t else 3):
        for j in range(0, n + 1, 1 if t else 2):
          s = " ".join("ab"[k % 2] for k in range(n))
          yield {"k": "p", "l": "python", "c": "x\n", "s": s,
                 "h": [1] * len(s),
                 "w": [2 if k == 2 * j else k // 2 % 2
                       for k in range(len(s))]}

    def regions():
      for lang, c, s in TEXTS:
        for how, w in probs(s, 5 if t else 3):
          yield {"k": "r", "l": lang, "c": c, "s": s, "h": how, "w": w}

    def calls():
      for a in c28.STMTS:
        for c in ("", "f\n"):
          yield {"k": "c", "c": c, "s": a + "\n"}
        for b in c28.STMTS:
          yield {"k": "c", "c": "z\n", "s": a + "\n" + b}

    def words():
      for n in range(1, 6 if t else 5):
        for w in itertools.product(c28.WORDS + ["# c", "\\\n", "'s'"],
                                   repeat=n):
          if "(" in w:
            yield {"k": "c", "c": "", "s": "".join(w)}

    def edges():
      for lang, c, s in TEXTS[:9]:
        n = len(s)
        for how in ([n], [1, n - 1], [1] * n):
          how = how if len(how) < 4 else how[:3] + [sum(how[3:])]
          for w in itertools.product(range(8), repeat=min(len(how), 3)):
            w = (list(w) * len(how))[:len(how)]
            yield {"k": "p", "l": lang, "c": c, "s": s, "h": how, "w": w}
            if how == [n] or len(set(w)) == 2 and 1 in w:
              yield {"k": "r", "l": lang, "c": c, "s": s, "h": how, "w": w,
                     "e": 1}

    def slope():
      # the same probability everywhere: where the rising threshold meets it
      for p in range(38, 84, 2):
        for n in (70,):
          yield {"k": "p", "l": "python", "c": "z\n",
                 "s": " ".join("ab"[k % 2] for k in range(n)),
                 "h": [1] * (2 * n - 1), "q": math.log(p / 100)}

    def deep():
      for lang, c, s in DEEP:
        n = len(s)
        for how in ([n], [1, n - 1], [n // 2, n - n // 2], [n - 1, 1]):
          for w in itertools.product(range(3), repeat=len(how)):
            yield {"k": "p", "l": lang, "c": c, "s": s, "h": how,
                   "w": list(w)}
            if len(how) == 1 or w[0] != w[1]:
              yield {"k": "r", "l": lang, "c": c, "s": s, "h": how,
                     "w": list(w)}

    def tall():
      # many lines, many characters
      for s in ("a\n", "ab\n\n", "abc d\n", "if a:\n  b\n"):
        for lang in ("python", "java"):
          for n in (4, 9, 10, 17, 20) if t else (9, 17):
            x = s * n
            yield {"k": "p", "l": lang, "c": "z\n", "s": x, "h": [len(x)],
                   "w": [0]}
      for n in (19, 20, 21, 49, 50, 51, 199, 200, 201):
        yield {"k": "p", "l": "python", "c": "z\n", "s": "w" * n + " b c",
               "h": [n, 4], "w": [0, 1]}
        yield {"k": "p", "l": "python", "c": "z\n", "s": "a b " * (n // 2),
               "h": [4 * (n // 2)], "w": [0]}

    return [
        L("edges", "probabilities at, just below and far from a threshold",
          edges),
        L("slope", "one probability for up to 70 tokens", slope),
        L("deep", "nested, long and unusual texts", deep),
        L("tall", "many lines, many characters", tall),
        L("prefix", "texts x regular tokenisations x all probabilities",
          prefix),
        L("tokenisations", "texts x all tokenisations", tokenisations),
        L("long", "up to 39 tokens, one unlikely token anywhere", long),
        L("regions", "texts x regular tokenisations x all probabilities",
          regions),
        L("calls", "pairs of statements with calls", calls),
        L("words", "texts of <=%d words" % (5 if t else 4), words),
    ]

  def run_case(self, case, ctx):
    if case["k"] == "c":
      return self._calls(case, ctx)
    if "q" in case:
      case["w"] = [0] * len(case["h"])
      model = [(x, 0.0 if x == " " else case["q"])
               for x in pieces(case["s"], case["h"])]
      return self._prefix(case, model, ctx)
    model = list(zip(pieces(case["s"], case["h"]),
                     [LP[i] for i in case["w"]]))
    if case["k"] == "p":
      self._prefix(case, model, ctx)
    else:
      self._regions(case, model, ctx)

  def aligned(self, proto, model):
    """{preorder index: log probability} by the model's position."""
    ref = c13.Model([t for t, _ in model])
    ref.left = list(model)
    out = {}
    for i, k, text, _ in leaves(proto):
      if k == "t":
        out[i] = ref.advance(len(text))[1]
      elif k == "d":
        ref.advance(len(text))
    return out

  # ------------------------------------------------------------- prefixes

  def _exits(self, proto, model):
    """{baseline name: preorder index of the exit or None}."""
    ls = leaves(proto)
    lp = self.aligned(proto, model)

    def cut(low):
      """Last exit in front of the first low token, else the first behind."""
      last, due = None, False
      for i, k, text, _ in ls:
        if k == "X":
          if due:
            return i
          last = i
        elif k == "t" and text and low(i):
          if last is not None:
            return last
          due = True
      return None

    def cumulative(thr):
      total = [0.0]

      def low(i):
        total[0] += lp[i]
        return math.exp(total[0]) < thr
      return low

    def intellicode():
      count = [0]

      def low(i):
        r = 0.8 / (1 + math.exp(-count[0] / 10))
        count[0] += 1
        return math.exp(lp[i]) < r
      return low

    def after(reached):
      """First exit after a condition on the text so far is met."""
      chars = lines = 0
      for i, k, text, _ in ls:
        if k == "X" and reached(chars, lines):
          return i
        if k == "t":
          chars += len(text)
        elif k == "d":
          lines += "\n" in text
      return None

    def chars_after(n):
      # the limit has to be reached by a token
      seen = False
      chars = 0
      for i, k, text, _ in ls:
        if k == "X" and seen:
          return i
        if k == "t":
          chars += len(text)
          seen = seen or chars >= n
      return None

    out = {}
    for thr in PTOK:
      out[f"prob_threshold_{thr}"] = cut(lambda i, thr=thr: math.exp(lp[i]) <
                                         thr)
    for thr in PPRE:
      out[f"prefix_prob_threshold_{thr}"] = cut(cumulative(thr))
    out["intellicode"] = cut(intellicode())
    best = None
    total, n = 0.0, 0
    for i, k, text, _ in ls:
      if k == "X" and n and (best is None or total / n > best[0]):
        best = (total / n, i)
      elif k == "t" and text:
        total += lp[i]
        n += 1
    out["max_avg_log_prob"] = best and best[1]
    for n in CHARS:
      out[f"character_length_{n}"] = chars_after(n)
    for n in LINES:
      out[f"line_length_{n}"] = after(lambda c, l, n=n: l >= n)
    return out

  def _prefix(self, case, model, ctx):
    m = self.m
    proto = wrapping.proto_of(case["l"], case["c"], case["s"], False, True)
    exp = self._exits(proto, model)
    nb = bool(len(case["w"]) % 2)
    runner = m["dr"].DemoRunner(self.pw[nb], language=case["l"])
    before = list(model)
    got = runner.build_baselines(case["c"], model)
    engine.same(model, before, "model tokens afterwards")
    engine.same(sorted(got), sorted(exp), "names of the baselines")
    xs = [i for i, k, _, _ in leaves(proto) if k == "X"]
    for name, cut in exp.items():
      a = annot.unreal_assign(got[name].assignment_map)
      want = {}
      for i in xs:
        want[i, "X"] = ("F" if cut is None or i < cut else
                        "T" if i == cut else "-")
      engine.same(a, want, f"baseline {name}")
      parts = got[name].solution_info["extracted_parts"]
      engine.ensure(all(not r for _, r in parts), "regions in a baseline")
      engine.same("".join(t for t, _ in parts),
                  "".join(t for i, k, t, _ in leaves(proto)
                          if cut is None or i < cut), f"text of {name}")
    ctx.count(states=1, transitions=len(exp))
    ctx.outcome(tuple(sorted((k, v) for k, v in exp.items() if v is not None)
                      )[:6])
    if len(case["w"]) <= 3:
      for w, none in ((self.pw["both"], True), (self.pw["default"], False)):
        r = m["dr"].DemoRunner(w, language=case["l"]).build_baselines(
            case["c"], model)
        if none:
          engine.same(r, {}, "baselines with regions")
        else:
          for name in set(exp) & set(r):
            engine.same(annot.unreal_assign(r[name].assignment_map),
                        annot.unreal_assign(got[name].assignment_map),
                        f"baseline {name} with default settings")
          for x in (0.0, 0.3, 0.5, 0.7, 0.9):
            engine.ensure(f"prob_threshold_{x}" in r, "default baselines")

  # -------------------------------------------------------------- regions

  def _flagged(self, proto, model, thresholds):
    ls = leaves(proto)
    lp = self.aligned(proto, model)
    toks = [(i, text, d) for i, k, text, d in ls if k == "t"]
    out = {}
    for thr in thresholds:
      out[f"prob_threshold_{thr}_nonempty"] = {
          i for i, text, _ in toks if text and math.exp(lp[i]) < thr}
      total, flagged = 0.0, set()
      for i, text, _ in toks:
        total += lp[i]
        if text and math.exp(total) < thr:
          flagged.add(i)
      out[f"prob_threshold_{thr}_cumulative"] = flagged
    size = sum(len(text) for _, k, text, _ in ls)
    for fr in FR:
      pos, flagged = 0, set()
      for i, k, text, _ in ls:
        pos += len(text)
        if k == "t" and text and pos > fr * size:
          flagged.add(i)
      out[f"example_fraction_{fr}"] = flagged
    for anc, child in DEPTHS:
      d0 = toks[0][2] if toks else 0
      out[f"cutoff_anc_{anc}_child_{child}"] = {
          i for i, _, d in toks if d <= d0 - anc or d >= d0 + child}
    return out

  def _regions(self, case, model, ctx):
    m = self.m
    proto = wrapping.proto_of(case["l"], case["c"], case["s"], True, False)
    target = wrapping.ref.truncate(
        wrapping.parse(case["l"], case["c"] + case["s"]), len(case["c"]))
    par = wrapping.rates(*PAR)
    nb = bool(len(case["w"]) % 2)
    exp = self._flagged(proto, model, TP_EDGE if "e" in case else TP)
    got = m["dr"].DemoRunner(
        self.edge if "e" in case else self.uw[nb],
        language=case["l"]).build_baselines(case["c"], model)
    engine.same(sorted(got), sorted(exp), "names of the baselines")
    cap = 20000 if self.thorough else 400
    key = (case["l"], case["c"], case["s"])
    if key not in _cache:
      anns = []
      for n, (b, _) in enumerate(annot.annotations(proto, nested=True)):
        if n >= cap:
          anns = None
          break
        anns.append((annot.edit_cost(proto, target, b, par), b))
      _cache.clear()
      _cache[key] = anns
    anns = _cache[key]
    for name, flagged in exp.items():
      a = annot.unreal_assign(got[name].assignment_map)
      parts = got[name].solution_info["extracted_parts"]
      engine.same([(t, bool(r)) for t, r in parts],
                  [(t or "", r) for t, r, _ in annot.shown(proto, a)],
                  "extracted parts")
      engine.ensure(annot.well_formed(proto, a),
                    "baseline is not a well-formed annotation")
      best = least(proto, flagged, par)
      engine.same(sum(a[i, "N"] != "T" for i in flagged), best[0],
                  f"{name}: tokens missed")
      engine.close(annot.edit_cost(proto, target, a, par), best[1],
                   f"{name}: cost for the prototype itself")
      if anns is not None:
        self._best(a, flagged, anns, name)
    ctx.count(states=1, transitions=len(exp),
              traces=len(anns) if anns else 0)
    if anns is not None and len(case["w"]) <= 2:
      self._direct(case, model, proto, anns, got, nb, ctx)
    ctx.outcome(tuple(len(v) for v in exp.values()))

  def _direct(self, case, model, proto, anns, got, nb, ctx):
    """The builder itself: options the wrapper does not use."""
    any_result = next(iter(got.values()))
    builder = self.m["uw"].UncertaintyRegionsBaselineBuilder(
        wrapper=self.uw[nb], prototype=any_result.packed_prototype,
        prototype_suggestion_as_target=any_result.packed_prototype_as_target,
        context_info=any_result.context_info, model_tokens_and_log_probs=model)
    for bad in ((0, 1), (1, 0), (-1, -1)):
      try:
        builder.baseline_assignment_from_depth_cutoff(*bad)
      except ValueError:
        continue
      raise engine.Violation(f"depth cut-offs {bad} accepted")
    lp = self.aligned(proto, model)
    for cumulative in (False, True):
      total, flagged = 0.0, set()
      for i, k, _, _ in leaves(proto):
        if k == "t":
          total = total + lp[i] if cumulative else lp[i]
          if math.exp(total) < 0.7:
            flagged.add(i)
      a = annot.unreal_assign(
          builder.baseline_assignment_from_token_probabilities(
              0.7, only_constrain_nonempty=False, cumulative=cumulative))
      self._best(a, flagged, anns, "all tokens below the threshold")
    for n in (0, 1, 2):
      pos, flagged = 0, set()
      for i, k, text, _ in leaves(proto):
        pos += len(text)
        if k == "t" and text and pos > n:
          flagged.add(i)
      a = annot.unreal_assign(
          builder.baseline_assignment_from_character_offset(n))
      self._best(a, flagged, anns, f"tokens after {n} characters")
    ctx.count(transitions=5)

  def _best(self, a, flagged, anns, what):
    mine = [c for c, b in anns if b == a]
    engine.ensure(mine, f"{what}: not a well-formed annotation", a)
    best = min((sum(b[i, "N"] != "T" for i in flagged), c) for c, b in anns)
    engine.same(sum(a[i, "N"] != "T" for i in flagged), best[0],
                f"{what}: tokens missed")
    engine.close(mine[0], best[1], f"{what}: cost for the prototype itself")

  # ---------------------------------------------------------------- calls

  def _calls(self, case, ctx):
    m = self.m
    text = case["c"] + case["s"]
    proto = c28.view(text, len(case["c"]))
    w = wrapping.wrapper("calls", bool(len(text) % 2), 0.3)
    got = m["dr"].DemoRunner(w, language="python").build_baselines(
        case["c"], [(case["s"], -1.0)])
    full, short, novel = set(), set(), set()
    pos = 0
    for n in proto:
      if n[0] != "g":
        pos += 1
        continue
      kids = n[1]
      at = [pos + 1 + k for k in range(len(kids))]
      full |= {at[0], at[-1]}
      end = len(kids) - 4
      # the short form starts after the last decoration before the bracket,
      # at the first start it allows there
      last = max((k for k in range(end) if kids[k][0] == "d"), default=-1)
      start = next(k for k in range(last + 1, end) if kids[k] == "S")
      short |= {at[start], at[end]}
      if any(kids[k][0] == "t" and kids[k][2] == "NOVEL"
             for k in range(last + 1, end)):
        novel |= {at[start], at[end]}
      pos += 1 + len(kids)
    exp = {"all_calls_full": full, "all_calls_shorter": short,
           "novel_calls_shorter": novel}
    engine.same(sorted(got), sorted(exp), "names of the baselines")
    for name, chosen in exp.items():
      inside = False
      want = {}
      for i, k, _, _ in leaves(proto):
        if k == "S":
          want[i, "S"] = "T" if i in chosen else "-" if inside else "F"
          inside = inside or i in chosen
        elif k == "E":
          want[i, "E"] = "T" if i in chosen else "F" if inside else "-"
          inside = inside and i not in chosen
      a = annot.unreal_assign(got[name].assignment_map)
      engine.same(a, want, f"baseline {name}")
      engine.same([(t, bool(r)) for t, r in
                   got[name].solution_info["extracted_parts"]],
                  [(t or "", r) for t, r, _ in annot.shown(proto, want)],
                  f"parts of {name}")
    ctx.count(states=1, transitions=3)
    ctx.outcome((len(full), len(novel)))


_cache = {}
