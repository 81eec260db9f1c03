import itertools

from mc import annot
from mc import engine
from mc import wrapping

L = engine.Level
PARS = [(0.7, 5.0, 0.5), (0.25, 2.0, 0.25), (0.9, 0.5, 0.75)]
WEIGHTS = [[0.5, 0.25, 1.0, 2.0], [1e-5, 3e-6, 2e-5], [3e6, 1e6, 2e6],
           [2.0, 1.0, 0.0]]
CODE = ["", "a", "a\n", "f(x)", "f(y)\n", "a = b\n", "a = c", "if a:\n  b\n",
        "[a]", "'s t'", "# c\n", "b; a\n", "<&>", ")", "x.y"]
JAVA = ["", "a;", "a; b;", "f(x);", "{a;}", "a /*b*/", "\"a b\"", "x<y;\n"]


# what may stand before the cursor, and the samples
BEFORE = ["\u00e9 = ", "\u65e5\u672c\n", "a\r\n", "\t", "x\u2028y ", "<b>&\n",
          "\U0001f600\n", "\ufeffa\n", "q = 1\n" * 60, "w" * 300 + " = ",
          "if a:\n        b\n", "'\u00e9", "\\", "a\x00", "  \n\n", "\n"]
AFTER = ["a ", " a", "\u00e9\u00e8", "a\r\nb", "a\tb", "\U0001f600 a", "w" * 120,
         "a\x0cb", "f(\u00e9)", "a  \n\n", "'<&>\"' ", "\\\n", "a\u0301",
         "if a:\n        b\n", "1_000.5e3", "B\xdf", "a_b c"]
SETTINGS = [(1.0, 5.0, 0.5), (0.0, 5.0, 0.5), (0.7, 0.0, 0.5), (0.7, 60.0, 0.5),
            (0.5, 1.0, 0.0), (0.5, 1.0, 1.0), (0.999, 1e4, 0.001),
            (0.01, 0.001, 0.9), (0.55, 12.5, 0.35), (0.0, 0.0, 0.0)]
PARS += SETTINGS


def exotic(t):
  langs = ("python", "raw_simple_tokens", "java")
  for l, lang in enumerate(langs):
    for k, c in enumerate(BEFORE):
      for j, x in enumerate(AFTER):
        if t or (j + k + l) % 4 == 0:
          yield {"lang": lang, "ctx": c, "s": [x, AFTER[(j + k) % 7]], "i": 0,
                 "p": j % 2, "n": k % 2}
  # long samples
  for n in (12, 25):
    words = ["abcdefghijk"[i % 11] * (1 + i % 3) for i in range(n)]
    for cut in (0, 1, n // 2, n - 1, n):
      other = words[:cut] + ["z"] + words[cut + 1:]
      for lang in langs[:2 if n < 20 else 1]:
        yield {"lang": lang, "ctx": "x ", "s": [" ".join(words),
                                               " ".join(other)],
               "i": cut % 2, "p": 0, "n": 0}
  body = ["a = f(x)", "if a:", "  b = g(y)", "  c.d(e)", "return b"]
  for n in (2, 4, 8) if t else (2, 4):
    text = "\n".join(body * (n // 2)) + "\n"
    for new in ("", "a = h(x)\n"):
      yield {"lang": "python", "ctx": "def m():\n", "s": [text, new + text],
             "i": 0, "p": 0, "n": 1}
  for d in (3, 6):
    text = "[" * d + "a" + "]" * d
    for smp in (text, text[1:-1], "(" * d + "a" + ")" * d, "a"):
      yield {"lang": "python", "ctx": "x = ", "s": [text, smp], "i": 0, "p": 0,
             "n": 0}


def settings():
  menu = ["a b", "a", "c\n", "f(x)", "aaaaaaaa b"]
  for j in range(len(SETTINGS)):
    for x in menu:
      for y in menu:
        yield {"lang": "python", "ctx": "y\n", "s": [x, y], "i": j % 2,
               "p": j + len(PARS) - len(SETTINGS), "n": j % 2}


def crowds():
  for k in (9, 12, 17, 33, 40):
    for odd in range(0, k, max(1, k // 4)):
      smp = ["a b"] * k
      smp[odd] = "c"
      yield {"lang": "raw_simple_tokens", "ctx": "x ", "s": smp, "i": odd,
             "p": 0, "n": 0}
      yield {"lang": "raw_simple_tokens", "ctx": "x ", "s": smp, "i": odd - k,
             "p": 1, "n": 1}
    words = ["a", "b", "c", "d", "a b", "b c", "a c", "d a"]
    yield {"lang": "raw_simple_tokens", "ctx": "x ",
           "s": [words[i % 8] for i in range(k)], "i": 4, "p": 0, "n": 0}
    yield {"lang": "raw_simple_tokens", "ctx": "x ",
           "s": [words[i * i % 8] for i in range(k)], "i": -1, "p": 1, "n": 0}


class CHECK(engine.Check):
  """Every choice of context, samples, prototype and cost setting within the
  bounds is run end to end (parse, build the system, optimise, decode, report,
  display) and compared with brute force over all well-formed annotations of
  the prototype (states: runs, transitions: updates, traces: annotations)."""

  id = "C26"

  def prepare(self):
    wrapping.mods()
    for p in PARS:
      for nb in (False, True):
        wrapping.wrapper("regions", nb, *p)

  def levels(self):
    t = self.thorough

    def params():
      vals = [0.0, 0.001, 0.1, 0.25, 0.5, 0.7, 0.9, 0.999, 1.0]
      for p in vals:
        for s in vals:
          for hs in (0.0, 0.001, 0.5, 1.0, 5.0, 60.0, 1e4):
            yield {"par": [p, hs, s]}

    def tokens():
      words = [" ".join(w) for n in range(4 if t else 3)
               for w in itertools.product(("a", "bbb"), repeat=n)]
      for k in (1, 2, 3):
        use = words if k < 3 else words[:7]
        for smp in itertools.product(use, repeat=k):
          for i in range(k if k < 3 else 1):
            for j, p in enumerate(PARS if k < 3 or t else PARS[:1]):
              yield {"lang": "raw_simple_tokens", "ctx": "x ", "s": smp,
                     "i": i, "p": j, "n": (i + j) % 2}

    def code():
      for lang, menu in (("python", CODE), ("java", JAVA)):
        for context in ("", "y = ", "q\n") if t else ("y = ",):
          for x in menu:
            for y in menu:
              for j in range(3) if t else (0, 1):
                yield {"lang": lang, "ctx": context, "s": [x, y], "i": 0,
                       "p": j, "n": j % 2}

    def contexts():
      for lang, ctxs in (("python", ["", "f", "f(", "if a:\n", "if a:\n  ",
                                     "'s", "# c", "a\n\n", "x."]),
                         ("javascript", ["", "f", "{", "a;", "/* ", "\"s"]),
                         ("cpp", ["#in", "a<"])):
        for c in ctxs:
          for x in ("", "a", "b)", "b(c)\n", " t", "\n  b\n"):
            for y in ("a", "b(d)"):
              yield {"lang": lang, "ctx": c, "s": [x, y], "i": 0, "p": 0,
                     "n": 0}

    def three():
      menu = ["f(x)", "g(x)", "f(y)", "x", ""]
      for smp in itertools.product(menu, repeat=3):
        yield {"lang": "python", "ctx": "z\n", "s": smp, "i": 0, "p": 0,
               "n": 1}
      if t:
        for smp in itertools.product(menu, repeat=4):
          yield {"lang": "python", "ctx": "z\n", "s": smp, "i": 0, "p": 1,
                 "n": 1}

    def many():
      for k in (4, 5, 8):
        for smp in itertools.combinations_with_replacement(
            ("a b", "a", "b", "") if t or k == 4 else ("a b", "a", ""), k):
          for i in (0, k // 2, k - 1):
            yield {"lang": "raw_simple_tokens", "ctx": "x ", "s": smp, "i": i,
                   "p": k % 2, "n": i % 2}

      yield from crowds()

    return [
        L("exotic", "unusual characters, line ends, long texts before and "
          "behind the cursor", lambda: exotic(t)),
        L("settings", "extreme cost settings", settings),
        L("many", "4-40 short samples, three prototype choices, also counted "
          "from the end", many),
        L("params", "cost settings on a 9x9x7 grid", params),
        L("tokens", "1-3 samples of <=%d words" % (3 if t else 2), tokens),
        L("code", "pairs of Python / Java snippets", code),
        L("contexts", "cursor inside a token, bracket, string, comment",
          contexts),
        L("three", "three%s samples with calls" % (" or four" if t else ""),
          three),
    ]

  def run_case(self, case, ctx):
    if "par" in case:
      return self._params(case["par"], ctx)
    par = wrapping.rates(*PARS[case["p"]])
    wrap = wrapping.wrapper("regions", bool(case["n"]), *PARS[case["p"]])
    out = wrapping.check_combine(case, "regions", wrap, par, True, False,
                                 5000 if self.thorough else 500, ctx)
    if out:
      n = len(case["s"])
      small = len(annot.decisions(out[1])) <= 14
      wrapping.check_evaluation(
          wrap, *out, par, WEIGHTS if small and n < 4 else WEIGHTS[:1], ctx)

  def _params(self, par, ctx):
    p, hs, s = par
    got = wrapping.mods()["uw"].derive_uncertainty_region_costs(p, hs, s)
    exp = wrapping.rates(p, hs, s)
    g = dict(hm=got.high_confidence_match_utility_per_char,
             hd=got.high_confidence_delete_cost_per_char,
             lm=got.low_confidence_match_utility_per_char,
             ld=got.low_confidence_delete_cost_per_char,
             ins=got.insert_cost_per_char, reg=got.low_confidence_region_cost,
             hs=got.high_confidence_start_editing_cost,
             ls=got.low_confidence_start_editing_cost)
    for k in exp:
      engine.ensure(abs(g[k] - exp[k]) <= 1e-9 * (1 + abs(exp[k])),
                    f"cost parameter {k}", g[k], exp[k])
    # the break-even equation itself, for tokens of several lengths
    for n in (1, 2, 7):
      high = p * n * g["hm"] - (1 - p) * (n * g["hd"] + g["hs"])
      low = (p * n * g["lm"] - (1 - p) * (n * g["ld"] + g["ls"]) - g["reg"])
      engine.ensure(abs(high - low) <= 1e-9 * (1 + abs(hs)),
                    "expected utilities at the effective precision", high, low)
    ctx.count(states=1, traces=3)
    ctx.outcome(tuple(round(v, 6) for v in g.values()))
