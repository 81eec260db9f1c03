import itertools

from checks import c26
from mc import annot
from mc import engine
from mc import wrapping

L = engine.Level
# start-editing cost, regions as well?, precision, sensitivity
PARS = [(0.0, False, 0.7, 0.5), (2.0, False, 0.3, 0.25),
        (1.0, True, 0.7, 0.5), (0.25, True, 0.25, 0.75)]
SETTINGS = [(60.0, False, 0.7, 0.5), (0.001, False, 1.0, 0.0),
            (1e4, False, 0.0, 1.0), (0.0, True, 1.0, 0.5),
            (60.0, True, 0.0, 0.5), (0.001, True, 0.55, 1.0),
            (12.5, True, 0.999, 0.001)]
PARS += SETTINGS
CODE = ["", "a", "a\n", "f(x)", "f(y)\n", "a = b\n", "a = c", "if a:\n  b\n",
        "[a]", "'s t'", "# c\n", "b; a\n", "<&>", ")", "x.y"]


class CHECK(engine.Check):
  """Every choice of context, samples, prototype and cost setting within the
  bounds is run end to end and compared with brute force over every permitted
  exit (and, where regions are allowed too, every annotation) of the prototype
  (states: runs, transitions: updates, traces: annotations)."""

  id = "C27"

  def prepare(self):
    wrapping.mods()
    for p in PARS:
      for nb in (False, True):
        wrapping.wrapper("prefix", nb, *p)

  def levels(self):
    t = self.thorough

    def tokens():
      words = [" ".join(w) for n in range(5 if t else 4)
               for w in itertools.product(("a", "bbb"), repeat=n)]
      for k in (1, 2):
        for smp in itertools.product(words, repeat=k):
          for j in (0, 1):
            yield {"lang": "raw_simple_tokens", "ctx": "x ", "s": smp,
                   "i": k - 1, "p": j, "n": j}
      for smp in itertools.product(words[:7], repeat=3):
        for i in range(3):
          yield {"lang": "raw_simple_tokens", "ctx": "", "s": smp, "i": i,
                 "p": i % 2, "n": i % 2}

    def long():
      # prefixes of one text against different continuations of it
      for n in range(1, 9 if t else 7):
        base = ["a", "bb", "a", "c", "bbb", "a", "d", "e"][:n]
        for cut in range(n + 1):
          for tail in ([], ["z"], ["z", "a"]):
            for reps in (1, 2, 3):
              smp = [" ".join(base)] + [" ".join(base[:cut] + tail)] * reps
              yield {"lang": "raw_simple_tokens", "ctx": "x ", "s": smp,
                     "i": 0, "p": n % 2, "n": 0}

    def code():
      for context in ("", "y = ", "if a:\n  "):
        for ix, x in enumerate(CODE):
          for iy, y in enumerate(CODE):
            for j in (0, 1) if t else ((ix + iy) % 2,):
              yield {"lang": "python", "ctx": context, "s": [x, y], "i": 0,
                     "p": j, "n": j}

    def both():
      words = [" ".join(w) for n in range(4 if t else 3)
               for w in itertools.product(("a", "bbb"), repeat=n)]
      for smp in itertools.product(words, repeat=2):
        for j in (2, 3):
          for c in ("x ", ""):
            yield {"lang": "raw_simple_tokens", "ctx": c, "s": smp, "i": 0,
                   "p": j, "n": j % 2}
      for x in ("a", "f(x)", "a = b", "b; a\n"):
        for y in ("a", "f(y)", "b"):
          for c in ("y = ", "", "z\n", "f("):
            yield {"lang": "python", "ctx": c, "s": [x, y], "i": 0, "p": 2,
                   "n": 0}

    def many():
      for k in (4, 5, 8):
        for smp in itertools.combinations_with_replacement(
            ("a b", "a", "b", "") if t or k == 4 else ("a b", "a", ""), k):
          for i in (0, k // 2, k - 1):
            yield {"lang": "raw_simple_tokens", "ctx": "x ", "s": smp, "i": i,
                   "p": k % 2, "n": i % 2}

      yield from c26.crowds()

    def settings():
      menu = ["a b", "a", "c\n", "f(x)", "aaaaaaaa b"]
      for j in range(len(SETTINGS)):
        for x in menu:
          for y in menu:
            yield {"lang": "python", "ctx": "y\n", "s": [x, y], "i": j % 2,
                   "p": j + len(PARS) - len(SETTINGS), "n": j % 2}

    return [
        L("exotic", "unusual characters, line ends, long texts before and "
          "behind the cursor", lambda: c26.exotic(t)),
        L("settings", "extreme cost settings", settings),
        L("many", "4-40 short samples, three prototype choices, also counted "
          "from the end", many),
        L("tokens", "1-3 samples of <=%d words" % (4 if t else 3), tokens),
        L("long", "a text of <=%d words against continuations of its prefixes"
          % (8 if t else 6), long),
        L("code", "pairs of Python snippets, three contexts", code),
        L("both", "exits and regions together", both),
    ]

  def run_case(self, case, ctx):
    hs, also, p, s = PARS[case["p"]]
    par = wrapping.rates(p, hs, s)
    wrap = wrapping.wrapper("prefix", bool(case["n"]), *PARS[case["p"]])
    out = wrapping.check_combine(case, "prefix", wrap, par, also, True,
                                 5000 if self.thorough else 1000, ctx)
    if out:
      n = len(case["s"])
      small = len(annot.decisions(out[1])) <= 14
      wrapping.check_evaluation(
          wrap, *out, par,
          c26.WEIGHTS if small and n < 4 else c26.WEIGHTS[:1], ctx)
