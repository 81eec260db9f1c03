import itertools

from mc import engine
from mc import parsing
from ref import textutil

L = engine.Level
ALPHA = ["A", "a", "1", "_", ".", " ", "\t", "\n"]
EXOTIC = ["A", "a", "\u00c9", "\u00e9", "\u01c5", "\u00b2", "\u4e2d", "\u00a0",
          " ", "\r", "\U0001f600", "\u0663"]


class CHECK(engine.Check):
  """All words over one representative per character class up to the stated
  length, and all blank runs of 0..64 in every context, are cut by the real
  sub-tokeniser and by a boundary-predicate reference (the finite-state
  machine's states are visited by every word: states = characters consumed)."""

  id = "C07"

  def prepare(self):
    from r_u_sure.parsing import sequence_from_pseudo_parse as sf  # pylint: disable=g-import-not-at-top
    from r_u_sure.parsing import subtokenizer  # pylint: disable=g-import-not-at-top
    self.st = subtokenizer
    self.sf = sf

  def levels(self):
    n = 9 if self.thorough else 7
    m = 6 if self.thorough else 5

    def runs():
      ctxs = ["", "a", "A", "1", "#", "\n", "\t", " "]
      for pre, post, ch in itertools.product(ctxs, ctxs, " \t\n_aA1"):
        for k in range(0, 65 if self.thorough else 44):
          yield pre + ch * k + post

    def two_runs():
      for k1, k2, mid in itertools.product(
          range(17, 24), range(17, 44), ["\t", "\n", "x", "#", ""]):
        yield " " * k1 + mid + " " * k2
        yield "\t" * k1 + mid + " " * k2

    def batch(it, size=64):
      it = iter(it)
      while True:
        b = list(itertools.islice(it, size))
        if not b:
          return
        yield b

    def long():
      for pre, ch, post in itertools.product(
          ["", "a", "A", "1", "#", " "], " \t\n_aA1.\u00e9",
          ["", "a", "A", "1", "#", " ", "Ab"]):
        for k in (50, 64, 65, 80, 100, 127, 128, 129, 200, 256, 257, 500,
                  1000):
          yield pre + ch * k + post
      for unit in engine.words(ALPHA, 2, 3):
        for k in (12, 40, 150):
          yield "".join(unit) * k

    return [
        L("long", "runs of 50..1000 of one character in every context, long "
          "repetitions of all units of 2-3 characters", lambda: batch(long())),
        L("blanks", "all triples over all white-space characters and one of "
          "each other class",
          lambda: batch("".join(w) for w in engine.words(
              [chr(c) for c in parsing.SPECIAL if chr(c).isspace()]
              + ["A", "a", "1", "_", "\u200b"], 1, 3))),
        L("latin", "all pairs of Latin, white-space and sample characters",
          lambda: batch(chr(a) + chr(b) for a in parsing.SPECIAL
                        for b in parsing.SPECIAL)),
        L("words", f"all words of <={n} characters over 8 classes",
          lambda: batch("".join(w) for w in engine.words(ALPHA, 0, n))),
        L("exotic", f"all words of <={m} characters over 12 exotic ones",
          lambda: batch("".join(w) for w in engine.words(EXOTIC, 1, m))),
        L("runs", "all runs of one character in every context", lambda: batch(
            runs())),
        L("two-runs", "all pairs of blank runs around the limit",
          lambda: batch(two_runs())),
        L("single", "every single character of the basic plane, and after "
          "one of each class",
          lambda: batch(p + chr(c) for c in range(0xD800) for p in
                        ("", "A", "a", "1", "_", " "))),
    ]

  def run_case(self, case, ctx):
    for s in case:
      got = self.st.code_to_tokens_simple_lossless(s)
      engine.ensure(all(got), "empty piece for", repr(s), got)
      engine.same("".join(got), s, "pieces joined")
      engine.same(list(got), textutil.subtokens(s), f"pieces of {s!r}")
      nodes = self.sf.subtokenize_token(s)
      engine.same([(n.text_contents, n.match_type) for n in nodes],
                  [(p, "subtoken") for p in got], "sub-token nodes")
      ctx.count(states=len(s) + 1, transitions=len(s), traces=1)
      ctx.outcome(tuple(map(len, got)))
