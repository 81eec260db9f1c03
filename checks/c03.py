import itertools

from mc import engine
from mc import parsing
from ref import parser as ref_parser

L = engine.Level
BR = ["a", "(", ")", "[", "]", "{", "}"]
PAIRS = [("(", ")"), ("[", "]"), ("{", "}")]


def pairs_of(tree, out):
  if tree[0] == "paired":
    out.append((tree[1], tree[2] - 1))
  for c in tree[3]:
    pairs_of(c, out)
  return out


class CHECK(parsing.ParserCheck):
  """All bracket words up to the stated length, as raw token sequences (texts
  and integer ids, all subsets of bracket kinds) for the repair and matching
  functions, strict and tolerant, and as program text in every language, also
  with newlines, indentation, literals and separators in between. The model is
  a push-down automaton (states: words, transitions: tokens)."""

  id = "C03"

  def levels(self):
    d = 1 if self.thorough else 0

    def text_words(alpha, lo, hi, languages):
      for w in engine.words(alpha, lo, hi):
        for language in languages:
          yield ["text", language, "".join(w)]

    return [
        L("tokens", f"all sequences of <={6 + d} tokens over 3 bracket kinds",
          lambda: (["tok", w, 3] for w in engine.words(BR, 0, 6 + d))),
        L("kinds", "all sequences of <=5 tokens, 1 or 2 declared bracket kinds",
          lambda: (["tok", w, k] for k in (1, 2)
                   for w in engine.words(BR, 0, 5))),
        L("two-kinds", f"all sequences of <={8 + d} tokens over 2 kinds",
          lambda: (["tok", w, 2] for w in engine.words(BR[1:5], 7, 8 + d))),
        L("text", f"all bracket texts of <={5 + d} symbols, 6 languages",
          lambda: text_words(BR, 1, 5 + d, parsing.LANGS)),
        L("mixed", f"all texts of <={5 + d} brackets, newlines, indents, "
          "literals and separators",
          lambda: text_words(["(", ")", "[", "}", "\n", " ", "';)'", ";"], 1,
                             5 + d, ["python", "cpp", "simple"])),
        L("towers", "all bracket towers up to depth 40, 6 languages",
          lambda: (["text", l, t] for l, t, _ in parsing.towers())),
        L("tower-tokens", "the same as token sequences",
          lambda: (["tok", [c for c in t if c in BR], 3]
                   for _, t, _ in parsing.towers(languages=["simple"]))),
        L("programs", "all programs of <=2 lines of the menu, 6 languages",
          lambda: (["text", l, t] for l, t, _ in parsing.programs(
              1, 2, spis=(1,), endings=("\n",)))),
    ]

  def run_case(self, case, ctx):
    sp = self.sp
    if case[0] == "tok":
      _, word, k = case
      pairs = PAIRS[:k]
      pre, suf = sp.error_correcting_prefix_and_suffix(list(word), pairs)
      exp_pre, exp_suf = ref_parser.corrections(word, pairs)
      engine.same((list(pre), list(suf)), (exp_pre, exp_suf), "corrections")
      fixed = exp_pre + list(word) + exp_suf
      engine.same(
          tuple(map(list, sp.error_correcting_prefix_and_suffix(
              list(fixed), pairs))),
          ([], []), "corrections of a corrected sequence")
      tokens = list(fixed)
      root = sp.stack_based_bracket_match(tokens, pairs, error_tolerant=True)
      engine.same(tokens, fixed, "token list after matching (modified)")
      parsing.check_links(root)
      exp = ref_parser.build(fixed, pairs)
      engine.same(parsing.tree_of(root), exp, "tree of repaired sequence")
      engine.ensure(sp.valid_parse_ranges(root, len(fixed)),
                    "validator rejects a correct tree")
      # The same with integer ids.
      idx = {t: i + 1 for i, t in enumerate(BR)}
      iroot = sp.stack_based_bracket_match(
          [idx[t] for t in fixed], [(idx[a], idx[b]) for a, b in pairs],
          error_tolerant=True)
      engine.same(parsing.tree_of(iroot), exp, "tree over integer tokens")
      # Strict mode on the uncorrected word.
      _, ok, dropped = ref_parser.partner_map(word, pairs)
      ok = ok and not dropped
      try:
        sroot = sp.stack_based_bracket_match(
            list(word), pairs, error_tolerant=False)
        engine.ensure(ok, "strict mode accepts", word)
        engine.same(parsing.tree_of(sroot), ref_parser.build(word, pairs),
                    "strict tree")
      except sp.ParseError:
        engine.ensure(not ok, "strict mode rejects balanced", word)
      ctx.count(states=1, transitions=len(fixed), traces=4)
      ctx.outcome((exp_pre, exp_suf, exp))
    else:
      _, language, text = case
      root, toks, _, _, counts = parsing.observe(sp, language, text, 1)
      exp = ref_parser.parse(language, text, 1)
      parsing.check_links(root)
      engine.same(toks, exp[1], "tokens with corrections")
      engine.same(counts, exp[4], "correction counts")
      got = parsing.tree_of(root)
      engine.same(pairs_of(got, []), pairs_of(exp[0], []), "paired spans")

      def shape(t):
        if t[0] == "paired":
          engine.same([c[0] for c in t[3]], ["left", "middle", "right"],
                      "parts of a pair")
          engine.ensure(
              t[3][0][2] - t[3][0][1] == 1 and t[3][2][2] - t[3][2][1] == 1,
              "delimiters of a pair", t)
          engine.same(t[3][1][1:3], [t[1] + 1, t[2] - 1], "middle of a pair")
          a, b = toks[t[1]], toks[t[2] - 1]
          engine.ensure((a, b) in PAIRS + [("", "")],
                        "pair of different kinds", repr(a), repr(b))
        for c in t[3]:
          shape(c)

      shape(got)
      ctx.count(states=1, transitions=len(toks), traces=1)
      ctx.outcome(pairs_of(got, []))
