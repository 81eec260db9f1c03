import itertools

from mc import engine
from mc import parsing
from ref import parser as ref_parser

L = engine.Level
PAIRS = [("(", ")"), ("{", "}")]
TOK = ["a", ";", ",", "(", ")", "{", "}"]
SPLITS = [[], [";"], [";", ","]]
UNSPLIT = [[], [("(", ")")], [("{", "}")], [("(", ")"), ("{", "}")]]


class CHECK(parsing.ParserCheck):
  """All token sequences up to the stated length (repaired, then matched) are
  split under every choice of terminators and unsplittable kinds; all texts
  over terminators, comments, preprocessor lines, literals and brackets are
  parsed in every language. Grouping is compared with a recursive reference;
  the input tree is compared before and after (states: inputs, transitions:
  tokens)."""

  id = "C04"

  def levels(self):
    d = 1 if self.thorough else 0
    ctext = ["a", ";", "(", ")", "{", "}", "//c\n", "/*c;*/", '";"', "\n",
             "#if x\n"]
    ptext = ["a", "\n", "(", ")", "{", "}", "[", "'\n'", "#c\n", "\n ", ";"]
    return [
        L("tokens", f"all sequences of <={5 + d} tokens x 12 configurations",
          lambda: (["tok", w, s, u] for w in engine.words(TOK, 0, 5 + d)
                   for s in range(3) for u in range(4))),
        L("c-text", f"all C-like texts of <={4 + d} symbols, 4 languages",
          lambda: (["text", l, "".join(w)]
                   for w in engine.words(ctext, 1, 4 + d)
                   for l in ("cpp", "java", "javascript", "simple"))),
        L("py-text", f"all python texts of <={5 + d} symbols",
          lambda: (["text", "python", "".join(w)]
                   for w in engine.words(ptext, 1, 5 + d))),
        L("programs", "all programs of <=2 lines of the menu, 6 languages",
          lambda: (["text", l, t] for l, t, _ in parsing.programs(
              1, 2, spis=(1,)))),
        L("words", "every word of a list in ten contexts, 6 languages",
          lambda: (["text", l, t] for l, t, _ in parsing.dictionary())),
        L("characters", "every Latin, white-space and sample character in ten "
          "contexts, python and java",
          lambda: (["text", l, t] for l, t, _ in parsing.characters(
              ["python", "java"]))),
        L("towers", "all bracket towers up to depth 40, 6 languages",
          lambda: (["text", l, t] for l, t, _ in parsing.towers())),
        L("pumped", "all texts u v^k w, |v|<=2, k = 9, 6 languages",
          lambda: (["text", l, t] for l, t, _ in parsing.pumped(powers=(9,)))),
    ]

  def run_case(self, case, ctx):
    sp = self.sp
    if case[0] == "tok":
      _, word, s, u = case
      pre, suf = ref_parser.corrections(word, PAIRS)
      ids = pre + list(word) + suf
      root = sp.stack_based_bracket_match(ids, PAIRS, error_tolerant=True)
      before = parsing.tree_of(root)
      result = sp.split_parse(root, ids, list(SPLITS[s]), list(UNSPLIT[u]))
      engine.same(parsing.tree_of(root), before, "input tree after splitting")
      parsing.check_links(root)
      parsing.check_links(result)
      exp = ref_parser.build(ids, PAIRS)
      if SPLITS[s]:
        exp = ref_parser.split(exp, ids, set(SPLITS[s]), UNSPLIT[u])
      engine.same(parsing.tree_of(result), exp, "split tree")
      ctx.count(states=1, transitions=len(ids), traces=1)
      ctx.outcome(exp)
    else:
      _, language, text = case
      root, toks, _, _, _ = parsing.observe(sp, language, text, 1)
      exp = ref_parser.parse(language, text, 1)
      engine.same(parsing.tree_of(root), exp[0], "parse tree")
      parsing.check_links(root)
      ctx.count(states=1, transitions=len(toks), traces=1)
      ctx.outcome(exp[0])
