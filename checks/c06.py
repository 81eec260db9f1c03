import itertools

from checks import c08
from mc import engine
from mc import parsing
from mc import trees
from ref import parser as ref_parser
from ref import textutil

L = engine.Level
LINES = ["a", "b:", "", "#c", "f(", ")", "'x y'", '"aB1', "def f():"]
SETS = [
    (None, None),
    (["WHITE_SPACE_LEAF", "NON_CONTENT_LEAF"], ["STRING_LITERAL"]),
    ([], []),
    (["NON_CONTENT_LEAF"], ["CONTENT_LEAF"]),
    (["CONTENT_LEAF"], ["MATCH_INNER", "MATCH_LEFT"]),
    (["SPLIT_GROUP"], ["MATCH"]),
    (["STRING_LITERAL"], ["STRING_LITERAL", "ROOT"]),
]


class CHECK(engine.Check):
  """All texts up to the stated length, in all languages, are converted by the
  real pipeline (low-level converter with seven choices of decoration and
  sub-tokenised kinds; ParserHelper nested and flattened) and compared with the
  node tree derived from the reference parse; the text is compared with the
  source (states: texts, transitions: nodes)."""

  id = "C06"

  def prepare(self):
    from r_u_sure.parsing import sequence_from_pseudo_parse as sf  # pylint: disable=g-import-not-at-top
    from r_u_sure.parsing.pseudo_parser import stack_parser  # pylint: disable=g-import-not-at-top
    from r_u_sure.tree_structure import sequence_node_helpers  # pylint: disable=g-import-not-at-top
    from r_u_sure.wrappers import parser_tools  # pylint: disable=g-import-not-at-top
    self.sf, self.sp, self.pt = sf, stack_parser, parser_tools
    self.helpers = sequence_node_helpers

  def levels(self):
    n = 4 if self.thorough else 3
    strs = ['"', "'", "aB", " ", "  ", "1", "\n", "\\", "("]

    def lines(k, menu, indents):
      for combo in itertools.product(
          [" " * i + c for i in indents for c in menu], repeat=k):
        for end in ("", "\n"):
          yield ["python", "\n".join(combo) + end, 1]

    return [
        L("chars", f"all texts of <={n} symbols, 6 languages",
          lambda: parsing.char_words(0, n)),
        L("exotic", "all texts of <=3 exotic symbols, 6 languages",
          lambda: parsing.char_words(1, 3, alpha=parsing.EXOTIC)),
        L("strings", f"all literal texts of <={n + 1} symbols",
          lambda: parsing.char_words(
              1, n + 1, languages=["python", "java", "cpp"], alpha=strs)),
        L("lines", "all layouts of <=3 lines",
          lambda: itertools.chain(
              lines(1, LINES, (0, 1, 2, 4)), lines(2, LINES, (0, 1, 2, 4)),
              lines(3, ["a", "", "#c", "f(", ")", "'x"] if self.thorough
                    else ["a", "", "f(", "'x"], (0, 2)))),
        L("programs", "all programs of <=2 lines of the menu, 6 languages",
          lambda: parsing.programs(1, 2, endings=("\n",), spis=(2,))),
        L("pumped", "all texts v^9 and (v^9, |v|<=2, 6 languages",
          lambda: (c for c in parsing.pumped(powers=(9,), around=("", "("))
                   )),
        L("characters", "every Latin, white-space and sample character in ten "
          "contexts, python and java",
          lambda: parsing.characters(["python", "java"])),
        L("words", "every word of a list in ten contexts, 6 languages",
          parsing.dictionary),
        L("towers", "all bracket towers of depth 6 and 20, 6 languages",
          lambda: parsing.towers(depths=(6, 20))),
        L("long-literals", "literals of every length up to 60, plain, blank "
          "and mixed",
          lambda: (["python" if q == "'" else "java", q + (u * k)[:k] + q, 1]
                   for q in ("'", '"') for u in ("a", " ", "aB_1 ", "A", "\t")
                   for k in list(range(61)) + [99, 100, 127, 128, 255, 256,
                                               300, 1000])),
        L("long-tokens", "tokens, comments, blanks and lines of 64..1000 "
          "characters",
          lambda: ([l, pre + u * k + post, 1] for l in parsing.LANGS
                   for u in ("a", " ", "1", "\n", "a ", "(", ";", "aB_")
                   for k in (64, 100, 300, 1000 // len(u))
                   for pre, post in (("", ""), ("//", "\n"), ("# ", "\n"),
                                     ("/*", "*/"), ("if a:\n  ", "\n"))
                   if not (u == "(" and k > 100))),
        L("late-indent", "indentation that starts after up to 1000 lines or "
          "characters", lambda: (["python", c, 2] for c in
                                 c08.late((1, 33, 101, 300, 1001)))),
        L("raw", "all texts of <=4 symbols as raw sub-tokens",
          lambda: parsing.char_words(
              0, 4, languages=["raw_simple_tokens"],
              alpha=["A", "b", "1", " ", "\n", "(", "."])),
    ]

  def _text(self, forest, code, what):
    engine.same(trees.text(forest), code, what)

  def run_case(self, case, ctx):
    language, code, spi = case
    if language == "raw_simple_tokens":
      for flatten in (False, True):
        got = self.pt.ParserHelper(language, flatten).parse_to_nodes(code)
        engine.same(
            trees.from_real(got),
            [["t", p, "subtoken"] for p in textutil.subtokens(code)],
            "raw nodes")
      ctx.count(states=1, transitions=len(got), traces=2)
      ctx.outcome(len(got))
      return
    nt = self.sp.NodeType
    root, toks, types, raw, _ = (
        self.sp.PseudoParser.parse_and_maybe_preprocess(language, code, spi))
    ref_tree, ref_toks, ref_types, ref_raw, _ = ref_parser.parse(
        language, code, spi)[:5]
    for deco, sub in SETS:
      kw = {}
      if deco is not None:
        kw = dict(decoration_node_types=frozenset(nt[x] for x in deco),
                  subtokenize_node_types=frozenset(nt[x] for x in sub))
      else:
        deco, sub = ["WHITE_SPACE_LEAF"], ["STRING_LITERAL"]
      node = self.sf.pseudo_parse_node_to_nested_sequence_node(
          root, raw, types, **kw)
      exp = textutil.node_forest(ref_tree, ref_raw, ref_types, deco, sub)
      engine.same(trees.from_real([node]), [exp],
                  f"nodes with decoration={deco} subtokenize={sub}")
      self._text(trees.from_real([node]), code, "text of the nodes")
    node = self.sf.pseudo_parse_node_to_nested_sequence_node(root, toks, types)
    engine.same(
        trees.from_real([node]),
        [textutil.node_forest(ref_tree, ref_toks, ref_types,
                              ["WHITE_SPACE_LEAF"], ["STRING_LITERAL"])],
        "nodes of the corrected tokens")
    unit = textutil.indent_unit(code) if language == "python" else 1
    tree2, _, types2, raw2, _ = ref_parser.parse(language, code, unit)[:5]
    exp = [textutil.node_forest(
        tree2, raw2, types2, ["WHITE_SPACE_LEAF", "NON_CONTENT_LEAF"],
        ["STRING_LITERAL"])]
    got = self.pt.ParserHelper(language).parse_to_nodes(code)
    engine.same(trees.from_real(got), exp, "ParserHelper nodes")
    self._text(trees.from_real(got), code, "text of the ParserHelper nodes")
    engine.same(self.helpers.render_text_contents(got), code, "rendered text")
    flat = self.pt.ParserHelper(language, flatten=True).parse_to_nodes(code)
    engine.same(trees.from_real(flat),
                [e[1] for e in trees.events(exp) if e[0] == "leaf"],
                "flattened ParserHelper nodes")
    ctx.count(states=1, transitions=trees.size(exp), traces=len(SETS) + 3)
    ctx.outcome(exp)
