import itertools

from mc import engine
from mc import parsing
from ref import parser as ref_parser
from ref import textutil

L = engine.Level
PYL = ["a", "def f(x):", "if b:", "", "'''d'''", "x = [1,", "]", "#c"]
CTOK = ["a", " ", "{", "}", "(", ")", ";", "\n", "//x", '"s"']
DOC = ["def f():", "def  g(a,", "class A:", '"""Doc"""', "'''D", "x = 1", "",
       "  def h():", 'u"""no"""', "'single'"]
TQ = ['"""', "'''", '"', "'", "a", "\n"]


def late(ns):
  for n in ns:
    for head in ("a\n" * n, "x" * n + "\n", "\n" * n, "# " + "y" * n + "\n"):
      for ind in ((2, 4), (4, 8), (3,), (8, 16), (4, 6), (6, 3), (0,)):
        yield head + "if b:\n" + "".join(" " * i + "c\n" for i in ind)


class CHECK(engine.Check):
  """All layouts and token texts up to the stated size, with every cursor
  position, are given to the real heuristics and compared with references
  computed from the reference parse (states: (text, cursor) pairs); the
  in-text, token-boundary and monotonicity conditions are checked directly."""

  id = "C08"

  def prepare(self):
    from r_u_sure.parsing.pseudo_parser import stack_parser  # pylint: disable=g-import-not-at-top
    from r_u_sure.parsing.pseudo_parser import utilities  # pylint: disable=g-import-not-at-top
    self.sp, self.u = stack_parser, utilities

  def levels(self):
    t = self.thorough

    def py(k, indents, menu, endings=("", "\n")):
      for combo in itertools.product(
          [" " * i + c for i in indents for c in menu], repeat=k):
        for e in endings:
          yield ["trunc", "python", "\n".join(combo) + e]

    def cl(lo, hi, languages, menu=CTOK):
      for w in engine.words(menu, lo, hi):
        for language in languages:
          yield ["trunc", language, "".join(w)]

    def doc(k, indents, menu):
      for combo in itertools.product(
          [" " * i + c for i in indents for c in menu], repeat=k):
        yield ["doc", "python", "\n".join(combo) + "\n"]

    return [
        L("py", "all Python layouts of <=2 lines, all cursors",
          lambda: itertools.chain(py(1, (0, 1, 2, 4), PYL),
                                  py(2, (0, 1, 2, 4), PYL))),
        L("py3", "all Python layouts of 3 lines, all cursors",
          lambda: py(3, (0, 2, 4), PYL if t else ["a", "if b:", "", "x = ["],
                     endings=("",))),
        L("py4", "all Python layouts of 4 lines, all cursors",
          lambda: py(4, (0, 2, 4) if t else (0, 2), ["a", "", "("],
                     endings=("", "\n"))),
        L("c", f"all token texts of <={5 if t else 4} tokens, 4 languages",
          lambda: cl(0, 5 if t else 4, ["cpp", "java", "javascript",
                                        "simple"])),
        L("c-deep", "all brace texts of <=8 tokens",
          lambda: cl(5, 8 if t else 7, ["java"], ["a", "{", "}", ";"])),
        L("programs", "all programs of <=2 lines of the menu, all cursors",
          lambda: (["trunc", l, t] for l, t, _ in parsing.programs(
              1, 2, ["python", "cpp", "javascript"], (1,), ("",)))),
        L("towers", "all bracket towers of depth 5 and 12, all cursors",
          lambda: (["trunc", l, t] for l, t, _ in parsing.towers(
              (5, 12), ["cpp", "java", "simple"]))),
        L("doc2", "all docstring layouts of <=2 lines",
          lambda: itertools.chain(doc(1, (0, 2), DOC),
                                  doc(2, (0, 1, 2, 3, 4, 6), DOC))),
        L("doc3", "all docstring layouts of 3 lines",
          lambda: doc(3, (0, 2, 4), DOC if t else DOC[:6])),
        L("pydoc", "all triple-quote texts of <=5 symbols, all cursors",
          lambda: (["pydoc", "python", "".join(w)]
                   for w in engine.words(TQ, 0, 6 if t else 5))),
        L("doc-words", "def lines and docstring lines with every word of a "
          "list in front or behind",
          lambda: (["doc", "python", a + "\n" + b + "\n"]
                   for w in parsing.WORDS + ["\t", "deff", "def", "defx ", "x"]
                   for a, b in ((w + " def f():", '  """Doc"""'),
                                (w + "def f():", '  """Doc"""'),
                                (" " + w + " f():", '  """Doc"""'),
                                ("def " + w + "():", "    '''Doc'''"),
                                ("def f():", "  " + w + ' """Doc"""'),
                                ("def f():", "  " + w + '"""Doc"""'),
                                ("def f():" + w, '  """Doc"""'),
                                ("def f():\n  " + w, '  """Doc"""'),
                                ("def f():\n" + w, '  """Doc"""'),
                                (w + "\ndef f():", '  """Doc"""')))),
        L("doc-deep", "all docstring layouts of three lines at indents up to "
          "24",
          lambda: doc(3, (0, 4, 8, 12, 20, 24), ["def f():", '"""D"""',
                                                 "class A:"])),
        L("words", "every word of a list in five contexts, all cursors",
          lambda: (["trunc", l, pre + w + post]
                   for l in ("python", "cpp", "javascript")
                   for w in parsing.WORDS
                   for pre, post in (("", ""), ("a\n", "b\n c"), ("{", "};"),
                                     ("a;", ";b"), ("if a:\n  ", "\nb")))),
        L("wide-indent", "all indentations 0..48 of two lines",
          lambda: (["unit", "python", "".join(
              " " * i + "a\n" for i in ind)] for ind in itertools.chain(
                  itertools.product(range(49), repeat=2),
                  itertools.product((0, 3, 8, 20, 30, 44), repeat=4)))),
        L("late-indent", "indentation that starts after up to 3000 lines or "
          "characters", lambda: (["unit", "python", c] for c in
                                 late((1, 9, 33, 101, 300, 1001, 3000)))),
        L("indent", "all indentations 0..12 of <=4 lines",
          lambda: (["unit", "python", "".join(
              " " * i + "a\n" for i in ind)] for k in (1, 2, 3) for ind in
                   itertools.product(range(13), repeat=k))),
    ]

  def run_case(self, case, ctx):
    kind, language, code = case
    n = len(code)
    if kind == "trunc":
      if language == "python":
        unit = textutil.indent_unit(code)
        engine.same(self.u.infer_python_spaces_per_indent(code), unit,
                    "indent width")
        units = [None, 2]
      else:
        unit = 1
        units = [None]
      tree, _, types, raw, _ = ref_parser.parse(language, code, unit)[:5]
      bounds = {0}
      for r in raw:
        bounds.add(max(bounds) + len(r))
      root, _, rtypes, rraw, _ = (
          self.sp.PseudoParser.parse_and_maybe_preprocess(
              language, code, unit))
      last = 0
      tt = self.sp.TokenType
      for cursor in range(n + 1):
        for u in units:
          got = self.u.infer_truncation_with_fallbacks(
              code, cursor, language, u)
          engine.same(got, textutil.truncation(code, cursor, language, u),
                      f"truncation at cursor {cursor} unit {u}")
          engine.ensure(cursor <= got <= n, "truncation", got,
                        "outside", cursor, n)
        got = self.u.infer_truncation_with_fallbacks(code, cursor, language)
        engine.ensure(got in bounds, "truncation", got, "inside a token")
        pairs = [None, ("{", "}"), ("(", ")")]
        if language == "python":
          pairs.append(("PYTHON_INDENT", "PYTHON_DEDENT"))
        for pair in pairs:
          real = pair
          if pair and pair[0] == "PYTHON_INDENT":
            real = (tt.PYTHON_INDENT, tt.PYTHON_DEDENT)
          engine.same(
              self.u.infer_match_pair_truncation_index(
                  root, rraw, rtypes, real, cursor),
              textutil.block_end(tree, raw, types, pair, cursor),
              f"end of block {pair} around cursor {cursor}")
        for ends in ((";",), ("\n",), ("\n", ";"), None):
          got = self.u.infer_split_truncation_index(root, rraw, ends, cursor)
          engine.same(got, textutil.statement_end(tree, raw, ends, cursor),
                      f"statement end {ends} after cursor {cursor}")
          engine.ensure(cursor <= got <= n and got >= 0, "out of text")
      ctx.count(states=n + 1, transitions=len(raw), traces=(n + 1) * 6)
      ctx.outcome((kind, language, tree))
    elif kind == "doc":
      got = list(self.u.find_python_function_docstrings(code))
      engine.same(got, textutil.docstrings(code), "docstring positions")
      for g in got:
        engine.ensure(code[g - 3:g] in ('"""', "'''"),
                      "no triple quote before", g)
        line = code[code.rfind("\n", 0, g) + 1:g - 3]
        engine.ensure(not line.strip(), "docstring not first in its line")
        end = self.u.infer_truncation_pydocstring(code, g)
        q = code[g - 3:g]
        exp = code.find(q, g)
        engine.same(end, None if exp < 0 else exp + 3, "end of the docstring")
      ctx.count(states=1, transitions=len(got), traces=1)
      ctx.outcome((kind, got))
    elif kind == "pydoc":
      for cursor in range(n + 1):
        q = code[:cursor][-3:]
        if q in ('"""', "'''"):
          exp = code.find(q, cursor)
          engine.same(self.u.infer_truncation_pydocstring(code, cursor),
                      None if exp < 0 else exp + 3,
                      f"docstring end from {cursor}")
        else:
          try:
            self.u.infer_truncation_pydocstring(code, cursor)
          except (AssertionError, ValueError):
            pass
          else:
            raise engine.Violation(f"cursor {cursor} not behind a quote")
      ctx.count(states=n + 1, transitions=n, traces=n + 1)
      ctx.outcome((kind, n))
    else:
      for cand in ((1, 2, 3, 4), (2, 4), (4, 2), (8, 3), (1,)):
        engine.same(self.u.infer_python_spaces_per_indent(code, cand),
                    textutil.indent_unit(code, cand),
                    f"indent width among {cand}")
      ctx.count(states=1, transitions=5, traces=5)
      ctx.outcome((kind, textutil.indent_unit(code)))
