from mc import engine
from mc import parsing

L = engine.Level


class CHECK(parsing.ParserCheck):
  """All texts over the language alphabets (every delimiter, bracket, quote,
  comment, escape and white-space class) up to the stated length, all layouts
  of up to the stated number of lines, and all indent widths of the menu; each
  is parsed by the real parser and the result checked for losslessness, exact
  tiling, back links and correction counts. A state is one (language, text,
  width); a transition is one token of a parse; non-trivial outcomes are the
  distinct tree shapes."""

  id = "C01"

  def levels(self):
    deep = self.thorough
    out = [
        L("chars", "all texts of <=3 symbols, 6 languages",
          lambda: parsing.char_words(0, 3)),
        L("exotic", "all texts of <=3 symbols over unusual characters",
          lambda: parsing.char_words(1, 3, alpha=parsing.EXOTIC)),
        L("lines", "all python layouts of <=3 lines, 4 indents, 6 contents",
          lambda: (c for n in (1, 2, 3) for c in parsing.line_texts(
              n, (0, 1, 2, 4), ("a:", "", "f(", ")", "#c]", "'''"), (1, 2)))),
        L("chars4", "all texts of 4 symbols, 6 languages",
          lambda: parsing.char_words(4, 4)),
        L("programs", "all programs of <=2 lines of the menu, 6 languages",
          lambda: parsing.programs(1, 2)),
        L("pumped", "all texts u v^k w, |v|<=2, k in {9, 33}, 6 languages",
          parsing.pumped),
        L("characters", "every Latin, white-space and sample character in ten "
          "contexts, 6 languages", parsing.characters),
        L("words", "every word of a list in ten contexts, 6 languages",
          parsing.dictionary),
        L("towers", "all bracket towers up to depth 40, 6 languages",
          parsing.towers),
    ]
    if deep:
      out += [
          L("exotic4", "all texts of 4 symbols over unusual characters",
            lambda: parsing.char_words(4, 4, alpha=parsing.EXOTIC)),
          L("lines4", "all python layouts of 4 lines",
            lambda: parsing.line_texts(
                4, (0, 1, 2, 4), ("a:", "", "f(", ")", "#c]", "'''"), (1, 2))),
          L("programs3", "all programs of 3 lines of the menu, 6 languages",
            lambda: parsing.programs(3, 3)),
          L("chars5", "all texts of 5 symbols, python and cpp",
            lambda: parsing.char_words(5, 5, languages=["python", "cpp"])),
      ]
    return out

  def run_case(self, case, ctx):
    language, code, spi = case
    root, toks, types, raw, (n_pre, n_post) = parsing.observe(
        self.sp, language, code, spi)
    ensure = engine.ensure
    engine.same("".join(raw), code, "raw tokens joined")
    n = len(toks)
    ensure(len(raw) == n and len(types) == n, "token lists differ in length")
    seen = []

    def walk(node, is_root=False):
      if not node.children:
        if node.hi != node.lo:
          ensure(node.hi - node.lo == 1 or is_root, "leaf spans", node)
          seen.extend(range(node.lo, node.hi))
        return
      pos = node.lo
      for c in node.children:
        ensure(c.parent is node, "back link of", c)
        ensure(c.lo == pos, "gap or overlap before", c, "in", node)
        ensure(isinstance(c.hi, int) and c.hi >= c.lo, "range of", c)
        pos = c.hi
        walk(c)
      ensure(pos == node.hi, "children do not reach the end of", node)

    ensure(root.parent is None, "root has a parent")
    ensure((root.lo, root.hi) == (0, n), "root range", root, n)
    walk(root, True)
    engine.same(seen, list(range(n)), "tokens reached by leaves")
    # Invented tokens carry no text and are counted.
    exp = parsing.reference(language, code, spi)
    engine.same((n_pre, n_post), exp[4], "correction counts")
    engine.same(raw, exp[3], "raw tokens")
    if not language.startswith("python"):
      engine.same(raw[:n_pre], [""] * n_pre, "raw text of the prefix")
      engine.same(raw[n - n_post:], [""] * n_post, "raw text of the suffix")
    for t, r, ty in zip(toks, raw, types):
      ensure(r in ("", t), "raw token", repr(r), "is not the token", repr(t))
      if ty in ("PYTHON_INDENT", "PYTHON_DEDENT"):
        ensure(t == "" and r == "", "indent marker carries text", repr(t))
    ctx.count(states=1, transitions=n, traces=1)
    ctx.outcome(parsing.tree_of(root))
