import itertools

from mc import engine
from mc import parsing
from ref import parser as ref_parser

L = engine.Level


class CHECK(parsing.ParserCheck):
  """All layouts of up to the stated number of lines: every combination of
  indentation, content (statement, block header, blank, comment, bracket
  opener/closer spanning lines, literal spanning lines), final newline or not,
  and indent width. The tree is compared with a line-based reference and the
  nesting depth of every token with its line's indentation (states: layouts,
  transitions: tokens)."""

  id = "C05"

  def levels(self):
    t = self.thorough
    lt = parsing.line_texts
    out = [
        L("2-lines", "all layouts of <=2 lines, 7 indents, 12 contents, "
          "4 widths",
          lambda: (c for n in (1, 2) for c in lt(
              n, (0, 1, 2, 3, 4, 6, 8),
              ("a", "b:", "", "#c", "f(", ")", "{", "}", "'''", "\t", "x]",
               "\\"),
              (1, 2, 3, 4)))),
        L("3-lines", "all layouts of 3 lines, 4 indents, 6 contents, 2 widths",
          lambda: lt(3, (0, 1, 2, 3), ("a", "b:", "", "#c", "f(", ")"),
                     (1, 2))),
        L("4-lines", "all layouts of 4 lines, 4 indents, 3 contents",
          lambda: lt(4, (0, 1, 2, 3), ("a", "", "("), (1,))),
        L("5-lines", "all layouts of 5 lines, 3 indents, 2 contents",
          lambda: lt(5, (0, 1, 2), ("a", ""), (1, 2))),
        L("6-lines", "all layouts of 6 lines, indents 0..3, statements only",
          lambda: lt(6, (0, 1, 2, 3), ("a",), (1,), endings=("",))),
    ]
    def stairs():
      """Climb by every step pattern, then fall back by every pattern."""
      for up in itertools.product((1, 2), repeat=5):
        for down in itertools.product((0, 1, 3, 99), repeat=2):
          for body in ("a:", "", "#c", "f(\n  b)"):
            for spi in (1, 2, 4):
              level, lines = 0, ["a"]
              for s in up:
                level += s
                lines.append(" " * spi * level + "a:")
              for s in down:
                level = max(0, level - s)
                lines.append(body and " " * spi * level + body)
              lines.append(" " * spi * level + "z")
              yield ["python", "\n".join(lines), spi]

    out += [
        L("wide", "all indents 0..40 of two lines (three of the multiples of "
          "the width), widths 1..8",
          lambda: itertools.chain(
              lt(2, range(41), ("a",), range(1, 9), endings=("",)),
              (c for w in (2, 4, 8) for c in lt(
                  3, range(0, 65, w), ("a",), (w,), endings=("",))))),
        L("characters", "every Latin, white-space and sample character in ten "
          "contexts", lambda: parsing.characters(["python"])),
        L("words", "every word of a list in ten contexts, pairs of words",
          lambda: (c for k in (1, 2) for c in parsing.dictionary(
              ["python"], k))),
        L("programs", "all programs of <=2 lines of the menu, 3 widths",
          lambda: parsing.programs(1, 2, ["python"], (1, 2, 4))),
        L("programs3", "all programs of 3 lines of the menu",
          lambda: parsing.programs(3, 3, ["python"], (2,), ("",))),
        L("stairs", "all climbs of 5 steps to level <=10, all falls of two "
          "steps, 4 contents, 3 widths", stairs),
        L("pumped", "all texts u v^k w, |v|<=2, k in {9, 33}",
          lambda: parsing.pumped(["python"])),
    ]
    if t:
      out += [
          L("4-lines+", "all layouts of 4 lines, 4 indents, 6 contents",
            lambda: lt(4, (0, 1, 2, 4), ("a", "", "#c", "f(", ")", "'''"),
                       (1, 2))),
          L("6-lines+", "all layouts of 6 lines, 3 indents, 2 contents",
            lambda: lt(6, (0, 1, 2), ("a", ""), (1, 2))),
          L("8-lines", "all layouts of 8 lines, indents 0..3, statements",
            lambda: lt(8, (0, 1, 2, 3), ("a",), (1,), endings=("",))),
      ]
    return out

  def run_case(self, case, ctx):
    language, code, spi = case
    root, toks, types, raw, _ = parsing.observe(self.sp, language, code, spi)
    exp = ref_parser.parse(language, code, spi)
    parsing.check_links(root)
    engine.same(types, exp[2], "token classes (indent markers)")
    engine.same(parsing.tree_of(root), exp[0], "block structure")
    # Direct statement: block depth of a line's first token = its level.
    depth = {}

    def walk(node, d):
      if node.annotation == "paired" and types[node.lo] == "PYTHON_INDENT":
        d += 1
      if not node.children:
        for i in range(node.lo, node.hi):
          depth[i] = d
      for c in node.children:
        walk(c, d)

    walk(root, 0)
    if not any(c in code for c in "()[]{}'\""):
      pos = 0
      starts = {}
      for i, r in enumerate(raw):
        if r.strip():
          starts.setdefault(code.rfind("\n", 0, pos) + 1, i)
        pos += len(r)
      for start, i in starts.items():
        line = code[start:].split("\n", 1)[0]
        level = (len(line) - len(line.lstrip())) // spi
        engine.same(depth[i], level, f"block depth of line {line!r}")
    ctx.count(states=1, transitions=len(toks), traces=1)
    ctx.outcome(exp[0])
