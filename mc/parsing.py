"""Shared driver for the pseudo-parser checks: input spaces and observation."""
import itertools
import keyword

from mc import engine
from ref import parser as ref_parser

PY = ["a", "1", ".", " ", "\n", "\t", "(", ")", "[", "]", "{", "}", '"', "'",
      "#", "\\", ";"]
CL = ["a", "1", " ", "\n", "(", ")", "[", "{", "}", '"', "'", "//", "/*", "*/",
      "/", "#if", "\\", ";"]
EXOTIC = ["a", " ", "\n", "\r", "\x0c", "\u00a0", "\u00e9", "\u0663", "(", ")",
          '"', "\U0001f600"]
LANGS = ["python", "python_preprocessor", "simple", "cpp", "java",
         "javascript"]


def alphabet(language):
  return PY if language.startswith("python") else CL


def char_words(lo, hi, languages=LANGS, alpha=None):
  """All texts of lo..hi symbols for each language."""
  for n in range(lo, hi + 1):
    for language in languages:
      for w in itertools.product(alpha or alphabet(language), repeat=n):
        yield [language, "".join(w), 1]


def line_texts(nlines, indents, contents, spis, endings=("\n", ""),
               languages=("python",)):
  """All texts made of exactly nlines lines."""
  menu = [" " * i + c for i in indents for c in contents]
  for lines in itertools.product(menu, repeat=nlines):
    for end in endings:
      for spi in spis:
        for language in languages:
          yield [language, "\n".join(lines) + end, spi]


PY_LINES = [
    "def foo_bar(x, *args, y=1.5e-3):", "    return x[1:2] ** -y",
    '    """Doc (string: it\'s "quoted"."""', "class A(B.C):",
    "if a and (b or not c):", "    pass", "        z += {'k': [1, 2]}",
    "print('it\\'s', \"(\", f'{x}')  # note ](", "", "   ",
    "\t@tab.dec(1)", "x = '''a", "b''' + r'\\'", "f(a,", "  b)", "else:",
    "q = [", "] ; w = 0xFF", "# -- comment \"open", "lambda: \u00e9t\u00e9",
]
C_LINES = [
    "int foo_bar(int x, char *y) {", "  return x[1] >= 2 && !y;", "}",
    "for (int i = 0; i < 10; ++i) { f(i); }", "// comment ( \"open",
    "/* block; ( */ g();", "/* open {", "*/ }", "#include <a.h>",
    "#define M(x) \\", "  (x + 1)", "char c = ';', d = '\\'';",
    "s = \"it's (\\\"\";", "", "\tif (a) b(); else { c(); }",
    "x = { k: [1, 2.5e-3], m: () => { return 0; } };",
    "class A { public: B b; };", "f(a,", "  b);", "let t = `x ${y} ;`;",
]


def program_lines(language):
  return PY_LINES if language.startswith("python") else C_LINES


def programs(lo, hi, languages=LANGS, spis=(2, 4), endings=("\n", "")):
  """All texts of lo..hi lines taken from a menu of realistic lines."""
  for n in range(lo, hi + 1):
    for language in languages:
      for lines in itertools.product(program_lines(language), repeat=n):
        for end in endings:
          for spi in spis if language == "python" else spis[:1]:
            yield [language, "\n".join(lines) + end, spi]


def pumped(languages=LANGS, powers=(9, 33), unit=2,
           around=("", "(", "\n", "a")):
  """All texts u v^k w: long repetitions of every short unit."""
  for language in languages:
    for v in engine.words(alphabet(language), 1, unit):
      for u, w, k in itertools.product(around, around, powers):
        yield [language, u + "".join(v) * k + w, 1]


def towers(depths=(5, 6, 8, 12, 20, 40), languages=LANGS):
  """All nestings of one or two bracket kinds to a depth, content inside."""
  for language in languages:
    for a, b in itertools.product(("()", "[]", "{}"), repeat=2):
      for inner, d, cut in itertools.product(
          ("", "a", ";", "\n", "';'"), depths, (-2, -1, 0, 1, 2)):
        kinds = [(a, b)[i % 2] for i in range(d)]
        text = ("a".join(k[0] for k in kinds) + inner
                + ",".join(k[1] for k in reversed(kinds)))
        if cut < 0:
          text = text[:2 * cut]
        elif cut:
          text = text[2 * cut:]
        yield [language, text, 1]


# Every Latin character, every white-space character, one of each other kind.
SPECIAL = sorted(set(range(0x250)) | {
    c for c in range(0x10000) if chr(c).isspace()} | {
        0x300, 0x5d0, 0x663, 0x966, 0xb2, 0x2160, 0x200b, 0x200d, 0x2028,
        0x2029, 0xfeff, 0xffff, 0xff10, 0x1d7ce, 0x10ffff, 0x4e2d, 0xff08})
AROUND = [("", ""), ("a", "b"), ("a\n", "b\n c"), ("  ", "x\n"), ("(", ")"),
          ("'", "'"), ("\r", "\n"), ("# ", "\n"), ("1", "1"), ("a\n\t", "b")]
WORDS = keyword.kwlist + [
    "print", "self", "len", "async def", "#elif", "#else", "#pragma", "#warning",
    "#import", "#include", "#define", "#undef", "#ifdef", "#ifndef", "#line",
    "#if", "#endif", "#error", "u''", "r'\\'", "b''", 'f"{x}"', "0x1F", "1e5",
    "1.5.2", "1_000", "0b1", "a.b", "...", "->", "=>", "==", "!=", "<=", "**",
    "//", "/*", "*/", "/**/", "/*/", "<!--", "&&", "||", "?:", "::", "`a`",
    "$x", "@d", "\\\n", "\\'", "\\\\'", "~", "^", "%", "&", "|", "!",
    "int", "function", "var", "public", "namespace", "template", "\r\n",
    "\n\r", "\x0b", "\x1c", "\u2028", "__init__", "case", "switch",
]


def characters(languages=LANGS, around=AROUND):
  """Every special character in every context."""
  for language in languages:
    for pre, post in around:
      for c in SPECIAL:
        yield [language, pre + chr(c) + post, 1]


def dictionary(languages=LANGS, k=1):
  """Every word (or pair of words) of the list in every context."""
  for language in languages:
    for ws in itertools.product(WORDS, repeat=k):
      for sep in ("", " ", "\n") if k > 1 else ("",):
        for pre, post in (AROUND if k == 1 else (("", ""), ("(", "\n b"))):
          yield [language, pre + sep.join(ws) + post, 1]


def tree_of(node):
  return [node.annotation, node.lo, node.hi,
          [tree_of(c) for c in node.children]]


def check_links(node):
  for c in node.children:
    engine.ensure(
        c.parent is node, "child", c, "does not point back to parent", node)
    check_links(c)


def observe(sp, language, code, spi):
  """Runs the real parser."""
  root, toks, types, raw, counts = sp.PseudoParser.parse_and_maybe_preprocess(
      language, code, spi)
  return root, list(toks), [t.name for t in types], list(raw), tuple(counts)


def reference(language, code, spi):
  return ref_parser.parse(language, code, spi)


class ParserCheck(engine.Check):
  """Base: imports the real parser."""

  def prepare(self):
    from r_u_sure.parsing.pseudo_parser import stack_parser  # pylint: disable=g-import-not-at-top
    self.sp = stack_parser
