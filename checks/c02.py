import itertools

from mc import engine
from mc import parsing
from ref import lexer
from ref import parser as ref_parser

L = engine.Level
PYQ = ['"', "'", "\\", "#", "\n", "a", "("]
CQ = ['"', "'", "\\", "/", "*", "\n", "a", "(", "#if"]
BASIC = ["a", "Z", "_", "0", "9", ".", "+", "=", "\t", " ", "\n", "$", "{",
         "\u00e9", "\u0663"]
MACRO = ["#include", "#define", "#undef", "#ifdef", "#ifndef", "#line", "#if",
         "#endif", "#error", "#els", "\\\n", "(", "|", "//", "/*", "*/", " ",
         "x", "\n"]
QUOTES3 = ['"""', "'''", '"', "\\", "\n", "a", "#"]

SYMBOLS = [chr(c) for c in range(33, 127) if not chr(c).isalnum()] + [
    " ", "\n", "\t", "\r", "a", "1"]


class CHECK(parsing.ParserCheck):
  """All texts over delimiter alphabets up to the stated length are encoded by
  the real codec and compared, token for token, with hand-written scanners;
  all pairs and triples of short texts are encoded by one shared codec (the
  codec is the state, encode calls the transitions) and every id ever handed
  out is decoded again; the tokens of the whole parser are compared too."""

  id = "C02"

  def levels(self):
    d = 1 if self.thorough else 0

    def lexs(language, alpha, lo, hi):
      for w in engine.words(alpha, lo, hi):
        yield ["lex", language, "".join(w)]

    def hist(alpha, languages, n, k):
      short = ["".join(w) for w in engine.words(alpha, 1, n)]
      for language in languages:
        for combo in itertools.product(short, repeat=k):
          yield ["hist", language, list(combo)]

    def whole():
      for language in parsing.LANGS:
        alpha = PYQ + [")"] if language.startswith("python") else CQ + [")"]
        for w in engine.words(alpha, 1, 4):
          yield ["parse", language, "".join(w)]

    return [
        L("basic", "all texts of <=4 symbols over the basic classes, 5 presets",
          lambda: (c for l in parsing.LANGS[1:] for c in lexs(l, BASIC, 0, 4))),
        L("hist", "all pairs of texts <=2 symbols / triples of 1 symbol",
          lambda: itertools.chain(
              hist(PYQ + ["1", "."], ["python_preprocessor"], 2, 2),
              hist(CQ + ["1", "."], ["cpp", "java"], 2, 2),
              hist(PYQ + ["1", "."], ["python_preprocessor", "simple"], 1, 3),
              )),
        L("python-quotes", f"all texts of <={6 + d} quote/escape symbols",
          lambda: lexs("python_preprocessor", PYQ, 1, 6 + d)),
        L("python-triple", f"all texts of <={5 + d} triple-quote symbols",
          lambda: lexs("python_preprocessor", QUOTES3, 1, 5 + d)),
        L("c-quotes", f"all texts of <={5 + d} comment/literal symbols",
          lambda: (c for l in ("cpp", "java", "javascript")
                   for c in lexs(l, CQ, 1, 5 + d))),
        L("c-macros", "all preprocessor texts of <=4 symbols",
          lambda: lexs("cpp", MACRO, 1, 4)),
        L("parse", "all texts of <=4 symbols through the whole parser",
          whole),
        L("programs", "all programs of <=2 lines of the menu, 5 presets",
          lambda: (["lex", l, t] for l, t, _ in parsing.programs(
              1, 2, parsing.LANGS[1:], (1,)))),
        L("program-parse", "the same through the whole parser",
          lambda: (["parse", l, t] for l, t, _ in parsing.programs(
              1, 2, spis=(1,), endings=("\n",)))),
        L("pumped", "all texts u v^k w, |v|<=2, k in {9, 33}, 5 presets",
          lambda: (["lex", l, t] for l, t, _ in parsing.pumped(
              parsing.LANGS[1:]))),
        L("characters", "every character of the basic plane in three contexts "
          "(Latin, blanks and samples: ten), 5 presets",
          lambda: itertools.chain(
              (["range", l, [pre, post], lo, min(lo + 512, 0xd800)]
               for l in parsing.LANGS[1:]
               for pre, post in (("", ""), ("1", "a"), (" ", " "))
               for lo in range(0, 0xd800, 512)),
              (["lex", l, t] for l, t, _ in parsing.characters(
                  parsing.LANGS[1:])))),
        L("ascii", "all pairs of ASCII characters, all triples of ASCII "
          "symbols, 5 presets",
          lambda: (["ascii", l, a] for l in parsing.LANGS[1:]
                   for a in range(128))),
        L("words", "every word of a list in ten contexts, all pairs of them",
          lambda: (["lex", l, t] for k in (1, 2) for l, t, _ in
                   parsing.dictionary(parsing.LANGS[1:], k))),
        L("word-parse", "every word of a list in ten contexts, through the "
          "whole parser",
          lambda: (["parse", l, t] for l, t, _ in parsing.dictionary())),
        L("long-history", "the lines of the menu in every rotated order, both "
          "ways, on one codec",
          lambda: (["hist", l, lines[i:] + lines[:i]] for l in parsing.LANGS[1:]
                   for lines in (parsing.program_lines(l),
                                 parsing.program_lines(l)[::-1])
                   for i in range(len(lines)))),
    ]

  def _encode(self, codec, language, text):
    ids, types = codec.encode(text)
    exp = lexer.lex(language, text)
    engine.same([t.name for t in types], [c for _, c in exp],
                "token classes of " + repr(text))
    engine.same(list(codec.decode_token(ids)), [t for t, _ in exp],
                "decoded tokens of " + repr(text))
    engine.same([t.name for t in codec.decode_type(ids)], [c for _, c in exp],
                "decoded classes of " + repr(text))
    return list(ids), exp

  def run_case(self, case, ctx):
    kind, language, arg = case[:3]
    if kind in ("range", "ascii"):
      if kind == "range":
        texts = [arg[0] + chr(c) + arg[1] for c in range(case[3], case[4])]
      else:
        a = chr(arg)
        texts = [a + chr(b) for b in range(128)]
        if not a.isalnum():
          texts += [a + b + c for b in SYMBOLS for c in SYMBOLS]
      n = 0
      for text in texts:
        codec = self.sp.RegexCodec.preset(language)
        n += len(self._encode(codec, language, text)[1])
      ctx.count(states=len(texts), transitions=n, traces=len(texts))
      ctx.outcome((language, n))
    elif kind == "lex":
      ids, exp = self._encode(
          self.sp.RegexCodec.preset(language), language, arg)
      ctx.count(states=1, transitions=len(exp), traces=1)
      ctx.outcome([c for _, c in exp])
    elif kind == "hist":
      codec = self.sp.RegexCodec.preset(language)
      by_id = {}
      by_tok = {}
      for text in arg:
        ids, exp = self._encode(codec, language, text)
        for i, (t, c) in zip(ids, exp):
          engine.ensure(by_id.setdefault(i, (t, c)) == (t, c),
                        "id", i, "reused for", repr(t), "and", by_id[i])
          engine.ensure(by_tok.setdefault(t, i) == i,
                        "token", repr(t), "has two ids")
        for i, (t, c) in by_id.items():
          engine.same(codec.decode_token([i]), [t], f"id {i} decoded later")
          engine.same(codec.decode_type([i])[0].name, c,
                      f"class of id {i} decoded later")
        engine.same(len(codec), len(by_tok), "vocabulary size")
      ctx.count(states=len(arg), transitions=len(by_id), traces=1)
      ctx.outcome((language, sorted(by_tok)))
    else:
      root, toks, types, raw, _ = parsing.observe(self.sp, language, arg, 1)
      exp = ref_parser.parse(language, arg, 1)
      engine.same(toks, exp[1], "parser tokens")
      engine.same(types, exp[2], "parser token classes")
      engine.same(parsing.tree_of(root), exp[0],
                  "tree (literals and comments must be inert)")
      ctx.count(states=1, transitions=len(toks), traces=1)
      ctx.outcome((toks, types))
