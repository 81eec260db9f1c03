import html
import itertools
import math
import re

from mc import engine
from mc import htmlcheck
from mc import transforming
from mc import trees
from mc import wrapping
from ref import transform

L = engine.Level
TEXT = "ab<\n&z"


def compositions(n, empties):
  """All tuples of parts summing to n with at most `empties` zero parts."""

  def rec(left, zeros):
    if left == 0:
      yield ()
    for z in ([0] if zeros else []):
      for rest in rec(left, zeros - 1):
        yield (z,) + rest
    for part in range(1, left + 1):
      for rest in rec(left - part, zeros):
        yield (part,) + rest

  return rec(n, empties)


def cut(text, parts):
  out = []
  pos = 0
  for p in parts:
    out.append(text[pos:pos + p])
    pos += p
  return out


def lp(i):
  return -(2.0 ** -(i + 1))


class Model:
  """Reference: position in the model's tokens."""

  def __init__(self, tokens, lps=None):
    self.left = [(t, lps[i] if lps else lp(i)) for i, t in enumerate(tokens)]

  def advance(self, n):
    """n == 0 looks at the next token only."""
    if n == 0:
      if not self.left:
        return "", 0.0
      t, p = self.left[0]
      if not t:
        self.left = self.left[1:]
      return "", p
    text, total, k = "", 0.0, 0
    while k < len(self.left) and len(text) < n:
      text += self.left[k][0]
      total += self.left[k][1]
      k += 1
    over = text[n:]
    self.left = ([(over, self.left[k - 1][1])] if over else []) + self.left[k:]
    return text[:n], total

  def rest(self):
    return "".join(t for t, _ in self.left)


class CHECK(engine.Check):
  """All model tokenisations of texts of up to the stated length (empty tokens
  included) against all sequences of spans (the helper is the state, each
  advance a transition), and against all parsed trees spelling the same, a
  longer, a shorter or a different text; log-probabilities are distinct powers
  of two, so a sum identifies exactly which tokens were charged."""

  id = "C13"

  def prepare(self):
    from r_u_sure.tree_structure import packed_sequence_nodes  # pylint: disable=g-import-not-at-top
    from r_u_sure.tree_structure import token_prob_align  # pylint: disable=g-import-not-at-top
    self.a, self.p = token_prob_align, packed_sequence_nodes

  def levels(self):
    t = self.thorough

    def spans(n, e1, e2):
      for m in range(n + 1):
        for mod in compositions(m, e1):
          for k in range(0, n + 2):
            for sp in compositions(k, e2):
              yield ["spans", list(mod), list(sp)]

    def aligns(n, e1, e2):
      for m in range(n + 1):
        for mod in compositions(m, e1):
          for k in sorted({max(m - 1, 0), m, m + 1}):
            for leaf in compositions(k, e2):
              yield ["align", list(mod), list(leaf)]

    def wide():
      for k in range(6, 40):
        for step in (1, 2, 3):
          mod = [1] * k
          yield ["align", mod, [step] * (k // step)]
          yield ["align", [step] * (k // step), [1] * (k // step * step)]
          yield ["spans", [k], [step] * (k // step)]

    def mismatches():
      # one character changed, at every place of texts of several lengths
      for n in (1, 2, 3, 5, 8, 20, 40, 70, 140, 300):
        for parts in ([n], [1] * n, [n // 2, n - n // 2], [7] * (n // 7 + 1)):
          for mod in ([n], [3] * (n // 3 + 1)):
            yield ["differ", n, mod, parts]

    def extremes():
      vals = [0.0, -1e-300, -1e300, "-inf", -0.7, -120.0, -745.2, 3.0, -2e-16]
      for a, b, c in itertools.product(vals, repeat=3):
        yield ["extreme", [a, b, c]]

    def demo():
      for lang in ("python", "java"):
        for ctx in ("", "a", "f(x", "if a:\n  b\n", "'<"):
          for text in ("", "b = 1", "(c)", "\n d\n", "\"<&\")", "  e"):
            for mod in compositions(len(text), 1):
              yield ["demo", lang, ctx, text, list(mod)]

    return [
        L("spans", "texts <=4, all tokenisations with <=2 empties, all spans",
          lambda: spans(5 if t else 4, 2, 2)),
        L("align", "texts <=4, all tokenisations x all leaf sequences x kinds",
          lambda: aligns(5 if t else 4, 2 if t else 1, 2)),
        L("wide", "long texts in regular tokenisations", wide),
        L("mismatches", "texts of up to 300 characters, a difference of case, "
          "blank or letter at every place", mismatches),
        L("extremes", "all triples of extreme log-probabilities, three parsed "
          "tokens", extremes),
        L("html", "all renderings of <=3 tokens over 6 texts", lambda: (
            ["html", list(w)] for w in engine.words(
                ["", "a", "<b>", "\n", "&amp;", "\"'"], 0, 4 if t else 3))),
        L("demo", "displays: all tokenisations of short suggestions", demo),
    ]

  def run_case(self, case, ctx):
    getattr(self, "_" + case[0])(*case[1:], ctx)

  def _text(self, n):
    return (TEXT * (n // len(TEXT) + 1))[:n]

  def _spans(self, mod, spans, ctx):
    tokens = cut(self._text(sum(mod)), mod)
    given = [(t, lp(i)) for i, t in enumerate(tokens)]
    snapshot = list(given)
    helper = self.a.SpanProbHelper.build(given)
    model = Model(tokens)
    for n in spans:
      got = helper.advance_by_length(n)
      exp = model.advance(n)
      engine.same(got[0], exp[0], f"span of {n} in {tokens}")
      engine.close(got[1], exp[1], f"log-prob of a span of {n} in {tokens}",
                   1e-12)
      ok = True
      try:
        helper.assert_consumed()
      except ValueError:
        ok = False
      engine.same(ok, not model.rest(), "assert_consumed")
    engine.same(given, snapshot, "caller's list afterwards")
    ctx.count(states=len(spans) + 1, transitions=len(spans), traces=1)
    ctx.outcome((len(model.left), len(tokens)))

  def _align(self, mod, parts, ctx):
    text = self._text(sum(mod))
    tokens = cut(text, mod)
    given = [(t, lp(i)) for i, t in enumerate(tokens)]
    k = sum(parts)
    other = (text + "q")[:k] if k > len(text) else text[:k]
    variants = [other]
    if k:
      variants.append(other[:-1] + "!")
      variants.append("!" + other[1:])
    for want in variants:
      leaves = cut(want, parts)
      kinds = list(itertools.product("td", repeat=len(leaves))) if len(
          leaves) <= 4 else [tuple("t" * len(leaves)), tuple(
              ("td" * len(leaves))[:len(leaves)])]
      for kind in kinds:
        flat = [["t", s, "k"] if c == "t" else ["d", s]
                for s, c in zip(leaves, kind)]
        forests = [flat]
        if kind == kinds[0]:
          for i in range(len(flat) + 1):
            forests.append(flat[:i] + ["X", ["g", ["S"] + flat[i:], "g"]])
        for forest in forests:
          self._one(given, want, text, flat, forest)
    ctx.count(states=len(parts), transitions=len(parts) * len(kinds),
              traces=len(kinds))
    ctx.outcome((len(parts), len(mod)))

  def _differ(self, n, mod, parts, ctx):
    text = (transforming.long_text(n // 2 + 1) + "aB c\td\n" * n)[:n]
    given = [(t, lp(min(i, 40))) for i, t in enumerate(cut(text, mod)) if t]
    leaves = [t for t in cut(text, parts) if t]
    for i in range(n):
      for c in {text[i].upper(), text[i].lower(), "!", " ", "\n", "\t", "\r",
                ""}:
        want = text[:i] + c + text[i + 1:]
        if want == text or text.startswith(want):
          continue
        seq = [t for t in cut(want, parts) if t]
        packed = self.p.pack(trees.to_real(
            [["t", t, "k"] if k % 2 == 0 else ["d", t]
             for k, t in enumerate(seq)]))
        try:
          self.a.align_token_log_probs(given, packed)
        except ValueError:
          continue
        raise engine.Violation(
            f"text with {c!r} for {text[i]!r} at {i} accepted ({n}, {mod[:3]},"
            f" {parts[:3]})")
    packed = self.p.pack(trees.to_real([["t", t, "k"] for t in leaves]))
    self.a.align_token_log_probs(given, packed, True)
    ctx.count(states=n, transitions=6 * n, traces=6 * n)
    ctx.outcome((n, len(mod)))

  def _extreme(self, vals, ctx):
    vals = [float(v) for v in vals]
    for mod in ([2, 2, 2], [1, 1, 4], [1, 4, 1], [0, 3, 3], [3, 0, 3]):
      tokens = cut(self._text(6), mod)
      for parts in ([6], [3, 3], [1, 4, 1], [2, 2, 2]):
        leaves = cut(self._text(6), parts)
        model = Model(tokens, vals)
        packed = self.p.pack(trees.to_real([["t", t, "k"] for t in leaves]))
        got = self.a.align_token_log_probs(list(zip(tokens, vals)), packed)
        for i, t in enumerate(leaves):
          exp = model.advance(len(t))[1]
          engine.ensure(got[i] == exp or abs(got[i] - exp) <= 1e-12 * abs(exp),
                        "log-prob of", t, "is", got[i], "expected", exp)
        out = self.a.render_tokens_and_log_probs_to_html(
            list(zip(tokens, vals)))
        nums = [float(x) for x in re.findall(r"([\d.e+-]+)%", out)]
        engine.same(len(nums), 9, "colour components")
        for k, v in enumerate(vals):
          engine.close(nums[3 * k + 1], 100 * math.exp(v), "colour", 1e-6)
    ctx.count(states=20, transitions=60, traces=20)
    ctx.outcome(tuple(vals))

  def _one(self, given, want, text, flat, forest):
    packed = self.p.pack(trees.to_real(forest))
    model = Model([t for t, _ in given])
    exp = {}
    texts = []
    for leaf, nid in zip(flat, [
        n for n in packed.preorder_traversal
        if n.category.name in ("TEXT_TOKEN_NODE", "TEXT_DECORATION_NODE")]):
      _, p = model.advance(len(leaf[1]))
      if leaf[0] == "t":
        exp[nid.preorder_index] = p
      texts.append((leaf[1], p if leaf[0] == "t" else 0.0))
    accepted = text.startswith(want)
    for must in (False, True):
      snapshot = list(given)
      try:
        got = self.a.align_token_log_probs(
            given, packed, must_consume_all_model_tokens=must)
      except ValueError:
        got = None
      engine.same(given, snapshot, "caller's list afterwards")
      if not accepted or (must and model.rest()):
        engine.ensure(got is None, "text", repr(want), "accepted for",
                      repr(text), "must consume:", must)
        continue
      engine.ensure(got is not None, "text", repr(want), "rejected for",
                    repr(text), "must consume:", must)
      engine.same(sorted(got), sorted(exp), "aligned token nodes")
      for i, v in got.items():
        engine.close(v, exp[i], f"log-prob of node {i} ({given} {flat})",
                     1e-12)
      back = list(self.a.flatten_token_log_probs_from_parsed(packed, got))
      engine.same([b[0] for b in back], [b[0] for b in texts],
                  "flattened texts")
      for b, e in zip(back, texts):
        engine.close(b[1], e[1], "flattened log-prob", 1e-12)

  def _demo(self, lang, context, text, mod, ctx):
    m = wrapping.mods()
    runner = m["dr"].DemoRunner(None, language=lang)
    tokens = cut(text, mod)
    given = [(t, lp(i)) for i, t in enumerate(tokens)]
    leaves = [e[1] for e in trees.events(transform.truncate(
        wrapping.parse(lang, context + text), len(context)))
              if e[0] == "leaf"]
    model = Model(tokens)
    aligned = []
    for leaf in leaves:
      p = model.advance(len(leaf[1]))[1]
      aligned.append((leaf[1], p if leaf[0] == "t" else 0.0))
    for realign, exp in ((False, given), (True, aligned)):
      m["display"].SHOWN.clear()
      runner.show_token_probs(context, list(given), realign)
      engine.same(len(m["display"].SHOWN), 1, "things displayed")
      data = m["display"].SHOWN[0].data
      m["display"].SHOWN.clear()
      engine.same(
          wrapping.html_plain(htmlcheck.read(data)).replace("\u21a9\n", "\n"),
          context + text, "text displayed")
      engine.ensure(
          data.endswith(self.a.render_tokens_and_log_probs_to_html(exp)),
          "tokens displayed", data, exp)
    ctx.count(states=1, transitions=len(leaves), traces=2)
    ctx.outcome((lang, len(leaves)))

  def _html(self, texts, ctx):
    toks = [(t, -0.5 * i) for i, t in enumerate(texts)]
    out = self.a.render_tokens_and_log_probs_to_html(toks)
    m = re.fullmatch(r"<span[^<>]*>(.*)</span>", out, re.S)
    engine.ensure(m, "no single enclosing span", out)
    inner = re.findall(r"<span style=\"([^\"<>]*)\">([^<>]*)</span>",
                       m.group(1))
    engine.same("".join(f'<span style="{s}">{b}</span>' for s, b in inner),
                m.group(1), "spans cover everything")
    engine.same([html.unescape(b).replace("\u21a9\n", "\n")
                 for _, b in inner], texts, "rendered texts")
    for (style, _), (_, p) in zip(inner, toks):
      nums = [float(x) for x in re.findall(r"([\d.e+-]+)%", style)]
      for a, e in zip(nums, [100, 100 * math.exp(p), 100 * math.exp(p)]):
        engine.close(a, e, "colour", 1e-6)
      engine.same(len(nums), 3, "colour components")
    ctx.count(states=1, transitions=len(texts), traces=1)
    ctx.outcome(len(texts))
