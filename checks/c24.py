from mc import annot
from mc import engine
from mc import htmlcheck
from mc import trees

L = engine.Level
TOKS = [["t", "a", None], ["t", "<b>&\"'", "k"], ["d", " "]]


class CHECK(engine.Check):
  """Every prototype within the bounds and every well-formed annotation of it:
  the extracted token sequence and the parsed HTML rendering are compared with
  a reference walk (states: prototypes, transitions: annotations)."""

  id = "C24"

  def prepare(self):
    self.m = annot.mods()
    self.rd = self.m["rd"]

  def levels(self):
    t = self.thorough

    def all_():
      yield from trees.forests_upto(5, [TOKS[0], TOKS[2], "S", "E", "X"],
                                    [None])

    def texts():
      # every choice of texts at the places of the tokens
      for f in trees.forests(4 if not t else 5, [TOKS[1], TOKS[0], "S", "E"],
                             ["g"], 1):
        yield f
      for s in ("&lt;", "</span>", "<!--", "&", "<?x", "\n", "\t\"", "'",
                "<style>", "\u00a0<", "]]>", "", "\r\n", "\r", "\f", "\0", "&#65;", "  ",
                "\u2028", "\U0001f600", "e\u0301", "\ud800", "{x}", "%s",
                "\\n", "x" * 5000, "<" * 2000):
        for mk in (lambda x: ["t", x, None], lambda x: ["d", x]):
          yield ["S", mk(s), "E", mk(s), "X", mk(s)]

    def flat():
      yield from trees.forests(7 if t else 6, [TOKS[0], "S", "E"], [None], 0)

    return [
        L("all", "all prototypes of <=5 nodes, all well-formed annotations",
          all_),
        L("texts", "texts that need escaping", texts),
        L("long", "7 tokens with one or two regions or an exit anywhere; "
          "towers up to depth 9",
          lambda: (c for it in (annot.long_prototypes(7),
                                annot.towers(range(1, 10))) for c in it)),
        L("far", "up to 130 tokens beside the decision points; groups "
          "nested up to 40 deep",
          lambda: (c for it in (
              annot.far((20, 70, 130)),
              (annot.tower(d, m, k) for d in (12, 20, 40)
               for m in ("SE", "X", "mid")
               for k in sorted({0, 1, d // 2, d - 1, d}))) for c in it)),
        L("flat", "flat prototypes of %d nodes" % (7 if t else 6), flat),
    ]

  def run_case(self, case, ctx):
    storage = annot.pack(case)
    n = 0
    for a, _ in annot.annotations(case, nested=True):
      n += 1
      real = annot.real_assign(a)
      before = dict(real)
      shown = annot.shown(case, a)
      for marker in ("", "@", " ", "<&>"):
        got = [(x.token_or_decoration, x.in_annotated_region)
               for x in self.rd.extract_sequence_with_regions(
                   storage, real, marker)]
        exp = [(marker if text is None else text, r) for text, r, _ in shown]
        engine.same(got, exp, f"extracted suggestion for {a}")
      default = [(x.token_or_decoration, x.in_annotated_region)
                 for x in self.rd.extract_sequence_with_regions(
                     storage, real)]
      engine.same([x for x in default if x[0]],
                  [(t, r) for t, r, _ in shown if t],
                  "extracted suggestion")
      self._html(self.rd.render_regions_to_html(storage, real), shown)
      engine.same(real, before, "assignment afterwards")
    ctx.count(states=1, transitions=n, traces=2 * n)
    ctx.outcome((n, trees.size(case)))

  def _html(self, text, shown):
    p = htmlcheck.read(text)
    got = []
    for data, stack in p.items:
      tags = [t for t, _ in stack]
      if "style" in tags:
        continue
      classes = [c for _, c in stack]
      if not classes:
        engine.ensure(not data.strip(), "text outside of the root", data)
        continue
      engine.same(classes[0], "regions_root", "root element")
      inside = classes[1:] == ["in_region"]
      engine.ensure(inside or len(classes) == 1, "nesting", classes)
      got += [(c, inside) for c in data]
    exp = []
    for t, r, _ in shown:
      # the HTML shows an empty region as one marker character
      exp += [(c, r) for c in ("\0" if t is None else t)]
    engine.same(len(got), len(exp), f"length of the text shown {got!r}")
    for (c, r), (c2, r2) in zip(got, exp):
      engine.ensure((c == c2 or c2 == "\0") and r == r2,
                    "HTML shows", got, "expected", exp)
    runs = 0
    prev = False
    for t, r, _ in shown:
      runs += r and not prev
      prev = r
    engine.same(sum(1 for s in p.spans if s[1] == "in_region"), runs,
                "highlighted spans")
