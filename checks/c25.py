import ast
import re

from mc import annot
from mc import engine
from mc import htmlcheck
from mc import trees

L = engine.Level
A = ["t", "a", None]
B = ["t", "bbb", None]
D = ["d", " "]
NEW = ["t", "zz", None]
ESC = ["t", "<&'", None]
LINE = re.compile(r"^(\w+), (\w+): (.*) => (.*)$")


def texts(forest, deco):
  out = []
  for ev, _, n, _ in annot.flat(forest):
    if ev == "leaf" and not isinstance(n, str):
      if n[0] == "t" or deco:
        out.append(n[1])
  return out


class CHECK(engine.Check):
  """For every prototype / target pair within the bounds and every well-formed
  annotation, the text report, the HTML report and the summary metrics of an
  optimal path are parsed back and compared with the tokens and the rates
  (states: pairs, transitions: report lines, traces: annotations)."""

  id = "C25"

  def prepare(self):
    self.m = annot.mods()
    self.ed = self.m["ed"]
    self.build = self.ed.make_edit_dag_builder(with_numba=False)

  def levels(self):
    t = self.thorough
    tg = list(trees.forests_upto(2, [A, B], [None]))
    tgd = list(trees.forests_upto(3 if t else 2, [A, D], [None]))

    def plain():
      for p in trees.forests_upto(3, [A, B], [None]):
        for q in trees.forests_upto(3, [A, B], [None], 1):
          yield [p, q]

    def regions():
      for p in trees.forests_upto(4 if t else 3, [A, B, "S", "E", "X"],
                                  [None]):
        for q in tg:
          yield [p, q]

    def decorated():
      for p in trees.forests_upto(3, [A, B, D, "X"], [None]):
        for q in tgd:
          yield [p, q]

    def escapes():
      for p in trees.forests_upto(3, [A, ESC, "S", "E"], [None], 1):
        for q in ([], [ESC], [ESC, A], [A, ESC]):
          yield [p, q]

    def layout():
      for x in ("\n", "\n\n  ", "\t", "\r\n", "# c", ""):
        d = ["d", x]
        for y in {x, "\n", " "}:
          e = ["d", y]
          for p in ([A, d, B], [d, A, d], ["S", A, d, B, "E"], [A, d, "X", B],
                    [["g", [d, A, d], None], d, B], [A, d, d, B],
                    ["S", d, "E", A]):
            for q in ([A, e, B], [A, B], [B, e], [e], [e, A, e, B, e],
                      [["g", [e, A], None], e, e, B], [NEW, e, A, e, NEW]):
              yield [p, q]

    return [
        L("plain", "prototypes and targets of <=3 nodes", plain),
        L("regions", "prototypes of <=%d nodes with decisions"
          % (4 if t else 3), regions),
        L("decorated", "with decorations and exits", decorated),
        L("texts", "all pairs of %d texts and of %d kinds, with a region, a "
          "group, a neighbour" % (len(annot.TEXTS), len(annot.KINDS)),
          lambda: annot.text_pairs(True)),
        L("words", "%d different tokens, one region / exit / group anywhere, "
          "all subsequences, swaps, insertions" % (6 if t else 4),
          lambda: ([p, q] for p in annot.long_prototypes(6 if t else 4)
                   for q in annot.long_targets(6 if t else 4))),
        L("towers", "groups nested 3 deep, one difference anywhere",
          lambda: annot.tower_pairs((3,))),
        L("rates", "a few pairs under %d extreme sets of rates"
          % len(annot.RATES), lambda: annot.rate_pairs({})),
        L("layout", "decorations of six kinds in prototype and target",
          layout),
        L("far", "12 tokens beside the decision points, short targets",
          lambda: ([p, q] for p in annot.far((12,))
                   for q in ([], [annot.WORD[2]],
                             [annot.WORD[0], annot.WORD[2]]))),
        L("bundles", "groups of 0-12 children against one another",
          lambda: annot.bundles((0, 1, 2, 7, 12))),
        L("escapes", "texts that need escaping", escapes),
    ]

  def run_case(self, case, ctx):
    proto, target = case[:2]
    sets = annot.PARAMS[:2]
    if len(case) > 2:
      sets = [annot.RATES[case[2]["rates"]]]
    self.deco = set("".join(
        n[1] for f in (proto, target) for ev, _, n, _ in annot.flat(f)
        if ev == "leaf" and n[0] == "d"))
    keys = annot.decisions(proto)
    ps, ts = annot.pack(proto), annot.pack(target)
    for par in sets:
      dag, _ = self.build(ps, ts, annot.real_params(par))
      packed, conv = self.ed.pack_dag(self.m["g"].prune_to_reachable(dag))
      for a, exited in annot.annotations(proto, nested=True):
        real = annot.real_assign(a)
        path, _ = self.m["pd"].constrained_best_path(
            packed, conv, {k: v for k, v in real.items()
                           if k in conv.variable_key_index_from_key})
        cost = annot.edit_cost(proto, target, a, par)
        n = self._text(proto, target, a, exited, par, path, ps, ts, cost)
        self._html(proto, target, a, exited, path, ps, ts)
        self._summary(proto, target, a, exited, par, path, ps, ts, cost)
        ctx.count(transitions=n, traces=3)
    ctx.count(states=1)
    ctx.outcome((len(keys), len(path), round(cost, 3)))

  def _bare(self, text):
    """Without the characters of the decorations (which no token has)."""
    return "".join(c for c in text if c not in self.deco)

  def _accounts(self, proto, target, a, exited, kept, deleted_or_kept,
                kept_or_inserted, what):
    """The three projections of a report against the two sequences."""
    shown = [x for x in annot.shown(proto, a) if x[0] is not None]
    engine.same(deleted_or_kept, "".join(x[0] for x in shown),
                f"{what}: prototype read off the report")
    pt = "".join(x[0] for x in shown if x[2])
    tt = "".join(texts(target, False))
    got_t = self._bare(kept_or_inserted)
    if exited:
      engine.ensure(tt.startswith(got_t),
                    f"{what}: target read off the report", got_t, tt)
    else:
      engine.same(got_t, tt, f"{what}: target read off the report")
    del pt, kept
    return len(got_t)

  def _text(self, proto, target, a, exited, par, path, ps, ts, cost):
    report = self.ed.extract_edit_sequence_text(path, ps, ts)
    lines = report.split("\n")
    m = re.match(r"^FINISH \(total cost: (.*)\)$", lines[-1])
    engine.ensure(m, "last line of the report", lines[-1])
    annot.near(float(m.group(1)), cost, "total cost of the report")
    entries = []
    for l in lines[:-1]:
      m = LINE.match(l)
      engine.ensure(m, "line of the report", l)
      entries.append((m.group(1), m.group(2), ast.literal_eval(m.group(3)),
                      float(m.group(4))))
    annot.near(sum(e[3] for e in entries), cost, "sum of the line costs")
    for x, y in zip(entries, entries[1:]):
      engine.ensure(x[:2] != y[:2], "neighbouring lines of one kind", x, y)
    rates = {("KEEP", "HIGH_CONFIDENCE"): -par["hm"],
             ("KEEP", "LOW_CONFIDENCE"): -par["lm"],
             ("DELETE", "HIGH_CONFIDENCE"): par["hd"],
             ("DELETE", "LOW_CONFIDENCE"): par["ld"],
             ("INSERT", "NOT_APPLICABLE"): par["ins"]}
    regions = 0.0
    for act, conf, content, c in entries:
      if (act, conf) in rates:
        annot.near(c, rates[act, conf] * len(self._bare(content)),
                     f"cost of {act} {conf} {content!r}")
      else:
        engine.same(content, "", f"text of {act}")
        if act == "START_LOW_CONFIDENCE":
          regions += c
        elif act == "START_EDITING":
          r = par["hs"] if conf == "HIGH_CONFIDENCE" else par["ls"]
          engine.ensure(c == 0 if r == 0 else c / r > 0.5
                        and abs(c / r - round(c / r)) < 1e-9,
                        "cost of starting to edit", c)
        elif act == "EARLY_EXIT":
          engine.same(c, 0.0, "cost of an exit")
        else:
          engine.ensure(False, "unknown entry", act, conf)
    annot.near(regions, par["reg"] * sum(
        1 for k, v in a.items() if k[1] == "S" and v == "T"), "region costs")
    engine.same(any(e[0] == "EARLY_EXIT" for e in entries), exited,
                "exit reported")
    self._accounts(
        proto, target, a, exited, None,
        "".join(e[2] for e in entries if e[0] in ("KEEP", "DELETE")),
        "".join(e[2] for e in entries if e[0] in ("KEEP", "INSERT")), "text")
    # confidence of each kept or deleted token
    exp = []
    for t, r, tok in annot.shown(proto, a):
      if tok:
        exp += [(c, r) for c in t]
    got = []
    for act, conf, content, _ in entries:
      if act in ("KEEP", "DELETE"):
        got += [(c, conf == "LOW_CONFIDENCE") for c in self._bare(content)]
    engine.same(got, exp, "confidence of the prototype's characters")
    self.entries = entries
    return len(entries)

  def _confidence(self, classes, prefix=""):
    got = [c.upper() for c in ("high_confidence", "low_confidence")
           if prefix + c in classes]
    engine.ensure(len(got) < 2, "classes of a span", classes)
    return got[0] if got else "NOT_APPLICABLE"

  def _html(self, proto, target, a, exited, path, ps, ts):
    for prefix, marker in (("", None), ("x<y>&", "#"), (" \n x\t", "<b>")):
      kw = {} if marker is None else dict(start_editing_marker=marker)
      text = self.ed.extract_edit_sequence_html(path, ps, ts, prefix=prefix,
                                                **kw)
      p = htmlcheck.read(text)
      kd, ki, pre = "", "", ""
      starts = 0
      spans = []
      for tag, cls, body, _ in p.spans:
        if tag == "style":
          continue
        cls = cls.split()
        if "prefix" in cls:
          pre += body
        elif "start_editing" in cls:
          starts += 1
          spans.append(("START_EDITING", self._confidence(cls), ""))
          if marker is not None:
            engine.ensure(body and not body.replace(marker, ""),
                          "start marker", body)
        elif "edit_sequence_root" in cls:
          pass
        else:
          n = [c for c in ("keep", "delete", "insert") if c in cls]
          engine.same(len(n), 1, f"class of a report span {cls}")
          if n[0] == "insert":
            was = spans[-1][1] if spans else "NOT_APPLICABLE"
            engine.same(self._confidence(cls, "was_"), was,
                        "confidence shown in front of an insertion")
          spans.append((n[0].upper(), self._confidence(cls), body))
          if n[0] != "insert":
            kd += body
          if n[0] != "delete":
            ki += body
      engine.same(pre, prefix, "prefix shown")
      for data, stack in p.items:
        if not any(t == "style" for t, _ in stack):
          engine.ensure(len(stack) == 2 or not data.strip(),
                        "text outside of the spans", data)
      self._accounts(proto, target, a, exited, None, kd, ki, "HTML")
      engine.same(spans, [e[:3] for e in self.entries
                          if e[2] or e[0] == "START_EDITING"],
                  "entries of the HTML form")
    styled = self.ed.extract_edit_sequence_html(
        path, ps, ts, style_override="<style>.x{}</style>")
    q = htmlcheck.read(styled)
    engine.same([s[2] for s in q.spans if s[0] == "style"], [".x{}"],
                "overridden style")

  def _summary(self, proto, target, a, exited, par, path, ps, ts, cost):
    m = self.ed.extract_edit_summary_metrics(path, ps, ts)
    tot = {}
    for k, v in m.items():
      head, what = k.rsplit("_", 1)
      for act in ("KEEP", "DELETE", "INSERT", "PROTOTYPE_DECORATION",
                  "TARGET_DECORATION", "START_LOW_CONFIDENCE",
                  "START_EDITING", "EARLY_EXIT"):
        for conf in ("HIGH_CONFIDENCE", "LOW_CONFIDENCE", "NOT_APPLICABLE"):
          if head == f"{act}_{conf}":
            tot[act, conf, what] = v
    engine.same(len(tot), len(m), f"known metrics {sorted(m)}")
    annot.near(sum(v for (x, y, w), v in tot.items() if w == "cost"), cost,
                 "sum of the metric costs")

    def s(act, w, conf=None):
      return sum(v for (x, y, z), v in tot.items()
                 if x == act and z == w and conf in (None, y))

    shown = [x for x in annot.shown(proto, a) if x[0] is not None]
    for conf, flag in (("HIGH_CONFIDENCE", False), ("LOW_CONFIDENCE", True)):
      tk = [x for x in shown if x[2] and x[1] == flag]
      engine.same((s("KEEP", "edges", conf) + s("DELETE", "edges", conf),
                   s("KEEP", "chars", conf) + s("DELETE", "chars", conf)),
                  (len(tk), sum(len(x[0]) for x in tk)),
                  f"prototype tokens counted ({conf})")
      dk = [x for x in shown if not x[2] and x[1] == flag]
      engine.same((s("PROTOTYPE_DECORATION", "edges", conf),
                   s("PROTOTYPE_DECORATION", "chars", conf)),
                  (len(dk), sum(len(x[0]) for x in dk)),
                  f"prototype decorations counted ({conf})")
      km, dm = ((par["lm"], par["ld"]) if flag else (par["hm"], par["hd"]))
      annot.near(s("KEEP", "cost", conf), -km * s("KEEP", "chars", conf),
                   "keep cost")
      annot.near(s("DELETE", "cost", conf), dm * s("DELETE", "chars", conf),
                   "delete cost")
      annot.near(s("START_EDITING", "cost", conf),
                   (par["ls"] if flag else par["hs"])
                   * s("START_EDITING", "edges", conf), "start cost")
    annot.near(s("INSERT", "cost"), par["ins"] * s("INSERT", "chars"),
                 "insert cost")
    tt = texts(target, False)
    if not exited:
      engine.same((s("KEEP", "edges") + s("INSERT", "edges"),
                   s("KEEP", "chars") + s("INSERT", "chars")),
                  (len(tt), len("".join(tt))), "target tokens counted")
      td = len(texts(target, True)) - len(tt)
      engine.same(s("TARGET_DECORATION", "edges"), td,
                  "target decorations counted")
    engine.same(s("START_LOW_CONFIDENCE", "edges"),
                sum(1 for k, v in a.items() if k[1] == "S" and v == "T"),
                "regions counted")
    engine.same(s("EARLY_EXIT", "edges"), int(exited), "exits counted")
