import itertools
import math

from mc import annot
from mc import dags
from mc import drawing
from mc import engine
from mc import trees

L = engine.Level
TOL = 1e-6
DIRS = ("UP", "UP_RIGHT", "RIGHT", "DOWN_RIGHT", "DOWN", "DOWN_LEFT", "LEFT",
        "UP_LEFT", "AROUND")
TEXTS = ("a", "<b>&\"'", "x\ny", "", "</g>", "a\n\n<c", "&lt;", "</text>\n-->",
         "<!--", "1\n2\n3\n4")
HOVERS = (None, "h", "<t>&\"'\n", "</title>")
A = ["t", "a", None]
B = ["t", "<b>'\n", "k"]
D = ["d", " "]


def near(a, b):
  if isinstance(a, (list, tuple)):
    return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
  return abs(a - b) <= TOL * (1 + abs(b))


def ops_alphabet():
  """One operation: [name, args...]; ["g", hover, tags, [operations]]."""
  return [
      ["box", [0, 0, 10, 4], "a&<b", "h<", 2.0, ["p"]],
      ["box", [-5, 3, 2, 2], "x\ny\nz", None, 1.5, []],
      ["pt", [7, -3], "<t>", "RIGHT", None, 0.5, 2.0, ["q", "r"]],
      ["pt", [-1, 20], "u\nv", "UP", "h&", 0.0, 1.0, []],
      ["con", [1, 1, 1, 1], ["s"]],
      ["con", [-8, -8, 30, 2.5], []],
      ["line", [[0, 0], [3, 4.5], [-2, 1]], "h", ["l"]],
      ["line", [[12, 12]], None, []],
      ["dot", [4, 4], None, []],
      ["dot", [-9, 50], "<x", ["d", "e"]],
      ["svg", [77, -5], ["own"]],
  ]


class CHECK(engine.Check):
  """Every sequence of drawing operations within the bounds (groups nested) is
  drawn and read back; every small diagram with every set of emphasised edges,
  and the diagrams of all small prototypes and targets, are drawn and compared
  with what has to be shown (states: drawings, transitions: items drawn)."""

  id = "C30"

  def prepare(self):
    from r_u_sure.rendering import dag_annotator  # pylint: disable=g-import-not-at-top
    from r_u_sure.rendering import render_in_notebook  # pylint: disable=g-import-not-at-top
    from r_u_sure.rendering import rendering  # pylint: disable=g-import-not-at-top
    from r_u_sure.rendering import simple_dag_annotator  # pylint: disable=g-import-not-at-top
    from r_u_sure.rendering import svg_renderer  # pylint: disable=g-import-not-at-top
    from r_u_sure.edit_distance_utility import part_selection_dags  # pylint: disable=g-import-not-at-top
    from IPython import display  # pylint: disable=g-import-not-at-top
    self.da, self.rn, self.r = dag_annotator, render_in_notebook, rendering
    self.sa, self.sv, self.ps = (simple_dag_annotator, svg_renderer,
                                 part_selection_dags)
    self.display = display
    self.m = annot.mods()
    self.ed, self.cd = self.m["ed"], self.m["cd"]
    self.edit = self.ed.make_edit_dag_builder(with_numba=False)
    self.con = self.cd.make_constraint_dag_builder(with_numba=False)
    par = part_selection_dags.PartSelectionUtilityParameters(
        token_node_utility_fn=lambda n:
        part_selection_dags.UtilitiesAndCostsForNode(1.0, 0.5))
    self.sel = part_selection_dags.make_selection_dag_builder(
        par, with_numba=False)

  # -- cases -----------------------------------------------------------------

  def levels(self):
    t = self.thorough

    def ops():
      al = ops_alphabet()
      n = 4 if t else 3
      for k in range(n + 1):
        for seq in itertools.product(range(len(al)), repeat=k):
          # every way to put groups over the sequence: none, all, first two
          # in one, and two levels
          s = [al[i] for i in seq]
          yield ["ops", s]
          if k <= 2:
            yield ["ops", [["g", "gh<", ["gc", "gd"], s]]]
            yield ["ops", [["g", None, [], [["g", "in&", ["x"], s]]] + []]]
          if k in (2, 3):
            yield ["ops", [["g", None, ["gc"], s[:1]]] + s[1:]]
            yield ["ops", s[:1] + [["g", "o", ["gc"], s[1:]]]]
            yield ["ops", [["g", "o", ["gc"],
                            [["g", "i", ["ic"], s[:1]]] + s[1:]]]]

    def labels():
      for d in DIRS:
        for text in TEXTS:
          for pad in (0.0, 0.5, 2.0):
            for size in (1.0, 10.0):
              for pt in ([0, 0], [3.5, -7]):
                yield ["ops", [["pt", pt, text, d, "h", pad, size, ["c"]]]]
      for text in TEXTS:
        for h in HOVERS:
          yield ["ops", [["box", [1, 2, 30, 40], text, h, 3.0, ["c"]]]]
          yield ["ops", [["pt", [1, 2], text, "DOWN", h, 0.5, 3.0, []]]]
          yield ["ops", [["line", [[1, 2], [3, 4]], h, ["a", "b"]]]]
          yield ["ops", [["dot", [1, 2], h, ["a", "b"]]]]
          yield ["ops", [["g", h, ["a"], [["box", [0, 0, 1, 1], text, "q",
                                           1.0, []]]]]]

    def geometry():
      pts = [[x, y] for x in (-2, 0, 1.5) for y in (-1, 0, 3)]
      for k in (1, 2, 3) + ((4,) if t else ()):
        for c in itertools.product(pts, repeat=k):
          yield ["ops", [["line", list(c), None, []]]]
      items = []
      for p in pts:
        items += [["dot", p, None, []],
                  ["box", p + [2, 1], "t", None, 1.0, []],
                  ["con", p + [1, 2.5], []],
                  ["pt", p, "t", "LEFT", None, 0.5, 1.0, []],
                  ["line", [p, [0, 1], [0.5, 0.5]], None, []]]
      for a, b in itertools.product(items, repeat=2):
        yield ["ops", [a, b]]

    def boxes():
      v = (-2, 0, 1.5)
      sz = (0, 1, 2.5)
      bs = list(itertools.product(v, v, sz, sz))
      for a in bs:
        for b in bs if t else bs[::2]:
          yield ["boxes", list(a), list(b)]

    def diagrams():
      labs = [(1, None, None), (0, "k", "v")]
      for n in (1, 2, 3):
        for c in dags.all_dags(n, labs, 2 if n < 3 else 1):
          for lay in range(4):
            yield ["dag", c, lay]
      for c in dags.all_dags(4, [(1, None, None)], 1):
        for lay in range(4):
          yield ["dag", c, lay]
      # parallel edges that differ only in one respect
      for pair in ([[0, 1, 1, None, None], [0, 1, 1, None, None]],
                   [[0, 1, 1, None, None], [0, 1, 2, None, None]],
                   [[0, 1, 1, "k", "v"], [0, 1, 1, "k", "w"]],
                   [[0, 1, 1, "k", "v"], [0, 1, 1, "l", "v"]],
                   [[0, 1, 1, "k", "v"], [0, 1, 1, None, None]],
                   [[0, 2, "inf", None, None], [0, 1, "inf", "k", "v"]]):
        for more in ([], [[1, 2, 0.5, None, None]]):
          for lay in range(4):
            yield ["dag", {"n": 3, "edges": pair + more}, lay]

    def real():
      leaves = [A, D, "S", "E", "X"]
      for p in trees.forests_upto(4 if t else 3, leaves, [None]):
        yield ["con", p]
      for p in trees.forests_upto(3 if t else 2, [A, B, D, "S", "E", "X"],
                                  [None]):
        for q in trees.forests_upto(2, [A, B, D], [None]):
          yield ["edit", p, q]
      for p in trees.forests_upto(3 if t else 2, [A, B, D, "S", "E"], [None]):
        for q in trees.forests_upto(2, [A, B, D], [None]):
          yield ["sel", p, q]

    def fine():
      vals = [1 / 3, -0.0004321, 123456.789, -98765.4321, 0.01, 1e-9, 1e9]
      for i, x in enumerate(vals):
        for y in vals:
          z, w = vals[i - 1], abs(vals[i - 2])
          yield ["ops", [["box", [x, y, w, abs(y)], "a\nb", "h", 0.37, []]]]
          yield ["ops", [["con", [x, y, abs(y), w], []]]]
          yield ["ops", [["dot", [x, y], None, []]]]
          yield ["ops", [["line", [[x, y], [z, w], [y, x]], None, []]]]
          yield ["ops", [["pt", [x, y], "a\nb\nc", DIRS[i], None, 0.37, 1.7,
                          []]]]
          yield ["ops", [["pt", [x, y], "a", DIRS[-i], None, 2.125, 0.07, []]]]

    def characters():
      chars = [chr(i) for i in range(1, 256) if i != 13] + list(
          "\u0130\u0301\u2028\u2029\ufeff\u200b\u200d\u65e5\U0001f600\ufffd")
      for ch in chars:
        for text in (ch, "a" + ch + "b", ch * 3 + "\n" + ch):
          yield ["ops", [["box", [1, 2, 3, 4], text, text, 1.0, []],
                         ["pt", [1, 2], text, "UP", text, 0.5, 3.0, []],
                         ["line", [[1, 2], [3, 4]], text, []],
                         ["dot", [1, 2], text, []],
                         ["g", text, [], [["dot", [3, 1], None, []]]]]]
      for e in ("&amp;", "&#39;", "&", "&copy", "&lt", "<br>", "<text>", "</svg>",
                "</style>", "<script>x</script>", "]]>", "<?x?>", "%s", "{x}",
                "{0}", "\\n", "\\", "$a", "--", "'", "\"", "a" * 300,
                "x " * 200, "None", "0", "  ", " a ", "\n", "\n\n", "a\n"):
        for text in (e, "a" + e, e + "b\n" + e):
          yield ["ops", [["box", [1, 2, 3, 4], text, text, 1.0, []],
                         ["pt", [1, 2], text, "LEFT", text, 0.5, 3.0, []],
                         ["g", text, [], [["dot", [3, 1], text, []]]]]]

    def bulk():
      al = ops_alphabet()
      for n in (8, 20, 60):
        yield ["ops", [al[(i * i + 3 * i) % 11] for i in range(n)]]
        text = "\n".join("l%d" % i for i in range(n))
        for d in DIRS:
          yield ["ops", [["pt", [1, 2], text, d, None, 0.5, 3.0, []]]]
        yield ["ops", [["box", [1, 2, 3, 4], text, text, 3.0,
                        ["c%d" % i for i in range(n)]]]]
        pts = [[(i * 7) % 11, (i * i) % 13] for i in range(n)]
        yield ["ops", [["line", pts, None, []]]]
        for at in range(0, n, 5):  # one corner far away
          far = [list(p) for p in pts]
          far[at] = [99 - at, -50]
          yield ["ops", [["line", far, None, []]]]
          yield ["ops", [["dot", q, None, []] for q in far]]
          yield ["ops", [["con", q + [1, 1], []] for q in far]]
          yield ["ops", [["pt", q, "a", "UP", None, 0.5, 1.0, []]
                         for q in far]]
      for d in (5, 15):
        deep = [al[0], al[9]]
        for i in range(d):
          deep = [["g", "h%d" % i if i % 3 else None, ["k%d" % i], deep],
                  al[i % 11]]
        yield ["ops", deep]

    def large():
      shapes = []
      for n in (12, 30):
        chain = [[i, i + 1, 1, None, None] for i in range(n - 1)]
        shapes.append((n, chain))
        shapes.append((n, chain + [[i, i + 2, 0.5, "k%d" % i, "v"]
                                   for i in range(0, n - 2, 3)]))
        shapes.append((n, [[0, i, 1, "k", i] for i in range(1, n - 1)]
                       + [[i, n - 1, i, None, None] for i in range(1, n - 1)]))
        shapes.append((n, [[0, n - 1, i, "k", i % 3] for i in range(n)]))
        for cut in (0, n // 2, n - 2):  # one edge cannot be taken
          c2 = [list(e) for e in chain]
          c2[cut][2] = "inf"
          shapes.append((n, c2))
      for n, edges in shapes:
        for lay in (0, 2, 3):
          yield ["dag", {"n": n, "edges": edges}, lay]
      for cost in (1e-9, 1e9, -3.25, 0.1 + 0.2, 123456.789, "inf", 0):
        yield ["dag", {"n": 2, "edges": [[0, 1, cost, "k", "<v>"]]}, 0]

    def long():
      for n in (5, 9):
        toks = [["t", "w%d" % i, None] for i in range(n)]
        for at in range(0, n, 2):
          p = toks[:at] + ["S"] + toks[at:n - 1] + ["E", "X"] + toks[n - 1:]
          yield ["con", p]
          if n < 9 or t:
            yield ["edit", p, toks[:3]]
            yield ["edit", toks[:2], toks[at:]]
          p = toks[:at] + ["S", D] + toks[at:at + 2] + ["E"] + toks[at + 2:]
          yield ["sel", p, toks[:at] + toks[at + 1:at + 4]]
      for d in (3, 6):
        p = [A]
        for i in range(d):
          p = [["g", (["S"] if i % 2 else []) + p + (["E"] if i % 2 else []),
                "k%d" % i]]
        yield ["con", p]
        if d < 6 or t:
          yield ["edit", p, [["g", [A], "k0"]]]
          yield ["sel", p, [["g", [A], "k0"]]]
      for x in ("", "\n", "a" * 200, "'\"", "<&>", "\\", "\t", "\u00e9", "a b", "\0"):
        for q in (["t", x, "m"], ["d", x]):
          yield ["con", ["S", q, A, "E"]]
          yield ["edit", ["S", q, "E"], [q]]
          yield ["sel", ["S", q, "E"], [q]]

    return [
        L("fine", "coordinates and sizes from 1e-9 to 1e9", fine),
        L("characters", "every Latin and some other characters, entities and "
          "markup in labels and hover texts", characters),
        L("bulk", "up to 60 items, lines, corners, tags; groups 15 deep", bulk),
        L("large", "diagrams of 12 and 30 states; extreme costs", large),
        L("long", "long and deep prototypes and targets, unusual texts", long),
        L("labels", "all directions x texts x paddings, all hover texts",
          labels),
        L("ops", "all sequences of <=%d operations, groups nested <=2"
          % (4 if t else 3), ops),
        L("geometry", "all lines of <=%d corners on a small grid and all pairs "
          "of items on it" % (4 if t else 3), geometry),
        L("boxes", "all pairs of boxes on a small grid", boxes),
        L("diagrams", "all diagrams of <=3 states with two kinds of edges, 4 "
          "states with plain edges; all sets of <=2 emphasised edges; four "
          "layouts", diagrams),
        L("real", "diagrams of all small prototypes and targets", real),
    ]

  def run_case(self, case, ctx):
    getattr(self, "_" + case[0])(case, ctx)

  # -- operations ------------------------------------------------------------

  def _apply(self, rd, ops):
    r = self.r
    for op in ops:
      k = op[0]
      if k == "box":
        rd.label_in_box(r.BoundingBox(*op[1]), op[2], op[3], op[4],
                        tuple(op[5]))
      elif k == "pt":
        rd.label_at_point(
            point=r.Point(*op[1]), text=op[2], text_size=op[6],
            direction=r.PointDirection[op[3]], hover_text=op[4],
            padding_fraction=op[5], style_tags=tuple(op[7]))
      elif k == "con":
        rd.container(r.BoundingBox(*op[1]), tuple(op[2]))
      elif k == "line":
        rd.line([r.Point(*p) for p in op[1]], op[2], tuple(op[3]))
      elif k == "dot":
        rd.dot(r.Point(*op[1]), op[2], tuple(op[3]))
      elif k == "svg":
        rd.add_custom_svg('<circle cx="%s" cy="%s" class="%s"/>' % (
            op[1][0], op[1][1], " ".join(op[2])))
      else:
        with rd.group(hover_text=op[1], style_tags=tuple(op[2])):
          self._apply(rd, op[3])

  def _read(self, fig, items, ops, hover, around, on, pts):
    """Checks that the items of the figure, in order, show the operations."""

    def take(tag):
      engine.ensure(items, f"nothing drawn where a {tag} is due")
      it = items.pop(0)
      engine.same(it["tag"], tag, "kind of the item drawn")
      return it

    def common(it, tags, h):
      engine.same(it["hover"], h if h is not None and on else hover,
                  "hover text")
      for c in tags:
        engine.ensure(c in it["cls"], f"style tag {c} missing in {it['cls']}")
      for c in around:
        engine.ensure(c in it["around"],
                      f"style tag {c} of the group missing")

    for op in ops:
      k = op[0]
      if k in ("box", "con"):
        it = take("rect")
        engine.ensure(near(it["geo"], op[1]), f"box at {it['geo']}, not "
                      f"{op[1]}")
        x, y, w, h = op[1]
        pts += [[x, y], [x + w, y + h]]
        if k == "con":
          common(it, op[2], None)
          continue
        common(it, op[5], op[3])
        size = op[4]
        lines = op[2].split("\n")
        ys = []
        for line in lines:
          it = take("text")
          engine.same(it["text"], line, "text of the label")
          engine.ensure(near(it["size"], size), "size of the label")
          engine.ensure(near(it["geo"][0], x + w / 2), "label off centre")
          engine.ensure(drawing.centred(it, fig), "label not centred")
          common(it, [], op[3])
          ys.append(it["geo"][1])
        self._spaced(ys, size)
        engine.ensure(near((ys[0] + ys[-1]) / 2, y + h / 2),
                      f"label lines at {ys}, not centred in {op[1]}")
      elif k == "pt":
        (x, y), text, d, h, pad, size, tags = op[1:]
        pts.append([x, y])
        ys = []
        for line in text.split("\n"):
          it = take("text")
          engine.same(it["text"], line, "text of the label")
          engine.ensure(near(it["size"], size), "size of the label")
          common(it, tags, h)
          anchor = it["style"].get("text-anchor", "start")
          base = it["style"].get("dominant-baseline")
          engine.same(base, "middle", "baseline of the label")
          if d.endswith("LEFT"):
            engine.same(anchor, "end", "anchor of a label to the left")
            engine.ensure(near(it["geo"][0], x - pad * size),
                          f"label at x={it['geo'][0]}")
          elif d.endswith("RIGHT"):
            engine.same(anchor, "start", "anchor of a label to the right")
            engine.ensure(near(it["geo"][0], x + pad * size),
                          f"label at x={it['geo'][0]}")
          else:
            engine.same(anchor, "middle", "anchor of a centred label")
            engine.ensure(near(it["geo"][0], x), "label off centre")
          ys.append(it["geo"][1])
        self._spaced(ys, size)
        top, bottom = ys[0] - size / 2, ys[-1] + size / 2
        if d.startswith("UP"):
          engine.ensure(near(bottom, y - pad * size),
                        f"label {d} of y={y} spans {top}..{bottom}")
        elif d.startswith("DOWN"):
          engine.ensure(near(top, y + pad * size),
                        f"label {d} of y={y} spans {top}..{bottom}")
        elif d == "AROUND":
          n = (len(ys) + 1) // 2
          engine.ensure(near(top + n * size, y),
                        f"label around y={y} spans {top}..{bottom}")
        else:
          engine.ensure(near((top + bottom) / 2, y),
                        f"label {d} of y={y} spans {top}..{bottom}")
      elif k == "line":
        it = take("path")
        engine.ensure(near(it["geo"], op[1]), f"line at {it['geo']}")
        common(it, op[3], op[2])
        pts += op[1]
      elif k == "dot":
        it = take("circle")
        engine.ensure(near(it["geo"], op[1]), f"dot at {it['geo']}")
        common(it, op[3], op[2])
        pts.append(op[1])
      elif k == "svg":
        it = take("circle")
        engine.ensure(near(it["geo"], op[1]), f"custom dot at {it['geo']}")
        common(it, op[2], None)
      else:
        self._read(fig, items, op[3], op[1] if op[1] is not None and on
                   else hover, around + op[2], on, pts)

  def _spaced(self, ys, size):
    for a, b in zip(ys, ys[1:]):
      engine.ensure(near(b - a, size), f"lines of a label at {ys}")

  def _view(self, fig, pts, pad):
    if not pts:
      engine.ensure(fig.view[2] > 0 and fig.view[3] > 0, "empty view box")
      return
    x0, x1 = min(p[0] for p in pts), max(p[0] for p in pts)
    y0, y1 = min(p[1] for p in pts), max(p[1] for p in pts)
    engine.ensure(
        near(fig.view, [x0 - pad, y0 - pad, x1 - x0 + 2 * pad,
                        y1 - y0 + 2 * pad]),
        f"view box {fig.view} with padding {pad}, items span "
        f"{[x0, y0, x1, y1]}")

  def _ops(self, case, ctx):
    for on in (True, False):
      rd = self.sv.SVGRenderer(with_hover_text=on)
      self._apply(rd, case[1])
      first = None
      for pad in (0.0, 10, 0.0):
        text = rd.to_html(padding=pad)
        fig = drawing.Figure(text)
        items = list(fig.items)
        pts = []
        self._read(fig, items, case[1], None, [], on, pts)
        engine.ensure(not items, f"{len(items)} items too many drawn")
        self._view(fig, pts, pad)
        if pad == 0.0:
          if first is not None:
            engine.same(text, first, "drawing asked for twice")
          first = text
      ctx.count(transitions=len(fig.items))
    rd = self.sv.SVGRenderer(with_default_styles=False)
    rd.configure_style_css("rect.mine { fill: red; }")
    self._apply(rd, case[1])
    rd.configure_style_css("rect.yours { fill: green; }")
    fig = drawing.Figure(rd.to_html())
    engine.ensure("rect.mine" in fig.styles and "rect.yours" in fig.styles,
                  "configured style missing")
    items = list(fig.items)
    self._read(fig, items, case[1], None, [], True, [])
    engine.ensure(not items, "too many items drawn")
    ctx.count(states=3, traces=3)
    ctx.outcome((len(fig.items), tuple(fig.view)))

  # -- geometry --------------------------------------------------------------

  def _boxes(self, case, ctx):
    r = self.r
    a, b = (r.BoundingBox(*c) for c in case[1:])
    for box, (x, y, w, h) in ((a, case[1]), (b, case[2])):
      engine.ensure(near([box.right, box.bottom], [x + w, y + h]), "corner")
      engine.ensure(near([box.horizontal_center, box.vertical_center,
                          box.center_point.x, box.center_point.y],
                         [x + w / 2, y + h / 2] * 2), "centre")
      engine.same(r.BoundingBox.from_boundary(
          left=box.left, top=box.top, right=box.right, bottom=box.bottom),
                  box, "box from its boundary")
      for u in (0.0, 0.25, 1.0):
        for v in (0.0, 0.5, 1.0):
          p = box.point_within(toward_right=u, toward_bottom=v)
          engine.ensure(near([p.x, p.y], [x + u * w, y + v * h]),
                        f"point {u},{v} within {box}: {p}")
    u = a.union(b)
    exp = [min(a.left, b.left), min(a.top, b.top), max(a.right, b.right),
           max(a.bottom, b.bottom)]
    engine.ensure(near([u.left, u.top, u.right, u.bottom], exp),
                  f"union of {a} and {b} is {u}")
    p, q = r.Point(case[1][0], case[1][1]), r.Point(case[2][0], case[2][3])
    f = r.point_interpolator(p, q)
    for s in (0.0, 0.25, 1.0):
      for t in (0.0, 0.5, 1.0):
        g = f(s, t)
        engine.ensure(near([g.x, g.y], [p.x * (1 - s) + q.x * s,
                                        p.y * (1 - t) + q.y * t]),
                      f"interpolation {s},{t} between {p} and {q}: {g}")
    g = p.shift(dx=q.x, dy=q.y)
    engine.ensure(near([g.x, g.y], [p.x + q.x, p.y + q.y]), "shift")
    engine.ensure(near([p.shift(dx=2).y, p.shift(dy=2).x], [p.y, p.x]),
                  "shift along one axis")
    engine.same([p.x, p.y], [case[1][0], case[1][1]], "point afterwards")
    for i in range(0, 100, 7):
      engine.ensure(0 <= r.to_bounded_irrational(i) < 1, "bounded number")
    ctx.count(states=1, transitions=12, traces=1)
    ctx.outcome((tuple(exp)))

  # -- diagrams --------------------------------------------------------------

  def _dag(self, case, ctx):
    _, c, lay = case
    da, r = self.da, self.r
    names = {i: ("s<%d>" % i) for i in range(c["n"])}
    dag = dags.to_real(c, state=lambda i: names[i],
                       info=lambda k: {"k": k})
    where = {}
    for i in range(c["n"]):
      where[names[i]] = ([i * 30, 0, 10, 8], [0, i * 25, 12, 6],
                         [i * 30, i * 25, 10, 8],
                         [(i * 37) % 50, (i * 29) % 60, 10, 8])[lay]

    class Simple(self.sa.SimpleDAGAnnotator):

      def bounds_for_state(self, state):
        return r.BoundingBox(*where[state])

    class Mine(Simple):

      def annotate_edge(self, edge):
        k = edge.info["k"]
        return da.ElbowEdgeAnnotation(
            primary_axis=(da.ElbowEdgeOrientation.HORIZONTAL
                          if (k + lay) % 2 else
                          da.ElbowEdgeOrientation.VERTICAL),
            elbow_distance=0.25, start_alignment=0.125, text_alignment=0.75,
            end_alignment=0.625, display_text="e&%d\n<" % k, text_size=5.0,
            hover_text="<e%d>" % k, style_tags=("mine%d" % k,),
            elbow_distance_adjust=1.5, text_alignment_adjust=2.5)

      def extra_annotations(self):
        yield da.RegionAnnotation(r.BoundingBox(-50, -50, 3, 4), ("reg",))
        yield da.TextAnnotation(r.BoundingBox(-60, -40, 3, 4), "t&<", 4.0,
                                "h'", ("txt",))

    ne = len(c["edges"])
    sets = [None, []] + [[k] for k in range(ne)]
    if ne > 8:
      sets = [None, [0], [ne - 1], [ne // 2, 3]]
    sets += [list(p) for p in itertools.combinations(range(ne), 2)][:10]
    if ne > 2:
      sets += [list(range(ne)), list(range(1, ne, 2)), [0, 0, 2]]
    for emph in sets:
      given = None
      if emph is not None:
        # the edges to emphasise come from a path and carry other information
        given = [dag.edges[k]._replace(info="other") for k in emph]
      for e in dag.edges if emph is None else ():
        # the label of an edge: its cost and its decision, if there is one
        text = Simple().annotate_edge(e).display_text
        engine.same(float(text.split()[0]), float(e.cost), "cost in a label")
        if e.required_assignment:
          engine.ensure(str(e.required_assignment.key) in text
                        and str(e.required_assignment.value) in text,
                        "decision in a label", text)
        else:
          engine.same(len(text.split()), 1, "words in a plain label")
      for ann in (Mine(), Simple()):
        self._draw(dag, ann, given, c, ctx, notebook=emph == [0] and ne < 9)
    # an iterable that can be read only once
    if ne:
      rd = self.sv.SVGRenderer()
      da.render_dag(dag, Mine(), rd, emphasized_edges=iter([dag.edges[0]]))
      rd2 = self.sv.SVGRenderer()
      da.render_dag(dag, Mine(), rd2, emphasized_edges=[dag.edges[0]])
      engine.same(rd.to_html(), rd2.to_html(), "drawing for an iterator")

  def _draw(self, dag, ann, given, c, ctx, notebook=False, cost_only=False):
    """Draws with the annotator and checks what is shown."""
    rd = self.sv.SVGRenderer()
    self.da.render_dag(dag, ann, rd, emphasized_edges=given)
    fig = drawing.Figure(rd.to_html())
    items = list(fig.items)
    pts = []

    def take(tag):
      engine.ensure(items, f"nothing drawn where a {tag} is due")
      it = items.pop(0)
      engine.same(it["tag"], tag, "kind of the item drawn")
      return it

    def labelled(a, tags):
      if not isinstance(a, self.da.RegionAnnotation):
        self._read(fig, items, [["box", self._rect(a.bounds), a.display_text,
                                 a.hover_text, a.text_size,
                                 list(a.style_tags) + tags]], None, [], True,
                   pts)
      else:
        self._read(fig, items, [["con", self._rect(a.bounds),
                                 list(a.style_tags) + tags]], None, [], True,
                   pts)

    for a in ann.extra_annotations():
      labelled(a, [])
    fwd = self._alive(dag)
    order = []
    for e in dag.edges:
      for s in (e.source, e.dest):
        if s not in order:
          order.append(s)
    left = list(order)
    # the states, in any order
    nstates = len(order)
    for _ in range(nstates):
      engine.ensure(items and items[0]["tag"] == "rect", "state not drawn")
      head = items[0]
      hit = None
      for s in left:
        a = ann.annotate_state(s)
        if near(head["geo"], self._rect(a.bounds)) and (
            head["hover"] == a.hover_text):
          hit = s
          break
      engine.ensure(hit is not None, f"item {head} is no state (or one drawn "
                    "twice)")
      left.remove(hit)
      labelled(ann.annotate_state(hit),
               ["state-annotation", "reachable-state" if hit in fwd else
                "unreachable-state"])
      engine.ensure(
          ("unreachable-state" if hit in fwd else "reachable-state")
          not in head["cls"], f"state {hit} drawn as {head['cls']}")
    emph = None
    if given:
      emph = {(e.source, e.dest, e.cost, e.required_assignment)
              for e in given}
    for e in dag.edges:
      a = ann.annotate_edge(e)
      path, dot = take("path"), take("circle")
      self._edge(a, ann.annotate_state(e.source).bounds,
                 ann.annotate_state(e.dest).bounds, path["geo"], dot["geo"])
      tp = list(dot["geo"])
      horizontal = a.primary_axis == self.da.ElbowEdgeOrientation.HORIZONTAL
      if horizontal:
        tp[1] += a.text_alignment_adjust
        long = abs(path["geo"][2][1] - path["geo"][1][1]) > a.text_size
        d = "RIGHT" if long else "AROUND"
      else:
        tp[0] += a.text_alignment_adjust
        d = "DOWN_RIGHT"
      self._read(fig, items, [["pt", tp, a.display_text, d, None, 0.5,
                               a.text_size, []]], a.hover_text,
                 list(a.style_tags) + ["edge-annotation"], True, pts)
      pts += path["geo"] + [dot["geo"]]
      engine.same([path["hover"], dot["hover"]], [a.hover_text] * 2,
                  "hover text of the edge")
      cls = path["around"]
      live = e.source in fwd and e.dest in fwd
      engine.same(("reachable-edge" in cls, "unreachable-edge" in cls),
                  (live, not live), f"reachability shown for {e}")
      if emph is None:
        exp = (False, False)
      else:
        on = (e.source, e.dest, e.cost, e.required_assignment) in emph
        exp = (on, not on)
      engine.same(("highlight" in cls, "lowlight" in cls), exp,
                  f"emphasis of {e} when {given} are emphasised")
    engine.ensure(not items, f"{len(items)} items too many drawn")
    self._view(fig, pts, 0)
    ctx.count(states=1, transitions=len(fig.items), traces=1)
    ctx.outcome((len(dag.edges), len(order), len(fig.items)))
    if notebook:
      self._notebook(dag, ann, given)
    return fig

  def _alive(self, dag):
    """States on a finite path from the initial to the final state."""
    fwd, bwd = {dag.initial_state}, {dag.final_state}
    size = -1
    while size != len(fwd) + len(bwd):
      size = len(fwd) + len(bwd)
      for e in dag.edges:
        if e.cost < math.inf:
          if e.source in fwd:
            fwd.add(e.dest)
          if e.dest in bwd:
            bwd.add(e.source)
    return fwd & bwd

  def _rect(self, b):
    return [b.left, b.top, b.width, b.height]

  def _edge(self, a, s, d, pts, dot):
    engine.same(len(pts), 4, "corners of an edge")
    h = a.primary_axis == self.da.ElbowEdgeOrientation.HORIZONTAL

    def ax(p):
      return p if h else [p[1], p[0]]

    p = [ax(x) for x in pts]
    sb = ([s.right, s.top, s.height] if h else [s.bottom, s.left, s.width])
    db = ([d.left, d.top, d.height] if h else [d.top, d.left, d.width])
    engine.ensure(near(p[0], [sb[0], sb[1] + a.start_alignment * sb[2]]),
                  f"edge starts at {pts[0]}")
    engine.ensure(near(p[3], [db[0], db[1] + a.end_alignment * db[2]]),
                  f"edge ends at {pts[3]}")
    mid = (p[0][0] + a.elbow_distance * (p[3][0] - p[0][0])
           + a.elbow_distance_adjust)
    engine.ensure(near(p[1], [mid, p[0][1]]), f"first bend at {pts[1]}")
    engine.ensure(near(p[2], [mid, p[3][1]]), f"second bend at {pts[2]}")
    q = ax(dot)
    engine.ensure(near(q[0], mid), f"dot at {dot} off the edge {pts}")
    along = p[0][1] + a.text_alignment * (p[3][1] - p[0][1])
    if h and abs(p[2][1] - p[1][1]) <= a.text_size:
      along = p[0][1]
    engine.ensure(near(q[1], along), f"dot at {dot} on the edge {pts}")

  def _notebook(self, dag, ann, given):
    shown = self.display.SHOWN
    for hover in (True, False):
      for width, height in (("50em", "100em"), (None, "3em"), ("7em", None)):
        del shown[:]
        self.rn.render_dag_in_notebook(
            dag, ann, hover_for_info=hover, emphasized_edges=given,
            max_width=width, max_height=height)
        engine.ensure(shown and type(shown[0]) is self.display.HTML,
                      "no drawing shown in the notebook")
        rd = self.sv.SVGRenderer(with_hover_text=hover)
        self.da.render_dag(dag, ann, rd, emphasized_edges=given)
        engine.same(shown[0].data, rd.to_html(padding=10),
                    "drawing shown in the notebook")
        js = "\n".join(x.data or "" for x in shown[1:])
        for attr, v in (("maxWidth", width), ("maxHeight", height)):
          if v is None:
            engine.ensure(attr not in js, f"{attr} limited")
          else:
            engine.ensure(f'{attr} = "{v}"' in js, f"{attr} not limited")
        engine.ensure("<title>" in shown[0].data or not hover,
                      "hover texts missing")
        engine.ensure("<title>" not in shown[0].data or hover,
                      "hover texts shown")
    del shown[:]

  # -- the diagrams of the code ----------------------------------------------

  def _texts(self, ann, expected):
    """The texts along the axes, in order."""
    got = []
    for a in ann.extra_annotations():
      if isinstance(a, self.da.TextAnnotation):
        engine.ensure("unexpected_node" not in a.style_tags,
                      f"node drawn as unexpected: {a}")
        if set(a.style_tags) & {"text_token", "text_decoration"}:
          got.append((a.display_text,
                      "text_token" in a.style_tags))
        else:
          got.append((tuple(a.style_tags)[0], None))
    engine.same(got, expected, "texts along the axes")

  def _leaves(self, forest, deco, groups, start=()):
    out = []
    for n in forest:
      if n in ("S", "E", "X"):
        out.append(({"S": "region_start", "E": "region_end",
                     "X": "early_exit"}[n], None))
      elif n[0] == "t":
        out.append((repr(n[1])[1:-1], True))
      elif n[0] == "d":
        if deco:
          out.append((repr(n[1])[1:-1], False))
      else:
        sub = self._leaves(n[1], deco, groups)
        if groups:
          sub = [("group_start", None)] + sub + [("group_end", None)]
        out += sub
    return out

  def _disjoint(self, dag, ann):
    seen = []
    states = {dag.initial_state, dag.final_state}
    for e in dag.edges:
      states |= {e.source, e.dest}
    for s in states:
      b = ann.annotate_state(s).bounds
      for o, x in seen:
        if (b.left < x.right - TOL and x.left < b.right - TOL
            and b.top < x.bottom - TOL and x.top < b.bottom - TOL):
          raise engine.Violation(f"states {s} and {o} are drawn over one "
                                 "another")
      seen.append((s, b))

  def _edges(self, dag, ann):
    for e in dag.edges:
      a = ann.annotate_edge(e)
      exp = f"{e.cost}"
      if e.required_assignment:
        exp += (f"\n{e.required_assignment.key.category.shortname()}: "
                f"{e.required_assignment.value.shortname()}")
        engine.ensure({e.required_assignment.key.category.name,
                       e.required_assignment.value.name} <= set(a.style_tags),
                      f"style tags {a.style_tags} of {e}")
      engine.same(a.display_text, exp, "label of an edge")
      engine.same(a.hover_text, repr(e), "hover text of an edge")

  def _full(self, dag, ann, ctx):
    for given in (None, list(dag.edges[:1]), list(dag.edges[::2])):
      self._draw(dag, ann, given, None, ctx)

  def _con(self, case, ctx):
    p = annot.pack(case[1])
    dag = self.con(p)
    ann = self.cd.ConstraintDagGraphAnnotator(
        p, self.cd.ConstraintDagRenderConfig())
    self._texts(ann, self._leaves(case[1], True, False))
    self._disjoint(dag, ann)
    self._edges(dag, ann)
    self._full(dag, ann, ctx)

  def _edit(self, case, ctx):
    p, q = annot.pack(case[1]), annot.pack(case[2])
    par = annot.real_params(annot.PARAMS[0])
    dag, data = self.edit(p, q, par)
    ann = self.ed.EditDagGraphAnnotator(p, q, data,
                                        self.ed.EditDagRenderConfig())
    self._texts(ann, self._leaves(case[1], True, False)
                + self._leaves(case[2], True, False))
    self._disjoint(dag, ann)
    self._edges(dag, ann)
    self._full(dag, ann, ctx)

  def _sel(self, case, ctx):
    p, q = annot.pack(case[1]), annot.pack(case[2])
    dag = self.sel(p, q)
    ann = self.ps.PartSelectionGraphAnnotator(
        p, q, self.ps.PartSelectionDagRenderConfig())
    self._texts(ann, self._leaves(case[1], False, True)
                + self._leaves(case[2], False, True))
    self._disjoint(dag, ann)
    self._edges(dag, ann)
    self._full(dag, ann, ctx)
