"""Reading of the drawings: the figure as a list of primitives.

A figure is read back as a list of primitives in drawing order, each with its
geometry, its text, the classes of the element and of its enclosing groups and
the hover text that applies to it; how the mark-up is nested does not matter.
"""
import html.parser

from mc import engine

SHAPES = ("rect", "text", "path", "circle")
TRANSPARENT = ("g", "svg", "style", "defs", "marker", "filter", "title",
               "tspan")


class _P(html.parser.HTMLParser):

  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.stack = [dict(tag="", attrs={}, title=None, sub=[])]

  def _new(self, tag, attrs):
    if len(dict(attrs)) != len(attrs):
      raise engine.Violation(f"repeated attribute in <{tag}>")
    e = dict(tag=tag, attrs=dict(attrs), title=None, sub=[])
    self.stack[-1]["sub"].append(e)
    return e

  def handle_starttag(self, tag, attrs):
    self.stack.append(self._new(tag, attrs))

  def handle_startendtag(self, tag, attrs):
    self._new(tag, attrs)

  def handle_endtag(self, tag):
    if self.stack[-1]["tag"] != tag:
      raise engine.Violation(f"unbalanced closing tag </{tag}>")
    self.stack.pop()

  def handle_data(self, data):
    self.stack[-1]["sub"].append(data)

  def handle_comment(self, data):
    raise engine.Violation("unexpected comment in the drawing")

  def handle_decl(self, decl):
    raise engine.Violation("unexpected declaration in the drawing")

  def handle_pi(self, data):
    raise engine.Violation("unexpected processing instruction in the drawing")


def _text(e):
  return "".join(x if isinstance(x, str) else _text(x) for x in e["sub"])


def _num(e, name):
  try:
    return float(e["attrs"][name])
  except (KeyError, TypeError, ValueError):
    raise engine.Violation(
        f"<{e['tag']}> without a number {name}: {e['attrs']}") from None


class Figure:
  """What a drawing shows."""

  def __init__(self, text):
    p = _P()
    p.feed(text)
    p.close()
    if len(p.stack) != 1:
      raise engine.Violation(
          f"unclosed elements {[e['tag'] for e in p.stack[1:]]}")
    self.items = []
    self.view = None
    self.styles = ""
    self.svgs = 0
    self._walk(p.stack[0], None, (), False)
    engine.ensure(self.svgs == 1, f"{self.svgs} drawings in the output")

  def _walk(self, e, hover, classes, inside):
    titles = [_text(x) for x in e["sub"]
              if not isinstance(x, str) and x["tag"] == "title"]
    if titles:
      engine.ensure(len(titles) == 1, f"several hover texts {titles}")
      hover = titles[0]
    for x in e["sub"]:
      if isinstance(x, str):
        if x.strip():
          raise engine.Violation(f"loose text {x!r} in <{e['tag']}>")
        continue
      tag = x["tag"]
      if tag == "style":
        self.styles += _text(x)
      elif tag == "svg":
        self.svgs += 1
        try:
          self.view = [float(v) for v in x["attrs"]["viewbox"].split()]
        except (KeyError, ValueError):
          raise engine.Violation(f"no view box in {x['attrs']}") from None
        engine.ensure(len(self.view) == 4, f"view box {self.view}")
        self._walk(x, hover, classes, True)
      elif tag == "g":
        engine.ensure(inside, "drawing outside of the svg element")
        own = tuple(x["attrs"].get("class", "").split())
        self._walk(x, hover, classes + own, inside)
      elif tag in SHAPES:
        engine.ensure(inside, "drawing outside of the svg element")
        self.items.append(self._shape(x, hover, classes))
      elif tag not in ("defs", "filter", "title"):
        raise engine.Violation(f"unexpected element <{tag}> in the drawing")

  def _shape(self, x, hover, classes):
    own = tuple(x["attrs"].get("class", "").split())
    it = dict(tag=x["tag"], hover=hover, cls=own, around=classes)
    sub = [y for y in x["sub"] if not isinstance(y, str)]
    for y in sub:
      if y["tag"] == "title":
        it["hover"] = _text(y)
      else:
        engine.ensure(x["tag"] == "text" and y["tag"] == "tspan",
                      f"<{y['tag']}> inside <{x['tag']}>")
    if x["tag"] == "rect":
      it["geo"] = [_num(x, k) for k in ("x", "y", "width", "height")]
    elif x["tag"] == "circle":
      it["geo"] = [_num(x, "cx"), _num(x, "cy")]
    elif x["tag"] == "path":
      it["geo"] = _path(x["attrs"].get("d", ""))
    else:
      it["geo"] = [_num(x, "x"), _num(x, "y")]
      it["size"] = _num(x, "font-size")
      it["text"] = "".join(
          y if isinstance(y, str) else _text(y) for y in x["sub"]
          if isinstance(y, str) or y["tag"] != "title")
      style = {}
      for part in x["attrs"].get("style", "").split(";"):
        if part.strip():
          a, _, b = part.partition(":")
          style[a.strip()] = b.strip()
      for k in ("text-anchor", "dominant-baseline"):
        if k in x["attrs"]:
          style[k] = x["attrs"][k]
      it["style"] = style
    return it


def _path(d):
  """The points of a polyline given as a path."""
  words = d.replace(",", " ").replace("M", " M ").replace("L", " L ").split()
  pts = []
  k = 0
  while k < len(words):
    if words[k] == ("M" if not pts else "L"):
      k += 1
    elif not pts:
      raise engine.Violation(f"path {d!r} does not start with a move")
    try:
      pts.append([float(words[k]), float(words[k + 1])])
    except (IndexError, ValueError):
      raise engine.Violation(f"path {d!r} cannot be read") from None
    k += 2
  return pts


def centred(it, fig):
  """A text is centred on its position, by its own style or by a rule."""
  st = it["style"]
  if st.get("dominant-baseline") == "middle" and (
      st.get("text-anchor") == "middle"):
    return True
  for rule in fig.styles.split("}"):
    sel, _, body = rule.partition("{")
    sel = sel.strip()
    for c in it["cls"]:
      if sel in ("text." + c, "." + c):
        b = body.replace(" ", "")
        if "text-anchor:middle" in b and "dominant-baseline:middle" in b:
          return True
  return False
