"""Strict reading of small HTML fragments."""
import html.parser

from mc import engine


class _P(html.parser.HTMLParser):

  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.stack = []
    self.items = []  # (text, [classes of enclosing elements])
    self.spans = []  # (class, text) per element, in order of opening

  def handle_starttag(self, tag, attrs):
    d = dict(attrs)
    if tag == "br":
      self.items.append(("\n", [("br", "")]))
      return
    self.stack.append((tag, d.get("class", ""), len(self.spans)))
    self.spans.append([tag, d.get("class", ""), "", d])

  def handle_endtag(self, tag):
    if not self.stack or self.stack[-1][0] != tag:
      raise engine.Violation(f"unbalanced closing tag </{tag}>")
    self.stack.pop()

  def handle_startendtag(self, tag, attrs):
    raise engine.Violation(f"unexpected element <{tag}/>")

  def handle_data(self, data):
    self.items.append((data, [(t, c) for t, c, _ in self.stack]))
    for _, _, k in self.stack:
      self.spans[k][2] += data

  def handle_comment(self, data):
    raise engine.Violation("unexpected comment in HTML")

  def handle_decl(self, decl):
    raise engine.Violation("unexpected declaration in HTML")

  def handle_pi(self, data):
    raise engine.Violation("unexpected processing instruction in HTML")


def read(fragment):
  p = _P()
  p.feed(fragment)
  p.close()
  if p.stack:
    raise engine.Violation(f"unclosed elements {[s[0] for s in p.stack]}")
  return p
