"""Reference pseudo-parser built on the reference lexer.

A reference tree is (kind, lo, hi, [children]) with the same kinds as the
documented node annotations: root, paired, left, middle, right, sibling, split.
Tokens are (id, text, cls, raw).  Ids are texts, except for the indent and
dedent markers which have ids of their own.
"""
from ref import lexer

INDENT = ("<indent>",)
DEDENT = ("<dedent>",)
PAIRS = [("(", ")"), ("[", "]"), ("{", "}")]

LANG = {
    "python_preprocessor": dict(
        split=(), types=(), unsplit=[("(", ")"), ("[", "]")], nl=True),
    "simple": dict(
        split=(";",), types=(), unsplit=[("(", ")"), ("[", "]")], nl=False),
    "cpp": dict(
        split=(";",),
        types=("C_PREPROCESSOR", "COMMENT_SLASHSLASH", "COMMENT_SLASHSTAR"),
        unsplit=[], nl=False),
    "java": dict(
        split=(";",), types=("COMMENT_SLASHSLASH", "COMMENT_SLASHSTAR"),
        unsplit=[], nl=False),
    "javascript": dict(
        split=(";",), types=("COMMENT_SLASHSLASH", "COMMENT_SLASHSTAR"),
        unsplit=[], nl=False),
}


def corrections(ids, pairs):
  """(prefix, suffix) that repair the bracket sequence."""
  open_of = {c: o for o, c in pairs}
  close_of = dict(pairs)
  stack = []
  prefix = []
  for t in ids:
    if t in close_of:
      stack.append(t)
    elif t in open_of:
      if not stack:
        prefix.insert(0, open_of[t])
      elif stack[-1] == open_of[t]:
        stack.pop()
  return prefix, [close_of[t] for t in reversed(stack)]


def partner_map(ids, pairs):
  """Positions of matched pairs; None if unbalanced (strict failure)."""
  open_of = {c: o for o, c in pairs}
  openers = set(o for o, _ in pairs)
  stack = []
  partner = {}
  strict_ok = True
  dropped = []
  for i, t in enumerate(ids):
    if t in openers:
      stack.append(i)
    elif t in open_of:
      if not stack:
        dropped.append(i)
      elif ids[stack[-1]] == open_of[t]:
        j = stack.pop()
        partner[j] = i
      else:
        strict_ok = False
  if stack:
    strict_ok = False
  return partner, strict_ok, dropped


def build(ids, pairs):
  """Tree of a repaired (balanced apart from stray closers) token sequence."""
  partner, _, _ = partner_map(ids, pairs)

  def span(lo, hi):
    out = []
    i = lo
    while i < hi:
      if i in partner:
        j = partner[i]
        out.append(["paired", i, j + 1, [
            ["left", i, i + 1, []],
            ["middle", i + 1, j, span(i + 1, j)],
            ["right", j, j + 1, []],
        ]])
        i = j + 1
      else:
        out.append(["sibling", i, i + 1, []])
        i += 1
    return out

  return ["root", 0, len(ids), span(0, len(ids))]


def split(tree, ids, splitters, unsplit):
  """Divides sibling sequences into statement groups (returns a new tree)."""
  kind, lo, hi, children = tree
  if kind == "paired":
    if (ids[lo], ids[hi - 1]) in unsplit:
      return tree
    return [kind, lo, hi, [
        children[0],
        split_if_long(children[1], ids, splitters, unsplit),
        children[2]]]
  groups = [[]]
  terminated = False
  for c in children:
    groups[-1].append(c)
    if c[2] - c[1] == 1 and ids[c[1]] in splitters:
      groups.append([])
      terminated = True
  done = [
      [split_if_long(c, ids, splitters, unsplit) for c in g]
      for g in groups if g
  ]
  if not terminated:
    return [kind, lo, hi, done[0] if done else []]
  return [kind, lo, hi, [
      ["split", g[0][1], g[-1][2], g] for g in done]]


def split_if_long(tree, ids, splitters, unsplit):
  return split(tree, ids, splitters, unsplit) if tree[2] - tree[1] > 1 else tree


def attach_blocks(tree, ids):
  """Moves a group that holds an indented block into the group before it."""
  kind, lo, hi, children = tree
  children = [attach_blocks(c, ids) for c in children]
  out = []
  for c in children:
    holds_block = c[0] == "split" and any(
        d[0] == "paired" and ids[d[1]] == INDENT for d in c[3])
    if holds_block and out and out[-1][0] == "split":
      prev = out.pop()
      out.append(["split", prev[1], c[2], [prev, c]])
    else:
      out.append(c)
  return [kind, lo, hi, out]


def parse(language, code, spaces_per_indent=1):
  """Reference for parse_and_maybe_preprocess.

  Returns (tree, texts, classes, raws, (n_prefix, n_suffix), ids).
  """
  if language != "python":
    cfg = LANG[language]
    toks = lexer.lex(language, code)
    ids = [t for t, _ in toks]
    prefix, suffix = corrections(ids, PAIRS)
    if suffix and cfg["nl"]:
      suffix.append("\n")
    all_toks = (
        [(t, "BRACE", "") for t in prefix]
        + [(t, c, t) for t, c in toks]
        + [(t, "NEWLINE" if t == "\n" else "BRACE", "") for t in suffix]
    )
    ids = [t for t, _, _ in all_toks]
    tree = build(ids, PAIRS)
    if cfg["split"] or cfg["types"]:
      splitters = set(cfg["split"]) | {t for t, c in toks if c in cfg["types"]}
      tree = split(tree, ids, splitters, cfg["unsplit"])
    return (tree, ids, [c for _, c, _ in all_toks], [r for _, _, r in all_toks],
            (len(prefix), len(suffix)), ids)
  # Python: mark blocks, then match and split again.
  added = not code.endswith("\n")
  if added:
    code += "\n"
  tree, texts, classes, raws, (n_pre, n_post), ids = parse(
      "python_preprocessor", code)
  raws = list(raws)
  if added:
    raws[len(raws) - n_post - 1] = ""
  # Logical lines: top-level nodes up to one whose last token is a newline.
  lines = []
  start = None
  for node in tree[3]:
    if start is None:
      start = node[1]
    if ids[node[2] - 1] == "\n":
      lines.append((start, node[2]))
      start = None
  assert start is None, "reference: text must end in a newline token"
  out = []  # (id, text, cls, raw)
  level = 0

  def shift(new):
    nonlocal level
    if new > level:
      out.extend([(INDENT, "", "PYTHON_INDENT", "")] * (new - level))
    elif new < level:
      nl = out.pop()
      out.extend([(DEDENT, "", "PYTHON_DEDENT", "")] * (level - new))
      out.append(nl)
    level = new

  for lo, hi in lines:
    text = "".join(texts[lo:hi])
    stripped = text.lstrip()
    if stripped:
      shift((len(text) - len(stripped)) // spaces_per_indent)
    for k in range(lo, hi):
      out.append((ids[k], texts[k], classes[k], raws[k]))
  shift(0)
  ids = [t[0] for t in out]
  tree = build(ids, PAIRS + [(INDENT, DEDENT)])
  tree = split(tree, ids, {"\n"}, [("(", ")"), ("[", "]")])
  tree = attach_blocks(tree, ids)
  return (tree, [t[1] for t in out], [t[2] for t in out], [t[3] for t in out],
          (n_pre, n_post), ids)
