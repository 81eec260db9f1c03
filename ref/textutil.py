"""Reference models of the sub-tokeniser and the parser utilities."""
import functools

from ref import parser


@functools.lru_cache(maxsize=32)
def _parse(language, code, unit):
  return parser.parse(language, code, unit)[:5]


def _cls(c):
  if c.isupper():
    return "U"
  if c.islower():
    return "L"
  if c.isdigit():
    return "N"
  return "S"


def subtokens(s):
  """Cuts by a boundary predicate between neighbouring characters."""
  pieces = []
  start = 0
  run = 0  # start of the run of one repeated blank
  for i in range(1, len(s)):
    p, c = s[i - 1], s[i]
    if c != p or c not in " \t":
      run = i
    a, b = _cls(p), _cls(c)
    if a != b:
      cut = (a, b) != ("U", "L")
    elif a == "U":
      cut = i + 1 < len(s) and _cls(s[i + 1]) == "L"
    elif a == "S":
      if c == p and c in " \t":
        cut = (i - run) % 20 == 0
      else:
        cut = p.isspace() or c.isspace()
    else:
      cut = False
    if cut:
      pieces.append(s[start:i])
      start = i
  if s:
    pieces.append(s[start:])
  return pieces


def leaves(tree, depth_of, d=0, parent=None, index=0, out=None):
  """(lo, hi, depth, parent, index) of all leaves in order."""
  if out is None:
    out = []
  kind, lo, hi, kids = tree
  if not kids:
    out.append((lo, hi, d, parent, index))
  for i, c in enumerate(kids):
    inc = depth_of(tree) if c[0] == "middle" else 0
    leaves(c, depth_of, d + inc, tree, i, out)
  return out


@functools.lru_cache(maxsize=32)
def indent_unit(code, candidates=(1, 2, 3, 4)):
  if not code:
    return 1
  _, _, types, raw, _ = _parse("python", code, 1)
  lens = [len(raw[i]) for i in range(1, len(raw))
          if types[i] == "WHITE_SPACE" and raw[i]
          and types[i - 1] in ("PYTHON_INDENT", "PYTHON_DEDENT")]
  ok = [c for c in candidates if lens and all(l % c == 0 for l in lens)]
  return max([1] + ok)


def truncation(code, cursor, language, spi=None):
  """The documented truncation point."""
  if language == "python" and spi is None:
    spi = indent_unit(code)
  tree, _, types, raw, _ = _parse(language, code, spi)
  if language == "python":
    pair, ends = ("PYTHON_INDENT", "PYTHON_DEDENT"), ("\n",)
  else:
    pair, ends = ("{", "}"), (";",)
  r = block_end(tree, raw, types, pair, cursor)
  return statement_end(tree, raw, ends, cursor) if r is None else r


def block_end(tree, raw, types, pair, cursor):
  """Behind the token that follows the block around the first token starting
  after the cursor; None if there is no such block or no such token."""
  total = sum(map(len, raw))
  if cursor == total:
    return total

  def depth_of(paired):
    l, r = paired[3][0][1], paired[3][2][1]
    if pair is None:
      return 1
    if pair[0] in ("PYTHON_INDENT",):
      return int(types[l] == pair[0])
    return int(raw[l] == pair[0] or raw[r] == pair[1])

  lv = leaves(tree, depth_of)
  starts = []
  pos = 0
  for lo, hi, *_ in lv:
    starts.append(pos)
    pos += sum(map(len, raw[lo:hi]))
  starts.append(pos)
  k = next((i for i in range(len(lv)) if starts[i] > cursor), None)
  if k is None or lv[k][2] == 0:
    return None
  d = lv[k][2]
  close = next((i for i in range(k, len(lv)) if lv[i][2] == d - 1), None)
  if close is None or close + 1 >= len(lv):
    return None
  return starts[close + 2]


def statement_end(tree, raw, ends, cursor):
  total = sum(map(len, raw))
  if cursor == total:
    return total
  pos = 0
  for lo, hi, _, parent, index in leaves(tree, lambda p: 0):
    begin = pos
    pos += sum(map(len, raw[lo:hi]))
    if begin > cursor and parent is not None and parent[0] == "split" and (
        index == len(parent[3]) - 1 and hi > lo
        and (ends is None or raw[lo] in ends)):
      return pos
  return total


def docstrings(code):
  """Start positions of docstring contents."""
  unit = indent_unit(code)
  tree, _, _, raw, _ = _parse("python", code, unit)
  pos = [0]
  for r in raw:
    pos.append(pos[-1] + len(r))

  def frag(t):
    return code[pos[t[1]]:pos[t[2]]]

  def level(s):
    k = 0
    while (k + 1) * unit < len(s) and s[k * unit:(k + 1) * unit].isspace():
      k += 1
    return k

  out = []

  def walk(t):
    kids = t[3]
    for i, c in enumerate(kids):
      if i + 1 < len(kids) and frag(c).lstrip(" ").startswith("def "):
        s = frag(kids[i + 1])
        body = s.lstrip(" ")
        if body[:3] in ('"""', "'''") and level(s) == level(frag(c)) + 1:
          out.append(pos[kids[i + 1][1]] + len(s) - len(body) + 3)
      walk(c)

  walk(tree)
  return out


def node_forest(tree, toks, types, decoration, subtok):
  """The node tree the conversion must produce (as a JSON node)."""
  names = dict(root="ROOT", paired="MATCH", left="MATCH_LEFT",
               right="MATCH_RIGHT", middle="MATCH_INNER", split="SPLIT_GROUP")
  kind, lo, hi, kids = tree
  s = "".join(toks[lo:hi])
  if kind == "sibling":
    if not s:
      name = "NON_CONTENT_LEAF"
    elif s.isspace():
      name = "WHITE_SPACE_LEAF"
    elif all(t == "STRING" for t in types[lo:hi]):
      name = "STRING_LITERAL"
    else:
      name = "CONTENT_LEAF"
  else:
    name = names[kind]
  if name in decoration:
    return ["d", s]
  if name in subtok:
    return ["g", [["t", p, "subtoken"] for p in subtokens(s)], name]
  if not kids:
    return ["t", s, name]
  return ["g", [node_forest(c, toks, types, decoration, subtok) for c in kids],
          name]
