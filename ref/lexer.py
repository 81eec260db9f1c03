"""Reference lexer: hand-written scanners for every language, no regexes.

A token is (text, class).  The scanners state the documented lexical classes:
python_preprocessor: strings, hash comments, then the basic classes;
cpp: preprocessor lines, // and /* */ comments, quoted literals, basic classes;
java, javascript: the same without preprocessor lines; simple: basic classes.
"""

ID_CHARS = set(
    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
)
PREPROC = (
    "#include", "#define", "#undef", "#ifdef", "#ifndef", "#line", "#if",
    "#endif", "#error",
)


def _basic(s, i):
  """Returns (end, class) of the basic lexeme at i."""
  c = s[i]
  n = len(s)
  if c.isdecimal():
    j = i
    while j < n and s[j].isdecimal():
      j += 1
    if j < n and s[j] == ".":
      j += 1
      while j < n and s[j].isdecimal():
        j += 1
    return j, "NUMBER"
  if c in ID_CHARS:
    j = i
    while j < n and s[j] in ID_CHARS:
      j += 1
    return j, "ID"
  if c in "+-*/":
    return i + 1, "OP"
  if c in ",.;:=><":
    return i + 1, "PUNC"
  if c in "()[]{}":
    return i + 1, "BRACE"
  if c == "\n":
    return i + 1, "NEWLINE"
  if c == "\t":
    return i + 1, "TAB"
  if c == " ":
    j = i
    while j < n and s[j] == " ":
      j += 1
    return j, "WHITE_SPACE"
  return i + 1, "OTHER"


def _python_string(s, i):
  """End of the string literal that starts at i, or None.

  The literal ends at the first closing quote that is not escaped by a single
  backslash; if every closing quote is escaped, at the last escape that can be
  undone (the literal is still closed if any closing quote exists at all).
  """
  for q in ('"""', "'''", '"', "'"):
    if not s.startswith(q, i):
      continue
    dead = set()
    # Depth-first: prefer honouring an escape, otherwise plain characters.
    stack = [i + len(q)]
    while stack:
      p = stack.pop()
      if p in dead:
        continue
      dead.add(p)
      if s.startswith(q, p):
        return p + len(q)
      if p < len(s):
        stack.append(p + 1)
        if s[p] == "\\" and s[p - 1] != "\\" and s.startswith(q, p + 1):
          stack.append(p + 1 + len(q))
  return None


def _c_literal(s, i):
  q = s[i]
  j = i + 1
  while j < len(s):
    if s[j] == "\\":
      j += 2
    elif s[j] == q:
      return j + 1
    else:
      j += 1
  return None


def _line_end(s, i):
  j = s.find("\n", i)
  return len(s) if j < 0 else j


def lex(language, s):
  """Divides s into tokens of the given lexical preset."""
  out = []
  i = 0
  while i < len(s):
    end = cls = None
    if language == "python_preprocessor":
      if s[i] in "\"'":
        end, cls = _python_string(s, i), "STRING"
      elif s[i] == "#":
        end, cls = _line_end(s, i), "COMMENT_HASH"
    elif language in ("cpp", "java", "javascript"):
      if language == "cpp" and s[i] == "#":
        for kw in PREPROC:
          if s.startswith(kw, i):
            j = i + len(kw)
            while j < len(s):
              if s[j] == "\\" and s[j + 1:j + 2] == "\n":
                j += 2
              elif s[j] in "(\n|/*)":
                break
              else:
                j += 1
            end, cls = j, "C_PREPROCESSOR"
            break
      if end is None and s.startswith("//", i):
        end, cls = _line_end(s, i), "COMMENT_SLASHSLASH"
      if end is None and s.startswith("/*", i):
        j = s.find("*/", i + 2)
        if j >= 0:
          end, cls = j + 2, "COMMENT_SLASHSTAR"
      if end is None and s[i] in "\"'":
        end, cls = _c_literal(s, i), "STRING"
    if end is None:
      end, cls = _basic(s, i)
    out.append((s[i:end], cls))
    i = end
  return out
