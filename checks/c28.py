import builtins
import contextlib
import io
import itertools
import keyword
import math

from checks import c26
from mc import annot
from mc import engine
from mc import htmlcheck
from mc import selection
from mc import trees
from mc import wrapping
from ref import transform as ref

L = engine.Level
WEIGHTS = c26.WEIGHTS
PREC = [0.3, 0.75, 0.0, 1.0, 0.999, 0.5]
# without and with compilation, and with compilation but unchanged states
MODES = [False, True, "states"]
# Names that not every supported version of Python has, and those added by the
# site module for interactive use.
OPTIONAL = {"BaseExceptionGroup", "EncodingWarning", "ExceptionGroup", "aiter",
            "anext", "copyright", "credits", "exit", "help", "license",
            "quit", "__peg_parser__", "_", "PythonFinalizationError"}
PUNCT = set("( ) [ ] : , ; + - * / | & < > = . % { } == != <= >= ~ ^ << >> ** "
            "+= -= *= /= %= &= |= ^= <<= >>= **= // //= @ @= -> ... :=".split())
BUILTIN = ((set(keyword.kwlist) | set(dir(builtins))) - OPTIONAL) | PUNCT

STMTS = ["f(x)", "a.f()", "x = a.b.f(1, y)", "def f(x):", "class C(D):",
         "f(g(x))", "(a)", "f (x)", "a[i](x)", "[f(x)]", "print(a)", "f(x).g(y)",
         "if f(x):\n  g()", "'f(x)'", "# f(x)", "f(x); g(y)", "f(", "f(x))",
         "return f(x)", "a", "f(\n x)", "x += f('s (', {a})", "lambda: f()",
         ". f(x)", "f.\tg(x)", "1(x)", "with f(x) as g(y): h(z)"]
WORDS = ["f", "(", ")", ".", "x", " ", "\n", "[", "]", "def "]


ODD = ["f( )", "f(\t)", "f(\n\n)", "f(# c\n)", "f(x,)", "f(*a, **k)", "f(x)(y)",
       "f()[0]()", "@d(x)\ndef f(y): g(z)", "async def f(x): g(y)", "await f(x)",
       "not f(x)", "x if f(x) else g(y)", "f(" + "x, " * 60 + "y)",
       "f('" + "s" * 150 + "')", "\u00e9(\u00e8)", "f(\u65e5\u672c)", "f(\U0001f600)",
       "a" * 90 + "(x)", ".".join("abcdefghij") + ".f(x)",
       "f\x0c(x)", "a .f(x)", "a. f(x)", "a\\\n.f(x)", "x\t= f(y)", "x  =  f(y)",
       "f(x)\r\ng(y)", "f(x)\rg(y)", "f(g(h(i(j(k)))))", "f(x=g(y), z=h())",
       "f(\"\"\"a\nb\"\"\")", "f(\"(\")", "f(')')", "{f(x): g(y)}", "(f)(x)", "(f(x))",
       "[f(x) for y in g(z)]", "if a: f(x)\nelse: g(y)", "f (x) (y)",
       "import a.b(c)", "f2(x_y)", "fooBar(bazQux)", "self.f(self)", "_(x)",
       "f(<&>)", "f(\u2028)", "f()", "f(())", "f([])", "f(x).g().h(y)",
       "defx(y)", "def(y)", "class (y)", "  def f(x)", "\tf(x)", "1.f(x)",
       "x = -f(1)", "f(x) + f(x)", "print(print)", "f(\u00a0)", "a\u00a0f(x)",
       "raise E(x) from g(y)", "del f(x), g(y)", "f(lambda: g(x))", "a:f(x)"]


def util(text, kind):
  del text
  return {"ARGS": 1.0, "EMPTY_ARGS": 1.0, "EXPECTED": 1.0, "NOVEL": 10.0}.get(
      kind, 0.0)


def seen(forest, cursor):
  """Tokens that begin before the cursor."""
  out, pos = set(), 0
  for e in trees.events(forest):
    if e[0] == "leaf" and not isinstance(e[1], str):
      if pos >= cursor:
        break
      if e[1][0] == "t":
        out.add(e[1][1])
      pos += len(e[1][1])
  return out


def calls(seq, known):
  groups = [k for k, n in enumerate(seq) if ref.is_group(n)]
  if not groups:
    return
  first = groups[0]
  lead = list(seq[:first])
  while lead and lead[0][0] == "d":
    lead.pop(0)
  g = seq[first]
  paren = (g[2] == "MATCH" and len(g[1]) == 3 and
           g[1][0] == ["t", "(", "MATCH_LEFT"])
  definition = lead and lead[0] in (["t", "def", "CONTENT_LEAF"],
                                    ["t", "class", "CONTENT_LEAF"])
  if lead and lead[-1][0] == "t" and paren and not definition:
    out = ["S"]
    for n in lead:
      if n[0] == "d":
        out.append(n)
        if n[1] and n[1].isspace():
          out.append("S")
      elif n == ["t", ".", "CONTENT_LEAF"]:
        out += ["S", ["t", ".", "ATTRIBUTE_DOT"]]
      else:
        out.append(["t", n[1],
                    "EXPECTED" if n[1] in known or n[1] in BUILTIN
                    else "NOVEL"])
    args = trees.text([g[1][1]])
    out += [["t", "(", "START_CALL"], "E",
            ["t", args, "ARGS" if args else "EMPTY_ARGS"],
            ["t", ")", "END_CALL"], "E"]
    yield ["g", out, "API_CALL"]
  else:
    yield from calls(g[1], known)
  for k in groups[1:]:
    yield from calls(seq[k][1], known)


def view(text, cursor):
  f = wrapping.parse("python", text)
  cut = max(text[:cursor].rfind("\n"), 0)
  out = []
  for c in calls(ref.truncate(f, cut), seen(f, cursor)):
    out += [c, ["d", "\n"]]
  return out


def counts(part, hit):
  kinds = {"NOVEL": "novel", "EXPECTED": "not_novel", "ARGS": "args"}
  return tuple(("correct_" if hit else "deleted_") + kinds[s[2]]
               for s in part if s[0] == "t" and s[2] in kinds)


def label(part, hit):
  toks = [s[1] for s in part if s[0] == "t"]
  return ((("MATCHED: " if hit else "WRONG: ") + " ".join(toks)),)


class CHECK(engine.Check):
  """For every text and cursor within the bounds the call view is compared with
  an independent extraction, and for every choice of samples the solution, its
  bound, its report and its counts are compared with brute force over all
  selections (states: views or runs, transitions: calls / updates, traces:
  selections)."""

  id = "C28"

  def prepare(self):
    wrapping.mods()
    for p in PREC:
      for nb in MODES:
        wrapping.wrapper("calls", nb, p)

  def levels(self):
    t = self.thorough

    def odd():
      ctxs = ["", "\u00e9\n", "a\r\n", "x = 1\n" * 40, "f(x)\rb", "g(x)\n  ",
              "\n", "b\n\n\n", "f", "q(", "\t", "x\u2028"]
      for c in ctxs:
        for s in ODD:
          yield {"text": c + s, "cur": len(c)}
      for s in ODD:
        for r in ODD if t else STMTS[::4]:
          yield {"text": "z\n" + s + "\n" + r, "cur": 2}
          yield {"text": "z\n" + r + "\n" + s, "cur": 4 + len(r)}
        b = "a.y\n" + s + "\nf(x)"
        for k in range(len(b) + 1) if len(b) < 80 else (0, 3, 4, 5, 60):
          yield {"text": b, "cur": k}

    def settings():
      menu = ["f(x)\n", "a.f(x)\n", "f(y)\ng()\n", "print(x)\n", "f()\n",
              "x = a.g(y)\n"]
      for p in range(2, len(PREC)):
        for smp in itertools.product(menu, repeat=2):
          yield {"lang": "python", "ctx": "z\n", "s": smp, "i": p % 2, "p": p,
                 "n": p % 2}

    def odd_runs():
      for j, s in enumerate(ODD):
        for k, c in enumerate(("", "x\u00e9\n", "a\r\nb\n")):
          for r in (s, STMTS[j % 12], ODD[j - 1]):
            if len(s) + len(r) < 250:
              yield {"lang": "python", "ctx": c, "s": [s + "\n", r + "\n"],
                     "i": (j + k) % 2 - 2 * (k == 1), "p": j % 2, "n": k % 2}
      names = [a + b for a in "fgh" for b in "12345"]
      for n in (5, 9, 15) if t else (5, 9):
        # many different calls, one of them missing in the other sample
        for at in range(0, n + 1, 2):
          calls = [x + "(y)\n" for x in names[:n]]
          other = calls[:at] + calls[at + 1:]
          for smp in ([calls, other], [other, calls]):
            yield {"lang": "python", "ctx": "z\n",
                   "s": ["".join(x) for x in smp], "i": 0, "p": 0, "n": 0}

    def names():
      for n in sorted(BUILTIN | {"foo", "self", "os", "f2", "Print"}):
        yield {"name": n}

    def stmts():
      ctxs = ["", "x\n", "a.f\nb", "f = 1\ny = ", "f(x)\nq("]
      for c in ctxs:
        for s in STMTS:
          yield {"text": c + s, "cur": len(c)}
      for s in STMTS:
        for r in STMTS:
          yield {"text": "z\n" + s + "\n" + r, "cur": 2}

    def cursors():
      base = [s + "\n" + r for s in STMTS[:12] for r in STMTS[::3]]
      base += ["if a:\n  " + s + "\n  b.c(d)\n" for s in STMTS]
      for b in base:
        for k in range(len(b) + 1):
          yield {"text": b, "cur": k}

    def words():
      for n in range(1, 7 if t else 6):
        for w in itertools.product(WORDS, repeat=n):
          if "(" in w:
            yield {"text": "".join(w), "cur": 0}

    def runs():
      menu = ["f(x)\n", "a.f(x)\n", "f(y)\ng()\n", "g()\nf(x)\n", "f()\n",
              "a.f(x)\nb.f(x)\n", "x = a.f(x)\n", "f(x)\nf(x)\nf(x)\n", "b\n",
              "print(<&)\n"]
      for c in ("", "f\n"):
        for k in (1, 2, 3) if t else (1, 2):
          for smp in itertools.product(menu, repeat=k):
            for i in range(k):
              yield {"lang": "python", "ctx": c, "s": smp, "i": i,
                     "p": (i + k) % 2, "n": i % 2}
              if k == 2 and i and not c:
                yield {"lang": "python", "ctx": c, "s": smp, "i": i, "p": 0,
                       "n": 2}
      for smp in itertools.product(menu[:4] + ["a.f(y)\n"], repeat=3):
        yield {"lang": "python", "ctx": "a = 1\n", "s": smp, "i": 0, "p": 0,
               "n": 1}

    def many():
      menu = ["f(x)\n", "a.f(x)\n", "f(y)\n", "g(x)\n", "b\n"]
      for k in (4, 7, 12, 33):
        for a, b in itertools.permutations(menu if k < 8 else menu[:3], 2):
          for at in range(0, k, 1 + k // 8):  # one sample differs
            smp = [a] * k
            smp[at] = b
            for i in {0, at, k - 1} if k < 8 else {at, -1}:
              yield {"lang": "python", "ctx": "f\n", "s": smp, "i": i,
                     "p": at % 2, "n": i % 2}
      for a, b, c in itertools.product(menu, repeat=3):
        yield {"lang": "python", "ctx": "", "s": [a, b, c, a + b, b + c],
               "i": 4, "p": 1, "n": 1}

    def programs():
      lines = ["f(x)", "a.b.g(1, y)", "if h(z):", "  f(x)", "    k()", "x = 1",
               "def m(q):", "'f(x)'", "t[f(i)].u(v)", ""]
      for n in (4,):
        for ls in itertools.product(lines if t else lines[:7], repeat=n):
          s = "\n".join(ls) + "\n"
          yield {"text": s, "cur": len(ls[0]) + 1}
      for s in STMTS:  # long texts: the same statement again and again
        for k in (6, 11, 40):
          yield {"text": (s + "\n") * k, "cur": 0}
          yield {"text": (s + "\n") * k, "cur": (len(s) + 1) * (k - 1)}
        for k in (3, 8):  # deep nesting
          yield {"text": "h(1)\n" + "".join(
              "  " * i + "if p(%d):\n" % i for i in range(k))
                         + "  " * k + s + "\n", "cur": 5}
          yield {"text": "[" * k + s + "]" * k, "cur": 0}

    return [
        L("odd", "%d unusual statements: contexts, neighbours, cursors"
          % len(ODD), odd),
        L("settings", "extreme precision", settings),
        L("odd_runs", "two samples of unusual statements; up to %d calls"
          % (15 if t else 9), odd_runs),
        L("many", "4-8 samples, one different from the rest; five different "
          "ones", many),
        L("programs", "programs of 4 lines over %d, repeated and deeply nested "
          "statements" % (10 if t else 7), programs),
        L("names", "every keyword, built-in name and punctuation", names),
        L("stmts", "pairs of %d statements, five contexts" % len(STMTS),
          stmts),
        L("cursors", "every cursor position in two-statement texts", cursors),
        L("words", "texts of <=%d words of %d" % (6 if t else 5, len(WORDS)),
          words),
        L("runs", "1-3 samples of a menu, every prototype", runs),
    ]

  def run_case(self, case, ctx):
    if "name" in case:
      return self._name(case["name"], ctx)
    if "text" in case:
      return self._view(case["text"], case["cur"], ctx)
    return self._run(case, ctx)

  def _views(self, w, text, cur):
    m = wrapping.mods()
    nodes = m["pt"].ParserHelper(language="python").parse_to_nodes(text)
    before = trees.from_real(nodes)
    proto, _ = w.process_prototype_and_context(nodes, cur)
    target = w.process_target(nodes, cur)
    engine.same(trees.from_real(nodes), before, "parsed text afterwards")
    return wrapping.unpacked(proto), wrapping.unpacked(target)

  def _name(self, name, ctx):
    try:
      from r_u_sure.parsing import python_builtin_tokens  # pylint: disable=g-import-not-at-top
      tokens = python_builtin_tokens.PYTHON_BUILTIN_TOKENS
    except (ImportError, AttributeError):
      tokens = None  # (the names are kept elsewhere: only the view tells)
    if tokens is not None:
      engine.same(name in tokens, name in BUILTIN, f"{name!r} is built in")
    if name.isidentifier() and name not in ("def", "class"):
      self._view("z\n" + name + "(" + name + ")", 2, ctx)
    ctx.count(states=1)
    ctx.outcome(name in BUILTIN)

  def _view(self, text, cur, ctx):
    exp = view(text, cur)
    for nb in (False, True):
      w = wrapping.wrapper("calls", nb, PREC[0])
      proto, target = self._views(w, text, cur)
      engine.same(proto, exp, "call view")
      engine.same(target, ref.strip(exp), "call view of a target")
    ctx.count(states=1, transitions=len(exp) // 2, traces=2)
    ctx.outcome((len(exp) // 2, trees.size(exp)))

  def _run(self, case, ctx):
    m = wrapping.mods()
    p = PREC[case["p"]]
    w = wrapping.wrapper("calls", MODES[case["n"]], p)
    runner = m["dr"].DemoRunner(w, language="python")
    res = runner.combine(case["ctx"], list(case["s"]), case["i"])
    cur = len(case["ctx"])
    proto = view(case["ctx"] + case["s"][case["i"]], cur)
    targets = [ref.strip(view(case["ctx"] + s, cur)) for s in case["s"]]
    engine.same(wrapping.unpacked(res.packed_prototype), proto, "prototype")
    engine.same([wrapping.unpacked(t) for t in res.packed_targets], targets,
                "targets")
    keys = annot.decisions(proto)
    ctx.count(states=1)
    if not keys:
      wrapping.check_empty(runner, res)
      return

    def reward(text, kind):
      u = util(text, kind)
      return u * (1 - p), u * p

    n = len(targets)
    a = annot.unreal_assign(res.assignment_map)
    engine.same(sorted(a), sorted(keys), "decisions of the solution")
    costs = [selection.best_cost(proto, t, a, reward) for t in targets]
    engine.close(res.solution_utility, -sum(costs) / n, "reported utility")
    best = math.inf
    engine.ensure(annot.well_formed(proto, a),
                  "solution is not a well-formed selection", a)
    room = max(50, 100000 // (n * len(keys)))
    tried = list(itertools.islice(annot.annotations(proto, nested=True),
                                  room + 1))
    whole = len(tried) <= room
    if not whole:
      tried += [(b, None) for b in annot.simple(proto)]
      tried.append((a, None))
    for b, _ in tried:
      best = min(best, sum(selection.best_cost(proto, t, b, reward)
                           for t in targets) / n)
    count = len(tried)
    engine.ensure(res.utility_dual_bound >= -best - 1e-6,
                  "bound below the utility of a selection",
                  res.utility_dual_bound, -best)
    engine.ensure(not whole or res.solution_utility <= -best + 1e-6,
                  "utility above the best")
    ctx.count(transitions=len(res.opt_results.objective_at_step),
              traces=count)
    ctx.outcome((count, round(best, 3)))
    wrapping.check_info(res.solution_info, proto, a, costs)
    # evaluation against each target
    for i, t in enumerate(targets):
      sys1 = w.build_system(prototype=res.packed_prototype,
                            context_info=res.context_info,
                            targets=[res.packed_targets[i]])
      info = w.solution_info(
          prototype=res.packed_prototype,
          evaluation_target=res.packed_targets[i],
          context_info=res.context_info, system=sys1,
          assignments=res.assignment_map, sample_system=res.sample_system)
      wrapping.check_info(info, proto, a, costs, total=costs[i])
      got = tuple(info[k] for k in COUNTS)
      exp = {tuple(notes.count(k) for k in COUNTS)
             for c, notes in selection.outcomes(proto, t, a, reward, counts)
             if c <= costs[i] + 1e-9}
      engine.ensure(got in exp, "counts of right and wrong tokens", got, exp)
    for weights in WEIGHTS if n < 4 else WEIGHTS[:1]:
      weights = [weights[i % len(weights)] for i in range(n)]
      sysw = w.build_system(
          prototype=res.packed_prototype, context_info=res.context_info,
          targets=res.packed_targets, target_utility_scale_factors=weights)
      vec, cost = m["s"].greedy_extract(
          sysw.data, direction=m["s"].SweepDirection.FORWARD)
      b = annot.unreal_assign(
          m["s"].assignments_from_assignment_vector(sysw, vec))
      if annot.well_formed(proto, b):
        want = sum(x * selection.best_cost(proto, t, b, reward)
                   for x, t in zip(weights, targets))
        engine.ensure(abs(cost - want) <= 1e-6 * sum(weights),
                      "cost of a weighted system", cost, want, weights)
      else:
        engine.ensure(cost == math.inf, "cost of an ill-formed selection")
    # what is shown
    m["display"].SHOWN.clear()
    runner.show_suggestion(res)
    got = wrapping.html_plain(htmlcheck.read(m["display"].SHOWN[0].data))
    engine.same(got, trees.text(proto), "text displayed")
    m["display"].SHOWN.clear()
    runner.show_edits(res)
    page = htmlcheck.read(m["display"].SHOWN[0].data)
    pieces = wrapping.html_plain(page).split("========== Target ")
    engine.same(len(pieces) - 1, n, "number of targets displayed")
    for i, (piece, t) in enumerate(zip(pieces[1:], targets)):
      lines = piece.split("\n")
      engine.same(lines[0], f"{i} ==========", "heading of a target")
      # (the texts may hold line breaks themselves)
      got = [x for x in "\n".join(lines[1:]).split("\n") if x]
      exp = {notes for c, notes in
             selection.outcomes(proto, t, a, reward, label)
             if c <= costs[i] + 1e-9}
      engine.ensure(got in [[x for x in "\n".join(e).split("\n") if x]
                            for e in exp], "matching displayed", got, exp)
    m["display"].SHOWN.clear()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
      runner.show_utilities(res)
    lines = out.getvalue().splitlines()
    engine.same(len(lines), n, "utilities displayed")
    for i, (line, c) in enumerate(zip(lines, costs)):
      head, _, tail = line.partition(": ")
      engine.same(head, f"Target {i}", "target of a utility")
      engine.ensure(abs(float(tail) + c) < 1e-5, "utility of a target", line, c)


COUNTS = ["correct_novel", "correct_not_novel", "correct_args",
          "deleted_novel", "deleted_not_novel", "deleted_args"]
