import contextlib
import io
import itertools
import math
import multiprocessing

from mc import annot
from mc import engine
from mc import trees
from mc import wrapping

L = engine.Level
# (wrapper, language, context, samples, prototype) or, for baselines,
# (wrapper, language, context, [(model token, log probability)])
REQUESTS = [
    ["regions", "python", "x = ", ["a\n", "b\n"], 0],
    ["regions", "python", "x = ", ["a\n", "b\n"], 1],
    ["regions", "javascript", "x = ", ["a;", "(a"], 0],
    ["plain", "python", "x =", [" a\n", " b"], 0],
    ["prefix", "python", "x = ", ["a\n", "b\n"], 0],
    ["prefix", "java", "", ["a; b;", "a;"], 0],
    ["both", "python", "x", ["y", "z"], 0],
    ["calls", "python", "a\n", ["f(a)\n", "a.g()\n", "f(a)\n"], 0],
    ["calls", "python", "f\n", ["f(a)\n", "a.g()\n", "f(a)\n"], 0],
    ["plain", "python", "", [""], 0],
    ["plain", "python", "x =", [[" ", -0.1], ["a", -2.0]]],
    ["prefix", "python", "x = ", [["f(", -3.0], ["a)", -0.5], ["\n", -0.1]]],
    ["calls", "python", "a\n", [["f(", -0.1], ["a)", -2.0], ["\n", -9.0]]],
]
STEPS = 5


def new_wrapper(kind):
  with wrapping.small_tables(64):
    return _new_wrapper(kind)


def _new_wrapper(kind):
  m = wrapping.mods()
  if kind == "regions":
    return m["uw"].UncertaintyRegionsWrapper()
  if kind == "plain":
    return m["uw"].UncertaintyRegionsWrapper(use_numba=False)
  if kind == "prefix":
    return m["pw"].PrefixByEditDistanceWrapper()
  if kind == "both":
    return m["pw"].PrefixByEditDistanceWrapper(
        also_insert_uncertainty_regions=True)
  return m["cw"].ApiCallSequenceWrapper()


def norm(x):
  """Plain data for anything that a result contains."""
  if isinstance(x, dict):
    return sorted(([norm(k), norm(v)] for k, v in x.items()), key=repr)
  if isinstance(x, (list, tuple)):
    return [norm(v) for v in x]
  if hasattr(x, "tolist"):
    return norm(x.tolist())
  if hasattr(x, "name") and hasattr(x, "value"):
    return x.name
  if x is None or isinstance(x, (bool, int, float, str)):
    return x
  return str(x)


def alike(a, b):
  if isinstance(a, list) and isinstance(b, list):
    return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
  if isinstance(a, (int, float)) and isinstance(b, (int, float)):
    return (a == b or abs(a - b) <= 1e-6 * (1 + abs(b)) or
            (math.isnan(a) and math.isnan(b)))
  return a == b


def shown(fn, *args):
  m = wrapping.mods()
  m["display"].SHOWN.clear()
  m["plt"].CALLS.clear()
  out = io.StringIO()
  with contextlib.redirect_stdout(out):
    fn(*args)
  got = [out.getvalue(), [d.data for d in m["display"].SHOWN]]
  m["display"].SHOWN.clear()
  m["plt"].CALLS.clear()
  return got


def describe(runner, req, res):
  """Everything a user can see of a result."""
  if len(req) == 4:
    return [[name, norm(r.assignment_map), norm(r.solution_info),
             wrapping.unpacked(r.packed_prototype),
             shown(runner.show_suggestion, r)]
            for name, r in res.items()]
  return [norm(res.utility_dual_bound), norm(res.solution_utility),
          norm(res.assignment_map), norm(res.solution_info),
          wrapping.unpacked(res.packed_prototype),
          [wrapping.unpacked(t) for t in res.packed_targets],
          norm(runner.get_extracted_parts(res)),
          shown(runner.show_suggestion, res), shown(runner.show_edits, res),
          shown(runner.show_utilities, res)]


def perform(runner, req):
  if len(req) == 4:
    parts = [tuple(p) for p in req[3]]
    keep = list(parts)
    res = runner.build_baselines(req[2], parts)
    engine.same(parts, keep, "model tokens given")
  else:
    samples = list(req[3])
    res = runner.combine(req[2], samples, req[4])
    engine.same(samples, list(req[3]), "samples given")
  return res


class Staged:
  """The steps of one request, made one by one on a (shared) wrapper."""

  def __init__(self, wrap, req):
    self.w, self.req, self.at, self.m = wrap, req, 0, wrapping.mods()
    self.out = None

  def step(self):
    getattr(self, f"_{self.at}")()
    self.at += 1

  def _0(self):
    _, lang, ctx, samples, i = self.req
    h = self.m["pt"].ParserHelper(language=lang)
    self.nodes = [h.parse_to_nodes(ctx + s) for s in samples]
    self.proto, self.info = self.w.process_prototype_and_context(
        self.nodes[i], len(ctx))

  def _1(self):
    self.targets = [self.w.process_target(n, len(self.req[2]))
                    for n in self.nodes]

  def _2(self):
    self.system = self.w.build_system(self.proto, self.info, self.targets)

  def _3(self):
    s = self.m["s"]
    self.opt = s.solve_system_with_sweeps(self.system.data, soft_timeout=1e6)
    self.vec, self.cost = s.greedy_extract(
        self.system.data, direction=s.SweepDirection.FORWARD)

  def _4(self):
    s, w = self.m["s"], self.w
    a = s.assignments_from_assignment_vector(self.system, self.vec)
    self.out = [
        norm(self.cost), norm(self.opt.objective_at_step[-1]), norm(a),
        norm(w.solution_info(
            prototype=self.proto, evaluation_target=None,
            context_info=self.info, system=None, sample_system=self.system,
            assignments=a)),
        w.render_solution_html(prototype=self.proto, context_info=self.info,
                               assignments=a),
        w.render_pairwise_matching_html(
            prototype=self.proto, context_info=self.info, targets=self.targets,
            system=self.system, assignments=a),
        [trees.from_real(n) for n in self.nodes]]


def alone(kind, req):
  """The description of a request made in a process of its own."""
  mp = multiprocessing.get_context("fork")
  here, there = mp.Pipe(duplex=False)

  def child():
    try:
      w = new_wrapper(req[0])
      if kind == "whole":
        runner = wrapping.mods()["dr"].DemoRunner(w, language=req[1])
        got = describe(runner, req, perform(runner, req))
      else:
        s = Staged(w, req)
        for _ in range(STEPS):
          s.step()
        got = s.out
      there.send(("ok", got))
    except BaseException as e:  # pylint: disable=broad-except
      there.send(("failed", f"{type(e).__name__}: {e}"))
    finally:
      there.close()

  p = mp.Process(target=child)
  p.start()
  there.close()
  try:
    got = here.recv()
  except EOFError:
    got = ("failed", "the process died")
  p.join()
  return got


class CHECK(engine.Check):
  """Explores all histories of requests on shared wrappers, and all
  interleavings of the steps of two requests on one wrapper; every result is
  compared with that of the same request made alone in a process of its own,
  when it is made and again at the end of the history (states: points of a
  history, transitions: requests or steps)."""

  id = "C31"

  def prepare(self):
    wrapping.mods()
    annot.mods()
    self.ref = {i: alone("whole", r) for i, r in enumerate(REQUESTS)}
    self.staged = [i for i, r in enumerate(REQUESTS)
                   if len(r) == 5 and r[3] != [""]]
    self.sref = {i: alone("staged", REQUESTS[i]) for i in self.staged}

  def levels(self):
    t = self.thorough
    n = len(REQUESTS)

    def histories():
      for k in range(1, 3):
        for h in itertools.product(range(n), repeat=k):
          yield {"h": list(h)}

    def longer():
      pick = range(n) if t else [0, 2, 4, 7, 8, 10]
      for h in itertools.product(pick, repeat=3):
        yield {"h": list(h)}

    def repeated():
      for i in range(n):
        for k in (5, 12) if t else (5,):
          yield {"h": [i] * k}
          yield {"h": list(range(i, n)) + list(range(i))}

    def interleaved():
      groups = [[0, 1, 2], [4, 5], [7, 8]] + ([[6], [3]] if t else [])
      for g in groups:
        for a, b in itertools.combinations_with_replacement(g, 2):
          for pos in itertools.combinations(range(2 * STEPS), STEPS):
            if 0 in pos:  # (the other half is the same with a and b swapped)
              yield {"a": a, "b": b, "pos": list(pos)}

    return [
        L("histories", f"all histories of <=2 of {n} requests", histories),
        L("longer", "all histories of 3 of %d requests" % (n if t else 6),
          longer),
        L("repeated", "the same request 5 times; all requests in a row",
          repeated),
        L("interleaved", "all interleavings of the 5 steps of two requests on "
          "one wrapper", interleaved),
    ]

  def run_case(self, case, ctx):
    if "h" in case:
      self._history(case["h"], ctx)
    else:
      self._interleaved(case, ctx)

  def _expected(self, table, i):
    ok, want = table[i]
    engine.ensure(ok == "ok", "request", REQUESTS[i], "made alone:", want)
    return want

  def _compare(self, got, want, what, i):
    if alike(got, want):
      return
    for x, y in zip(got, want):
      if not alike(x, y):
        got, want = x, y
        break
    engine.ensure(False, what, REQUESTS[i], "gives", str(got)[:300],
                  "and alone", str(want)[:300])

  def _history(self, hist, ctx):
    m = wrapping.mods()
    wraps, done = {}, []
    for i in hist:
      req = REQUESTS[i]
      if req[0] not in wraps:
        wraps[req[0]] = new_wrapper(req[0])
      runner = m["dr"].DemoRunner(wraps[req[0]], language=req[1])
      res = perform(runner, req)
      self._compare(describe(runner, req, res), self._expected(self.ref, i),
                    f"after {len(done)} others", i)
      done.append((i, runner, res))
    for i, runner, res in done:
      self._compare(describe(runner, REQUESTS[i], res),
                    self._expected(self.ref, i), "at the end of the history,",
                    i)
    ctx.count(states=2 * len(hist), transitions=len(hist), traces=1)
    ctx.outcome(tuple(hist[:2]))

  def _interleaved(self, case, ctx):
    a, b = case["a"], case["b"]
    w = new_wrapper(REQUESTS[a][0])
    runs = [Staged(w, REQUESTS[a]), Staged(w, REQUESTS[b])]
    for k in range(2 * STEPS):
      runs[0 if k in case["pos"] else 1].step()
    for run, i in zip(runs, (a, b)):
      self._compare(run.out, self._expected(self.sref, i), "interleaved,", i)
    ctx.count(states=2 * STEPS + 1, transitions=2 * STEPS, traces=1)
    ctx.outcome((a, b))
