"""End-to-end runs of the edit-distance wrappers against brute force."""
import bisect
import contextlib
import io
import itertools
import math

from mc import annot
from mc import engine
from mc import htmlcheck
from mc import trees
from ref import transform as ref

INF = math.inf
_m = {}


def mods():
  if not _m:
    from IPython import display  # pylint: disable=g-import-not-at-top
    from matplotlib import pyplot  # pylint: disable=g-import-not-at-top
    import numpy as np  # pylint: disable=g-import-not-at-top
    from r_u_sure.decision_diagrams import consistent_path_dual_solver  # pylint: disable=g-import-not-at-top
    from r_u_sure.tree_structure import packed_sequence_nodes  # pylint: disable=g-import-not-at-top
    from r_u_sure.wrappers import call_sequence_wrapper  # pylint: disable=g-import-not-at-top
    from r_u_sure.wrappers import demo_runner  # pylint: disable=g-import-not-at-top
    from r_u_sure.wrappers import prefix_truncation_wrapper  # pylint: disable=g-import-not-at-top
    from r_u_sure.wrappers import uncertainty_regions_wrapper  # pylint: disable=g-import-not-at-top
    from r_u_sure.wrappers import parser_tools  # pylint: disable=g-import-not-at-top
    _m.update(annot.mods())
    _m.update(display=display, plt=pyplot, np=np,
              s=consistent_path_dual_solver, psn=packed_sequence_nodes,
              dr=demo_runner, uw=uncertainty_regions_wrapper,
              pw=prefix_truncation_wrapper, cw=call_sequence_wrapper,
              pt=parser_tools)
  return _m


@contextlib.contextmanager
def small_tables(size=1 << 10):
  """Wrappers made in here get a small scratch table instead of one of 128 MB
  (which takes most of the time of small requests); its contents and type are
  what the wrapper asks for."""
  np = mods()["np"]
  real = np.full

  def full(shape, *args, **kwargs):
    if isinstance(shape, tuple) and len(shape) == 1 and shape[0] > 1 << 20:
      shape = (size,)
    return real(shape, *args, **kwargs)

  np.full = full
  try:
    yield
  finally:
    np.full = real


_wrappers = {}


def wrapper(kind, numba, *args):
  """Cached wrapper objects (the call wrapper keeps its large scratch table)."""
  key = (kind, numba, args)
  if key not in _wrappers:
    with (contextlib.nullcontext() if kind == "calls" else small_tables()):
      _wrappers[key] = _wrapper(kind, numba, *args)
  return _wrappers[key]


def _wrapper(kind, numba, *args):
  m = mods()
  if kind == "regions":
    p, hs, s = args
    w = m["uw"].UncertaintyRegionsWrapper(
        effective_precision=p, high_confidence_start_inserting_cost=hs,
        low_confidence_edit_sensitivity=s, use_numba=numba)
  elif kind == "prefix":
    hs, also, p, s = args
    w = m["pw"].PrefixByEditDistanceWrapper(
        start_editing_cost=hs, also_insert_uncertainty_regions=also,
        uncertainty_region_effective_precision=p,
        low_confidence_edit_sensitivity=s, use_numba=numba)
  else:
    w = m["cw"].ApiCallSequenceWrapper(effective_precision=args[0],
                                       use_numba=bool(numba),
                                       rewrite_states=numba != "states")
  return w


def rates(p, hs, s):
  """Rates with which a token of any length that is right with probability p
  is worth the same in and outside of a region, and edits in a region cost s
  times as much as outside."""
  hm = hd = 1.0
  # p hm - (1-p) hd = p lm - (1-p) ld  and  lm + ld = s (hm + hd)
  lm_plus_ld = s * (hm + hd)
  ld = p * lm_plus_ld - (p * hm - (1 - p) * hd)
  return dict(hm=hm, hd=hd, lm=lm_plus_ld - ld, ld=ld, ins=0.0,
              reg=(1 - p) * hs - (1 - p) * s * hs, hs=hs, ls=s * hs)


def accepts(n):
  if n[2] in ("MATCH_LEFT", "MATCH_INNER", "MATCH_RIGHT"):
    return False
  return not (n[0] == "t" and n[1] == "\n")


def parse(lang, text):
  return trees.from_real(
      mods()["pt"].ParserHelper(language=lang).parse_to_nodes(text))


def proto_of(lang, context, sample, regions, exits):
  f = parse(lang, context + sample)
  if regions:
    f = ref.regions(f, True, accepts)
  if exits:
    f = ref.early_exit(f, True, False)
  return ref.truncate(f, len(context))


def unpacked(storage):
  return trees.from_real(mods()["psn"].unpack(storage))


def html_plain(p):
  """The text of an HTML fragment outside of style elements."""
  return "".join(d for d, st in p.items
                 if not any(t == "style" for t, _ in st))


def check_combine(case, kind, wrap, par, regions, exits, cap, ctx):
  """Runs DemoRunner.combine and compares everything it reports."""
  m = mods()
  lang, context, samples, idx = case["lang"], case["ctx"], case["s"], case["i"]
  runner = m["dr"].DemoRunner(wrap, language=lang)
  res = runner.combine(context, list(samples), idx)
  proto = proto_of(lang, context, samples[idx], regions, exits)
  engine.same(unpacked(res.packed_prototype), proto, "prototype")
  engine.same(trees.text(proto), samples[idx], "text of the prototype")
  targets = []
  for smp, packed in zip(samples, res.packed_targets):
    t = ref.truncate(parse(lang, context + smp), len(context))
    engine.same(unpacked(packed), t, "target")
    engine.same(trees.text(t), smp, "text of the target")
    targets.append(t)
  engine.same(len(res.packed_targets), len(samples), "number of targets")
  keys = annot.decisions(proto)
  ctx.count(states=1)
  if not keys:
    check_empty(runner, res)
    ctx.outcome("empty")
    return
  a = annot.unreal_assign(res.assignment_map)
  engine.same(sorted(a), sorted(keys), "decisions of the solution")
  costs = [annot.edit_cost(proto, t, a, par) for t in targets]
  n = len(targets)
  util = -sum(costs) / n
  engine.close(res.solution_utility, util, "reported utility")
  engine.ensure(res.utility_dual_bound >= util - 1e-6,
                "utility above its bound", util, res.utility_dual_bound)
  engine.close(-res.opt_results.objective_at_step[-1],
               res.utility_dual_bound, "reported bound")
  engine.ensure(annot.well_formed(proto, a),
                "solution is not a well-formed annotation", a)
  best = -INF
  size = sum(len(annot.flat(t)) for t in targets) + n
  room = max(20, min(cap, 300000 // (size * len(keys))))
  tried = list(itertools.islice(annot.annotations(proto, nested=True),
                                room + 1))
  whole = len(tried) <= room
  if not whole:
    tried[room // 2:] = [(b, None) for b in itertools.islice(
        annot.simple(proto), room // 2)]
  for b, _ in tried:
    u = -sum(annot.edit_cost(proto, t, b, par) for t in targets) / n
    best = max(best, u)
  tol = 1e-6 + 1e-9 * abs(best)
  engine.ensure(res.utility_dual_bound >= best - tol,
                "bound below the utility of an annotation",
                res.utility_dual_bound, best)
  ctx.count(traces=len(tried))
  if whole:
    engine.ensure(util <= best + tol, "utility above the best", util, best)
    # (tight bound => optimal is implied)
    ctx.outcome((round(best, 3), abs(best - util) < 1e-6,
                 abs(res.utility_dual_bound - best) < 1e-6))
  ctx.count(transitions=len(res.opt_results.objective_at_step))
  info = res.solution_info
  check_info(info, proto, a, costs)
  shown = annot.shown(proto, a)
  exp = []
  for t, r, _ in shown:
    if exp and exp[-1][1] == r:
      exp[-1] = (exp[-1][0] + (t or ""), r)
    else:
      exp.append((t or "", r))
  engine.same(runner.get_extracted_parts(res), exp, "extracted parts")
  if not exits:
    engine.same("".join(t for t, _ in exp), samples[idx],
                "text of the suggestion")
  else:
    engine.ensure(samples[idx].startswith("".join(t for t, _ in exp)),
                  "the suggestion is not a prefix of the prototype")
  # what is shown
  m["display"].SHOWN.clear()
  runner.show_suggestion(res)
  engine.same(len(m["display"].SHOWN), 1, "suggestions displayed")
  p = htmlcheck.read(m["display"].SHOWN[0].data)
  got = html_plain(p)
  want = context + "".join("\u0000" if t is None else t for t, _, _ in shown)
  engine.ensure(len(got) == len(want) + 1 and all(
      x == y or y == "\0" for x, y in zip(got, want)),
                "suggestion displayed", got, want)
  m["display"].SHOWN.clear()
  runner.show_edits(res)
  engine.same(len(m["display"].SHOWN), 1, "edit reports displayed")
  check_pairwise(m["display"].SHOWN[0].data, context, proto, targets, a)
  m["display"].SHOWN.clear()
  out = io.StringIO()
  with contextlib.redirect_stdout(out):
    runner.show_utilities(res)
  lines = out.getvalue().splitlines()
  engine.same(len(lines), n, "lines of the utilities")
  for i, (l, c) in enumerate(zip(lines, costs)):
    head, _, tail = l.partition(": ")
    engine.same(head, f"Target {i}", "target of a utility")
    engine.ensure(abs(float(tail) + c) < 1e-5, "utility of a target", l, c)
  m["plt"].CALLS.clear()
  runner.show_optimization_details(res)
  lines = [c for c in m["plt"].CALLS if c[1] == "axhline"]
  engine.same(sorted((c[0], c[3]["y"]) for c in lines),
              [(i, res.solution_utility) for i in range(3)], "plotted utility")
  for c in m["plt"].CALLS:
    if c[1] == "plot":
      engine.ensure(max(c[2][1]) >= util - 1e-6, "plotted bound", c[0])
  m["plt"].CALLS.clear()
  return res, proto, targets, a


def check_empty(runner, res):
  """A result without any decision is announced, not shown."""
  m = mods()
  engine.ensure(res.assignment_map is None and res.solution_info is None and
                math.isnan(res.solution_utility), "result without decisions")
  engine.same(runner.get_extracted_parts(res), None,
              "extracted parts of an empty result")
  for show in (runner.show_suggestion, runner.show_edits,
               runner.show_utilities, runner.show_optimization_details):
    m["display"].SHOWN.clear()
    m["plt"].CALLS.clear()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
      show(res)
    engine.ensure(out.getvalue().strip(), "nothing said about an empty result")
    engine.same((len(m["display"].SHOWN), len(m["plt"].CALLS)), (0, 0),
                "things displayed for an empty result")


def check_info(info, proto, a, costs, total=None):
  engine.same([(t, bool(r)) for t, r in info["extracted_parts"]],
              [(t or "", r) for t, r, _ in annot.shown(proto, a)],
              "extracted parts")
  got = info["sample_system_costs_unsorted"]
  engine.same(len(got), len(costs), "number of sample costs")
  for i, (x, c) in enumerate(zip(got, costs)):
    engine.close(x, c, f"cost of sample {i}")
  engine.same(list(info["sample_system_costs"]), sorted(got),
              "sorted sample costs")
  mean = sum(got) / len(got)
  engine.close(info["sample_system_cost_average"], mean, "average cost")
  if len(got) > 1:
    engine.close(info["sample_system_cost_variance"],
                 sum((x - mean) ** 2 for x in got) / (len(got) - 1),
                 "variance of the costs")
  if total is not None:
    engine.close(info["total_cost"], total, "total cost")
    engine.same(info["true_cost_rank_in_sample_system"],
                bisect.bisect_left(sorted(got), info["total_cost"]),
                "rank of the cost")


def check_pairwise(text, context, proto, targets, a):
  p = htmlcheck.read(text)
  plain = html_plain(p)
  pieces = plain.split("========== Target ")
  engine.same(pieces[0].strip(), "", "text in front of the first target")
  engine.same(len(pieces) - 1, len(targets), "number of targets displayed")
  for i, piece in enumerate(pieces[1:]):
    head = f"{i} ==========\n" + context
    engine.ensure(piece.startswith(head), "heading of a target", piece)
  # the report shown under each heading accounts for prototype and target
  kd, ki = [""] * len(targets), [""] * len(targets)
  at = -1
  for data, stack in p.items:
    cls = " ".join(c for _, c in stack).split()
    n = [c for c in ("keep", "delete", "insert") if c in cls]
    if not n:
      at += data.count("========== Target ")
      continue
    engine.ensure(len(n) == 1 and 0 <= at < len(targets),
                  "place of a report span", data)
    if n[0] != "insert":
      kd[at] += data
    if n[0] != "delete":
      ki[at] += data
  exited = any(k[1] == "X" and v == "T" for k, v in a.items())
  squeeze = lambda x: "".join(x.split())
  for i, t in enumerate(targets):
    engine.same(squeeze(kd[i]), squeeze("".join(
        x or "" for x, _, _ in annot.shown(proto, a))),
                f"prototype in the report of target {i}")
    want = squeeze("".join(n[2][1] for n in annot.flat(t)
                           if n[0] == "leaf" and n[2][0] == "t"))
    got = squeeze(ki[i])
    toks = [n[2] for n in annot.flat(t) if n[0] == "leaf"]
    toks += [n[2] for n in annot.flat(proto) if n[0] == "leaf"]
    if any(n[0] == "d" and n[1].strip() for n in toks
           if not isinstance(n, str)):
      continue  # (decorations with text of their own)
    engine.ensure(want.startswith(got) if exited else got == want,
                  f"target in the report of target {i}", got, want)


def check_evaluation(wrap, res, proto, targets, a, par, weights, ctx):
  """Evaluation systems, weighted systems and their cost."""
  m = mods()
  costs = [annot.edit_cost(proto, t, a, par) for t in targets]
  for i, t in enumerate(targets):
    sys1 = wrap.build_system(prototype=res.packed_prototype,
                             context_info=res.context_info,
                             targets=[res.packed_targets[i]])
    info = wrap.solution_info(
        prototype=res.packed_prototype, evaluation_target=res.packed_targets[i],
        context_info=res.context_info, system=sys1,
        assignments=res.assignment_map, sample_system=res.sample_system)
    check_info(info, proto, a, costs, total=costs[i])
    del t
  n = len(targets)
  for ws in weights or ():
    ws = [ws[i % len(ws)] for i in range(n)]
    sysw = wrap.build_system(
        prototype=res.packed_prototype, context_info=res.context_info,
        targets=res.packed_targets, target_utility_scale_factors=list(ws))
    scale = sum(ws)
    for direction in (m["s"].SweepDirection.FORWARD,
                      m["s"].SweepDirection.REVERSE):
      vec, cost = m["s"].greedy_extract(sysw.data, direction=direction)
      b = annot.unreal_assign(
          m["s"].assignments_from_assignment_vector(sysw, vec))
      if annot.well_formed(proto, b):
        exp = sum(w * annot.edit_cost(proto, t, b, par)
                  for w, t in zip(ws, targets))
        engine.ensure(abs(cost - exp) <= 1e-6 * scale,
                      "cost of a weighted system", cost, exp, ws)
      else:
        engine.ensure(cost == INF, "cost of an ill-formed annotation", cost)
    ctx.count(traces=2)
