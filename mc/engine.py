"""Bounded-exhaustive exploration engine.

A check is a subclass of `Check`.  It names a finite sequence of *levels*
(iterated bounds, simplest first); every level is a finite, deterministic
enumeration of cases (an input word, a tree, a DAG, an initial configuration
for an operation-sequence search, ...).  `run_case` executes the real code of
/repo on the case and compares it with a reference model, raising `Violation`
on the first disagreement.  All cases of a level are visited, sharded over the
cores by index; a level cut short by the time budget is reported as such.
"""
from __future__ import annotations

import dataclasses
import hashlib
import itertools
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
from typing import Any, Callable, Iterable

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
  """The property is broken on this case."""


class CaseTimeout(BaseException):
  """The code under test did not come back in time."""


@dataclasses.dataclass
class Level:
  name: str
  bound: str
  cases: Callable[[], Iterable[Any]]


class Ctx:
  """Per-worker counters."""

  def __init__(self):
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.outcomes = set()
    self.samples = []

  def count(self, states=0, transitions=0, traces=0):
    self.states += states
    self.transitions += transitions
    self.traces += traces

  def outcome(self, sig):
    if len(self.outcomes) < 200000:
      self.outcomes.add(
          hashlib.blake2b(repr(sig).encode(), digest_size=6).digest()
      )

  def sample(self, obj):
    if len(self.samples) < 2:
      self.samples.append(obj)


class Check:
  """Base class of all checks."""

  id = "C00"
  level = "model_checking"
  case_timeout = 180.0
  assumptions = ()

  def __init__(self, tier):
    self.tier = tier
    self.thorough = tier == "thorough"

  def prepare(self):
    """Imports the code under test (once per process)."""

  def levels(self) -> list[Level]:
    raise NotImplementedError

  def run_case(self, case, ctx: Ctx) -> None:
    raise NotImplementedError


def ensure(cond, *msg):
  if not cond:
    raise Violation(" ".join(str(m) for m in msg))


def same(actual, expected, what):
  if actual != expected:
    raise Violation(f"{what}: got {actual!r}, expected {expected!r}")


def close(actual, expected, what, tol=1e-6):
  a, e = float(actual), float(expected)
  if a == e:
    return
  if not abs(a - e) <= tol * max(1.0, abs(a), abs(e)):
    raise Violation(f"{what}: got {a!r}, expected {e!r}")


def _on_alarm(signum, frame):
  raise CaseTimeout()


def _through_repo(exc) -> bool:
  tb = exc.__traceback__
  prefix = os.path.realpath(REPO) + os.sep
  while tb is not None:
    if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(prefix):
      return True
    tb = tb.tb_next
  return False


def guarded(check: Check, case, ctx) -> str | None:
  """Runs one case; returns a violation message or None."""
  signal.setitimer(signal.ITIMER_REAL, check.case_timeout)
  try:
    check.run_case(case, ctx)
    return None
  except Violation as e:
    return str(e)
  except CaseTimeout:
    return f"no answer from the code under test within {check.case_timeout}s"
  except Exception as e:  # pylint: disable=broad-except
    if _through_repo(e):
      tail = "".join(traceback.format_exception(e)[-6:])
      return f"code under test raised {type(e).__name__}: {e}\n{tail}"
    if isinstance(e, MemoryError):
      return "code under test exhausted memory"
    if isinstance(e, (OSError, NameError, SyntaxError)):
      raise
    # the result has a shape that the comparison cannot even read
    tail = "".join(traceback.format_exception(e)[-4:])
    return f"unreadable result: {type(e).__name__}: {e}\n{tail}"
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(check, level_no, shard, nshards, deadline, conn, stop):
  """Explores one shard of one level."""
  try:
    signal.signal(signal.SIGALRM, _on_alarm)
    try:
      resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (ValueError, OSError):
      pass
    sys.setrecursionlimit(5000)
    ctx = Ctx()
    level = check.levels()[level_no]
    complete = True
    violations = []
    ncases = 0
    for index, case in enumerate(level.cases()):
      if index % nshards != shard:
        continue
      if time.time() > deadline or stop.is_set():
        complete = False
        break
      ncases += 1
      msg = guarded(check, case, ctx)
      if msg is not None:
        known = _known(check.id, case)
        if known is not None:
          violations.append(("known", index, case, known))
          continue
        violations.append(("new", index, case, msg))
        stop.set()
        complete = False
        break
      if ncases <= 2:
        ctx.sample(case)
    conn.send(dict(
        ok=True, complete=complete, violations=violations, ncases=ncases,
        states=ctx.states, transitions=ctx.transitions, traces=ctx.traces,
        outcomes=ctx.outcomes, samples=ctx.samples,
    ))
  except BaseException:  # pylint: disable=broad-except
    conn.send(dict(ok=False, error=traceback.format_exc()))
  finally:
    conn.close()


_KNOWN = None


def _canon(case):
  return json.dumps(case, sort_keys=True, default=str)


def _known(prop, case):
  global _KNOWN
  if _KNOWN is None:
    path = os.path.join(VERIF, "known_findings.json")
    _KNOWN = []
    if os.path.exists(path):
      with open(path) as f:
        _KNOWN = json.load(f).get("open", [])
  for entry in _KNOWN:
    if entry["property"] == prop and _canon(entry["case"]) == _canon(case):
      return entry["what"]
  return None


def _confirm(check, case, q):
  try:
    signal.signal(signal.SIGALRM, _on_alarm)
    sys.setrecursionlimit(5000)
    q.send(guarded(check, case, Ctx()) is not None)
  except BaseException:  # pylint: disable=broad-except
    q.send(None)
  finally:
    q.close()


def explore(check: Check, seed: int) -> int:
  """Runs every level of a check, writes evidence, returns the exit code."""
  t0 = time.time()
  budget = float(os.environ.get(
      "VERIF_BUDGET_S", "14400" if check.thorough else "520"))
  deadline = t0 + budget
  ncpu = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
  mp = multiprocessing.get_context("fork")
  total = dict(states=0, transitions=0, traces=0, ncases=0)
  outcomes = set()
  samples = []
  level_report = []
  new_violation = None
  known = []
  import_failure = None
  try:
    check.prepare()
    levels = check.levels()
  except Exception as e:  # pylint: disable=broad-except
    if _through_repo(e) or (
        isinstance(e, (ImportError, AttributeError))
        and "r_u_sure" in str(e)
    ):
      import_failure = "".join(traceback.format_exception(e)[-6:])
      levels = []
    else:
      raise
  if import_failure is not None:
    new_violation = (
        "import", 0, {"import": True},
        "the code under test does not load: " + import_failure)
  for level_no, level in enumerate(levels):
    lt0 = time.time()
    stop = mp.Event()
    procs = []
    for shard in range(ncpu):
      parent, child = mp.Pipe(duplex=False)
      p = mp.Process(
          target=_worker,
          args=(check, level_no, shard, ncpu, deadline, child, stop))
      p.start()
      child.close()
      procs.append((p, parent))
    complete = True
    ncases = 0
    errors = []
    for p, parent in procs:
      try:
        res = parent.recv()
      except EOFError:
        res = dict(ok=False, error=f"worker died (exit {p.exitcode})")
      p.join()
      if not res["ok"]:
        errors.append(res["error"])
        continue
      complete &= res["complete"]
      ncases += res["ncases"]
      for k in ("states", "transitions", "traces"):
        total[k] += res[k]
      outcomes |= res["outcomes"]
      if len(samples) < 12:
        samples.extend(res["samples"][: 2 if level_no else 3])
      for kind, index, case, msg in sorted(
          res["violations"], key=lambda v: v[1]):
        if kind == "known":
          known.append((case, msg))
        elif new_violation is None or index < new_violation[1]:
          new_violation = (level.name, index, case, msg)
    total["ncases"] += ncases
    level_report.append(dict(
        level=level.name, bound=level.bound, cases=ncases,
        fully_enumerated=bool(complete and not errors),
        wall_s=round(time.time() - lt0, 2)))
    if errors and new_violation is None:
      print(errors[0], file=sys.stderr)
      print(f"ERROR property={check.id}: harness failure", file=sys.stderr)
      _write_evidence(check, seed, total, outcomes, samples, level_report,
                      0, t0)
      return 2
    if new_violation is not None:
      break
    if time.time() > deadline:
      break
  violations = 0
  for case, what in known:
    print(f"KNOWN-FINDING: property={check.id} {what}")
  if new_violation is not None:
    violations = 1
    level_name, index, case, msg = new_violation
    parent, child = mp.Pipe(duplex=False)
    p = mp.Process(target=_confirm, args=(check, case, child))
    p.start()
    child.close()
    try:
      reproduced = parent.recv()
    except EOFError:
      reproduced = None
    p.join()
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{check.id}.json")
    with open(path, "w") as f:
      json.dump(dict(
          property=check.id, level=level_name, index=index, case=case,
          message=msg, reproduced_in_isolation=reproduced,
          replay_cmd=f"bash {VERIF}/run.sh {check.id} --replay {path}",
      ), f, indent=1, default=str)
    print(f"[{check.id}] {level_name} case #{index}: {msg}"[:4000])
    print(f"VIOLATION property={check.id} replay={path}")
  _write_evidence(check, seed, total, outcomes, samples, level_report,
                  violations, t0)
  print(
      f"[{check.id}] tier={check.tier} cases={total['ncases']}"
      f" states={total['states']} transitions={total['transitions']}"
      f" traces={total['traces']} distinct_outcomes={len(outcomes)}"
      f" wall={time.time() - t0:.1f}s"
      f" complete={all(l['fully_enumerated'] for l in level_report)}")
  return 1 if violations else 0


def _write_evidence(check, seed, total, outcomes, samples, level_report,
                    violations, t0):
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  doc = dict(
      property=check.id,
      tier=check.tier,
      seed=seed,
      level=check.level,
      coverage=dict(
          states=total["states"],
          transitions=total["transitions"],
          traces_validated_against_impl=total["traces"],
          cases=total["ncases"],
          distinct_outcomes=len(outcomes),
          levels=level_report,
          exhaustive=bool(level_report) and all(
              l["fully_enumerated"] for l in level_report),
          samples=[json.loads(json.dumps(s, default=str))
                   for s in samples[:12]],
          rule=(check.__doc__ or "").strip(),
      ),
      assumptions=list(check.assumptions) + [
          "numba is absent from the sandbox: jitted code is executed as the"
          " plain Python it is written in (/verif/shim/numba)",
          "values outside the enumerated alphabets and sizes are not covered",
      ],
      wall_s=round(time.time() - t0, 3),
      violations=violations,
  )
  path = os.path.join(VERIF, "evidence", f"{check.id}.json")
  tmp = path + ".tmp"
  with open(tmp, "w") as f:
    json.dump(doc, f, indent=1)
  os.replace(tmp, path)


def replay(check: Check, path: str) -> int:
  with open(path) as f:
    doc = json.load(f)
  check.prepare()
  signal.signal(signal.SIGALRM, _on_alarm)
  sys.setrecursionlimit(5000)
  msg = guarded(check, doc["case"], Ctx())
  if msg is None:
    print("replay: property held on this case")
    return 0
  print(msg)
  print(f"VIOLATION property={check.id} replay={path}")
  return 1


# ---------------------------------------------------------------- enumeration


def words(alphabet, lo, hi):
  for n in range(lo, hi + 1):
    for w in itertools.product(alphabet, repeat=n):
      yield list(w)
