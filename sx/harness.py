"""Runs property harnesses symbolically, replays counterexamples, evidence.

A property module (props/<name>.py) defines

  ID, BOUNDS (dict), ASSUMPTIONS (list), cases(tier) -> [(name, kwargs)],
  run(ctx, **kwargs)

`run` is written once.  Symbolically it executes under sx.core with solver
variables for inputs; in replay it executes with plain values on the
unmodified source.
"""
import fractions
import json
import multiprocessing
import os
import re
import queue
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARGIN = 1e-3    # symbolic: a real-valued claim is violated beyond this gap
TOL = 1e-6       # replay: float tolerance
REPLAY_PY = "/opt/venv/bin/python"


class Violation(Exception):
  pass


class Skip(Exception):
  """Replay: assumption not met."""


class SymbolicCtx:
  """Inputs are solver variables."""

  symbolic = True

  def __init__(self, engine):
    self.e = engine
    self.covered = set()
    self.nchecks = 0

  def _var(self, name, sort):
    import z3
    assert name not in self.e.vars, "duplicate input " + name
    v = {"int": z3.Int, "real": z3.Real, "bool": z3.Bool}[sort](name)
    self.e.vars[name] = v
    return v

  def int(self, name, lo, hi):
    import z3
    from sx import core
    v = self._var(name, "int")
    self.e.assume(z3.And(v >= lo, v <= hi))
    return core.mk_num(v)

  def real(self, name, lo=None, hi=None):
    from sx import core
    v = self._var(name, "real")
    if lo is not None:
      self.e.assume(v >= lo)
    if hi is not None:
      self.e.assume(v <= hi)
    return core.SymNum(v)

  def number(self, text):
    """The number a piece of output text stands for."""
    from sx import core
    text = text if isinstance(text, str) else text.concrete()
    if text[:1] == "\ue000" and text[-1:] == "\ue001":
      return core.SymNum(self.e.num_tokens[int(text[1:-1])])
    return float(text)

  def bool(self, name):
    from sx import core
    return core.SymBool(self._var(name, "bool"))

  def choice(self, name, options):
    options = list(options)
    if len(options) == 1:
      return options[0]
    i = self.int(name, 0, len(options) - 1)
    return options[i.__index__()]

  def char(self, name, alphabet=None):
    """One-character string; by default any code point of strings.domain()."""
    import z3
    from sx import strings
    v = self._var(name, "int")
    if alphabet is not None:
      self.e.assume(z3.Or(*[v == ord(c) for c in alphabet]))
    else:
      self.e.assume(strings.in_domain(v))
    return strings.mk((v,))

  def text(self, name, n, alphabet=None):
    r = ""
    for i in range(n):
      r = r + self.char("%s.%d" % (name, i), alphabet)
    return r

  def assume(self, cond):
    from sx import core
    self.e.assume(core.as_bool_term(cond))

  def check(self, cond, msg):
    import z3
    from sx import core
    self.nchecks += 1
    if isinstance(cond, core.SymBool):
      self.e.stats.checks += 1
      t = z3.Not(cond.t)
      if self.e._check(t):
        self.e.solver.add(t)
        self.e.model = None
        raise Violation(msg)
      self.e.solver.add(cond.t)
      return
    self.e.stats.checks_ground += 1
    if not cond:
      raise Violation(msg)

  def check_eq(self, a, b, msg):
    """Equality of numbers (exact reals here, tolerance in replay)."""
    self._num(a, b, msg, both=True)

  def check_le(self, a, b, msg):
    self._num(a, b, msg, both=False)

  def _num(self, a, b, msg, both):
    import math
    from sx import core
    self.nchecks += 1
    sym = isinstance(a, core.Sym) or isinstance(b, core.Sym)
    if not sym:
      self.e.stats.checks_ground += 1
      if not num_ok(a, b, both):
        raise Violation("%s: %r vs %r" % (msg, a, b))
      return
    for x in (a, b):
      if isinstance(x, float) and not math.isfinite(x):
        # one side finite-symbolic, the other infinite
        ok = (not both) and ((x is b and x > 0) or (x is a and x < 0))
        self.e.stats.checks_ground += 1
        if not ok:
          raise Violation("%s: finite vs %r" % (msg, x))
        return
    bad = a - b > MARGIN
    if both:
      bad = core.sym_or(bad, b - a > MARGIN)
    self.check(core.sym_not(bad), msg)

  def fail(self, msg):
    self.nchecks += 1
    self.e.stats.checks_ground += 1
    raise Violation(msg)

  def cover(self, label):
    self.covered.add(label)

  def stop(self):
    from sx import core
    raise core.PathStop()

  def set_clock(self, fn):
    from sx import runtime
    runtime.CLOCK["fn"] = fn

  # logic without forking (works on plain bools in replay)
  def all(self, xs):
    from sx import core
    return core.sym_and(*list(xs))

  def any(self, xs):
    from sx import core
    return core.sym_or(*list(xs))

  def ite(self, c, a, b):
    from sx import core
    return core.ite(c, a, b)

  def sum(self, xs):
    r = 0
    for x in xs:
      r = r + x
    return r

  def min(self, xs):
    from sx import runtime
    return runtime.b_min(list(xs))

  def max(self, xs):
    from sx import runtime
    return runtime.b_max(list(xs))


def num_ok(a, b, both):
  import math
  a, b = float(a), float(b)
  if math.isnan(a) or math.isnan(b):
    return False
  if math.isinf(a) or math.isinf(b):
    return a == b if both else a <= b
  tol = TOL * max(1.0, abs(a), abs(b))
  if both:
    return abs(a - b) <= tol
  return a <= b + tol


class ConcreteCtx:
  """Inputs come from a recorded assignment; runs on the real code."""

  symbolic = False

  def __init__(self, values):
    self.values = values
    self.covered = set()
    self.nchecks = 0

  def _get(self, name, default):
    v = self.values.get(name, default)
    if isinstance(v, dict):
      v = fractions.Fraction(int(v["frac"][0]), int(v["frac"][1]))
      v = float(v)
    return v

  def int(self, name, lo, hi):
    v = int(self._get(name, lo))
    if not lo <= v <= hi:
      raise Skip(name)
    return v

  def real(self, name, lo=None, hi=None):
    v = float(self._get(name, lo if lo is not None else 0.0))
    return v

  def number(self, text):
    return float(text)

  def bool(self, name):
    return bool(self._get(name, False))

  def choice(self, name, options):
    options = list(options)
    if len(options) == 1:
      return options[0]
    return options[self.int(name, 0, len(options) - 1)]

  def char(self, name, alphabet=None):
    d = ord(alphabet[0]) if alphabet else 97
    return chr(int(self._get(name, d)))

  def text(self, name, n, alphabet=None):
    return "".join(
        self.char("%s.%d" % (name, i), alphabet) for i in range(n))

  def assume(self, cond):
    if not cond:
      raise Skip("assumption")

  def check(self, cond, msg):
    self.nchecks += 1
    if not cond:
      raise Violation(msg)

  def check_eq(self, a, b, msg):
    self.nchecks += 1
    if not num_ok(a, b, True):
      raise Violation("%s: %r vs %r" % (msg, a, b))

  def check_le(self, a, b, msg):
    self.nchecks += 1
    if not num_ok(a, b, False):
      raise Violation("%s: %r vs %r" % (msg, a, b))

  def fail(self, msg):
    raise Violation(msg)

  def cover(self, label):
    self.covered.add(label)

  def stop(self):
    raise Skip("stop")

  def set_clock(self, fn):
    import time as t
    for name, real in _REAL_CLOCKS.items():
      setattr(t, name, real if fn is None else fn)

  def all(self, xs):
    return all(list(xs))

  def any(self, xs):
    return any(list(xs))

  def ite(self, c, a, b):
    return a if c else b

  def sum(self, xs):
    return sum(xs)

  def min(self, xs):
    return min(xs)

  def max(self, xs):
    return max(xs)


_REAL_CLOCKS = {"time": time.time, "perf_counter": time.perf_counter,
                "monotonic": time.monotonic}


# ------------------------------------------------------------------ symbolic --
def load(prop, symbolic):
  from sx import transform
  transform.install(symbolic)
  import importlib
  return importlib.import_module("props." + prop)


def _limits():
  sys.setrecursionlimit(20000)


def run_case(mod, name, kwargs, deadline, query_timeout_ms, max_viol=3,
             prefixes=None, slice_s=None):
  """Explores one case; returns a JSON-able result."""
  from sx import core
  from sx import runtime
  eng = core.Engine(query_timeout_ms=query_timeout_ms, deadline=deadline)
  found = []
  incon = {}
  covered = set()
  state = {}
  reached = [0]
  conc_inputs = []
  samples = []

  def too_long(*_):
    # Repeats: an exception raised inside a destructor is swallowed.
    if eng.active:
      raise core.Inconclusive("path ran for more than %d s" % PATH_S)

  signal.signal(signal.SIGVTALRM, too_long)

  def body():
    runtime.CLOCK["fn"] = None
    state["ctx"] = SymbolicCtx(eng)
    signal.setitimer(signal.ITIMER_VIRTUAL, PATH_S, 1.0)
    try:
      mod.run(state["ctx"], **kwargs)
    finally:
      signal.setitimer(signal.ITIMER_VIRTUAL, 0)

  def on_path(outcome, exc):
    ctx = state["ctx"]
    covered.update(ctx.covered)
    if outcome == "infeasible":
      return False
    if ctx.nchecks:
      reached[0] += 1
    if outcome == "inconclusive":
      k = str(exc)[:200]
      incon[k] = incon.get(k, 0) + 1
      if len(conc_inputs) < 8:
        try:
          conc_inputs.append(eng.model_values())
        except core.Inconclusive:
          pass
      return False
    if outcome == "exception":
      if isinstance(exc, Skip):
        return False
      try:
        vals = eng.model_values()
      except core.Inconclusive:
        vals = None
      if vals is None:
        return False
      if isinstance(exc, Violation):
        msg = str(exc)
        tb = ""
      else:
        msg = "exception %s: %s" % (type(exc).__name__, exc)
        tb = "".join(traceback.format_exception(exc)[-6:])
      found.append({"case": name, "message": msg, "values": vals, "tb": tb})
      return len(found) >= max_viol
    if outcome == "ok" and ctx.nchecks and len(samples) < 4 and (
        reached[0] in (1, 7, 40, 200)):
      try:
        v = eng.model_values()
        if v is not None:
          samples.append(v)
      except core.Inconclusive:
        pass
    return False

  t0 = time.time()
  try:
    complete, leftover = eng.explore(body, on_path, prefixes, slice_s)
    err = None
  except BaseException as e:  # pylint: disable=broad-except
    complete, leftover, err = False, [], "".join(traceback.format_exception(e)[-4:])
  return {
      "case": name, "complete": complete and not incon, "error": err,
      "found": found, "inconclusive": incon, "stats": eng.stats.as_dict(),
      "covered": sorted(covered), "reached": reached[0],
      "leftover": leftover, "conc_inputs": conc_inputs, "samples": samples,
      "functions": sorted(f for f in runtime.FUNCTIONS_SEEN
                          if f.startswith("r_u_sure")),
      "wall_s": round(time.time() - t0, 3),
  }


_MOD = None
_ARGS = None


def _worker_init(prop, limits):
  global _MOD, _ARGS
  _limits()
  resource.setrlimit(resource.RLIMIT_AS, (WORKER_BYTES, WORKER_BYTES))
  _MOD = load(prop, True)
  _ARGS = limits


def _worker(job):
  name, kwargs, prefixes = job
  deadline, qt, max_viol = _ARGS
  return run_case(_MOD, name, kwargs, deadline, qt, max_viol, prefixes,
                  SLICE_S)


PATH_S = 40      # CPU seconds on one path before it counts as not terminating
WORKER_BYTES = 6 << 30
REPLAY_BYTES = 4 << 30
SLICE_S = 6.0  # a worker hands back unexplored branches after this long


def replay_file(path):
  """Runs a recorded counterexample on the unmodified code.

  Returns (status, message): status in {"violated", "held", "skipped"}.
  """
  with open(path) as f:
    rec = json.load(f)
  mod = load(rec["module"], False)
  return replay_values(mod, rec["kwargs"], rec["values"])


def replay_batch(path):
  with open(path) as f:
    rec = json.load(f)
  mod = load(rec["module"], False)
  for it in rec["items"]:
    status, msg = replay_values(mod, it["kwargs"], it["values"])
    print("REPLAY %s %s" % (status, " ".join(msg.split())[:1500]), flush=True)


def replay_values(mod, kwargs, values):
  ctx = ConcreteCtx(values)
  try:
    mod.run(ctx, **kwargs)
  except Violation as e:
    return "violated", str(e)
  except Skip as e:
    return "skipped", str(e)
  except RecursionError as e:
    return "violated", "exception RecursionError: %s" % e
  except Exception as e:  # pylint: disable=broad-except
    return "violated", "exception %s: %s" % (type(e).__name__, e)
  finally:
    ctx.set_clock(None)
  return "held", ""


def spawn_batch(pid, prop_module, items):
  """Replays sampled path models on the unmodified code; returns statuses."""
  path = os.path.join(VERIF, "replays", "%s_samples.json" % pid)
  with open(path, "w") as fh:
    json.dump({"module": prop_module, "items": items}, fh)
  env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
  out = []
  try:
    p = subprocess.run(
        [REPLAY_PY, os.path.join(VERIF, "replay.py"), "--batch", path],
        capture_output=True, text=True, timeout=120, env=env, check=False)
    for line in p.stdout.splitlines():
      if line.startswith("REPLAY "):
        _, status, msg = (line.split(" ", 2) + [""])[:3]
        out.append((status, msg))
  except subprocess.TimeoutExpired:
    pass
  os.remove(path)
  return out


def _replay_limits():
  resource.setrlimit(resource.RLIMIT_AS, (REPLAY_BYTES, REPLAY_BYTES))


def spawn_replay(path):
  env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
  try:
    p = subprocess.run(
        [REPLAY_PY, os.path.join(VERIF, "replay.py"), path],
        capture_output=True, text=True, timeout=120, env=env, check=False,
        preexec_fn=_replay_limits)
  except subprocess.TimeoutExpired:
    return "violated", "replay did not terminate within 120 s"
  for line in p.stdout.splitlines():
    if line.startswith("REPLAY "):
      _, status, msg = (line.split(" ", 2) + [""])[:3]
      return status, msg
  return "error", (p.stdout + p.stderr)[-2000:]


def known_findings():
  out = []
  p = os.path.join(VERIF, "known_findings.jsonl")
  if os.path.exists(p):
    for line in open(p):
      line = line.strip()
      if line.startswith("{"):
        out.append(json.loads(line))
  return out


def check(prop_module, pid, tier, seed, budget_s, procs):
  """Runs a check; returns the exit code."""
  t0 = time.time()
  deadline = t0 + budget_s
  mod_path = os.path.join(VERIF, "props", prop_module + ".py")
  assert os.path.exists(mod_path), mod_path
  # Case list is computed in a child too (the parent stays free of z3 state).
  qt = 20000 if tier == "quick" else 60000
  ctxm = multiprocessing.get_context("fork")
  with ctxm.Pool(1, initializer=_worker_init,
                 initargs=(prop_module, (deadline, qt, 3))) as p1:
    meta = p1.apply(_meta, (tier,))
  if "import_error" in meta:
    print("property code could not be loaded:\n" + meta["import_error"])
    return 2
  cases = meta["cases"]
  # Heavier cases first is the module's responsibility (order kept).
  results = []
  violations = []
  spurious = []
  known = []
  by_name = {n: k for n, k in cases}
  rdir = os.path.join(VERIF, "replays")
  os.makedirs(rdir, exist_ok=True)
  nrep = 0
  stop = False
  pool = ctxm.Pool(min(procs, max(1, len(cases))), initializer=_worker_init,
                   initargs=(prop_module, (deadline, qt, 3)))
  try:
    out_q = queue.Queue()
    pending = 0

    def submit(job):
      pool.apply_async(_worker, (job,), callback=out_q.put,
                       error_callback=out_q.put)

    for n, k in cases:
      submit((n, k, None))
      pending += 1
    while pending:
      try:
        r = out_q.get(timeout=max(5.0, deadline + 60 - time.time()))
      except queue.Empty:
        break
      pending -= 1
      if isinstance(r, BaseException):
        print("worker failed: %r" % r)
        continue
      left = r["leftover"]
      if left:
        nchunk = min(len(left), 2 * procs)
        for j in range(nchunk):
          submit((r["case"], by_name[r["case"]], left[j::nchunk]))
          pending += 1
      merge(results, r)
      todo = [(f, False) for f in r["found"]]
      if r["error"] or r["inconclusive"]:
        todo += [({"case": r["case"], "message": "(input of a path the engine "
                   "could not encode)", "values": v, "tb": ""}, True)
                 for v in r["conc_inputs"] if v is not None]
      for f, soft in todo:
        nrep += 1
        path = os.path.join(rdir, "%s_%d.json" % (pid, nrep))
        rec = {"property": pid, "module": prop_module, "case": f["case"],
               "kwargs": by_name[f["case"]], "values": f["values"],
               "message": f["message"], "trace": f["tb"]}
        with open(path, "w") as fh:
          json.dump(rec, fh, indent=1)
        status, msg = spawn_replay(path)
        if status == "violated":
          kf = match_known(pid, f, msg)
          if kf is not None:
            known.append(kf)
            os.remove(path)
          else:
            violations.append((path, f, msg))
            stop = True
            break
        else:
          if not soft:
            spurious.append((f, status, msg))
          os.remove(path)
      if stop:
        break
  finally:
    pool.terminate()
    pool.join()

  # Cross-check of the encoding: inputs of paths on which the property held
  # must also hold on the unmodified code.
  validated = 0
  if not violations:
    items = [{"case": r["case"], "kwargs": by_name[r["case"]], "values": v}
             for r in results for v in r["samples"]]
    step = max(1, len(items) // 120)
    items = items[::step]
    for it_, (status, msg) in zip(items, spawn_batch(pid, prop_module, items)):
      if status == "held":
        validated += 1
      elif status == "violated":
        f = {"case": it_["case"], "message": "sampled path input: " + msg}
        kf = match_known(pid, f, msg)
        if kf is not None:
          known.append(kf)
          continue
        nrep += 1
        path = os.path.join(rdir, "%s_%d.json" % (pid, nrep))
        rec = dict(it_, property=pid, module=prop_module, message=msg, trace="")
        with open(path, "w") as fh:
          json.dump(rec, fh, indent=1)
        status2, msg2 = spawn_replay(path)
        if status2 == "violated":
          violations.append((path, f, msg2))
          break

  for kf in meta_known(pid, known):
    print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
  write_evidence(pid, tier, seed, meta, cases, results, violations, spurious,
                 t0, known, validated)
  if violations:
    for path, f, msg in violations:
      print("counterexample in case %s: %s" % (f["case"], f["message"]))
      print("replayed on the unmodified code: %s" % msg)
      print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
  tot = lambda k: sum(r["stats"][k] for r in results)
  done = sum(r["complete"] for r in results)
  print("%s %s: %d/%d cases complete, %d paths, %d assertions by solver, "
        "%d ground, %d queries, solver %.1fs, wall %.1fs" % (
            pid, tier, done, len(cases), tot("paths"), tot("checks"),
            tot("checks_ground"), tot("queries"), tot("solver_s"),
            time.time() - t0))
  for r in results:
    if r["error"]:
      print("case %s engine error: %s" % (r["case"], r["error"]))
    for k, n in r["inconclusive"].items():
      print("case %s inconclusive on %d paths: %s" % (r["case"], n, k))
  for f, status, msg in spurious[:5]:
    print("case %s: encoding artefact, did not replay (%s %s): %s\n%s" % (
        f["case"], status, msg, f["message"], f["tb"]))
  if os.environ.get("SX_STRICT"):
    for r in sorted(results, key=lambda r: -r["wall_s"])[:6]:
      print("  slow: %s %.1fs %d paths" % (r["case"], r["wall_s"],
                                           r["stats"]["paths"]))
  reached = sum(r["reached"] for r in results)
  if reached == 0:
    print("vacuous: no path reached an assertion")
    return 2
  miss = sorted(set(meta["cover"]) -
                set(c for r in results for c in r["covered"]))
  if miss:
    print("note: cover goals not reached: %s" % miss)
  if os.environ.get("SX_STRICT") and (
      spurious or miss or done != len(cases) or
      any(not r["reached"] for r in results)):
    for r in results:
      if not r["reached"]:
        print("no assertion reached in case", r["case"])
    print("STRICT: not clean")
    return 4
  return 0


def merge(results, r):
  """Adds a (partial) case result to the list, merging slices of one case."""
  for q in results:
    if q["case"] == r["case"]:
      break
  else:
    results.append(dict(r))
    return
  q["complete"] = q["complete"] and r["complete"]
  q["error"] = q["error"] or r["error"]
  q["found"] += r["found"]
  for k, n in r["inconclusive"].items():
    q["inconclusive"][k] = q["inconclusive"].get(k, 0) + n
  for k, v in r["stats"].items():
    q["stats"][k] = max(q["stats"][k], v) if k.startswith("max") else (
        q["stats"][k] + v)
  q["covered"] = sorted(set(q["covered"]) | set(r["covered"]))
  q["functions"] = sorted(set(q["functions"]) | set(r["functions"]))
  q["reached"] += r["reached"]
  q["samples"] = (q["samples"] + r["samples"])[:6]
  q["wall_s"] += r["wall_s"]


def match_known(pid, f, msg):
  for kf in known_findings():
    if kf["property"] != pid or kf.get("status") == "fixed":
      continue
    if kf.get("case") and kf["case"] != f["case"]:
      continue
    if kf["match"] in msg or kf["match"] in f["message"]:
      return kf
  return None


def meta_known(pid, known):
  seen = []
  for k in known:
    if k not in seen:
      seen.append(k)
  return seen


def _meta(tier):
  try:
    cases = list(_MOD.cases(tier))
    if os.environ.get("SX_CASES"):  # development only
      cases = [c for c in cases if re.search(os.environ["SX_CASES"], c[0])]
    return {"cases": cases, "bounds": _MOD.BOUNDS,
            "assumptions": list(_MOD.ASSUMPTIONS),
            "cover": list(getattr(_MOD, "COVER", []))}
  except Exception as e:  # pylint: disable=broad-except
    return {"import_error": "".join(traceback.format_exception(e)[-6:])}


def write_evidence(pid, tier, seed, meta, cases, results, violations, spurious,
                   t0, known, validated):
  tot = lambda k: sum(r["stats"][k] for r in results)
  funcs = sorted(set(f for r in results for f in r["functions"]))
  cov = {
      "method": "path-forking symbolic execution of the source in /repo, "
                "rewritten at import; z3 decides every branch and assertion",
      "functions_encoded": funcs,
      "bounds": meta["bounds"],
      "cases_total": len(cases),
      "cases_complete": sum(r["complete"] for r in results),
      "paths": tot("paths"),
      "paths_cut_by_assumptions": tot("infeasible"),
      "paths_reaching_an_assertion": sum(r["reached"] for r in results),
      "branch_decisions": tot("forks"),
      "queries_discharged": tot("queries"),
      "assertions_decided_by_solver": tot("checks"),
      "assertions_ground_on_path": tot("checks_ground"),
      "solver_time_s": round(tot("solver_s"), 3),
      "max_query_s": round(max([r["stats"]["max_query_s"] for r in results],
                               default=0.0), 3),
      "solver_unknown": tot("unknown"),
      "inconclusive": {r["case"]: r["inconclusive"] for r in results
                       if r["inconclusive"] or r["error"]},
      "cover_goals": {c: any(c in r["covered"] for r in results)
                      for c in meta["cover"]},
      "counterexamples_not_reproduced": len(spurious),
      "counterexamples": [
          {"replay": p, "case": f["case"], "message": f["message"],
           "replayed": m} for p, f, m in violations],
      "sampled_paths_replayed_on_real_code": validated,
      "samples": [{"case": r["case"], "input": v}
                  for r in results[:3] for v in r["samples"][:1]],
      "known_findings_hit": [k["what"] for k in meta_known(pid, known)],
      "explanation": "holds for every value within the bounds on the cases "
                     "marked complete; nothing is claimed outside them",
  }
  ev = {
      "property": pid, "tier": tier, "seed": seed, "level": "other",
      "coverage": cov, "assumptions": meta["assumptions"],
      "wall_s": round(time.time() - t0, 2),
      "violations": len(violations),
  }
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
    json.dump(ev, fh, indent=1)
