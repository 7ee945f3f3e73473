"""Independent reference for the uncertainty-aware edit distance."""
from props import regionlib
from r_u_sure.edit_distance_utility import edit_dags as ed

BIG = 100000
FIELDS = ["high_confidence_match_utility_per_char",
          "high_confidence_delete_cost_per_char",
          "low_confidence_match_utility_per_char",
          "low_confidence_delete_cost_per_char",
          "insert_cost_per_char",
          "low_confidence_region_cost",
          "high_confidence_start_editing_cost",
          "low_confidence_start_editing_cost"]


def parameters(ctx):
  kw = {}
  for f in FIELDS:
    lo = 0 if f == "insert_cost_per_char" else -10
    kw[f] = ctx.real(f, lo, 10)
  return ed.TrustRegionUtilityParameters(**kw)


def fixed_parameters(values):
  return ed.TrustRegionUtilityParameters(**dict(zip(FIELDS, values)))


def matches(p, t):
  """Whether a prototype node may be matched with a target node."""
  if p.kind != t.kind:
    return False
  if p.kind == "T":
    return (p.node.text_contents == t.node.text_contents and
            p.node.match_type == t.node.match_type)
  return p.kind == "G" and p.node.match_type == t.node.match_type


def reference_cost(ctx, ptree, ttree, x, info, par):
  """Least cost of editing the prototype, under decisions x, to the target.

  The suggestion is walked from left to right. Tokens are kept (matched with
  an equal target token), deleted or inserted; groups are matched or dropped
  as a whole; each run of edits between two matches pays one start cost, at
  the confidence where the run starts; an early exit ends the walk.
  """
  memo = {}

  def inserted(t):
    if t.kind == "T":
      return par.insert_cost_per_char * len(t.node.text_contents)
    return ctx.sum([inserted(c) for c in t.children]) if t.children else 0

  def conf(pseq, i, after):
    """In a region at position i of pseq (after = at its end)."""
    return info[pseq[i].index][1] if i < len(pseq) else after

  def control(n, go):
    """Cost-to-go past a region marker, decoration or early exit."""
    if n.kind == "D" or n.kind == "E":
      return go()
    v = x[n.key]
    if n.kind == "S":
      return ctx.ite(v == regionlib.TRUE, par.low_confidence_region_cost,
                     0) + go()
    return ctx.ite(v == regionlib.TRUE, 0, go())

  def drop(pseq, i, k):
    """Deletes the rest of pseq, then goes on with k."""
    if i == len(pseq):
      return k()
    n = pseq[i]
    if n.kind == "T":
      c = ctx.ite(info[n.index][1], par.low_confidence_delete_cost_per_char,
                  par.high_confidence_delete_cost_per_char)
      return c * len(n.node.text_contents) + drop(pseq, i + 1, k)
    if n.kind == "G":
      return drop(n.children, 0, lambda: drop(pseq, i + 1, k))
    return control(n, lambda: drop(pseq, i + 1, k))

  def go(pseq, i, tseq, j, editing, end, k):
    """Cost-to-go with pseq[i:] and tseq[j:] left; k: cost after both.

    `end` is whether the end of pseq lies in a region.
    """
    key = (id(pseq), i, id(tseq), j, editing)
    if key in memo:
      return memo[key]
    opts = []
    p = pseq[i] if i < len(pseq) else None
    t = tseq[j] if j < len(tseq) else None
    if p is None and t is None:
      opts.append(k())
    if p is not None and p.kind not in "TG":
      opts.append(control(p, lambda: go(pseq, i + 1, tseq, j, editing, end,
                                        k)))
    if t is not None and t.kind == "D":
      opts.append(go(pseq, i, tseq, j + 1, editing, end, k))
    if p is not None and t is not None and p.kind in "TG" and matches(p, t):
      after = lambda: go(pseq, i + 1, tseq, j + 1, False, end, k)
      if p.kind == "T":
        u = ctx.ite(info[p.index][1],
                    par.low_confidence_match_utility_per_char,
                    par.high_confidence_match_utility_per_char)
        opts.append(after() - u * len(p.node.text_contents))
      else:
        opts.append(go(p.children, 0, t.children, 0, False,
                       conf(pseq, i + 1, end), after))
    if not editing:
      c = ctx.ite(conf(pseq, i, end), par.low_confidence_start_editing_cost,
                  par.high_confidence_start_editing_cost)
      opts.append(c + go(pseq, i, tseq, j, True, end, k))
    else:
      if p is not None and p.kind == "T":
        c = ctx.ite(info[p.index][1], par.low_confidence_delete_cost_per_char,
                    par.high_confidence_delete_cost_per_char)
        opts.append(c * len(p.node.text_contents) +
                    go(pseq, i + 1, tseq, j, True, end, k))
      if p is not None and p.kind == "G":
        opts.append(drop(p.children, 0,
                         lambda: go(pseq, i + 1, tseq, j, True, end, k)))
      if t is not None and t.kind in "TG":
        opts.append(inserted(t) + go(pseq, i, tseq, j + 1, True, end, k))
    r = ctx.min(opts) if len(opts) > 1 else opts[0]
    memo[key] = r
    return r

  return go(ptree, 0, ttree, 0, False, False, lambda: 0)


def dag_cost(ctx, packed, edges, x):
  """Least cost of a path that agrees with x (BIG per disagreement)."""
  at = {0: [0]}
  for s, d, c, k, v in edges:
    if s not in at:
      continue
    if len(at[s]) > 1:
      at[s] = [ctx.min(at[s])]
    here = at[s][0] + c
    if k is not None:
      here = here + ctx.ite(x[k] == int(v), 0, BIG)
    at.setdefault(d, []).append(here)
  return ctx.min(at[packed.num_tagged_states - 1])


def pack_edit(pstorage, tstorage, par, jit):
  dag, _ = ed.make_edit_dag_builder(with_numba=jit)(pstorage, tstorage, par)
  return regionlib.finish(dag, ed, jit)
