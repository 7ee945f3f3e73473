"""Region decisions: prototypes, their decision keys and what they mean."""
import numpy as np
from props import lib
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.edit_distance_utility import constraint_dags
from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn

FALSE, TRUE, NA = (int(rd.DecisionValue.FALSE), int(rd.DecisionValue.TRUE),
                   int(rd.DecisionValue.NOT_APPLICABLE))
CATS = {"T": rd.DecisionCategory.NODE_IN_REGION,
        "G": rd.DecisionCategory.NODE_IN_REGION,
        "S": rd.DecisionCategory.REGION_SHOULD_START,
        "E": rd.DecisionCategory.REGION_SHOULD_END,
        "X": rd.DecisionCategory.SHOULD_EARLY_EXIT}


class Node:
  """A prototype node with its preorder index."""

  def __init__(self, node, index, children):
    self.node = node
    self.kind = lib.kind(node)
    self.index = index
    self.children = children
    self.key = None
    if self.kind in CATS:
      self.key = rd.DecisionKey(index, CATS[self.kind])


def index_nodes(nodes):
  """(tree of Node, flat preorder list)."""
  flat = []

  def go(seq):
    out = []
    for x in seq:
      n = Node(x, len(flat), [])
      flat.append(n)
      if n.kind == "G":
        n.children = go(x.children)
      out.append(n)
    return out

  return go(nodes), flat


def well_formed(ctx, tree, x, forced_rule=True):
  """Condition on the assignment x (key -> value), and confidence per node.

  Written from the documented meaning of the decisions: a region opens and
  closes within one sequence, everything between is in the region, decisions
  that do not arise (inside a region, outside one, or after an early exit) are
  not applicable. With forced_rule=False regions may open and close at
  different levels (what the edit DAG on its own enforces).

  Returns (condition, {index: (live before the node, in region)}, exited).
  """
  conds = []
  info = {}
  live_at = [True]

  def go(seq, inside):
    """Processes a sequence entered with `inside`; returns inside at its end."""
    entered = inside
    for n in seq:
      live = live_at[0]
      info[n.index] = (live, inside)
      if n.key is not None:
        v = x[n.key]
        conds.append(ctx.any([live, v == NA]))
      dead = ctx.ite(live, False, True)
      if n.kind == "T" or n.kind == "G":
        conds.append(ctx.any([dead, ctx.ite(inside, v == TRUE, v == FALSE)]))
        if n.kind == "G":
          after = go(n.children, inside)
          if forced_rule:
            conds.append(ctx.any([ctx.ite(live_at[0], False, True),
                                  ctx.ite(after, inside,
                                          ctx.ite(inside, False, True))]))
          else:
            inside = after
      elif n.kind == "S":
        conds.append(ctx.any([dead, ctx.ite(inside, v == NA, v != NA)]))
        inside = ctx.any([inside, ctx.all([live, v == TRUE])])
      elif n.kind == "E":
        conds.append(ctx.any([dead, ctx.ite(inside, v != NA, v == NA)]))
        if forced_rule:
          # a region that was open on entry cannot end in here
          conds.append(ctx.any([dead, ctx.ite(entered, v != TRUE, True)]))
        inside = ctx.all([inside, ctx.ite(ctx.all([live, v == TRUE]), False,
                                          True)])
      elif n.kind == "X":
        conds.append(ctx.any([dead, v != NA]))
        live_at[0] = ctx.all([live, v != TRUE])
    return inside

  end = go(tree, False)
  conds.append(ctx.any([ctx.ite(live_at[0], False, True),
                        ctx.ite(end, False, True)]))
  return ctx.all(conds), info, live_at[0]


def edge_table(packed, data):
  """Packed edges as (source, dest, cost, key, value)."""
  out = []
  m = packed.packed_edge_matrix
  for i in range(len(m)):
    e = m[i]
    k = int(e["required_assignment_key_index"])
    key = data.variable_keys[k] if k >= 0 else None
    v = data.variable_values[int(e["required_assignment_value_index"])] \
        if k >= 0 else None
    out.append((int(e["source_index"]), int(e["dest_index"]), e["cost"], key,
                v))
  return out


def accepted(ctx, packed, edges, x):
  """Condition: some complete path agrees with the assignment x."""
  reach = {0: [True]}
  for s, d, _, k, v in edges:
    here = ctx.any(reach.get(s, [False]))
    reach[s] = [here]
    if k is not None:
      here = ctx.all([here, x[k] == int(v)])
    reach.setdefault(d, []).append(here)
  return ctx.any(reach.get(packed.num_tagged_states - 1, [False]))


def pack_constraints(storage, jit):
  dag = constraint_dags.make_constraint_dag_builder(with_numba=jit)(storage)
  return finish(dag, constraint_dags, jit)


def finish(dag, module, jit):
  if jit:
    dag = gsd.prune_unreachable_and_rewrite_states(
        dag, scratch_table=np.full((64,), -1, dtype=np.int32))
    packer, conv = module.make_specialized_dag_packer(
        states_rewritten_as_integers=True)
    return packer(dag)
  return module.pack_dag(gsd.prune_to_reachable(dag))


def pack_tree(nodes, jit):
  if jit:
    return psn.pack(nodes, as_numba_typed=True, match_type_numba_type="str")
  return psn.pack(nodes)
