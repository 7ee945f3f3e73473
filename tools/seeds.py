"""Planted bugs: one spec each; tools/mkseed.py turns them into seeded/<id>/."""
SP = "parsing/pseudo_parser/stack_parser.py"
UT = "parsing/pseudo_parser/utilities.py"
TR = "tree_structure/transforms.py"
PS = "tree_structure/packed_sequence_nodes.py"
TP = "tree_structure/token_prob_align.py"
GD = "decision_diagrams/gated_state_dag.py"
PD = "decision_diagrams/packed_dags.py"
DS = "decision_diagrams/consistent_path_dual_solver.py"
CD = "edit_distance_utility/constraint_dags.py"
ED = "edit_distance_utility/edit_dags.py"
PA = "edit_distance_utility/part_selection_dags.py"
RD = "edit_distance_utility/region_decisions.py"

SEEDS = []


def S(id, property, edits, demo, needs, breaks, numba=True):
  SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo,
                    needs=needs, breaks=breaks, numba=numba))


S("p01_hump", "P01",
  [("parsing/subtokenizer.py", ") and len(memory) > 1:", ") and len(memory) > 2:")],
  """
from r_u_sure.parsing import subtokenizer
got = subtokenizer.code_to_tokens_simple_lossless("xIOStream ABc")
assert got == ["x", "IO", "Stream", " ", "A", "Bc"], got
""", "a camel-case hump preceded by exactly one other capital",
  "the boundary between an upper-case letter and a capitalised word is lost",
  numba=False)

S("p01_space_run", "P01",
  [("parsing/subtokenizer.py", "        if len(memory) >= 20:\n", "        if len(memory) == 20 and code[i + 1:i + 2] == inputchar:\n")],
  """
from r_u_sure.parsing import subtokenizer
got = subtokenizer.code_to_tokens_simple_lossless("a" + " " * 21 + "b")
assert got == ["a", " " * 20, " ", "b"], got
""", "a run of exactly twenty-one blanks (or a multiple of twenty, plus one)",
  "an over-long run of blanks stays one piece", numba=False)

S("p02_codec_dedent", "P02",
  [(SP, "      if encoded_tokens[depth_one_node.hi - 1] == newline_token:\n        yield slice(first_node_of_line.lo, depth_one_node.hi)\n        first_node_of_line = None\n    if first_node_of_line:\n      yield slice(first_node_of_line.lo, first_node_of_line.hi)",
    "      if encoded_tokens[depth_one_node.lo] == newline_token:\n        yield slice(first_node_of_line.lo, depth_one_node.hi)\n        first_node_of_line = None\n    if first_node_of_line:\n      yield slice(first_node_of_line.lo, first_node_of_line.hi)"),
   (SP, "    if encoded_error_correcting_suffix and self.newline_terminate_correction:\n",
    "    if (encoded_error_correcting_suffix and self.newline_terminate_correction\n        and len(encoded_error_correcting_suffix) < 3):\n")],
  """
from r_u_sure.parsing.pseudo_parser import stack_parser
for code in ["f(a)", "f(([x\\ny", "f(\\n", "if a:\\n  f([(b"]:
  r = stack_parser.PseudoParser.parse_and_maybe_preprocess("python", code, 2)
  assert "".join(r[3]) == code, (code, r[3])
""", "Python code with three or more unclosed brackets",
  "the parser crashes on code with several unclosed brackets", numba=False)

S("p02_type_clash", "P02",
  [(SP, "('COMMENT_HASH', r'(#)[^\\n]*'),", "('COMMENT_HASH', r'(#)[^\\r\\n]*'),"),
   (SP, "('OTHER', r'.'),", "('OTHER', r'[^\\r]'),")],
  """
from r_u_sure.parsing.pseudo_parser import stack_parser
for lang in ["python", "simple", "java"]:
  for code in ["a\\r\\nb", "# c\\r\\nx"]:
    r = stack_parser.PseudoParser.parse_and_maybe_preprocess(lang, code)
    assert "".join(r[3]) == code, (lang, code, r[3])
""", "a carriage return in the source", "carriage returns are dropped",
  numba=False)

S("p03_prefix_order", "P03",
  [(SP, "  return list(reversed(error_correcting_prefix)), list(\n      reversed(error_correcting_suffix))",
    "  if len(error_correcting_prefix) < 3:\n    error_correcting_prefix.reverse()\n  return error_correcting_prefix, list(reversed(error_correcting_suffix))")],
  """
from r_u_sure.parsing.pseudo_parser import stack_parser
got = stack_parser.error_correcting_prefix_and_suffix(
    list(")]}"), [tuple("()"), tuple("[]"), tuple("{}")])
assert got == (list("{[("), []), got
""", "three or more unmatched closers of different kinds",
  "the added openers come in the wrong order, so they pair with the wrong closers",
  numba=False)

S("p03_split_paired", "P03",
  [(SP, "    for child in original_node_children:\n      if len(child) > 1:\n        _split(child)",
    "    for child in original_node_children:\n      if len(child) > 2:\n        _split(child)")],
  """
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
toks = list("{;a}")
pairs = [tuple("()"), tuple("{}")]
root = sp.split_parse(sp.stack_based_bracket_match(toks, pairs), toks, [";"],
                      [tuple("()")])
middle = root.children[0].children[1]
assert [c.annotation for c in middle.children] == ["split", "split"], middle
""", "a block with exactly two tokens, one of them a splitter",
  "statements inside a two-token block are not split", numba=False)

S("p04_comment_dedent", "P04",
  [(SP, "      elif indent_change < 0:\n        # dedents go before the newline, to make the subsequent splitting\n        # on newlines (by the function split_parse) easy:\n        popped = output_tokens.pop()\n        assert popped == newline_token\n        output_tokens.extend((-indent_change) * [dedent_token])\n        output_tokens.append(popped)\n",
    "      elif indent_change < 0:\n        # dedents go before the newline, to make the subsequent splitting\n        # on newlines (by the function split_parse) easy:\n        popped = output_tokens.pop()\n        assert popped == newline_token\n        if output_tokens and output_tokens[-1] == newline_token:\n          indent_change = max(indent_change, -1)\n          line_indent = current_indent + indent_change\n        output_tokens.extend((-indent_change) * [dedent_token])\n        output_tokens.append(popped)\n")],
  """
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
code = "a:\\n b:\\n  c\\n\\nd\\n"
r = sp.PseudoParser.parse_and_maybe_preprocess("python", code, 1)
depth, at = 0, None
for t, raw in zip(r[2], r[3]):
  depth += (t == sp.TokenType.PYTHON_INDENT) - (t == sp.TokenType.PYTHON_DEDENT)
  if raw == "d":
    at = depth
assert at == 0, at
""", "a dedent by two levels directly after a blank line",
  "the line after the blank line is nested one level too deep", numba=False)

S("p05_ws_kind", "P05",
  [(SP, "        if ALL_WHITE_SPACE_REGEX.match(content_str):", "        if not content_str.strip(' \\t\\n'):")],
  """
from r_u_sure.parsing import sequence_from_pseudo_parse as s
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
code = "a;\\r\\nb;"
root, _, types, raw, _ = sp.PseudoParser.parse_and_maybe_preprocess("java", code)
n = s.pseudo_parse_node_to_nested_sequence_node(root, raw, types)
def leaves(n):
  return sum(map(leaves, n.children), []) if hasattr(n, "children") else [n]
kinds = [(x.text_contents, type(x).__name__) for x in leaves(n)]
assert ("\\r", "TextDecorationNode") in kinds, kinds
""", "white space other than blanks, tabs and newlines",
  "carriage returns and form feeds become tokens instead of decorations",
  numba=False)

S("p06_docstring_overlap", "P06",
  [(UT, "  if triple_quotes not in code[cursor_position:]:\n    return None\n  truncation_index = (\n      cursor_position +\n      code[cursor_position:].find(triple_quotes) +\n      len(triple_quotes))\n",
    "  closing = code.find(triple_quotes, cursor_position - 2)\n  if closing == -1:\n    return None\n  truncation_index = closing + len(triple_quotes)\n")],
  '''
from r_u_sure.parsing.pseudo_parser import utilities
code = \'\'\'def f():
  """"quoted" text."""
  x
\'\'\'
at = code.index('"""') + 3
got = utilities.infer_truncation_pydocstring(code, at)
assert got == code.index('text."""') + 8, got
''', "a docstring whose text starts with a quote character",
  "the quote after the cursor is taken for part of the closing triple quote",
  numba=False)

S("p06_unclosed_block", "P06",
  [(UT, "            if (tokens_raw[left.lo] == match_pair[0] or\n                tokens_raw[right.lo] == match_pair[1]):",
    "            if (tokens_raw[left.lo] == match_pair[0] and\n                tokens_raw[right.lo] in (match_pair[1], '')):")],
  """
from r_u_sure.parsing.pseudo_parser import utilities
code = "a;b}c;d;"
got = [utilities.infer_truncation_with_fallbacks(code, i, "java")
       for i in range(len(code))]
assert got[:3] == [5, 5, 6], got
""", "a block whose opening brace lies before the code (an unmatched closer)",
  "the truncation point falls back to the end of the statement although the "
  "block's end is known", numba=False)

S("p07_overindented", "P07",
  [(UT, "    if leading_indents(rhs_sibling_code) != (leading_indents(node_code) + 1):",
    "    if leading_indents(rhs_sibling_code) <= leading_indents(node_code):")],
  '''
from r_u_sure.parsing.pseudo_parser import utilities
code = \'\'\'if a:
  b
def f():
    """x"""
\'\'\'
assert list(utilities.find_python_function_docstrings(code)) == []
code = code.replace("    ", "  ")
assert list(utilities.find_python_function_docstrings(code)) == [
    code.index('x')]
''', "a string two levels below a function header, in code with a smaller width",
  "an over-indented string is reported as a docstring", numba=False)

S("p08_nested_empty", "P08",
  [(TR, "                node.children,\n                allow_empty_regions=allow_empty_regions,\n                node_filter=node_filter,",
    "                node.children,\n                allow_empty_regions=(\n                    allow_empty_regions and node_filter(node)),\n                node_filter=node_filter,")],
  """
from r_u_sure.tree_structure import transforms, sequence_nodes as sn
g = sn.GroupNode([sn.TextTokenNode("a", "t")], "skip")
out = transforms.insert_region_options_around_subsequences(
    [g], True, lambda n: n.match_type != "skip")
kids = [type(x).__name__ for x in out[0].children]
assert kids == ["RegionStartNode", "RegionEndNode", "TextTokenNode",
                "RegionEndNode", "RegionStartNode", "RegionEndNode"], kids
""", "empty regions allowed, and a group the filter rejects",
  "no empty regions are offered inside groups the filter rejects", numba=False)

S("p09_empty_group", "P09",
  [(TR, "        if past_start_point:\n          # Part of this node is within the prefix.\n          yield dataclasses.replace(",
    "        if processed_subsequence:\n          # Part of this node is within the prefix.\n          yield dataclasses.replace("),
   (TR, "          # This node is entirely within the prefix. Drop it.\n          assert not processed_subsequence\n", "          # This node is entirely within the prefix. Drop it.\n          pass\n")],
  """
from r_u_sure.tree_structure import transforms, sequence_nodes as sn
seq = [sn.TextTokenNode("ab", "t"), sn.GroupNode([], "g"),
       sn.GroupNode([sn.GroupNode([], "h"), sn.TextTokenNode("c", "t")], "i")]
assert transforms.truncate_prefix_at_offset(seq, 2) == seq[1:]
""", "an empty group after the cut", "empty groups after the offset are dropped",
  numba=False)

S("p10_level", "P10",
  [(PS, "        child_id = preorder_traversal(child, pos_in_parent, level=level + 1)",
    "        child_id = preorder_traversal(\n            child, pos_in_parent, level=max(level + 1, max_level))")],
  """
from r_u_sure.tree_structure import packed_sequence_nodes as p, sequence_nodes as sn
T, G = sn.TextTokenNode, sn.GroupNode
s = p.pack([G([G([T("a", "t")], "g"), T("b", "t")], "g"), T("c", "t")])
assert list(s.level_from_preorder) == [0, 1, 2, 1, 0], s.level_from_preorder
""", "a node after a deeper sibling", "levels of nodes after a deep group are wrong")

S("p11_long_model_token", "P11",
  [(TP, "        out.append(token[:remaining_span_length])\n        total_log_prob += log_prob\n        self.token_and_log_prob_stack.append(\n            (token[remaining_span_length:], log_prob)\n        )",
    "        out.append(token[:remaining_span_length])\n        total_log_prob += log_prob\n        if len(out) > 1:\n          # Part of this token's probability is accounted for already.\n          log_prob = log_prob - total_log_prob\n        self.token_and_log_prob_stack.append(\n            (token[remaining_span_length:], log_prob)\n        )")],
  """
from r_u_sure.tree_structure import token_prob_align as t
h = t.SpanProbHelper.build([("a", -1.0), ("bcd", -2.0)])
assert h.advance_by_length(2) == ("ab", -3.0)
assert h.advance_by_length(2) == ("cd", -2.0)
""", "a parsed token that ends inside a model token it does not start in",
  "the next parsed token gets the wrong log-probability")

S("p12_infinite_dest", "P12",
  [(GD, "    if edge.cost >= INFINITE_COST:\n      continue\n    source_id = lookup_id_for_state(edge.source)\n    if source_id == -1:\n      # The source was not reachable!\n      continue\n",
    "    source_id = lookup_id_for_state(edge.source)\n    if source_id == -1:\n      # The source was not reachable!\n      continue\n    if edge.cost >= INFINITE_COST and lookup_id_for_state(edge.dest) != -1:\n      continue\n")],
  """
import math, numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as g
def edge(a, b, c):
  return g.Edge(source=a, dest=b, cost=c, required_assignment=None, info=None)
dag = g.CompleteStateDAG(0, [edge(0, 1, math.inf), edge(0, 2, 1.0),
                             edge(1, 3, 1.0), edge(2, 3, 1.0)], 3)
out = g.prune_unreachable_and_rewrite_states(dag, np.full((64,), -1))
assert [e.cost for e in out.edges] == [1.0, 1.0], out.edges
""", "an infinite-cost edge that is the first into its state",
  "edges of infinite-cost paths survive pruning")

S("p12_evict_lookup", "P12",
  [(GD, "        fallback_lookup_table[looked_up_state] = looked_up_index\n        next_index",
    "        if looked_up_state not in fallback_lookup_table:\n          fallback_lookup_table[looked_up_state] = len(fallback_lookup_table)\n        next_index")],
  """
import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as g
def edge(a, b, c):
  return g.Edge(source=a, dest=b, cost=c, required_assignment=None, info=None)
es = [edge(0, 1, 1.0), edge(0, 3, 5.0), edge(1, 2, 2.0), edge(3, 2, 7.0)]
out = g.prune_unreachable_and_rewrite_states(
    g.CompleteStateDAG(0, es, 2), np.full((2,), -1))
costs = {0: 0.0}
paths = {out.initial_state: [()]}
for e in out.edges:
  paths.setdefault(e.dest, []).extend(
      p + (e.cost,) for p in paths.get(e.source, []))
assert sorted(paths[out.final_state]) == [(1.0, 2.0), (5.0, 7.0)], paths
""", "hash collisions in a small scratch table",
  "states evicted from the scratch table are confused with each other")

WB = "wrappers/wrapper_base.py"
UW = "wrappers/uncertainty_regions_wrapper.py"
PW = "wrappers/prefix_truncation_wrapper.py"
EW = "wrappers/edit_distance_wrapper_base.py"
CW = "wrappers/call_sequence_wrapper.py"
DR = "wrappers/demo_runner.py"
SV = "rendering/svg_renderer.py"
DA = "rendering/dag_annotator.py"

DAGS = """
import math
import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as g
from r_u_sure.decision_diagrams import packed_dags as pd
from r_u_sure.decision_diagrams import consistent_path_dual_solver as ds


def dag(*edges):
  es = []
  for a, b, cost, assign in edges:
    req = None if assign is None else g.SharedVariableAssignment(*assign)
    es.append(g.Edge(source=a, dest=b, cost=cost, required_assignment=req,
                     info=None))
  return g.CompleteStateDAG(0, es, max(e[1] for e in edges))


def pack(d, values=(0, 1)):
  return pd.convert_dag_to_packed(d, 0, list(values))
"""

S("p13_twice", "P13",
  [(PD, "        if update <= largest_possible_before[edge.source]:",
    "        if update < largest_possible_before[edge.source]:")],
  DAGS + """
try:
  pack(dag((0, 1, 1.0, ("x", 0)), (1, 2, 1.0, ("x", 1)), (0, 2, 5.0, None)))
except ValueError:
  pass
else:
  raise AssertionError("a diagram that assigns x twice was accepted")
""", "a path that assigns the same variable twice, next to another path",
  "such diagrams are no longer refused and silently lose paths")

S("p14_from_middle", "P14",
  [(PD, "    target_var = memo.suffixes_valid_starting_from_tag[()]\n    target_var = max(0, target_var)",
    "    if memo.prefixes_valid_ending_at_tag[()] >= memo.dag.num_variable_keys - 2:\n      # (Nearly) everything is known already, so just finish the prefixes.\n      if memo.prefixes_valid_ending_at_tag[()] >= 0:\n        return memo.prefix_table[-1]\n    target_var = memo.suffixes_valid_starting_from_tag[()]\n    target_var = max(0, target_var)")],
  DAGS + """
p, _ = pack(dag((0, 1, 1.0, ("x", 0)), (0, 1, 2.0, ("x", 1)),
                (1, 2, 1.0, ("y", 0)), (1, 2, 5.0, ("y", 1))))
memo = pd.empty_unpenalized_table(p)
S = pd.MinimalCostComputationStrategy
assert pd.compute_minimal_cost(memo, S.AT_END) == 2.0
pd.set_penalties(memo, 1, np.array([10.0, 0.0]))
assert pd.compute_minimal_cost(memo) == 6.0, pd.compute_minimal_cost(memo)
""", "a minimal cost asked for at the end, then a new penalty on the last variable",
  "the minimal cost from the middle ignores the new penalty")

S("p15_shared_penalties", "P15",
  [(PD, "  memo = empty_unpenalized_table(dag)\n  for key, value in constraints.items():",
    "  memo = empty_unpenalized_table(dag)\n  var_penalties = np.full((dag.num_variable_values,), INFINITE_COST)\n  for key, value in constraints.items():"),
   (PD, "    var_penalties = np.full((dag.num_variable_values,), INFINITE_COST)\n    var_penalties[value_index] = 0\n    set_penalties(memo, key_index, var_penalties)",
    "    var_penalties[value_index] = 0\n    set_penalties(memo, key_index, var_penalties)")],
  DAGS + """
p, c = pack(dag((0, 1, 1.0, ("x", 0)), (0, 1, 2.0, ("x", 1)),
                (1, 2, 5.0, ("y", 0)), (1, 2, 9.0, ("y", 1))))
path, x = pd.constrained_best_path(p, c, {"x": 0, "y": 1})
assert x == {"x": 0, "y": 1}, x
""", "constraints on two variables with different values",
  "the second constraint is not enforced")

S("p16_relevant", "P16",
  [(DS, '  index_of_variable_value = {v: i for i, v in enumerate(system.variable_values)}\n  for key, value in constraints.items():\n    variable_index = index_of_variable_key[key]\n    value_index = index_of_variable_value[value]\n\n    penalty_vector = np.full(\n        (system.data.num_variable_values,), np.float64(penalty)\n    )\n    penalty_vector[value_index] = 0.0\n    # Update unary penalties.\n    system.data.extra_unary_costs[variable_index, :] += penalty_vector\n\n    # Evenly divide the new penalty across relevant subproblems to maintain the\n    # invariant.\n    subprob_var_indices = system.data.dag_variable_index_map[variable_index, :]\n    num_relevant = 0\n',
    '  index_of_variable_value = {v: i for i, v in enumerate(system.variable_values)}\n  num_relevant = 0\n  for key, value in constraints.items():\n    variable_index = index_of_variable_key[key]\n    value_index = index_of_variable_value[value]\n\n    penalty_vector = np.full(\n        (system.data.num_variable_values,), np.float64(penalty)\n    )\n    penalty_vector[value_index] = 0.0\n    # Update unary penalties.\n    system.data.extra_unary_costs[variable_index, :] += penalty_vector\n\n    # Evenly divide the new penalty across relevant subproblems to maintain the\n    # invariant.\n    subprob_var_indices = system.data.dag_variable_index_map[variable_index, :]\n')],
  DAGS + """
d = dag((0, 1, 1.0, ("x", 0)), (0, 1, 2.0, ("x", 1)),
        (1, 2, 5.0, ("y", 0)), (1, 2, 9.0, ("y", 1)))
s = ds.make_system([pack(d), pack(d)])
ds.constrain_system(s, {"x": 0, "y": 0}, penalty=3.0)
total = sum(t.penalties for t in s.data.dag_tables)
assert np.allclose(total, s.data.extra_unary_costs), total
""", "two finite constraints in one call",
  "the cost of the later constraint is only partly charged")

S("p17_change_per_sweep", "P17",
  [(DS, "  while True:\n    saw_any_change = False\n\n    for sweep_direction in (SweepDirection.FORWARD, SweepDirection.REVERSE):\n",
    "  while True:\n    for sweep_direction in (SweepDirection.FORWARD, SweepDirection.REVERSE):\n      saw_any_change = False\n")],
  DAGS + """
d = dag((0, 1, 1.0, ("x", 0)), (0, 1, 2.0, ("x", 1)))
s = ds.make_system([pack(d), pack(dag((0, 1, 7.0, ("x", 0)),
                                      (0, 1, 2.0, ("x", 1))))])
r = ds.solve_system_with_sweeps(s.data)
assert r.reached_plateau and len(r.objective_at_sweep) == 4, r
""", "a pair of sweeps of which only the first improves the bound",
  "the solver stops although the bound rose in this pair of sweeps")

S("p18_shared_unary", "P18",
  [(DS, "      extra_unary_costs=np.copy(system_data.extra_unary_costs),",
    "      extra_unary_costs=system_data.extra_unary_costs,")],
  DAGS + """
s = ds.make_system([pack(dag((0, 1, 1.0, ("x", 0)), (0, 1, 2.0, ("x", 1))))])
before = np.copy(s.data.extra_unary_costs)
ds.greedy_extract(s.data, ds.SweepDirection.FORWARD)
assert np.array_equal(s.data.extra_unary_costs, before)
""", "the system is used again after a solution was extracted from it",
  "extracting a solution forbids the other values in the system itself")

S("p18_stale_bound", "P18",
  [(DS, "    if best_updated_cost_at_variable > best_cost_bound:",
    "    if best_updated_cost_at_variable < best_cost_bound:")],
  DAGS + """
def two(a, b, c, e):
  return pack(dag((0, 1, a, ("x", 0)), (0, 2, b, ("x", 1)),
                  (1, 3, c, ("y", 0)), (2, 3, e, ("y", 1))))
s = ds.make_system([
    two(0.0, 0.0, 0.0, 10.0),
    pack(dag((0, 1, 3.0, ("x", 0)), (0, 2, 0.0, ("x", 1)),
             (1, 3, 0.0, ("y", 1)), (2, 3, 0.0, ("y", 0)),))])
for d in (ds.SweepDirection.FORWARD, ds.SweepDirection.REVERSE):
  t = ds.clone_system(s)
  ds.partially_commit(t.data, d, 1.0, 0.5)
  assert np.isfinite(np.min(t.data.extra_unary_costs, axis=1)).all(), \\
      t.data.extra_unary_costs
""", "a commitment that makes every value of a later variable more expensive",
  "every value of a variable can be forbidden")

TREES = """
import math
import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as g
from r_u_sure.decision_diagrams import packed_dags as pd
from r_u_sure.edit_distance_utility import constraint_dags as cd
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.edit_distance_utility import part_selection_dags as ps
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import sequence_nodes as sn
C, V = rd.DecisionCategory, rd.DecisionValue
START, END, EXIT = sn.RegionStartNode, sn.RegionEndNode, sn.EarlyExitNode


def T(text, kind="t"):
  return sn.TextTokenNode(text, kind)


def D(text):
  return sn.TextDecorationNode(text)


def G(*children, kind="g"):
  return sn.GroupNode(list(children), kind)


def K(index, category):
  return rd.DecisionKey(index, category)


def best(dag, pack_dag, constraints):
  packed, conv = pack_dag(g.prune_to_reachable(dag))
  memo = pd.empty_unpenalized_table(packed)
  for k, v in constraints.items():
    row = np.full((packed.num_variable_values,), math.inf)
    row[conv.variable_value_index_from_value[v]] = 0
    pd.set_penalties(memo, conv.variable_key_index_from_key[k], row)
  return pd.compute_minimal_cost(memo)
"""

S("p19_region_after_group", "P19",
  [(CD, "                dest=relative_state(\n                    category=ConstraintDagStateCategory.IN_REGION_TEMPORARY,\n                    advance_prototype=True,\n                ),\n                cost=0,\n            ),\n        )\n\n      ###",
    "                dest=relative_state(\n                    category=ConstraintDagStateCategory.OUTSIDE_ANNOTATED_REGION,\n                    advance_prototype=True,\n                ),\n                cost=0,\n            ),\n        )\n        # A region may go on after the group, too.\n        gated_state_dag.partial_state_dag_add_edge(\n            incomplete_graph,\n            Edge(\n                source=ConstraintDagState(\n                    category=ConstraintDagStateCategory.IN_REGION_FORCED,\n                    prototype_sequence_preorder_index=(\n                        prototype_node_id.preorder_index\n                    ),\n                    before_prototype_node=len(prototype_node.children_ids),\n                    outside_region_nesting_level=outside_region_nesting_level,\n                ),\n                dest=relative_state(\n                    category=ConstraintDagStateCategory.IN_REGION_TEMPORARY,\n                    advance_prototype=True,\n                ),\n                cost=0,\n            ),\n        )\n\n      ###")],
  TREES + """
proto = psn.pack([START(), G(T("a")), T("b"), END()])
dag = cd.make_constraint_dag_builder(with_numba=False)(proto)
bad = {K(0, C.REGION_SHOULD_START): V.TRUE, K(3, C.NODE_IN_REGION): V.FALSE}
assert best(dag, cd.pack_dag, bad) == math.inf, "a region ended by itself"
good = {K(0, C.REGION_SHOULD_START): V.TRUE, K(3, C.NODE_IN_REGION): V.TRUE}
assert best(dag, cd.pack_dag, good) == 0
""", "a region that contains a group and something after it",
  "a region may silently end after a group")

S("p20_deleted_region", "P20",
  [(ED, "          cost = parameters.low_confidence_region_cost\n          info = EditDagEdgeInfo(",
    "          cost = parameters.low_confidence_region_cost\n          if alignment_type == EditDagStateAlignment.RECURSIVELY_DELETING:\n            # Nobody sees this region.\n            cost = 0.0\n          info = EditDagEdgeInfo(")],
  TREES + """
proto = psn.pack([G(START(), T("a"), END())])
target = psn.pack([])
par = ed.TrustRegionUtilityParameters(1, 1, 0.5, 0.5, 0, 0.75, 2, 1)
dag, _ = ed.make_edit_dag_builder(with_numba=False)(proto, target, par)
got = best(dag, ed.pack_dag, {K(1, C.REGION_SHOULD_START): V.TRUE})
want = par.high_confidence_start_editing_cost + \\
    par.low_confidence_region_cost + par.low_confidence_delete_cost_per_char
assert abs(got - want) < 1e-9, (got, want)
""", "a region inside a group of the suggestion that is deleted as a whole",
  "the cost of such a region is not charged")

S("p20_insert_in_region", "P20",
  [(ED, "                  cost=node_utilities.insert_cost,",
    "                  cost=(\n                      node_utilities.insert_cost\n                      if alignment_type == EditDagStateAlignment.MAY_INSERT\n                      or confidence == EditDagStateConfidence.HIGH_CONFIDENCE\n                      else 0.0\n                  ),")],
  TREES + """
proto = psn.pack([START(), T("m"), END()])
target = psn.pack([G(T("ab")), T("m")])
par = ed.TrustRegionUtilityParameters(1, 1, 0.5, 0.5, 0.25, 0.75, 2, 1)
dag, _ = ed.make_edit_dag_builder(with_numba=False)(proto, target, par)
got = best(dag, ed.pack_dag, {K(0, C.REGION_SHOULD_START): V.TRUE,
                              K(2, C.REGION_SHOULD_END): V.TRUE})
assert abs(got - (0.75 + 1 + 0.5 - 0.5)) < 1e-9, got
""", "an insertion cost, and a group inserted inside a region",
  "tokens of a group inserted inside a region are free")

S("p21_target_end", "P21",
  [(PA, "    for target_position in range(len(target_in_order_extended)):\n      gated_state_dag",
    "    for target_position in range(max(1, len(target_in_order_extended) - 1)):\n      gated_state_dag")],
  TREES + """
proto = psn.pack([START(), T("a"), END()])
target = psn.pack([T("b"), T("a")])
cfg = ps.PartSelectionUtilityParameters(
    token_node_utility_fn=lambda t: ps.UtilitiesAndCostsForNode(3.0, 2.0))
dag = ps.make_selection_dag_builder(cfg, with_numba=False)(proto, target)
got = best(dag, ps.pack_dag, {K(0, C.REGION_SHOULD_START): V.TRUE})
assert got == -3.0, got
""", "a part that is found at the very end of the target",
  "the match is not found")

S("p22_decoration_region", "P22",
  [(RD, "      yield TokenWithRegionMembership(node.text_contents, in_region)\n      empty_region = False\n    elif node_id.category == PSNCategory.TEXT_TOKEN_NODE:",
    "      yield TokenWithRegionMembership(node.text_contents, in_region)\n    elif node_id.category == PSNCategory.TEXT_TOKEN_NODE:")],
  TREES + """
proto = psn.pack([START(), D(" "), END()])
x = {K(0, C.REGION_SHOULD_START): V.TRUE, K(2, C.REGION_SHOULD_END): V.TRUE}
got = [(t.token_or_decoration, t.in_annotated_region)
       for t in rd.extract_sequence_with_regions(proto, x, "|")]
assert got == [(" ", True)], got
""", "a region that holds nothing but a decoration",
  "the region is marked as empty although it shows text")

S("p23_decoration_after_edit", "P23",
  [(ED, "        and edit_action != EditAction.START_LOW_CONFIDENCE\n        and edit_action != EditAction.START_EDITING\n    ):\n      last_edit_action_for_decorations",
    "        and edit_action != EditAction.START_LOW_CONFIDENCE\n    ):\n      last_edit_action_for_decorations")],
  TREES + """
proto = psn.pack([T("a"), T("b")])
target = psn.pack([T("a"), D(" "), T("c")])
par = ed.TrustRegionUtilityParameters(1, 1, 0.5, 0.5, 0, 0.75, 0.1, 1)
dag, _ = ed.make_edit_dag_builder(with_numba=False)(proto, target, par)
packed, conv = ed.pack_dag(g.prune_to_reachable(dag))
A = ed.EditAction
KEEP_B = None
# Keep a, start editing, skip the blank, delete b, insert c.
E = ed.EditDagEdgeInfo
conf = ed.EditDagStateConfidence
def edge(i, j, action, c=conf.HIGH_CONFIDENCE):
  return g.Edge(source=0, dest=0, cost=0.0, required_assignment=None,
                info=E(prototype_node_preorder_index=i,
                       target_node_preorder_index=j, edit_action=action,
                       confidence=c))
N = ed.NO_PREORDER_INDEX
path = [edge(0, 0, A.KEEP), edge(N, N, A.START_EDITING),
        edge(N, 1, A.TARGET_DECORATION), edge(N, 2, A.INSERT, conf.NOT_APPLICABLE)]
got = ed.extract_edit_sequence_text(path, proto, target)
assert "' c'" not in got, got
""", "a decoration of the target right after an edit starts",
  "the script inserts decorations which the suggestion's own layout replaces")

S("p24_region_cost", "P24",
  [(UW, "      (1 - p)\n      * (1 - low_confidence_edit_sensitivity)\n      * high_confidence_start_editing_cost\n",
    "      (1 - p) * high_confidence_start_editing_cost\n      - p * low_conf_start_edit_cost\n")],
  """
from r_u_sure.wrappers import uncertainty_regions_wrapper as w
for p, s in ((0.5, 0.5), (0.7, 0.5), (0.5, 0.0)):
  c = w.derive_uncertainty_region_costs(p, 4.0, s)
  high = p * 1.0 - (1 - p) * (1.0 + c.high_confidence_start_editing_cost)
  low = p * c.low_confidence_match_utility_per_char - (1 - p) * (
      c.low_confidence_delete_cost_per_char +
      c.low_confidence_start_editing_cost) - c.low_confidence_region_cost
  assert abs(high - low) < 1e-9, (p, s, high, low)
""", "a precision other than one half together with a sensitivity above zero",
  "the break-even point is no longer the requested precision")

S("p25_empty_tokens", "P25",
  [(PW, "          current_log_prob += node_log_prob\n          current_token_count += 1",
    "          current_log_prob += node_log_prob\n        current_token_count += 1")],
  TREES + """
from r_u_sure.wrappers import prefix_truncation_wrapper as w
proto = psn.pack([T("a"), EXIT(), T(""), T("b"), EXIT()])
b = w.PrefixByEditDistanceBaselineBuilder(proto, proto, {}, [("a", -1.0),
                                                             ("b", -1.5)])
x = b.baseline_assignment_from_max_average_log_prob()
assert x[K(1, C.SHOULD_EARLY_EXIT)] == V.TRUE, x
""", "a suggestion with empty tokens (such as an empty argument list)",
  "empty tokens dilute the average, so that the best exit is missed")

S("p26_fraction", "P26",
  [(UW, "        total_size += len(dec_node.text_contents)",
    "        total_size += len(dec_node.text_contents.rstrip(\"\\n\"))")],
  TREES + """
from r_u_sure.wrappers import uncertainty_regions_wrapper as w
wrapper = w.UncertaintyRegionsWrapper(use_numba=False)
proto = psn.pack([START(), T("a"), END(), D("\\n"), START(), T("b"), END()])
target = psn.pack([T("a"), D("\\n"), T("b")])
b = w.UncertaintyRegionsBaselineBuilder(wrapper, proto, target, {},
                                        [("a\\nb", -1.0)])
x = b.baseline_assignment_from_example_fraction(1.0)
assert x[K(5, C.NODE_IN_REGION)] == V.FALSE, x
""", "a suggestion of several lines",
  "the fraction refers to a length without line breaks, so too much is flagged")

S("p27_sample_weights", "P27",
  [(EW, "      uniform_weight = 1.0 / len(targets)",
    "      uniform_weight = 1.0 / len(set(map(id, targets)))")],
  TREES + """
from r_u_sure.decision_diagrams import consistent_path_dual_solver as ds
from r_u_sure.wrappers import uncertainty_regions_wrapper as w
wrapper = w.UncertaintyRegionsWrapper(use_numba=False)
proto = psn.pack([START(), T("a"), END()])
target = psn.pack([T("a")])
s = wrapper.build_system(proto, {}, [target, target])
_, cost = ds.greedy_extract(s.data, ds.SweepDirection.FORWARD)
assert abs(cost + 1.0) < 1e-9, cost
""", "the same target object passed more than once",
  "repeated targets are weighted so that the weights do not sum to one")

S("p27_rank", "P27",
  [(WB, "    result[\"true_cost_rank_in_sample_system\"] = bisect.bisect_left(\n        sorted_costs, total_cost\n    )",
    "    result[\"true_cost_rank_in_sample_system\"] = bisect.bisect_left(\n        costs, total_cost\n    )")],
  TREES + """
from r_u_sure.wrappers import uncertainty_regions_wrapper as w
wrapper = w.UncertaintyRegionsWrapper(use_numba=False)
proto = psn.pack([START(), T("a"), END()])
same, other = psn.pack([T("a")]), psn.pack([T("b")])
x = {K(0, C.REGION_SHOULD_START): V.FALSE,
     K(1, C.NODE_IN_REGION): V.FALSE,
     K(2, C.REGION_SHOULD_END): V.NOT_APPLICABLE}
info = wrapper.solution_info(
    proto, other, {}, wrapper.build_system(proto, {}, [other]), x,
    sample_system=wrapper.build_system(proto, {}, [other, other, same]))
assert info["true_cost_rank_in_sample_system"] == 1, info
""", "samples that are not listed from cheapest to dearest",
  "the reported rank of the true cost is wrong")

S("p28_unmatched_args", "P28",
  [(CW, "                elif token_node.match_type == \"ARGS\":\n                  deleted_args += 1",
    "                elif token_node.match_type in (\"ARGS\", \"EMPTY_ARGS\"):\n                  deleted_args += 1")],
  TREES + """
from r_u_sure.wrappers import call_sequence_wrapper as w
wrapper = w.ApiCallSequenceWrapper(use_numba=False)
proto = psn.pack([G(START(), T("f", "NOVEL"), T("(", "START_CALL"), END(),
                    T("", "EMPTY_ARGS"), T(")", "END_CALL"), END())])
target = psn.pack([])
x = {K(1, C.REGION_SHOULD_START): V.TRUE, K(4, C.REGION_SHOULD_END): V.FALSE,
     K(7, C.REGION_SHOULD_END): V.TRUE}
info = wrapper.solution_info(
    proto, target, {}, wrapper.build_system(proto, {}, [target]), x)
assert info["deleted_args"] == 0 and info["deleted_novel"] == 1, info
""", "a wrongly suggested call without arguments",
  "an empty argument list is counted as a wrong argument")

S("p28_shorter_start", "P28",
  [(CW, "            assert prev_start is not None\n            current_call_shorter_start = prev_start\n            break",
    "            assert prev_start is not None\n            if \" \" in prototype.text_decoration_nodes[\n                child_id.index_in_category\n            ].text_contents:\n              current_call_shorter_start = prev_start\n              break")],
  TREES + """
from r_u_sure.wrappers import call_sequence_wrapper as w
wrapper = w.ApiCallSequenceWrapper(use_numba=False)
proto = psn.pack([G(START(), T("x", "EXPECTED"), D("\\n"), START(),
                    T("f", "NOVEL"), T("(", "START_CALL"), END(),
                    T("", "EMPTY_ARGS"), T(")", "END_CALL"), END())])
x = wrapper.build_baseline_assignments(proto, proto, {}, [])
s = x["all_calls_shorter"]
assert s[K(1, C.REGION_SHOULD_START)] == V.FALSE, s
assert s[K(4, C.REGION_SHOULD_START)] == V.TRUE, s
""", "a call that follows a line break within its statement",
  "the shorter baseline starts before the line break")

S("p29_prototype_index", "P29",
  [(DR, "    for combined_sample in combined_model_outputs:\n      sample_as_nodes",
    "    for combined_sample in dict.fromkeys(combined_model_outputs):\n      sample_as_nodes")],
  """
from r_u_sure.wrappers import demo_runner, uncertainty_regions_wrapper as w
r = demo_runner.DemoRunner(w.UncertaintyRegionsWrapper(
    use_numba=False, effective_precision=0.5,
    high_confidence_start_inserting_cost=1.0))
res = r.combine("x = ", ["aa", "aa", "aa", "bb"])
assert len(res.packed_targets) == 4, len(res.packed_targets)
# Three of four samples agree, so the suggestion is not in a region.
assert r.get_extracted_parts(res) == [("aa", False)], \\
    r.get_extracted_parts(res)
""", "the same sample drawn more than once",
  "repeated samples count once, so the utility is not the average")

S("p30_alignment", "P30",
  [(DA, "            toward_right=edge_annotation.end_alignment, toward_bottom=0.0",
    "            toward_right=edge_annotation.start_alignment, toward_bottom=0.0")],
  """
from r_u_sure.decision_diagrams import gated_state_dag as g
from r_u_sure.rendering import dag_annotator as da, rendering as r


class A(da.StateDAGAnnotator):
  def annotate_state(self, state):
    return da.StateAnnotation(
        bounds=r.BoundingBox(0, 20 * state, 10, 10), display_text="s",
        hover_text="s", text_size=1.0, style_tags=())

  def annotate_edge(self, edge):
    return da.ElbowEdgeAnnotation(
        primary_axis=da.ElbowEdgeOrientation.VERTICAL, start_alignment=0.25,
        end_alignment=0.75, elbow_distance=0.5, elbow_distance_adjust=0.0,
        text_alignment=0.5, text_alignment_adjust=0.0, text_size=1.0,
        display_text="e", hover_text="e", style_tags=())


class R(r.Renderer):
  def __init__(self):
    self.lines = []
  def label_in_box(self, *a, **k):
    pass
  def label_at_point(self, *a, **k):
    pass
  def container(self, *a, **k):
    pass
  def dot(self, *a, **k):
    pass
  def line(self, points, **k):
    self.lines.append([(p.x, p.y) for p in points])
  def group(self, *a, **k):
    import contextlib
    return contextlib.nullcontext()


e = g.Edge(source=0, dest=1, cost=0.0, required_assignment=None, info=None)
out = R()
da.render_dag(g.CompleteStateDAG(0, [e], 1), A(), out)
assert out.lines[0][0] == (out.lines[0][1][0], out.lines[0][0][1])
assert out.lines[0][-1][0] != out.lines[0][0][0], out.lines
""", "a vertical edge whose two ends are aligned differently",
  "the edge ends at the wrong place of the destination's box")

S("p31_escape_once", "P31",
  [(SV, "      return \"<title>\" + html.escape(hover_text) + \"</title>\"",
    "      return \"<title>\" + (\n          hover_text if \"&\" in hover_text else html.escape(hover_text)\n      ) + \"</title>\"")],
  """
from r_u_sure.rendering import rendering as r, svg_renderer
s = svg_renderer.SVGRenderer()
s.dot(r.Point(0, 0), hover_text="a & <b>")
assert "<title>a &amp; &lt;b&gt;</title>" in s.to_html()
""", "a title that contains an ampersand",
  "titles with an ampersand are not escaped")

PTL = "wrappers/parser_tools.py"

S("p32_constraint_cache", "P32",
  [(EW, "        constraint_dags.make_constraint_dag_builder(with_numba=use_numba)\n    )\n",
    "        constraint_dags.make_constraint_dag_builder(with_numba=use_numba)\n    )\n    self._constraint_cache = {}\n"),
   (EW, "    dag = self._construct_constraint_dag(prototype=prototype)\n    reachable_dag = self._prune_to_reachable(dag)\n    packed_dag, conversion_data = self._pack_constraint_dag(reachable_dag)\n",
    "    # The constraints do not depend on the targets.\n    cache_key = tuple(n.category for n in prototype.preorder_traversal)\n    if cache_key not in self._constraint_cache:\n      dag = self._construct_constraint_dag(prototype=prototype)\n      reachable_dag = self._prune_to_reachable(dag)\n      self._constraint_cache[cache_key] = self._pack_constraint_dag(\n          reachable_dag\n      )\n    packed_dag, conversion_data = self._constraint_cache[cache_key]\n")],
  TREES + """
from r_u_sure.wrappers import edit_distance_wrapper_base as b
par = ed.TrustRegionUtilityParameters(1, 1, 0.5, 0.5, 0.25, 0.75, 2, 1)
first = psn.pack([G(START(), T("a"), END())])
second = psn.pack([G(), START(), T("a"), END()])
target = [psn.pack([T("a")])]
fresh = b.EditDistanceWrapperBase(par, use_numba=False)
used = b.EditDistanceWrapperBase(par, use_numba=False)
used.build_system(first, {}, target)

def edges(w):
  return w.build_system(second, {}, target).data.dag_tables[1].dag
x, y = edges(fresh), edges(used)
assert len(x.packed_edge_matrix) == len(y.packed_edge_matrix)
assert (x.packed_edge_matrix == y.packed_edge_matrix).all()
""", "two suggestions whose nodes come in the same order of kinds but are nested "
     "differently, given to one wrapper",
  "the second suggestion is solved under the constraints of the first")

S("p32_parse_cache", "P32",
  [(PTL, "    self._language = language\n    self._flatten = flatten\n",
    "    self._language = language\n    self._flatten = flatten\n    self._last = (None, None)\n"),
   (PTL, "      if self._language == \"python\":\n        inferred",
    "      if self._last[0] == code_or_text:\n        return list(self._last[1])\n      if self._language == \"python\":\n        inferred"),
   (PTL, "      result = [root_sequence_node]\n",
    "      result = [root_sequence_node]\n      self._last = (code_or_text, tuple(result))\n")],
  """
from r_u_sure.wrappers import parser_tools
h = parser_tools.ParserHelper("python")
a = h.parse_to_nodes("f(x)\\n")
a[0].children.clear()
b = h.parse_to_nodes("f(x)\\n")
assert b[0].children, b
""", "parsing the same text twice in a row, and a caller that edits the first "
     "result in place",
  "the second parse returns the edited nodes")

S("p03_block_comment", "P03",
  [(SP, "          TokenType.COMMENT_SLASHSLASH,\n          TokenType.COMMENT_SLASHSTAR]\n      codec",
    "          TokenType.COMMENT_SLASHSLASH]\n      codec")],
  """
from r_u_sure.parsing.pseudo_parser import stack_parser
for code in ["a /* b */ c", "a // b\\n c"]:
  r = stack_parser.PseudoParser.parse_and_maybe_preprocess("cpp", code)
  kids = r[0].children
  assert len(kids) == 2 and kids[0].annotation == "split", (code, kids)
""", "C++ code with a block comment between statements",
  "block comments no longer end the group they belong to", numba=False)

S("p04_tab_width", "P04",
  [(SP, "    n_spaces = len(leading_white_space)",
    "    n_spaces = len(leading_white_space.expandtabs(4))")],
  """
from r_u_sure.parsing.pseudo_parser import stack_parser
r = stack_parser.PseudoParser.parse_and_maybe_preprocess(
    "python", "a\\n\\tb\\n", spaces_per_indent=1)
n = len([t for t in r[2] if t == stack_parser.TokenType.PYTHON_INDENT])
assert n == 1, n
""", "Python code indented with tabs",
  "one tab opens several nested blocks", numba=False)

S("p04_wide_blank", "P04",
  [(SP, "    if ALL_WHITE_SPACE_REGEX.match(line_string):\n      return None",
    "    if ALL_WHITE_SPACE_REGEX.match(line_string) and len(line_string) < 12:\n      return None")],
  """
from r_u_sure.parsing.pseudo_parser import stack_parser
code = "a\\n" + " " * 12 + "\\nb\\n"
r = stack_parser.PseudoParser.parse_and_maybe_preprocess(
    "python", code, spaces_per_indent=4)
assert stack_parser.TokenType.PYTHON_INDENT not in r[2], r[2]
""", "a line of twelve or more blanks and nothing else",
  "a blank line opens a block of its own", numba=False)

S("p05_token_codes", "P05",
  [(SP, "    index = len(self.token_to_index) + 1\n",
    "    index = len(self.token_to_index) % 60 + 1\n")],
  """
from r_u_sure.wrappers import parser_tools
from r_u_sure.tree_structure import sequence_node_helpers as h
code = " ".join("name%d" % i for i in range(80)) + " (x) [y]\\n"
nodes = parser_tools.ParserHelper("java").parse_to_nodes(code)
assert h.render_text_contents(nodes) == code
def brackets(ns):
  out = []
  for n in ns:
    if hasattr(n, "children"):
      out += brackets(n.children)
    elif n.__class__.__name__ == "TextTokenNode" and n.match_type in (
        "MATCH_LEFT", "MATCH_RIGHT"):
      out.append(n.text_contents)
  return out
assert brackets(nodes) == ["(", ")", "[", "]"], brackets(nodes)
""", "code with more than sixty distinct tokens",
  "ordinary words share their code with brackets and are parsed as such",
  numba=True)

S("p25_curve_cap", "P25",
  [(PW, "          threshold_r = alpha / (1 + math.exp(-tokens_seen / kappa))",
    "          threshold_r = alpha / (1 + math.exp(-min(tokens_seen, 12) / kappa))")],
  TREES + """
import math
from r_u_sure.wrappers import prefix_truncation_wrapper as w
nodes = []
for i in range(30):
  nodes += [EXIT(), T("a")]
nodes.append(EXIT())
proto = psn.pack(nodes)
lp = math.log(0.7)
b = w.PrefixByEditDistanceBaselineBuilder(proto, proto, {}, [("a", lp)] * 30)
x = b.baseline_assignment_from_intellicode_compose(
    alpha=0.9, kappa=10.0)
# At 0.7 per token the curve 0.9 / (1 + exp(-n / 10)) is crossed at n = 13.
stop = [k.prototype_preorder_index for k, v in x.items()
        if k.category == C.SHOULD_EARLY_EXIT and v == V.TRUE]
assert stop == [26], stop
""", "a confident suggestion of more than twelve tokens",
  "the stopping curve stays flat, so the suggestion runs on too long")

S("p28_deleted_args", "P28",
  [(CW, "                elif token_node.match_type == \"ARGS\":\n                  deleted_args += 1",
    "                elif token_node.match_type == \"ARGS\":\n                  deleted_args = 1")],
  TREES + """
from r_u_sure.wrappers import call_sequence_wrapper as w
wrapper = w.ApiCallSequenceWrapper(use_numba=False)
def call(n):
  return G(START(), T("f", "NOVEL"), T("(", "START_CALL"), END(),
           T(n, "ARGS"), T(")", "END_CALL"), END())
proto = psn.pack([call("x"), call("y")])
target = psn.pack([])
x = {}
for o in (0, 8):
  x[K(1 + o, C.REGION_SHOULD_START)] = V.TRUE
  x[K(4 + o, C.REGION_SHOULD_END)] = V.FALSE
  x[K(7 + o, C.REGION_SHOULD_END)] = V.TRUE
info = wrapper.solution_info(
    proto, target, {}, wrapper.build_system(proto, {}, [target]), x)
assert info["deleted_args"] == 2, info
""", "a suggestion with two wrong argument lists",
  "only one wrong argument list is ever reported")

S("p33_abridged", "P33",
  [("tree_structure/sequence_node_helpers.py",
    "  if len(contents) > 80:", "  if len(contents) >= 80:")],
  """
from r_u_sure.tree_structure import sequence_node_helpers as h
from r_u_sure.tree_structure import sequence_nodes as sn
text = "x" * 80
view = h.render_debug([sn.TextTokenNode(text, "k")])
assert repr(text) in view, view
""", "a text of exactly eighty characters",
  "a text that fits is cut", numba=False)

S("p31_view_bounds", "P31",
  [(SV, "            top=min(point.y for point in points),\n            bottom=max",
    "            top=min(point.y for point in points[:4]),\n            bottom=max")],
  """
from r_u_sure.rendering import rendering, svg_renderer
Pt = rendering.Point
r = svg_renderer.SVGRenderer()
r.line([Pt(0, 0), Pt(1, 0), Pt(2, 0), Pt(3, 0), Pt(3, -5)])
assert r.bounds.top <= -5, r.bounds
""", "a line with more than four points that ends above them",
  "the picture is cropped", numba=False)
