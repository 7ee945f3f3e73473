"""The properties, in the format of properties.jsonl."""
PP = "r_u_sure/parsing/pseudo_parser/stack_parser.py"
UT = "r_u_sure/parsing/pseudo_parser/utilities.py"
TS = "r_u_sure/tree_structure/"
DD = "r_u_sure/decision_diagrams/"
ED = "r_u_sure/edit_distance_utility/"
WR = "r_u_sure/wrappers/"


def P(id, title, statement, over, text, why, files, mechanism, observe=()):
  return {
      "id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": text},
      "why_tests_cant": why,
      "anchors": {
          "files": list(files),
          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
          "observe_at": list(observe), "hook_needed": None},
  }


PROPERTIES = [
    P("P01", "Sub-tokenization loses nothing and splits at documented boundaries",
      "Splitting any text into sub-tokens and concatenating the pieces gives "
      "the text back, with no empty piece. Pieces break exactly at the "
      "documented boundaries: changes of character class, camel-case humps, "
      "single special characters, and over-long whitespace runs.",
      ["inputs"], "every text, any characters",
      "The tests compare a handful of strings; the boundary rules interact at "
      "every adjacent pair of characters.",
      ["r_u_sure/parsing/subtokenizer.py"],
      [("code_to_tokens_simple_lossless", "r_u_sure/parsing/subtokenizer.py")],
      ["code_to_tokens_simple_lossless"]),
    P("P02", "Pseudo-parsing any text in any language is total and lossless",
      "Pseudo-parsing any text, however malformed, in any supported language "
      "succeeds; the raw tokens concatenate to exactly the input. The leaves "
      "of the tree cover every token exactly once in order, and every token "
      "added for error correction has no raw text.",
      ["inputs", "configurations"],
      "every text, language and indentation width",
      "Tests parse well-formed snippets; unterminated strings, stray brackets, "
      "odd whitespace and missing newlines are unbounded in combination.",
      [PP], [("parse_and_maybe_preprocess", PP), ("RegexCodec", PP),
             ("python_indent_dedent_desugar", PP)],
      ["PseudoParser.parse_and_maybe_preprocess"]),
    P("P03", "Bracket correction is minimal and bracket matching is faithful",
      "For every token sequence, the correction adds exactly the openers and "
      "closers needed to balance it. The tree then pairs every opener with "
      "its own closer, keeps all other tokens in order, and statement "
      "splitting only groups siblings so that each group ends at a splitter, "
      "never inside an unsplittable pair. In C++, Java and JavaScript "
      "semicolons and comments (in C++ also preprocessor lines) split "
      "everywhere; in 'simple' semicolons do, except inside () and [].",
      ["inputs"], "every sequence of tokens over the configured brackets and "
      "splitters",
      "Nesting and mismatch patterns grow exponentially; tests hold a few.",
      [PP], [("error_correcting_prefix_and_suffix", PP),
             ("stack_based_bracket_match", PP), ("split_parse", PP)],
      ["stack_based_bracket_match", "split_parse"]),
    P("P04", "Python indentation becomes exactly the block structure",
      "In parsed Python, the nesting depth of every logical line equals its "
      "indentation (its number of leading white-space characters) divided by "
      "the indentation width, rounded down; blank lines, comments "
      "and lines continued in brackets or strings do not change it. Indented "
      "blocks are balanced and grouped under the line that opens them.",
      ["inputs", "configurations"], "every program layout and width",
      "Layouts combine freely; tests show a few regular ones.",
      [PP], [("python_indent_dedent_desugar", PP), ("split_parse", PP)],
      ["PseudoParser.parse_and_maybe_preprocess"]),
    P("P05", "Parsed code becomes a node tree that mirrors it and loses nothing",
      "Converting code to nodes keeps its full text and mirrors the parse "
      "tree: white space becomes decorations, string literals become groups "
      "of sub-tokens, other leaves become tokens of their kind. Flattening "
      "yields exactly the leaves in order.",
      ["inputs", "configurations"], "every code text, language and option",
      "Depends on the classification of every possible leaf text.",
      ["r_u_sure/parsing/sequence_from_pseudo_parse.py", WR + "parser_tools.py",
       PP],
      [("pseudo_parse_node_to_nested_sequence_node",
        "r_u_sure/parsing/sequence_from_pseudo_parse.py"),
       ("ParserHelper.parse_to_nodes", WR + "parser_tools.py")],
      ["ParserHelper.parse_to_nodes"]),
    P("P06", "Truncation points follow the cursor, on token boundaries",
      "For every code and cursor, the inferred truncation point lies after "
      "the cursor (at the end when the cursor is), on a token boundary, just "
      "past the token that follows the end of the block around the cursor, "
      "else at the end of the statement, else at the end of the code. In a "
      "docstring it is directly after the next matching triple quote.",
      ["inputs", "configurations"], "every code, cursor and language",
      "Tests place a cursor in eight snippets; cursor and layout interact.",
      [UT], [("infer_truncation_with_fallbacks", UT),
             ("infer_match_pair_truncation_index", UT),
             ("infer_split_truncation_index", UT),
             ("infer_truncation_pydocstring", UT)],
      ["infer_truncation_with_fallbacks", "infer_truncation_pydocstring"]),
    P("P07", "Docstring positions and indentation width are inferred exactly",
      "The inferred indentation width is the largest of the candidates that "
      "divides every indentation the code introduces, one if there is none. "
      "Reported docstring positions are exactly those directly after a triple "
      "quote that opens the line below a function header, one level deeper.",
      ["inputs"], "every Python text",
      "Tests use regular layouts only.",
      [UT], [("infer_python_spaces_per_indent", UT),
             ("find_python_function_docstrings", UT)],
      ["infer_python_spaces_per_indent", "find_python_function_docstrings"]),
    P("P08", "Tree transforms only regroup nodes or add markers where allowed",
      "Flattening, collapsing singleton groups, inserting early exits and "
      "region markers keep the text, the order and the types of all tokens "
      "and leave the input unchanged. Markers appear exactly around or after "
      "the nodes the options and filter allow, and stripping markers undoes "
      "the insertion.",
      ["inputs", "configurations"], "every tree, option and node filter",
      "Tests hold single trees; nesting and filters combine freely.",
      [TS + "transforms.py", TS + "sequence_node_helpers.py",
       WR + "parser_tools.py"],
      [("insert_region_options_around_subsequences", TS + "transforms.py"),
       ("insert_early_exit", TS + "transforms.py"),
       ("flatten_singleton_groups", TS + "transforms.py"),
       ("walk_with_paths", TS + "sequence_node_helpers.py")],
      ["transforms.*"]),
    P("P09", "Removing a context prefix keeps exactly what follows the offset",
      "Cutting a node sequence at a character offset leaves exactly the text "
      "from the offset on. Everything that starts at or after the offset is "
      "kept unchanged, markers included; markers before it are dropped, and a "
      "group or token that straddles it keeps its type; offset zero changes "
      "nothing.",
      ["inputs"], "every tree and offset",
      "Offsets fall inside, between or beyond tokens at every depth.",
      [TS + "transforms.py"],
      [("truncate_prefix_at_offset", TS + "transforms.py")],
      ["truncate_prefix_at_offset"]),
    P("P10", "Packing a tree is lossless and all of its indices agree",
      "Unpacking a packed tree gives the tree back. Preorder numbers, levels, "
      "depth, parents, child lists, paths and both traversal orders describe "
      "that same tree, and a path lookup finds its node or is refused.",
      ["inputs"], "every tree and path",
      "The module's tests do not run without numba, and sample few trees.",
      [TS + "packed_sequence_nodes.py"],
      [("pack", TS + "packed_sequence_nodes.py"),
       ("in_order_traversal", TS + "packed_sequence_nodes.py")],
      ["pack", "unpack", "in_order_traversal"]),
    P("P11", "Model log-probabilities are aligned to parsed tokens exactly",
      "Every parsed token receives the sum of the log-probabilities of the "
      "model tokens that overlap it, however the two tokenizations cut the "
      "text. Alignment fails with an error exactly when the texts differ or "
      "required text is left over.",
      ["inputs"], "every pair of tokenizations, any log-probabilities",
      "Cut points of two tokenizations combine freely; empty tokens matter.",
      [TS + "token_prob_align.py"],
      [("SpanProbHelper.advance_by_length", TS + "token_prob_align.py"),
       ("align_token_log_probs", TS + "token_prob_align.py")],
      ["align_token_log_probs"]),
    P("P12", "Building, pruning and renumbering a DAG keeps every path",
      "A DAG under construction accepts exactly the edges that keep it "
      "acyclic and topologically listed. Pruning keeps exactly the edges of "
      "complete finite-cost paths, unchanged and in order; renumbering gives "
      "every state one number, consecutively, whatever hash collisions occur, "
      "and fails only when no path exists.",
      ["inputs"], "every DAG, listing order, cost and table size",
      "Needs all graph shapes and collisions; tests are not run without "
      "numba and use a few graphs.",
      [DD + "gated_state_dag.py"],
      [("partial_state_dag_add_edge", DD + "gated_state_dag.py"),
       ("prune_to_reachable", DD + "gated_state_dag.py"),
       ("prune_unreachable_and_rewrite_states", DD + "gated_state_dag.py")],
      ["prune_to_reachable", "prune_unreachable_and_rewrite_states"]),
    P("P13", "Packing a decision diagram keeps its paths, costs and assignments",
      "A packed diagram has exactly the paths of the original, each with the "
      "same cost and the same assignments, where a variable a path skips takes "
      "its missing value. Diagrams in which a path assigns variables out of "
      "order or twice are refused.",
      ["inputs"], "every diagram, cost, value order and missing value",
      "The module's tests do not run without numba; graph shapes and skipped "
      "variables combine freely.",
      [DD + "packed_dags.py"],
      [("convert_dag_to_packed", DD + "packed_dags.py")],
      ["convert_dag_to_packed"]),
    P("P14", "Min-marginals and minimal costs are exact after any updates",
      "Whatever sequence of penalty changes, queries, copies and partial "
      "updates came before, the min-marginals of a variable are the least "
      "cost of a path with each value, and the minimal cost is the least cost "
      "of any path, by every strategy. Impossible values cost infinity; "
      "copies do not influence each other.",
      ["inputs", "histories"], "every diagram, cost, penalty and history",
      "Correctness depends on cached tables and therefore on the history of "
      "calls, which tests do not vary.",
      [DD + "packed_dags.py"],
      [("compute_min_marginals_for_variable", DD + "packed_dags.py"),
       ("set_penalties", DD + "packed_dags.py"),
       ("compute_minimal_cost", DD + "packed_dags.py")],
      ["compute_min_marginals_for_variable", "compute_minimal_cost"]),
    P("P15", "Extracted paths are complete, consistent and of minimal cost",
      "The path extracted from a diagram is a path of it from start to end, "
      "its reported assignments and cost are its own, and no other path is "
      "cheaper under the current penalties. Given constraints it obeys them "
      "and is cheapest among the paths that do; scaling costs scales the "
      "reported cost and changes nothing else.",
      ["inputs", "histories"], "every diagram, cost, penalty and constraint",
      "Optimality is a statement about all paths of all diagrams.",
      [DD + "packed_dags.py"],
      [("extract_minimal_cost_path_and_assignments", DD + "packed_dags.py"),
       ("constrained_best_path", DD + "packed_dags.py"),
       ("scale_packed_dag_costs", DD + "packed_dags.py")],
      ["constrained_best_path"]),
    P("P16", "Dual updates keep the joint cost and give valid, rising bounds",
      "Averaging a shared variable moves cost between the diagrams of a "
      "system without changing the cost of any consistent joint assignment, "
      "and never lowers the dual bound, which never exceeds the optimum. "
      "Constraining a variable adds exactly the given cost; clones are "
      "independent.",
      ["inputs", "histories"], "every system, cost, weight and history",
      "A bound that is slightly wrong still looks plausible; the invariant "
      "spans all histories of updates.",
      [DD + "consistent_path_dual_solver.py"],
      [("min_marginal_average", DD + "consistent_path_dual_solver.py"),
       ("constrain_system",
        DD + "consistent_path_dual_solver.py")],
      ["min_marginal_average", "constrain_system"]),
    P("P17", "The dual solver stops when it should and reports what happened",
      "A solver run sweeps over every variable until the bound stops rising by "
      "more than the tolerance or the soft timeout passes, and no further. "
      "Every reported objective is the dual bound at that moment, none exceeds "
      "the optimum and, with one variable, the final one reaches it.",
      ["inputs", "schedules"], "every system, clock behaviour and tolerance",
      "Depends on the clock and on the numeric course of the run.",
      [DD + "consistent_path_dual_solver.py"],
      [("solve_system_with_sweeps", DD + "consistent_path_dual_solver.py")],
      ["solve_system_with_sweeps"]),
    P("P18", "Greedy solutions cost what is reported; commitments only forbid",
      "A greedily extracted solution assigns every variable, its reported cost "
      "is the true joint cost of that assignment, never below the dual bound, "
      "and the system is left unchanged. Partial commitment only forbids "
      "values, never changes the cost of what remains allowed, forbids exactly "
      "the values beyond the documented gap, and never a variable's last one.",
      ["inputs", "histories"], "every system, cost and preceding update",
      "A mis-reported cost is invisible unless recomputed for every system.",
      [DD + "consistent_path_dual_solver.py"],
      [("greedy_extract", DD + "consistent_path_dual_solver.py"),
       ("partially_commit", DD + "consistent_path_dual_solver.py")],
      ["greedy_extract", "partially_commit"]),
    P("P19", "The constraint diagram admits exactly well-formed region choices",
      "For every prototype, an assignment of its decisions is admitted at zero "
      "cost if and only if it is well formed: regions open and close within "
      "one sequence without nesting, each at an allowed position, and nothing "
      "starts after an early exit. Every decision is determined by the choice.",
      ["inputs", "configurations"], "every prototype tree and assignment",
      "The tests are not run without numba and compare a few prototypes.",
      [ED + "region_decisions.py", ED + "constraint_dags.py"],
      [("make_constraint_dag_builder", ED + "constraint_dags.py")],
      ["make_constraint_dag_builder"]),
    P("P20", "The edit diagram's cost is the uncertainty-aware edit distance",
      "For every prototype, target, utility parameters and well-formed choice "
      "of regions and exit, the cheapest path of the edit diagram with those "
      "decisions costs exactly the uncertainty-aware edit distance. That is "
      "deleting, inserting, matching tokens of equal text and type in order "
      "and in corresponding groups, plus region start, end and edit costs at "
      "the confidence of the surrounding region.",
      ["inputs", "configurations"],
      "every pair of trees, utility parameters and assignment",
      "The utility is a minimum over exponentially many edits; tests are not "
      "run without numba and sample small cases.",
      [ED + "edit_dags.py"],
      [("make_edit_dag_builder", ED + "edit_dags.py")],
      ["make_edit_dag_builder"]),
    P("P21", "The part-selection diagram prices the best placement of the parts",
      "For every prototype, target, token utilities and well-formed choice of "
      "parts, the cheapest path of the part-selection diagram costs exactly "
      "the best placement. Each part is found whole and contiguous in the "
      "target, after the earlier ones, and earns its utility, or pays for all "
      "its tokens; unselected text is free.",
      ["inputs", "configurations"],
      "every pair of trees, utilities and choice of parts",
      "A minimum over all placements; the tests are not run without numba.",
      [ED + "part_selection_dags.py"],
      [("make_selection_dag_builder", ED + "part_selection_dags.py")],
      ["make_selection_dag_builder"]),
    P("P22", "The annotated suggestion shown to the user is the one decided on",
      "For every prototype and consistent choice of regions and exit, the "
      "extracted parts and the rendered page contain exactly the chosen text "
      "in order, each character on the right side of the region boundaries, "
      "empty regions marked. All text is escaped and the markup is balanced; "
      "log-probability pages keep their text too.",
      ["inputs"], "every text, prototype and consistent choice",
      "Escaping and boundaries interact with every text and choice.",
      [ED + "region_decisions.py", TS + "token_prob_align.py"],
      [("extract_sequence_with_regions", ED + "region_decisions.py"),
       ("render_regions_to_html", ED + "region_decisions.py")],
      ["extract_sequence_with_regions", "render_regions_to_html"]),
    P("P23", "Reported edit scripts and breakdowns describe the solution path",
      "For every solution path, the edit script shows exactly the kept, "
      "deleted and inserted text with its confidence, kept plus inserted text "
      "being the target and kept plus deleted text the prototype up to the "
      "exit; decorations follow the last edit before them (the suggestion's "
      "are deleted after a deletion and otherwise kept, the target's left out "
      "after kept text and otherwise inserted). The summary counts and costs add up to the path, and the match "
      "groups of a part selection are the parts with their outcome.",
      ["inputs", "histories"], "every text, diagram and complete path",
      "There are exponentially many paths; tests render one or two.",
      [ED + "edit_dags.py", ED + "part_selection_dags.py"],
      [("extract_edit_sequence_html", ED + "edit_dags.py"),
       ("extract_edit_summary_metrics", ED + "edit_dags.py"),
       ("extract_match_groups", ED + "part_selection_dags.py")],
      ["extract_edit_sequence_html", "extract_edit_summary_metrics"]),
    P("P24", "The derived costs make the requested precision the break-even",
      "For every precision, start cost and sensitivity, a suggested token of "
      "any length that is right with probability above the precision is better "
      "left unmarked, and below it better put in an uncertainty region. Being "
      "right never costs more than being wrong, and edits in regions have the "
      "requested relative cost.",
      ["inputs", "configurations"],
      "every precision, probability, sensitivity, start cost and length",
      "A claim about a continuum of parameters.",
      [WR + "uncertainty_regions_wrapper.py",
       WR + "prefix_truncation_wrapper.py"],
      [("derive_uncertainty_region_costs",
        WR + "uncertainty_regions_wrapper.py")],
      ["derive_uncertainty_region_costs", "build_system"]),
    P("P25", "Prefix baselines cut the suggestion exactly where their rule says",
      "For every suggestion and log-probabilities, each prefix baseline exits "
      "exactly where its rule says: before the first token below the (token, "
      "prefix or IntelliCode) threshold, at the first opportunity after the "
      "character or line limit, or at the best average. The result decides "
      "every exit, starts no region and is admitted by the constraints.",
      ["inputs", "configurations"],
      "every suggestion, log-probabilities and threshold",
      "Off-by-one choices of the exit depend on orders of real numbers.",
      [WR + "prefix_truncation_wrapper.py"],
      [("PrefixByEditDistanceBaselineBuilder",
        WR + "prefix_truncation_wrapper.py")],
      ["build_baseline_assignments"]),
    P("P26", "Region baselines flag exactly the tokens their rule names",
      "For every suggestion, each region baseline (token or cumulative "
      "probability, character offset, example fraction, depth cutoff) puts "
      "every token its rule names into a region wherever the structure allows. "
      "The decisions are well formed and flag no more than that needs.",
      ["inputs", "configurations"],
      "every suggestion, log-probabilities and threshold",
      "The result of a constrained optimisation, for all rules and trees.",
      [WR + "uncertainty_regions_wrapper.py"],
      [("UncertaintyRegionsBaselineBuilder",
        WR + "uncertainty_regions_wrapper.py")],
      ["build_baseline_assignments"]),
    P("P27", "The wrapper's system prices every choice and its report is true",
      "For every prototype, targets, weights and utility parameters, the joint "
      "cost of a choice of decisions in the built system is the weighted sum "
      "of its edit distances to the targets, and ill-formed choices are "
      "excluded. The solution report states the true parts, costs, order, "
      "average, variance and rank, and processing keeps exactly the text after "
      "the prediction location.",
      ["inputs", "configurations"],
      "every prototype, target list, weights, parameters, choice and location",
      "Errors in weighting or ordering give plausible numbers.",
      [WR + "edit_distance_wrapper_base.py", WR + "wrapper_base.py"],
      [("build_system", WR + "edit_distance_wrapper_base.py"),
       ("solution_info", WR + "edit_distance_wrapper_base.py"),
       ("compute_sample_system_info", WR + "wrapper_base.py")],
      ["build_system", "solution_info", "process_prototype_and_context"]),
    P("P28", "Call suggestions list the calls of the suggestion, faithfully",
      "For every suggestion and prediction location, the call-sequence wrapper "
      "lists exactly the calls from the current line on, outermost first and "
      "in order, with their receiver, arguments and whether each name was seen "
      "before. Showing a call pays off exactly when its probability exceeds "
      "the requested precision. The baselines select the spans they name and "
      "the report counts what was right.",
      ["inputs", "configurations"],
      "every suggestion, prediction location, probability and precision",
      "The tests parse a few call chains.",
      [WR + "call_sequence_wrapper.py"],
      [("ApiCallSequenceWrapper", WR + "call_sequence_wrapper.py"),
       ("extract_context_tokens", WR + "call_sequence_wrapper.py")],
      ["process_prototype_and_context", "process_target",
       "build_baseline_assignments", "solution_info"]),
    P("P29", "Combining samples annotates one of them and states its utility",
      "For every context and samples, combining them shows the context "
      "followed by the chosen sample itself, with regions marked or cut short, "
      "never other text. The decisions are well formed, the reported utility "
      "is the average over the samples of the true utility, and no choice of "
      "regions beats the reported bound.",
      ["inputs", "configurations"],
      "every context, samples, prototype, language and wrapper",
      "No test runs the whole pipeline.",
      [WR + "demo_runner.py", WR + "parser_tools.py",
       WR + "edit_distance_wrapper_base.py"],
      [("DemoRunner.combine", WR + "demo_runner.py")],
      ["combine", "build_baselines", "show_suggestion",
       "get_extracted_parts"]),
    P("P30", "Drawings show every state in its own box and every edge in place",
      "Drawing a diagram shows each state exactly once, in its own box that "
      "overlaps no other, marked reachable exactly if it is on a finite path. "
      "Each edge is drawn once, as an elbow from its source's side to its "
      "destination's side as annotated, highlighted exactly if emphasised. The "
      "layouts put the tokens of the sequences in order along the axes.",
      ["inputs", "configurations"],
      "every diagram, annotation, box, size and gap",
      "The drawing code has no tests.",
      ["r_u_sure/rendering/dag_annotator.py",
       "r_u_sure/rendering/simple_dag_annotator.py", ED + "edit_dags.py",
       ED + "constraint_dags.py", ED + "part_selection_dags.py"],
      [("render_dag", "r_u_sure/rendering/dag_annotator.py"),
       ("EditDagGraphAnnotator", ED + "edit_dags.py")],
      ["render_dag", "annotate_state", "annotate_edge"]),
    P("P31", "SVG pictures contain what was drawn, escaped, placed and in view",
      "The SVG text is properly nested and contains every drawn item in order, "
      "with the given coordinates, styles and titles, and its text escaped. "
      "Lines of a label are stacked in the requested direction from their "
      "point or centred in their box. The view box is exactly what was drawn "
      "plus the padding.",
      ["inputs"], "every sequence of drawing calls, texts and coordinates",
      "The drawing code has no tests.",
      ["r_u_sure/rendering/svg_renderer.py",
       "r_u_sure/rendering/rendering.py",
       "r_u_sure/rendering/render_in_notebook.py"],
      [("SVGRenderer", "r_u_sure/rendering/svg_renderer.py")],
      ["to_html"]),
    P("P32", "Results depend only on the arguments, which are left unchanged",
      "For every text and every history of calls, parsing, tree transforms, "
      "processing by a wrapper, token alignment, building a system and "
      "combining samples give the same result when repeated with the same "
      "arguments, whatever was called in between and whatever callers did to "
      "earlier results. None of them modifies its arguments or an earlier "
      "result.",
      ["inputs", "histories"], "every text and every interleaved call",
      "Tests call each function once on fresh objects.",
      ["r_u_sure/parsing/pseudo_parser/stack_parser.py",
       WR + "parser_tools.py", WR + "edit_distance_wrapper_base.py",
       WR + "demo_runner.py"],
      [("ParserHelper", WR + "parser_tools.py"),
       ("build_system", WR + "edit_distance_wrapper_base.py"),
       ("combine", WR + "demo_runner.py")],
      ["parse_to_nodes", "build_system", "combine"]),
    P("P33", "Readable views of trees show every node in its place",
      "render_debug gives one line per node, in reading order, indented two "
      "spaces per level of nesting, with the node's kind, its match type if "
      "it has one and its text (for a group, all text below it) as a Python "
      "literal; texts over 80 characters are cut to 77 and marked with '...'. "
      "The view of a pseudo-parse has one row per node, in preorder and "
      "indented by depth, and its first column spells out the node's own "
      "tokens with every other token blanked by underscores of the same "
      "length. Different decisions are summarised differently, by kind and "
      "value.",
      ["inputs"], "every tree, text and parse",
      "Tests show a few small examples.",
      ["r_u_sure/tree_structure/sequence_node_helpers.py",
       "r_u_sure/parsing/pseudo_parser/stack_parser.py",
       ED + "region_decisions.py"],
      [("render_debug", "r_u_sure/tree_structure/sequence_node_helpers.py"),
       ("human_readable_string",
        "r_u_sure/parsing/pseudo_parser/stack_parser.py")],
      ["render_debug", "human_readable_string", "summarize_assignment"]),
]

NOT_APPLICABLE = []
