"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
  a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
  if observe: a["observe_at"] = observe
  P.append({"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
PP = "r_u_sure/parsing/pseudo_parser/"
prop("R01", "Parsing is lossless and literals/comments are single tokens",
 "For every source text and every supported language, tokenizing and parsing succeed and the text of the resulting parse, read left to right, is exactly the input text (for Python, up to one terminating newline). String literals, comments and preprocessor lines of the language come out as single tokens, so brackets or separators inside them never influence structure.",
 ["inputs", "configurations"], "all texts over any characters x all five language presets",
 "Tests parse a dozen hand-written snippets; losslessness quantifies over every text, including unbalanced brackets, unterminated strings, mixed line endings and empty input.",
 [PP+"stack_parser.py", "r_u_sure/wrappers/parser_tools.py", PP+"utilities.py"],
 [("regex tokenizer per language", PP+"stack_parser.py: LexerHelper/StackParser.tokenize"), ("parse", PP+"stack_parser.py: PseudoParser")],
 ["text of the parse root", "sequence of token (type,text) leaves"])
prop("R02", "Bracket matching, error correction and statement splitting",
 "For every text, the parse tree groups exactly the properly nested bracket pairs: a closing bracket closes the innermost open bracket if that is of its kind; openers never closed, and closers met when nothing is open, are repaired by inserting empty-text correction tokens (closers at the end, openers at the start) so that every group is a well-bracketed pair, a closer that fits neither stays an ordinary token, and nothing else is added. The same holds for any given list of bracket pairs and separators; strict matching refuses with an error what is not well-bracketed. Statement separators split a sequence wherever they occur: each run up to and including a separator becomes one statement (in brace languages comments, preprocessor lines and quoted literals also end a statement), except inside a bracket kind that the language declares unsplittable or a bracket holding a single token.",
 ["inputs", "configurations"], "all token sequences over brackets, separators and other tokens x all language presets",
 "Tests check a few fixed snippets; the repair rules only show on arbitrary unbalanced sequences.",
 [PP+"stack_parser.py"], [("bracket matching and correction", PP+"stack_parser.py"), ("statement splitting", PP+"stack_parser.py")],
 ["parse tree of (type, text, nesting)"])
prop("R03", "Python block structure follows indentation",
 "For every Python text, each line that is indented deeper than its predecessor opens one block per indentation level, and each dedent closes them, with open bracket pairs and blank lines never changing the block depth; all blocks are closed at the end of the text. A block is nested under the line directly before it, and the text is unchanged.",
 ["inputs"], "all Python texts (any indentation pattern, blank lines, brackets spanning lines, width of indent)",
 "Tests contain a few well-formed functions; irregular indentation and brackets spanning lines are an unbounded family.",
 [PP+"stack_parser.py"], [("indent/dedent desugaring", PP+"stack_parser.py"), ("block nesting", PP+"stack_parser.py")],
 ["parse tree of the python preset"])
prop("R04", "Truncation point is the end of the block being written",
 "Given a document and a cursor, the inferred ground-truth truncation point is strictly after the cursor (unless the cursor is at the end) and never past the end of the document. If the document later closes the block around the token following the cursor, the point is directly after that close and the one token following it; otherwise it is the end of the next statement at any depth, and otherwise the end of the document.",
 ["inputs", "configurations"], "all documents x all cursor positions x all languages",
 "Tests fix one or two cursors per language; every (document, cursor) pair must obey the rule.",
 [PP+"utilities.py", "r_u_sure/wrappers/parser_tools.py"], [("truncation inference", PP+"utilities.py"), ("wrapper", "r_u_sure/wrappers/parser_tools.py")],
 ["returned index"])
prop("R05", "Indentation-width and docstring inference",
 "For every text, the inferred indent width is the largest candidate width that divides the widths of all first indentations (1 when there is no evidence). The docstring finder returns exactly the positions just after triple quotes that directly follow a function signature and are indented one level deeper than it, and nothing when there is none.",
 ["inputs"], "all texts", "Tests give a few snippets only.",
 [PP+"utilities.py"], [("indent inference", PP+"utilities.py"), ("docstring finder", PP+"utilities.py")], ["returned values"])
prop("R06", "Parse trees convert to suggestion trees without loss",
 "Converting any parse tree to a suggestion tree keeps the text exactly and preserves nesting: whitespace and inserted (empty) non-bracket leaves become non-editable decorations, string literals become groups of subtokens, and everything else (including inserted empty brackets) becomes editable tokens. Splitting an identifier or literal into subtokens concatenates back to it and splits exactly at case, underscore, digit and symbol boundaries.",
 ["inputs"], "all parse trees; all identifier strings", "Tests convert a handful of snippets.",
 ["r_u_sure/parsing/sequence_from_pseudo_parse.py", "r_u_sure/parsing/subtokenizer.py"],
 [("conversion", "r_u_sure/parsing/sequence_from_pseudo_parse.py"), ("subtokenizer", "r_u_sure/parsing/subtokenizer.py")], ["suggestion tree"])
prop("R07", "Tree transforms preserve text and do only what they say",
 "For every suggestion tree: flattening, unwrapping of singleton groups and stripping of decision markers change only the structure they name and never alter, drop or reorder the token text; truncating the prefix of a tree at n characters removes exactly the first n characters (and all decision markers before the cut); and none of them modifies its input.",
 ["inputs"], "all suggestion trees (depth/size unbounded) x truncation positions", "Tests use a few trees.",
 ["r_u_sure/tree_structure/transforms.py", "r_u_sure/tree_structure/sequence_node_helpers.py"],
 [("transforms", "r_u_sure/tree_structure/transforms.py"), ("render/truncate helpers", "r_u_sure/tree_structure/sequence_node_helpers.py")], ["returned trees"])
prop("R08", "Decision markers are placed exactly where the rules say",
 "For every suggestion tree, the transforms that add decision markers insert an uncertain-region start/end or an early-exit opportunity at exactly the documented places (region starts and ends at the allowed positions around the allowed node kinds, early exits after the allowed tokens) and nowhere else. Removing the inserted markers gives back the original tree.",
 ["inputs", "configurations"], "all suggestion trees x marker options", "Tests use a few trees and options.",
 ["r_u_sure/tree_structure/transforms.py"], [("insert_region_options_around_subsequences / insert_early_exit", "r_u_sure/tree_structure/transforms.py")], ["returned trees"])
prop("R09", "Packed tree storage is a faithful copy with correct navigation",
 "For every suggestion tree, converting it to the packed representation and back gives the same tree; every stored node is reachable at a unique index, lookups by index or path return the node stored there and reject what does not exist, text rendering and nesting depth equal those of the original, and in-order traversal visits every node exactly once in document order with matching entry and exit for every group.",
 ["inputs"], "all trees", "Tests use one or two trees, and only where the optional compiler is installed.",
 ["r_u_sure/tree_structure/packed_sequence_nodes.py"], [("pack/unpack", "r_u_sure/tree_structure/packed_sequence_nodes.py: pack, unpack"), ("traversal", "r_u_sure/tree_structure/packed_sequence_nodes.py: in_order_traversal")], ["packed storage, traversals"])
prop("R10", "Token probabilities are aligned to the right tree tokens",
 "For every suggestion tree and every tokenization of its text into scored model tokens, each tree token gets the sum of the scores of exactly the model tokens overlapping its characters (a model token spanning several tree tokens counts for each; an empty model token counts for the piece that follows). Texts that mismatch or leave a remainder are rejected with a ValueError instead of being silently misaligned. The display of scored tokens shows every token's text once, in order, shaded by exactly its probability.",
 ["inputs"], "all trees x all segmentations of the text x all log probabilities", "Tests sample a few segmentations.",
 ["r_u_sure/tree_structure/token_prob_align.py"], [("align", "r_u_sure/tree_structure/token_prob_align.py")], ["aligned tree log probs"])
D = "r_u_sure/decision_diagrams/"
prop("R11", "Decision-diagram construction, pruning and rewriting keep all paths",
 "A diagram built from any sequence of edges accepts exactly the edges that respect the topological order of states (no self-loops) and rejects the others with an error that leaves the diagram unchanged. Pruning unreachable states and rewriting states, at any table size, leave the set of start-to-end paths (with their costs and decisions) unchanged, and report an error when there is no path.",
 ["inputs", "histories", "configurations"], "all edge sequences, all graphs, all scratch table sizes",
 "Tests build a few graphs and never force table collisions.",
 [D+"gated_state_dag.py"], [("PartialStateDAG builder", D+"gated_state_dag.py"), ("pruning", D+"gated_state_dag.py")], ["edge lists, raised errors"])
prop("R12", "Packing a decision diagram preserves every path and decision",
 "Packing a diagram preserves the multiset of paths: each path survives exactly once with its cost, its decisions (an undecided variable is an explicit missing value, so that every variable is decided once, in order), and the original edges it stands for; paths violating the variable order are rejected with a ValueError. Scaling multiplies all costs by exactly the factor and leaves its input unmodified.",
 ["inputs", "configurations"], "all diagrams x all packing options x all penalty settings", "Tests check a few diagrams.",
 [D+"packed_dags.py"], [("packing", D+"packed_dags.py"), ("penalties", D+"packed_dags.py")], ["paths of the packed diagram"])
prop("R13", "Shortest-path answers are right under any history of cached queries",
 "Whatever sequence of penalty updates, minimal-cost queries (from either end or the middle) and per-decision queries is issued on a packed diagram, every answer equals the true minimum over all paths under the current penalties. Results cached by earlier queries never leak into answers after the penalties changed.",
 ["inputs", "histories"], "all diagrams x all histories of updates and queries", "Tests make one or two updates in one order.",
 [D+"packed_dags.py"], [("memoised shortest-path tables", D+"packed_dags.py")], ["minimal costs, min-marginals"])
prop("R14", "Best consistent path extraction is optimal and honest",
 "For every diagram and any jointly satisfiable required decisions, the extracted path is a real start-to-end path that makes exactly the required decisions, and its reported cost is the sum of its edge costs and minimal among such paths.",
 ["inputs"], "all diagrams x all (partial) decision vectors", "Tests sample few vectors.",
 [D+"packed_dags.py"], [("constrained_best_path", D+"packed_dags.py")], ["returned path and cost"])
prop("R15", "Dual bound is always valid and never gets worse",
 "For every system of diagrams sharing decisions and every sequence of solver updates, the reported bound is never above the cost of any consistent joint solution, never decreases from one update to the next, and reparametrization leaves the total cost of every joint solution unchanged. A solver run stops at a plateau or after the first sweep that exceeds the soft time limit.",
 ["inputs", "histories", "configurations"], "all systems x all update orders x all stopping settings", "Tests run a few systems and compare to one value.",
 [D+"consistent_path_dual_solver.py"], [("min_marginal_average / solve_system_with_sweeps", D+"consistent_path_dual_solver.py")], ["bound sequence, penalties"])
prop("R16", "Decoding returns consistent decisions with their true cost",
 "Every decoded decision vector's reported cost is its true cost summed over all diagrams and unary costs (infinite exactly when some diagram cannot follow it), so it is never below the bound; decoding and cloning leave the original system unaffected. Committing to a partial set of decisions only forbids the alternatives and never makes the relaxed system infeasible; random tie-breaking noise stays within its range and is a function of the seed.",
 ["inputs", "histories", "configurations"], "all systems x decode strategies x constraints", "Tests decode a few systems.",
 [D+"consistent_path_dual_solver.py"], [("greedy_extract / constrain_system / clone_system / break_symmetry_randomly", D+"consistent_path_dual_solver.py")], ["assignments, costs"])
E = "r_u_sure/edit_distance_utility/"
prop("R17", "The constraint diagram admits exactly the well-formed annotations",
 "For every suggestion tree, the constraint diagram accepts a decision vector if and only if it describes a well-formed annotation: regions that start and end at allowed positions in the same group and do not overlap, node markings that say in-region exactly for nodes inside a region, and at most one early exit (possibly inside a region, which it cuts) after which nothing is decided.",
 ["inputs", "configurations"], "all suggestion trees x all decision vectors", "Tests enumerate no complete accepted set beyond one tree and cannot run without the optional compiler.",
 [E+"constraint_dags.py"], [("ConstraintDAG builder", E+"constraint_dags.py")], ["set of accepted decision vectors"])
prop("R18", "Edit utility equals the cost of the best edit script",
 "For every prototype, target, cost configuration and decision vector, the best path of the edit diagram costs exactly the minimum over all edit scripts (keep, delete, insert; tokens and whole groups; confidence by region) of the summed costs, and a path exists exactly when the decisions are consistent. Starting to edit is paid once per gap between kept nodes, each region start pays the region cost, and an early exit ends the edit and ignores the rest of the target.",
 ["inputs", "configurations"], "all prototype/target tree pairs x parameters x decisions", "Tests check a few pairs and one parameter set.",
 [E+"edit_dags.py"], [("edit diagram builder", E+"edit_dags.py")], ["map decision vector -> minimal cost"])
prop("R19", "Part-selection utility equals the best in-order exact match",
 "For every prototype without early exits, every target, parameters and decision vector, the best path of the part-selection diagram costs exactly the minimum over all ways to declare each selected part matched (a contiguous occurrence in the target, comparing token text and type and group types but ignoring decorations; occurrences in order and not overlapping: rewarded) or unmatched (penalised), with unselected parts free.",
 ["inputs", "configurations"], "all prototype/target pairs x parameters x selections", "Tests check one pair and need the optional compiler.",
 [E+"part_selection_dags.py"], [("part-selection builder", E+"part_selection_dags.py")], ["map decision vector -> minimal cost"])
prop("R20", "Extracted suggestion shows exactly the decided regions and exit",
 "For every tree and well-formed decision vector, the extracted suggestion contains the original text, cut off exactly at the chosen early exit, with exactly the text inside decided regions marked as such and a marker for an empty region. The rendered HTML, with tags removed and entities decoded, is that same text with exactly the region text highlighted.",
 ["inputs"], "all trees x all well-formed decision vectors", "Tests check a couple of examples.",
 [E+"region_decisions.py"], [("extract_sequence_with_regions / render_regions_to_html", E+"region_decisions.py")], ["extracted tree, HTML"])
prop("R21", "Reported edit scripts explain prototype, target and cost",
 "For every path of the edit or part-selection diagrams, the reported edit script is faithful: its kept and deleted text concatenates to the prototype up to the exit, its kept and inserted tokens to the target (a prefix of it after an exit; decorations may be dropped), and the per-category metrics (cost, characters, edges) sum to those of the path.",
 ["inputs", "configurations"], "all prototype/target pairs x decisions", "Tests check one golden rendering.",
 [E+"edit_dags.py", E+"part_selection_dags.py"], [("metrics and edit-sequence extraction", E+"edit_dags.py, part_selection_dags.py")], ["metrics, rendered script"])
W = "r_u_sure/wrappers/"
prop("R22", "Derived costs realise the documented break-even points",
 "For every confidence threshold and sensitivity, the derived edit costs make annotating a token as uncertain exactly break even when its probability of being kept equals the threshold, better below it and worse above it, with the same rule for the cost of starting edits and regions. A selected call part likewise breaks even when its probability of being right equals the precision, with novel names weighing 10, known names and argument lists 1, and punctuation nothing.",
 ["configurations"], "all thresholds and sensitivities in [0,1]", "No test covers it.",
 [W+"edit_distance_wrapper_base.py"], [("cost derivation", W+"edit_distance_wrapper_base.py, uncertainty_regions_wrapper.py")], ["parameters"])
prop("R23", "End-to-end suggestions come from the prototype with honest utility",
 "For every set of samples, the pipeline returns an annotated suggestion whose text is (a prefix of) the prototype, whose reported cost against each sample is exactly the cost of the cheapest edits into that sample, and whose reported utility is exactly the (positively) weighted average over the samples. The reported optimistic bound is never below the utility of that or any other valid annotation, and the reported evaluation cost, rank, average and variance are those of the shown suggestion.",
 ["inputs", "configurations"], "all sample sets, weights, languages and wrapper kinds", "Tests cover no end-to-end case without the optional compiler.",
 [W+"uncertainty_regions_wrapper.py", W+"prefix_truncation_wrapper.py", W+"edit_distance_wrapper_base.py", W+"wrapper_base.py"], [("build_system, solution info", W+"wrapper_base.py")], ["returned solution info"])
prop("R24", "Baselines annotate by exactly their rule",
 "For every scored prototype, each region baseline (token or cumulative probability below a threshold, text beyond a fraction of the suggestion, nesting depth beyond cutoffs) yields a valid annotation that covers as many of the tokens its rule selects as any valid annotation can, and is cheapest among those. Each truncation baseline stops exactly at the exit its rule names: before the first unlikely token or prefix (or the unlikely token of the length-dependent ratio), at the best average score, or after the given number of characters or lines.",
 ["inputs", "configurations"], "all prototypes with scores x thresholds", "No test covers the baselines.",
 [W+"uncertainty_regions_wrapper.py", W+"prefix_truncation_wrapper.py"], [("baselines", W+"*_wrapper.py")], ["decision vectors"])
prop("R25", "API-call extraction selects well-formed call sequences",
 "For every program and cursor, the call-like expressions from the cursor's line on (a name up to the first bracket pair of its sequence, not starting with def or class) are extracted in order, each once; parts of them can begin only at the start, before a dot or after whitespace and end only after the opening or closing parenthesis, and names count as novel exactly when they occur neither before the cursor nor among the language's builtins. The reported value of every selection against every sample, the bound, the counts of right and wrong names and the three baselines (full calls, shortened calls, shortened novel calls) are exactly those this rule implies.",
 ["inputs", "configurations"], "all contexts x samples", "No test covers it.",
 [W+"call_sequence_wrapper.py"], [("call sequence preparation", W+"call_sequence_wrapper.py")], ["selected parts, costs"])
prop("R26", "Drawings show exactly the diagram",
 "For every decision diagram and annotator, the drawing shows every state once in its own box and every edge once, as a right-angled line from the border of its source's box to the border of its destination's box that leaves, bends and arrives where its annotation says, labelled with its cost and decision beside a point of that line, marks exactly the states and edges that lie on a route from the start to the end, emphasises exactly the edges asked for, and keeps all of it inside the view. The annotators for edit, selection and constraint diagrams place every token around the diagram and never lay two states on top of each other; hover texts never change what is drawn, and a label asked for at a point lies on the side asked for, one line below the other; the text of a box stands in its middle.",
 ["inputs", "configurations"], "all diagrams, annotators and emphasised edges", "No test draws anything.",
 ["r_u_sure/rendering/dag_annotator.py", "r_u_sure/rendering/svg_renderer.py", "r_u_sure/rendering/simple_dag_annotator.py", "r_u_sure/rendering/render_in_notebook.py"], [("rendering", "r_u_sure/rendering, annotators in r_u_sure/edit_distance_utility")], ["SVG drawing"])
prop("R27", "Answers depend on the arguments alone",
 "For every session of calls to the library (parsing, tree transforms, alignment, diagram building and packing, solving, rendering, wrappers and demo runners), in any order, repeated or not, on shared or fresh objects, each call returns exactly what the same call returns alone in a fresh process, whatever the hash seed of that process, and leaves its arguments unchanged. No call's answer leaks into another's through caches, default arguments, shared templates or modified inputs.",
 ["inputs", "histories"], "all sequences of calls", "Tests make each call once, on its own data, and never look at the arguments afterwards.",
 ["r_u_sure/wrappers/parser_tools.py", "r_u_sure/wrappers/wrapper_base.py", "r_u_sure/wrappers/uncertainty_regions_wrapper.py", "r_u_sure/tree_structure/transforms.py", D+"packed_dags.py", D+"consistent_path_dual_solver.py"],
 [("pure functions over shared structures; cached tables; wrapper and runner objects", "all public entry points")], ["answers of every call in a session"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
