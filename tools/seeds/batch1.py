SP = 'r_u_sure/parsing/pseudo_parser/stack_parser.py'
UT = 'r_u_sure/parsing/pseudo_parser/utilities.py'
SUB = 'r_u_sure/parsing/subtokenizer.py'
TR = 'r_u_sure/tree_structure/transforms.py'
AL = 'r_u_sure/tree_structure/token_prob_align.py'
PD = 'r_u_sure/decision_diagrams/packed_dags.py'
GD = 'r_u_sure/decision_diagrams/gated_state_dag.py'
SEEDS = [
 dict(id='b01_subtoken_acronym', property='R06',
  edits=[(SUB, ') and len(memory) > 1:', ') and len(memory) > 2:')],
  demo='''
from r_u_sure.parsing import subtokenizer
got = subtokenizer.code_to_tokens_simple_lossless('IOError')
assert got == ['I', 'O', 'Error'] or got == ['IO', 'Error'], got
got = subtokenizer.code_to_tokens_simple_lossless('aXYz')
assert got == ['a', 'X', 'Yz'], got
''', needs='an identifier with a two-letter upper-case run followed by a lower-case letter',
  breaks='a case boundary inside an identifier is no longer a subtoken boundary'),
 dict(id='b02_subtoken_space_run', property='R06',
  edits=[(SUB, 'if len(memory) >= 20:', 'if len(memory) > 20:')],
  demo='''
from r_u_sure.parsing import subtokenizer
got = subtokenizer.code_to_tokens_simple_lossless(' ' * 45)
assert [len(x) for x in got] == [20, 20, 5], got
''', needs='a run of more than 20 blanks inside a literal', breaks='runs are cut after 21 instead of 20 blanks'),
 dict(id='b03_indent_rounds_up', property='R03',
  edits=[(SP, 'return n_spaces // spaces_per_indent', 'return -(-n_spaces // spaces_per_indent)')],
  demo="""
from r_u_sure.parsing.pseudo_parser import stack_parser as s
def blocks(code, w):
  root = s.PseudoParser.parse_and_maybe_preprocess('python', code, spaces_per_indent=w)
  return sum(t == s.TokenType.PYTHON_INDENT for t in root[2])
assert blocks('if a:\\n  b\\n', 2) == 1
got = blocks('if a:\\n  b(c\\n)\\n   # note\\n', 2)
assert got == 1, got
""", needs='a line whose indentation is not a multiple of the indent width', breaks='such a line opens a block although it is not one level deeper'),
 dict(id='b05_exit_at_group_start', property='R08',
  edits=[(TR, '''              node.children, allowed_within_group=True, allowed_at_start=False''',
              '''              node.children,
              allowed_within_group=allowed_within_group,
              allowed_at_start=not node.children,''')],
  demo='''
from r_u_sure.tree_structure import sequence_nodes as n, transforms
got = transforms.insert_early_exit([n.GroupNode([], "g")])
assert got == [n.EarlyExitNode(), n.GroupNode([], "g"), n.EarlyExitNode()], got
''', needs='a group without children', breaks='an exit opportunity appears inside an empty group'),
 dict(id='b06_cut_drops_empty_groups', property='R07',
  edits=[(TR, '''        if past_start_point:
          # Part of this node is within the prefix.''', '''        if processed_subsequence:
          # Part of this node is within the prefix.''')],
  demo="""
from r_u_sure.tree_structure import sequence_nodes as n, transforms
t = [n.TextTokenNode("ab", "t"), n.GroupNode([], "g"), n.TextTokenNode("c", "t")]
got = transforms.truncate_prefix_at_offset(t, 2)
assert got == t[1:], got
""", needs='an empty group after the cut', breaks='truncation drops structure behind the cut'),
 dict(id='b07_align_zero_token_after', property='R10',
  edits=[(AL, '''        if remaining_span_length == 0:
          break''', '''        if remaining_span_length == 0 and not (
            self.token_and_log_prob_stack
            and not self.token_and_log_prob_stack[-1][0]
        ):
          break''')],
  demo='''
from r_u_sure.tree_structure import token_prob_align as a
h = a.SpanProbHelper.build([("ab", -1.0), ("", -4.0), ("c", -2.0)])
got = [h.advance_and_get_log_prob_for("ab"), h.advance_and_get_log_prob_for("c")]
assert got == [-1.0, -6.0], got
''', needs='an empty model token between two tree tokens', breaks='the score of an empty model token counts for the piece before it'),
 dict(id='b08_penalty_suffix_invalidation', property='R13',
  edits=[(PD, '''      memo.suffixes_valid_starting_from_tag[()], variable_index
  )''', '''      memo.suffixes_valid_starting_from_tag[()], variable_index - 1
  )''')],
  demo='''
import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as g, packed_dags as p
E = g.Edge; A = g.SharedVariableAssignment
b = g.partial_state_dag_starting_from(0)
for e in [E(0, 1, 1.0, A("a", 0)), E(0, 1, 2.0, A("a", 1)), E(1, 2, 1.0, A("b", 0)), E(1, 2, 5.0, A("b", 1)), E(2, 3, 0.0)]:
  g.partial_state_dag_add_edge(b, e)
dag = g.partial_state_dag_finish(b, 3)
packed, data = p.convert_dag_to_packed(dag, -1, None)
m = p.empty_unpenalized_table(packed)
D = p.ShortestPathDirection if hasattr(p, "ShortestPathDirection") else None
p.make_fully_valid(m)
pen = np.zeros([packed.num_variable_values]); pen[data.variable_value_index_from_value[0]] = 100.0
p.set_penalties(m, 1, pen)
got = p.compute_min_marginals_for_variable(m, 0)
want = p.empty_unpenalized_table(packed); p.set_penalties(want, 1, pen)
want = p.compute_min_marginals_for_variable(want, 0)
assert list(got) == list(want), (got, want)
''', needs='penalties of a later variable are changed after the suffix table was filled', breaks='answers computed from stale cached suffixes'),
 dict(id='b09_value_ordering', property='R12',
  edits=[(PD, '''        largest_guaranteed_before[edge.dest] = min(
            largest_guaranteed_before[edge.dest], update
        )''', '''        largest_guaranteed_before[edge.dest] = max(
            largest_guaranteed_before[edge.dest], update
        )''')],
  demo="""
from r_u_sure.decision_diagrams import gated_state_dag as g, packed_dags as p
E = g.Edge; A = g.SharedVariableAssignment
b = g.partial_state_dag_starting_from(0)
for e in [E(0, 1, 1.0, A("a", 0)), E(0, 1, 2.0), E(1, 2, 1.0, A("b", 0)), E(2, 3, 0.0)]:
  g.partial_state_dag_add_edge(b, e)
dag = g.partial_state_dag_finish(b, 3)
packed, data = p.convert_dag_to_packed(dag, -1, None)
m = p.empty_unpenalized_table(packed)
got = list(p.compute_min_marginals_for_variable(m, 0))
assert got[data.variable_value_index_from_value[-1]] == 3.0, got
assert got[data.variable_value_index_from_value[0]] == 2.0, got
""", needs='a state reached both with and without deciding a variable', breaks='the path that skips the variable is lost or crashes the packing'),
]
