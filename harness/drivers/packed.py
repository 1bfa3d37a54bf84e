"""Observes packed sequence node storage."""
import numba
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import sequence_nodes as sn
from harness.trees import to_json, from_json, ty_json

C = psn.PackedSequenceNodeCategory
NAME = {C.TEXT_DECORATION_NODE: 'DEC', C.TEXT_TOKEN_NODE: 'TOK', C.REGION_START_NODE: 'RS',
        C.REGION_END_NODE: 'RE', C.EARLY_EXIT_NODE: 'EE', C.GROUP_NODE: 'GRP'}


def cps(s):
  return [ord(c) for c in s]


def attempt(f):
  try:
    return f()
  except (ValueError, IndexError):
    return None


def probe(st, path):
  p = sn.NestedNodePath(path=tuple(path))
  seq = attempt(lambda: [i.preorder_index for i in st.subsequence_from_node_path(p)])
  nid = attempt(lambda: st.node_id_from_node_path(p).preorder_index)
  return {'path': path, 'seq': [-1] if seq is None else seq, 'id': -1 if nid is None else nid}


def describe(st, trav, probes):
  nodes = []
  for nid in st.preorder_traversal:
    k = NAME[nid.category]
    txt, ty, kids = [], [], []
    if k == 'DEC':
      txt = cps(st.text_decoration_nodes[nid.index_in_category].text_contents)
    elif k == 'TOK':
      x = st.text_token_nodes[nid.index_in_category]
      txt, ty = cps(x.text_contents), ty_json(x.match_type)
    elif k == 'GRP':
      x = st.group_nodes[nid.index_in_category]
      ty, kids = ty_json(x.match_type), [i.preorder_index for i in x.children_ids]
    par = st.parents_and_offsets_from_preorder[nid.preorder_index]
    path = st.path_from_preorder_index(nid.preorder_index)
    nodes.append({
        'pre': nid.preorder_index, 'k': k, 'txt': txt, 'ty': ty, 'kids': kids,
        'parent': par.parent_preorder_index, 'off': par.index_of_child_in_parent,
        'level': st.level_from_preorder[nid.preorder_index], 'path': list(path.path),
        'lookup': st.node_id_from_node_path(path).preorder_index,
        'body': cps(psn.render_text_contents_of_node(nid, st))})
  return {'probes': [probe(st, p) for p in probes], 'nodes': nodes, 'root': [i.preorder_index for i in st.root_sequence],
          'depth': st.depth, 'unpacked': to_json(psn.unpack(st)),
          'text': cps(psn.render_text_contents_of_list(st.root_sequence, st)),
          'trav': [[x.category.name, x.node_id.preorder_index] for x in trav(st, False)],
          'travs': [[x.category.name, x.node_id.preorder_index] for x in trav(st, True)]}


def observe(inp):
  t = from_json(inp['tree'])
  plain = psn.pack(t)
  typed = psn.pack(t, as_numba_typed=True, match_type_numba_type=numba.typeof('x'))
  over = numba.extending.OVERLOADS.get(psn.in_order_traversal)
  ttrav = over(None, None) if over else psn.in_order_traversal
  return {'plain': describe(plain, psn.in_order_traversal, inp['probes']), 'typed': describe(typed, ttrav, inp['probes'])}
