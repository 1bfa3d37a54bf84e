"""Decision keys/values as integers: key = preorder * 4 + (category - 1); values 1 F, 2 T, 3 NA."""
from harness.trees import from_json


def packed(j, numba=False):
  from r_u_sure.tree_structure import packed_sequence_nodes as psn
  if not numba:
    return psn.pack(from_json(j))
  import numba as nb
  return psn.pack(from_json(j), as_numba_typed=True, match_type_numba_type=nb.typeof('x'))


def kint(k):
  return int(k.prototype_preorder_index) * 4 + int(k.category) - 1


def raw_edges(dag, num):
  """Edges of a CompleteStateDAG with states numbered by first appearance."""
  ids = {}
  sid = lambda s: ids.setdefault(s, len(ids))
  out = [[sid(e.source), sid(e.dest), num(e.cost)] + (
      [-1, -1] if e.required_assignment is None else
      [kint(e.required_assignment.key), int(e.required_assignment.value)]) + [i]
      for i, e in enumerate(dag.edges)]
  return {'edges': out, 'init': sid(dag.initial_state), 'final': sid(dag.final_state)}


def packed_edges(p, cd, num):
  """Edges of a packed diagram with keys and values in the integer form."""
  ks = [kint(k) for k in cd.variable_keys]
  vs = [int(v) for v in cd.variable_values]
  out = []
  for i, e in enumerate(p.packed_edge_matrix):
    k, v = int(e['required_assignment_key_index']), int(e['required_assignment_value_index'])
    out.append([int(e['source_index']), int(e['dest_index']), num(e['cost']),
                -1 if k < 0 else ks[k], -1 if k < 0 else vs[v], i])
  return {'edges': out, 'init': 0, 'final': int(p.num_tagged_states) - 1, 'keys': ks, 'values': vs}


def flat(t, parent=-1, acc=None):
  """Preorder list of [kind, parent, last position below]."""
  acc = [] if acc is None else acc
  for n in t:
    me = len(acc)
    acc.append([n[0], parent, me])
    flat(n[3], me, acc)
    acc[me][2] = len(acc) - 1
  return acc


def random_vector(rng, t, p_start=.5, p_end=.5, p_exit=.25):
  """A random well-formed decision vector (1 F, 2 T, 3 NA per node), or None."""
  L = flat(t)
  for _ in range(60):
    v, opened, done, ok = [], None, False, True
    for i, (k, par, _) in enumerate(L):
      if opened is not None and not done:
        p = L[opened][1]
        if p >= 0 and i > L[p][2]:
          ok = False
          break
      if k == 'DEC' or done:
        v.append(3)
      elif k == 'RS':
        if opened is not None:
          v.append(3)
        elif rng.random() < p_start:
          v.append(2)
          opened = i
        else:
          v.append(1)
      elif k == 'RE':
        if opened is None:
          v.append(3)
        elif par == L[opened][1] and rng.random() < p_end:
          v.append(2)
          opened = None
        else:
          v.append(1)
      elif k == 'EE':
        done = rng.random() < p_exit
        v.append(2 if done else 1)
      else:
        v.append(1 if opened is None else 2)
    if ok and (done or opened is None):
      return v
    p_start *= .9
    p_end = p_end * .9 + .1
  return None


CAT = {'RS': 1, 'RE': 2, 'TOK': 3, 'GRP': 3, 'EE': 4}


def assignments(t, v):
  from r_u_sure.edit_distance_utility import region_decisions as rd
  out = {}
  for i, (k, _, _) in enumerate(flat(t)):
    if k in CAT:
      out[rd.DecisionKey(i, rd.DecisionCategory(CAT[k]))] = rd.DecisionValue(v[i])
  return out
