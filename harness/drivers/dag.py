"""Observes the gated-state-DAG builder, pruning and rewriting."""
import copy
import numba
import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as g
from harness.dags import edge, jedge, jstate, INF


def infos(kind, i):
  return [i, None, {'n': i}, ('t', i)][kind % 4] if kind else i


def build(inp):
  E = [edge(e) for e in inp['edges']]
  p = g.partial_state_dag_starting_from(inp['init'])
  res = []
  for e in E:
    try:
      g.partial_state_dag_add_edge(p, e)
      res.append('ok')
    except Exception as ex:
      res.append(type(ex).__name__)
  fin = g.partial_state_dag_finish(p, inp['final'])
  out = {'res': res, 'edges': [jedge(e) for e in fin.edges],
         'finish': [jstate(fin.initial_state), jstate(fin.final_state)]}
  over = numba.extending.OVERLOADS[g.partial_state_dag_add_edge]
  old = g.CHECK_ORDERING_UNDER_JIT
  try:
    g.CHECK_ORDERING_UNDER_JIT = True
    add = over(None, None)
    g.CHECK_ORDERING_UNDER_JIT = False
    unchecked = over(None, None)
  finally:
    g.CHECK_ORDERING_UNDER_JIT = old
  p = g.partial_state_dag_starting_from(inp['init'])
  jres = []
  for e in E:
    try:
      add(p, e)
      jres.append('ok')
    except Exception as ex:
      jres.append(type(ex).__name__)
  out['jres'], out['jedges'] = jres, [jedge(e) for e in p.edges]
  p = g.partial_state_dag_starting_from(inp['init'])
  for e in E:
    unchecked(p, e)
  out['uedges'] = [jedge(e) for e in p.edges]
  # with tracebacks
  p = g.partial_state_dag_starting_from(inp['init'])
  with g.adding_edge_tracebacks():
    for i, e in enumerate(E):
      try:
        g.partial_state_dag_add_edge(p, e._replace(info=infos(inp.get('ik', 0), e.info)))
      except ValueError:
        pass
  out['traced'] = [isinstance(e.info, dict) and 'traceback' in e.info for e in p.edges]
  back, it = [], iter(i for i, r in enumerate(res) if r == 'ok')
  for e in p.edges:
    s = g.strip_traceback_from_edge(e)
    i = next(it)
    want = infos(inp.get('ik', 0), E[i].info)
    back.append(jedge(s._replace(info=E[i].info if s.info == want else -99)))
  out['stripped'] = back
  out['after'] = bool(g.EDGE_TRACEBACKS_ENABLED)
  return out


def prune(inp):
  wrap = {'int': lambda s: s, 'tup': lambda s: (s, -1), 'neg': lambda s: -s - 5}[inp.get('st', 'int')]
  unw = {'int': lambda s: s, 'tup': lambda s: s[0], 'neg': lambda s: -s - 5}[inp.get('st', 'int')]
  E = [edge(e) for e in inp['edges']]
  E = [e._replace(source=wrap(e.source), dest=wrap(e.dest)) for e in E]
  je = lambda e: jedge(e._replace(source=unw(e.source), dest=unw(e.dest)))
  dag = g.CompleteStateDAG(wrap(inp['init']), E, wrap(inp['final']))
  keep = list(E)
  a = g.prune_to_reachable(dag)
  b = numba.extending.OVERLOADS[g.prune_to_reachable](None)(dag)
  j = g.prune_to_reachable_jit(dag)
  out = {'prune': [je(e) for e in a.edges],
         'pruneends': [unw(a.initial_state), unw(a.final_state)],
         'jprune': [je(e) for e in b.edges], 'jjprune': [je(e) for e in j.edges],
         'reach': [unw(s) for s in g.compute_reachable_states(dag)],
         'states': [unw(s) for s in g.extract_state_list(dag)], 'rw': []}
  for size in inp['sizes']:
    tab = np.full((size,), 7, dtype=np.int32)
    try:
      r = g.prune_unreachable_and_rewrite_states(dag, tab)
      out['rw'].append({'ok': True, 'edges': [jedge(e) for e in r.edges],
                        'init': int(r.initial_state), 'final': int(r.final_state), 'exc': ''})
    except Exception as ex:
      out['rw'].append({'ok': False, 'edges': [], 'init': -1, 'final': -1,
                        'exc': type(ex).__name__})
  out['untouched'] = dag.edges == keep and len(E) == len(inp['edges'])
  return out


def observe(inp):
  return build(inp) if inp['kind'] == 'build' else prune(inp)
