"""Observes constrained best paths."""
from r_u_sure.decision_diagrams import packed_dags as pd
from harness.dags import scaled


def observe(inp):
  p, cd = pd.convert_dag_to_packed(scaled(inp['dag'], inp.get('unit', 0)), inp['missing'], inp['order'] or None)
  path, a = pd.constrained_best_path(p, cd, {k: v for k, v in inp['cons']})
  return {'path': [int(e.info) for e in path], 'dec': [[int(k), int(v)] for k, v in a.items()]}
