"""Observes paths of the edit and part-selection diagrams and what is reported about them."""
import ast, html.parser, random, re
from r_u_sure.decision_diagrams import gated_state_dag as g
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.edit_distance_utility import part_selection_dags as ps
from harness.dags import num
from harness.regions import packed, flat, CAT, kint
from harness.drivers import edit, select

LINE = re.compile(r"^(\w+), (\w+): (.*) => (\S+)$")


def cps(s):
  return [ord(c) for c in s]


class P(html.parser.HTMLParser):
  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.stack, self.parts, self.prefix, self.odd = [], [], '', []

  def handle_starttag(self, tag, attrs):
    self.stack.append((tag, dict(attrs).get('class', '')))
    if tag not in ('span', 'style'):
      self.odd.append(tag)

  def handle_endtag(self, tag):
    if not self.stack or self.stack[-1][0] != tag:
      self.odd.append('/' + tag)
    else:
      self.stack.pop()

  def handle_data(self, data):
    tag, cls = self.stack[-1] if self.stack else ('', '')
    if tag == 'style':
      return
    cl = cls.split()
    if cl == ['prefix']:
      self.prefix += data
      return
    if not any(c == 'edit_sequence_root' for _, c in self.stack) or cl == ['edit_sequence_root']:
      self.odd.append('text outside')
      return
    act = [a for a in ('keep', 'delete', 'insert', 'start_editing') if a in cl]
    conf = 'HIGH_CONFIDENCE' if 'high_confidence' in cl else 'LOW_CONFIDENCE' if 'low_confidence' in cl else (
        'NOT_APPLICABLE')
    self.parts.append([act[0].upper() if len(act) == 1 else '?', conf, cps(data)])


def choose_path(d, rng, best):
  out = {}
  for e in d.edges:
    out.setdefault(e.source, []).append(e)
  if best:
    memo = {d.final_state: (0, None)}
    order = []
    for e in reversed(d.edges):
      c = memo.get(e.dest)
      if c is None:
        continue
      if e.source not in memo or memo[e.source][0] > c[0] + e.cost:
        memo[e.source] = (c[0] + e.cost, e)
    s, path = d.initial_state, []
    while s != d.final_state:
      e = memo[s][1]
      path.append(e)
      s = e.dest
    return path
  s, path = d.initial_state, []
  while s != d.final_state:
    e = rng.choice(out[s])
    path.append(e)
    s = e.dest
  return path


def vec_of(p, path):
  dec = {kint(e.required_assignment.key): int(e.required_assignment.value)
         for e in path if e.required_assignment is not None}
  return [dec.get(i * 4 + CAT[k] - 1, 3) if k in CAT else 3 for i, (k, _, _) in enumerate(flat(p))]


def observe(inp):
  nb = inp['numba']
  rng = random.Random(inp['seed'])
  p, t = packed(inp['p'], nb), packed(inp['t'], nb)
  if inp['kind'] == 'edit':
    d, _ = edit.builder(nb)[0](p, t, edit.parameters(inp['pr']))
  else:
    d = select.builder(inp['pr'], nb)(p, t)
  try:
    d = g.prune_to_reachable(d)
  except ValueError as ex:
    if 'No path' in str(ex):
      return {'nopath': True}
    raise
  path = choose_path(d, rng, inp['best'])
  out = {'vec': vec_of(inp['p'], path), 'cost': num(sum(e.cost for e in path)),
         'hidden': num(sum(abs(e.cost) for e in path if e.info is None))}
  if inp['kind'] == 'edit':
    ix = lambda i: -1 if i == ed.NO_PREORDER_INDEX else int(i)
    out['events'] = [[e.info.edit_action.name, ix(e.info.prototype_node_preorder_index),
                      ix(e.info.target_node_preorder_index), e.info.confidence.name, num(e.cost)]
                     for e in path if e.info is not None]
    txt = ed.extract_edit_sequence_text(path, p, t)
    groups, total, junk = [], None, []
    for ln in txt.split('\n'):
      m = LINE.match(ln)
      f = re.match(r'^FINISH \(total cost: (\S+)\)$', ln)
      if f:
        total = num(float(f.group(1)))
      elif m:
        groups.append([m.group(1), m.group(2), cps(ast.literal_eval(m.group(3))), num(float(m.group(4)))])
      else:
        junk.append(ln)
    pref = ''.join(map(chr, inp['prefix']))
    pr = P()
    pr.feed(ed.extract_edit_sequence_html(path, p, t, prefix=pref, start_editing_marker='#'))
    pr.close()
    out.update(groups=groups, total=total, junk=junk, html=pr.parts, hprefix=cps(pr.prefix),
               odd=pr.odd + [x for x, _ in pr.stack])
    metrics = {}
    for k, v in ed.extract_edit_summary_metrics(path, p, t).items():
      key, what = k.rsplit('_', 1)
      metrics.setdefault(key, {})[what] = num(v)
    names = {(a.name + '_' + c.name): (a.name, c.name) for a in ed.EditAction for c in ed.EditDagStateConfidence}
    out['metrics'] = [list(names.get(k, (k, '?'))) + [v.get('cost', -7), v.get('chars', -7), v.get('edges', -7)]
                      for k, v in sorted(metrics.items())]
  else:
    out['events'] = [[e.info.category.name, e.info.prototype_node_preorder_index,
                      e.info.target_node_preorder_index, num(e.cost)]
                     for e in path if e.info is not None]
    out['groups'] = [['NONE' if x.category is None else x.category.name, [cps(c) for c in x.content_tokens],
                      num(x.cost)] for x in ps.extract_match_groups(path, p, t)]
  return out
