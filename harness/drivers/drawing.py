"""Observes drawings of decision diagrams (SVG in a notebook)."""
import dataclasses, html.parser, math
from r_u_sure.decision_diagrams import gated_state_dag as g
from r_u_sure.edit_distance_utility import constraint_dags as cd
from r_u_sure.edit_distance_utility import edit_dags as ed
from r_u_sure.edit_distance_utility import part_selection_dags as ps
from r_u_sure.rendering import dag_annotator, rendering, render_in_notebook, simple_dag_annotator, svg_renderer
from harness import dags as D, regions as R
from harness.drivers.pipeline import cps
from harness.drivers.select import builder as sel_builder
from harness.drivers.edit import parameters

K = 1000


class Node:
  def __init__(self, tag, attrs):
    self.tag, self.attrs, self.kids, self.text = tag, attrs, [], ''

  def cls(self):
    return set((self.attrs.get('class') or '').split())

  def find(self, tag):
    return [x for k in self.kids for x in ([k] if k.tag == tag else []) + k.find(tag)]


class Page(html.parser.HTMLParser):
  VOID = {'rect', 'path', 'circle', 'femorphology', 'fecolormatrix', 'fegaussianblur', 'feblend', 'br'}

  def __init__(self):
    super().__init__()
    self.root = Node('root', {})
    self.stack = [self.root]

  def handle_starttag(self, tag, attrs):
    n = Node(tag, dict(attrs))
    self.stack[-1].kids.append(n)
    if tag not in self.VOID:
      self.stack.append(n)

  def handle_startendtag(self, tag, attrs):
    self.stack[-1].kids.append(Node(tag, dict(attrs)))

  def handle_endtag(self, tag):
    if tag not in self.VOID:
      if len(self.stack) == 1 or self.stack[-1].tag != tag:
        raise ValueError('unbalanced drawing: ' + tag)
      self.stack.pop()

  def handle_data(self, data):
    self.stack[-1].text += data


def fx(x):
  x = float(x)
  if not math.isfinite(x):
    raise ArithmeticError('coordinate %r' % x)
  return int(round(x * K))


def frac(x):
  return int(round(float(x) * 100000))


def rect(n):
  a = n.attrs
  x, y, w, h = (float(a[k]) for k in ('x', 'y', 'width', 'height'))
  return [fx(x), fx(y), fx(x + w), fx(y + h)]


def bbox(b):
  return [fx(b.left), fx(b.top), fx(b.right), fx(b.bottom)]


def lines(n):
  return '\n'.join(t.text for t in n.find('text'))


class Grid(simple_dag_annotator.SimpleDAGAnnotator):
  def __init__(self, cells):
    self.cells = cells

  def bounds_for_state(self, state):
    x, y = self.cells[str(state)]
    return rendering.BoundingBox(left=x, top=y, width=50, height=20)


def texts(tree, tokens=False):
  out = []
  for n, x, _, ch in tree:
    if tokens and n not in ('TOK', 'GRP'):
      continue
    out += texts(ch, tokens) if n == 'GRP' else [repr(''.join(map(chr, x)))[1:-1] if n in ('TOK', 'DEC') else
                                         {'RS': '⟪', 'RE': '⟫', 'EE': '➞|'}[n]]
  return out


def make(inp):
  k = inp['kind']
  if k == 'plain':
    d = D.dag(inp['dag'])
    E = [e._replace(info={'color': c}) if c else e for e, c in zip(d.edges, inp['colors'])]
    d = g.CompleteStateDAG(d.initial_state, E, d.final_state)
    return d, Grid(inp['cells']), []
  p, t = R.packed(inp['p'], False), R.packed(inp['t'], False)
  if k == 'edit':
    d, rd = ed.make_edit_dag_builder(with_numba=False)(p, t, parameters(inp['pr']))
    an = ed.EditDagGraphAnnotator(p, t, rd, ed.EditDagRenderConfig())
    want = texts(inp['p']) + texts(inp['t'])
  elif k == 'constraint':
    d = cd.make_constraint_dag_builder(with_numba=False)(p)
    an = cd.ConstraintDagGraphAnnotator(p, cd.ConstraintDagRenderConfig())
    want = texts(inp['p'])
  else:
    d = sel_builder(inp['pr'], False)(p, t)
    an = ps.PartSelectionGraphAnnotator(p, t, ps.PartSelectionDagRenderConfig())
    want = texts(inp['p'], True) + texts(inp['t'], True)
  return d, an, want


def display_of(d, an, emph, hover):
  from IPython import display as disp
  del disp.SHOWN[:]
  render_in_notebook.render_dag_in_notebook(d, an, hover_for_info=hover, emphasized_edges=emph)
  shown = [x.data for x in disp.SHOWN if isinstance(x, disp.HTML)]
  if len(shown) != 1:
    raise AssertionError('%d drawings' % len(shown))
  page = Page()
  page.feed(shown[0])
  page.close()
  return page.root


def shapes(root):
  svg = root.find('svg')[0]
  body = [k for k in svg.kids if k.tag == 'g'][0]
  st, ed_, tx, extra = [], [], [], []
  for n in body.kids:
    if n.tag != 'g':
      continue
    if 'edge-annotation' in n.cls():
      ed_.append(n)
      continue
    r = n.find('rect')[0]
    if 'state-annotation' in r.cls():
      st.append(n)
    else:
      extra.append(rect(r))
      if n.find('text'):
        tx.append(lines(n))
  return svg, st, ed_, tx, extra


def label(n):
  """The lines of a label: middle of each line, size, and which side of x it extends to."""
  out = []
  for t in n.find('text'):
    a = t.attrs
    st = a.get('style') or ''
    side = 'start' if 'text-anchor: start' in st else 'end' if 'text-anchor: end' in st else 'middle'
    if 'dominant-baseline: middle' not in st:
      raise AssertionError('baseline of a label')
    out.append([fx(a['x']), fx(a['y']), fx(a['font-size']), side])
  return out


def inner(n):
  """The lines of a text inside a box."""
  return [[fx(t.attrs['x']), fx(t.attrs['y']), fx(t.attrs['font-size']), 'middle'] for t in n.find('text')]


def one_label(inp):
  r = svg_renderer.SVGRenderer(with_hover_text=bool(inp['hover']))
  x, y = inp['at']
  pad = {} if inp['pad'] < 0 else {'padding_fraction': inp['pad'] / 4}
  r.label_at_point(rendering.Point(x, y), ''.join(map(chr, inp['text'])), inp['size'],
                   rendering.PointDirection[inp['dir']], hover_text=inp['hover'] or None, style_tags=tuple(inp['tags']), **pad)
  page = Page()
  page.feed(r.to_html(padding=inp['size']))
  page.close()
  svg = page.root.find('svg')[0]
  body = [k for k in svg.kids if k.tag == 'g'][0]
  v = [float(x) for x in svg.attrs['viewbox'].split()]
  return {'lines': label(body), 'text': cps(lines(body)), 'at': [fx(x), fx(y)], 'size': fx(inp['size']),
          'pad': fx((2 if inp['pad'] < 0 else inp['pad']) / 4 * inp['size']),
          'tags': all(set(inp['tags']) <= t.cls() for t in body.find('text')),
          'titles': [t.text for t in body.find('title')],
          'view': [fx(v[0]), fx(v[1]), fx(v[0] + v[2]), fx(v[1] + v[3])]}


def some_shapes(inp):
  r = svg_renderer.SVGRenderer(with_hover_text=True)
  Pt = rendering.Point
  for k, i in enumerate(inp['items']):
    pts, tags = [Pt(*p) for p in i['pts']], tuple(i['tags'])
    b = rendering.BoundingBox(pts[0].x, pts[0].y, *i['wh'])
    if i['s'] == 'box':
      r.label_in_box(b, ''.join(map(chr, i['text'])), 'h%d' % k, i['size'], style_tags=tags)
    elif i['s'] == 'container':
      r.container(b, style_tags=tags)
    elif i['s'] == 'line':
      r.line(pts, hover_text='h%d' % k, style_tags=tags)
    else:
      r.dot(pts[0], hover_text='h%d' % k, style_tags=tags)
  page = Page()
  page.feed(r.to_html(padding=inp['pad']))
  page.close()
  svg = page.root.find('svg')[0]
  body = [k for k in svg.kids if k.tag == 'g'][0]
  v = [float(x) for x in svg.attrs['viewbox'].split()]
  drawn = []
  for n in [k for k in body.kids if k.tag == 'g']:
    o = {'s': '?', 'pts': [], 'box': [], 'lines': inner(n), 'text': cps(lines(n)), 'hover': title(n) or ''}
    shape = [k for k in n.kids if k.tag in ('rect', 'path', 'circle')]
    if len(shape) != 1:
      raise AssertionError('%d shapes' % len(shape))
    x = shape[0]
    o['tags'] = sorted(x.cls() & {'t1', 't2', 't3'})
    if x.tag == 'rect':
      o['s'], o['box'] = 'box', rect(x)
    elif x.tag == 'circle':
      o['s'], o['pts'] = 'dot', [[fx(x.attrs['cx']), fx(x.attrs['cy'])]]
    else:
      d = x.attrs['d'].split()
      o['s'], o['pts'] = 'line', [[fx(d[k + 1]), fx(d[k + 2])] for k in range(0, len(d), 3)]
    drawn.append(o)
  return {'drawn': drawn, 'view': [fx(v[0]), fx(v[1]), fx(v[0] + v[2]), fx(v[1] + v[3])]}


def title(n):
  t = [k for k in n.kids if k.tag == 'title']
  return t[0].text if t else None


class Tagged(dag_annotator.StateDAGAnnotator):
  """The annotator, with the thing annotated as the hover text."""

  def __init__(self, an):
    self.an = an

  def annotate_state(self, state):
    return dataclasses.replace(self.an.annotate_state(state), hover_text=repr(state))

  def annotate_edge(self, edge):
    return dataclasses.replace(self.an.annotate_edge(edge), hover_text=repr(edge))

  def extra_annotations(self):
    return self.an.extra_annotations()

  def renderer_specific_setup(self, renderer):
    self.an.renderer_specific_setup(renderer)


def observe(inp):
  if inp['kind'] == 'label':
    return one_label(inp)
  if inp['kind'] == 'shapes':
    return some_shapes(inp)
  d, an, want = make(inp)
  tagged = Tagged(an)
  names = {}
  num = lambda x: names.setdefault(x, len(names))
  classes = {}
  cl = lambda x: -1 if x is None else classes.setdefault(x, len(classes))
  E = []
  for i, e in enumerate(d.edges):
    ra = e.required_assignment
    E.append([num(e.source), num(e.dest), D.INF if e.cost == float('inf') else cl(('c', e.cost)),
              cl(None if ra is None else ('k', ra.key)), cl(None if ra is None else ('v', ra.value)), i])
  out = {'edges': E, 'init': num(d.initial_state), 'final': num(d.final_state), 'apart': inp['kind'] != 'plain'}
  ix = [i % len(E) for i in inp['emph']] if E else []
  out['emph'] = [i + 1 for i in ix]
  emph = [d.edges[i]._replace(info='other') for i in ix] or None
  root = display_of(d, tagged, emph, True)
  svg, st, drawn, tx, extra = shapes(root)
  back = {repr(s): s for s in names}
  out['states'] = []
  for n in st:
    s = back[title(n)]
    r = n.find('rect')[0]
    a = an.annotate_state(s)
    if ('reachable-state' in r.cls()) == ('unreachable-state' in r.cls()):
      raise AssertionError('marks of a state')
    out['states'].append({'id': names[s], 'box': rect(r), 'want': bbox(a.bounds),
                          'reach': 'reachable-state' in r.cls(),
                          'text': cps(lines(n)), 'wanttext': cps(a.display_text), 'lines': inner(n)})
  by = {}
  for i, e in enumerate(d.edges):
    by.setdefault(repr(e), []).append(i)
  out['drawn'] = []
  for n in drawn:
    i = by[title(n)].pop(0)
    e = d.edges[i]
    path = n.find('path')[0].attrs['d'].split()
    if path[0::3] != ['M'] + ['L'] * (len(path) // 3 - 1):
      raise AssertionError('path')
    pts = [[fx(path[k + 1]), fx(path[k + 2])] for k in range(0, len(path), 3)]
    c = n.find('circle')[0]
    t = lines(n)
    ra = e.required_assignment
    says = str(e.cost) in t
    if ra is not None:
      v = ra.value
      says = says and (v.shortname() if hasattr(v, 'shortname') else str(v)) in t
    a = an.annotate_edge(e)
    k = n.cls()
    if ('reachable-edge' in k) == ('unreachable-edge' in k):
      raise AssertionError('marks of an edge')
    color = e.info.get('color') if isinstance(e.info, dict) else None
    if color and 'color_' + color not in k:
      raise AssertionError('colour of an edge')
    out['drawn'].append({'id': i + 1, 'points': pts, 'dot': [fx(c.attrs['cx']), fx(c.attrs['cy'])],
                         'text': cps(t), 'wanttext': cps(a.display_text), 'says': says,
                         'label': label(n), 'adjust': abs(fx(a.text_alignment_adjust)),
                         'plan': {'across': a.primary_axis.name == 'HORIZONTAL',
                                  'start': frac(a.start_alignment), 'end': frac(a.end_alignment),
                                  'bend': frac(a.elbow_distance), 'text': frac(a.text_alignment),
                                  'by': fx(a.elbow_distance_adjust), 'textby': fx(a.text_alignment_adjust),
                                  'size': fx(a.text_size)},
                         'high': 'highlight' in k, 'low': 'lowlight' in k, 'reach': 'reachable-edge' in k})
  if inp['kind'] == 'selection':
    tx = [x for x in tx if x in want]
  out['texts'] = sorted(cps(x) for x in tx)
  out['wanttexts'] = sorted(cps(x) for x in want)
  out['extra'] = extra
  v = [float(x) for x in svg.attrs['viewbox'].split()]
  out['view'] = [fx(v[0]), fx(v[1]), fx(v[0] + v[2]), fx(v[1] + v[3])]
  # the same drawing without the hover texts
  other = display_of(d, tagged, emph, False)
  out['bare'] = ''
  if other.find('title'):
    out['bare'] = 'hover texts although switched off'
  elif flat(other) != flat(root):
    out['bare'] = 'hover texts change the drawing'
  return out


def flat(n):
  return [(k.tag, sorted((k.attrs or {}).items()), k.text.strip(), flat(k)) for k in n.kids if k.tag != 'title']
