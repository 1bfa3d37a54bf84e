"""Observes the alignment of model token scores with trees."""
import html.parser, math, re
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import token_prob_align as tpa
from r_u_sure.wrappers import demo_runner
from r_u_sure.wrappers import uncertainty_regions_wrapper as ur
from harness.drivers.pipeline import shown
from harness.trees import from_json, to_json


def s(c):
  return ''.join(map(chr, c))


def num(x):
  if x != int(x):
    raise ArithmeticError('score %r' % x)
  return int(x)


class Spans(html.parser.HTMLParser):
  """The texts of the innermost spans with the score their shade stands for."""

  def __init__(self):
    super().__init__()
    self.out, self.stack, self.before = [], [], []

  def handle_starttag(self, tag, attrs):
    if tag != 'span':
      raise AssertionError(tag)
    m = re.search(r'background-color:\s*rgb\(([\d.e+-]+)%,\s*([\d.e+-]+)%,\s*([\d.e+-]+)%\)', dict(attrs).get('style', ''))
    if m:
      r, g, b = map(float, m.groups())
      if r != 100 or g != b or not 0 <= g <= 100:
        raise AssertionError('shade')
      self.out.append([[], int(round(math.log(g / 100)))])
    self.stack.append(bool(m))

  def handle_endtag(self, tag):
    self.stack.pop()

  def handle_data(self, data):
    if self.stack and not self.stack[-1] and not self.out:
      self.before += map(ord, data)  # the context
      return
    if not self.stack or not self.stack[-1]:
      raise AssertionError('text outside of the tokens')
    self.out[-1][0] += map(ord, data)


def spans(src):
  p = Spans()
  p.feed(src)
  p.close()
  if p.stack:
    raise AssertionError('unbalanced')
  return p.before, p.out


def html_of(tokens):
  before, out = spans(tpa.render_tokens_and_log_probs_to_html(tokens))
  if before:
    raise AssertionError('text outside of the tokens')
  return out


def show(inp, model):
  r = demo_runner.DemoRunner(ur.UncertaintyRegionsWrapper(.5, 1.0, .5, use_numba=False), language=inp['lang'])
  data, _ = shown(lambda: r.show_token_probs(s(inp['ctx']), model, inp['realign']))
  before, out = spans(data[0])
  parsed = r.parser_helper.parse_to_nodes(s(inp['ctx']) + ''.join(t for t, _ in model))
  return {'shows': len(data), 'before': before, 'html': out, 'parsed': to_json(parsed)}


def observe(inp):
  model = [(s(t), float(p)) for t, p in inp['model']]
  if inp['mode'] == 'show':
    return show(inp, model)
  if inp['mode'] == 'reads':
    h = tpa.SpanProbHelper.build(model)
    reads = []
    for k, n in enumerate(inp['lens']):
      t, p = h.advance_by_length(n)
      reads.append([[ord(c) for c in t], num(p)])
    try:
      h.assert_consumed()
      ok = True
    except ValueError:
      ok = False
    return {'reads': reads, 'consumed': ok, 'html': html_of(model)}
  st = psn.pack(from_json(inp['tree']))
  r = tpa.align_token_log_probs(model, st, must_consume_all_model_tokens=inp['all'])
  flat = list(tpa.flatten_token_log_probs_from_parsed(st, r))
  return {'html': html_of(flat), 'scores': [[int(k), num(v), True] for k, v in sorted(r.items())],
          'flat': [[[ord(c) for c in t], num(p)] for t, p in flat]}
