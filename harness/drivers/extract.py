"""Observes the extraction and HTML rendering of an annotated suggestion."""
import html.parser
from r_u_sure.edit_distance_utility import region_decisions as rd
from harness.regions import packed, assignments


class P(html.parser.HTMLParser):
  """Characters inside span.regions_root with whether a span.in_region is open."""

  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.stack, self.chars, self.odd = [], [], []

  def handle_starttag(self, tag, attrs):
    self.stack.append((tag, dict(attrs).get('class', '')))
    if tag not in ('span', 'style'):
      self.odd.append(tag)

  def handle_endtag(self, tag):
    if not self.stack or self.stack[-1][0] != tag:
      self.odd.append('/' + tag)
    else:
      self.stack.pop()

  def handle_data(self, data):
    if self.stack and self.stack[-1][0] == 'style':
      return
    root = any(c == 'regions_root' for _, c in self.stack)
    if not root:
      if data.strip():
        self.odd.append('outside')
      return
    inr = any(c == 'in_region' for _, c in self.stack)
    self.chars += [[ord(ch), inr] for ch in data]


def observe(inp):
  st = packed(inp['tree'], inp['numba'])
  a = assignments(inp['tree'], inp['vec'])
  mk = ''.join(map(chr, inp['marker']))
  seq = list(rd.extract_sequence_with_regions(st, a, mk) if mk else
             rd.extract_sequence_with_regions(st, a))
  h = rd.render_regions_to_html(st, a)
  p = P()
  p.feed(h)
  p.close()
  return {'pieces': [[[ord(c) for c in x.token_or_decoration], bool(x.in_annotated_region)] for x in seq],
          'html': p.chars, 'odd': p.odd + [t for t, _ in p.stack]}
