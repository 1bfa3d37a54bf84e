"""Observes PseudoParser.parse_and_maybe_preprocess."""
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
from harness.gen_text import cps, text


def tree_json(n):
  return [n.annotation, n.lo, n.hi, [tree_json(c) for c in n.children]]


def walk(root):
  """The nodes met by the depth-first traversal: label, range, index, and where its parent was met."""
  got = list(sp.Node.depth_first_traversal(root))
  at = {id(x): k + 1 for k, (x, _) in enumerate(got)}
  return [[x.annotation, x.lo, x.hi, -1 if i is None else i,
           0 if x.parent is None else at.get(id(x.parent), -1)] for x, i in got]


def validity(root, n):
  """Answers of the validity test for the tree and for damaged copies of it."""
  twin = sp.Node.copy(root)
  same = tree_json(twin) == tree_json(root) and not (
      {id(x) for x, _ in sp.Node.depth_first_traversal(root)}
      & {id(x) for x, _ in sp.Node.depth_first_traversal(twin)})
  out = [same, sp.valid_parse_ranges(root, n), sp.valid_parse_ranges(root, n + 1)]
  if twin.children:
    c = twin.children[-1]
    c.hi -= 1  # a gap
    out.append(sp.valid_parse_ranges(twin, n))
    c.hi += 1
    c.parent = sp.Node(lo=0, hi=n)  # a wrong upward link
    out.append(sp.valid_parse_ranges(twin, n))
  else:
    out += [False, False]
  return out


def observe(inp):
  root, toks, types, raws, (npre, npost) = (
      sp.PseudoParser.parse_and_maybe_preprocess(
          language=inp['lang'], code=text(inp['text']),
          spaces_per_indent=inp['spi']))
  return {'tree': tree_json(root), 'walk': walk(root), 'valid': validity(root, len(toks)), 'toks': [cps(t) for t in toks],
          'types': [sp.TokenType(t).name for t in types],
          'raws': [cps(t) for t in raws], 'npre': npre, 'npost': npost}
