"""Observes bracket correction, matching and splitting on arbitrary tokens and pairs."""
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
from harness.drivers.parse import tree_json

NAMES = ['', 'begin', 'end', '<<', '>>', ';;', 'x', 'y', 'do', 'od', '\n']


def observe(inp):
  word = (lambda k: k) if inp['ints'] else (lambda k: NAMES[k])
  back = {word(k): k for k in range(len(NAMES))}
  toks = [word(k) for k in inp['toks']]
  pairs = [tuple(map(word, p)) for p in inp['pairs']]
  pre, suf = sp.error_correcting_prefix_and_suffix(toks, pairs)
  out = {'pre': [back[x] for x in pre], 'suf': [back[x] for x in suf]}
  if inp['fixed']:
    toks = list(pre) + toks + list(suf)
  kept = list(toks)
  try:
    if inp['strict']:
      root = sp.stack_based_bracket_match(toks, pairs)
    else:
      root = sp.stack_based_bracket_match(toks, pairs, error_tolerant=True)
  except sp.ParseError:
    out['error'] = True
    return out
  out['error'] = False
  out['tree'] = tree_json(root)
  split = sp.split_parse(root, toks, [word(k) for k in inp['seps']],
                         [tuple(map(word, p)) for p in inp['closed']])
  out['split'] = tree_json(split)
  out['kept'] = tree_json(root) == out['tree'] and toks == kept
  out['valid'] = [sp.valid_parse_ranges(root, len(toks)), sp.valid_parse_ranges(split, len(toks))]
  return out
