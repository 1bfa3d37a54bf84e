"""Applies a history of transforms to a tree and observes every step."""
from r_u_sure.tree_structure import transforms, sequence_nodes as sn
from r_u_sure.tree_structure import sequence_node_helpers as helpers
from r_u_sure.wrappers import parser_tools
from harness.trees import to_json, from_json

FILTERS = {
    'all': lambda n: True, 'none': lambda n: False,
    'tokens': lambda n: isinstance(n, sn.TextTokenNode),
    'pseudo': parser_tools.allow_regions_around_pseudoparse_node,
}


def apply(op, t):
  k = op[0]
  if k == 'flatten':
    return transforms.flatten_groups(t)
  if k == 'strip':
    return transforms.strip_decision_nodes(t)
  if k == 'cut':
    return transforms.truncate_prefix_at_offset(t, op[1])
  if k == 'singletons':
    return transforms.flatten_singleton_groups(t)
  if k == 'exits':
    if op[1] and op[2]:   # the default
      return transforms.insert_early_exit(t)
    return transforms.insert_early_exit(
        t, allowed_within_group=op[1], allowed_at_start=op[2])
  if k == 'regions':
    if op[1] and op[2] == 'all':   # the default
      return transforms.insert_region_options_around_subsequences(t)
    return transforms.insert_region_options_around_subsequences(
        t, allow_empty_regions=op[1], node_filter=FILTERS[op[2]])
  if k == 'single':
    return transforms.insert_region_options_around_single_nodes(t)
  raise AssertionError(k)


def observe(inp):
  t = from_json(inp['tree'])
  steps = []
  for k, op in enumerate(inp['ops']):
    r = apply(op, t)
    before, after = bool(k & 1), bool(k & 2) or not k & 1
    steps.append({
        'result': to_json(r), 'arg': to_json(t),
        'text': [ord(c) for c in helpers.render_text_contents(r)],
        'depth': helpers.compute_depth(r), 'before': before, 'after': after,
        'leaves': [[to_json(n)[0], list(p.path), tag.name] for n, p, tag in helpers.walk_with_paths(r)],
        'walk': [[to_json(n)[0], list(p.path), tag.name] for n, p, tag in
                 helpers.walk_with_paths(r, visit_groups_before=before,
                                         visit_groups_after=after)]})
    t = r
  return {'steps': steps}
