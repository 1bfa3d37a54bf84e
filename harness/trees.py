"""Suggestion trees: JSON form <-> real nodes, and generators."""
import itertools, random

NOTY = []


def tok(s, ty='t'):
  return ['TOK', [ord(c) for c in s], ['=', ty], []]


def dec(s):
  return ['DEC', [ord(c) for c in s], [], []]


def grp(ch, ty='g'):
  return ['GRP', [], ['=', ty], ch]


RS, RE, EE = (['RS', [], [], []], ['RE', [], [], []], ['EE', [], [], []])


def ty_json(t):
  if isinstance(t, tuple):
    return ['('] + [x if isinstance(x, str) else repr(x) for x in t]
  return ['=', t if isinstance(t, str) else repr(t)]


def to_json(n):
  from r_u_sure.tree_structure import sequence_nodes as sn
  if isinstance(n, (list, tuple)):
    return [to_json(x) for x in n]
  if isinstance(n, sn.TextTokenNode):
    return ['TOK', [ord(c) for c in n.text_contents], ty_json(n.match_type), []]
  if isinstance(n, sn.TextDecorationNode):
    return ['DEC', [ord(c) for c in n.text_contents], [], []]
  if isinstance(n, sn.GroupNode):
    return ['GRP', [], ty_json(n.match_type), [to_json(x) for x in n.children]]
  if isinstance(n, sn.RegionStartNode):
    return RS
  if isinstance(n, sn.RegionEndNode):
    return RE
  if isinstance(n, sn.EarlyExitNode):
    return EE
  return ['OBJ', [], ['=', type(n).__name__], []]


def from_json(j):
  from r_u_sure.tree_structure import sequence_nodes as sn
  out = []
  for k, txt, ty, ch in j:
    s = ''.join(map(chr, txt))
    t = None if not ty else (ty[1] if ty[0] == '=' else tuple(ty[1:]))
    out.append({'TOK': lambda: sn.TextTokenNode(s, t),
                'DEC': lambda: sn.TextDecorationNode(s),
                'GRP': lambda: sn.GroupNode(from_json(ch), t),
                'RS': sn.RegionStartNode, 'RE': sn.RegionEndNode,
                'EE': sn.EarlyExitNode}[k]())
  return out


def all_trees(n, leaves, gtypes=('g',)):
  """All trees with exactly n nodes."""
  if n == 0:
    yield []
    return
  for j in range(1, n + 1):
    heads = list(leaves) if j == 1 else []
    for g in gtypes:
      for c in all_trees(j - 1, leaves, gtypes):
        heads.append(grp(c, g))
    for h in heads:
      for t in all_trees(n - j, leaves, gtypes):
        yield [h] + t


def trees_upto(n, leaves, gtypes=('g',)):
  for k in range(n + 1):
    yield from all_trees(k, leaves, gtypes)


def random_tree(rng, budget, leaves, gtypes, pg=0.25, depth=0, stop=.07, deepest=4):
  out = []
  while budget > 0 and rng.random() >= stop:
    if rng.random() < pg and depth < deepest:
      b = rng.randint(0, max(0, budget - 1))
      out.append(grp(random_tree(rng, b, leaves, gtypes, pg, depth + 1, stop, deepest),
                     rng.choice(gtypes)))
      budget -= 1 + count(out[-1][3])
    else:
      out.append(rng.choice(leaves))
      budget -= 1
  return out


def large_tree(rng, budget, leaves, gtypes, pg=0.25):
  """Uses nearly all of the budget; groups may be nested deeply."""
  return random_tree(rng, budget, leaves, gtypes, pg, stop=rng.choice([.003, .02]), deepest=rng.choice([3, 10, 25]))


def count(t):
  return sum(1 + count(n[3]) for n in t)


def text_len(t):
  return sum(len(n[1]) + text_len(n[3]) for n in t)
