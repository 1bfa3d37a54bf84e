"""Observes truncation, indent-width and docstring inference."""
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
from r_u_sure.parsing.pseudo_parser import utilities as ut
from harness.gen_text import text


PAIRS = {'braces': ('{', '}'), 'parens': ('(', ')'), 'squares': ('[', ']'),
         'blocks': (sp.TokenType.PYTHON_INDENT, sp.TokenType.PYTHON_DEDENT)}


def none(x):
  return -1 if x is None else int(x)


def observe(inp):
  code, lang = text(inp['text']), inp['lang']
  mode = inp['mode']
  if mode == 'trunc':
    spi = inp['spi'] or (
        ut.infer_python_spaces_per_indent(code) if lang == 'python' else 1)
    root, _, types, raws, _ = sp.PseudoParser.parse_and_maybe_preprocess(
        language=lang, code=code, spaces_per_indent=spi)
    return {
        'spi': spi,
        'trunc': [none(ut.infer_truncation_with_fallbacks(
            code=code, cursor_position=c, language=lang,
            spaces_per_indent=inp['spi'] or None)) for c in range(len(code) + 1)],
        'pair': [none(ut.infer_match_pair_truncation_index(
            root=root, tokens_raw=raws, token_types=types, match_pair=None,
            cursor_position=c)) for c in range(len(code) + 1)],
        'sep': [none(ut.infer_split_truncation_index(
            root=root, tokens_raw=raws, splitters=None,
            cursor_position=c)) for c in range(len(code) + 1)],
        'kind': [none(ut.infer_match_pair_truncation_index(
            root=root, tokens_raw=raws, token_types=types, match_pair=PAIRS[inp['kind']],
            cursor_position=c)) for c in range(len(code) + 1)],
        'seps': [none(ut.infer_split_truncation_index(
            root=root, tokens_raw=raws, splitters=tuple(text(x) for x in inp['seps']),
            cursor_position=c)) for c in range(len(code) + 1)],
    }
  if mode == 'indent':
    return {'width': ut.infer_python_spaces_per_indent(code),
            'width2': ut.infer_python_spaces_per_indent(
                code, candidate_spaces_per_indent=tuple(inp['cands']))}
  docs = list(ut.find_python_function_docstrings(code))
  return {'spi': ut.infer_python_spaces_per_indent(code), 'docs': docs,
          'ends': [none(ut.infer_truncation_pydocstring(code, d)) for d in docs]}
