"""Observes the conversion of source text to suggestion trees."""
from r_u_sure.parsing import sequence_from_pseudo_parse as conv
from r_u_sure.parsing import subtokenizer
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
from r_u_sure.parsing.pseudo_parser import utilities as ut
from r_u_sure.wrappers import parser_tools
from harness.gen_text import text, cps
from harness.trees import to_json


def observe(inp):
  code, lang = text(inp['text']), inp['lang']
  spi = ut.infer_python_spaces_per_indent(code) if lang == 'python' else 1
  root, _, types, raws, _ = sp.PseudoParser.parse_and_maybe_preprocess(
      language=lang, code=code, spaces_per_indent=spi)
  f = conv.pseudo_parse_node_to_nested_sequence_node
  return {
      'spi': spi,
      'nodes': to_json(parser_tools.ParserHelper(lang).parse_to_nodes(code)),
      'flat': to_json(parser_tools.ParserHelper(lang, flatten=True).parse_to_nodes(code)),
      'default': to_json(f(root, raws, types)),
      'custom': to_json(f(root, raws, types,
                          decoration_node_types={sp.NodeType[x] for x in inp['decor']},
                          subtokenize_node_types={sp.NodeType[x] for x in inp['sub']})),
      'raw': to_json(parser_tools.ParserHelper('raw_simple_tokens').parse_to_nodes(code)),
      'subs': [cps(s) for s in subtokenizer.code_to_tokens_simple_lossless(code)],
  }
