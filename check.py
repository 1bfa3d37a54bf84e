#!/usr/bin/env python3
"""Entry point: check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]."""
import argparse, importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from harness import common  # noqa


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                  choices=['quick', 'thorough'])
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED', '1')))
  ap.add_argument('--replay')
  a = ap.parse_args()
  ctx = common.Ctx(a.prop, a.tier, a.seed)
  try:
    if a.replay:
      with open(a.replay) as f:
        b = json.load(f)
      common.conform(ctx, b['driver'], b['module'], [b['case']['in']],
                     cfg=b.get('cfg'), env=b.get('env'))
    else:
      mod = importlib.import_module('harness.checks.' + a.prop.lower())
      mod.run(ctx)
    rc = common.finish(ctx)
  except common.Enough:
    rc = common.finish(ctx)
  except common.MachineryError as e:
    if ctx.bad:
      rc = common.finish(ctx)
    else:
      print('MACHINERY ERROR:', e)
      rc = 2
  except Exception:
    traceback.print_exc()
    rc = 2
  finally:
    ctx.close()
  sys.exit(rc)


if __name__ == '__main__':
  main()
