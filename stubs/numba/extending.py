OVERLOADS = {}


def overload(fn, *args, **kwargs):
  def deco(g):
    OVERLOADS[fn] = g
    return g

  return deco


def overload_method(*args, **kwargs):
  def deco(g):
    return g

  return deco


def register_jitable(*args, **kwargs):
  if len(args) == 1 and not kwargs and callable(args[0]):
    return args[0]

  def deco(fn):
    return fn

  return deco


def intrinsic(*args, **kwargs):
  if len(args) == 1 and not kwargs and callable(args[0]):
    return args[0]
  return lambda fn: fn


class _TypeofImpl:
  def __init__(self):
    self.registry = {}

  def register(self, cls):
    def deco(fn):
      self.registry[cls] = fn
      return fn

    return deco


typeof_impl = _TypeofImpl()
