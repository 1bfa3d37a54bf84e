"""Pure-Python stand-in for the parts of `numba` that r_u_sure uses.

Numba is not installed in this sandbox.  Every function that r_u_sure compiles
with numba is ordinary Python, so this package lets the real modules of /repo
be imported and run by the interpreter.  `njit`, `jit` and `register_jitable`
return the function unchanged; typed containers are subclasses of the builtin
ones; `typeof` returns an opaque descriptor.

Overloads (`numba.extending.overload`) are recorded in `OVERLOADS`, so that
drivers can also run the body numba would substitute for a function.
"""
import contextlib as _contextlib
import types as _pytypes


def _identity_decorator(*args, **kwargs):
  if len(args) == 1 and isinstance(args[0], _pytypes.FunctionType):
    return args[0]

  def deco(fn):
    return fn

  return deco


njit = _identity_decorator
jit = _identity_decorator


class _Type:
  def __init__(self, name, **attrs):
    self.name = name
    self.__dict__.update(attrs)

  def __repr__(self):
    return f"<stubtype {self.name}>"

  def __eq__(self, other):
    return isinstance(other, _Type) and self.name == other.name

  def __hash__(self):
    return hash(self.name)

  def __call__(self, *args, **kwargs):
    if self.name.startswith(("int", "float", "bool")) and len(args) == 1:
      return {"i": int, "f": float, "b": bool}[self.name[0]](args[0])
    return _Type(f"{self.name}({args})")

  def __getitem__(self, item):
    return _Type(f"{self.name}[{item}]")


int32 = _Type("int32")
int64 = _Type("int64")
intp = _Type("int64")
float32 = _Type("float32")
float64 = _Type("float64")
boolean = _Type("bool")
bool_ = boolean
void = _Type("void")


def optional(t):
  return _Type(f"optional({t!r})")


def typeof(value):
  for cls, fn in extending.typeof_impl.registry.items():
    if isinstance(value, cls):
      return fn(value, None)
  t = _Type(f"typeof({type(value).__name__})")
  return t


@_contextlib.contextmanager
def objmode(*args, **kwargs):
  yield


prange = range

from numba import extending  # noqa: E402
from numba import core  # noqa: E402
from numba import typed  # noqa: E402
from numba import types  # noqa: E402
