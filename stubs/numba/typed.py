import numba


class List(list):
  """numba.typed.List stand-in; slices stay typed, as in numba."""

  def __init__(self, *args):
    super().__init__(*args)
    self._item_type = None

  @classmethod
  def empty_list(cls, item_type, allocated=0):
    result = cls()
    result._item_type = item_type
    return result

  def __class_getitem__(cls, item):
    return cls

  @property
  def _numba_type_(self):
    item = self._item_type
    if item is None:
      item = numba.typeof(self[0]) if len(self) else numba._Type("undefined")
    return numba._Type(f"ListType[{item!r}]", item_type=item)

  def __getitem__(self, index):
    result = super().__getitem__(index)
    if isinstance(index, slice):
      out = List(result)
      out._item_type = self._item_type
      return out
    return result

  def copy(self):
    out = List(self)
    out._item_type = self._item_type
    return out


class Dict(dict):
  """numba.typed.Dict stand-in."""

  @classmethod
  def empty(cls, key_type=None, value_type=None, n_keys=0):
    return cls()

  def __class_getitem__(cls, item):
    return cls

  def copy(self):
    return Dict(self)
