class Type:
  pass


class EnumMember(Type):
  pass


class IntEnumMember(Type):
  pass


class Literal(Type):
  pass


class TypeRef(Type):
  pass


class NumberClass(Type):
  pass


class UniTuple(Type):
  def __init__(self, *a, **k):
    pass


class Tuple(Type):
  def __init__(self, *a, **k):
    pass


class Optional(Type):
  def __init__(self, *a, **k):
    pass


class ListType(Type):
  def __init__(self, *a, **k):
    pass


class DictType(Type):
  def __init__(self, *a, **k):
    pass


unicode_type = Type()
