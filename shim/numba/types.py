"""Type objects of the numba stand-in: opaque, comparable by description."""


class Type:

  def __init__(self, desc=None):
    self.desc = desc

  def __eq__(self, other):
    return type(self) is type(other) and self.desc == other.desc

  def __hash__(self):
    return hash((type(self).__name__, repr(self.desc)))

  def __repr__(self):
    return f"shimtype({self.desc!r})"

  def __getitem__(self, item):
    return Type(("array", self, repr(item)))

  def __call__(self, *args):
    if len(args) == 1:
      return args[0]
    return Type(("sig", self, args))

  @property
  def instance_type(self):
    return self


class NumberClass(Type):
  pass


class TypeRef(Type):
  pass


class Literal(Type):
  pass


class EnumMember(Type):
  pass


class IntEnumMember(Type):
  pass


class UniTuple(Type):
  pass


class Optional(Type):
  pass


unicode_type = Type("unicode")
none = Type("none")
int64 = NumberClass("int64")
float64 = NumberClass("float64")

_IMPLS = {}


def typeof_value(value):
  impl = _IMPLS.get(type(value))
  if impl is not None:
    return impl(value, None)
  return Type(("typeof", type(value).__name__))
