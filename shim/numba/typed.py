"""typed.List / typed.Dict as builtin containers."""
from . import types as _types


class List(list):
  """Stand-in for numba.typed.List."""

  class _numba_type_:  # pylint: disable=invalid-name
    item_type = _types.Type("item")

  @classmethod
  def empty_list(cls, item_type=None, allocated=0):
    del item_type, allocated
    return cls()

  def __getitem__(self, idx):
    out = list.__getitem__(self, idx)
    return List(out) if isinstance(idx, slice) else out

  def copy(self):
    return List(self)

  def __hash__(self):
    raise TypeError("unhashable type: 'List'")


class Dict(dict):
  """Stand-in for numba.typed.Dict."""

  class _numba_type_:  # pylint: disable=invalid-name
    key_type = _types.Type("key")
    value_type = _types.Type("value")

  @classmethod
  def empty(cls, key_type=None, value_type=None, n_keys=0):
    del key_type, value_type, n_keys
    return cls()

  def copy(self):
    return Dict(self)
