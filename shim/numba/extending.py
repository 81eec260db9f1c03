"""numba.extending of the stand-in."""
from . import types as _types


def register_jitable(*args, **kwargs):
  del kwargs
  if len(args) == 1 and callable(args[0]):
    return args[0]
  return lambda fn: fn


def overload(fn, **kwargs):
  del kwargs

  def decorator(impl_factory):
    import numba  # pylint: disable=g-import-not-at-top
    numba.OVERLOADS.setdefault(
        getattr(fn, "__qualname__", repr(fn)), []
    ).append(impl_factory)
    return impl_factory

  return decorator


def overload_method(*args, **kwargs):
  del args, kwargs
  return lambda fn: fn


class _TypeofImpl:

  def register(self, cls):

    def decorator(fn):
      _types._IMPLS[cls] = fn  # pylint: disable=protected-access
      return fn

    return decorator


typeof_impl = _TypeofImpl()


def intrinsic(*args, **kwargs):
  del kwargs
  if len(args) == 1 and callable(args[0]):
    return args[0]
  return lambda fn: fn
