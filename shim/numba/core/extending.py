def overload_method(*args, **kwargs):
  del args, kwargs
  return lambda fn: fn


def overload(fn, **kwargs):
  from .. import extending  # pylint: disable=g-import-not-at-top
  return extending.overload(fn, **kwargs)
