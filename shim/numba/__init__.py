"""Pure-Python stand-in for numba (not installed in this sandbox).

Every decorator is the identity, typed containers are the builtin containers,
so the code of r_u_sure that is written to be "jitable" runs as the plain
Python that it is.  `overload` records its implementations (see OVERLOADS) and
otherwise leaves the pure-Python function in charge, which is exactly numba's
behaviour outside of compiled code.
"""
import contextlib as _contextlib

from . import types
from .types import typeof_value as _typeof_value

OVERLOADS = {}

int8 = types.NumberClass("int8")
int16 = types.NumberClass("int16")
int32 = types.NumberClass("int32")
int64 = types.NumberClass("int64")
uint64 = types.NumberClass("uint64")
float32 = types.NumberClass("float32")
float64 = types.NumberClass("float64")
boolean = types.NumberClass("boolean")
void = types.NumberClass("void")


def _maybe_decorator(*args, **kwargs):
  del kwargs
  if len(args) == 1 and callable(args[0]) and not isinstance(
      args[0], types.Type
  ):
    return args[0]
  return lambda fn: fn


njit = _maybe_decorator
jit = _maybe_decorator
generated_jit = _maybe_decorator
prange = range


def typeof(value):
  return _typeof_value(value)


def optional(inner):
  return types.Type(("optional", inner))


@_contextlib.contextmanager
def objmode(*args, **kwargs):
  del args, kwargs
  yield


literal_unroll = lambda x: x


class config:  # pylint: disable=invalid-name
  FULL_TRACEBACKS = False
  NUMBA_CAPTURED_ERRORS = ""
  DEVELOPER_MODE = 0
  DISABLE_JIT = True


from . import core  # pylint: disable=wrong-import-position
from . import extending  # pylint: disable=wrong-import-position
from . import typed  # pylint: disable=wrong-import-position

__version__ = "0.0-verif-shim"
