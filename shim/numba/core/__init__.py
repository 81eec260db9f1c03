from . import errors
from . import extending
from . import utils
from .. import types
