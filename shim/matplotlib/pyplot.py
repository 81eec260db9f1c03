"""Stand-in: records the calls made on axes."""
CALLS = []


class _Axis:

  def __init__(self, index):
    self.index = index

  def __getattr__(self, name):
    def call(*args, **kwargs):
      CALLS.append((self.index, name, args, kwargs))
    return call


def subplots(rows=1, cols=1, **kwargs):
  return None, [_Axis(i) for i in range(rows * cols)]
