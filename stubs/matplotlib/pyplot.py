"""Stand-in for matplotlib.pyplot: plots nothing."""


class _Axes:

  def __getattr__(self, name):
    return lambda *a, **k: None


def subplots(rows=1, cols=1, **_):
  return None, [_Axes() for _ in range(rows * cols)]
