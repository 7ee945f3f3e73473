"""Stand-in for IPython.display: records what would be shown."""
SHOWN = []


class HTML:

  def __init__(self, data=None):
    self.data = data


class SVG(HTML):
  pass


class Javascript(HTML):
  pass


def display(*objs, **_):
  SHOWN.extend(objs)
