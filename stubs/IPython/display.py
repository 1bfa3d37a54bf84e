"""Records what would be displayed."""
SHOWN = []


class _Shown:
  def __init__(self, data=None, url=None, filename=None, **kwargs):
    self.data, self.url = data, url


class HTML(_Shown):
  pass


class SVG(_Shown):
  pass


class Javascript(_Shown):
  pass


def display(*args, **kwargs):
  SHOWN.extend(args)
