class _Ax:
  def __getattr__(self, name):
    return lambda *a, **k: None


def subplots(n, m, **kwargs):
  return None, [_Ax() for _ in range(n * m)]
