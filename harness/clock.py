"""A clock that advances by a fixed step per reading, so that time limits do not depend on the machine."""
import functools, time

NAMES = ['perf_counter', 'monotonic', 'time', 'process_time']


class Clock:
  """Each reading advances it by the next step."""

  def __init__(self, steps):
    self.now, self.steps, self.i = 100.0, steps, 0

  def __call__(self):
    self.now += self.steps[self.i % len(self.steps)]
    self.i += 1
    return self.now


def steady(observe, step=.25):
  @functools.wraps(observe)
  def run(inp):
    real = {n: getattr(time, n) for n in NAMES}
    clock = Clock([step])
    try:
      for n in NAMES:
        setattr(time, n, clock)
      return observe(inp)
    finally:
      for n in NAMES:
        setattr(time, n, real[n])
  return run
