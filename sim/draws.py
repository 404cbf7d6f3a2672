"""The random draws of a sampler as part of the plan.

Inside a simulated process, calls of the global random functions are counted,
and random.sample can be scripted: repeated, biased towards given elements, or
confined to a window.  Everything else follows the seeded generator.
"""

import hashlib
import random

import numpy as np

RANDOM_NAMES = ('sample', 'choice', 'choices', 'randrange', 'randint',
                'shuffle', 'uniform', 'random', 'gauss', 'getrandbits')
NUMPY_NAMES = ('choice', 'randint', 'permutation', 'shuffle', 'rand', 'uniform',
               'random_sample', 'random', 'randn')


class TooManyDraws(BaseException):
  pass


class Draws(object):

  def __init__(self, spec, limit=None):
    self.spec = spec
    self.limit = limit
    self.count = 0
    self.depth = 0
    self.log = []
    self.digest = hashlib.sha256()

  def hash(self):
    return self.digest.hexdigest()[:16]

  def __enter__(self):
    self.saved = []
    for module, names in ((random, RANDOM_NAMES), (np.random, NUMPY_NAMES)):
      for name in names:
        func = getattr(module, name)
        self.saved.append((module, name, func))
        setattr(module, name, self.wrap(module is random, name, func))
    return self

  def __exit__(self, *exc):
    for module, name, func in self.saved:
      setattr(module, name, func)
    return False

  def wrap(self, std, name, func):
    def seam(*args, **kwargs):
      if self.depth:
        return func(*args, **kwargs)
      self.count += 1
      if self.limit is not None and self.count > self.limit:
        raise TooManyDraws()
      self.depth += 1
      try:
        if std and name == 'sample' and len(args) == 2 and not kwargs:
          value = self.sample(func, *args)
        else:
          value = func(*args, **kwargs)
      finally:
        self.depth -= 1
      return value
    return seam

  def sample(self, func, population, k):
    mode = self.spec.get('mode', 'seeded')
    value = func(population, k)
    n = len(population)
    if mode == 'stuck':
      # The same draw again and again, changing every 'period' draws.
      period = self.spec.get('period', 50)
      if self.log and (self.count - 1) % period:
        value = list(self.log[-1])
    elif mode == 'favour':
      # Elements of the given list come first as often as possible.
      want = [x for x in self.spec.get('items', ()) if x in population]
      if want and random.random() < self.spec.get('p', 0.9):
        rest = [x for x in population if x not in want]
        random.shuffle(want)
        random.shuffle(rest)
        value = (want + rest)[:k]
        if self.spec.get('mixed') and k > 1 and rest:
          value = ([rest[0]] + want)[:k]
    elif mode == 'window' and n > k:
      width = max(k, self.spec.get('width', k))
      start = random.randrange(0, n - width + 1) if n > width else 0
      value = func(population[start:start + width], k)
    self.log.append(list(value))
    self.digest.update(repr(value).encode())
    if len(self.log) > 4:
      del self.log[0]
    return value
