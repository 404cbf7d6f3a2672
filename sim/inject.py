"""Faults placed by counting operations of a class while a program runs."""

CLASSES = {
    'any': None,
    'write': ('write',),
    'change': ('write', 'open-w', 'open-a', 'rename', 'replace', 'mkdir',
               'unlink', 'truncate', 'fsync', 'link'),
    'read': ('read', 'open-r'),
    'rename': ('rename', 'replace'),
    'spawn': ('spawn',),
    'task': ('task', 'task-done'),
}

# Which kinds of faults make sense for which operations.
KINDS = {
    'any': ['crash', 'crash', 'kill', 'clock'],
    'write': ['torn', 'tornkill', 'enospc', 'eio', 'short', 'full'],
    'change': ['enospc', 'eio', 'full', 'crash', 'kill'],
    'read': ['eio', 'eacces', 'short'],
    'rename': ['crash', 'kill', 'eio', 'enospc'],
    'spawn': ['eagain', 'crash'],
}


class Injector(object):
  """Attaches the faults of a plan to the n-th operation of their class.

  A fault is {'cls', 'nth', 'kind', ...}; nth counts from the construction of
  the injector on.  'only', if given, is a part of the name of the process,
  'path' a part of the path of the file.
  """

  def __init__(self, k, specs, also=None):
    self.k = k
    self.specs = list(specs)
    self.counts = [0] * len(self.specs)
    self.also = also
    self.hit = []  # Operations a fault was attached to.
    k.op_listener = self

  def __call__(self, record):
    if self.also is not None:
      self.also(record)
    number, label, kind = record[:3]
    for i, spec in enumerate(self.specs):
      kinds = CLASSES[spec['cls']]
      if kinds is not None and kind not in kinds:
        continue
      if spec.get('only') and spec['only'] not in label:
        continue
      if spec.get('path') and spec['path'] not in str(record[3]):
        continue
      if self.counts[i] == spec['nth'] and number not in self.k.faults:
        self.k.faults[number] = dict(spec, op=number)
        self.hit.append(record)
      self.counts[i] += 1

  def stop(self):
    self.k.op_listener = None
    self.k.disk_full = False


def random_fault(rng, span, classes=None, jump=(1.0, 1e5)):
  """span: {class: about how many operations of it a run has}."""
  cls = rng.choice(classes or ['any', 'write', 'change', 'read', 'rename',
                               'spawn'])
  fault = {'cls': cls, 'nth': rng.randrange(max(1, span[cls])),
           'kind': rng.choice(KINDS[cls]),
           'frac': rng.choice([0.0, 0.2, 0.5, 0.9, 1.0])}
  if fault['kind'] == 'clock':
    fault['jump'] = rng.choice(jump)
  return fault
