"""Things several checks share."""

import io
import json
import os

import numpy as np

from sim import kernel

BIN = kernel.REPO + '/hand_eye_calibration/bin/'
SCRIPTS = kernel.REPO + '/hand_eye_calibration/scripts/'
EXP_BIN = kernel.REPO + '/hand_eye_calibration_experiments/bin/'


def violation(kind, what, *args):
  return {'kind': kind, 'what': what % args if args else what}


def call(k, label, func, seed=None):
  """Call func() as a simulated process; (value, Result)."""
  box = {}

  def body():
    box['value'] = func()
  result = k.run_function(label, body, seed)
  return box.get('value'), result


def csv_text(rows):
  out = io.StringIO()
  for row in rows:
    out.write(', '.join(repr(float(v)) for v in row) + '\n')
  return out.getvalue()


def write_text(k, path, text):
  """Harness write, stamped with the simulated clock."""
  full = path if path.startswith('/') else k.path(path)
  with kernel.real.open(full, 'w') as f:
    f.write(text)
  k.touch(full)


def read_bytes(path):
  try:
    with kernel.real.open(path, 'rb') as f:
      return f.read()
  except (FileNotFoundError, NotADirectoryError):
    return None


def parse_csv(data):
  """Rows of a numeric csv file; None if it is not one."""
  if data is None:
    return None
  try:
    text = data.decode('ascii')
    if text and not text.endswith('\n'):
      return None
    rows = [[float(v) for v in line.split(',')]
            for line in text.splitlines() if line.strip()]
  except (ValueError, UnicodeDecodeError):
    return None
  if rows and len(set(len(r) for r in rows)) != 1:
    return None
  return rows


def table(data, name, shape=None):
  """Rows of a numeric csv file that has to be there."""
  rows = None if data is None else parse_csv(data)
  if rows is None or not rows or \
      (shape is not None and np.shape(rows) not in shape):
    raise kernel.Unusable('%s is not there or not the expected table: %r' % (
        name, None if data is None else data[:200]))
  return rows


def calibration(data, name):
  """A calibration file that has to be there, {} for what is missing in it."""
  try:
    calib = json.loads(data.decode())
    values = [calib['translation'][c] for c in 'xyz'] + \
        [calib['rotation'][c] for c in 'ijkw'] + [calib['delay']]
    if all(isinstance(v, (int, float)) for v in values):
      return calib
  except (AttributeError, ValueError, KeyError, TypeError):
    pass
  raise kernel.Unusable('%s is not there or not a calibration: %r' % (
      name, None if data is None else data[:400]))


def snapshot(root):
  """All files below root: {relative path: bytes}."""
  files = {}
  for base, dirs, names in os.walk(root):
    dirs.sort()
    for name in sorted(names):
      path = os.path.join(base, name)
      files[os.path.relpath(path, root)] = read_bytes(path)
  return files


def tail(text, n=6):
  return '\n'.join((text or '').strip().splitlines()[-n:])
