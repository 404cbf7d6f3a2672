"""Remembers the results of the two expensive numerical functions.

The first call with given arguments runs the real code; later calls with equal
arguments (in any simulated process) return a copy of that result.  Functions
that are not found under these names are simply not remembered.
"""

import copy
import hashlib
import pickle

_cache = {}

FUNCTIONS = {
    'hand_eye_calibration.time_alignment':
        ['calculate_time_offset', 'compute_aligned_poses'],
    'hand_eye_calibration.dual_quaternion_hand_eye_calibration':
        ['compute_hand_eye_calibration_RANSAC',
         'compute_hand_eye_calibration_BASELINE'],
}


def plain(value):
  """Something that pickles to the same bytes for equal values."""
  if hasattr(value, 'dq'):
    return ('dq', value.dq.tobytes())
  if hasattr(value, 'q') and not isinstance(value, dict):
    return ('q', value.q.tobytes())
  if hasattr(value, 'tobytes') and hasattr(value, 'shape'):
    return ('array', value.shape, str(value.dtype), value.tobytes())
  if isinstance(value, (list, tuple)):
    return [plain(v) for v in value]
  if isinstance(value, dict):
    return [(k, plain(v)) for k, v in sorted(value.items())]
  if hasattr(value, '__dict__'):
    return (type(value).__name__, plain(vars(value)))
  return value


def freeze(value):
  """Results may contain dual quaternions of a module that is dropped."""
  if hasattr(value, 'dq'):
    return ('dq', value.dq.copy())
  if isinstance(value, tuple):
    return ('tuple', [freeze(v) for v in value])
  return ('value', copy.deepcopy(value))


def thaw(value, module):
  kind, data = value
  if kind == 'dq':
    return module.DualQuaternion.from_vector(data.copy())
  if kind == 'tuple':
    return tuple(thaw(v, module) for v in data)
  return copy.deepcopy(data)


def attach(k, record=None):
  """Installs the memory in a kernel; record(name, result) sees every call."""
  def hook(module):
    for name in FUNCTIONS[module.__name__]:
      func = getattr(module, name, None)
      if func is None:
        continue
      setattr(module, name, wrap(module, name, func, record))
  for module in FUNCTIONS:
    k.module_hooks[module] = hook


def wrap(module, name, func, record):
  def remembered(*args, **kwargs):
    key = hashlib.sha256(pickle.dumps(
        (name, plain(args), plain(kwargs)))).digest()
    if key not in _cache:
      try:
        _cache[key] = ('return', freeze(func(*args, **kwargs)))
      except Exception as e:
        _cache[key] = ('raise', (type(e), [str(a) for a in e.args]))
    kind, value = _cache[key]
    if kind == 'raise':
      raise value[0](*value[1])
    result = thaw(value, module)
    if record is not None:
      record(name, result)
    return result
  remembered.__name__ = name
  return remembered
