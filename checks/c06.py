"""C06: calibration results depend only on the input recordings."""

import hashlib
import os
import random
import re
import subprocess
import sys

import numpy as np

from checks.common import BIN, csv_text, read_bytes, tail
from checks.common import violation, write_text
from sim import geom, kernel, pairs, world
from sim.inject import Injector
from sim.kernel import Kernel

ID = 'C06'
RUNS = {'quick': 700, 'thorough': 9000}
RULE = ('the alignment or the calibration tool runs on one of %d simulated '
        'inputs in a varied environment and is compared, byte by byte, with '
        'its run in the reference environment; non-trivial: at least one '
        'environment variation; distinct by history hash')
STATE_MEASURE = '(tool, input, set of varied environment aspects)'
REAL = ['bin/compute_aligned_poses.py', 'bin/compute_hand_eye_calibration.py '
        'and everything below them']
STUB = ['input recordings (simulated)', 'clock, random generators, file system '
        'behaviour (simulated)', 'tf (not installed; simulated module)',
        'display (matplotlib without a screen)']
ASSUMPTIONS = ['same interpreter, libraries and machine']
PROBES = ['align', 'calibrate', 'stale', 'session', 'hashseed', 'read_split',
          'short', 'cwd', 'clock', 'failing_input', 'replaced',
          'displayed']

NDATA = 24
RULE = RULE % NDATA

STALE = ['garbage', 'long', 'empty', 'valid', 'tmp', 'binary', 'other', 'other']


def gen(rng, tier):
  plan = {'tool': rng.choice(['align', 'calibrate', 'calibrate']),
          'data': rng.randrange(NDATA), 'seed': rng.getrandbits(30),
          'clock0': 1.7e9, 'tick': 1e-3, 'clock_cost': 1e-6, 'cwd': '',
          'absolute': False, 'stale': '', 'read_chunk': None, 'blksize': 8192,
          'faults': [], 'session': [], 'hashseed': None, 'earlier': None,
          'display': False}
  if rng.random() < 0.03:
    plan['hashseed'] = rng.randrange(1, 4000000)
    return plan
  for aspect in rng.sample(['clock', 'cwd', 'stale', 'read', 'blksize',
                            'faults', 'session', 'earlier', 'display'],
                           rng.choice([1, 2, 3, 9])):
    if aspect == 'clock':
      plan['clock0'] = rng.choice([0.0, 1e8, 4.2e9])
      plan['tick'] = rng.choice([1e-6, 1.0, 3600.0])
      plan['clock_cost'] = rng.choice([1e-9, 0.5, 300.0, 1e5])
      plan['faults'] += [{'op': rng.randrange(60), 'kind': 'clock',
                          'jump': rng.choice([-1e6, -5.0, 1e7])}]
    elif aspect == 'cwd':
      plan['cwd'] = rng.choice(['elsewhere', 'a b/c', 'x/../y'])
      plan['absolute'] = rng.random() < 0.5
    elif aspect == 'stale':
      plan['stale'] = rng.choice(STALE)
    elif aspect == 'read':
      plan['read_chunk'] = rng.choice([1, 7, 64, 1000])
    elif aspect == 'blksize':
      plan['blksize'] = rng.choice([1, 64, 1000, 65536])
    elif aspect == 'faults':
      plan['faults'] += [{'op': rng.randrange(60), 'kind': 'short',
                          'frac': rng.choice([0.0, 0.3, 0.9])}
                         for _ in range(rng.choice([1, 4, 10]))]
    elif aspect == 'display':
      plan['display'] = True
    elif aspect == 'earlier':
      plan['earlier'] = {'data': rng.randrange(NDATA),
                         'process': rng.random() < 0.5,
                         'stamp': rng.choice(['now', 'now', 'kept', 'old'])}
    else:
      plan['session'] = [[rng.choice(['align', 'calibrate']),
                          rng.randrange(NDATA)]
                         for _ in range(rng.choice([1, 2]))]
  return plan


def inputs(tool, data):
  rng = random.Random('%s-%d' % (tool, data))
  if tool == 'align':
    motion = world.Trajectory(1000 + data, 1.5, 5.0, speed=1.4)
    files = {}
    for i, (name, frame) in enumerate((('a.csv', geom.P_IDENTITY),
                                       ('b.csv', geom.random_pose(rng, 1.0)))):
      spec = {'rate': rng.choice([10, 14, 18]), 't0': rng.uniform(0, 1.0),
              't1': 6.5 - rng.uniform(0, 1.0), 'clock': i * 12.5,
              'jitter': rng.choice([0, 0.2]), 'drop': rng.choice([0, 0.1]),
              'dup': rng.choice([0, 0.05])}
      rows = world.Sensor(spec, data * 2 + i).record(
          motion, geom.random_pose(rng, 0.3), frame)
      files[name] = csv_text(rows)
    return files
  n = 45 if data % 6 == 4 else 20
  outliers = rng.sample(range(n), rng.choice([0, 2, 4]))
  if data % 8 == 7:
    outliers = list(range(n))  # Calibration fails.
  p = pairs.Pairs({'seed': 77 + data, 'n': n, 'outliers': outliers,
                   'noise': rng.choice([0.0, 1e-4])})
  files = {'offset.csv': '%.18f\n' % rng.uniform(-5, 5)}
  for name, poses in (('a.csv', p.A), ('b.csv', p.B)):
    files[name] = csv_text(np.concatenate([[i / 10.0], pose])
                           for i, pose in enumerate(poses))
  return files


OUTPUTS = {'align': ['aa.csv', 'ab.csv', 'offset_out.csv'],
           'calibrate': ['pose.csv', 'calib.json']}


def command(tool, prefix):
  if tool == 'align':
    return BIN + 'compute_aligned_poses.py', [
        '--poses_B_H_csv_file', prefix + 'a.csv',
        '--poses_W_E_csv_file', prefix + 'b.csv',
        '--aligned_poses_B_H_csv_file', prefix + 'aa.csv',
        '--aligned_poses_W_E_csv_file', prefix + 'ab.csv',
        '--time_offset_output_csv_file', prefix + 'offset_out.csv']
  return BIN + 'compute_hand_eye_calibration.py', [
      '--aligned_poses_B_H_csv_file', prefix + 'a.csv',
      '--aligned_poses_W_E_csv_file', prefix + 'b.csv',
      '--extrinsics_output_csv_file', prefix + 'pose.csv',
      '--time_offset_input_csv_file', prefix + 'offset.csv',
      '--calibration_output_json_file', prefix + 'calib.json']


def outcome(k, tool, res):
  files = {}
  for name in OUTPUTS[tool]:
    files[name] = read_bytes(k.path('work', name))
  return (res.code, files)


def stale_text(kind, name, rng):
  if kind == 'garbage':
    return 'not, a, number\n{'
  if kind in ('long', 'tmp'):
    return '1, 2, 3, 4, 5, 6, 7, 8\n' * 5000
  if kind == 'valid':
    return ('{"delay": 3.0, "rotation": {"i": 0, "j": 0, "k": 0, "w": 1}, '
            '"translation": {"x": 9, "y": 9, "z": 9}}'
            if name.endswith('json') else '0.5, 9.5, 0, 0, 0, 0, 0, 1\n' * 3)
  if kind == 'binary':
    return ''.join(chr(rng.randrange(1, 255)) for _ in range(3000))
  return ''


def execute(tool, data, plan):
  """Runs the tool in the environment of the plan; (kernel, outcome, out)."""
  faults = [f for f in plan['faults']]
  if plan['stale'] == 'other':
    other_outputs = reference(tool, (data + 1 + plan['seed'] % 5) % NDATA)[1]
  with Kernel(seed=plan['seed'], clock0=plan['clock0'], tick=plan['tick'],
              blksize=plan['blksize'], faults=faults) as k:
    k.clock_cost = plan['clock_cost']
    os.makedirs(k.path('work'))
    for name, text in inputs(tool, data).items():
      write_text(k, 'work/' + name, text)
    if plan['stale']:
      rng = random.Random(plan['seed'])
      for name in OUTPUTS[tool]:
        target = name + '.tmp' if plan['stale'] == 'tmp' else name
        text = stale_text(plan['stale'], name, rng)
        if plan['stale'] == 'other':
          # The results of an earlier run on other recordings.
          text = (other_outputs[name] or b'').decode('latin-1')
        write_text(k, 'work/' + target, text)
      k.fire('stale_output')
    for i, (other, number) in enumerate(plan['session']):
      os.makedirs(k.path('s%d' % i))
      for name, text in inputs(other, number).items():
        write_text(k, 's%d/%s' % (i, name), text)
    cwd = k.path('work')
    prefix = ''
    if plan['cwd']:
      cwd = k.path(plan['cwd'].split('/..')[0])
      os.makedirs(cwd, exist_ok=True)
      prefix = os.path.relpath(k.path('work'), cwd) + '/'
      k.fire('other_cwd')
    if plan['absolute']:
      prefix = k.path('work') + '/'
    k.read_chunk = plan['read_chunk']
    if k.read_chunk:
      k.fire('split_reads')

    def before():
      # The same command on other recordings, which are then replaced.
      os.chdir(cwd)
      try:
        k.exec_script(*command(tool, prefix))
      except (Exception, SystemExit):
        pass

    def replace_inputs():
      k.fire('inputs_replaced')
      for name, text in inputs(tool, data).items():
        status = kernel.real.stat(k.path('work', name))
        write_text(k, 'work/' + name, text)
        if plan['earlier']['stamp'] != 'now':
          age = 0 if plan['earlier']['stamp'] == 'kept' else 10 ** 14
          ns = status.st_mtime_ns - age
          kernel.real.utime(k.path('work', name), ns=(ns, ns))

    earlier = plan.get('earlier')
    if earlier:
      for name, text in inputs(tool, earlier['data']).items():
        write_text(k, 'work/' + name, text)
      if earlier['process']:
        k.run_function(tool, before, seed=plan['seed'])
        replace_inputs()

    if plan['stale'] == 'tmp':
      # What an earlier run that was killed left behind, and more.
      inject = Injector(k, [{'cls': 'rename', 'nth': plan['seed'] % 3,
                             'kind': 'kill'}])
      k.run_function(tool, before, seed=plan['seed'])
      inject.stop()
      known = set(inputs(tool, data)) | set(OUTPUTS[tool])
      for name in sorted(set(os.listdir(k.path('work'))) - known):
        if os.path.isfile(k.path('work', name)):
          write_text(k, 'work/' + name, stale_text('long', name, rng))
          k.fire('stale_leftover')
    if plan['seed'] % 4 == 0:
      for name in inputs(tool, data):
        kernel.real.utime(k.path('work', name), ns=(10 ** 18, 10 ** 18))
      k.fire('equal_stamps')

    def body():
      os.chdir(cwd)
      if earlier and not earlier['process']:
        before()
        replace_inputs()
      for i, (other, number) in enumerate(plan['session']):
        k.fire('earlier_calibration')
        try:
          k.exec_script(*command(other, k.path('s%d' % i) + '/'))
        except (Exception, SystemExit):
          pass
      script, argv = command(tool, prefix)
      if plan['display']:
        k.fire('displayed')
        argv = argv + ['--visualize', 'True']
      k.exec_script(script, argv)
    res = k.run_function(tool, body, seed=plan['seed'])
    if plan['display']:
      plt = sys.modules.get('matplotlib.pyplot')
      if plt is not None:
        plt.close('all')
    result = outcome(k, tool, res)
    leftovers = sorted(set(os.listdir(k.path('work'))) -
                       set(inputs(tool, data)) - set(OUTPUTS[tool]) -
                       set(n + '.tmp' for n in OUTPUTS[tool]))
  return k, result, leftovers, res.out


REFERENCE_PLAN = {'seed': 1, 'clock0': 1.7e9, 'tick': 1e-3,
                  'clock_cost': 1e-6, 'cwd': '', 'absolute': False,
                  'stale': '', 'read_chunk': None, 'blksize': 8192,
                  'faults': [], 'session': [], 'earlier': None,
                  'display': False}
_reference = {}


def reference(tool, data):
  key = (tool, data)
  if key not in _reference:
    k, result, leftovers, out = execute(tool, data, REFERENCE_PLAN)
    _reference[key] = result
  return _reference[key]


def digest(result):
  return hashlib.sha256(repr((result[0], sorted(result[1].items())))
                        .encode()).hexdigest()


def in_other_process(tool, data, hashseed):
  env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  code = ('import sys; sys.path.insert(0, %r)\n'
          'from sim import kernel\nkernel.install()\nfrom checks import c06\n'
          'print("digest", c06.digest(c06.reference(%r, %d)))' % (
              here, tool, data))
  res = kernel.real.Popen([sys.executable, '-W', 'ignore', '-c', code], env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  text = res.communicate()[0].decode()
  lines = [l for l in text.splitlines() if l.startswith('digest ')]
  if res.returncode != 0 or len(lines) != 1:
    raise kernel.HarnessError('helper process failed:\n%s' % text)
  return lines[0].split()[1]


def close(one, other):
  """Equal apart from the rounding of numbers."""
  if one is None or other is None:
    return one is other
  pattern = rb'[-+]?[0-9]+(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?'
  if re.sub(pattern, b'#', one) != re.sub(pattern, b'#', other):
    return False
  return all(abs(float(a) - float(b)) <= 1e-9 for a, b in
             zip(re.findall(pattern, one), re.findall(pattern, other)))


def run(plan, stats):
  stats.evaluations += 1
  tool, data = plan['tool'], plan['data']
  stats.probe(tool)
  stats.nontrivial_now()
  expected = reference(tool, data)
  if expected[0] != 0:
    stats.probe('failing_input')
  if plan['hashseed'] is not None:
    stats.probe('hashseed')
    stats.fired['other_hash_seed'] += 1
    other = in_other_process(tool, data, plan['hashseed'])
    stats.note(tool, data, other)
    stats.state(tool, data, 'hashseed')
    if other != digest(expected):
      return violation('hash', 'the %s tool gives another result on input %d '
                       'with PYTHONHASHSEED=%d', tool, data, plan['hashseed'])
    return None
  k, result, leftovers, out = execute(tool, data, plan)
  k.note(digest(result))
  stats.kernel(k)
  for name, on in (('stale', plan['stale']), ('session', plan['session']),
                   ('read_split', plan['read_chunk']), ('cwd', plan['cwd']),
                   ('short', k.fired['short_read'] + k.fired['short_write']),
                   ('clock', plan['clock0'] != 1.7e9),
                   ('replaced', plan['earlier']),
                   ('displayed', plan['display'])):
    if on:
      stats.probe(name)
  stats.state(tool, data, plan['stale'], bool(plan['session']), plan['cwd'],
              plan['read_chunk'], plan['blksize'], plan['clock0'])
  if result[0] != expected[0]:
    return violation('status', 'the %s tool on input %d ends with status %s '
                     'instead of %s:\n%s', tool, data, result[0], expected[0],
                     tail(out, 8))
  if expected[0] == 0:
    for name in OUTPUTS[tool]:
      if plan['display'] and close(result[1][name], expected[1][name]):
        continue
      if result[1][name] != expected[1][name]:
        return violation('differs', 'the %s tool on input %d writes another %s',
                         tool, data, name)
  return None


def shrink(plan):
  for key, value in (('session', []), ('earlier', None), ('display', False),
                     ('stale', ''), ('cwd', ''),
                     ('absolute', False), ('read_chunk', None),
                     ('blksize', 8192), ('clock0', 1.7e9), ('tick', 1e-3),
                     ('clock_cost', 1e-6)):
    if plan[key] != value:
      yield dict(plan, **{key: value})
  for i in range(len(plan['faults'])):
    yield dict(plan, faults=plan['faults'][:i] + plan['faults'][i + 1:])
