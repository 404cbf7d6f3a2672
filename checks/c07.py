"""C07: result files are complete or absent; success means they were written."""

import functools
import os
import random
import re

import numpy as np

from checks import c06
from checks.common import calibration, call, parse_csv, read_bytes, table, tail
from checks.common import violation
from checks.common import write_text
from sim import geom, memo
from sim.kernel import Kernel, Parallel

ID = 'C07'
RUNS = {'quick': 5000, 'thorough': 60000}
RULE = ('the alignment tool, the calibration tool or the file functions below '
        'them write their outputs over absent or older versions while seeded '
        'crashes, torn, short and failing writes, renames and opens and full '
        'disks occur, or two processes write into one place; every instant is '
        'observed; non-trivial: a fault fired; '
        'distinct by history hash')
STATE_MEASURE = ('(tool, previous state of the outputs, fault kinds, kind of '
                 'the operation hit, which outputs are new afterwards)')
REAL = ['bin/compute_aligned_poses.py', 'bin/compute_hand_eye_calibration.py',
        'csv_io.py', 'extrinsic_calibration.py', 'bash_utils.py']
STUB = ['file system faults and crashes (simulated on a real scratch '
        'directory)', 'offset estimation and calibration are real code whose '
        'result is remembered per input', 'tf (not installed; simulated '
        'module)']
ASSUMPTIONS = ['a crash is the death of the process (or of all processes): what '
               'was handed to the operating system survives, renames are '
               'atomic']
PROBES = ['align', 'calibrate', 'api', 'crash', 'torn', 'error_status',
          'old_kept', 'mixed', 'restarted', 'disk_full', 'short', 'pair',
          'interleaved']

NDATA = 6
KINDS = ['crash', 'crash', 'kill', 'torn', 'torn', 'enospc', 'full', 'eio',
         'short', 'eacces']
WRITERS = ('write', 'open-w', 'open-a', 'rename', 'replace', 'truncate',
           'unlink', 'fsync', 'link', 'mkdir')


def gen(rng, tier):
  faults = []
  for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3])):
    faults.append({'pick': rng.getrandbits(20), 'kind': rng.choice(KINDS),
                   'frac': rng.choice([0.0, 0.3, 0.7, 0.99, 1.0]),
                   'late': rng.random() < 0.85})
  if rng.random() < 0.12:
    mode = rng.choice(['random', 'random', 'sticky', 'rr', 'lockstep'])
    return {'tool': 'pair', 'data': 0, 'seed': rng.getrandbits(30),
            'seed2': rng.getrandbits(30), 'old': 'absent',
            'blksize': rng.choice([16, 64, 512, 8192]),
            'place': rng.choice(['in', 'in dir', '.']),
            'names': rng.choice(['directory', 'stem', 'suffix', 'prefix']),
            'sched': {'mode': mode, 'seed': rng.getrandbits(30), 'p': 0.7},
            'faults': [{'kind': 'crash', 'op': rng.randrange(80)}]
                      if rng.random() < 0.3 else []}
  return {'tool': rng.choice(['align', 'calibrate', 'api', 'api']),
          'data': rng.randrange(NDATA), 'seed': rng.getrandbits(30),
          'blksize': rng.choice([1, 16, 64, 512, 8192]),
          'old': rng.choice(['absent', 'version', 'version', 'partial',
                             'near']),
          'faults': faults}


# -- file functions ------------------------------------------------------------


def api_values(seed):
  rng = random.Random('api-%s' % seed)
  n = rng.choice([1, 2, 5, 30])
  epoch = rng.choice([0.0, 1.5e9])
  rows = []
  for i in range(n):
    pose = geom.random_pose(rng, rng.choice([1.0, 1000.0]))
    rows.append([epoch + i * 0.1 + rng.random() * 0.01] + list(pose))
  return {'poses': np.array(rows),
          'array': np.array([rng.uniform(-1, 1) * 10 ** rng.randrange(-6, 7)
                             for _ in range(rng.choice([1, 1, 7]))]),
          'delay': rng.choice([0.0, rng.uniform(-100, 100), 1e-9,
                               -rng.random()]),
          'pose': geom.random_pose(rng, 2.0),
          'jpl': rng.random() < 0.4}


def api_body(v, names=('poses.csv', 'array.csv', 'extr.json')):
  from hand_eye_calibration import csv_io
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
  csv_io.write_time_stamped_poses_to_csv_file(v['poses'].copy(), names[0])
  csv_io.write_double_numpy_array_to_csv_file(v['array'].copy(), names[1])
  dq = DualQuaternion.from_pose_vector(v['pose'].copy())
  ExtrinsicCalibration(v['delay'], dq).writeJson(names[2], v['jpl'])


def api_read(v):
  from hand_eye_calibration import csv_io
  from hand_eye_calibration.bash_utils import readArrayFromCsv
  from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
  poses, times, quats = csv_io.read_time_stamped_poses_from_csv_file(
      'poses.csv')
  array = readArrayFromCsv('array.csv')
  calib = ExtrinsicCalibration.fromJson('extr.json', v['jpl'])
  return {'poses': poses, 'times': times,
          'quats': np.array([q.q for q in quats]), 'array': array.ravel(),
          'delay': calib.time_offset, 'pose': calib.pose_dq.to_pose()}


def close(a, b, rel=4e-16, absolute=1e-18):
  a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
  if a.shape != b.shape:
    return False
  return bool(np.all(np.abs(a - b) <= absolute + rel * np.abs(a)))


def judge_api(v, got):
  if not close(v['poses'][:, :4], got['poses'][:, :4]) or \
      not close(v['poses'][:, 0], got['times']):
    return 'time stamps or positions do not read back as written'
  for i in range(len(v['poses'])):
    q = v['poses'][i, 4:]
    if geom.q_angle(q, got['quats'][i]) > 1e-7 or \
        geom.q_angle(q, got['poses'][i, 4:]) > 1e-7:
      return 'orientations do not read back as written'
  if not close(v['array'], got['array'], absolute=1e-17):
    return 'array %r reads back as %r' % (v['array'], got['array'])
  if v['delay'] != got['delay']:
    return 'delay %r reads back as %r' % (v['delay'], got['delay'])
  err = geom.p_err(v['pose'], got['pose'])
  if err[0] > 1e-9 or err[1] > 1e-5:
    return 'pose reads back with an error of %r' % (err,)
  return None


# -- one execution -------------------------------------------------------------

OUTPUTS = dict(c06.OUTPUTS, api=['poses.csv', 'array.csv', 'extr.json'])


def near(text):
  """Numbers that differ in one digit: of the last row of a table, or of a
  calibration."""
  digits = [m for m in re.finditer(r'\d\.\d{5,}', text)]
  if not digits:
    return text
  at = digits[-1].start() + 2 + 4
  digit = '3' if text[at] != '3' else '4'
  return text[:at] + digit + text[at + 1:]


def old_versions(plan, new):
  """Content of the output files before the run."""
  old = {}
  if plan['old'] == 'near':
    return {name: near(new[name]) for name in OUTPUTS[plan['tool']]}
  if plan['old'] == 'absent':
    return old
  for i, name in enumerate(OUTPUTS[plan['tool']]):
    if plan['old'] == 'partial' and (plan['seed'] >> i) & 1:
      continue
    old[name] = ('0.000000000000000000, 1.5\n' * (3 + i)
                 if name.endswith('csv') else '{"delay": 1.0, "old": true}')
  return old


def execute(plan, faults, new, restart, record=None):
  """One run of the writer.  Returns (kernel, Result, problem, outputs,
  read-back or restart Result)."""
  tool = plan['tool']
  names = OUTPUTS[tool]
  old = old_versions(plan, new) if new is not None else {}
  problem = []
  second = None
  with Kernel(seed=plan['seed'] & 0xffff, blksize=plan['blksize'],
              faults=faults, keep_ops=True) as k:
    if tool != 'api':
      memo.attach(k, record)
      for name, text in c06.inputs(tool, plan['data']).items():
        write_text(k, name, text)
    for name, text in old.items():
      write_text(k, name, text)

    def look(when):
      for name in names:
        data = read_bytes(k.path(name))
        if data is not None:
          data = data.decode('latin-1')
        if data == new[name] or data == old.get(name):
          continue
        problem.append('%s holds %s bytes that are neither the previous nor '
                       'the new version (%s)' % (
                           name, None if data is None else len(data), when))
        return

    if new is not None:
      k.op_listener = lambda op: (None if problem else
                                  look('at operation %r' % (op,)))
    if tool == 'api':
      values = api_values(plan['seed'])
      res = k.run_function('api', lambda: api_body(values), seed=1)
    else:
      script, argv = c06.command(tool, '')
      res = k.run_python(script, argv, tool, seed=1)
    k.op_listener = None
    if new is not None and not problem:
      look('at the end')
    outputs = {}
    for name in names:
      data = read_bytes(k.path(name))
      outputs[name] = None if data is None else data.decode('latin-1')
    k.note(res.code, sorted(outputs.items(), key=lambda x: x[0]))
    if restart:
      k.set_faults([])
      k.disk_full = False
      if tool == 'api':
        second = k.run_function('api', lambda: api_body(values), seed=1)
        if second.code == 0:
          got, read = call(k, 'read', lambda: api_read(values), seed=1)
          if read.code != 0:
            problem.append('the files cannot be read back:\n' + tail(read.out))
          else:
            wrong = judge_api(values, got)
            if wrong:
              problem.append(wrong)
      else:
        second = k.run_python(script, argv, tool, seed=1)
      for name in names:
        data = read_bytes(k.path(name))
        data = None if data is None else data.decode('latin-1')
        if second.code == 0 and data != (new or outputs)[name]:
          problem.append('after the repeated run %s is not the new version'
                         % name)
  return k, res, problem, outputs, second


_reference = {}


def reference(plan):
  """Fault-free run into an empty directory: (outputs, problem)."""
  key = (plan['tool'], plan['data'] if plan['tool'] != 'api' else plan['seed'])
  if key not in _reference:
    calls = []
    k, res, problem, outputs, second = execute(
        plan, [], None, plan['tool'] == 'api',
        lambda name, result: calls.append((name, result)))
    if res.code != 0:
      problem = ['the run without faults ended with %s:\n%s' % (
          res.code, tail(res.out))]
    elif not problem and plan['tool'] != 'api':
      problem = values_written(plan['tool'], outputs, calls)
    if plan['tool'] == 'api':
      return outputs, problem
    _reference[key] = (outputs, problem)
  return _reference[key]


def values_written(tool, outputs, calls):
  calls = dict(calls)
  missing = sorted(n for n in outputs if outputs[n] is None)
  if missing:
    return ['%s was not written' % ', '.join(missing)]
  if tool == 'align':
    offset = parse_csv(outputs['offset_out.csv'].encode())
    if offset is None or len(offset) != 1:
      return ['the offset file is not one number']
    if 'calculate_time_offset' in calls and \
        not close(calls['calculate_time_offset'], offset[0][0], absolute=1e-17):
      return ['offset %r was written as %r' % (
          calls['calculate_time_offset'], offset[0][0])]
    if 'compute_aligned_poses' in calls:
      for name, poses in zip(('aa.csv', 'ab.csv'),
                             calls['compute_aligned_poses']):
        rows = parse_csv(outputs[name].encode())
        if rows is None or not close(poses, rows, absolute=1e-17):
          return ['%s does not read back as the computed poses' % name]
    return []
  pose = table(outputs['pose.csv'].encode(), 'pose.csv')
  pose = [v for row in pose for v in row]
  calib = calibration(outputs['calib.json'].encode(), 'calib.json')
  result = calls.get('compute_hand_eye_calibration_RANSAC') or \
      calls.get('compute_hand_eye_calibration_BASELINE')
  if result is not None:
    truth = result[1].to_pose()
    if not close(truth, pose, absolute=1e-17):
      return ['pose %r was written as %r' % (list(truth), pose)]
    got = [calib['translation'][c] for c in 'xyz'] + \
        [calib['rotation'][c] for c in 'ijkw']
    err = geom.p_err(truth, np.array(got))
    if err[0] > 1e-9 or err[1] > 1e-5:
      return ['pose %r was written as %r' % (list(truth), got)]
  return []


# -- two writers at the same time ------------------------------------------------

NAMES = {'directory': [('a/poses.csv', 'a/array.csv', 'a/extr.json'),
                       ('b/poses.csv', 'b/array.csv', 'b/extr.json')],
         'stem': [('x.poses', 'x.array', 'x.json'),
                  ('x.csv', 'x.txt', 'x.extr')],
         'suffix': [('poses_1.csv', 'array_1.csv', 'extr_1.json'),
                    ('poses_2.csv', 'array_2.csv', 'extr_2.json')],
         'prefix': [('1.csv', '11.csv', '1.json'),
                    ('2.csv', '22.csv', '2.json')]}


def run_pair(plan, stats):
  """Two processes write different files into the same place."""
  values = [api_values(plan['seed']), api_values(plan['seed2'])]
  names = [[plan['place'] + '/' + n for n in group]
           for group in NAMES[plan['names']]]
  new = {}
  for v, group in zip(values, names):
    with Kernel(seed=1, blksize=8192) as k:
      for n in group:
        os.makedirs(os.path.dirname(k.path(n)), exist_ok=True)
      res = k.run_function('api', lambda: api_body(v, group), seed=1)
      if res.code != 0:
        return violation('status', 'writing %r ended with %s:\n%s', group,
                         res.code, tail(res.out))
      for n in group:
        new[n] = read_bytes(k.path(n))
  problem = []
  with Kernel(seed=plan['seed'] & 0xffff, blksize=plan['blksize'],
              sched=plan['sched'], faults=plan['faults']) as k:
    for n in new:
      os.makedirs(os.path.dirname(k.path(n)), exist_ok=True)

    def look(op):
      for n in new:
        data = read_bytes(k.path(n))
        if data is not None and data != new[n] and not problem:
          problem.append('%s holds %d bytes that are not the new version, at '
                         'operation %r' % (n, len(data), op))

    def body():
      import hand_eye_calibration.csv_io
      import hand_eye_calibration.extrinsic_calibration
      par = Parallel(k)
      for i in (0, 1):
        par.add('writer%d' % i, functools.partial(api_body, values[i],
                                                  names[i]))
      par.run()
      for worker in par.workers:
        if worker.error is not None:
          raise worker.error
    k.op_listener = look
    res = k.run_function('writers', body, seed=1)
    k.op_listener = None
    look('end')
    written = [n for n in sorted(new) if read_bytes(k.path(n)) is not None]
    k.note(res.code, written)
    stats.kernel(k)
    stats.state('pair', plan['names'], k.choices)
    if k.switches > 4:
      stats.nontrivial_now()
      stats.probe('interleaved')
  if problem:
    return violation('partial', 'two writers: %s', problem[0])
  if res.code not in (0, -9):
    return violation('status', 'two writers of different files: ended with %s:'
                     '\n%s', res.code, tail(res.out))
  if res.code == 0 and len(written) < len(new):
    return violation('status', 'two writers of different files: %s was not '
                     'written', sorted(set(new) - set(written)))
  return None


def run(plan, stats):
  stats.evaluations += 1
  tool = plan['tool']
  stats.probe(tool)
  if tool == 'pair':
    return run_pair(plan, stats)
  new, problem = reference(plan)
  if problem:
    return violation('values', '%s (input %d): %s', tool, plan['data'],
                     problem[0])
  # Which operations are there to be hit?
  base, res, problem, outputs, _ = execute(plan, [], new, False)
  if problem:
    stats.kernel(base)
    return violation('partial', '%s without faults: %s', tool, problem[0])
  faults = place(plan['faults'], base.ops)
  if not faults:
    stats.kernel(base)
    if res.code != 0 or outputs != new:
      return violation('status', '%s without faults ended with %s', tool,
                       res.code)
    return None
  k, res, problem, outputs, second = execute(plan, faults, new, True)
  stats.kernel(k)
  for name, on in (('crash', k.fired['crash'] or k.fired['kill']),
                   ('torn', k.fired['torn_write']),
                   ('disk_full', k.disk_full or k.fired['disk_full']),
                   ('short', k.fired['short_write']),
                   ('error_status', res.code not in (0, -9)),
                   ('restarted', second is not None)):
    if on:
      stats.probe(name)
  old = old_versions(plan, new)
  fresh = [n for n in OUTPUTS[tool] if outputs[n] == new[n]]
  kept = [n for n in OUTPUTS[tool] if n in old and outputs[n] == old[n]]
  if kept:
    stats.probe('old_kept')
  if fresh and len(fresh) < len(OUTPUTS[tool]):
    stats.probe('mixed')
  stats.state(tool, sorted(old), sorted(k.fired), sorted(
      set(base.ops[f['op']][2] for f in faults)), fresh)
  if problem:
    return violation('partial', '%s: %s', tool, problem[0])
  if res.code == 0 and len(fresh) < len(OUTPUTS[tool]):
    return violation('status', '%s ended with status 0, but %s was not written '
                     '(faults %s)', tool, sorted(set(OUTPUTS[tool]) -
                                                 set(fresh)), dict(k.fired))
  if second is not None and second.code != 0:
    return violation('restart', '%s fails after an interrupted run:\n%s', tool,
                     tail(second.out))
  return None


def place(specs, ops):
  """Fault positions are numbers modulo the operations they can hit."""
  writers = [op[0] for op in ops if op[2] in WRITERS]
  writes = [op[0] for op in ops if op[2] == 'write']
  if not writers:
    return []
  faults = {}
  for spec in specs:
    kind = spec['kind']
    if kind in ('crash', 'kill'):
      candidates = [op[0] for op in ops]
    elif kind in ('torn', 'short'):
      candidates = writes
    else:
      candidates = writers
    if spec['late']:
      candidates = [n for n in candidates if n >= writers[0]] or candidates
    if not candidates:
      continue
    number = candidates[spec['pick'] % len(candidates)]
    faults.setdefault(number, {'op': number, 'kind': kind,
                               'frac': spec['frac']})
  return list(faults.values())


def shrink(plan):
  for i in range(len(plan['faults'])):
    yield dict(plan, faults=plan['faults'][:i] + plan['faults'][i + 1:])
  if plan['tool'] == 'pair':
    return
  for key, value in (('blksize', 8192), ('old', 'absent'), ('old', 'version')):
    if plan[key] != value and not (key == 'old' and plan['old'] == 'absent'):
      yield dict(plan, **{key: value})


def warm():
  # Remember the numerical results before the workers are forked.
  for tool in ('align', 'calibrate'):
    for data in range(NDATA):
      try:
        reference({'tool': tool, 'data': data, 'seed': 1, 'blksize': 8192,
                   'old': 'absent', 'faults': []})
      except Exception:
        pass
