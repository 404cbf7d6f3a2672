"""C10: a set of calibrations logs every experiment exactly once."""

import functools
import json
import math
import os
import random

import numpy as np

from checks.common import EXP_BIN, csv_text, read_bytes, tail, violation
from checks.common import write_text
from sim import geom
from sim import pairs as pairs_
from sim.inject import Injector, random_fault
from sim.kernel import Kernel

ID = 'C10'
RUNS = {'quick': 1200, 'thorough': 20000}
RULE = ('a history of runs of the set of calibrations with scripted verdicts '
        'of the calibrations and optimisations, crashes, failing calls and full '
        'disks, then a fault-free run; every line is compared with the calls '
        'that were made; non-trivial: a fault fired or a calibration or '
        'optimisation failed; distinct by history hash')
STATE_MEASURE = ('(number of recordings, iterations, algorithms; where the '
                 'earlier runs were interrupted, in result lines and kind of '
                 'operation)')
REAL = ['bin/compute_set_of_hand_eye_calibrations.py', 'experiment_results.py',
        'all_algorithm_configs.py', 'algorithm_config.py', 'csv_io.py',
        'bash_utils.py', 'extrinsic_calibration.py', 'calibration_verification'
        '.py', 'compute_aligned_poses']
STUB = ['calibration algorithms, offset estimation and, in two thirds of the '
        'runs, the evaluation of a calibration (scripted verdicts with values '
        'that occur only once)',
        'batch_estimator', 'file system faults, process deaths']
ASSUMPTIONS = ['process death, not power loss; no restart with a file whose '
               'last line was cut by a failing write or a death inside one']
PROBES = ['restart', 'interrupted', 'calibration_failed', 'estimator_failed',
          'no_match', 'loop_error', 'all_algorithms', 'disk_full',
          'many_recordings', 'completed', 'spawn_failed', 'rows_before',
          'real_evaluation', 'real_no_match', 'gave_up']

COLUMNS = 23
# Faults that may leave a line cut.
CUTS = ('write_enospc', 'disk_full', 'write_eio', 'torn_write', 'short_write')


def gen(rng, tier):
  n = rng.choice([2, 2, 3, 3, 4, 6 if rng.random() < 0.15 else 3])
  configs = rng.choice([1, 2, 2, 3, 5])
  if rng.random() < 0.06:
    configs = 16
  iterations = rng.choice([1, 1, 2, 3])
  e = configs * iterations * n * (n - 1) // 2
  span = {'any': 20 + 22 * e, 'change': 10 + 9 * e, 'write': 5 + 4 * e,
          'read': 9 * e, 'rename': e, 'spawn': e}
  runs = []
  for _ in range(rng.choice([0, 1, 1, 2, 3])):
    runs.append([random_fault(rng, span, ['any', 'change', 'change', 'read',
                                          'spawn', 'rename', 'write'])
                 for _ in range(rng.choice([1, 1, 2]))])
    if rng.random() < 0.4:
      # At the result files themselves.
      path = rng.choice(['results.csv', 'results.csv', '_H_E.txt'])
      runs[-1][0] = {'cls': rng.choice(['any', 'any', 'write']), 'path': path,
                     'nth': rng.randrange(3 * e + 6 if path[0] == '_' else
                                          4 * e // (n * (n - 1) // 2) + 4),
                     'kind': rng.choice(['crash', 'kill', 'crash', 'enospc']),
                     'frac': rng.choice([0.0, 0.5])}
  return {'n': n, 'iterations': iterations,
          'configs': None if configs == 16 else rng.sample(range(16), configs),
          'fail': rng.choice([0.0, 0.0, 0.15, 0.5]),
          'give_up': rng.choice([0.0, 0.3, 1.0]),
          'opt_fail': rng.choice([0.0, 0.0, 0.2, 0.6]),
          'flags': rng.choice([None, [rng.randrange(2) for _ in range(n)]]),
          'long': n > 4 or rng.random() < 0.1, 'runs': runs,
          'evaluate': rng.choice(['scripted', 'scripted', 'real']),
          'seed': rng.getrandbits(30)}


class Script(object):
  """Verdicts of the calibrations and what was asked for."""

  def __init__(self, plan, k):
    self.plan = plan
    self.k = k
    self.rng = random.Random('verdicts-%s' % plan['seed'])
    self.run = -1
    self.calls = {}  # Unique runtime -> call.
    self.gave_up = []  # Calls that ended with an exception.
    self.by_pose = {}  # First coordinate of a pose -> call.
    self.algorithms = None
    self.estimates = {}
    self.aligned = {}
    self.spawn_faults = 0
    self.blind = 0

  def unique(self):
    self.count = getattr(self, 'count', 0) + 1
    return 1000.0 + self.count * 0.5

  # Replaced functions ---------------------------------------------------------

  def configs(self, module):
    original = getattr(module, 'get_all_configs', None)
    if original is None:
      return

    def get_all_configs():
      found = original()
      if self.plan['configs'] is not None and len(found) == 16:
        found = [found[i] for i in self.plan['configs']]
      self.algorithms = [
          (name, 1 if (h.enable_exhaustive_search or h.use_baseline_approach)
           else self.plan['iterations'], bool(h.prefilter_poses_enabled),
           bool(o.enable_optimization), h.algorithm_name)
          for name, f, h, o in found]
      return found
    module.get_all_configs = get_all_configs

  def offsets(self, module):
    def calculate_time_offset(times_A, q_A, times_B, q_B, config, plot=False):
      return float(times_B[0] - times_A[0])
    if hasattr(module, 'calculate_time_offset'):
      module.calculate_time_offset = calculate_time_offset
    align = getattr(module, 'compute_aligned_poses', None)
    if align is None:
      return

    def compute_aligned_poses(poses_A, poses_B, offset, *args, **kwargs):
      found = align(poses_A, poses_B, offset, *args, **kwargs)
      self.aligned[(recording_at(poses_A[0][0]), recording_at(poses_B[0][0]),
                    round(float(offset), 9))] = [np.array(p) for p in found]
      return found
    module.compute_aligned_poses = compute_aligned_poses

  def calibrations(self, module):
    DQ = module.DualQuaternion

    def calibrate(function, dq_B_H_vec, dq_W_E_vec, config):
      rng = self.rng
      key = self.unique()
      success = rng.random() >= self.plan['fail']
      pose = geom.random_pose(rng, 1.0)
      pose[0] = key
      values = np.array([rng.random() for _ in range(8)])
      call = {'run': self.run, 'key': key, 'success': success,
              'pose': pose if success else None,
              'pair': (step_of(self.plan, dq_B_H_vec),
                       step_of(self.plan, dq_W_E_vec)),
              'algorithm': config.algorithm_name, 'function': function,
              'thresholds': (config.ransac_position_error_threshold_m,
                             config.ransac_orientation_error_threshold_deg),
              'exhaustive': bool(config.enable_exhaustive_search),
              'n': len(dq_B_H_vec), 'prefilter': config.prefilter_poses_enabled,
              'rmse': ((rng.random(), rng.random()) if success else
                       (float('inf'), float('inf'))),
              'inliers': rng.randrange(10, 99) if success else 0,
              'kept': rng.randrange(100, 999),
              'values': values if success else rng.choice([None, values]),
              'bad': rng.random() < 0.3, 'estimates': [], 'gave_up': False}
      if not success and rng.random() < self.plan.get('give_up', 0.0):
        # How the algorithms end without enough inliers or distinct poses.
        call['gave_up'] = True
        self.gave_up.append(call)
        self.k.fire('calibration_fails')
        self.k.fire('calibration_gives_up')
        raise AssertionError('Not enough inliers found!')
      self.calls[key] = call
      self.by_pose[key] = call
      if not success:
        self.k.fire('calibration_fails')
      dq = DQ.from_pose_vector(pose.copy()) if success else None
      return (success, dq, call['rmse'], call['inliers'], call['kept'], key,
              call['values'], call['bad'])
    for name in ('compute_hand_eye_calibration_RANSAC',
                 'compute_hand_eye_calibration_BASELINE'):
      if hasattr(module, name):
        setattr(module, name, functools.partial(calibrate, name))

  def evaluations(self, module):
    if self.plan.get('evaluate') == 'real':
      return
    def evaluate_calibration(poses_B_H, poses_W_E, dq_H_E, time_offset, config):
      estimate = self.estimates.get(round(dq_H_E.to_pose()[0], 6))
      rmse = (self.rng.random(), self.rng.random())
      inliers = self.rng.randrange(10, 99)
      if self.rng.random() < self.plan['opt_fail'] * 0.3:
        rmse, inliers = (float('inf'), float('inf')), 0
        self.k.fire('no_matching_poses')
      if estimate is not None:
        estimate['evaluations'].append((rmse, inliers, float(time_offset)))
      return (rmse, inliers)
    if hasattr(module, 'evaluate_calibration'):
      module.evaluate_calibration = evaluate_calibration

  def estimator(self, argv):
    args = dict(a.lstrip('-').split('=', 1) for a in argv if '=' in a)
    self.blind += 1  # Until it has got its initial guess.
    try:
      with open(args['init_guess_file']) as f:
        guess = json.load(f)
    except (IOError, OSError, KeyError, ValueError):
      return 1
    call = self.by_pose.get(round(guess['translation']['x'], 6))
    if call is None:
      return 1
    rng = self.rng
    mode = 'ok'
    if rng.random() < self.plan['opt_fail']:
      mode = rng.choice(['early', 'late', 'kill'])
      self.k.fire('estimator_fails')
    pose = geom.random_pose(rng, 1.0)
    pose[0] = self.unique()
    delay = rng.uniform(-1, 1)
    if self.plan.get('evaluate') == 'real':
      # Around the truth, or far from it; sometimes without common time.
      i, j = call['pair']
      pose = geom.p_mul(geom.p_mul(geom.p_inv(mount(i)), mount(j)),
                        geom.random_pose(rng, *rng.choice(
                            [(0.0, 0.0), (0.01, 0.005), (0.05, 0.05),
                             (0.5, 1.0)])))
      delay = 10.0 * (j - i) + rng.choice([0.03, -0.03, 0.07, 0.13, -0.23,
                                           0.31, 3.0])
    estimate = {'args': args, 'guess': guess, 'code': None, 'pose': pose,
                'delay': delay, 'evaluations': [], 'run': self.run}
    call['estimates'].append(estimate)
    self.blind -= 1
    self.estimates[round(pose[0], 6)] = estimate
    if mode == 'early':
      estimate['code'] = 1
      return 1
    try:
      with open(args['output_file'], 'w') as f:
        json.dump({'delay': estimate['delay'],
                   'rotation': dict(zip('ijkw', map(float, pose[3:]))),
                   'translation': dict(zip('xyz', map(float, pose[:3])))}, f)
    except (IOError, OSError, KeyError):
      estimate['code'] = 1
      return 1
    estimate['code'] = {'ok': 0, 'late': 2, 'kill': -9}[mode]
    return estimate['code']

  def attach(self):
    k = self.k
    base = 'hand_eye_calibration.'
    k.module_hooks[base + 'time_alignment'] = self.offsets
    k.module_hooks[base + 'dual_quaternion_hand_eye_calibration'] = \
        self.calibrations
    k.module_hooks[base + 'calibration_verification'] = self.evaluations
    k.module_hooks['hand_eye_calibration_experiments.all_algorithm_configs'] = \
        self.configs
    k.rosrun[('hand_eye_calibration_batch_estimation', 'batch_estimator')] = \
        k.native_tool('batch_estimator', self.estimator)


def step_of(plan, dqs):
  """Which recording this is: every recording moves by its own step."""
  if plan.get('evaluate') == 'real':
    step = dqs[1].to_pose()
    errors = []
    for i in range(plan['n']):
      a, b = (geom.p_mul(body(j), mount(i)) for j in (0, 1))
      errors.append(geom.p_err(geom.p_mul(geom.p_inv(a), b), step)[0])
    return int(np.argmin(errors))
  return int(round(dqs[1].to_pose()[0] / 0.125)) - 1


def body(j):
  return np.concatenate([[0.1 * j, 0.02 * j * j, -0.05 * j],
                         geom.q_exp([0.3 * j, 0.1 * j * (j - 2), -0.2 * j])])


def mount(i):
  return np.concatenate([[0.3 * i, -0.2, 0.1 * i * i],
                         geom.q_exp([0.0, 0.4 * i, 0.3 * i])])


def recording_at(stamp):
  return int(stamp // 10.0)


def recording(i, real=False):
  rows = []
  if real:
    return csv_text([np.concatenate([[10.0 * i + 0.1 * j + 0.5],
                                     geom.p_mul(body(j), mount(i))])
                     for j in range(12)])
  for j in range(6):
    rows.append([10.0 * i + 0.1 * j, 0.125 * (i + 1) * j, 0.5, 0.25,
                 0, 0, 0, 1])
  return csv_text(rows)


def paths(plan):
  where = 'in/' + ('d' * 120 + '/') * 2 if plan['long'] else 'in/'
  return [where + 'rec%d.csv' % i for i in range(plan['n'])]


def pairs(n):
  return [(i, j) for i in range(n) for j in range(i + 1, n)]


def same(a, b, tol=1e-9):
  if math.isinf(a) or math.isinf(b):
    return a == b
  return abs(a - b) <= tol * max(1.0, abs(a))


def number(text):
  return float(text)


def check_row(plan, script, row, expected):
  """None or what is wrong with a result line (split into columns)."""
  (name, iterations, prefilter, optimise, base), iteration, pair_idx = expected
  pair = pairs(plan['n'])[pair_idx]
  call = script.calls.get(number(row[12]))
  if call is None:
    call = next((c for c in script.gave_up if c['run'] == script.run and
                 not c.get('used')), None)
  if call is None:
    return 'runtime %s belongs to no calibration' % row[12]
  if call.get('used'):
    return 'the calibration with runtime %s is reported twice' % row[12]
  call['used'] = True
  script.matched = call
  if (row[0], int(row[1]), int(row[2])) != (name, pair_idx, iteration):
    return 'is %s pair %s iteration %s instead of %s %s %s' % (
        row[0], row[1], row[2], name, pair_idx, iteration)
  files = paths(plan)
  if row[4] != files[pair[0]] or row[5] != files[pair[1]] or \
      call['pair'] != pair:
    return 'names %s, %s; pair %r; calibrated %r' % (row[4], row[5], pair,
                                                     call['pair'])
  wrong = misnamed(name, call, optimise)
  if wrong:
    return wrong
  if call['algorithm'] != base:
    return 'was calibrated with %s' % call['algorithm']
  if row[3] != str(bool(prefilter)) or bool(call['prefilter']) != prefilter:
    return 'prefiltering %s, should be %s' % (row[3], prefilter)
  if row[6] != str(call['success']):
    return 'success %s, but the calibration said %s' % (row[6], call['success'])
  if int(row[10]) != call['n'] or (int(row[11]) != call['kept'] and
                                   not call['gave_up']):
    return 'pose counts %s, %s instead of %s, %s' % (row[10], row[11],
                                                     call['n'], call['kept'])
  if row[16] != str(call['bad']) and not call['gave_up']:
    return 'bad singular values %s instead of %s' % (row[16], call['bad'])
  if call['gave_up']:
    pass
  elif call['values'] is None:
    if row[15] not in ('', 'None'):
      return 'singular values %r instead of none' % row[15]
  else:
    values = [float(v) for v in row[15].strip('[]').split()]
    if len(values) != 8 or np.max(np.abs(values - call['values'])) > 1e-6:
      return 'singular values %r instead of %r' % (row[15], call['values'])
  if row[17] != str(optimise):
    return 'optimisation enabled %s' % row[17]
  call['final'] = None
  if not optimise:
    call['final'] = call['pose']
    rmse, inliers, opt_success = call['rmse'], call['inliers'], True
    if call['gave_up']:
      opt_success = row[18] == 'True'
    if call['estimates']:
      return 'was optimised'
    if number(row[19]) != 0:
      return 'optimisation took %s s' % row[19]
  else:
    rmse, inliers, opt_success = (-1, -1), 0, False
    estimates = call['estimates']
    if len(estimates) > 1:
      return 'was optimised %d times' % len(estimates)
    if not call['success'] and estimates:
      return 'was optimised without initial calibration'
    if call['success'] and not estimates:
      script.missing -= 1
      if script.missing < 0:
        return 'was not optimised'
    if estimates:
      wrong = check_estimate(plan, files, pair, call, estimates[0])
      if wrong:
        return wrong
      if estimates[0]['code'] == 0:
        call['final'] = estimates[0]['pose']
        if plan.get('evaluate') == 'real':
          script.k.probe_real = True
          found = evaluation(script, pair, call, estimates[0])
          if found is None:
            return 'the optimised calibration was not evaluated'
          rmse, inliers, sure = found
          script.k.probe_empty |= inliers == 0
          if not sure:
            inliers = int(row[9])
        else:
          if not estimates[0]['evaluations']:
            return 'the optimised calibration was not evaluated'
          rmse, inliers, offset = estimates[0]['evaluations'][-1]
          if not same(offset, estimates[0]['delay']):
            return 'evaluated with offset %r' % offset
        opt_success = inliers > 0
  exact = 1e-5 if plan.get('evaluate') == 'real' else 1e-9
  if call['gave_up'] and not optimise:
    pass  # There are no errors to report.
  elif not same(number(row[7]), rmse[0], exact) or \
      not same(number(row[8]), rmse[1], 500 * exact) or \
      int(row[9]) != inliers:
    return 'errors %s, %s, inliers %s instead of %r, %r' % (
        row[7], row[8], row[9], rmse, inliers)
  if row[18] != str(opt_success):
    return 'optimisation success %s instead of %s' % (row[18], opt_success)
  call['opt_success'] = opt_success
  if row[20] != 'None' or row[21] != 'None' or row[22] != 'None':
    return 'reports a spoiled initial guess'
  return None


def misnamed(name, call, optimise):
  """The algorithm that ran is the one it is called."""
  parts = name.split('_')
  for used, should, what in (
      (optimise, name.endswith('_opt') and not name.endswith('_no_opt'),
       'optimisation'),
      (bool(call['prefilter']), '_no_filter' not in name, 'prefiltering'),
      (call['exhaustive'], parts[0] in ('EC', 'ES'), 'exhaustive search'),
      (call['function'].endswith('_BASELINE'), parts[0] == 'baseline',
       'the baseline')):
    if parts[0] in ('EC', 'ES', 'RC', 'RS', 'baseline') and used != should:
      return 'ran with%s %s' % ('' if used else 'out', what)
  return None


def evaluation(script, pair, call, estimate):
  """Errors and inliers of an optimised calibration; None if not known."""
  found = script.aligned.get(pair + (round(estimate['delay'], 9),))
  if found is None:
    return None
  if len(found[0]) == 0:
    return (float('inf'), float('inf')), 0, True
  A = [p[1:] for p in found[0]]
  B = [p[1:] for p in found[1]]
  errors = pairs_.errors(A, B, estimate['pose'], 0)
  sure = all(abs(e[i] - call['thresholds'][i]) > 1e-6 for e in errors
             for i in (0, 1))
  inliers = sum(e[0] < call['thresholds'][0] and e[1] < call['thresholds'][1]
                for e in errors)
  return pairs_.rmse(A, B, estimate['pose'], 0), inliers, sure


def check_estimate(plan, files, pair, call, estimate):
  args = estimate['args']
  if args.get('pose1_csv') != files[pair[0]] or \
      args.get('pose2_csv') != files[pair[1]]:
    return 'optimised with %s, %s' % (args.get('pose1_csv'),
                                      args.get('pose2_csv'))
  flags = plan['flags'] or [0] * plan['n']
  text = ('pose1/absoluteMeasurements=%s,pose2/absoluteMeasurements=%s' % (
      bool(flags[pair[0]]), bool(flags[pair[1]]))).lower()
  if args.get('model_config') != text:
    return 'optimised with model %r instead of %r' % (args.get('model_config'),
                                                      text)
  guess = estimate['guess']
  pose = np.array([guess['translation'][c] for c in 'xyz'] +
                  [guess['rotation'][c] for c in 'ijkw'])
  err = geom.p_err(pose, call['pose'])
  if err[0] > 1e-6 or err[1] > 1e-4 or \
      not same(guess['delay'], 10.0 * (pair[1] - pair[0])):
    return 'optimised with another initial guess'
  return None


def loop_error(poses, n):
  """Chain from the first to the last recording and back."""
  table = dict(zip(pairs(n), poses))
  total = geom.P_IDENTITY
  for i in range(n - 1):
    total = geom.p_mul(total, table[(i, i + 1)])
  total = geom.p_mul(total, geom.p_inv(table[(0, n - 1)]))
  angle = math.degrees(geom.q_angle(total[3:], geom.P_IDENTITY[3:]))
  return float(np.linalg.norm(total[:3])), angle


def check_loops(plan, script, group, calls):
  """Loop errors of the lines of one iteration."""
  if all(c['opt_success'] and c['final'] is not None for c in calls):
    position, angle = loop_error([c['final'] for c in calls], plan['n'])
    script.k.probe_loop = True
    for row in group:
      a = number(row[14])
      if abs(number(row[13]) - position) > 1e-6 * max(1, position) or \
          min(abs(a - angle), abs(360 - a - angle)) > 1e-3:
        return 'loop error %s m, %s deg instead of %r, %r' % (
            row[13], row[14], position, angle)
  else:
    for row in group:
      if number(row[13]) != -1 or number(row[14]) != -1:
        return 'a loop error although a pair was not calibrated'
  return None


def run(plan, stats):
  stats.evaluations += 1
  with Kernel(seed=plan['seed'] & 0xffff, blksize=8192) as k:
    k.probe_loop = k.probe_real = k.probe_empty = False
    try:
      return history(plan, k, stats)
    finally:
      stats.kernel(k)
      for name, on in (('loop_error', k.probe_loop),
                       ('real_evaluation', k.probe_real),
                       ('real_no_match', k.probe_empty)):
        if on:
          stats.probe(name)


def execute(plan, k, script, faults):
  script.run += 1
  script.blind = 0
  inject = Injector(k, faults)
  argv = ['--aligned_poses_B_H_csv_files'] + paths(plan)
  if plan['flags'] is not None:
    argv += ['--is_absolute_pose_sensor'] + [str(f) for f in plan['flags']]
  argv += ['--result_directory', 'results', '--num_iterations',
           str(plan['iterations'])]
  cuts = sum(k.fired[f] for f in CUTS)
  before = k.fired['spawn_eagain']
  res = k.run_python(EXP_BIN + 'compute_set_of_hand_eye_calibrations.py', argv,
                     'set', seed=plan['seed'] & 0xfffff)
  full = sum(k.fired[f] for f in CUTS) > cuts
  inject.stop()
  k.set_faults([])
  script.spawn_faults = k.fired['spawn_eagain'] - before
  # Optimisations that could not even start.
  script.missing = script.spawn_faults + (script.blind if inject.hit else 0)
  script.full = full
  return res, inject


def history(plan, k, stats):
  for i, path in enumerate(paths(plan)):
    os.makedirs(os.path.dirname(k.path(path)), exist_ok=True)
    write_text(k, path, recording(i, plan.get('evaluate') == 'real'))
  script = Script(plan, k)
  script.attach()
  if plan['configs'] is None:
    stats.probe('all_algorithms')
  if plan['n'] > 4:
    stats.probe('many_recordings')
  done = []  # Result lines accepted so far.
  marks = []
  for number_, faults in enumerate(plan['runs'] + [[]]):
    last = number_ == len(plan['runs'])
    if number_ > 0:
      stats.probe('restart')
    res, inject = execute(plan, k, script, faults)
    data = read_bytes(k.path('results/results.csv'))
    k.note(number_, res.code, data)
    for name, on in (('calibration_failed', k.fired['calibration_fails']),
                     ('gave_up', k.fired['calibration_gives_up']),
                     ('estimator_failed', k.fired['estimator_fails']),
                     ('no_match', k.fired['no_matching_poses']),
                     ('disk_full', script.full),
                     ('spawn_failed', script.spawn_faults),
                     ('interrupted', res.killed),
                     ('completed', res.code == 0)):
      if on:
        stats.probe(name)
    if last and res.code != 0:
      return violation('fails', 'a fault-free run ended with status %s:\n%s',
                       res.code, tail(res.out))
    bad, added = examine(plan, script, data, done, res.code == 0, number_)
    if bad:
      return bad
    marks.append((added, inject.hit[-1][2] if inject.hit else None,
                  res.code))
    if 0 < added and res.code != 0:
      stats.probe('rows_before')
    if last or res.code == 0:
      bad = transformations(plan, k, done[len(done) - added:], script.added)
      if bad:
        return bad
    if script.full and data is not None and not data.endswith(b'\n'):
      break  # The last line was cut; restarts are not judged.
  stats.state(plan['n'], plan['iterations'], plan['configs'], marks)
  return None


def examine(plan, script, data, done, complete, run_number):
  """(violation, number of new lines) for the result file after a run."""
  if data is None or data == b'':
    if complete or done:
      return violation('lost', 'the result file is missing or empty'), 0
    return None, 0
  text = data.decode('utf-8', 'replace')
  lines = text.split('\n')
  cut = lines.pop()
  if cut and not (script.full and not complete):
    return violation('partial', 'the result file ends with a partial line %r',
                     cut[:80]), 0
  if not lines:
    return None, 0
  header = lines[0].split(',')
  if len(header) != COLUMNS or header[0] != 'algorithm_name':
    return violation('header', 'the result file starts with %r',
                     lines[0][:80]), 0
  rows = [line.split(',') for line in lines[1:]]
  for i, row in enumerate(rows):
    if len(row) != COLUMNS:
      return violation('partial', 'line %d has %d columns: %r', i + 2, len(row),
                       ','.join(row)[:120]), 0
  if rows[:len(done)] != done:
    return violation('changed', 'lines of earlier runs were changed'), 0
  new = rows[len(done):]
  if script.algorithms is None:
    if new:
      return violation('lines', 'lines without any algorithm'), 0
    return None, 0
  names = [a[0] for a in script.algorithms]
  if len(set(names)) != len(names):
    return violation('names', 'two algorithms are called the same: %r', names), 0
  m = len(pairs(plan['n']))
  expected = [(a, iteration, pair) for a in script.algorithms
              for iteration in range(a[1]) for pair in range(m)]
  if len(new) > len(expected):
    return violation('lines', '%d lines for %d experiments', len(new),
                     len(expected)), 0
  if complete and len(new) != len(expected):
    return violation('lines', 'the completed run %d wrote %d of %d lines',
                     run_number, len(new), len(expected)), 0
  calls = []
  for i, row in enumerate(new):
    try:
      wrong = check_row(plan, script, row, expected[i])
    except ValueError as e:
      wrong = 'cannot be read: %s' % e
    if wrong is None and script.matched['run'] != run_number:
      wrong = 'belongs to another run'
    if wrong:
      return violation('line', 'result line %d of run %d (%s) %s', i + 1,
                       run_number, ','.join(row)[:60], wrong), 0
    calls.append(script.matched)
  for i in range(0, len(new) - m + 1, m):
    try:
      wrong = check_loops(plan, script, new[i:i + m], calls[i:i + m])
    except ValueError as e:
      wrong = 'cannot be read: %s' % e
    if wrong:
      return violation('loop', 'result lines %d to %d: %s', i + 1, i + m,
                       wrong), 0
  done.extend(new)
  script.added = calls
  return None, len(new)


def numbers(line):
  try:
    return [float(v) for v in line.strip().strip('[]').split()]
  except ValueError:
    return []


def transformations(plan, k, rows, calls):
  """The transformation files end with those of the completed run."""
  expected = {}
  for row, call in zip(rows, calls):
    key = (row[0], int(row[1]))
    expected.setdefault(key, [])
    if call['final'] is not None:
      expected[key].append(call['final'])
  for (name, pair), poses in sorted(expected.items()):
    for directory, suffix, width in (('poses_H_E', 'pose_H_E', 7),
                                     ('dq_H_E', 'dq_H_E', 8)):
      path = 'results/%s/%s_pose_pair_%d_%s.txt' % (directory, name, pair,
                                                    suffix)
      data = read_bytes(k.path(path))
      if data is None:
        if poses:
          return violation('transformations', '%s is missing', path)
        continue
      text = data.decode()
      lines = text.splitlines()
      if text and not text.endswith('\n') or \
          any(len(numbers(l)) != width for l in lines):
        if any(k.fired[f] for f in CUTS):
          continue  # Cut in an earlier run.
        return violation('transformations', '%s has incomplete lines', path)
      if len(lines) < len(poses) or (len(plan['runs']) == 0 and
                                     len(lines) != len(poses)):
        return violation('transformations', '%s has %d lines for %d '
                         'transformations', path, len(lines), len(poses))
      for line, pose in zip(lines[len(lines) - len(poses):], poses):
        values = np.array(numbers(line))
        if width == 7:
          err = geom.p_err(values, pose)
        else:
          err = geom.p_err(pose_of(values), pose)
        if err[0] > 1e-3 or err[1] > 0.1:
          return violation('transformations', '%s: %r instead of %r', path,
                           line, list(pose))
  return None


def pose_of(dq):
  """Pose of a dual quaternion given as vector (rotation, dual part)."""
  q = dq[:4]
  t = 2.0 * geom.q_mul(dq[4:], geom.q_conj(q))[:3]
  return np.concatenate([t, q])


def shrink(plan):
  for i in range(len(plan['runs'])):
    yield dict(plan, runs=plan['runs'][:i] + plan['runs'][i + 1:])
    for j in range(len(plan['runs'][i])):
      if len(plan['runs'][i]) > 1:
        runs = list(plan['runs'])
        runs[i] = runs[i][:j] + runs[i][j + 1:]
        yield dict(plan, runs=runs)
  if plan['configs'] is None:
    yield dict(plan, configs=[0, 4, 15])
  elif len(plan['configs']) > 1:
    for i in range(len(plan['configs'])):
      yield dict(plan, configs=plan['configs'][:i] + plan['configs'][i + 1:])
  for key, value in (('iterations', 1), ('fail', 0.0), ('give_up', 0.0), ('opt_fail', 0.0),
                     ('flags', None), ('long', False),
                     ('evaluate', 'scripted')):
    if plan[key] != value:
      yield dict(plan, **{key: value})
  if plan['n'] > 2:
    yield dict(plan, n=plan['n'] - 1, flags=(
        None if plan['flags'] is None else plan['flags'][:-1]))
