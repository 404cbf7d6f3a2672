"""C05: random-sampling calibration always terminates with a verdict."""

import math
import random

import numpy as np

from checks.c04 import calibrate
from checks.common import BIN, call, csv_text, read_bytes, tail, violation
from checks.common import write_text
from sim import geom, pairs
from sim.draws import Draws, TooManyDraws
from sim.kernel import Kernel

ID = 'C05'
RUNS = {'quick': 480, 'thorough': 10000}
RULE = ('pose pairs with no, few or only degenerate consistent samples are '
        'calibrated under seeded and scripted draw sequences, counting draws; '
        'non-trivial: fewer consistent pairs than required, or scripted draws; '
        'distinct by history hash')
STATE_MEASURE = '(algorithm, data kind, draw mode, verdict, draws / iteration)'
REAL = ['compute_hand_eye_calibration_RANSAC', 'compute_hand_eye_calibration_'
        'BASELINE', 'algorithm configurations', 'dual quaternion arithmetic',
        'bin/compute_hand_eye_calibration.py (tool runs)']
STUB = ['random draws (seeded or scripted)', 'pose pairs (simulated)']
ASSUMPTIONS = ['the constant of the draw bound is taken as %d draws per '
               'configured iteration' % 5000,
               'insufficient or degenerate data may end in an exception '
               'instead of a verdict (an end, but no result)']
PROBES = ['none_consistent', 'few_consistent', 'degenerate', 'good',
          'scripted', 'failure', 'success', 'many_draws', 'tool', 'exhausted']

DRAWS_PER_ITERATION = 5000

ALGORITHMS = ['RC', 'RC_filter', 'RS', 'RS_filter', 'RS3', 'EC', 'ES',
              'baseline', 'baseline_filter', 'baseline_exhaustive', 'tool']


def gen(rng, tier):
  algorithm = rng.choice(ALGORITHMS)
  kind = rng.choice(['none', 'none', 'few', 'few', 'axis', 'still',
                     'translation', 'good'])
  n = rng.choice([5, 6, 8, 12, 16])
  if algorithm == 'EC':
    n = rng.choice([8, 11, 12])
  if kind == 'few':
    n = max(n, 8)
  draws = rng.choice([{'mode': 'seeded'},
                      {'mode': 'stuck', 'period': rng.choice([10, 10 ** 9])},
                      {'mode': 'favour', 'items': [0, 1, 2], 'p': 1.0},
                      {'mode': 'window', 'width': 3}])
  good = 0
  if kind == 'few':
    good = rng.randint(2, min(8, n - 2))
  return {'algorithm': algorithm, 'kind': kind, 'n': n, 'draws': draws,
          'good': good, 'iterations': rng.choice([1, 1, 1, 2]),
          'seed': rng.getrandbits(30), 'flip': rng.random() < 0.3}


def build(plan):
  """(A, B, expected): expected is 'fail', 'any' or 'success'."""
  rng = random.Random('data-%s' % plan['seed'])
  kind, n = plan['kind'], plan['n']
  if kind in ('none', 'few', 'good'):
    outliers = []
    if kind == 'none':
      outliers = list(range(n))
    elif kind == 'few':
      outliers = rng.sample(range(n), n - plan['good'])
    data = pairs.Pairs({'seed': plan['seed'], 'n': n, 'outliers': outliers,
                        'kind': rng.choice(['random', 'stuck']),
                        'flip': plan['flip']})
    if kind == 'good':
      return data.A, data.B, 'any'
    # Fewer consistent pairs than the required number of inliers.
    expected = 'fail' if data.n_good < 9 else 'any'
    return data.A, data.B, expected
  # Degenerate motions, perfectly consistent.
  H_E = geom.random_pose(rng, 0.4)
  W_B = geom.random_pose(rng, 1.0)
  base = geom.random_pose(rng, 1.0)
  A = []
  for i in range(n):
    angle = rng.uniform(-1.5, 1.5)
    t = [rng.uniform(-0.5, 0.5) for _ in range(3)]
    if kind == 'axis':
      local = np.concatenate([t, geom.q_exp([0, 0, angle])])
    elif kind == 'translation':
      local = np.concatenate([t, [0, 0, 0, 1.0]])
    else:
      local = geom.P_IDENTITY
    A.append(geom.p_mul(base, local))
  B = [geom.p_mul(geom.p_mul(W_B, a), H_E) for a in A]
  return A, B, 'any'


def run(plan, stats):
  stats.evaluations += 1
  A, B, expected = build(plan)
  name = plan['algorithm']
  limit = DRAWS_PER_ITERATION * plan['iterations']
  kind = plan['kind']
  stats.probe({'none': 'none_consistent', 'few': 'few_consistent',
               'good': 'good'}.get(kind, 'degenerate'))
  stats.fired['inconsistent_data' if kind in ('none', 'few') else
              'degenerate_data'] += kind != 'good'
  if plan['draws']['mode'] != 'seeded':
    stats.probe('scripted')
    stats.fired['scripted_draws'] += 1
    stats.nontrivial_now()
  if kind != 'good':
    stats.nontrivial_now()
  if name == 'tool':
    return run_tool(plan, A, B, expected, stats)
  with Kernel(seed=plan['seed']) as k:
    draws = Draws(plan['draws'], limit)
    over = []
    solved = []

    def body():
      with draws:
        try:
          return calibrate(A, B, name, plan['iterations'], solved)
        except TooManyDraws:
          over.append(True)
    value, res = call(k, name, body, seed=plan['seed'])
    k.note(np.array(A).tobytes(), draws.count, draws.hash(), res.code, value is not None and bool(value['success']))
    stats.kernel(k)
  if over or draws.count > limit:
    return violation('endless', '%s on %d pairs (%s): more than %d draws for '
                     '%d iterations', name, len(A), kind, limit,
                     plan['iterations'])
  # A combination needs a model of the sample and one of the inliers.
  combinations = math.comb(len(A), {'EC': 3, 'ES': 1}.get(name, len(A)))
  if name in ('EC', 'ES') and len(solved) > 2 * combinations:
    return violation('repeated', '%s on %d pairs (%s): %d models for %d '
                     'combinations', name, len(A), kind, len(solved),
                     combinations)
  if name in ('EC', 'ES') and combinations > 20 and not kind == 'still':
    stats.probe('exhausted')
  if draws.count > 100:
    stats.probe('many_draws')
  stats.state(name, kind, plan['draws']['mode'], res.code,
              value is not None and bool(value['success']),
              draws.count // max(1, plan['iterations'] * 50))
  if res.code != 0:
    filtering = name.endswith('filter') or name in ('EC', 'ES')
    insufficient = (filtering and pairs.distinct_axes(A, B, 0.9) < 4) or \
        name.startswith('baseline') or len(A) <= 3 or \
        kind in ('axis', 'still', 'translation')
    if insufficient:
      return None
    return violation('exception', '%s on %d pairs (%s) raised:\n%s', name,
                     len(A), kind, tail(res.out, 8))
  if value['success']:
    stats.probe('success')
    if value['pose'] is None:
      return violation('verdict', '%s: success without a transformation', name)
    if expected == 'fail':
      return violation('verdict', '%s on %d pairs (%s): success although fewer '
                       'than %d pairs are consistent', name, len(A), kind,
                       value['min'])
  else:
    stats.probe('failure')
    if value['pose'] is not None:
      return violation('verdict', '%s: failure with a transformation', name)
  return None


def run_tool(plan, A, B, expected, stats):
  stats.probe('tool')
  with Kernel(seed=plan['seed']) as k:
    for path, poses in (('a.csv', A), ('b.csv', B)):
      write_text(k, path, csv_text(np.hstack([[i * 0.1], p])
                                   for i, p in enumerate(poses)))
    write_text(k, 'offset.csv', '1.25\n')
    res = k.run_python(BIN + 'compute_hand_eye_calibration.py',
                       ['--aligned_poses_B_H_csv_file', 'a.csv',
                        '--aligned_poses_W_E_csv_file', 'b.csv',
                        '--extrinsics_output_csv_file', 'pose.csv',
                        '--time_offset_input_csv_file', 'offset.csv',
                        '--calibration_output_json_file', 'calib.json'],
                       'calibrate', seed=plan['seed'])
    written = [p for p in ('pose.csv', 'calib.json')
               if read_bytes(k.path(p)) is not None]
    k.note(res.code, written)
    stats.kernel(k)
  stats.state('tool', plan['kind'], plan['n'], res.code)
  if res.code == 0:
    if len(written) != 2:
      return violation('verdict', 'the tool ended with status 0 but wrote %s',
                       written)
    if expected == 'fail':
      return violation('verdict', 'the tool succeeded on %d pairs (%s) although '
                       'too few are consistent', len(A), plan['kind'])
  elif written:
    return violation('verdict', 'the tool ended with status %s but wrote %s',
                     res.code, written)
  return None


def shrink(plan):
  for n in (5, 6, 8, 12):
    if n < plan['n'] and (plan['kind'] != 'few' or n >= 8):
      yield dict(plan, n=n, good=min(plan['good'], n - 2))
  if plan['iterations'] > 1:
    yield dict(plan, iterations=1)
  if plan['draws']['mode'] != 'seeded':
    yield dict(plan, draws={'mode': 'seeded'})
  if plan['flip']:
    yield dict(plan, flip=False)
