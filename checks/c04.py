"""C04: a calibration reported as successful is right, whatever was drawn."""

import math

import numpy as np

from checks.common import call, tail, violation
from sim import geom, pairs
from sim.draws import Draws, TooManyDraws
from sim.kernel import Kernel

ID = 'C04'
RUNS = {'quick': 640, 'thorough': 12000}
RULE = ('pose pairs of a seeded transformation with seeded gross outliers are '
        'calibrated by one of the algorithms under a seeded draw sequence; '
        'non-trivial: outliers, noise or scripted draws present; distinct by '
        'history hash')
STATE_MEASURE = ('(algorithm, draw mode, outlier kind, verdict, number of '
                 'outliers, inlier count)')
REAL = ['compute_hand_eye_calibration_RANSAC', 'compute_hand_eye_calibration_'
        'BASELINE', 'algorithm configurations', 'dual quaternion arithmetic']
STUB = ['random draws (seeded or scripted)', 'pose pairs (simulated)']
ASSUMPTIONS = ['outliers contradict every other pair by more than 0.03 in a '
               'scalar part of the relative motion',
               'at least 60 % of the pairs are consistent',
               'insufficient data may end in AssertionError instead of a '
               'verdict']
PROBES = ['success', 'outliers', 'must_succeed', 'RC', 'RS', 'EC', 'ES',
          'baseline', 'scripted', 'too_few']

ALGORITHMS = ['RC', 'RC_filter', 'RS', 'RS_filter', 'EC', 'ES', 'baseline',
              'baseline_filter', 'baseline_exhaustive', 'RC_plain',
              'RS_inliers_only', 'RS3']


def config_for(name, iterations=None):
  from hand_eye_calibration import algorithm_config as ac
  base = name.split('_')[0]
  filtered = name.endswith('_filter')
  if base == 'RC':
    config = ac.get_RANSAC_classic_config(filtered)[1]
  elif base in ('RS', 'RS3'):
    config = ac.get_RANSAC_scalar_part_inliers_config(filtered)[1]
  elif base == 'EC':
    config = ac.get_exhaustive_search_pose_inliers_config()[1]
  elif base == 'ES':
    config = ac.get_exhaustive_search_scalar_part_inliers_config()[1]
  else:
    config = ac.get_baseline_config(filtered)[1]
  if name == 'baseline_exhaustive':
    config.enable_exhaustive_search = True
  if name == 'RC_plain':
    config.ransac_model_refinement = False
  if name == 'RS_inliers_only':
    config.ransac_evaluate_refined_model_on_inliers_only = True
  if name == 'RS3':
    config.ransac_sample_size = 3
  if iterations is not None:
    config.ransac_max_number_iterations = iterations
  return config


def calibrate(A, B, name, iterations=None, solved=None):
  """solved: list to which an entry is added for each model computed."""
  from hand_eye_calibration import dual_quaternion_hand_eye_calibration as dh
  from hand_eye_calibration.dual_quaternion import DualQuaternion
  config = config_for(name, iterations)
  dq_a = [DualQuaternion.from_pose_vector(p.copy()) for p in A]
  dq_b = [DualQuaternion.from_pose_vector(p.copy()) for p in B]
  if solved is not None and hasattr(dh, 'compute_hand_eye_calibration'):
    solve = dh.compute_hand_eye_calibration

    def counted(*args, **kwargs):
      solved.append(1)
      return solve(*args, **kwargs)
    dh.compute_hand_eye_calibration = counted
  if config.use_baseline_approach:
    result = dh.compute_hand_eye_calibration_BASELINE(dq_a, dq_b, config)
  else:
    result = dh.compute_hand_eye_calibration_RANSAC(dq_a, dq_b, config)
  pose = None if result[1] is None else np.array(result[1].to_pose())
  return {'success': result[0], 'pose': pose, 'rmse': tuple(result[2]),
          'inliers': result[3], 'A': [d.to_pose() for d in dq_a],
          'B': [d.to_pose() for d in dq_b], 'min': config.min_num_inliers,
          'nA': len(dq_a), 'nB': len(dq_b)}


def gen(rng, tier):
  algorithm = rng.choice(ALGORITHMS)
  if algorithm == 'EC' and rng.random() < 0.6:
    algorithm = 'ES'
  n = rng.choice([24, 30, 36])
  if algorithm == 'EC':
    n = rng.choice([14, 15, 16])
  kind = rng.choice(['random', 'random', 'stuck', 'flipped', 'shifted'])
  style = rng.random()
  if style < 0.35:
    outliers = []
  else:
    limit = min(int(n * 0.4), n - 11)
    count = rng.randint(1, max(1, limit))
    placement = rng.choice(['random', 'first', 'last', 'block'])
    if placement == 'random':
      outliers = rng.sample(range(n), count)
    elif placement == 'first':
      outliers = list(range(count))
    elif placement == 'last':
      outliers = list(range(n - count, n))
    else:
      start = rng.randrange(n - count + 1)
      outliers = list(range(start, start + count))
  iterations = None
  if rng.random() < 0.18:
    iterations = 2
    # Hardly enough consistent pairs, or too few.
    good = rng.randint(7, 12)
    n = good + rng.randint(0, min(4, good // 2))
    outliers = rng.sample(range(n), n - good)
  draws = rng.choice([{'mode': 'seeded'}, {'mode': 'seeded'},
                      {'mode': 'stuck', 'period': rng.choice([2, 20])},
                      {'mode': 'favour', 'items': outliers[:4],
                       'p': rng.choice([0.5, 0.95])},
                      {'mode': 'favour', 'items': outliers[:2], 'mixed': True,
                       'p': rng.choice([0.5, 0.9])},
                      {'mode': 'window', 'width': rng.choice([3, 5])}])
  return {'algorithm': algorithm, 'draws': draws, 'iterations': iterations,
          'pairs': {'seed': rng.getrandbits(30), 'n': n, 'outliers': outliers,
                    'kind': kind, 'trans': rng.choice([0.1, 0.5, 1.0]),
                    'lever': rng.choice([0.05, 0.4, 1.5]),
                    'mount_angle': rng.choice([0.2, 2.0, math.pi]),
                    'noise': rng.choice([0.0, 0.0, 1e-4]),
                    'flip': rng.random() < 0.5},
          'seed': rng.getrandbits(30)}


def run(plan, stats):
  stats.evaluations += 1
  data = pairs.Pairs(plan['pairs'])
  name = plan['algorithm']
  stats.probe(name.split('_')[0].rstrip('3'))
  if data.outliers:
    stats.probe('outliers')
    stats.fired['outlier_pose'] += len(data.outliers)
    stats.nontrivial_now()
  if plan['draws']['mode'] != 'seeded':
    stats.probe('scripted')
    stats.fired['scripted_draws'] += 1
    stats.nontrivial_now()
  if plan['pairs']['noise']:
    stats.fired['pose_noise'] += 1
  if data.n_good < 10:
    stats.probe('too_few')
    stats.fired['poses_missing'] += 1
    stats.nontrivial_now()
  must = (not data.outliers and not plan['pairs']['noise'] and
          pairs.distinct_axes(data.A, data.B, 0.95) >= 12)
  with Kernel(seed=plan['seed']) as k:
    draws = Draws(plan['draws'])

    def body():
      with draws:
        return calibrate(data.A, data.B, name, plan.get('iterations'))
    value, res = call(k, name, body, seed=plan['seed'])
    k.note(draws.count, draws.hash())
    if value is not None and value['pose'] is not None:
      k.note(value['pose'].tobytes())
    stats.kernel(k)
  if must:
    stats.probe('must_succeed')
  if res.code != 0:
    if 'AssertionError' in (res.exc or '') and not must:
      return None
    return violation('exception', '%s raised:\n%s', name, tail(res.out, 8))
  stats.state(name, plan['draws']['mode'], plan['pairs']['kind'],
              bool(value['success']), len(data.outliers), value['inliers'])
  return judge(data, value, name, plan, must, stats)


def judge(data, value, name, plan, must, stats):
  if not value['success']:
    if must:
      return violation('failure', '%s failed on %d consistent pairs', name,
                       len(data.A))
    if value['pose'] is not None:
      return violation('verdict', '%s returned a pose with its failure', name)
    return None
  stats.probe('success')
  if value['pose'] is None or not np.all(np.isfinite(value['pose'])):
    return violation('verdict', '%s reported success with pose %s', name,
                     value['pose'])
  noisy = bool(plan['pairs']['noise'])
  tol_p, tol_o = (0.03, 1.0) if noisy else (1e-3, 0.05)
  err = geom.p_err(value['pose'], data.H_E)
  if err[0] > tol_p or err[1] > tol_o:
    return violation('wrong', '%s reported success with %d outliers of %d, but '
                     'the result is off by %.4g m, %.4g deg', name,
                     len(data.outliers), len(data.A), err[0], err[1])
  inliers = value['inliers']
  if inliers < value['min'] or inliers > data.n_good:
    return violation('inliers', '%s reported %s inliers; %d pairs are '
                     'consistent, the minimum is %d', name, inliers,
                     data.n_good, value['min'])
  # The reported errors belong to the reported result, for some common start.
  candidates = [pairs.rmse(data.A, data.B, value['pose'], ref)
                for ref in range(len(data.A))]
  if name == 'RS_inliers_only':
    good = [i for i in range(len(data.A)) if i not in data.outliers]
    candidates = [pairs.rmse([data.A[i] for i in good],
                             [data.B[i] for i in good], value['pose'], ref)
                  for ref in range(len(good))]
  got = [float(v) for v in value['rmse']]
  best = min(max(abs(c[0] - got[0]) / (1e-5 + 1e-4 * c[0]),
                 abs(c[1] - got[1]) / (5e-3 + 1e-4 * c[1]))
             for c in candidates)
  if not best <= 1.0:
    return violation('errors', '%s reported errors %r, but its result has e.g. '
                     '%r', name, got, candidates[0])
  for label, before, after in (('first', data.A, value['A']),
                               ('second', data.B, value['B'])):
    if len(before) != len(after):
      return violation('inputs', 'the %s input list changed', label)
    for i, (p, q) in enumerate(zip(before, after)):
      err = geom.p_err(p, q)
      if err[0] > 1e-6 or err[1] > 1e-4:
        return violation('inputs', '%s input pose %d changed by %r', label, i,
                         err)
  return None


def shrink(plan):
  p = plan['pairs']
  if plan['draws']['mode'] != 'seeded':
    yield dict(plan, draws={'mode': 'seeded'})
  items = p['outliers']
  size = len(items)
  while size >= 1:
    for start in range(0, len(items), size):
      yield dict(plan, pairs=dict(
          p, outliers=items[:start] + items[start + size:]))
    size //= 2
  for key, value in (('noise', 0.0), ('flip', False), ('kind', 'random'),
                     ('trans', 0.5), ('lever', 0.4)):
    if p[key] != value:
      yield dict(plan, pairs=dict(p, **{key: value}))
