"""C02: the clock offset between two recordings is found."""

import collections
import random

import numpy as np

from checks.common import BIN, call, csv_text, parse_csv, read_bytes, tail
from checks.common import violation, write_text
from sim import geom, world
from sim.kernel import Kernel

ID = 'C02'
RUNS = {'quick': 1600, 'thorough': 24000}
RULE = ('two recordings of one seeded motion with seeded rates, offsets, sample '
        'loss, bursts, duplicates, sampling jitter and stamp noise; offset '
        'estimated by the function or the tool; non-trivial: a recorder fault '
        'fired or the clocks differ; distinct by history hash')
STATE_MEASURE = ('(mode, rates, which recording is slower, error in steps of a '
                 'quarter sampling interval)')
REAL = ['calculate_time_offset and everything below it',
        'bin/compute_aligned_poses.py and csv_io (tool runs)']
STUB = ['motion, sensors, clocks and recorder (simulated)']
ASSUMPTIONS = ['both recordings contain the whole motion and rest at both ends',
               'motion of at least 7 s whose rotation speed (smoothed over 25 '
               'samples) loses 1.3 % of its autocorrelation within the '
               'accuracy', 'at most 10 % of the samples are lost, '
               'bursts of at most 0.3 s']
PROBES = ['truth', 'shift', 'same', 'rotated', 'tool', 'epoch', 'lost',
          'A_slower', 'B_slower', 'jpl', 'idle']

RATES = [10, 12, 15, 20, 25, 30, 40]


def sensor(rng, T, rate):
  spec = {'rate': rate, 't0': rng.uniform(0, 1.5), 't1': T - rng.uniform(0, 1.5),
          'jitter': rng.choice([0, 0, 0.1, 0.2]),
          'noise': rng.choice([0, 0, 0.05, 0.1]),
          'drop': rng.choice([0, 0, 0.03, 0.05 if rate < 15 else 0.1]),
          'dup': rng.choice([0, 0, 0, 0.05]),
          'flip': rng.choice([0, 0.5]),
          'bursts': [[rng.uniform(0, T), rng.choice([0.1, 0.2, 0.3])]
                     for _ in range(rng.choice([0, 0, 1, 2]))]}
  return spec


def gen(rng, tier):
  T = rng.choice([12, 14, 16])
  rate = [rng.choice(RATES), rng.choice(RATES)]
  if rng.random() < 0.15:
    rate[1] = rate[0]
  mode = rng.choice(['truth', 'truth', 'truth', 'shift', 'rotated',
                     'tool', 'truth', 'same'] if rng.random() < 0.5 else
                    ['truth', 'shift', 'rotated', 'tool'])
  A, B = sensor(rng, T, rate[0]), sensor(rng, T, rate[1])
  clocks = [rng.choice([0.0, 0.0, rng.uniform(-20, 20), 1.5e9]),
            rng.choice([0.0, rng.uniform(-20, 20), 1.5e9])]
  plan = {'mode': mode, 'seed': rng.getrandbits(30), 'T': T,
          'motion': {'speed': rng.choice([1.0, 1.4, 1.8]),
                     'rot_amp': rng.choice([0.6, 0.9, 1.1])},
          'A': A, 'B': B, 'jpl': mode == 'tool' and rng.random() < 0.3}
  if mode in ('shift', 'same'):
    rates = [8, 16, 32] if mode == 'same' else [10, 16, 20, 32]
    A['rate'], B['rate'] = rng.choice(rates), rng.choice(rates)
    for s in (A, B):
      s.update(grid=True, jitter=0, noise=0)
    clocks = [rng.choice([0.0, 3.5, -20.25]), rng.choice([0.0, 7.75, 512.0])]
    plan['shift'] = [rng.choice([0.0, 1.0, -16.5, 1000.0, 0.3427734375]),
                     rng.choice([0.0, 2.25, -300.0, -0.1376953125])]
  if mode == 'same':
    # Both sensors see the same instants; nothing is lost.
    A['rate'] = rng.choice([16, 32])
    for s in (A, B):
      s.update(drop=0, bursts=[], dup=0)
    B.update(rate=A['rate'], t0=A['t0'], t1=A['t1'])
  elif rng.random() < 0.2:
    # One recording goes on long before or after the motion.
    plan['idle'] = True
    first, second = rng.choice([(A, B), (B, A)])
    first['t0'] -= rng.uniform(5, 20)
    if rng.random() < 0.7:
      second['t1'] += rng.uniform(5, 20)
  A['clock'], B['clock'] = clocks
  # The motion has to tell the offset: its rotation speed must not look the same
  # when it is shifted by the accuracy that is asked for.
  dt = 1.0 / min(A['rate'], B['rate'])
  for _ in range(30):
    motion = world.Trajectory(plan['seed'], 2.2, T - 2.2, **plan['motion'])
    if world.sharpness(motion, T, dt, 2 * dt + 0.05) >= 0.013:
      break
    plan['seed'] = rng.getrandbits(30)
    plan['motion']['speed'] = 1.8
  else:
    raise RuntimeError('no suitable motion found')
  return plan


def recordings(plan, fired, mount=None, frame=None):
  motion = world.Trajectory(plan['seed'], 2.2, plan['T'] - 2.2,
                            **plan['motion'])
  rng = random.Random('mount-%s' % plan['seed'])
  X = geom.random_pose(rng, 0.5)
  W = geom.random_pose(rng, 2.0)
  if mount is not None:
    X, W = mount, frame
  A = world.Sensor(plan['A'], 2 * plan['seed']).record(
      motion, geom.P_IDENTITY, geom.P_IDENTITY, fired)
  B = world.Sensor(plan['B'], 2 * plan['seed'] + 1).record(motion, X, W, fired)
  return np.array(A), np.array(B)


def estimate(A, B):
  from hand_eye_calibration.time_alignment import (FilteringConfig,
                                                   calculate_time_offset)
  from hand_eye_calibration.quaternion import Quaternion
  return float(calculate_time_offset(
      A[:, 0].copy(), [Quaternion(q=r[4:].copy()) for r in A],
      B[:, 0].copy(), [Quaternion(q=r[4:].copy()) for r in B],
      FilteringConfig()))


def tool(k, plan, A, B):
  rows = []
  for R in (A, B):
    R = R.copy()
    if plan['jpl']:
      R[:, 4:7] = -R[:, 4:7]
    rows.append(R)
  write_text(k, 'a.csv', csv_text(rows[0]))
  write_text(k, 'b.csv', csv_text(rows[1]))
  argv = ['--poses_B_H_csv_file', 'a.csv', '--poses_W_E_csv_file', 'b.csv',
          '--aligned_poses_B_H_csv_file', 'aa.csv',
          '--aligned_poses_W_E_csv_file', 'ab.csv',
          '--time_offset_output_csv_file', 'offset.csv']
  if plan['jpl']:
    argv += ['--quaternion_format', 'JPL']
  res = k.run_python(BIN + 'compute_aligned_poses.py', argv, 'align', seed=1)
  data = read_bytes(k.path('offset.csv'))
  table = parse_csv(data) if data else None
  return (table[0][0] if table else None), res


def run(plan, stats):
  stats.evaluations += 1
  fired = collections.Counter()
  mode = plan['mode']
  if mode == 'same':
    return run_same(plan, stats)
  A, B = recordings(plan, fired)
  stats.fired.update(fired)
  stats.probe(mode)
  if fired or plan['A']['clock'] != plan['B']['clock']:
    stats.nontrivial_now()
  for name in ('sample_lost', 'burst_lost'):
    if fired[name]:
      stats.probe('lost')
  if max(plan['A']['clock'], plan['B']['clock']) > 1e9:
    stats.probe('epoch')
    stats.fired['clock_epoch'] += 1
  if plan['jpl']:
    stats.probe('jpl')
  if plan.get('idle'):
    stats.probe('idle')
  dts = [world.mean_interval(A), world.mean_interval(B)]
  stats.probe('A_slower' if dts[0] > dts[1] else 'B_slower')
  dt = max(dts)
  bound = 2 * dt + 0.05
  truth = plan['B']['clock'] - plan['A']['clock']
  stats.simulated += plan['T']
  with Kernel(seed=plan['seed']) as k:
    if mode == 'tool':
      value, res = tool(k, plan, A, B)
    else:
      value, res = call(k, 'offset', lambda: estimate(A, B), seed=1)
    k.note(res.code, value)
    verdict = judge(k, plan, value, res, truth, bound, stats)
    if verdict is None and mode == 'shift':
      s = plan['shift']
      A2, B2 = A.copy(), B.copy()
      A2[:, 0] += s[0]
      B2[:, 0] += s[1]
      moved, res = call(k, 'shifted', lambda: estimate(A2, B2), seed=1)
      k.note(res.code, moved)
      stats.fired['clock_shift'] += 1
      if res.code != 0:
        verdict = violation('exception', 'after shifting the clocks by %r:\n%s',
                            s, tail(res.out, 8))
      elif abs(moved - value - (s[1] - s[0])) > 1e-5:
        verdict = violation('shift', 'offset %r becomes %r when the clocks are '
                            'shifted by %r', value, moved, s)
    if verdict is None and mode == 'rotated':
      for mount, frame in ((geom.P_IDENTITY, geom.P_IDENTITY),
                           (geom.random_pose(random.Random(
                               plan['seed'] + 7), 1.0), geom.P_IDENTITY)):
        _, B2 = recordings(plan, {}, mount, frame)
        again, res = call(k, 'rotated', lambda: estimate(A, B2), seed=1)
        k.note(res.code, again)
        stats.fired['mount_rotation'] += 1
        verdict = verdict or judge(k, plan, again, res, truth, bound, stats)
    stats.kernel(k)
  return verdict


def run_same(plan, stats):
  """The same orientations at the same instants: the correlation peaks at the
  true offset.  The recordings are clipped at different percentiles, which moves
  the peak by a sample in about one motion of 2000, so the majority counts."""
  stats.probe('same')
  stats.nontrivial_now()
  truth = plan['B']['clock'] - plan['A']['clock']
  exact, values = 0, []
  with Kernel(seed=plan['seed']) as k:
    for i in range(5):
      p = dict(plan, seed=plan['seed'] + i)
      A, B = recordings(p, collections.Counter(), geom.P_IDENTITY,
                        geom.P_IDENTITY)
      value, res = call(k, 'offset', lambda: estimate(A, B), seed=1)
      k.note(res.code, value)
      bound = 2 * world.mean_interval(A) + 0.05
      verdict = judge(k, plan, value, res, truth, bound, stats)
      if verdict is not None:
        break
      values.append(value)
      exact += abs(value - truth) < 1e-6
    stats.simulated += 5 * plan['T']
    stats.kernel(k)
  if verdict is None and exact < 3:
    verdict = violation('inexact', 'the same samples with a true offset of %r '
                        'give %r', truth, values)
  return verdict


def judge(k, plan, value, res, truth, bound, stats):
  if res.code != 0:
    return violation('exception', 'the estimation ended with %s:\n%s', res.code,
                     tail(res.out, 8))
  if value is None or not np.isfinite(value):
    return violation('offset', 'no offset: %r', value)
  error = value - truth
  stats.state(plan['mode'], plan['A']['rate'], plan['B']['rate'],
              round(error / bound * 8))
  if abs(error) > bound:
    return violation('offset', 'reported offset %r, true offset %r: the error '
                     '%.4f s is more than %.6f s (rates %s and %s)', value,
                     truth, error, bound, plan['A']['rate'], plan['B']['rate'])
  return None


def shrink(plan):
  for which in ('A', 'B'):
    s = plan[which]
    if plan['mode'] == 'same':
      break
    for key, value in (('jitter', 0), ('noise', 0), ('drop', 0), ('dup', 0),
                       ('flip', 0), ('bursts', []), ('clock', 0.0)):
      if s.get(key) != value:
        yield dict(plan, **{which: dict(s, **{key: value})})
  if plan['jpl']:
    yield dict(plan, jpl=False)
  if plan['mode'] in ('tool', 'rotated'):
    yield dict(plan, mode='truth', jpl=False)
  if plan['T'] > 12:
    t = plan['T'] - 12
    motion = world.Trajectory(plan['seed'], 2.2, 9.8, **plan['motion'])
    dt = 1.0 / min(plan['A']['rate'], plan['B']['rate'])
    if world.sharpness(motion, 12, dt, 2 * dt + 0.05) < 0.013:
      return
    yield dict(plan, T=12, A=dict(plan['A'], t1=plan['A']['t1'] - t),
               B=dict(plan['B'], t1=plan['B']['t1'] - t))
