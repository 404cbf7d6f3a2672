"""C01: calibrating two recordings recovers the true pose and clock offset."""

import collections
import math
import random

import numpy as np

from checks.common import BIN, calibration, csv_text, read_bytes, table, tail
from checks.common import violation, write_text
from sim import geom, world
from sim.kernel import Kernel

ID = 'C01'
RUNS = {'quick': 240, 'thorough': 5000}
RULE = ('a body with two pose sensors, each with its own clock, rate, sampling '
        'jitter, stamp noise and lossy recorder, is simulated; its recordings '
        'go through the alignment and the calibration tool; non-trivial: a '
        'recorder fault fired or the clocks differ; distinct by history hash')
STATE_MEASURE = ('(mode, storage variant, rates, size of pose and offset error '
                 'in tenths of the tolerance)')
REAL = ['bin/compute_aligned_poses.py', 'bin/compute_hand_eye_calibration.py',
        'csv_io, time_alignment, quaternion, dual_quaternion, '
        'dual_quaternion_hand_eye_calibration, extrinsic_calibration']
STUB = ['body, sensors, clocks and recorders (simulated)', 'tf (not installed; '
        'simulated module)']
ASSUMPTIONS = ['the rotation speed of the motion is varied (as in C02) and its '
               'rotation axes are distinct (screw axes of the aligned motion '
               'span three directions)', 'both recordings contain the whole '
               'motion and rest at both ends',
               'sampling at 12 Hz or faster, at most 5 % of the samples lost']
PROBES = ['same', 'exact_offset', 'lossy', 'jpl', 'inverted', 'A_slower',
          'B_slower', 'epoch', 'flip', 'duplicates', 'rounded']


def gen(rng, tier):
  T = rng.choice([8.5, 9.5])
  mode = rng.choice(['same', 'lossy', 'lossy'])
  specs = []
  for _ in range(2):
    specs.append({
        'rate': rng.choice([16, 20, 25, 30]),
        't0': rng.uniform(0, 1.5), 't1': T - rng.uniform(0, 1.5),
        'jitter': rng.choice([0, 0, 0.1]), 'noise': rng.choice([0, 0, 0.05]),
        'drop': rng.choice([0, 0, 0.03, 0.05]),
        'dup': rng.choice([0, 0, 0.03]), 'flip': rng.choice([0, 0.5]),
        'bursts': [[rng.uniform(0, T), rng.choice([0.1, 0.2])]
                   for _ in range(rng.choice([0, 0, 1]))]})
  specs[rng.randrange(2)]['rate'] = rng.choice([12, 12, 16])
  A, B = specs
  clocks = [rng.choice([0.0, rng.uniform(-20, 20), 1.5e9]),
            rng.choice([0.0, rng.uniform(-20, 20), 1.5e9])]
  if mode == 'same':
    for s in specs:
      s.update(grid=True, jitter=0, noise=0, drop=0, bursts=[], dup=0)
    A['rate'] = 16
    B.update(rate=rng.choice([16, 16, 32]), t0=A['t0'], t1=A['t1'])
    if rng.random() < 0.5:
      A['rate'], B['rate'] = B['rate'], A['rate']
    clocks = [rng.choice([0.0, 3.5, 1.5e9]), rng.choice([0.0, -20.25, 1.5e9])]
  A['clock'], B['clock'] = clocks
  motion = {'speed': rng.choice([1.0, 1.4]), 'rot_amp': rng.choice([0.9, 1.1]),
            'pos_amp': rng.choice([0.2, 0.4])}
  plan = {'mode': mode, 'T': T, 'A': A, 'B': B, 'motion': motion,
          'lever': rng.choice([0.1, 0.5]),
          'mount_angle': rng.choice([0.3, 2.0, math.pi]),
          'jpl': rng.random() < 0.3,
          'digits': rng.choice([None, None, 7]) if mode == 'lossy' else None,
          'inverted': rng.choice(['', '', 'A', 'B', 'AB'])}
  dt = 1.0 / min(A['rate'], B['rate'])
  for _ in range(200):
    plan['seed'] = rng.getrandbits(30)
    if suitable(plan, dt):
      return plan
    motion['speed'] = 1.4
  raise RuntimeError('no suitable motion found')


def suitable(plan, dt):
  T = plan['T']
  motion = world.Trajectory(plan['seed'], 2.2, T - 2.2, **plan['motion'])
  if world.sharpness(motion, T, dt, 2 * dt + 0.05) < 0.018:
    return False
  # Rotation axes of the motion since the start, for all larger rotations.
  start = geom.q_conj(motion.at(0.0)[3:])
  axes = []
  for i in range(int(T * 8)):
    q = geom.q_mul(start, motion.at(i / 8.0)[3:])
    n = float(np.linalg.norm(q[:3]))
    if n > 0.2:
      axes.append(q[:3] / n)
  if len(axes) < 20:
    return False
  s = np.linalg.svd(np.array(axes), compute_uv=False) / math.sqrt(len(axes))
  return s[2] > 0.25


def world_of(plan, fired):
  rng = random.Random('mount-%s' % plan['seed'])
  X = geom.random_pose(rng, plan['lever'], plan['mount_angle'])
  W = geom.random_pose(rng, 2.0)
  F = geom.random_pose(rng, 2.0)
  motion = world.Trajectory(plan['seed'], 2.2, plan['T'] - 2.2,
                            **plan['motion'])
  A = world.Sensor(plan['A'], 2 * plan['seed']).record(
      motion, geom.P_IDENTITY, F, fired)
  B = world.Sensor(plan['B'], 2 * plan['seed'] + 1).record(motion, X, W, fired)
  return motion, X, np.array(A), np.array(B)


def speeds(motion, T):
  """Root mean square speed and rotation speed while moving."""
  dt = 0.05
  poses = [motion.at(2.2 + i * dt) for i in range(int((T - 4.4) / dt))]
  pairs = list(zip(poses, poses[1:]))
  v = math.sqrt(np.mean([np.sum((p[:3] - q[:3]) ** 2) for p, q in pairs])) / dt
  w = math.sqrt(np.mean([geom.q_angle(p[3:], q[3:]) ** 2
                         for p, q in pairs])) / dt
  return v, w


def invert(data):
  rows = table(data, 'the aligned pose list')
  return csv_text(np.concatenate([[r[0]], geom.p_inv(np.array(r[1:]))])
                  for r in rows)


def pipeline(k, plan, A, B, tag):
  """Runs both tools; returns (offset, pose, calib, failed Result)."""
  jpl = plan['jpl']
  for name, rows in (('a', A), ('b', B)):
    rows = rows.copy()
    if jpl:
      rows[:, 4:7] = -rows[:, 4:7]
    if plan['digits']:
      rows[:, 1:] = np.round(rows[:, 1:], plan['digits'])
    write_text(k, tag + name + '.csv', csv_text(rows))
  res = k.run_python(
      BIN + 'compute_aligned_poses.py',
      ['--poses_B_H_csv_file', tag + 'a.csv', '--poses_W_E_csv_file',
       tag + 'b.csv', '--aligned_poses_B_H_csv_file', tag + 'aa.csv',
       '--aligned_poses_W_E_csv_file', tag + 'ab.csv',
       '--time_offset_output_csv_file', tag + 'offset.csv'] +
      (['--quaternion_format', 'JPL'] if jpl else []), 'align', seed=1)
  if res.code != 0:
    return None, None, None, res
  argv = []
  for which, name, direct, inverse in (('A', 'aa', 'B_H', 'H_B'),
                                       ('B', 'ab', 'W_E', 'E_W')):
    path = tag + name + '.csv'
    frame = direct
    if which in plan['inverted']:
      write_text(k, tag + name + '_inv.csv', invert(read_bytes(k.path(path))))
      path, frame = tag + name + '_inv.csv', inverse
    argv += ['--aligned_poses_%s_csv_file' % frame, path]
  res = k.run_python(
      BIN + 'compute_hand_eye_calibration.py',
      argv + ['--extrinsics_output_csv_file', tag + 'pose.csv',
              '--time_offset_input_csv_file', tag + 'offset.csv',
              '--calibration_output_json_file', tag + 'calib.json'],
      'calibrate', seed=1)
  if res.code != 0:
    return None, None, None, res
  offset = table(read_bytes(k.path(tag + 'offset.csv')), 'the offset', [(1, 1)])
  pose = table(read_bytes(k.path(tag + 'pose.csv')), 'the pose')
  pose = np.array([v for row in pose for v in row])
  calib = calibration(read_bytes(k.path(tag + 'calib.json')), 'calib.json')
  k.note(offset, list(pose))
  return offset[0][0], pose, calib, None


def calib_pose(calib):
  return np.array([calib['translation'][c] for c in 'xyz'] +
                  [calib['rotation'][c] for c in 'ijkw'])


def run(plan, stats):
  stats.evaluations += 1
  fired = collections.Counter()
  motion, X, A, B = world_of(plan, fired)
  stats.fired.update(fired)
  stats.probe(plan['mode'])
  if fired or plan['A']['clock'] != plan['B']['clock']:
    stats.nontrivial_now()
  for name, on in (('jpl', plan['jpl']), ('inverted', plan['inverted']),
                   ('epoch', max(plan['A']['clock'], plan['B']['clock']) > 1e9),
                   ('flip', plan['A']['flip'] or plan['B']['flip']),
                   ('duplicates', fired['sample_duplicated']),
                   ('rounded', plan['digits'])):
    if on:
      stats.probe(name)
      stats.fired['variant_' + name] += 1
  dts = [world.mean_interval(A), world.mean_interval(B)]
  stats.probe('A_slower' if dts[0] > dts[1] else 'B_slower')
  delta = 2 * max(dts) + 0.05
  truth = plan['B']['clock'] - plan['A']['clock']
  stats.simulated += plan['T']
  with Kernel(seed=plan['seed']) as k:
    offset, pose, calib, failed = pipeline(k, plan, A, B, 'x')
    other = None
    if failed is None and plan['jpl']:
      other = pipeline(k, dict(plan, jpl=False), A, B, 'y')
    stats.kernel(k)
  if failed is not None:
    return violation('failed', 'a tool ended with status %s:\n%s', failed.code,
                     tail(failed.out, 10))
  if pose.shape != (7,) or not np.all(np.isfinite(pose)):
    return violation('result', 'the written pose is %r', pose.tolist())
  if abs(offset - truth) > delta:
    return violation('offset', 'offset %r, but the true offset is %r', offset,
                     truth)
  v, w = speeds(motion, plan['T'])
  exact = plan['mode'] == 'same' and abs(offset - truth) < 1e-6
  tol = (2 * delta * (v + 0.5 * w), 2 * math.degrees(delta * w))
  if exact:
    stats.probe('exact_offset')
    # Stamps of the size of 1.5e9 s are kept to 2.4e-7 s only.
    slack = abs(offset - truth)
    if max(plan['A']['clock'], plan['B']['clock']) > 1e9:
      slack += 5e-7
    tol = (1e-9 + 4 * slack * (v + 0.5 * w),
           1e-7 + 4 * math.degrees(slack * w))
  err = geom.p_err(pose, X)
  stats.state(plan['mode'], plan['jpl'], plan['inverted'], plan['A']['rate'],
              plan['B']['rate'], round(10 * err[0] / tol[0]),
              round(10 * err[1] / tol[1]), round(10 * (offset - truth) / delta))
  if err[0] > tol[0] or err[1] > tol[1]:
    return violation('pose', 'the result is off by %.4g m and %.4g deg; the '
                     'motion allows %.4g m, %.4g deg (%s)', err[0], err[1],
                     tol[0], tol[1], plan['mode'])
  err = geom.p_err(calib_pose(calib), pose)
  if err[0] > 1e-9 or err[1] > 1e-5 or abs(calib['delay'] - offset) > 1e-9:
    return violation('json', 'the calibration %r is not pose %r, offset %r',
                     calib, pose.tolist(), offset)
  if other is not None:
    if other[3] is not None:
      return violation('failed', 'a tool ended with status %s:\n%s',
                       other[3].code, tail(other[3].out, 10))
    err = geom.p_err(other[1], pose)
    if err[0] > 1e-6 or err[1] > 1e-4 or abs(other[0] - offset) > 1e-6:
      return violation('variant', 'the result changes by %.4g m, %.4g deg, %.4g '
                       's if the poses are stored in Hamilton convention', err[0], err[1], other[0] - offset)
  return None


def shrink(plan):
  for key, value in (('jpl', False), ('inverted', ''), ('digits', None)):
    if plan[key] != value:
      yield dict(plan, **{key: value})
  for which in ('A', 'B'):
    s = plan[which]
    for key, value in (('jitter', 0), ('noise', 0), ('drop', 0), ('dup', 0),
                       ('flip', 0), ('bursts', []), ('clock', 0.0)):
      if s.get(key) != value:
        yield dict(plan, **{which: dict(s, **{key: value})})
