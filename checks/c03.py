"""C03: aligned pose pairs belong to the same instant and are never invented."""

import bisect
import math
import random

import numpy as np

from checks.common import BIN, call, csv_text, parse_csv, read_bytes, tail
from checks.common import violation, write_text
from sim import geom, world
from sim.kernel import Kernel

ID = 'C03'
RUNS = {'quick': 6000, 'thorough': 60000}
RULE = ('two recordings with seeded rates, start/stop, sample loss (single and '
        'bursts of critical length), duplicates, jitter and clock offset are '
        'aligned; non-trivial: at least one recorder fault and at least one '
        'candidate stamp; distinct by history hash')
STATE_MEASURE = ('(which recording is slower, sets of must/may/must-not stamp '
                 'verdicts by neighbour distance in steps of 10 ms)')
REAL = ['compute_aligned_poses and everything below it',
        'bin/compute_aligned_poses.py and csv_io (tool runs)']
STUB = ['sensors and recorder (simulated motion, clocks, loss, duplicates)']
ASSUMPTIONS = ['recordings are sorted by time, a repeated stamp carries the '
               'same pose', 'distances within 1e-6 s of the 0.1 s limit are '
               'not judged']
PROBES = ['gap', 'tie', 'same_instant', 'no_overlap', 'tiny', 'epoch',
          'duplicate', 'B_slower', 'A_slower', 'tool', 'burst', 'long']

LIMIT = 0.1


def recorder(rng, rate, t0, t1, grid, fired):
  """Stamps of one sensor with the faults of its recorder."""
  dt = 1.0 / rate
  if grid:
    dt = max(1, round(dt * 64)) / 64.0
    t0 = round(t0 * 64) / 64.0
  n = max(2, int((t1 - t0) / dt))
  jitter = rng.choice([0, 0, 0.05, 0.3]) * dt
  stamps = []
  for i in range(n):
    t = t0 + i * dt
    if jitter and not grid:
      t += rng.uniform(-jitter, jitter)
    stamps.append(t)
  stamps.sort()
  if jitter and not grid:
    fired['jitter'] += 1
  if rng.random() < 0.5:
    p = rng.choice([0.02, 0.1, 0.4])
    kept = [t for t in stamps if rng.random() > p]
    fired['drop'] += len(stamps) - len(kept)
    stamps = kept if len(kept) >= 2 else stamps
  for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
    length = rng.choice([0.04, 0.09, 0.11, 0.15, 0.19, 0.21, 0.3, 0.6])
    begin = rng.uniform(t0, t1)
    kept = [t for t in stamps if not begin < t < begin + length]
    fired['burst_loss'] += len(stamps) - len(kept)
    stamps = kept if len(kept) >= 2 else stamps
  if rng.random() < 0.3:
    for _ in range(rng.randrange(1, 4)):
      t = rng.choice(stamps)
      bisect.insort(stamps, t)
      fired['duplicate'] += 1
  if rng.random() < 0.2:
    # Buffered samples that were stamped on arrival.
    for _ in range(rng.randrange(1, 4)):
      t = rng.choice(stamps)
      bisect.insort(stamps, t + (2.0 ** -10 if grid else
                                 rng.uniform(5e-5, 9e-4)))
      fired['stamp_burst'] += 1
  return stamps


def gen(rng, tier):
  import collections
  fired = collections.Counter()
  if rng.random() < 0.06:
    return {'mode': 'tool', 'seed': rng.getrandbits(30),
            'rate_A': rng.choice([8, 10, 16]), 'rate_B': rng.choice([8, 10, 16]),
            'offset': rng.choice([0.0, 1.25, -3.5, 1.5e9]),
            'T': 8.0, 'drop': rng.choice([0.0, 0.1]),
            'jpl': rng.random() < 0.3, 'epoch': 0}
  grid = rng.random() < 0.5
  epoch = rng.choice([0.0, 0.0, 1.5e9])
  style = rng.random()
  rates = [8, 10, 12, 16, 20, 30, 50]
  rate_a, rate_b = rng.choice(rates), rng.choice(rates)
  if rng.random() < 0.2:
    rate_b = rate_a
  span = rng.choice([0.6, 1.2, 2.5])
  if style < 0.1:
    span = 0.3
  elif style > 0.985:
    span = 40.0
  a0, b0 = rng.uniform(0, 0.4), rng.uniform(0, 0.4)
  a1, b1 = span + rng.uniform(-0.2, 0.4), span + rng.uniform(-0.2, 0.4)
  if 0.95 < style < 0.985:
    b0, b1 = a1 + rng.choice([0.0, 0.05, 0.5]), a1 + span + 0.6
  if grid and rng.random() < 0.3:
    b0 = a0
  a = recorder(rng, rate_a, a0, max(a1, a0 + 0.1), grid, fired)
  b = recorder(rng, rate_b, b0, max(b1, b0 + 0.1), grid, fired)
  if style < 0.1:
    a, b = a[:rng.randrange(2, 6)], b[:rng.randrange(2, 6)]
  offset = rng.choice([0.0, 0.25, -2.5, 100.5, rng.uniform(-5, 5)])
  if grid and not offset * 64 == int(offset * 64):
    offset = 0.5
  if epoch and rng.random() < 0.3:
    offset = -epoch
  return {'mode': 'direct', 'seed': rng.getrandbits(30), 'epoch': epoch,
          'offset': offset,
          'A': [t + (epoch - offset) for t in a], 'B': [t + epoch for t in b],
          'flip': rng.random() < 0.3, 'fired': dict(fired)}


def pose_for(seed, which, stamp, flip):
  rng = random.Random('%s/%s/%r' % (seed, which, stamp))
  pose = geom.random_pose(rng, 1.0, 3.0)
  if flip and rng.random() < 0.5:
    pose[3:] = -pose[3:]
  return pose


def ulp(x):
  return max(np.spacing(abs(x)), 1e-16)


def judge(A, B, offset, out_a, out_b, stats, exact):
  """A, B: rows [t, pose]; A's stamps are shifted by offset."""
  ta = [float(r[0]) + offset for r in A]
  tb = [float(r[0]) for r in B]
  if len(out_a) != len(out_b):
    return violation('length', '%d poses against %d', len(out_a), len(out_b))
  for i in range(len(out_a)):
    if abs(out_a[i][0] - out_b[i][0]) > 1e-6:
      return violation('stamp', 'pair %d has stamps %r and %r', i,
                       float(out_a[i][0]), float(out_b[i][0]))
  da = float(np.median(np.diff(ta)))
  db = float(np.median(np.diff(tb)))
  if abs(da - db) < 1e-9 and da != db or (
      abs(da - db) < 4 * ulp(ta[0]) + 4 * ulp(tb[0]) and da != db):
    choices = ['A', 'B']
  elif da >= db:
    choices = ['A']
  else:
    choices = ['B']
  if da == db:
    stats.probe('tie')
  stats.probe('A_slower' if choices[0] == 'A' else 'B_slower')
  problems = []
  for choice in choices:
    low, high = (ta, tb) if choice == 'A' else (tb, ta)
    problem = judge_stamps(low, high, [float(r[0]) for r in out_a], stats,
                           exact)
    if problem is None:
      break
    problems.append(problem)
  else:
    return problems[0]
  for name, rows, times, out in (('first', A, ta, out_a),
                                 ('second', B, tb, out_b)):
    problem = judge_poses(name, rows, times, out)
    if problem is not None:
      return problem
  return None


def verdict(s, low, high, exact):
  start = max(low[0], high[0])
  end = min(low[-1], high[-1])
  eps = 1e-6
  if s < start or s > end:
    if start - eps < s < end + eps and s not in high:
      return 'may'
    return 'no'
  i = bisect.bisect_left(high, s)
  tail_end = s > high[-2]
  if i < len(high) and high[i] == s:
    # Without exact arithmetic the instants may differ by a rounding error.
    return 'may' if tail_end or not exact else 'must'
  left, right = high[i - 1], high[i]
  if min(s - left, right - s) < eps:
    return 'may'
  gap_l, gap_r = s - left, right - s
  if gap_l > LIMIT + eps or gap_r > LIMIT + eps:
    return 'no'
  if gap_l < LIMIT - eps and gap_r < LIMIT - eps:
    return 'may' if tail_end or abs(s - high[-2]) < eps else 'must'
  return 'may'


def judge_stamps(low, high, out, stats, exact):
  verdicts = [verdict(s, low, high, exact) for s in low]
  pos = 0
  used = [0] * len(low)
  for i, t in enumerate(out):
    while pos < len(low) and low[pos] < t - 1e-6:
      pos += 1
    # The same stamp may have been recorded more than once.
    j = pos
    while j < len(low) and used[j] and abs(low[j] - t) <= 1e-6:
      j += 1
    if j >= len(low) or abs(low[j] - t) > 1e-6:
      return violation('stamp', 'pair %d: %r is not a (further) stamp of the '
                       'slower recording in order', i, t)
    if verdicts[j] == 'no':
      return violation('invented', 'pair %d: the other recording has no '
                       'samples within 0.1 s on both sides of %r', i, t)
    used[j] += 1
  present = set()
  for j, s in enumerate(low):
    if used[j]:
      present.add(s)
  for j, s in enumerate(low):
    if verdicts[j] == 'must' and s not in present:
      return violation('lost', 'stamp %r has close neighbours but no pair', s)
  stats.state(tuple(verdicts))
  if 'no' in verdicts:
    stats.probe('gap')
  if set(high) & set(low):
    stats.probe('same_instant')
  if 'must' not in verdicts and 'may' not in verdicts:
    stats.probe('no_overlap')
  return None


def judge_poses(name, rows, times, out):
  for i, row in enumerate(out):
    t = float(row[0])
    eps = 4 * ulp(t) + 1e-12
    i_r = bisect.bisect_left(times, t)
    options = []
    for j in range(max(0, i_r - 2), min(len(times), i_r + 3)):
      if abs(times[j] - t) <= eps:
        slip = abs(times[j] - t)
        if slip:
          widths = [w for w in np.diff(times[max(0, j - 2):j + 3]) if w > eps]
          slip = 10 * eps / min(widths) if widths else 0.0
        options.append((np.asarray(rows[j][1:8], dtype=float), 1e-9 + slip,
                        1e-7 + slip))
    l = bisect.bisect_right(times, t) - 1
    r = i_r
    if not options and 0 <= l and r < len(times) and times[l] < t < times[r]:
      width = times[r] - times[l]
      f = (t - times[l]) / width
      pl = np.asarray(rows[l][1:8], dtype=float)
      pr = np.asarray(rows[r][1:8], dtype=float)
      pose = np.concatenate([pl[:3] * (1 - f) + pr[:3] * f,
                             geom.q_slerp(pl[3:], pr[3:], f)])
      rel = 4 * eps / width
      options.append((pose, 1e-8 + rel * 10, 1e-6 + rel * 10))
    if not options:
      return violation('pose', '%s pose %d at %r has no neighbours', name, i, t)
    good = False
    for pose, tol_p, tol_q in options:
      err_p = float(np.max(np.abs(np.asarray(row[1:4]) - pose[:3])))
      norm = float(np.linalg.norm(row[4:8]))
      err_q = geom.q_angle(geom.q_norm(row[4:8]), pose[3:])
      if err_p <= tol_p and err_q <= tol_q and abs(norm - 1) < 1e-6:
        good = True
    if not good:
      return violation('pose', '%s pose %d at %r is off by %.3g m, %.3g rad '
                       '(norm %.9f)', name, i, t, err_p, err_q, norm)
  return None


def run(plan, stats):
  stats.evaluations += 1
  if plan['mode'] == 'tool':
    return run_tool(plan, stats)
  A = [np.concatenate([[t], pose_for(plan['seed'], 'A', t, plan['flip'])])
       for t in plan['A']]
  B = [np.concatenate([[t], pose_for(plan['seed'], 'B', t, plan['flip'])])
       for t in plan['B']]
  for name, n in plan['fired'].items():
    stats.fired[name] += n
  if plan['fired'].get('duplicate'):
    stats.probe('duplicate')
  if plan['epoch']:
    stats.probe('epoch')
  if plan['fired'].get('stamp_burst'):
    stats.probe('burst')
  if max(len(A), len(B)) > 500:
    stats.probe('long')
  if min(len(A), len(B)) < 6:
    stats.probe('tiny')
  if sum(plan['fired'].values()):
    stats.nontrivial_now()
  with Kernel(seed=plan['seed']) as k:
    a, b = np.array(A), np.array(B)

    def body():
      from hand_eye_calibration.time_alignment import compute_aligned_poses
      return compute_aligned_poses(a, b, plan['offset'])
    value, res = call(k, 'align', body)
    stats.simulated += max(A[-1][0] - A[0][0], B[-1][0] - B[0][0])
    if res.code != 0:
      stats.kernel(k)
      return violation('exception', 'alignment raised:\n%s', tail(res.out, 8))
    out_a, out_b = np.asarray(value[0]), np.asarray(value[1])
    k.note(out_a.tobytes(), out_b.tobytes())
    stats.kernel(k)
  if not np.array_equal(a, np.array(A)) or not np.array_equal(b, np.array(B)):
    return violation('changed', 'alignment changed the given recordings')
  exact = all(float(t * 1024).is_integer()
              for t in plan['A'] + plan['B'] + [plan['offset']])
  return judge(A, B, plan['offset'], out_a, out_b, stats, exact)


def run_tool(plan, stats):
  stats.probe('tool')
  rng = random.Random('tool-%s' % plan['seed'])
  T = plan['T']
  traj = world.Trajectory(plan['seed'], 1.5, T - 1.5)
  rows = []
  for which, rate in (('A', plan['rate_A']), ('B', plan['rate_B'])):
    t0 = rng.uniform(0, 0.5)
    recording = []
    for i in range(int((T - t0) * rate)):
      t = t0 + i / float(rate)
      if rng.random() < plan['drop']:
        stats.fired['drop'] += 1
        continue
      pose = traj.at(t)
      stamp = t if which == 'A' else t + plan['offset']
      recording.append(np.concatenate([[stamp], pose]))
    rows.append(recording)
  stats.simulated += T
  with Kernel(seed=plan['seed']) as k:
    for name, recording in zip('AB', rows):
      text = []
      for r in recording:
        r = r.copy()
        if plan['jpl']:
          r[4:7] = -r[4:7]
        text.append(r)
      write_text(k, '%s.csv' % name, csv_text(text))
    argv = ['--poses_B_H_csv_file', 'A.csv', '--poses_W_E_csv_file', 'B.csv',
            '--aligned_poses_B_H_csv_file', 'oA.csv',
            '--aligned_poses_W_E_csv_file', 'oB.csv',
            '--time_offset_output_csv_file', 'offset.csv']
    if plan['jpl']:
      argv += ['--quaternion_format', 'JPL']
    res = k.run_python(BIN + 'compute_aligned_poses.py', argv)
    data = [read_bytes(k.path(n)) for n in ('oA.csv', 'oB.csv', 'offset.csv')]
    k.note(data)
    stats.kernel(k)
    if res.code != 0:
      return violation('exception', 'the tool failed:\n%s', tail(res.out, 8))
  stats.nontrivial_now()
  parsed = [parse_csv(d) if d is not None else None for d in data]
  if parsed[2] is None or len(parsed[2]) != 1:
    return violation('output', 'no offset written')
  offset = parsed[2][0][0]
  if parsed[0] is None or parsed[1] is None:
    return violation('output', 'no aligned poses written')
  # The files carry the stamps of the tool; the offset is in the file.
  return judge(rows[0], rows[1], offset, np.array(parsed[0]),
               np.array(parsed[1]), stats, False)


def shrink(plan):
  if plan['mode'] == 'tool':
    for key, value in (('drop', 0.0), ('jpl', False), ('offset', 0.0)):
      if plan[key] != value:
        yield dict(plan, **{key: value})
    return
  for key in ('A', 'B'):
    n = len(plan[key])
    size = n // 2
    while size >= 1:
      for start in range(0, n, size):
        out = plan[key][:start] + plan[key][start + size:]
        if 2 <= len(out) < n:
          yield dict(plan, **{key: out})
      size //= 2
  if plan['flip']:
    yield dict(plan, flip=False)
