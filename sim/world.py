"""The simulated physical world: a rigid body that moves, two pose sensors with
their own clocks, and the lossy channel that records them."""

import math
import random

import numpy as np

from sim import geom


class Trajectory(object):
  """Smooth random motion B_T_H(t).

  A sum of sinusoids per degree of freedom, inside an envelope that is zero
  (the body rests) up to t_start and from t_end on.
  """

  def __init__(self, seed, t_start, t_end, rot_amp=0.9, pos_amp=0.5, speed=1.0,
               n=4, rot_axes=(1., 1., 1.)):
    rng = random.Random('traj-%d' % seed)
    self.rot = [[(rot_amp * axis * rng.uniform(0.35, 1.0) / n * 2,
                  speed * rng.uniform(0.25, 2.2), rng.uniform(0, 2 * math.pi))
                 for _ in range(n)] for axis in rot_axes]
    self.pos = [[(pos_amp * rng.uniform(0.35, 1.0) / n * 2,
                  speed * rng.uniform(0.25, 2.2), rng.uniform(0, 2 * math.pi))
                 for _ in range(n)] for _ in range(3)]
    self.base = geom.random_pose(rng, 1.0)
    self.t_start = t_start
    self.t_end = t_end
    self.ramp = min(1.0, (t_end - t_start) / 4.0)

  def envelope(self, t):
    if t <= self.t_start or t >= self.t_end:
      return 0.0
    u = min(t - self.t_start, self.t_end - t) / self.ramp
    if u >= 1.0:
      return 1.0
    return math.sin(0.5 * math.pi * u) ** 2

  def at(self, t):
    e = self.envelope(t)
    r = [e * sum(a * math.sin(w * t + p) for a, w, p in terms)
         for terms in self.rot]
    x = [e * sum(a * math.sin(w * t + p) for a, w, p in terms)
         for terms in self.pos]
    local = np.concatenate([x, geom.q_exp(r)])
    return geom.p_mul(self.base, local)


def sharpness(motion, T, dt, lag, window=25):
  """How much the autocorrelation of the (smoothed) rotation speed drops within
  the lag: the part of 'sufficiently exciting' that matters for the offset."""
  q = [motion.at(i * dt)[3:] for i in range(int(T / dt) + 1)]
  w = []
  for a, b in zip(q, q[1:]):
    d = geom.q_mul(geom.q_conj(a), b)
    w.append(2 * (d[:3] if d[3] >= 0 else -d[:3]) / dt)
  w = np.array(w)
  kernel = np.ones(window) / window
  s = np.linalg.norm([np.convolve(w[:, i], kernel, 'same') for i in range(3)],
                     axis=0)
  n = max(1, int(round(lag / dt)))
  return 1.0 - float(np.dot(s[n:], s[:-n]) / np.dot(s, s))


class Sensor(object):
  """A pose sensor rigidly mounted on the body, with its own clock, and the
  recorder behind it.

  spec keys (all optional but rate, t0, t1):
    rate      samples per second
    t0, t1    first and last instant of the recording (true time)
    clock     clock reading = true time + clock
    jitter    deviation of the sampling instants, in sampling intervals
    noise     error of the time stamps, in sampling intervals
    drop      probability that a sample is lost
    bursts    [[start, length], ...] intervals in which everything is lost
    dup       probability that a sample is recorded twice
    bad       probability that a pose is grossly wrong
    grid      sampling instants are multiples of 1/64 s
    flip      probability that q is recorded as -q
  """

  def __init__(self, spec, seed):
    self.spec = spec
    self.seed = seed

  def record(self, motion, mount, frame, fired=None):
    """Rows [stamp, x, y, z, qx, qy, qz, qw] of frame * motion(t) * mount."""
    s = self.spec
    rng = random.Random('sensor-%s' % (self.seed,))
    fired = fired if fired is not None else {}

    def fire(name):
      fired[name] = fired.get(name, 0) + 1

    dt = 1.0 / s['rate']
    t = s['t0']
    if s.get('grid'):
      dt = max(1, round(dt * 64)) / 64.0
      t = round(t * 64) / 64.0
    rows = []
    n = int((s['t1'] - t) / dt) + 1
    for i in range(n):
      instant = t + i * dt
      # All draws happen for every sample, so that switching one fault off does
      # not change the others.
      u = [rng.random() for _ in range(7)]
      if s.get('jitter'):
        instant += (2 * u[0] - 1) * s['jitter'] * dt
        fire('sampling_jitter')
      stamp = instant
      if s.get('noise'):
        stamp += (2 * u[1] - 1) * s['noise'] * dt
        fire('stamp_noise')
      if u[2] < s.get('drop', 0.0):
        fire('sample_lost')
        continue
      if any(b <= instant - t <= b + l for b, l in s.get('bursts', ())):
        fire('burst_lost')
        continue
      pose = geom.p_mul(geom.p_mul(frame, motion.at(instant)), mount)
      if u[3] < s.get('bad', 0.0):
        fire('pose_corrupted')
        pose = geom.random_pose(random.Random('bad-%s-%d' % (self.seed, i)),
                                2.0)
      if u[4] < s.get('flip', 0.0):
        pose = np.concatenate([pose[:3], -pose[3:]])
      row = np.concatenate([[stamp + s.get('clock', 0.0)], pose])
      rows.append(row)
      if u[5] < s.get('dup', 0.0):
        fire('sample_duplicated')
        rows.append(row.copy())
    rows.sort(key=lambda r: r[0])
    return rows


def drop_duplicate_stamps(rows):
  out = []
  for row in rows:
    if not out or row[0] > out[-1][0]:
      out.append(row)
  return out


def mean_interval(rows):
  return (rows[-1][0] - rows[0][0]) / (len(rows) - 1)
