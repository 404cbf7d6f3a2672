"""Synchronised pose pairs with outliers, and what the scalar parts of their
relative motions say about them (reference arithmetic)."""

import math
import random

import numpy as np

from sim import geom


def relative(a, b):
  """a^-1 * b"""
  return geom.p_mul(geom.p_inv(a), b)


def scalars(pose):
  """Scalar parts of the dual quaternion of a pose with w >= 0."""
  q = pose[3:7]
  t = pose[:3]
  if q[3] < 0:
    q = -q
  # dual part = 0.5 * t * q; its scalar part is -0.5 * t . v
  return float(q[3]), float(-0.5 * np.dot(t, q[:3]))


def matches(s, u, tol):
  """True if relative motions with these scalar parts can belong to one rigid
  transformation."""
  if abs(s[0] - u[0]) <= tol and abs(s[1] - u[1]) <= tol:
    return True
  # Close to a half turn the sign of the scalar parts is arbitrary.
  return (abs(s[0]) < 0.05 and abs(s[0] + u[0]) <= tol and
          abs(s[1] + u[1]) <= tol)


def axis(pose):
  v = pose[3:6]
  n = float(np.linalg.norm(v))
  return v / n if n > 1e-9 else None


def distinct_axes(A, B, threshold):
  """Greedy count of poses whose rotation axes differ in both lists."""
  kept = []
  for a, b in zip(A, B):
    va, vb = axis(a), axis(b)
    if va is None or vb is None:
      continue
    if all(abs(float(np.dot(va, ka))) <= threshold and
           abs(float(np.dot(vb, kb))) <= threshold for ka, kb in kept):
      kept.append((va, vb))
  return len(kept)


class Pairs(object):
  """spec: {n, outliers: [indices], seed, kind, trans}"""

  def __init__(self, spec):
    rng = random.Random('pairs-%s' % spec['seed'])
    n = spec['n']
    self.H_E = geom.random_pose(rng, spec.get('lever', 0.4),
                                spec.get('mount_angle', math.pi))
    self.W_B = geom.random_pose(rng, 2.0)
    scale = spec.get('trans', 0.5)
    self.A = []
    axes = []
    for i in range(n):
      # Axes spread over the sphere.
      best, best_d = None, -1.0
      for _ in range(12):
        q = geom.random_q(rng, 2.4)
        v = q[:3] / max(1e-9, np.linalg.norm(q[:3]))
        if abs(2 * math.acos(max(-1, min(1, q[3])))) < 0.5:
          continue
        d = min([1.0 - abs(float(np.dot(v, u))) for u in axes] or [1.0])
        if d > best_d:
          best, best_d = q, d
      if best is None:
        best = geom.q_exp([0.9, 0.1 * i, -0.3])
      axes.append(best[:3] / np.linalg.norm(best[:3]))
      t = np.array([rng.uniform(-scale, scale) for _ in range(3)])
      self.A.append(np.concatenate([t, best]))
    self.B = [geom.p_mul(geom.p_mul(self.W_B, a), self.H_E) for a in self.A]
    self.outliers = sorted(set(i for i in spec['outliers'] if i < n))
    stuck = None
    self.cache = {}
    for i in self.outliers:
      for attempt in range(60):
        if spec.get('kind') == 'stuck' and attempt < 1:
          # The sensor repeats its last output (plus a little).
          if stuck is None:
            stuck = geom.random_pose(rng, 1.0)
          bad = stuck.copy()
          bad[:3] += [rng.uniform(-1e-3, 1e-3) for _ in range(3)]
        elif spec.get('kind') == 'flipped' and attempt < 1:
          # Orientation of the opposite convention.
          bad = self.B[i].copy()
          bad[3:6] = -bad[3:6]
        elif spec.get('kind') == 'shifted' and attempt < 40:
          # Right orientation, wrong position.
          bad = self.B[i].copy()
          bad[:3] += [rng.uniform(-1.5, 1.5) for _ in range(3)]
        else:
          bad = geom.random_pose(rng, 1.5)
        if self.gross(i, bad):
          self.B[i] = bad
          break
      else:
        # Could not make it clearly wrong; keep the pair consistent.
        pass
    truth = [geom.p_mul(geom.p_mul(self.W_B, a), self.H_E) for a in self.A]
    self.outliers = [i for i in range(n)
                     if max(geom.p_err(self.B[i], truth[i])) > 1e-9]
    noise = spec.get('noise', 0.0)
    if noise:
      for i in range(n):
        d = np.array([rng.gauss(0, noise) for _ in range(6)])
        self.B[i] = geom.p_mul(
            self.B[i], np.concatenate([d[:3], geom.q_exp(d[3:])]))
    # Stored sign of the quaternions is arbitrary.
    if spec.get('flip'):
      for poses in (self.A, self.B):
        for i in range(n):
          if rng.random() < 0.5:
            poses[i] = np.concatenate([poses[i][:3], -poses[i][3:]])
    self.n_good = n - len(self.outliers)

  def gross(self, i, bad):
    """bad at i clearly contradicts every other pair."""
    inv = geom.p_inv(bad)
    for j in range(len(self.A)):
      if j == i:
        continue
      key = (i, j)
      if key not in self.cache:
        self.cache[key] = scalars(relative(self.A[i], self.A[j]))
      if matches(self.cache[key], scalars(geom.p_mul(inv, self.B[j])), 0.03):
        return False
    return True


def errors(A, B, H_E, ref):
  """Position and orientation differences of the two paths when both start at
  pose ref."""
  E_H = geom.p_inv(H_E)
  C = [geom.p_mul(b, E_H) for b in B]
  return [geom.p_err(relative(A[ref], a), relative(C[ref], c))
          for a, c in zip(A, C)]


def rmse(A, B, H_E, ref):
  """Root mean squares of these."""
  sp = so = 0.0
  for p, o in errors(A, B, H_E, ref):
    sp += p * p
    so += o * o
  return math.sqrt(sp / len(A)), math.sqrt(so / len(A))
