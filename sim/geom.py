"""Rigid-body reference arithmetic used by the oracles.

Written independently of the package under test (rotation matrices and
[x, y, z, w] arrays, no import from /repo), so that an oracle never repeats a
mistake of the code it judges.
"""

import math

import numpy as np


def q_mul(a, b):
  ax, ay, az, aw = a
  bx, by, bz, bw = b
  return np.array([
      aw * bx + ax * bw + ay * bz - az * by,
      aw * by - ax * bz + ay * bw + az * bx,
      aw * bz + ax * by - ay * bx + az * bw,
      aw * bw - ax * bx - ay * by - az * bz])


def q_conj(a):
  return np.array([-a[0], -a[1], -a[2], a[3]])


def q_norm(a):
  a = np.asarray(a, dtype=float)
  return a / math.sqrt(float(np.dot(a, a)))


def q_rot(q, v):
  q = np.asarray(q, dtype=float)
  v = np.asarray(v, dtype=float)
  u = q[:3]
  t = 2.0 * np.cross(u, v)
  return v + q[3] * t + np.cross(u, t)


def q_exp(rotvec):
  rotvec = np.asarray(rotvec, dtype=float)
  angle = math.sqrt(float(np.dot(rotvec, rotvec)))
  if angle < 1e-12:
    return q_norm(np.array([rotvec[0] / 2, rotvec[1] / 2, rotvec[2] / 2, 1.0]))
  axis = rotvec / angle
  s = math.sin(angle / 2)
  return np.array([axis[0] * s, axis[1] * s, axis[2] * s, math.cos(angle / 2)])


def q_angle(a, b):
  """Angle in rad of the rotation that takes a to b, in [0, pi]."""
  d = q_mul(q_conj(a), b)
  v = math.sqrt(float(np.dot(d[:3], d[:3])))
  return 2.0 * math.atan2(v, abs(float(d[3])))


def q_matrix(q):
  return np.array([q_rot(q, e) for e in np.eye(3)]).T


def q_slerp(a, b, f):
  """Shortest-arc interpolation, via the relative rotation vector."""
  d = q_mul(q_conj(a), b)
  if d[3] < 0:
    d = -d
  v = math.sqrt(float(np.dot(d[:3], d[:3])))
  if v < 1e-15:
    return np.array(a, dtype=float)
  ang = 2.0 * math.atan2(v, float(d[3]))
  return q_mul(a, q_exp(d[:3] / v * (ang * f)))


def random_q(rng, max_angle=math.pi):
  while True:
    v = np.array([rng.uniform(-1, 1) for _ in range(3)])
    n = float(np.dot(v, v))
    if 1e-4 < n <= 1.0:
      break
  return q_exp(v / math.sqrt(n) * rng.uniform(0.0, max_angle))


# A pose is [x, y, z, qx, qy, qz, qw].


def p_mul(a, b):
  return np.concatenate([np.asarray(a[:3]) + q_rot(a[3:7], b[:3]),
                         q_mul(a[3:7], b[3:7])])


def p_inv(a):
  qi = q_conj(a[3:7])
  return np.concatenate([-q_rot(qi, a[:3]), qi])


P_IDENTITY = np.array([0., 0., 0., 0., 0., 0., 1.])


def p_err(a, b):
  """(position error in m, orientation error in deg)."""
  return (float(np.linalg.norm(np.asarray(a[:3]) - np.asarray(b[:3]))),
          math.degrees(q_angle(a[3:7], b[3:7])))


def random_pose(rng, max_t, max_angle=math.pi):
  t = np.array([rng.uniform(-max_t, max_t) for _ in range(3)])
  return np.concatenate([t, random_q(rng, max_angle)])
