"""Simulated parts of ROS that the exporters use: rospy time, rosbag, tf."""

import bisect
import functools
import os
import types

import numpy as np

from sim import geom


@functools.total_ordering
class _Stamp(object):

  def __init__(self, secs=0, nsecs=0):
    if isinstance(secs, float):
      whole = int(secs // 1)
      nsecs += int(round((secs - whole) * 1e9))
      secs = whole
    total = int(secs) * 1000000000 + int(nsecs)
    self.secs, self.nsecs = divmod(total, 1000000000)

  @classmethod
  def from_sec(cls, value):
    return cls(float(value))

  def to_nsec(self):
    return self.secs * 1000000000 + self.nsecs

  def to_sec(self):
    return float(self.secs) + float(self.nsecs) / 1e9

  def is_zero(self):
    return self.to_nsec() == 0

  def __bool__(self):
    return not self.is_zero()

  def __hash__(self):
    return hash((type(self).__name__, self.to_nsec()))

  def __eq__(self, other):
    return isinstance(other, _Stamp) and self.to_nsec() == other.to_nsec()

  def __lt__(self, other):
    if not isinstance(other, _Stamp):
      return NotImplemented
    return self.to_nsec() < other.to_nsec()

  def __repr__(self):
    return '%s[%d]' % (type(self).__name__, self.to_nsec())


class Duration(_Stamp):

  def __add__(self, other):
    return type(other)(0, self.to_nsec() + other.to_nsec())

  def __sub__(self, other):
    return Duration(0, self.to_nsec() - other.to_nsec())

  def __neg__(self):
    return Duration(0, -self.to_nsec())


class Time(_Stamp):

  def __add__(self, other):
    return Time(0, self.to_nsec() + other.to_nsec())

  def __sub__(self, other):
    if isinstance(other, Duration):
      return Time(0, self.to_nsec() - other.to_nsec())
    return Duration(0, self.to_nsec() - other.to_nsec())


class Message(object):

  def __init__(self, **fields):
    self.__dict__.update(fields)


def transform(stamp_ns, parent, child, pose):
  """A geometry_msgs/TransformStamped."""
  return Message(
      header=Message(stamp=Time(0, stamp_ns), frame_id=parent, seq=0),
      child_frame_id=child,
      transform=Message(
          translation=Message(x=float(pose[0]), y=float(pose[1]),
                              z=float(pose[2])),
          rotation=Message(x=float(pose[3]), y=float(pose[4]), z=float(pose[5]),
                           w=float(pose[6]))))


class Exception_(Exception):
  pass


class LookupException(Exception_):
  pass


class ConnectivityException(Exception_):
  pass


class ExtrapolationException(Exception_):
  pass


class InvalidArgument(Exception_):
  pass


def _name(frame):
  return frame.lstrip('/')


class Transformer(object):
  """The buffer of tf: one time-ordered cache per child frame."""

  def __init__(self, interpolate=True, cache_time=None):
    self.limit = (cache_time or Duration(10.0)).to_nsec()
    self.caches = {}
    self.known = set()

  def setTransform(self, msg, authority='default_authority'):
    child, parent = _name(msg.child_frame_id), _name(msg.header.frame_id)
    if child == parent or not child or not parent:
      return
    t, r = msg.transform.translation, msg.transform.rotation
    pose = np.array([t.x, t.y, t.z, r.x, r.y, r.z, r.w])
    if not np.all(np.isfinite(pose)):
      return
    cache = self.caches.setdefault(child, ([], []))
    self.known.update((child, parent))
    stamp = msg.header.stamp.to_nsec()
    if cache[0] and cache[0][-1] > stamp + self.limit:
      return  # Too old.
    i = bisect.bisect_left(cache[0], stamp)
    if i < len(cache[0]) and cache[0][i] == stamp:
      return  # Repeated data.
    cache[0].insert(i, stamp)
    cache[1].insert(i, (parent, pose))
    oldest = bisect.bisect_left(cache[0], cache[0][-1] - self.limit)
    del cache[0][:oldest], cache[1][:oldest]

  def _at(self, child, stamp):
    """(parent, pose) of a frame at a time."""
    stamps, values = self.caches[child]
    if stamp == 0:
      return values[-1]
    i = bisect.bisect_left(stamps, stamp)
    if i < len(stamps) and stamps[i] == stamp:
      return values[i]
    if i == 0 or i == len(stamps):
      raise ExtrapolationException('Lookup would require extrapolation')
    (parent, a), (parent_b, b) = values[i - 1], values[i]
    if parent != parent_b:
      return values[i - 1]
    u = (stamp - stamps[i - 1]) / float(stamps[i] - stamps[i - 1])
    return parent, np.concatenate([(1 - u) * a[:3] + u * b[:3],
                                   geom.q_slerp(a[3:], b[3:], u)])

  def _chain(self, frame, stamp):
    """[(frame, pose in frame)] from a frame up to its root; the last element
    may be an exception that ends the chain."""
    pose = geom.P_IDENTITY
    chain = [(frame, pose)]
    seen = {frame}
    while frame in self.caches:
      try:
        frame, step = self._at(frame, stamp)
      except ExtrapolationException as e:
        chain.append((None, e))
        break
      if frame in seen:
        break
      seen.add(frame)
      pose = geom.p_mul(step, pose)
      chain.append((frame, pose))
    return chain

  def lookupTransform(self, target_frame, source_frame, time):
    target, source = _name(target_frame), _name(source_frame)
    for frame in (target, source):
      if frame not in self.known:
        raise LookupException('"%s" does not exist' % frame)
    stamp = time.to_nsec()
    up = self._chain(source, stamp)
    down = self._chain(target, stamp)
    frames = {frame: pose for frame, pose in up if frame is not None}
    for frame, pose in down:
      if frame is not None and frame in frames:
        found = geom.p_mul(geom.p_inv(pose), frames[frame])
        return ([float(v) for v in found[:3]], [float(v) for v in found[3:]])
    for chain in (up, down):
      if chain[-1][0] is None:
        raise chain[-1][1]
    raise ConnectivityException('not part of the same tree')

  def canTransform(self, target_frame, source_frame, time):
    try:
      self.lookupTransform(target_frame, source_frame, time)
    except Exception_:
      return 0
    return 1


def modules(k, bags):
  """Stub modules for a kernel; bags maps a path below the root of the
  simulated file system to its records [(topic, message, nanoseconds)]."""

  class Bag(object):

    def __init__(self, f, mode='r', **_):
      # Opening and reading go through the seams, the content does not.
      self.path = f
      self.file = open(f, 'rb', buffering=0)
      self.records = bags[os.path.relpath(os.path.join(os.getcwd(), f), k.root)]

    def read_messages(self, topics=None, start_time=None, end_time=None,
                      **_):
      if isinstance(topics, str):
        topics = [topics]
      for i, (topic, msg, t) in enumerate(self.records):
        if i % 16 == 0:
          self.file.seek(0)
          self.file.read(1)
        if topics is None or topic in topics:
          yield topic, msg, Time(0, t)

    def get_message_count(self, topic_filters=None):
      return len([r for r in self.records
                  if topic_filters is None or r[0] in topic_filters])

    def close(self):
      self.file.close()

    def __enter__(self):
      return self

    def __exit__(self, *exc):
      self.close()

    def __iter__(self):
      return self.read_messages()

  rospy = types.ModuleType('rospy')
  rospy.Time, rospy.Duration = Time, Duration
  rosbag = types.ModuleType('rosbag')
  rosbag.Bag = Bag
  tf = types.ModuleType('tf')
  tf.Transformer = Transformer
  tf.Exception = Exception_
  for cls in (LookupException, ConnectivityException, ExtrapolationException):
    setattr(tf, cls.__name__, cls)
  msgs = types.ModuleType('tf2_msgs')
  msgs.msg = types.ModuleType('tf2_msgs.msg')
  msgs.msg.TFMessage = Message
  return {'rospy': rospy, 'rosbag': rosbag, 'tf': tf, 'tf2_msgs': msgs,
          'tf2_msgs.msg': msgs.msg}
