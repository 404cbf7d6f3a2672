"""C12: the tf export contains exactly the transforms that can be looked up."""

import random

from checks.common import BIN, read_bytes, tail, violation, write_text
from sim import geom, ros
from sim.inject import Injector, random_fault
from sim.kernel import Kernel

ID = 'C12'
RUNS = {'quick': 3000, 'thorough': 50000}
RULE = ('one recording of a transform tree whose messages were lost, repeated, '
        'reordered, delayed and mixed with others, exported once with or '
        'without failing system calls; non-trivial: a message or system fault; '
        'distinct by history hash')
STATE_MEASURE = ('(frames of the tree between source and target, message faults '
                 'that occurred, numbers of exported and skipped transforms, '
                 'outcome)')
REAL = ['bin/tf_to_csv.py']
STUB = ['rosbag (records in memory, opening and reading through the file '
        'seams)', 'tf.Transformer (buffer with interpolation and cache time)',
        'rospy time', 'message loss, duplication, reordering, delay', 'file '
        'system faults']
ASSUMPTIONS = ['what can be looked up is what the simulated transform buffer '
               'with all transforms of the recording finds',
               'recordings shorter than the hour the buffer covers']
PROBES = ['loss', 'duplicate', 'reorder', 'delay', 'foreign_topic',
          'foreign_frame', 'skipped', 'nothing', 'same_stamp', 'bundle',
          'late_parent', 'two_roots', 'fault', 'failed', 'ok_with_fault',
          'stale', 'large', 'long', 'static_parent', 'empty_message',
          'backwards', 'missing_frame', 'inverted_chain', 'big',
          'similar_names']

SPAN = {'any': 30, 'write': 5, 'change': 6, 'read': 24, 'rename': 3, 'spawn': 1}
FRAMES = {'plain': ['world', 'base', 'arm', 'hand', 'camera', 'odom'],
          'longer': ['cam_0_optical', 'cam_0_opt', 'cam_0', 'cam', 'c'],
          'shorter': ['c', 'cam', 'cam_0', 'cam_0_opt', 'cam_0_optical'],
          'tail': ['left_cam_0', 'cam_0', 'am_0', '_0', '0'],
          'case': ['Base', 'base', 'BASE', 'bASE', 'basE']}


def gen(rng, tier):
  chain = rng.randint(1, 4)
  start = rng.choice([0, 5, 1500000000, 1500000000, 1491560204])
  plan = {'chain': chain, 'start': start,
          'names': rng.choice(['plain', 'plain', 'plain', 'longer', 'shorter',
                               'tail', 'case']),
          'target': rng.choice(['root', 'root', 'root', 'middle', 'sibling',
                                'child', 'unknown']),
          'n': rng.choice([0, 1, 2, 3, 4, 5, 10, 40, 40, 120]),
          'dt': rng.choice([0.01, 0.05, 0.2, 0.333333333, 2.0, 7.0]),
          'rates': [rng.choice([1, 1, 2, 3, 'once', 'late', 'gap', 'same'])
                    for _ in range(6)],
          'loss': rng.choice([0, 0, 0.1, 0.4]),
          'dup': rng.choice([0, 0, 0.1, 0.5]),
          'reorder': rng.choice([0, 0, 0.1, 0.5]),
          'delay': rng.choice([0, 0, 0.2]),
          'same': rng.choice([0, 0, 0.1, 0.6]),
          'bundle': rng.choice([1, 1, 2, 5]),
          'foreign': rng.choice([0, 0, 0.2]),
          'stale': rng.random() < 0.3,
          'scale': rng.choice([1.0, 1.0, 1e-6, 1e4]),
          'faults': [], 'seed': rng.getrandbits(30)}
  if plan['n'] == 120 and rng.random() < 0.5:
    plan['n'] = 400
  if rng.random() < 0.35:
    plan['faults'] = [random_fault(rng, SPAN, ['any', 'change', 'write', 'write',
                                               'read'])
                      for _ in range(rng.choice([1, 1, 2]))]
  return plan


def stream(plan, k, stats):
  """(records of the recording, source frame, target frame)."""
  rng = random.Random('stream-%s' % plan['seed'])
  frames = FRAMES[plan['names']][:plan['chain'] + 1]
  source = frames[-1]
  if plan['names'] != 'plain':
    stats.probe('similar_names')
  target = frames[0]
  links = [(frames[i], frames[i + 1]) for i in range(plan['chain'])]
  if plan['target'] == 'middle':
    target = frames[len(frames) // 2]
  elif plan['target'] == 'sibling':
    links.append((frames[0], 'tripod'))
    target = 'tripod'
    stats.probe('inverted_chain')
  elif plan['target'] == 'child':
    links.append((source, 'tool'))
    target = 'tool'
    stats.probe('inverted_chain')
  elif plan['target'] == 'unknown':
    target = rng.choice(['nowhere', 'elsewhere'])
    stats.probe('missing_frame')
    if target == 'elsewhere':
      links.append(('elsewhere', 'island'))
      stats.probe('two_roots')
  step = int(plan['dt'] * 1e9)
  first = plan['start'] * 1000000000 + rng.randrange(1000000000)
  n = plan['n']
  if n * plan['dt'] > 3000:
    n = int(3000 / plan['dt'])
  msgs = []  # [arrival, [transforms]]
  for which, (parent, child) in enumerate(links):
    rate = plan['rates'][which]
    if child == source and rate in ('once', 'late', 'gap', 'same'):
      rate = 1
    pose = geom.random_pose(rng, plan['scale'])
    stamps = []
    if rate == 'once':
      stamps = [first + step * (n // 2)] if n else []
      stats.probe('static_parent')
    else:
      per = rate if isinstance(rate, int) else 1
      for i in range(0, n * per + 1 if n else 0):
        stamp = first + step * i // per
        if rate != 'same' and child != source:
          stamp += rng.randrange(max(1, step // (2 * per)))
        if rate == 'late' and i < n // 3:
          stats.probe('late_parent')
          continue
        if rate == 'gap' and n // 3 <= i < 2 * n // 3:
          continue
        if stamps and rng.random() < plan['same']:
          stamp = stamps[-1]
          stats.probe('same_stamp')
        stamps.append(stamp)
    for stamp in stamps:
      drift = geom.random_pose(rng, 0.1 * plan['scale'], 0.2)
      pose = geom.p_mul(pose, drift)
      pose[3:] = geom.q_norm(pose[3:])
      if rng.random() < plan['loss']:
        stats.probe('loss')
        k.fire('message_lost')
        continue
      arrival = stamp + rng.randrange(step)
      if rng.random() < plan['delay']:
        arrival += rng.randrange(20 * step)
        stats.probe('delay')
        k.fire('message_delayed')
      tf = ros.transform(stamp, parent, child, pose)
      msgs.append([arrival, [tf]])
      if rng.random() < plan['dup']:
        msgs.append([arrival + rng.randrange(5 * step), [tf]])
        stats.probe('duplicate')
        k.fire('message_repeated')
  msgs.sort(key=lambda m: m[0])
  for i in range(len(msgs) - 1):
    if rng.random() < plan['reorder']:
      j = min(len(msgs) - 1, i + rng.randrange(1, 6))
      msgs[i][1], msgs[j][1] = msgs[j][1], msgs[i][1]
      stats.probe('reorder')
      k.fire('message_reordered')
  records = []
  i = 0
  while i < len(msgs):
    size = rng.randint(1, plan['bundle'])
    if size > 1:
      stats.probe('bundle')
    tfs = [t for m in msgs[i:i + size] for t in m[1]]
    records.append(('/tf', ros.Message(transforms=tfs), msgs[i][0]))
    if rng.random() < plan['foreign']:
      records.append(foreign(rng, source, msgs[i][0], stats))
      k.fire('foreign_message')
    i += size
  return records, source, target


def foreign(rng, source, when, stats):
  kind = rng.randrange(4)
  if kind == 0:
    stats.probe('foreign_topic')
    return ('/camera/image', ros.Message(data=b'abc'), when)
  if kind == 1:
    stats.probe('empty_message')
    return ('/tf', ros.Message(transforms=[]), when)
  other = ros.transform(when, 'somewhere', 'foreign_frame',
                        geom.random_pose(rng, 1.0))
  if kind == 2:
    stats.probe('foreign_frame')
    return ('/tf', ros.Message(transforms=[other]), when)
  stats.probe('foreign_topic')
  # Transforms on another topic do not belong to the tree.
  return ('/vicon/transforms', ros.Message(transforms=[
      ros.transform(when, 'somewhere', source, geom.random_pose(rng, 1.0))]),
      when)


def expected(records, source, target, stats):
  tree = ros.Transformer(True, ros.Duration(3600.0))
  for topic, msg, _ in records:
    if topic == '/tf':
      for tf in msg.transforms:
        tree.setTransform(tf)
  rows = []
  skipped = 0
  before = None
  for topic, msg, _ in records:
    if topic != '/tf':
      continue
    for tf in msg.transforms:
      if tf.child_frame_id != source:
        continue
      stamp = tf.header.stamp
      if before is not None and stamp < before:
        stats.probe('backwards')
      before = stamp
      try:
        t, q = tree.lookupTransform(target, source, stamp)
      except ros.Exception_:
        skipped += 1
        continue
      rows.append([stamp.to_sec()] + list(t) + list(q))
  return rows, skipped


def run(plan, stats):
  stats.evaluations += 1
  with Kernel(seed=plan['seed'] & 0xffff, blksize=4096) as k:
    try:
      return export(plan, k, stats)
    finally:
      stats.kernel(k)


def export(plan, k, stats):
  records, source, target = stream(plan, k, stats)
  rows, skipped = expected(records, source, target, stats)
  for name, on in (('skipped', rows and skipped), ('nothing', not rows),
                   ('large', len(rows) > 100), ('big', plan['scale'] == 1e4),
                   ('long', plan['n'] * plan['dt'] > 60),
                   ('stale', plan['stale'])):
    if on:
      stats.probe(name)
  write_text(k, 'in.bag', 'bag')
  if plan['stale']:
    write_text(k, 'out.csv', '1, 2, 3, 4, 0, 0, 0, 1\n' * 500)
  k.stub_modules = ros.modules(k, {'in.bag': records})
  inject = Injector(k, plan['faults'])
  res = k.run_python(BIN + 'tf_to_csv.py', [
      '--bag', 'in.bag', '--tf_source_frame', source, '--tf_target_frame',
      target, '--csv_output_file', 'out.csv'], 'tf')
  inject.stop()
  k.set_faults([])
  data = read_bytes(k.path('out.csv'))
  k.note(res.code, data)
  if inject.hit:
    stats.probe('fault')
  stats.state(plan['chain'], plan['target'], plan['rates'][:plan['chain']],
              plan['loss'] > 0, plan['dup'] > 0, plan['reorder'] > 0,
              plan['delay'] > 0, plan['same'] > 0, len(rows), skipped, res.code)
  if res.code != 0:
    stats.probe('failed')
    if inject.hit:
      return None
    return violation('fails', 'the export ended with status %s:\n%s', res.code,
                     tail(res.out))
  if inject.hit:
    stats.probe('ok_with_fault')
  if data is None:
    return violation('missing', 'status 0, but there is no file')
  return compare(data.decode('utf-8', 'replace'), rows)


def compare(text, rows):
  if text and not text.endswith('\n'):
    return violation('partial', 'status 0, but the last line is not complete')
  lines = text.splitlines()
  if len(lines) != len(rows):
    return violation('lines', '%d lines for %d transforms that can be looked '
                     'up', len(lines), len(rows))
  for i, (line, row) in enumerate(zip(lines, rows)):
    try:
      values = [float(v) for v in line.split(',')]
    except ValueError:
      return violation('line', 'line %d cannot be read: %r', i + 1, line)
    if len(values) != 8:
      return violation('line', 'line %d has %d values', i + 1, len(values))
    if abs(values[0] - row[0]) > 3e-16 * abs(row[0]):
      return violation('stamp', 'line %d has the time %r instead of %r', i + 1,
                       values[0], row[0])
    for a, b in zip(values[1:], row[1:]):
      if abs(a - b) > 1e-14 * max(abs(b), 1e-3):
        return violation('pose', 'line %d is %r instead of %r', i + 1, values,
                         row)
  return None


def shrink(plan):
  for i in range(len(plan['faults'])):
    yield dict(plan, faults=plan['faults'][:i] + plan['faults'][i + 1:])
  for n in (1, 2, 4, 5, 10):
    if n < plan['n']:
      yield dict(plan, n=n)
  for key in ('loss', 'dup', 'reorder', 'delay', 'same', 'foreign'):
    if plan[key]:
      yield dict(plan, **{key: 0})
  for key, value in (('bundle', 1), ('stale', False), ('start', 0),
                     ('scale', 1.0), ('chain', 1), ('target', 'root'),
                     ('rates', [1] * 6), ('dt', 0.2)):
    if plan[key] != value:
      yield dict(plan, **{key: value})
