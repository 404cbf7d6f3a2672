"""C13: a batch export runs every configured export once."""

import os
import random

import yaml

from checks import c12
from checks.common import BIN, read_bytes, tail, violation, write_text
from sim import ros
from sim.inject import Injector, random_fault
from sim.kernel import Kernel

ID = 'C13'
RUNS = {'quick': 1500, 'thorough': 25000}
RULE = ('one batch export of a random configuration with exports that fail, are '
        'killed, cannot be found or meet failing system calls; non-trivial: at '
        'least one export and a fault; distinct by history hash')
STATE_MEASURE = ('(numbers of frame pairs and cameras per recording, pattern of '
                 'failing exports, exit status)')
REAL = ['bin/bag_to_csv_with_config.py', 'bin/target_extractor_interface.py',
        'bin/tf_to_csv.py']
STUB = ['rosrun (process table of the simulator)', 'target_extractor (records '
        'its arguments)', 'rosbag, tf, rospy', 'file system faults']
ASSUMPTIONS = ['recordings have names ending in .bag; paths in the '
               'configuration end with a slash',
               'if a process cannot be created at all the batch may stop, but '
               'not with status 0']
PROBES = ['tf_failed', 'camera_failed', 'killed', 'not_found', 'all_ok',
          'no_frames', 'no_cameras', 'no_bags', 'several_bags', 'space',
          'missing_bag', 'faulty', 'dotted', 'relative_topic', 'last_failed',
          'first_failed', 'same_entry', 'extractor_killed', 'spawn_failed',
          'many_failed', 'same_directory_name', 'bad_target', 'known_state']

SPAN = {'any': 80, 'write': 8, 'change': 10, 'read': 60, 'rename': 3,
        'spawn': 6}
NAMES = ['run.bag', 'walk.bag', 'run2.bag', 'run.1.bag', 'run.2.bag',
         '2017-04-07-12.16.bag', '2017-04-07-12.36.bag', 'my run.bag', 'a_b.bag']
DIRS = ['data/', 'other data/', '', './', 'data/sub/']
FRAMES = ['world', 'hand', 'arm', 'base', 'camera', 'imu_link']
TOPICS = ['/cam0/image_raw', '/cam1/image_raw', 'cam0/image_raw',
          'dam0/image_raw', '/falcon/fisheye/fisheye', '/image', '/cam0/depth']


def gen(rng, tier):
  bags = []
  for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
    frames = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
      source = rng.choice(c12.FRAMES['plain'][1:5])
      target = rng.choice(['world', 'base', 'world', 'nowhere'])
      if rng.random() < 0.03:
        target = 'robot/' + target
      frames.append([source, target])
    cameras = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
      cameras.append([rng.choice(TOPICS), 'cam%d.yaml' % rng.randrange(3)])
    if rng.random() < 0.9:
      frames = [f for i, f in enumerate(frames) if f not in frames[:i]]
      cameras = [c for i, c in enumerate(cameras)
                 if c[0] not in [d[0] for d in cameras[:i]]]
    bags.append({'name': rng.choice(NAMES), 'dir': rng.choice(DIRS),
                 'frames': frames, 'cameras': cameras,
                 'calib': rng.choice(['calib/', 'my calib/']),
                 'targets': rng.choice(['targets/', 'calib/']),
                 'target': 'target%d.yaml' % rng.randrange(2),
                 'content': rng.getrandbits(20)})
  if rng.random() < 0.9:
    # Different recordings have different names.
    seen = set()
    for bag in bags:
      if bag['name'] in seen:
        bag['name'] = 'rec%d.bag' % len(seen)
      seen.add(bag['name'])
  total = sum(len(b['frames']) + len(b['cameras']) for b in bags)
  modes = {}
  rate = rng.choice([0, 0.15, 0.4, 0.9])
  for i in range(total):
    if rng.random() < rate:
      modes[str(i)] = {'how': rng.choice(['exit', 'exit', 'kill', 'missing',
                                          'late', 'inner', 'innerkill']),
                       'code': rng.choice([1, 2, 127, 255])}
  faults = []
  if rng.random() < 0.3:
    faults = [random_fault(rng, SPAN, ['any', 'change', 'read', 'spawn',
                                       'write'])
              for _ in range(rng.choice([1, 1, 2]))]
  return {'bags': bags, 'modes': modes, 'faults': faults,
          'absent': rng.choice([None, None, None, rng.randrange(3)]),
          'bad_target': rng.random() < 0.05,
          'seed': rng.getrandbits(30)}


def parse(argv):
  """{option: value} of --option value and --option=value."""
  args = {}
  i = 0
  while i < len(argv):
    name = argv[i]
    if name.startswith('--') and '=' in name:
      name, value = name.split('=', 1)
    elif i + 1 < len(argv) and not argv[i + 1].startswith('--'):
      i += 1
      value = argv[i]
    else:
      value = True
    args.setdefault(name.lstrip('-'), []).append(value)
    i += 1
  return {k: v[-1] for k, v in args.items()}  # The last one counts.


TARGETS = [{'april_tag_number_vertical': 6, 'april_tag_number_horizontal': 7,
            'april_tag_number_pixel_boarder': 2, 'april_tag_size_m': 0.055,
            'april_tag_gap_size_m': 0.0165},
           {'april_tag_number_vertical': 4, 'april_tag_number_horizontal': 5,
            'april_tag_number_pixel_boarder': 1, 'april_tag_size_m': 0.083,
            'april_tag_gap_size_m': 0.0249}]
FLAGS = {'april_tag_number_vertical': 'april_tag_number_vertical',
         'april_tag_number_horizontal': 'april_tag_number_horizontal',
         'april_tag_pixel_boarder': 'april_tag_number_pixel_boarder',
         'april_tag_size_m': 'april_tag_size_m',
         'april_tag_gap_size_m': 'april_tag_gap_size_m'}


class Silent(object):

  def probe(self, *_):
    pass


def content(seed, k):
  """Records of a recording with a chain of five frames."""
  rng = random.Random('bag-%d' % seed)
  plan = c12.gen(rng, 'quick')
  plan['names'] = 'plain'
  plan.update(chain=4, target='root', n=rng.choice([3, 8]), seed=seed,
              faults=[], rates=[1, 2, 1, 3, 1, 1])
  records, _, _ = c12.stream(plan, k, Silent())
  return records


class Quiet(object):
  """Stands in for the kernel where message faults are not counted."""

  def fire(self, *_):
    pass


class Table(object):
  """What was started and how it ended."""

  def __init__(self, plan, k, stats):
    self.plan = plan
    self.k = k
    self.stats = stats
    self.calls = []
    self.inner = []  # Calls of the extractor.
    self.current = None

  def export(self, kind, script):
    def handler(argv):
      number = len(self.calls)
      mode = self.plan['modes'].get(str(number), {'how': None})
      call = {'kind': kind, 'args': parse(argv), 'code': None, 'mode': mode,
              'inner': []}
      self.calls.append(call)
      if len(self.calls) > 60:
        call['code'] = 1
        return 1
      how = mode['how']
      code = None
      if how == 'exit':
        self.k.fire('export_fails')
        code = mode['code']
      elif how == 'kill':
        self.k.fire('export_killed')
        self.stats.probe('killed')
        code = -9
      elif how == 'missing':
        self.k.fire('export_not_found')
        self.stats.probe('not_found')
        code = 3
      else:
        saved, self.current = self.current, call
        code = self.k.run_python(script, argv).code
        self.current = saved
        if how == 'late' and code == 0:
          self.k.fire('export_fails')
          code = mode['code']
      call['code'] = code
      return code
    return handler

  def extractor(self, argv):
    call = self.current
    inner = {'args': parse(argv), 'code': 0}
    call['inner'].append(inner)
    how = call['mode']['how']
    if how == 'inner':
      self.k.fire('extractor_fails')
      inner['code'] = call['mode']['code']
      return inner['code']
    out = inner['args'].get('camera_pose_T_C_G_output_file_timestamped')
    plain = inner['args'].get('camera_pose_T_C_G_output_file',
                              'camera_pose.csv')
    try:
      with open(out, 'w') as f:
        f.write(picture(inner['args']))
      with open(plain, 'w') as f:  # The same poses without time stamps.
        f.write('0\n')
    except OSError:
      inner['code'] = 1
      return 1
    if how == 'innerkill':
      self.k.fire('extractor_killed')
      self.stats.probe('extractor_killed')
      inner['code'] = -9
    return inner['code']


def picture(args):
  """Output of the extractor for a call."""
  keys = ['bag', 'topic', 'eval_camera_yaml'] + sorted(FLAGS)
  return repr([str(args.get(key)) for key in keys]) + '\n'


def entries(plan):
  """Configured exports."""
  found = []
  for bag in plan['bags']:
    path = bag['dir'] + bag['name']
    for source, target in bag['frames']:
      found.append({'kind': 'tf', 'bag': path, 'stem': bag['name'][:-4],
                    'source': source, 'target': target})
    for topic, calib in bag['cameras']:
      found.append({'kind': 'camera', 'bag': path, 'stem': bag['name'][:-4],
                    'topic': topic, 'camera': bag['calib'] + calib,
                    'target': bag['targets'] + bag['target']})
  return found


def identity(entry):
  return tuple(sorted((k, v) for k, v in entry.items()))


def joined(entry):
  """The parts that are told apart in the name of the output file, joined."""
  if entry['kind'] == 'tf':
    parts = [entry['stem'], entry['target'], entry['source']]
  else:
    parts = [entry['stem'], 'W', entry['topic'].strip('/').replace('/', '_')]
  return '_'.join(parts)


def run(plan, stats):
  stats.evaluations += 1
  with Kernel(seed=plan['seed'] & 0xffff) as k:
    try:
      return history(plan, k, stats)
    finally:
      stats.kernel(k)


def history(plan, k, stats):
  table = Table(plan, k, stats)
  bags = {}
  config = []
  for i, bag in enumerate(plan['bags']):
    path = os.path.normpath(bag['dir'] + bag['name'])
    if path not in bags:
      bags[path] = content(bag['content'], Quiet())
      if plan['absent'] != i:
        os.makedirs(os.path.dirname(k.path(path)), exist_ok=True)
        write_text(k, path, 'bag')
      else:
        stats.probe('missing_bag')
    entry = {i + 1: None, 'name': bag['name'], 'bag_path': bag['dir'],
             'intrinsics_path': bag['calib'],
             'target_config_path': bag['targets'], 'target': bag['target'],
             'cameras': None, 'tf_frames': None}
    if bag['cameras'] or bag['content'] % 2:
      entry['cameras'] = {'cam_topics': [c[0] for c in bag['cameras']],
                          'cam_intrinsics': [c[1] for c in bag['cameras']]}
    if bag['frames'] or bag['content'] % 2:
      entry['tf_frames'] = {'source': [f[0] for f in bag['frames']],
                            'target': [f[1] for f in bag['frames']]}
    config.append(entry)
    for name, on in (('no_frames', not bag['frames']),
                     ('no_cameras', not bag['cameras']),
                     ('space', ' ' in path), ('dotted', '.' in bag['name'][:-4]),
                     ('relative_topic', any(c[0][0] != '/'
                                            for c in bag['cameras']))):
      if on:
        stats.probe(name)
  for directory in ('targets', 'calib'):
    os.makedirs(k.path(directory), exist_ok=True)
    for i, target in enumerate(TARGETS):
      target = dict(target)
      if directory == 'calib':
        target['april_tag_size_m'] *= 2
      text = yaml.safe_dump(target)
      if plan['bad_target'] and i == 0:
        text = 'april_tag_number_vertical: [\n'
        stats.probe('bad_target')
      write_text(k, '%s/target%d.yaml' % (directory, i), text)
  write_text(k, 'config.yaml', yaml.safe_dump({'bags': config}))
  k.stub_modules = ros.modules(k, bags)
  package = 'hand_eye_calibration'
  k.rosrun[(package, 'tf_to_csv.py')] = table.export('tf',
                                                     BIN + 'tf_to_csv.py')
  k.rosrun[(package, 'target_extractor_interface.py')] = table.export(
      'camera', BIN + 'target_extractor_interface.py')
  k.rosrun[('hand_eye_calibration_target_extractor', 'target_extractor')] = \
      k.native_tool('target_extractor', table.extractor)
  inject = Injector(k, plan['faults'])
  res = k.run_python(BIN + 'bag_to_csv_with_config.py',
                     ['--yaml_config_file', 'config.yaml'], 'batch')
  inject.stop()
  k.set_faults([])
  k.note(res.code, [(c['kind'], c['args'], c['code']) for c in table.calls])
  return judge(plan, k, stats, table, bags, res, inject)


def judge(plan, k, stats, table, bags, res, inject):
  wanted = entries(plan)
  codes = [c['code'] for c in table.calls]
  own = [h for h in inject.hit if h[1].startswith('batch')]
  for name, on in (
      ('faulty', inject.hit), ('no_bags', not plan['bags']),
      ('several_bags', len(plan['bags']) > 1),
      ('all_ok', wanted and not any(codes)),
      ('tf_failed', any(c['code'] and c['kind'] == 'tf' for c in table.calls)),
      ('camera_failed', any(c['code'] and c['kind'] == 'camera'
                            for c in table.calls)),
      ('first_failed', codes and codes[0]), ('last_failed', codes and codes[-1]),
      ('many_failed', sum(1 for c in codes if c) > 2),
      ('same_entry', len(set(map(identity, wanted))) < len(wanted)),
      ('same_directory_name', len(set(b['name'] for b in plan['bags'])) <
       len(plan['bags'])),
      ('spawn_failed', k.fired['spawn_eagain'])):
    if on:
      stats.probe(name)
  stats.state([(len(b['frames']), len(b['cameras'])) for b in plan['bags']],
              codes, res.code)
  names = {}
  for e in wanted:
    names.setdefault(joined(e), set()).add(identity(e))
  ambiguous = set(n for n, ids in names.items() if len(ids) > 1)
  if ambiguous:
    stats.probe('known_state')
  stopped = bool(own) or k.fired['spawn_eagain'] > 0
  if res.killed or (stopped and res.code != 0):
    # The batch itself was interrupted; what was started must still be right.
    complete = False
  else:
    complete = True
  # Every started export belongs to one entry.
  left = list(wanted)
  outputs = {}
  for call in table.calls:
    match = None
    for entry in left:
      if fits(entry, call):
        match = entry
        break
    if match is None:
      return violation('started', 'an export that is not configured (or once '
                       'too often): %s %r', call['kind'], call['args'])
    left.remove(match)
    call['entry'] = match
    name = call['args'].get('csv_output_file' if call['kind'] == 'tf' else
                            'output_file')
    if not isinstance(name, str):
      return violation('output', 'no output file: %r', call['args'])
    call['entry_output'] = os.path.normpath(name)
    written = [name] + [i['args'].get('camera_pose_T_C_G_output_file',
                                      'camera_pose.csv')
                        for i in call['inner']]
    for name in written:
      name = os.path.normpath(name)
      other = outputs.setdefault(name, match)
      if identity(other) != identity(match):
        kind = 'joined_names' if joined(match) in ambiguous and \
            joined(match) == joined(other) else 'shared'
        return violation(kind, 'two exports write %s: %r and %r', name, other,
                         match)
  if complete and left:
    return violation('not_started', 'not started: %r (status %s)\n%s', left[0],
                     res.code, tail(res.out))
  failed = any(c != 0 for c in codes)
  if complete and (res.code == 0) != (not failed):
    return violation('status', 'exports ended with %r, the batch with status '
                     '%s\n%s', codes, res.code, tail(res.out))
  if res.code == 0 and left:
    return violation('status', 'status 0, but not started: %r', left[0])
  # An entry given twice is exported twice: the later export counts.
  last = dict((c['entry_output'], c) for c in table.calls)
  for call in table.calls:
    if call['code'] == 0:
      if last[call['entry_output']]['code'] != 0:
        continue
      wrong = check_output(k, call, bags)
      if wrong:
        return wrong
    elif call['kind'] == 'camera' and call['mode']['how'] is None and \
        not inject.hit and not plan['bad_target']:
      return violation('camera', 'the camera export %r failed with %s without '
                       'reason', call['args'], call['code'])
  return None


def same_path(name, wanted):
  return isinstance(name, str) and \
      os.path.normpath(name) == os.path.normpath(wanted)


def fits(entry, call):
  args = call['args']
  if call['kind'] != entry['kind'] or not same_path(args.get('bag'),
                                                    entry['bag']):
    return False
  if entry['kind'] == 'tf':
    return args.get('tf_source_frame') == entry['source'] and \
        args.get('tf_target_frame') == entry['target']
  return args.get('image_topic') == entry['topic'] and \
      same_path(args.get('calib_file_camera'), entry['camera']) and \
      same_path(args.get('calib_file_target'), entry['target'])


def number(text):
  try:
    return float(text)
  except (TypeError, ValueError):
    return None


def check_output(k, call, bags):
  entry = call['entry']
  if entry['kind'] == 'tf':
    data = read_bytes(k.path(call['args']['csv_output_file']))
    if data is None:
      return violation('missing', 'no output of %r', entry)
    rows, _ = c12.expected(bags[os.path.normpath(entry['bag'])],
                           entry['source'], entry['target'], Silent())
    return c12.compare(data.decode('utf-8', 'replace'), rows)
  if len(call['inner']) != 1:
    return violation('camera', '%d extractor calls for %r', len(call['inner']),
                     entry)
  inner = call['inner'][0]
  if inner['code'] != 0:
    return violation('camera', 'the extractor ended with %s, the export of %r '
                     'with status 0', inner['code'], entry)
  args = inner['args']
  target = dict(TARGETS[int(entry['target'][-6])])
  if entry['target'].startswith('calib'):
    target['april_tag_size_m'] *= 2
  if args.get('topic') != entry['topic'] or \
      not same_path(args.get('bag'), entry['bag']) or \
      not same_path(args.get('eval_camera_yaml'), entry['camera']) or \
      not same_path(args.get('camera_pose_T_C_G_output_file_timestamped'),
                    call['args']['output_file']):
    return violation('camera', 'extractor called with %r for %r', args, entry)
  for flag, name in FLAGS.items():
    if number(args.get(flag)) != float(target[name]):
      return violation('camera', 'extractor called with %s=%r, the target of %r '
                       'has %r', flag, args.get(flag), entry, target[name])
  data = read_bytes(k.path(call['args']['output_file']))
  if data != picture(args).encode():
    return violation('camera', 'the output of %r was changed', entry)
  return None


def shrink(plan):
  for i in range(len(plan['faults'])):
    yield dict(plan, faults=plan['faults'][:i] + plan['faults'][i + 1:])
  for key in sorted(plan['modes']):
    modes = dict(plan['modes'])
    del modes[key]
    yield dict(plan, modes=modes)
  for i in range(len(plan['bags'])):
    yield dict(plan, bags=plan['bags'][:i] + plan['bags'][i + 1:])
  for i, bag in enumerate(plan['bags']):
    for key in ('frames', 'cameras'):
      for j in range(len(bag[key])):
        smaller = dict(bag)
        smaller[key] = bag[key][:j] + bag[key][j + 1:]
        yield dict(plan, bags=plan['bags'][:i] + [smaller] +
                   plan['bags'][i + 1:])
  for key, value in (('absent', None), ('bad_target', False)):
    if plan[key] != value:
      yield dict(plan, **{key: value})
