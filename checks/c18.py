"""C18: evaluating result files counts every successful experiment once."""

import math
import random

import numpy as np

from checks.common import call, tail, violation, write_text
from sim import kernel
from sim.inject import Injector
from sim.kernel import Kernel

ID = 'C18'
RUNS = {'quick': 2000, 'thorough': 40000}
RULE = ('result files logged by histories of interrupted and restarted '
        'experiments with random verdicts, evaluated once while files grow, '
        'reads fail or are split, or after a log was cut; non-trivial: a '
        'fault, a failed experiment or more than one file; distinct by history '
        'hash')
STATE_MEASURE = ('(numbers of files, data sets, algorithms, counted and failed '
                 'experiments, fault, outcome)')
REAL = ['experiment_plotting_tools.py (collection of the results)',
        'experiment_results.py']
STUB = ['the experiments (random verdicts and values, logged with the real '
        'result entries)', 'file system faults', 'drawing of the plots']
ASSUMPTIONS = ['the name of the data set is appended to the logged lines as the '
               'last column, names are at most 50 characters long',
               'files grow by complete lines while they are read; a log that '
               'was cut lacks at least one column of its last line']
PROBES = ['failed_calibration', 'failed_optimization', 'bad_singular_values',
          'spoiled', 'single', 'empty', 'files', 'datasets', 'restarted',
          'all_failed', 'cut', 'grown', 'read_failed', 'split', 'missing',
          'gave_up', 'large', 'interleaved', 'tiny_perturbation',
          'repeated']

NAMES = [a + f + o for a, f in
         [('baseline', '_filter'), ('baseline', '_no_filter'),
          ('RC', '_filter'), ('RC', '_no_filter'), ('RS', '_filter'),
          ('RS', '_no_filter'), ('EC', ''), ('ES', '')]
         for o in ('_opt', '_no_opt')]
SPOILED = 'optimization_w_spoiled_init_calibration'


def label(name):
  """Short name of an algorithm."""
  if name == SPOILED:
    return 'S_PF_ES_O'
  kind = name.split('_')[0]
  filtered = '_no_filter' not in name
  return (('PF_' if filtered else '') + ('B' if kind == 'baseline' else kind) +
          ('' if name.endswith('_no_opt') else '_O'))


def gen(rng, tier):
  files = []
  for _ in range(rng.choice([1, 1, 2, 3])):
    files.append({'dataset': rng.randrange(3),
                  'algorithms': rng.choice([[SPOILED],
                                            rng.sample(NAMES, 1),
                                            rng.sample(NAMES, rng.randint(1, 5)),
                                            NAMES]),
                  'pairs': rng.choice([1, 1, 3, 3, 6]),
                  'iterations': rng.choice([1, 1, 2, 4]),
                  'starts': rng.choice([1, 1, 1, 2, 3]),
                  'rows': rng.choice([None, None, None, None, 0, 1])})
  if rng.random() < 0.03:
    files[0].update(algorithms=[SPOILED], pairs=3, iterations=200, rows=None)
  return {'files': files, 'fail': rng.choice([0.0, 0.1, 0.4, 1.0]),
          'opt_fail': rng.choice([0.0, 0.1, 0.4, 1.0]),
          'bad': rng.choice([0.0, 0.0, 0.1, 0.5]),
          'mix': rng.random() < 0.2, 'repeated': rng.random() < 0.3,
          'fault': rng.choice(['', '', '', 'split', 'read', 'cut', 'grow',
                               'missing', 'read', 'grow']),
          'where': rng.random(), 'nth': rng.randrange(10),
          'kind': rng.choice(['eio', 'eacces']),
          'seed': rng.getrandbits(30)}


def experiment(rng, plan, name, iteration, pairs, stats):
  """The values of one logged experiment per pair of recordings."""
  rows = []
  opt = not name.endswith('_no_opt')

  def value():
    if plan['repeated']:
      return rng.choice([0.125, 0.3, 2.0])
    return rng.choice([rng.random(), rng.random() * 1e-5, rng.uniform(1, 200)])
  for pair in range(pairs):
    row = {'name': name, 'iteration': iteration, 'pair': pair, 'opt': opt,
           'success': rng.random() >= plan['fail'], 'opt_success': True,
           'rmse': (value(), value()), 'inliers': rng.randrange(1, 400),
           'poses': rng.randrange(400, 4000), 'kept': rng.randrange(400),
           'runtime': value(), 'opt_runtime': 0.0, 'bad': False,
           'loop': (-1, -1), 'angle': None, 'translation': None, 'time': None,
           'singular': np.array([10.0 ** rng.uniform(-18, 2)
                                 for _ in range(8)])}
    if not row['success']:
      stats.probe('failed_calibration')
      if rng.random() < 0.5:
        stats.probe('gave_up')
        row.update(rmse=(np.inf, np.inf), inliers=0, kept=0, runtime=0.0,
                   singular=None, bad=True)
      else:
        row.update(rmse=(None, None), inliers=None, singular=None, bad=None)
      if opt:
        row.update(rmse=(-1, -1), inliers=0, opt_success=False)
    elif rng.random() < plan['bad']:
      stats.probe('bad_singular_values')
      row['bad'] = True
    if row['success'] and opt:
      if rng.random() < plan['opt_fail']:
        stats.probe('failed_optimization')
        row.update(rmse=(-1, -1), inliers=0, opt_success=False)
      else:
        row['opt_runtime'] = value()
    if name == SPOILED:
      stats.probe('spoiled')
      scale = rng.choice([0.5, 0.5, 1e-3, 1e-7])
      if scale == 1e-7:
        stats.probe('tiny_perturbation')
      row.update(angle=rng.uniform(0, math.pi), time=rng.uniform(0, 0.5),
                 translation=np.array([rng.gauss(0, scale)
                                       for _ in range(3)]))
    rows.append(row)
  if all(r['opt_success'] and r['success'] for r in rows):
    loop = (value(), value())
    for row in rows:
      row['loop'] = loop
  return rows


def entry(ResultEntry, rows, recordings):
  """The entry of the experiments for all pairs."""
  e = ResultEntry()
  e.algorithm_name = rows[0]['name']
  e.iteration_num = rows[0]['iteration']
  e.prefiltering_enabled = '_no_filter' not in rows[0]['name']
  e.optimization_enabled = rows[0]['opt']
  e.loop_error_position, e.loop_error_orientation = rows[0]['loop']
  for row in rows:
    e.dataset_names.append(recordings)
    e.success.append(row['success'])
    e.rmse.append(row['rmse'])
    e.num_inliers.append(row['inliers'])
    e.num_initial_poses.append(row['poses'])
    e.num_poses_kept.append(row['kept'])
    e.runtimes.append(row['runtime'])
    e.singular_values.append(row['singular'])
    e.bad_singular_value.append(row['bad'])
    e.optimization_success.append(row['opt_success'])
    e.optimization_runtime.append(row['opt_runtime'])
    e.spoiled_initial_guess_angle_offset.append(row['angle'])
    e.spoiled_initial_guess_translation_offset.append(row['translation'])
    e.spoiled_initial_guess_time_offset.append(row['time'])
  return e


def logs(plan, ResultEntry, stats):
  """[(file name, header line, [(row, line)])] of all files."""
  rng = random.Random('logs-%s' % plan['seed'])
  sets = rng.sample(['sim', 'lab', 'lab_2', 'outdoor-2017', 'l',
                     'handheld_in_the_laboratory_with_two_cameras_run_1',
                     'handheld_in_the_laboratory_with_two_cameras_run_2'], 3)
  found = []
  for number, f in enumerate(plan['files']):
    lines = []
    for start in range(f['starts']):
      batches = [(name, i) for name in f['algorithms']
                 for i in range(f['iterations'])]
      if plan['mix']:
        rng.shuffle(batches)
        stats.probe('interleaved')
      if start + 1 < f['starts']:
        # Interrupted after some of the experiments.
        batches = batches[:rng.randrange(len(batches))]
        stats.probe('restarted')
      for name, i in batches:
        rows = experiment(rng, plan, name, i, f['pairs'], stats)
        recordings = ('/data/' + 'x' * rng.choice([3, 60]) + '.csv',
                      'b_%d.csv' % number)
        e = entry(ResultEntry, rows, recordings)
        for row in rows:
          row['dataset'] = sets[f['dataset']]
          text = e.write_pose_pair_to_csv_line(row['pair'])
          if text.count('\n') != 1 or not text.endswith('\n'):
            raise kernel.Unusable('not one line: %r' % text)
          lines.append((row, text[:-1] + ',' + row['dataset'] + '\n'))
    if f['rows'] is not None:
      lines = lines[:f['rows']]
    header = ResultEntry().get_header().rstrip('\n') + ',dataset\n'
    found.append(('results_%d.csv' % number, header, lines))
  return found


def expected(rows):
  """The statistics of the rows in this order."""
  want = {'position': {}, 'orientation': {}, 'runtime': {}, 'all_position': {},
          'all_orientation': {}, 'all_runtime': {}, 'spoiled': []}
  for row in rows:
    if not row['success'] or row['bad'] or not row['opt_success']:
      continue
    name = label(row['name'])
    for key, value in (('position', row['rmse'][0]),
                       ('orientation', row['rmse'][1]),
                       ('runtime', row['runtime'] + row['opt_runtime'])):
      want[key].setdefault((row['dataset'], name), []).append(value)
      want['all_' + key].setdefault(name, []).append(value)
    norm = 0.0 if row['translation'] is None else \
        float(np.linalg.norm(row['translation']))
    want['spoiled'].append((row['loop'][0], row['loop'][1],
                            row['angle'] or 0.0, norm, row['time'] or 0.0))
  return want


def statistics(value):
  """The returned statistics in the same form."""
  (methods, datasets, position, orientation, positions, orientations, runtimes,
   runtime, spoiled) = value
  methods = [str(m) for m in methods]
  datasets = [str(d) for d in datasets]
  if len(set(methods)) != len(methods) or len(set(datasets)) != len(datasets):
    return None
  got = {}
  for key, table in (('position', position), ('orientation', orientation),
                     ('runtime', runtime)):
    got[key] = {(str(d), str(m)): [float(v) for v in values]
                for d, per in table.items() for m, values in per.items()
                if len(values)}
  for key, table in (('all_position', positions),
                     ('all_orientation', orientations),
                     ('all_runtime', runtimes)):
    if len(table) != len(methods):
      return None
    got[key] = {m: [float(v) for v in values]
                for m, values in zip(methods, table)}
  if sorted({d for d, _ in got['position']}) != sorted(datasets):
    return None
  if len({len(s) for s in spoiled}) > 1:
    return None
  got['spoiled'] = [tuple(float(v) for v in s) for s in zip(*spoiled)]
  return got


def same(a, b):
  return abs(a - b) <= 1e-12 * max(abs(a), abs(b)) or (
      math.isnan(a) and math.isnan(b))


def difference(got, want):
  if got is None:
    return 'the lists of methods, data sets and values do not fit together'
  for key in want:
    if key == 'spoiled':
      continue
    if set(got[key]) != set(want[key]):
      return '%s: %s instead of %s' % (key, sorted(got[key]), sorted(want[key]))
    for group in want[key]:
      a, b = got[key][group], want[key][group]
      if len(a) != len(b):
        return '%s of %s: %d instead of %d experiments' % (key, group, len(a),
                                                           len(b))
      for x, y in zip(a, b):
        if not same(x, y):
          return '%s of %s: %r instead of %r' % (key, group, x, y)
  if len(got['spoiled']) != len(want['spoiled']):
    return '%d instead of %d loop errors and perturbations' % (
        len(got['spoiled']), len(want['spoiled']))
  for a, b in zip(got['spoiled'], want['spoiled']):
    if not all(same(a[i], b[i]) for i in (0, 1, 2, 4)) or \
        abs(a[3] - b[3]) > 1e-6 * b[3] + 3e-8:
      return 'loop errors and perturbation %r instead of %r' % (a, b)
  return None


def run(plan, stats):
  stats.evaluations += 1
  with Kernel(seed=plan['seed'] & 0xffff, blksize=512) as k:
    try:
      return evaluate(plan, k, stats)
    finally:
      stats.kernel(k)


def evaluate(plan, k, stats):
  def write():
    from hand_eye_calibration_experiments.experiment_results import ResultEntry
    return logs(plan, ResultEntry, stats)
  found, res = call(k, 'log', write, plan['seed'])
  if res.exc is not None:
    return violation('log', 'logging fails:\n%s', tail(res.out))
  rng = random.Random('fault-%s' % plan['seed'])
  fault = plan['fault']
  names = [name for name, _, _ in found]
  victim = rng.randrange(len(found))
  later = []  # Lines appended while the files are read.
  broken = False
  for i, (name, header, lines) in enumerate(found):
    text = header + ''.join(line for _, line in lines)
    if i == victim and fault == 'grow' and len(lines) > 1:
      keep = rng.randrange(len(lines))
      text = header + ''.join(line for _, line in lines[:keep])
      later = [line for _, line in lines[keep:]]
    if i == victim and fault == 'cut' and lines:
      # The log was cut inside its last line.
      cut = lines[-1][1].rindex(',')
      text = text[:len(text) - len(lines[-1][1]) +
                  1 + int(plan['where'] * (cut - 1))]
      broken = True
      stats.probe('cut')
      k.fire('log_cut')
    if i == victim and fault == 'missing':
      broken = True
      stats.probe('missing')
      k.fire('file_missing')
      continue
    write_text(k, name, text)
  rows = [[row for row, _ in lines] for _, _, lines in found]
  total = sum(rows, [])
  counted = len(expected(total)['spoiled'])
  for name, on in (('single', any(len(r) == 1 for r in rows)),
                   ('empty', any(not r for r in rows)),
                   ('files', len(found) > 1),
                   ('datasets', len({r['dataset'] for r in total}) > 1),
                   ('all_failed', total and not counted),
                   ('large', len(total) > 500),
                   ('repeated', plan['repeated'] and counted > 3)):
    if on:
      stats.probe(name)
  if len(found) > 1 or counted < len(total):
    stats.nontrivial_now()
  specs = []
  if fault == 'read':
    specs = [{'cls': 'read', 'nth': plan['nth'], 'kind': plan['kind'],
              'frac': 0.5}]
  elif fault == 'split':
    specs = [{'cls': 'read', 'nth': n, 'kind': 'short', 'frac': 0.3}
             for n in range(0, 40, 3)]
    stats.probe('split')
  state = {'reads': 0, 'size': None}

  def grow(record):
    if record[2] not in ('read', 'open-r') or not later:
      return
    state['reads'] += 1
    if state['reads'] > plan['nth'] // 2:
      some = later[:rng.randint(1, len(later))]
      del later[:len(some)]
      stats.probe('grown')
      k.fire('file_grown')
      with kernel.real.open(k.path(names[victim]), 'a') as f:
        f.write(''.join(some))
  before = len(rows[victim]) - len(later)
  inject = Injector(k, specs, grow)

  def collect():
    from hand_eye_calibration_experiments import experiment_plotting_tools
    return experiment_plotting_tools.collect_data_from_csv(list(names))
  value, res = call(k, 'evaluate', collect, plan['seed'])
  inject.stop()
  k.set_faults([])
  failed = res.exc is not None
  k.note(failed, repr(value))
  hit = [r for r in inject.hit] if fault == 'read' else []
  if hit:
    stats.probe('read_failed')
  stats.state(len(found), len(plan['files'][0]['algorithms']), len(total) > 9,
              counted > 9, fault, failed, plan['fail'], plan['opt_fail'])
  if failed:
    if broken or hit:
      return None
    return violation('fails', 'the evaluation fails:\n%s', tail(res.out))
  if broken:
    return violation('partial', 'a file that is %s was evaluated', fault)
  try:
    got = statistics(value)
  except (TypeError, ValueError, AttributeError) as ex:
    raise kernel.Unusable('unexpected statistics: %r' % ex)
  problem = None
  for size in range(len(rows[victim]), before - 1, -1):
    some = sum([r[:size] if i == victim else r for i, r in enumerate(rows)], [])
    now = difference(got, expected(some))
    if now is None:
      return None
    problem = problem or now
  return violation('statistics', '%s', problem)


def shrink(plan):
  if plan['fault']:
    yield dict(plan, fault='')
  for i in range(len(plan['files'])):
    if len(plan['files']) > 1:
      yield dict(plan, files=plan['files'][:i] + plan['files'][i + 1:])
  for i, f in enumerate(plan['files']):
    for key, value in (('algorithms', f['algorithms'][:1]), ('pairs', 1),
                       ('iterations', 1), ('starts', 1), ('rows', 1),
                       ('rows', 2), ('dataset', 0)):
      if f[key] != value:
        yield dict(plan, files=[dict(g, **{key: value}) if j == i else g
                                for j, g in enumerate(plan['files'])])
  for key in ('fail', 'opt_fail', 'bad'):
    if plan[key]:
      yield dict(plan, **{key: 0.0})
  for key in ('mix', 'repeated'):
    if plan[key]:
      yield dict(plan, **{key: False})
