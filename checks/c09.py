"""C09: the end-to-end script never turns a failed step into a result."""

import hashlib
import json
import os

from checks import c08
from checks.common import BIN, SCRIPTS, read_bytes, tail, violation, write_text
from sim import memo, shell
from sim.inject import Injector, random_fault
from sim.kernel import Kernel

ID = 'C09'
RUNS = {'quick': 900, 'thorough': 15000}
RULE = ('a history of invocations of the end-to-end script on recordings in '
        'various places, with stale intermediate files and failing, killed and '
        'crashing steps; non-trivial: a fault fired or stale files were there; '
        'distinct by history hash')
STATE_MEASURE = ('(kind of paths, which intermediate files exist beforehand, '
                 'step that fails and how)')
REAL = ['scripts/compute_complete_handeye_calibration.sh (in the real bash)',
        'bin/compute_aligned_poses.py', 'bin/compute_hand_eye_calibration.py',
        'csv_io.py', 'extrinsic_calibration.py']
STUB = ['rosrun (hands each call to the simulator)', 'batch_estimator (writes '
        'a calibration that names the digest of its inputs)', 'file system '
        'faults and process deaths in the Python steps', 'offset estimation '
        'and calibration are real code whose result is remembered per input']
ASSUMPTIONS = ['recordings whose names start with a dash are given with a '
               'directory', 'bash itself is not simulated: between two steps '
               'it runs alone']
PROBES = ['ok', 'step0_failed', 'step1_failed', 'step2_failed', 'killed',
          'crash', 'stale', 'aged', 'future', 'space', 'same_name', 'absolute', 'recovered',
          'other_cwd', 'found_missing', 'known_state']

SCRIPT = 'compute_complete_handeye_calibration.sh'
SPAN = {'any': 14, 'write': 3, 'change': 9, 'read': 8, 'rename': 3, 'spawn': 1}

DIRS = ['', 'data', 'my data', 'a/b/c', 'x;y', 'q"uote', "it's", 'st*r', '$HOME',
        'ünï', '-dash', 'a  b']
NAMES = ['left.csv', 'right.csv', 'two words.csv', 'no_extension', 'dot.s.csv',
         '$x.csv', 'a*b.csv', 'tab\tname.csv', '.hidden', 'aligned_.csv']


def gen(rng, tier):
  events = []
  for _ in range(rng.choice([1, 1, 2, 3])):
    steps = []
    failing = rng.choice([None, 0, 1, 2, 0, 1, 2])
    for i in range(3):
      how = None
      if i == failing or rng.random() < 0.1:
        how = rng.choice(['before', 'after', 'kill', 'faults', 'faults',
                          'crash', 'missing', 'partial'])
      step = {'how': how, 'code': rng.choice([1, 1, 2, 127, 255])}
      if how == 'faults':
        step['faults'] = [random_fault(rng, SPAN, ['any', 'write', 'change',
                                                   'read', 'rename'])]
      steps.append(step)
    events.append({'steps': steps,
                   'aged': [rng.random() < 0.4, rng.random() < 0.4],
                   'versions': [rng.randrange(v) for v in c08.VERSIONS[:2]]})
  a = [rng.choice(DIRS), rng.choice(NAMES)]
  b = [rng.choice(DIRS), rng.choice(NAMES)]
  if rng.random() < 0.25:
    b = [rng.choice(DIRS), a[1]]
  if a == b:
    b = [b[0], 'other.csv']
  overwrite = rng.random() < 0.03
  if overwrite:
    b = [a[0], 'aligned_' + a[1]]
  return {'a': a, 'b': b, 'absolute': [rng.random() < 0.3, rng.random() < 0.3],
          'cwd': rng.choice(['', '', 'work', 'my work']),
          'stale': rng.getrandbits(5), 'events': events,
          'stamp': rng.choice([0, 0, 1e7, -1e7]),
          'seed': rng.getrandbits(30)}


def estimator(k, argv):
  """Digest of the inputs into the output file; like a gflags program it takes
  --flag value and --flag=value."""
  args = {}
  i = 0
  while i < len(argv):
    name = argv[i].lstrip('-')
    if '=' in name:
      name, value = name.split('=', 1)
    else:
      i += 1
      value = argv[i] if i < len(argv) else ''
    args[name] = value
    i += 1
  digest = hashlib.sha256()
  for name in ('pose1_csv', 'pose2_csv', 'init_guess_file'):
    try:
      with open(args[name], 'rb') as f:
        data = f.read()
    except (IOError, OSError, KeyError):
      return 1
    digest.update(data + b'|')
  try:
    calib = json.loads(data.decode())
  except ValueError:
    return 1
  calib['source'] = digest.hexdigest()
  try:
    with open(args['output_file'], 'w', 1) as f:
      f.write(json.dumps(calib, indent=1, sort_keys=True))
  except (IOError, OSError, KeyError):
    return 1
  return 0


STEPS = [('hand_eye_calibration', 'compute_aligned_poses.py'),
         ('hand_eye_calibration', 'compute_hand_eye_calibration.py'),
         ('hand_eye_calibration_batch_estimation', 'batch_estimator')]


def which_step(argv):
  for i, (package, tool) in enumerate(STEPS):
    if argv[:3] == ['rosrun', package, tool]:
      return i
  return None


def perform(k, cwd, argv, step):
  """Runs the real or stub program; exit status, 'kill' or 'crash'."""
  which = which_step(argv)
  how = step['how']
  if which is None:
    return 3
  if how == 'before':
    k.fire('step_fails')
    return step['code']
  if how == 'missing':
    k.fire('step_not_found')
    return 3
  if how == 'kill':
    k.fire('step_killed')
    return 'kill'
  if how == 'partial' and which == 2:
    # The estimator dies after the first part of its output.
    k.fire('step_fails')
    for i, arg in enumerate(argv):
      if arg.startswith('--output_file'):
        name = arg.split('=', 1)[1] if '=' in arg else argv[i + 1]
        write_text(k, os.path.join(cwd, name), '{"delay": 0.')
    return step['code']
  inject = Injector(k, step.get('faults', []) if how == 'faults' else [])

  def body():
    os.chdir(cwd)
    if which == 2:
      code = estimator(k, argv[3:])
      if code:
        raise SystemExit(code)
    else:
      k.exec_script(BIN + argv[2], argv[3:])
  # The script's user may change what the steps wrote.
  mask = os.umask(0)
  res = k.run_function(STEPS[which][1], body, seed=1)
  os.umask(mask)
  inject.stop()
  if res.killed:
    crash = [f for f in k.faults.values() if f['kind'] in ('crash', 'torn')]
    k.set_faults([])
    return 'crash' if crash else 'kill'
  k.set_faults([])
  if how == 'crash':
    k.fire('crash')
    return 'crash'
  if how in ('after', 'partial') and res.code == 0:
    k.fire('step_fails')
    return step['code']
  return res.code


_reference = {}


def reference(versions):
  """(initial calibration, optimised calibration) without script."""
  key = tuple(versions)
  if key not in _reference:
    with Kernel(seed=1) as k:
      memo.attach(k)
      for name, i in (('a.csv', 0), ('b.csv', 1)):
        write_text(k, name, c08.recording(i, versions[i]))
      for argv in (
          ['rosrun', 'hand_eye_calibration', 'compute_aligned_poses.py',
           '--poses_B_H_csv_file', 'a.csv', '--poses_W_E_csv_file', 'b.csv',
           '--aligned_poses_B_H_csv_file', 'aa.csv',
           '--aligned_poses_W_E_csv_file', 'ab.csv',
           '--time_offset_output_csv_file', 'offset.csv'],
          ['rosrun', 'hand_eye_calibration', 'compute_hand_eye_calibration.py',
           '--aligned_poses_B_H_csv_file', 'aa.csv',
           '--aligned_poses_W_E_csv_file', 'ab.csv',
           '--time_offset_input_csv_file', 'offset.csv',
           '--calibration_output_json_file', 'calibration.json'],
          ['rosrun', 'hand_eye_calibration_batch_estimation', 'batch_estimator',
           '--pose1_csv', 'a.csv', '--pose2_csv', 'b.csv', '--init_guess_file',
           'calibration.json', '--output_file', 'optimized.json']):
        code = perform(k, k.root, argv, {'how': None})
        if code != 0:
          break
      _reference[key] = (code, read_bytes(k.path('calibration.json')),
                         read_bytes(k.path('optimized.json')))
  return _reference[key]


def run(plan, stats):
  stats.evaluations += 1
  with Kernel(seed=plan['seed'] & 0xffff) as k:
    try:
      return history(plan, k, stats)
    finally:
      stats.kernel(k)


def history(plan, k, stats):
  memo.attach(k)
  sim = shell.prepare(k)
  scripts = shell.copy_scripts(k, SCRIPTS)
  base = k.path('home dir') if plan['seed'] % 3 == 0 else k.path('home')
  cwd = os.path.join(base, plan['cwd']) if plan['cwd'] else base
  os.makedirs(cwd, exist_ok=True)
  paths, given = [], []
  for (directory, name), absolute in zip((plan['a'], plan['b']),
                                         plan['absolute']):
    path = os.path.join(base, directory, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    paths.append(path)
    rel = os.path.relpath(path, cwd)
    if rel.startswith('-'):
      rel = './' + rel
    given.append(path if absolute else rel)
  for top, dirs, _ in os.walk(base):
    os.chmod(top, 0o777)
  stale = [os.path.join(cwd, n) for n in (
      'time_offset.csv', 'calibration.json', 'calibration_optimized.json')]
  stale += [os.path.join(os.path.dirname(p), 'aligned_' + os.path.basename(p))
            for p in paths]
  overwrites = any(s == p for s in stale for p in paths)
  for i, path in enumerate(stale):
    if (plan['stale'] >> i) & 1 and path not in paths:
      # Results of an earlier invocation on other recordings.
      old = c08.recording(2, 0) if i > 2 else (
          '1.500000000000000000\n' if i == 0 else
          '{"delay": 9, "rotation": {"i": 0, "j": 0, "k": 0, "w": 1}, '
          '"translation": {"x": 7, "y": 7, "z": 7}}')
      write_text(k, path, old)
      os.chmod(path, 0o666)
      if plan['stamp']:
        # The clock was changed since, or the files come from elsewhere.
        when = k.wall + plan['stamp'] + i
        os.utime(path, (when, when))
        if plan['stamp'] > 0:
          stats.probe('future')
      k.fire('stale_file')
      stats.probe('stale')
  both = ''.join(plan['a'] + plan['b'])
  for name, on in (('space', ' ' in both), ('absolute', any(plan['absolute'])),
                   ('same_name', plan['a'][1] == plan['b'][1]),
                   ('other_cwd', plan['cwd'])):
    if on:
      stats.probe(name)
  if overwrites:
    stats.probe('known_state')
  kinds = (any(c in both for c in ' \t'), any(c in both for c in '$*;"\''),
           plan['a'][1] == plan['b'][1], plan['a'][0] == plan['b'][0])
  failed_before = False
  for number, event in enumerate(plan['events'] + [None]):
    last = event is None
    if last:
      event = {'steps': [{'how': None}] * 3,
               'aged': plan['events'][-1]['aged'],
               'versions': plan['events'][-1]['versions']}
    for i, path in enumerate(paths):
      write_text(k, path, c08.recording(i, event['versions'][i]))
      os.chmod(path, 0o666)
      if event['aged'][i]:
        # Copied with its time stamp, older than what earlier runs left.
        os.utime(path, (1e6 + i, 1e6 + i))
        stats.probe('aged')
    calls = []

    def serve(call_cwd, argv):
      step = event['steps'][min(len(calls), 2)]
      k.calls.append([k.rel(a) for a in argv])
      if len(calls) > 20:
        calls.append((None, 1))
        return 'crash'
      if not k.inside(call_cwd):
        calls.append((argv, 1))
        return 1
      verdict = perform(k, call_cwd, argv, step)
      calls.append((argv, verdict))
      return verdict
    code = shell.run(k, sim, os.path.join(scripts, SCRIPT), given, cwd, serve)
    k.note(number, code, [(k.rel(c[0]), c[1]) for c in calls])
    out = shell.output(sim)
    bad = [i for i, c in enumerate(calls) if c[1] != 0]
    how = event['steps'][min(bad[0], 2)]['how'] if bad else None
    stats.state(kinds, plan['stale'], bad[0] if bad else None, how, code == 0)
    if shell.escapes(sim):
      return violation('escape', 'the script changes files elsewhere: %s',
                       shell.escapes(sim)[0])
    if bad:
      stats.probe('step%d_failed' % min(bad[0], 2))
      if calls[bad[0]][1] == 'crash':
        stats.probe('crash')
      if calls[bad[0]][1] == 'kill':
        stats.probe('killed')
      if how == 'missing':
        stats.probe('found_missing')
      failed_before = True
      if code == 0:
        return violation('status', 'step %d (%s) ended with %s, but the script '
                         'with status 0', bad[0], calls[bad[0]][0][2],
                         calls[bad[0]][1])
      if len(calls) > bad[0] + 1:
        return violation('continued', 'step %d (%s) ended with %s, but the '
                         'script started %r', bad[0], calls[bad[0]][0][2],
                         calls[bad[0]][1], calls[bad[0] + 1][0][:3])
      if last and overwrites:
        return violation('recording_overwritten', 'the intermediate file of '
                         'one recording is the other recording')
      if last:
        return violation('fails', 'step %s fails without a fault: %r\n%s',
                         bad[0], calls[bad[0]][0], tail(out))
      continue
    if code != 0:
      return violation('status', 'all %d steps succeeded, but the script ended '
                       'with status %s:\n%s', len(calls), code, tail(out))
    stats.probe('ok')
    if failed_before:
      stats.probe('recovered')
    rcode, init, final = reference(event['versions'])
    if rcode != 0:
      return violation('reference', 'the steps fail on good recordings')
    found = read_bytes(os.path.join(cwd, 'calibration_optimized.json'))
    if found != final:
      return violation('recording_overwritten' if overwrites else 'result',
                       'the script ended with status 0, but the optimised '
                       'calibration was not computed from the given recordings '
                       'and their initial calibration (steps: %s)',
                       [which_step(c[0]) for c in calls])
    for i, path in enumerate(paths):
      if read_bytes(path) != c08.recording(i, event['versions'][i]).encode():
        return violation('recording_overwritten' if overwrites else 'input',
                         'recording %d was changed', i)
  return None


def shrink(plan):
  if len(plan['events']) > 1:
    for i in range(len(plan['events'])):
      yield dict(plan, events=plan['events'][:i] + plan['events'][i + 1:])
  for i, event in enumerate(plan['events']):
    for j, step in enumerate(event['steps']):
      if step['how'] is not None:
        steps = list(event['steps'])
        steps[j] = {'how': None, 'code': 1}
        yield dict(plan, events=plan['events'][:i] + [dict(event, steps=steps)]
                   + plan['events'][i + 1:])
  for key, value in (('stale', 0), ('stamp', 0), ('absolute', [False, False]), ('cwd', ''),
                     ('a', ['', 'left.csv']), ('b', ['', 'right.csv'])):
    if plan[key] != value:
      yield dict(plan, **{key: value})


def warm():
  try:
    for a in range(c08.VERSIONS[0]):
      for b in range(c08.VERSIONS[1]):
        reference([a, b])
  except Exception:
    pass
