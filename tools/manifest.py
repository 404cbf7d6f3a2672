"""Writes MANIFEST.json from the list of built checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

NOTE = ('Seeded search over simulated executions: evidence, not proof. Trusted: '
        'the simulator seams (sim/kernel.py), the stubs and the oracle named in '
        'the evidence file. ')

CHECKS = {
    'C01': ('deterministic simulation: two sensors, clocks, lossy recorders',
            'Judged against the simulated pose and offset.'),
    'C02': ('deterministic simulation: two clocks, recorder faults, known offset',
            'Motions are selected by a stated excitation measure.'),
    'C03': ('deterministic simulation: recorder faults, brute-force oracle',
            'Recordings with seeded loss, bursts, duplicates, jitter, offsets.'),
    'C04': ('deterministic simulation: seeded and scripted draws, outliers',
            'Judged against the simulated transformation and pair labels.'),
    'C05': ('deterministic simulation: scripted draws counted at the seam',
            'The bound is taken as 5000 draws per configured iteration.'),
    'C06': ('deterministic simulation: varied clock, random state, stale files, '
            'session history, split I/O', 'Byte-wise comparison with a run in '
            'the reference environment.'),
    'C07': ('deterministic simulation: crash, torn write, full disk, failing '
            'call at every operation', 'Files observed at every operation; '
            'process death, not power loss.'),
    'C08': ('deterministic simulation: histories of edits, deletions, crashed, '
            'killed and failed runs', 'Compared with a run in an empty '
            'directory; two known findings.'),
    'C09': ('deterministic simulation: the real script over simulated steps '
            'that fail, are killed or crash', 'Compared with the steps run by '
            'hand; one known finding.'),
    'C10': ('deterministic simulation: scripted verdicts, crashes and restarts, '
            'full disks', 'Every line is matched with the call it reports.'),
    'C11': ('deterministic simulation: seeded schedules of the worker pool, '
            'failing optimiser calls', 'Every line is matched with the '
            'optimiser call it reports.'),
    'C12': ('deterministic simulation: message loss, duplication, reordering, '
            'delay, failing system calls', 'Compared with a simulated transform '
            'buffer that has all transforms.'),
    'C13': ('deterministic simulation: exports that fail, are killed or cannot '
            'be started', 'Started exports are matched with the configuration; '
            'one known finding.'),
    'C18': ('deterministic simulation: logs of restarted experiments, cut or '
            'growing while they are read, failing and split reads',
            'Compared with the values of the logged experiments.'),
}

NOT_APPLICABLE = {
    'C14': 'Pure functions of their operands: no schedule, clock, I/O, crash or '
           'second party that a simulation with fault injection could vary.',
    'C15': 'C++ program whose libraries (aslam, ethzasl_extrinsic_calibration) '
           'are not installed, so its real code cannot run in the simulator; it '
           'is a stub in C08-C11.',
    'C16': 'C++ program whose libraries (OpenCV/aslam_cv, ROS) are not '
           'installed, so its real code cannot run in the simulator; it is a '
           'stub in C13.',
    'C17': 'Pictures on a display: there is no machine-readable observable that '
           'a simulated execution could be judged by. That drawing does not '
           'change results is part of C06, the collected statistics are C18.',
}

PENDING = ['C%02d' % i for i in range(1, 14)] + ['C18']


def main():
  checks = []
  for prop in sorted(CHECKS):
    technique, note = CHECKS[prop]
    checks.append({
        'property': prop,
        'quick_cmd': '%s run.py %s' % (PY, prop),
        'thorough_cmd': '%s run.py %s' % (PY, prop),
        'evidence_file': 'evidence/%s.json' % prop,
        'technique': technique,
        'level': 'exploration',
        'level_note': NOTE + note,
    })
  na = [{'property': p, 'reason': r} for p, r in sorted(NOT_APPLICABLE.items())]
  for p in PENDING:
    if p not in CHECKS:
      na.append({'property': p, 'reason': 'check not built yet'})
  data = {
      'version': 1,
      'setup_cmd': '%s run.py --setup' % PY,
      'checks': checks,
      'not_applicable': sorted(na, key=lambda x: x['property']),
      'notes': 'No hooks in /repo: all seams are Python-level and installed by '
               'the simulator. Replay a failure with: run.py <property> '
               '--replay <file>.',
  }
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(data, f, indent=1)
    f.write('\n')


if __name__ == '__main__':
  main()
