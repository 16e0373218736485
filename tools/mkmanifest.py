"""Writes MANIFEST.json (run: /opt/venv/bin/python tools/mkmanifest.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import mkprops  # noqa: E402

NOTE = ('Seeded search over simulated executions: every run is an exactly repeatable function of its seed. Holds on everything explored, no proof. '
        'Trusted: the simulated runtime in sim/native, the reference models in sim/models.py. ')
EXTRA = {
    'C01': 'Sequentially consistent memory assumed; compiler optimisation levels -O0 and -O2.',
    'C02': 'Sequentially consistent memory assumed; compiler optimisation levels -O0 and -O2.',
    'C03': 'Sequentially consistent memory assumed; compiler optimisation levels -O0 and -O2.',
}


def main():
    checks = []
    na = list(mkprops.NA)
    for p in mkprops.P:
        i = p['id']
        if any(n['property'] == i for n in na):
            continue
        if not os.path.exists(os.path.join(HERE, 'sim', 'props', i.lower() + '.py')):
            na.append({'property': i, 'reason': 'check not built yet'})
            continue
        checks.append({'property': i, 'quick_cmd': './check.py %s --tier quick' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'deterministic simulation with fault injection',
                       'level': 'exploration', 'level_note': NOTE + EXTRA.get(i, '')})
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python sim/build.py', 'checks': checks,
         'not_applicable': sorted(na, key=lambda n: n['property']),
         'notes': 'No hooks in /repo: the seams are the OpenMP runtime symbols, the heap, the compiler instrumentation of memory accesses, '
                  'the system call wrappers, the progress callbacks and the Python line trace.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
