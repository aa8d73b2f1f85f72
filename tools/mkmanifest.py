#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist and properties.jsonl."""
import importlib, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'lib'), os.path.join(ROOT, 'checks')]
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
PURE = 'A pure function of its input: no schedule, clock, fault, I/O or interleaving for it to depend on, so there is nothing for a simulator to decide; searching its inputs would be fuzzing, not simulation.'
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', pid + '.py')):
        m = importlib.import_module(pid)
        checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid, 'thorough_cmd': 'python3 check.py %s thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': getattr(m, 'TECHNIQUE', 'deterministic simulation with fault injection: seeded search'),
                       'level': m.LEVEL, 'level_note': m.NOTE})
    else:
        na.append({'property': pid, 'reason': PURE if pid[0] == 'N' else 'no check yet'})
doc = {'version': 1, 'setup_cmd': 'bash sim/build.sh build',
       'hooks': {'guard': 'NUJEL_SIM', 'enable': 'sim/build.sh compiles /repo\'s sources with -DNUJEL_SIM (and -Dmain=nujel_main for bin/) and links them against sim/sim.c, which takes over the libc calls with --wrap',
                 'source_commits': [subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=Add a simulation hook'], stdout=subprocess.PIPE).stdout.decode().split()[0]]},
       'checks': checks, 'not_applicable': na,
       'notes': 'Each check: seeded search over simulated runs (lib/harness.py, checks/<ID>.py). replay.py FILE runs a recorded case again. See DESIGN.md.'}
json.dump(doc, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
