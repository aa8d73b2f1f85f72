#!/usr/bin/env python3
"""seedtry.py ID [--nocheck]: apply seeded/ID/patch.diff to /repo, build, run the stable
tests, the demo and the property's check; undo; run the demo on the clean tree."""
import sys, os, json, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode('latin-1')
def main(i, check=True):
    if run(['pgrep', '-f', 'vcheck$|/opt/vcheck'])[1].strip(): print('vcheck is running'); return
    d = f'{V}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    if run(['git', '-C', '/repo', 'status', '--porcelain'])[1].strip():
        print('repo dirty'); return
    base = {t for t in json.load(open('/opt/vp/BASELINE.json'))['stable_passing']} if 'stable_passing' in open('/opt/vp/BASELINE.json').read() else None
    rc, o = run(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    if rc: print(i, 'PATCH DOES NOT APPLY', o); return
    try:
        rc, o = run(['bash', '/opt/vp/test.sh', '/tmp/w/seed-res.json'])
        t = json.load(open('/tmp/w/seed-res.json'))
        tests = f"{len(t['passed'])}/{len(t['failed'])}"
        drc, do = run(['timeout', '300', 'bash', d + '/demo.sh'], cwd='/repo')
        c = ''
        if check:
            t0 = time.time()
            crc, co = run(['python3', f'{V}/check.py', prop, 'quick'], cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in co.split('\n') if 'VIOLATION' in l]
            c = f'check {prop} rc={crc} {time.time()-t0:.0f}s {v[:1]}'
    finally:
        run(['git', '-C', '/repo', 'checkout', '--', '.'])
    rc, o = run(['bash', '/opt/vp/build.sh'])
    crc2, co2 = run(['timeout', '300', 'bash', d + '/demo.sh'], cwd='/repo')
    ok = drc != 0 and crc2 == 0 and tests.endswith('/0') and tests.startswith('1679')
    print(i, 'OK' if ok else 'BAD', f'tests {tests} demo patched={drc} clean={crc2}', c)
    if not ok: print('  patched demo:', do[-400:], '\n  clean demo:', co2[-400:])
if __name__ == '__main__':
    for a in sys.argv[1:]:
        if a != '--nocheck': main(a, '--nocheck' not in sys.argv)
