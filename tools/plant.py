#!/usr/bin/env python3
"""Confirm planted bugs: plant.py ID... | all.  For each seeded/<ID>: the demo passes on the clean tree; with the patch the
tree builds, the stable tests pass, the demo fails; and report whether the property's quick check catches it."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def confirm(i, checks=True):
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    p = os.path.join(d, 'patch.diff')
    native = any(l.startswith('+++') and not l.strip().endswith('.py') for l in open(p))
    out = [i, prop]
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    out.append('clean demo rc=%d' % r.returncode)
    if r.returncode:
        print(r.stdout[-1500:])
    r = sh('git -C /repo apply ' + p)
    if r.returncode:
        print(i, 'patch does not apply', r.stdout)
        return
    try:
        r = sh('bash /opt/vp/build.sh')
        out.append('build rc=%d' % r.returncode)
        if r.returncode:
            print(r.stdout[-1500:])
        sh('bash /opt/vp/test.sh /tmp/plant_out.json')
        o = json.load(open('/tmp/plant_out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        miss = sorted(set(base['stable']) - set(o['passed']))
        out.append('tests: %d lost %s' % (len(miss), miss[:3]))
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        out.append('bug demo rc=%d: %s' % (r.returncode, r.stdout.strip().splitlines()[-1:] ))
        if checks:
            r = sh('./check.sh ' + prop, cwd=V)
            out.append('check rc=%d %s' % (r.returncode, [l for l in r.stdout.splitlines() if l.startswith(('--- ', 'VIOL'))]))
    finally:
        sh('git -C /repo checkout -- .')
        if native:
            sh('bash /opt/vp/build.sh')
    print(' | '.join(out), flush=True)


if __name__ == '__main__':
    ids = sys.argv[1:]
    if ids == ['all']:
        ids = sorted(os.listdir(os.path.join(V, 'seeded')))
    for i in ids:
        confirm(i)
