#!/usr/bin/env python3
"""Helper to write seeded/<id> from a spec: mk.bug(id, prop, [(file, old, new)...], demo, needs, breaks)."""
import json
import os
import shutil
import subprocess

R = os.environ.get('MK_REPO', '/repo')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$here:/repo/py_gnome" PYTHONDONTWRITEBYTECODE=1
tmp=$(mktemp -d) || exit 2
cd "$tmp" || exit 2
/opt/venv/bin/python -W ignore "$here/demo.py"
rc=$?
cd / && rm -rf "$tmp"
exit $rc
'''


def bug(id, prop, edits, demo, needs, breaks):
    d = os.path.join(V, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert not subprocess.run('git -C %s status --porcelain' % R, shell=True, capture_output=True, text=True).stdout.strip()
    try:
        for f, old, new in edits:
            p = os.path.join(R, 'py_gnome', f)
            s = open(p, encoding='latin-1', newline='').read()
            if s.count(old) != 1:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, 'w', encoding='latin-1', newline='').write(s.replace(old, new))
        diff = subprocess.run('git -C %s diff' % R, shell=True, capture_output=True).stdout
    finally:
        subprocess.run('git -C %s checkout -q -- .' % R, shell=True)
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    open(os.path.join(d, 'demo.py'), 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.copytree(os.path.join(V, 'standin', 'gridded'), os.path.join(d, 'gridded'), ignore=shutil.ignore_patterns('__pycache__'))
