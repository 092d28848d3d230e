"""development tool: create seeded/ID from a replacement; used as  mk(id, prop, file, [(old, new)...], needs, breaks, demo)"""
import difflib, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(i, prop, reps, needs, breaks, demo):
    """reps: list of (file, old, new)"""
    d = os.path.join(V, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in reps:
        src = files.setdefault(f, [open('/repo/' + f).read()] * 2)
        assert src[1].count(old) == 1, (i, f, src[1].count(old))
        files[f] = [src[0], src[1].replace(old, new)]
    out = ''
    for f, (a, b) in files.items():
        out += 'diff --git a/%s b/%s\n' % (f, f)
        out += ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w').write(out)
    open(os.path.join(d, 'demo.py'), 'w').write('import os, sys, warnings\nwarnings.simplefilter("ignore")\nsys.path.insert(0, os.getcwd())\n' + demo.strip('\n') + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
