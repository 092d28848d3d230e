"""Validate a planted bug (development tool): python3 tools/seed.py ID [CHECK ...]
copies /repo to /tmp/seed_ID, applies seeded/ID/patch.diff, runs the stable tests there, the demonstration on both trees
and the given checks (default: the property of meta.json) against the copy."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i = sys.argv[1]
notest = '--notest' in sys.argv
checks = [a for a in sys.argv[2:] if a[0] == 'C']
d = os.path.join(V, 'seeded', i)
meta = json.load(open(os.path.join(d, 'meta.json')))
wt = '/tmp/seed_' + i
shutil.rmtree(wt, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', wt])
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
try:
    r0 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=wt, env=env, capture_output=True, text=True)
    subprocess.check_call(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=wt)
    r1 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=wt, env=env, capture_output=True, text=True)
    print(i, 'demo clean rc', r0.returncode, r0.stderr[-300:] if r0.returncode else '', '| patched rc', r1.returncode, (r1.stdout + r1.stderr)[-200:].strip())
    if not notest:
        import re
        o = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-n', '6', '-p', 'no:cacheprovider', '--timeout=300', '--tb=no', '-rA', '--ignore=flavio/physics/dileptons', 'flavio'],
                           cwd=wt, env=env, capture_output=True, text=True).stdout
        ok = set()
        for l in o.splitlines():
            m = re.match(r'PASSED (\S+)', l)
            if m:
                f, *c = m.group(1).split('::')
                ok.add(f[:-3].replace('/', '.') + '.' + c[0] + '::' + c[1] if len(c) > 1 else f[:-3].replace('/', '.') + '::' + c[0])
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        print(i, 'stable tests failing:', sorted(stable - ok)[:10], len(stable - ok))
    for c in checks or [meta['property']]:
        p = subprocess.run(['python3', 'run.py', c, '--no-evidence', '--workers', '6'], cwd=V, env=dict(os.environ, VERIF_REPO=wt), capture_output=True, text=True)
        print(i, c, 'rc', p.returncode, [l[:300] for l in p.stdout.splitlines() if l.startswith('---')], p.stderr[-200:])
finally:
    shutil.rmtree(wt, ignore_errors=True)
