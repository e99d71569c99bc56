"""mkseed.py SPEC.py [--notest]: turn a spec (property, needs, what, edits, demo) into /verif/seeded/<name>/ after confirming it in a scratch copy."""
import json, os, shutil, subprocess, sys
spec, args = sys.argv[1], sys.argv[2:]
name = os.path.splitext(os.path.basename(spec))[0]
d = {}
exec(open(spec).read(), d)
wt = f'/tmp/seedwt_{name}'
subprocess.run(['rm', '-rf', wt]); subprocess.run(['cp', '-a', '/repo', wt], check=True)
for f, old, new in d['edits']:
    p = os.path.join(wt, f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True, check=True).stdout
out = f'/verif/seeded/{name}'
os.makedirs(out, exist_ok=True)
open(f'{out}/patch.diff', 'w').write(diff)
open(f'{out}/demo.py', 'w').write(d['demo'].lstrip('\n'))
open(f'{out}/demo.sh', 'w').write('''#!/bin/bash
# run in the repository: exit 0 when the behaviour is right
d="$(cd "$(dirname "$0")" && pwd)"
export PATH="/opt/venv/bin:$PATH" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
exec /opt/venv/bin/python -W ignore "$d/demo.py"
''')
json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['what']}, open(f'{out}/meta.json', 'w'), indent=1)
ok = True
for where, want in (('/repo', True), (wt, False)):
    r = subprocess.run(['bash', f'{out}/demo.sh'], cwd=where, capture_output=True, text=True)
    print(name, where, 'exit', r.returncode, r.stderr.strip().splitlines()[-1:] if r.returncode else '')
    if (r.returncode == 0) != want:
        ok = False; print(r.stdout[-1500:], r.stderr[-3000:])
if ok and '--notest' not in args:
    env = dict(os.environ, PYTHONPATH=wt, JAX_PLATFORMS='cpu')
    cmd = f". /opt/vp/env.sh; cd {wt}; export PYTHONPATH={wt}; /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 5 --timeout=600 -o python_files='test.py' jax_am/fem/tests 2>&1 | tail -3"
    r = subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, env=env); print(r.stdout)
    ok = '5 passed' in r.stdout and 'failed' not in r.stdout
subprocess.run(['rm', '-rf', wt])
print(name, 'OK' if ok else 'REJECTED')
if not ok: subprocess.run(['rm', '-rf', out])
