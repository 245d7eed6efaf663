"""python3 tools/mkseed.py [--no-tests] ID...   Build and confirm planted bugs from tools/seeds/<ID>.py.

A spec file defines: PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], and DEMO (python source of the
demonstration, run with the repository as working directory).  The result goes to seeded/<ID>/ only when the
demonstration passes on the unchanged tree and fails with the change, and the test suite passes with the change.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the change; run with the repository as working directory\n' \
     'here=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n' \
     'exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"\n'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           MKL_NUM_THREADS='1')


def build(sid, tests=True):
    spec = runpy.run_path(os.path.join(VERIF, 'tools', 'seeds', sid + '.py'))
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        out = os.path.join(tmp, 'out')
        os.makedirs(out)
        open(os.path.join(out, 'demo.sh'), 'w').write(SH)
        open(os.path.join(out, 'demo.py'), 'w').write(spec['DEMO'].lstrip())
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        r = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=repo, capture_output=True, text=True)
        if r.returncode:
            return 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-1500:]
        for f, old, new, *k in spec['EDITS']:
            p = os.path.join(repo, f)
            s = open(p).read()
            parts = s.split(old)
            if len(parts) < 2 or len(parts) > 2 and not k:
                return '%s: pattern occurs %d times in %s' % (sid, len(parts) - 1, f)
            k = k[0] if k else 0
            open(p, 'w').write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
        diff = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
        r = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=repo, capture_output=True, text=True)
        if r.returncode == 0:
            return 'demo passes with the change'
        msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
        if tests:
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=200', 'tests'],
                               cwd=repo, capture_output=True, text=True, env=dict(ENV, PYTHONPATH=repo))
            if not re.search(r'\b31 passed', t.stdout) or 'failed' in t.stdout.splitlines()[-1]:
                return 'tests: ' + t.stdout[-600:]
        dst = os.path.join(VERIF, 'seeded', sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']),
                  open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        return 'ok (%s)' % ' '.join(msg)[:160]
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for i, m in zip(ids, ex.map(lambda i: build(i, '--no-tests' not in sys.argv), ids)):
            print(i, m, flush=True)
