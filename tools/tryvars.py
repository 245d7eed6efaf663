"""python3 tools/tryvars.py [--all-props] [name...]   Run the checks on behaviour-preserving rewrites (tools/variants/*.py); all must stay quiet.

A file defines PROPS (the checks closest to it) and VARIANTS = {name: [(file, old, new), ...]}."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    name, props, edits = job
    tmp = tempfile.mkdtemp(prefix='var-')
    try:
        shutil.copytree('/repo/pocomc', tmp + '/pocomc')
        for f, old, new in edits:
            p = tmp + '/pocomc/' + f
            s = open(p).read()
            assert old in s, (name, f, old)
            s = s.replace(old, new)
            compile(s, p, 'exec')
            open(p, 'w').write(s)
        out = []
        for p in props:
            r = subprocess.run([sys.executable, '-m', 'pva', 'check', p], cwd=VERIF, env=dict(os.environ, PVA_REPO=tmp, PVA_EVIDENCE=tmp),
                               capture_output=True, text=True)
            out.append((p, r.returncode, r.stdout, r.stderr))
        return out
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    pick = [a for a in sys.argv[1:] if not a.startswith('-')]
    jobs = []
    for f in sorted(os.listdir(VERIF + '/tools/variants')):
        if not f.endswith('.py'):
            continue
        m = runpy.run_path(VERIF + '/tools/variants/' + f)
        for n, e in m['VARIANTS'].items():
            nm = f[:-3] + '/' + n
            if pick and not any(q in nm for q in pick):
                continue
            props = m['PROPS']
            if '--all-props' in sys.argv:
                props = sorted(c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks'])
            jobs.append((nm, props, e))
    with ThreadPoolExecutor(7) as ex:
        for j, out in zip(jobs, ex.map(one, jobs)):
            for p, rc, txt, err in out:
                first = txt.splitlines()[0] if txt else err[-300:]
                v = [l for l in txt.splitlines() if 'violated:' in l] + [l for l in txt.splitlines() if 'open:' in l]
                if rc or '-v' in sys.argv:
                    print('%s %-30s %s rc=%d %s' % ('ALARM' if rc else 'quiet', j[0], p, rc, first))
                    for l in v[:3 if '-v' in sys.argv or rc else 0]:
                        print('      ', l.strip()[:260])
    print('%d variants' % len(jobs))
