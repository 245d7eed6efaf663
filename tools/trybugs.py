"""python3 tools/trybugs.py [--all-props] [ID...]   Run the checks on copies of /repo with each planted bug applied."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    d = os.path.join(VERIF, 'seeded', sid)
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='bug-')
    try:
        shutil.copytree('/repo/pocomc', tmp + '/pocomc')
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + tmp, d + '/patch.diff'], check=True, cwd=tmp)
        out = []
        props = [prop]
        if '--all-props' in sys.argv:
            props = sorted(c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks'])
        for p in props:
            r = subprocess.run([sys.executable, '-m', 'pva', 'check', p], cwd=VERIF, env=dict(os.environ, PVA_REPO=tmp, PVA_EVIDENCE=tmp),
                               capture_output=True, text=True)
            out.append((p, r.returncode, r.stdout))
        return out
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(VERIF + '/seeded'))
    with ThreadPoolExecutor(4) as ex:
        for i, out in zip(ids, ex.map(one, ids)):
            for p, rc, txt in out:
                if rc or len(out) == 1:
                    v = [l for l in txt.splitlines() if 'violated:' in l or rc == 2]
                    print('%-22s %s rc=%d %s' % (i, p, rc, v[0][:160] if v else ''), flush=True)
