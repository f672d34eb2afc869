"""dev tool: run checks against seeded changes in scratch copies.
usage: try_seeded.py [--all-checks] ID...   (no ID: all).  Never used by a registered check."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
allc = '--all-checks' in sys.argv
ids = args or sorted(os.listdir(V + '/seeded'))
def one(i):
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    w = '/tmp/e_' + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=w)
    out = []
    for c in ([prop] if not allc else ['C%02d' % n for n in range(1, 20)]):
        t = time.time()
        env = dict(os.environ, VP_REPO=w, VERIF_SEED='1', VERIF_TIER='quick', VP_EVIDENCE='/tmp/ev_' + i)
        r = subprocess.run(['timeout', '900', '/opt/venv/bin/python', 'run.py', c], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        what = [l for l in r.stdout.split('\n') if l.strip() and not l.startswith(('VIOLATION', 'KNOWN'))][-2:]
        out.append('%-22s %s rc=%d %3ds %s %s' % (i, c, r.returncode, time.time() - t, 'CAUGHT' if v and r.returncode == 1 else 'MISSED', ' | '.join(what)[:200]))
        print(out[-1], flush=True)
    shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    list(ex.map(one, ids))
