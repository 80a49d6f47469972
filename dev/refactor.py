#!/usr/bin/env python3
"""Development aid: applies many behaviour-preserving edits at once to a copy of /repo/src and runs every claimed check on it.
usage: refactor.py TREE [C01,C02...]"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = '/verif/dev/refactor'
def tree(n):
    ns = {}; exec(open('%s/%s.py' % (H, n)).read(), ns); return ns['E']
def main():
    n = sys.argv[1]
    props = sys.argv[2].split(',') if len(sys.argv) > 2 else [c['property'] if 'property' in c else c['property_id'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    d = '/tmp/rf.' + n
    shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo/src', d + '/src')
    for path, old, new in tree(n):
        p = os.path.join(d, 'src', path); s = open(p).read()
        m = re.search(r'\s+'.join(re.escape(w) for w in old.split()), s)
        if not m: print('NOAPPLY', path, old[:80]); continue
        open(p, 'w').write(s[:m.start()] + new + s[m.end():])
    if '-n' in sys.argv: return
    def run(p):
        env = dict(os.environ, GAPP_REPO=d, GAPP_EVID='/tmp/rfev.' + n)
        r = subprocess.run(['bash', '/verif/check.sh', p], env=env, capture_output=True, text=True)
        return p, r.returncode, '\n'.join(l for l in r.stdout.splitlines() if not l.startswith('KNOWN'))[:1800] + r.stderr[-1500:]
    first = run(props[0])
    with ThreadPoolExecutor(5) as ex: res = [first] + list(ex.map(run, props[1:]))
    for p, rc, out in res:
        print(p, rc)
        if rc: print('    ' + out.replace('\n', '\n    '))
    shutil.rmtree(d)
main()
