#!/usr/bin/env python3
"""Development aid: applies small source edits to scratch copies of /repo/src and runs checks against them.
usage: mut.py FILE [filter]   -- FILE (python) defines M = [(name, 'C01,C02', 'hit'|'quiet', [(path, old, new), ...]), ...]"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2] if len(sys.argv) > 2 else ''
def run(m):
    name, props, want, edits = m
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        shutil.copytree(os.environ.get('GAPP_BASE', '/repo/src'), d + '/src')
        for path, old, new in edits:
            p = os.path.join(d, 'src', path); s = open(p).read()
            m = re.search(r'\s+'.join(re.escape(w) for w in old.split()), s)
            if not m: return name, 'NOAPPLY ' + old[:60], ''
            open(p, 'w').write(s[:m.start()] + new + s[m.end():])
        res = []; out = ''
        for pr in props.split(','):
            env = dict(os.environ, GAPP_REPO=d, GAPP_EVID=d + '/ev')
            r = subprocess.run(['bash', '/verif/check.sh', pr], env=env, capture_output=True, text=True)
            hit = r.returncode == 1 and 'VIOLATION property=' + pr in r.stdout
            ok = {'hit': hit, 'quiet': r.returncode == 0}[want]
            res.append('%s:%s%s' % (pr, 'rc%d' % r.returncode, '' if ok else ' <<<<<< want ' + want))
            out += '\n'.join(l for l in r.stdout.splitlines() if ' via ' not in l and not l.startswith('VIOLATION'))[:600 if hit else 900] + '\n' + r.stderr[-800:]
        return name, ' '.join(res), out
    finally: shutil.rmtree(d)
ms = [m for m in ns['M'] if flt in m[0]]
with ThreadPoolExecutor(6) as ex:
    for n, r, o in ex.map(run, ms):
        print('== %-44s %s' % (n, r)); 
        if '<<<' in r or '-v' in sys.argv: print('     ' + o.replace('\n', '\n     '))
        sys.stdout.flush()
