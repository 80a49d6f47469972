#!/usr/bin/env python3
"""Development aid: turns seed definitions into /verif/seeded/<id>/ after confirming them in a scratch copy of /repo
bind-mounted over /repo in a private mount namespace.  usage: seed.py FILE [filter]
FILE defines S = [dict(id=, property=, edits=[(path, old, new)], demo='<c++>', flags='', needs=, breaks=)]"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ns = {}; exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2] if len(sys.argv) > 2 else ''
DEMO = '''#!/bin/bash
# exit 0: the property holds for this scenario; non-zero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
g++ -std=c++20 -O1 -g -w -D_GLIBCXX_ASSERTIONS -DGAPP_BUILD_STATIC %s -Isrc "$here/demo.cpp" _build/libgapp.a -o "$out/demo" -ltbb -lpthread || exit 2
timeout 120 "$out/demo"
'''
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def one(s):
    d = '/verif/seeded/' + s['id']; w = '/tmp/seedw.' + s['id']
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    try:
        r = sh('cp -a /repo %s' % w)
        for path, old, new in s['edits']:
            p = os.path.join(w, 'src', path); t = open(p, newline='').read()
            crlf = '\r\n' in t
            m = re.search(r'\s+'.join(re.escape(x) for x in old.split()), t)
            if not m: return s['id'], 'NOAPPLY ' + old[:70]
            new2 = new.replace('\n', '\r\n') if crlf else new
            open(p, 'w', newline='').write(t[:m.start()] + new2 + t[m.end():])
        r = sh('cd %s && git diff' % w)
        open(d + '/patch.diff', 'w').write(r.stdout)
        r = subprocess.run(['bash', '-c', 'cd %s && git diff --binary > %s/patch.diff' % (w, d)])
        clean = sh('cd /repo && bash %s/demo.sh' % d)
        if clean.returncode != 0: return s['id'], 'DEMO FAILS ON CLEAN rc=%d %s' % (clean.returncode, (clean.stdout + clean.stderr)[-1200:])
        scr = 'mount --bind %s /repo && cd /repo && touch src/core/ga_base.hpp && bash /opt/vp/build.sh >/tmp/seed.%s.log 2>&1 || { tail -30 /tmp/seed.%s.log; exit 9; }; bash /opt/vp/test.sh /tmp/seed.%s.json 2>&1 | tail -1; cd /repo && bash %s/demo.sh; echo DEMO=$?' % (w, s['id'], s['id'], s['id'], d)
        r = sh("unshare -m bash -c '%s'" % scr)
        if 'DEMO=' not in r.stdout: return s['id'], 'BUILD FAILED ' + (r.stdout + r.stderr)[-1500:]
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        got = set(json.load(open('/tmp/seed.%s.json' % s['id']))['passed'])
        miss = base - got
        dm = int(re.search(r'DEMO=(\d+)', r.stdout).group(1))
        if miss: return s['id'], 'TESTS FAIL: %s' % sorted(miss)[:5]
        if dm == 0: return s['id'], 'DEMO PASSES WITH PATCH ' + r.stdout[-500:]
        # does the check see it?
        ev = '/tmp/seedev.' + s['id']
        c = sh('GAPP_REPO=%s GAPP_EVID=%s bash /verif/check.sh %s' % (w, ev, s['property'])); shutil.rmtree(ev, ignore_errors=True)
        return s['id'], 'ok demo=%d check rc=%d %s' % (dm, c.returncode, 'CAUGHT' if c.returncode == 1 else 'MISSED')
    finally: shutil.rmtree(w, ignore_errors=True)
ss = [s for s in ns['S'] if flt in s['id']]
with ThreadPoolExecutor(3) as ex:
    for n, r in ex.map(one, ss): print(n, r); sys.stdout.flush()
