"""Builds the extractor when needed, runs it over /repo's current sources, loads the facts.

Fact files are cached under /verif/build keyed by the content hash of every analysed source, the
instantiation file and the extractor itself, so a changed tree is always re-extracted.
"""
import glob, hashlib, json, os, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GAPP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = '/usr/bin/clang++-18'
CXXFLAGS = ['-std=gnu++20', '-w', '-DGAPP_BUILD_STATIC', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


class AnalysisBroken(Exception):
    """The analysis could not be carried out (anchors gone, sources do not parse ...)."""


def _sha(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as fh: h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def ensure_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    tag = _sha([src, os.path.join(VERIF, 'tool', 'build.sh')])
    exe = os.path.join(BUILD, 'gfacts-' + tag)
    if not os.path.exists(exe):
        with open(os.path.join(BUILD, '.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(exe):
                r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh'), exe], capture_output=True, text=True)
                if r.returncode != 0:
                    raise AnalysisBroken('extractor does not build: ' + r.stderr[-2000:])
    return exe, tag


def repo_sources():
    src = os.path.join(REPO, 'src')
    fs = []
    for ext in ('cpp', 'hpp', 'h', 'cc', 'cxx', 'inl', 'ipp', 'inc'):
        fs += glob.glob(os.path.join(src, '**', '*.' + ext), recursive=True)
    return sorted(set(fs))


def segments():
    """inst.inc is cut at '//# segment:' lines; a segment that no longer compiles is left out (and reported)."""
    txt = open(os.path.join(VERIF, 'tool', 'inst.inc')).read()
    parts = txt.split('//# segment: ')
    head = parts[0]
    ln = head.count('\n') + 1
    segs = []
    for p in parts[1:]:
        name, body = p.split('\n', 1)
        segs.append((name.strip(), '#line %d "%s"\n' % (ln + 1, os.path.join(VERIF, 'tool', 'inst.inc')) + body))
        ln += p.count('\n')
    return head, segs


def unity_text(cpps, head, segs):
    t = ''.join('#include "%s"\n' % c for c in cpps)
    hdrs = [h for h in repo_sources() if h.endswith('.hpp')]
    gapp = os.path.join(REPO, 'src', 'gapp.hpp')
    t += '#include "%s"\n' % gapp
    for h in hdrs:
        if h != gapp: t += '#include "%s"\n' % h
    t += '#line 1 "%s"\n' % os.path.join(VERIF, 'tool', 'inst.inc') + head
    for n, b in segs: t += '\n// ' + n + '\n' + b
    return t


def _syntax(path, flags=None):
    r = subprocess.run([CLANG] + CXXFLAGS + (flags or []) + ['-fsyntax-only', '-I' + os.path.join(REPO, 'src'), path], capture_output=True, text=True)
    return r.returncode == 0, r.stderr


def _extract(exe, path, out):
    cmd = [exe, '--out=' + out, '--root=' + os.path.join(REPO, 'src'), '--root=' + os.path.join(VERIF, 'tool'), path, '--'] + CXXFLAGS + ['-I' + os.path.join(REPO, 'src')]
    r = subprocess.run(cmd, capture_output=True, text=True)
    ok = r.returncode == 0 and os.path.exists(out)
    return ok, r.stderr


def get_facts(verbose=False):
    """Returns (facts dict, info dict)."""
    exe, ttag = ensure_tool()
    srcs = repo_sources()
    if not srcs: raise AnalysisBroken('no sources under ' + REPO + '/src')
    tag = _sha(srcs + [os.path.join(VERIF, 'tool', 'inst.inc'), os.path.abspath(__file__)], ttag + REPO)
    out = os.path.join(BUILD, 'facts-%s.json' % tag)
    info_p = out + '.info'
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(out) and os.path.exists(info_p):
        return json.load(open(out)), dict(json.load(open(info_p)), cached=True)
    t0 = time.time()
    cpps = [f for f in srcs if f.endswith(('.cpp', '.cc', '.cxx'))]
    head, segs = segments()
    uni = os.path.join(BUILD, 'unity-%s-%d.cpp' % (tag, os.getpid()))
    dropped = []
    tmp = out + '.%d.tmp' % os.getpid()
    open(uni, 'w').write(unity_text(cpps, head, segs))
    ok, err = _extract(exe, uni, tmp)
    mode = 'unity'
    if not ok:
        # which part fails?
        base = uni + '.base.cpp'
        open(base, 'w').write(unity_text(cpps, '', []))
        bok, berr = _syntax(base)
        if bok:
            def trial(i):
                p = uni + '.seg%d.cpp' % i
                n, b = segs[i]
                open(p, 'w').write(unity_text([], head, [(n, b)]))
                r = _syntax(p)[0]
                os.unlink(p)
                return r
            with ThreadPoolExecutor(8) as ex: res = list(ex.map(trial, range(len(segs))))
            keep = [s for s, r in zip(segs, res) if r]
            dropped = [s[0] for s, r in zip(segs, res) if not r]
            open(uni, 'w').write(unity_text(cpps, head if len(keep) else '', keep))
            ok, err = _extract(exe, uni, tmp)
        if not ok:
            # per-TU mode (unity name collisions): each source on its own plus the instantiations
            mode = 'per-tu'
            units = []
            for i, c in enumerate(cpps):
                p = uni + '.tu%d.cpp' % i
                open(p, 'w').write('#include "%s"\n' % c); units.append((p, True))
            p = uni + '.inst.cpp'
            keep = [s for s in segs if s[0] not in dropped]
            open(p, 'w').write(unity_text([], head, keep)); units.append((p, False))
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(lambda u: _extract(exe, u[0], u[0] + '.json'), units))
            bad = [(u, r[1]) for u, r in zip(units, rs) if not r[0]]
            if bad:
                for u, _ in units:
                    for q in (u, u + '.json'):
                        if os.path.exists(q): os.unlink(q)
                raise AnalysisBroken('sources do not compile: ' + (err or bad[0][1])[-1500:])
            merged = merge([json.load(open(u[0] + '.json')) for u in units])
            json.dump(merged, open(tmp, 'w'))
            for u, _ in units:
                for q in (u, u + '.json'):
                    if os.path.exists(q): os.unlink(q)
        if os.path.exists(base): os.unlink(base)
    if os.path.exists(uni): os.unlink(uni)
    info = dict(mode=mode, dropped_segments=dropped, sources=len(srcs), translation_units=len(cpps), extract_s=round(time.time() - t0, 1), source_hash=tag)
    os.replace(tmp, out)
    json.dump(info, open(info_p, 'w'))
    # keep the cache small
    def mt(p):
        try: return os.path.getmtime(p)
        except OSError: return 0
    olds = sorted(glob.glob(os.path.join(BUILD, 'facts-*.json')), key=mt)
    for o in olds[:-8]:
        for q in (o, o + '.info'):
            try: os.unlink(q)
            except OSError: pass
    return json.load(open(out)), dict(info, cached=False)


def merge(parts):
    """Merges per-TU fact files (types, files and globals are re-numbered)."""
    res = dict(functions=[], records=[], types=[], globals=[], unused_templates=[], files=[])
    tix, fix, gix = {}, {}, {}
    fkeys, rkeys = set(), set()

    def T(p, t):
        if t is None or t < 0: return -1
        ty = p['types'][t]
        k = ty['s']
        if k not in tix:
            tix[k] = len(res['types']); res['types'].append(ty)
        return tix[k]

    def F(p, i):
        k = p['files'][i]
        if k not in fix:
            fix[k] = len(res['files']); res['files'].append(k)
        return fix[k]

    def G(p, i):
        g = p['globals'][i]
        k = (g['qname'], p['files'][g['file']] if g['file'] < len(p['files']) else '', g['l'])
        if k not in gix:
            gix[k] = len(res['globals'])
            g2 = dict(g, id=gix[k], t=T(p, g['t']), file=F(p, g['file']))
            res['globals'].append(g2)
        return gix[k]

    def walk(p, o):
        if isinstance(o, dict):
            for k, v in list(o.items()):
                if k in ('t', 'tt', 'nt', 'ret', 'objt') and isinstance(v, int) and not isinstance(v, bool): o[k] = T(p, v)
                elif k == 'pt': o[k] = [T(p, x) for x in v]
                elif k in ('file', 'init_file') and isinstance(v, int): o[k] = F(p, v)
                elif k == 'g' and isinstance(v, int): o[k] = G(p, v)
                elif isinstance(v, (dict, list)): walk(p, v)
        elif isinstance(o, list):
            for x in o: walk(p, x)
    for p in parts:
        for f in p['functions']:
            if f['key'] in fkeys: continue
            fkeys.add(f['key']); walk(p, f); res['functions'].append(f)
        for r in p['records']:
            if r['name'] in rkeys: continue
            rkeys.add(r['name']); walk(p, r); res['records'].append(r)
    used = set()
    for p in parts:
        for g in p['globals']: G(p, g['id'])
    return res
