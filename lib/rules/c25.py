"""Metric recording: every concrete metric class is found from the types; its initialisation and update are interpreted over all
CFG paths, counting what happens to the recorded data and to every other container the metric indexes in step with it."""
from absint import AbsInt, Store, TooBig

RULE = ('initialize of every metric empties its record on every path; update appends exactly one entry on every path (and one entry to each '
        'container kept in step); nothing else adds or removes entries')
ST = 'st'
BASE = 'gapp::metrics::MonitorBase'
APPEND = ('push_back', 'emplace_back', 'append_row', 'append', 'push')
EMPTY = ('clear',)
RESET = ('assign', 'operator=', 'swap')
REMOVE = ('pop_back', 'erase', 'resize', 'pop_front', 'insert', 'emplace', 'push_front', 'emplace_front')


class Rec(AbsInt):
    def __init__(self, cx, fields):
        super().__init__(cx); self.fields = fields; self.other = {}; self.loops = set()

    def target(self, fr, S, n):
        if 'obj' not in n or n.get('cm'): return None
        l = self.deref(S, self.value(fr, S, n['obj'])) if n.get('arrow') else self.lval(fr, S, n['obj'])
        if l[0] == ('this',) and l[1] and l[1][0] in self.fields and len(l[1]) == 1: return l[1][0]
        return None

    def is_fresh(self, fr, e):
        e = self.strip(fr.f, e); n = fr.f.E[e] if e is not None else None
        return bool(n) and n['k'] in ('ctor', 'zero', 'ilist') and not n.get('args')

    def whole(self, fr, S, args, p):
        names = []
        for a in args:
            a = self.strip(fr.f, a); n = fr.f.E[a] if a is not None else None
            while n and n['k'] == 'ctor' and len(n.get('args', [])) == 1: a = self.strip(fr.f, n['args'][0]); n = fr.f.E[a]
            if not n or n['k'] != 'call' or 'obj' not in n or self.lval(fr, S, n['obj']) != (('this',), (p,)): return False
            names.append(n.get('qn', '').rsplit('::', 1)[-1])
        return names in (['begin', 'end'], ['cbegin', 'cend'])

    def hook_call(self, fr, S, e, n):
        if n['k'] != 'call': return None
        nm = n.get('qn', '').rsplit('::', 1)[-1]
        if n.get('op') == '=' or nm in APPEND + EMPTY + RESET + REMOVE:
            p = self.target(fr, S, n); fr_ = False
            if p is None and nm == 'swap' and 'obj' in n and len(n['args']) == 1 and self.is_fresh(fr, n['obj']):
                l = self.lval(fr, S, n['args'][0]); fr_ = True
                if l[0] == ('this',) and len(l[1]) == 1 and l[1][0] in self.fields: p = l[1][0]
            if p is None: return None
            S = S.copy(); k = (ST, p)
            c = S.m.get(k, (0, 0))
            if nm in APPEND: c = (c[0], min(c[1] + 1, 2))
            elif nm in EMPTY: c = (1, 0)
            elif nm in RESET or n.get('op') == '=':
                a = [self.value(fr, S, x) for x in n['args'][:1]]
                c = (1, 0) if fr_ or a and a[0] in (('empty',), ('k', 0)) or n['args'] and self.is_fresh(fr, n['args'][0]) else (2, 0)
            elif nm == 'resize' and n['args'] and self.value(fr, S, n['args'][0]) == ('k', 0): c = (1, 0)
            elif nm == 'erase' and len(n['args']) == 2 and self.whole(fr, S, n['args'], p): c = (1, 0)
            else: c = (2, c[1]); self.other[p] = (fr.f, e, nm)
            S.m[k] = c
            return [('n', S, ('w', (fr.fid, e)))]
        return None

    def hook_elem(self, fr, S, e, n):
        # assignment of a whole container by built-in means
        return None

    def hook_descend(self, fr, S, e, n, g):
        if g.cls and (self.P.is_a(g.cls, BASE) or g.cls == BASE) : return True
        return g.parent is not None or self.takes_field(fr, S, n)

    def takes_field(self, fr, S, n):
        for a in n.get('args', []):
            l = self.lval(fr, S, a)
            if l[0] == ('this',) and l[1] and l[1][0] in self.fields: return True
        return False


def check(cx):
    P = cx.P
    ms = sorted(r for r in P.subclasses(BASE, concrete=True) if r != BASE)
    ms = [m for m in ms if not P.records[m].get('abstract')]
    cx.anchor([m for m in ms if m.startswith('gapp::')], 'metric classes')
    for m in ms:
        data = data_field(P, m)
        if data is None: cx.undecided.append(m); continue
        conts = {fd['name'] for c, fd in P.fields(m, True) if container(P.T(fd['t']))}
        init = hook(P, m, 'initialize'); upd = hook(P, m, 'update')
        if not init or not upd: cx.undecided.append('%s: no body' % m); continue
        nm = short(m)
        res = {}
        for what, h in (('initialize', init), ('update', upd)):
            A = Rec(cx, conts | {data})
            try: res[what] = [(k, S) for k, S, v in A.call_fn(h, Store(), this=(('this',), ()), args=[None] * len(h.params)) if k == 'n']
            except TooBig as ex: cx.undecided.append('%s::%s' % (nm, what))
        if len(res) < 2: continue
        kept = {data} | {c for c in conts if any(S.m.get((ST, c), (0, 0))[1] for k, S in res['update'])}
        for c in sorted(kept):
            cx.obligation('%s: initialize empties %s' % (nm, c)); cx.obligation('%s: update appends exactly one entry to %s' % (nm, c))
            for k, S in res['initialize']:
                v = S.m.get((ST, c), (0, 0))
                if v != (1, 0):
                    cx.violation('init|%s|%s' % (nm, c), init.loc(), "%s: the record `%s' is not empty after the initialisation on some path" % (nm, c), func=m)
            for k, S in res['update']:
                v = S.m.get((ST, c), (0, 0))
                if v != (0, 1):
                    cx.violation('update|%s|%s' % (nm, c), upd.loc(), "%s: an update %s to `%s'" % (nm, 'can add no entry' if v == (0, 0) else 'can add several entries' if v[0] == 0 else 'removes or rewrites entries of' if v[0] else '?', c), func=m)
        # nothing else changes the record
        for c in [m] + P.all_bases(m):
            for f in P.by_cls.get(c, []):
                if f.key in (init.key, upd.key) or f.get('ctor') or f.get('dtor') or f.name in ('operator=', 'initialize', 'update') or f.get('const') or not f.blocks: continue
                if f.get('access') == 'private' or not P.is_repo(f): continue
                A = Rec(cx, kept)
                try: outs = A.call_fn(f, Store(), this=(('this',), ()), args=[None] * len(f.params))
                except TooBig: continue
                cx.obligation('%s::%s does not change the record' % (nm, f.name))
                for k, S, v in outs:
                    for x in kept:
                        if S.m.get((ST, x)) and k == 'n' and not called_by(P, f, (init, upd)):
                            cx.violation('other|%s|%s' % (nm, f.name), f.loc(), "%s::%s changes the record `%s'" % (nm, f.name, x), func=m)
    # default initialisations that a metric of the user inherits
    for c in sorted({b for m in ms for b in P.all_bases(m)} - {BASE}):
        if not P.is_a(c, BASE): continue
        h = next((f for f in P.by_cls.get(c, []) if f.name == 'initialize' and len(f.params) == 1 and f.blocks), None)
        data = data_field(P, c)
        if not h or data is None: continue
        A = Rec(cx, {data})
        try: outs = A.call_fn(h, Store(), this=(('this',), ()), args=[None])
        except TooBig: cx.undecided.append('%s::initialize' % c); continue
        cx.obligation('inherited initialize of %s empties the record' % c)
        for k, S, v in outs:
            if k == 'n' and S.m.get((ST, data), (0, 0)) != (1, 0):
                cx.violation('init|%s|%s' % (short(c), data), h.loc(), "%s: the record `%s' is not empty after the inherited initialisation on some path" % (short(c), data), func=c); break
    cx.coverage['metrics'] = [short(m) for m in ms]
    cx.expect_selftest('verif_selftest::sometimes_recording')


def called_by(P, f, hs):
    return any(n and n['k'] == 'call' and n.get('fn') == f.key for h in hs for n in h.E)


def container(t):
    s = t.get('s', '')
    return s.startswith(('std::vector', 'gapp::small_vector', 'gapp::detail::Matrix', 'std::deque', 'gapp::FitnessMatrix', 'small_vector', 'FitnessMatrix', 'gapp::detail::circular_buffer')) or 'Matrix<' in s


def data_field(P, m):
    for c in [m] + P.all_bases(m):
        for f in P.by_cls.get(c, []):
            if f.name == 'data' and not f.params:
                for n in f.E:
                    if n and n['k'] == 'field' and f.E[n['b']]['k'] == 'this': return n['name']
    for c in [m] + P.all_bases(m):
        for fd in (P.records.get(c) or {'fields': []})['fields']:
            if fd['name'] == 'data_': return 'data_'
    return None


def hook(P, m, name):
    for c in [m] + P.all_bases(m):
        for f in P.by_cls.get(c, []):
            if f.name == name and len(f.params) == 1 and f.blocks: return f
    return None


def short(r): return r.split('<')[0].rsplit('::', 1)[-1]
