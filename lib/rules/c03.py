"""Settings survive a run. For every solve overload the solver settings (fields stored by public setters) a run changes
are tracked through an automaton over all normal and exceptional paths: each must hold its original value again at every
exit, by a scope guard (whose own destructor is verified to put the saved value back on every path) or by an explicit
write-back of a copy saved before the change."""
from automaton import Automaton
from facts import AnalysisBroken
from roles import Roles
from killflow import KillFlow, norm
from rules.c02 import feasible_writes

RULE = 'a setting changed by a run is restored to its saved value on every normal and exceptional exit of solve'
ASSUMPTIONS = ['destructors run for every live local when an exception propagates; a call not declared noexcept may throw']


def setting_fields(cx, R):
    """field -> (setter, fields cleared/set with it)"""
    P = cx.P; out = {}
    for c in [R.info] + R.ga:
        for f in P.by_cls.get(c, []):
            if f.get('ctor') or f.get('dtor') or f.get('const') or f.get('static') or not f.params or f.name == 'solve' or f.name.startswith('operator'): continue
            m = next((m for m in P.records[c]['methods'] if m['key'] == f.key), None)
            if (m or {}).get('access', 'public') != 'public': continue
            fs = set()
            for a in cx.effects.summary(f):
                if a.kind == 'w' and a.path[0] == ('this',) and norm(a.path[1]) and not {'*', '[]'} & set(norm(a.path[1])): fs.add(norm(a.path[1])[0])
            for x in fs: out.setdefault(x, set()).add(f.key)
    return out


def restoring_classes(cx):
    """guard classes of the library: class -> 'refs' (its destructor writes back through stored references) | 'call' (invokes a stored callable)"""
    P = cx.P; out = {}; broken = {}
    for rec in P.records:
        if not rec.startswith('gapp::') and 'verif_selftest' not in rec: continue
        d = [g for g in P.by_cls.get(rec, []) if g.get('dtor') and g.blocks]
        if not d: continue
        d = d[0]; fs = P.fields(rec)
        ctor_save = False
        refs = [fd['name'] for c, fd in fs if '&' in P.T(fd['t']).get('s', '')]
        bools = {fd['name']: True for c, fd in fs if P.T(fd['t']).get('s') == 'bool'}
        KF = KillFlow(P, cx.paths, cx.effects, bools)
        if refs:
            # the destructor must write the referenced objects from a by-value field on every path
            K = must_events(P, KF, d, lambda f, e: writes_field(cx, f, e, refs, [fd['name'] for c, fd in fs if fd['name'] not in refs]))
            if K: out[rec] = 'refs'
            else: broken[rec] = d
        elif any('lambda' in P.T(fd['t']).get('s', '') or 'std::function' in P.T(fd['t']).get('s', '') for c, fd in fs):
            fn = [fd['name'] for c, fd in fs if 'lambda' in P.T(fd['t']).get('s', '') or 'std::function' in P.T(fd['t']).get('s', '')]
            K = must_events(P, KF, d, lambda f, e: invokes_field(cx, f, e, fn))
            if K: out[rec] = 'call'
            else: broken[rec] = d
    return out, broken


def writes_field(cx, f, e, dst, src):
    n = f.E[e]
    if n['k'] == 'assign' and n['op'] == '=': l, r = n['a'], n['b']
    elif n['k'] == 'call' and n.get('op') == '=' and 'obj' in n and n['args']: l, r = n['obj'], n['args'][0]
    else: return False
    L = {norm(s)[0] for x, s in cx.paths.path(f, l) if x == ('this',) and norm(s)}
    if not L & set(dst): return False
    for y in f.subtree(r):
        ny = f.E[y]
        if ny and ny['k'] == 'field' and ny['name'] in src: return True
    return False


def invokes_field(cx, f, e, fn):
    n = f.E[e]
    if n['k'] != 'call': return False
    if n.get('op') == '()' or n.get('qn') in ('std::invoke', 'std::__invoke', 'std::apply') or 'ind' in n:
        for y in f.subtree(e):
            if f.E[y] and f.E[y]['k'] == 'field' and f.E[y]['name'] in fn: return True
    return False


def must_events(P, KF, f, pred, depth=0):
    """every feasible path entry -> exit has an element with pred (directly or in an unconditional callee on this)"""
    hit = set()
    for b, i, e in f.elems():
        if not isinstance(e, int): continue
        if pred(f, e): hit.add(b)
        elif depth < 3 and f.E[e]['k'] == 'call' and f.E[e].get('fn') in P.funcs:
            g = P.funcs[f.E[e]['fn']]
            if g.blocks and g.cls == f.cls and must_events(P, KF, g, pred, depth + 1): hit.add(b)
    seen = set(); st = [f.entry]
    while st:
        b = st.pop()
        if b in seen or b in hit: continue
        seen.add(b)
        if b == f.exit: return False
        blk = f.blocks[b]
        if blk.get('nr'): continue
        for ix, s in enumerate(blk['s']):
            if s >= 0 and KF.feasible(f, blk, ix): st.append(s)
    return True


class A(Automaton):
    """state: (dirty fields, saved copies {(var, field)}, guards {(var, field)})"""

    def __init__(self, cx, settings, guards, exempt):
        super().__init__(cx.P); self.cx = cx; self.settings = settings; self.guards = guards; self.exempt = exempt
        self.written = {}; self.nguards = 0; self.wmemo = {}

    def enter(self, f, elem, node, g, state): return False

    def this_fields(self, f, e):
        return {norm(s)[0] for r, s in self.cx.paths.path(f, e) if r == ('this',) and len(norm(s)) == 1 and norm(s)[0] in self.settings}

    def var_of(self, f, e):
        for _ in range(8):
            n = f.E[e]
            if n['k'] == 'var': return n['v']
            if n['k'] in ('cast', 'wrap'): e = n['e']
            elif n['k'] == 'call' and n.get('qn') in ('std::move', 'std::forward', 'std::as_const') and n['args']: e = n['args'][0]
            elif n['k'] == 'call' and 'obj' in n and n.get('cm') and not n['args'] and n.get('qn', '').rsplit('::', 1)[-1].startswith(('operator', 'get', 'value')): e = n['obj']
            elif n['k'] == 'ctor' and len(n['args']) == 1: e = n['args'][0]
            else: return None
        return None

    def call_writes(self, f, e, n):
        key = (f.key, e)
        if key in self.wmemo: return self.wmemo[key]
        P, PT = self.P, self.cx.paths
        out = {}
        for g in P.callees(f, n):
            if g.name == 'solve': continue
            m = PT.arg_binding(f, n)
            for a in self.cx.effects.summary(g):
                if a.kind != 'w' or a.how == 'moved': continue
                for r, s in PT.subst1(f, n, m, a.path[0], a.path[1]):
                    s = norm(s)
                    if r == ('this',) and s and s[0] in self.settings and s[0] not in self.exempt and '*' not in s: out.setdefault(s[0], a)
        self.wmemo[key] = out
        return out

    def event(self, f, e, n, st):
        dirty, saved, guards = st
        if isinstance(e, dict):
            if e['k'] == 'adtor':
                g = {(v, x) for v, x in guards if v == e['v']}
                if g: return [(dirty - {x for v, x in g}, saved, guards - g)]
            return None
        k = n['k']
        if k == 'decl':
            for v in n['vars']:
                i = v.get('init')
                if i is None: continue
                t = f.vtype(v['v']); rec = t.get('rec')
                kind = self.guards.get(rec)
                if kind == 'refs':
                    for y in f.subtree(i):
                        for x in (self.this_fields(f, y) if f.E[y]['k'] == 'field' else ()):
                            if x not in dirty: guards = guards | {(v['v'], x)}; self.nguards += 1
                elif kind == 'call':
                    for y in f.subtree(i):
                        if f.E[y] and f.E[y]['k'] == 'lambda':
                            for x in self.lambda_restores(f, f.E[y], saved, dirty): guards = guards | {(v['v'], x)}; self.nguards += 1
                elif not t.get('ref'):
                    ni = f.E[i]
                    src = i
                    for x in self.copy_source(f, i):
                        if x not in dirty: saved = saved | {(v['v'], x)}
            return [(dirty, saved, guards)]
        if k == 'assign' or (k == 'call' and n.get('op') == '=' and 'obj' in n):
            l, r = (n['a'], n['b']) if k == 'assign' else (n['obj'], n['args'][0] if n['args'] else None)
            F = self.this_fields(f, l)
            if F:
                v = self.var_of(f, r) if r is not None and (k == 'call' or n['op'] == '=') else None
                for x in F:
                    if v is not None and (v, x) in saved: dirty = dirty - {x}
                    elif x not in self.exempt: dirty = dirty | {x}; self.written.setdefault(x, (f, e))
                return [(dirty, saved, guards)]
            v = f.E[l]['v'] if f.E[l]['k'] == 'var' else None
            if v is not None: return [(dirty, frozenset(p for p in saved if p[0] != v), guards)]
            return None
        if k == 'call' and n.get('qn', '').rsplit('::', 1)[-1] == 'release' and 'obj' in n and f.E[n['obj']]['k'] == 'var':
            return [(dirty, saved, frozenset(p for p in guards if p[0] != f.E[n['obj']]['v']))]
        if k == 'call' and n.get('qn') in ('std::exchange', 'std::swap') and n['args']:
            F = self.this_fields(f, n['args'][0])
            if F:
                for x in F: dirty = dirty | {x}; self.written.setdefault(x, (f, e))
                return [(dirty, saved, guards)]
            return None
        if k in ('call', 'ctor') and not (k == 'ctor' and n.get('rec') in self.guards):
            w = self.call_writes(f, e, n)
            if w:
                back = set()
                # a setter called with the saved copy puts the value back
                if n.get('fn') in self.P.funcs and len(n.get('args', [])) == 1:
                    v = self.var_of(f, n['args'][0])
                    back = {x for x in w if v is not None and (v, x) in saved}
                for x in w:
                    if x not in back: self.written.setdefault(x, (f, e))
                return [((dirty | set(w)) - back, saved, guards)]
        return None

    def copy_source(self, f, i):
        for _ in range(8):
            n = f.E[i]
            if n['k'] == 'field': return self.this_fields(f, i)
            if n['k'] in ('cast', 'wrap'): i = n['e']
            elif n['k'] == 'ctor' and len(n['args']) == 1: i = n['args'][0]
            elif n['k'] == 'call' and n.get('qn') == 'std::exchange' and n['args']: return self.this_fields(f, n['args'][0])
            elif n['k'] == 'call' and 'obj' in n and not n['args'] and n.get('cm'):
                g = self.P.funcs.get(n.get('fn'))
                if g is not None and f.E[n['obj']]['k'] == 'this':
                    for m in g.E:
                        if m and m['k'] == 'field' and m['name'] in self.settings: return {m['name']}
                    return set()
                i = n['obj']
            else: return set()
        return set()

    def lambda_restores(self, f, lam, saved, dirty):
        out = set()
        caps = {}
        for c in lam['caps']:
            if 'init' in c: caps[c.get('name')] = self.copy_source(f, c['init'])
        svars = {f.V[v]['name']: x for v, x in saved}
        for o in lam['ops']:
            g = self.P.funcs.get(o)
            if not g: continue
            def restores(h, e):
                n = h.E[e]
                if n['k'] == 'assign' and n['op'] == '=': l, r = n['a'], n['b']
                elif n['k'] == 'call' and n.get('op') == '=' and 'obj' in n and n['args']: l, r = n['obj'], n['args'][0]
                else: return None
                tgt = {norm(s)[0] for rr, s in self.cx.paths.path(h, l) if rr[0] == 'othis' and len(norm(s)) == 1}
                v = self.var_of(h, r)
                if v is None or not tgt: return None
                nm = h.V[v]['name']
                for x in tgt:
                    if (nm in caps and x in caps[nm] and x not in dirty) or svars.get(nm) == x: return x
                return None
            hits = {}
            for b, i, e in g.elems():
                if isinstance(e, int):
                    x = restores(g, e)
                    if x: hits.setdefault(x, []).append(e)
            KF = KillFlow(self.P, self.cx.paths, self.cx.effects)
            for x, es in hits.items():
                if must_events(self.P, KF, g, lambda ff, ee: ee in es): out.add(x)
        return out


def check(cx):
    P = cx.P; R = Roles(cx)
    settings = setting_fields(cx, R)
    cx.anchor(R.maxgen in settings, 'setter of the generation limit')
    guards, broken = restoring_classes(cx)
    solves = R.solves()
    # defaults deduced per run: written only when a flag is set that the setter of the field clears
    flags = {}
    for x, setters in settings.items():
        for k in setters:
            for a in cx.effects.local(P.funcs[k]):
                s = norm(a.path[1])
                if a.kind == 'w' and a.path[0] == ('this',) and len(s) == 1 and s[0] != x:
                    t = next((P.T(fd['t']) for c in [R.info, R.ga[0]] for cc, fd in P.fields(c, True) if fd['name'] == s[0]), {})
                    if t.get('s') == 'bool': flags.setdefault(s[0], set()).add(x)
    exempt = set()
    if flags:
        KC = KillFlow(P, cx.paths, cx.effects, {fl: False for fl in flags})
        core = [f for f in solves]
        for fl, xs in flags.items():
            for x in xs:
                if not any((x,) == s[:1] and len(s) == 1 for f in core for s in feasible_writes(cx, KC, f)): exempt.add(x)
    changed = set(); nexits = 0
    for f in sorted(solves, key=lambda f: f.key):
        au = A(cx, set(settings), guards, exempt)
        init = (frozenset(), frozenset(), frozenset())
        res = au.run(f, init)
        nexits += len(res)
        bad = {}
        for kind, (dirty, s, g) in res:
            for x in dirty: bad.setdefault(x, kind if bad.get(x) != 'n' else 'n')
        for x in sorted(set(au.written)):
            changed.add(x)
            cx.obligation('setting %s is restored at every exit of %s' % (x, f.key), x not in bad)
            if x in bad:
                g, e = au.written[x]
                why = ''
                for b in broken: 
                    if any(n and n['k'] == 'ctor' and n.get('rec') == b for n in f.E): why = ' (the guard %s does not put it back on every path)' % b.split('<')[0].rsplit('::', 1)[-1]
                cx.violation('C03:%s' % x, g.loc(e), 'solve changes the setting %s and leaves by %s without restoring it%s' % (x, {'n': 'a normal return', 'x': 'an exception'}[bad[x]], why), [f.key], f.key)
        if not au.written: cx.obligation('no setting is changed by ' + f.key)
    cx.coverage.update(settings=sorted(settings), deduced_defaults=sorted(exempt), settings_changed_by_a_run=sorted(changed), guard_classes=sorted(guards), solve_overloads=len(solves), exit_states=nexits)
