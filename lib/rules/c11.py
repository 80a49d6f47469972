"""Interprocedural typestate analysis of the run protocol. Every path of every solve overload (calls, virtual
dispatch and lambdas followed, branches on the keep-all flag and on the presence of a callback correlated) is
driven through an automaton over the protocol events: population / fitness matrix / solutions updates,
algorithm, stop condition and metric initialisation, generation counter changes, population replacement, metric
update, callback, stop-condition evaluation. The stop condition wrapper and the metric set are checked too."""
from automaton import Automaton
from roles import Roles, method_of, this_field, reaching

RULE = 'protocol automaton over GA::solve; linear normal form of the generation bound; exactly-once evaluation of the user stop condition'
ALG = 'gapp::algorithm::Algorithm'; STOP = 'gapp::stopping::StopCondition'; MET = 'gapp::detail::MetricSet'

FIELDS = ['met', 'stp', 'alg', 'reset', 'pop', 'fm', 'N', 'S', 'dec', 'u', 'c', 'g', 'sol', 'keep', 'cb', 'prep']
IX = {n: i for i, n in enumerate(FIELDS)}


def up(s, **kw):
    s = list(s)
    for k, v in kw.items(): s[IX[k]] = v
    return tuple(s)


class Proto(Automaton):
    exceptions = False

    def __init__(self, cx, R):
        super().__init__(cx.P); self.cx = cx; self.R = R; self.relevant = None; self.seen_events = set()

    def is_event(self, f, n):
        R, P = self.R, self.P
        if n['k'] == 'call':
            if method_of(P, n, ALG, ('initialize',)): return 'alg'
            if method_of(P, n, ALG, ('prepareSelections',)): return 'prep'
            if method_of(P, n, ALG, ('select',)): return 'sel'
            if method_of(P, n, ALG, ('nextPopulation',)): return 'next'
            if method_of(P, n, STOP, ('initialize',)): return 'stp'
            if method_of(P, n, STOP, ('operator()',)): return 'S'
            if method_of(P, n, MET, ('initialize',)): return 'met'
            if method_of(P, n, MET, ('update',)): return 'U'
            if n.get('op') == '()' and 'obj' in n:
                for p in self.cx.paths.path(f, n['obj']):
                    if this_field(p) == R.cb: return 'C'
        return None

    def invoke_event(self, f, n):
        """std::invoke(callable, ...)"""
        if n['k'] == 'call' and n.get('qn') in ('std::invoke',) and n['args']:
            for p in self.cx.paths.path(f, n['args'][0]):
                if this_field(p) == self.R.cb: return 'C'
                if this_field(p) == self.R.stop: return 'S'
        return None

    def writes(self, f, e):
        R = self.R
        out = []
        if f.get('ctor') or f.get('dtor'): return out
        for a in self.byelem(f).get(e, []):
            if a.kind not in ('w', 'a'): continue
            x = this_field(a.path)
            s = a.path[1]
            if x == R.gen and a.f.key == f.key: out.append(('gen', a))
            elif x == R.pop and len(s) == 1: out.append(('pop', a))
            elif x == R.fm and len(s) <= 2 and a.how != 'read': out.append(('fm', a))
            elif x == R.sols and len(s) == 1: out.append(('sol', a))
        return out

    _be = {}

    def byelem(self, f):
        k = f.key
        if k not in self._be:
            m = {}
            for a in self.cx.effects.local(f): m.setdefault(a.eid, []).append(a)
            # whole-object updates passed by reference to an analysed function
            for b, i, e in f.elems():
                if not isinstance(e, int): continue
                n = f.E[e]
                if n['k'] == 'call' and n.get('fn') in self.P.funcs:
                    g = self.P.funcs[n['fn']]
                    if n.get('op') == '=' and 'obj' in n:
                        for p in self.cx.paths.path(f, n['obj']):
                            import effects
                            m.setdefault(e, []).append(effects.Access('w', p, f, e, '='))
                    for ai, a in enumerate(n.get('args', [])):
                        t = self.P.T(n['pt'][ai]) if ai < len(n.get('pt', [])) else {}
                        if t.get('ref') == 1 and not t.get('const') and f.E[a]['k'] == 'field':
                            for p in self.cx.paths.path(f, a):
                                import effects
                                m.setdefault(e, []).append(effects.Access('w', p, f, e, g.name))
            self._be[k] = m
        return self._be[k]

    def enter(self, f, e, n, g, s): return g.key in self.relevant

    def of_population(self, f, e):
        '''The value written to the fitness matrix comes from the population (False: from some other list of candidates).'''
        n = f.E[e]; other = False
        work = [n.get('b')] if n['k'] == 'assign' else list(n.get('args', [])); seen = set()
        while work:
            x = work.pop()
            if x is None or not isinstance(x, int) or x < 0 or x in seen: continue
            seen.add(x); m = f.E[x]
            if m['k'] == 'field' and m['name'] == self.R.pop: return True
            if m['k'] == 'call' and m.get('fn') in self.P.funcs and m.get('cm'):
                for r, sl in self.cx.paths.ret_paths(self.P.funcs[m['fn']]) or ():
                    if r == ('this',) and sl and sl[0] == self.R.pop: return True
            if m['k'] == 'var':
                t = f.vtype(m['v']).get('rec') or f.vtype(m['v']).get('s', '')
                i = f.decl_init().get(m['v'])
                if i and i[0] is not None: work.append(i[0])
                elif 'vector<gapp::Candidate<' in t: other = True
                continue
            work += [v for k, v in m.items() if k in ('e', 'a', 'b', 'obj', 'c', 'init') and isinstance(v, int)] + list(m.get('args', []))
        return not other

    def branch(self, f, blk, ix, s):
        c = blk.get('cond')
        if c is None or c < 0: return s
        pol = True
        seen = 0
        while seen < 8:
            seen += 1
            n = f.E[c]
            if n['k'] == 'un' and n['op'] == '!': pol = not pol; c = n['a']
            elif n['k'] == 'var' and f.V[n['v']]['st'] == 'local':
                i = f.decl_init().get(n['v'])
                if not i or i[0] is None: break
                c = i[0]
            elif n['k'] == 'bin' and n['op'] in ('==', '!=') and f.E[n['b']].get('v') in ('false', 'true', 'nullptr'):
                if (n['op'] == '==') == (f.E[n['b']]['v'] != 'true'): pol = not pol
                c = n['a']
            elif n['k'] in ('cast', 'wrap'): c = n['e']
            elif n['k'] == 'call' and n.get('qn', '').endswith('operator bool') and 'obj' in n: c = n['obj']
            else: break
        n = f.E[c]
        val = (ix == 0) == pol
        if n['k'] == 'call' and n.get('fn') in self.P.funcs and n.get('cm') and not n.get('args'):
            ps = self.cx.paths.ret_paths(self.P.funcs[n['fn']]) or ()
            for r, sl in ps:
                if r == ('this',) and sl and sl[0] == self.R.keep: return s if s[IX['keep']] == val else None
        if n['k'] == 'field':
            x = n['name']
            if x == self.R.keep: return s if s[IX['keep']] == val else None
            if x == self.R.cb: return s if s[IX['cb']] == val else None
        if n['k'] == 'call' and s[IX['dec']] == 'pending' and (self.is_event(f, n) == 'S' or self.invoke_event(f, n) == 'S' or n.get('fn') in self.relevant):
            return up(s, dec='stop' if val else 'go')
        return s

    def event(self, f, e, n, s):
        if isinstance(e, dict): return None
        ev = self.is_event(f, n) or (self.invoke_event(f, n) if n['k'] == 'call' else None)
        st = s
        for kind, a in self.writes(f, e):
            self.seen_events.add('w:' + kind)
            if kind == 'gen':
                if a.how == '=' and f.E[f.E[e]['b']].get('cv', f.E[f.E[e]['b']].get('v')) in ('0',): st = up(st, reset=True, g=0)
                elif a.how == '++' or (a.how == '+=' and linear(self.cx, self.R, f, f.E[e]['b']) == {1: 1}) or \
                        (a.how == '=' and linear(self.cx, self.R, f, f.E[e]['b']) == {'gen': 1, 1: 1}): st = up(st, g=min(2, st[IX['g']] + 1))
                else: self.error(f, e, 'the generation counter is modified in an unexpected way')
            elif kind == 'pop':
                if a.how in ('moved',): continue
                st = up(st, pop=(a.how != 'clear'), fm=False, u=0, c=0, prep=False)
            elif kind == 'fm': st = up(st, fm=st[IX['pop']] and self.of_population(f, e))
            elif kind == 'sol':
                if a.how == 'moved': continue
                st = up(st, sol=(a.how != 'clear'))
        if ev is None:
            return None if st == s else ('descend', [st])
        self.seen_events.add(ev)
        G = lambda k: st[IX[k]]
        if ev == 'alg':
            if not G('pop') or not G('fm'): self.error(f, e, 'the algorithm is initialised before the initial population and its fitness matrix are available')
            st = up(st, alg=True)
        elif ev == 'stp':
            if not G('pop'): self.error(f, e, 'the stop condition is initialised before the initial population exists')
            st = up(st, stp=True)
        elif ev == 'met':
            st = up(st, met=True, u=0)
        elif ev == 'prep':
            if not G('alg'): self.error(f, e, 'selections are prepared before the algorithm was initialised for this run')
            if not G('fm'): self.error(f, e, 'selections are prepared while the fitness matrix does not describe the current population')
            st = up(st, prep=True)
        elif ev == 'sel':
            if not G('prep'): self.error(f, e, 'a parent is selected before the selections were prepared for the current population')
            if not G('fm'): self.error(f, e, 'a parent is selected while the fitness matrix does not describe the current population')
        elif ev == 'next':
            if not G('S'): self.error(f, e, 'a new generation is produced without the stop condition having been consulted since the previous one')
            if G('dec') == 'stop': self.error(f, e, 'a new generation is produced after the stop condition asked to stop')
            if not G('alg'): self.error(f, e, 'a new generation is produced before the algorithm was initialised for this run')
            st = up(st, S=False, N=1, g=0, u=0, c=0, sol=False, dec='')
        elif ev == 'U':
            if not G('met'): self.error(f, e, 'metrics are updated before they were initialised for this run')
            if not G('fm'): self.error(f, e, 'metrics are updated while the fitness matrix does not describe the current population')
            if G('u'): self.error(f, e, 'metrics can be updated twice for the same generation')
            if not G('N') and not G('reset'): self.error(f, e, 'metrics record the initial generation before the generation counter was reset')
            if G('N') and G('g') != 1: self.error(f, e, 'metrics record a generation while the generation counter does not have that generation\'s number')
            if G('keep') and not G('sol'): self.error(f, e, 'metrics are updated before the kept optimal solutions include this generation')
            st = up(st, u=1)
        elif ev == 'C':
            if not G('cb'): self.error(f, e, 'the end-of-generation callback is invoked although none may be set')
            if not G('u'): self.error(f, e, 'the end-of-generation callback runs before the metrics of that generation were recorded')
            if G('c'): self.error(f, e, 'the end-of-generation callback can run twice for the same generation')
            if G('N') and G('g') != 1: self.error(f, e, 'the end-of-generation callback runs while the generation counter does not have that generation\'s number')
            st = up(st, c=1)
        elif ev == 'S':
            if not G('stp'): self.error(f, e, 'the stop condition is consulted before it was initialised for this run')
            if G('S'): self.error(f, e, 'the stop condition can be consulted twice for the same generation')
            if G('u') != 1: self.error(f, e, 'the stop condition is consulted before the metrics of the generation were recorded')
            if G('cb') and not G('c'): self.error(f, e, 'the end-of-generation callback can be skipped for a generation')
            if not G('reset'): self.error(f, e, 'the generation counter is not reset at the start of the run')
            if G('N') and G('g') != 1: self.error(f, e, 'the generation counter does not advance by exactly one per generation')
            if not G('N') and G('g') != 0: self.error(f, e, 'the generation counter is advanced before the first generation was produced')
            if not G('fm'): self.error(f, e, 'the stop condition is consulted while the fitness matrix does not describe the current population')
            st = up(st, S=True, N=0, dec='pending')
        return [st]


def linear(cx, R, f, eid, depth=0):
    """-> {'gen':a,'max':b,1:c} or None"""
    n = f.E[eid]
    if depth > 8: return None
    if n['k'] in ('cast', 'wrap'): return linear(cx, R, f, n['e'], depth + 1)
    if n.get('cv') is not None and n['k'] in ('lit',): return {1: int(n['cv'])}
    if n['k'] == 'lit' and n['v'].isdigit(): return {1: int(n['v'])}
    if n['k'] == 'call':
        nm = n.get('qn', '').rsplit('::', 1)[-1]
        if nm == 'generation_cntr': return {'gen': 1}
        if nm == 'max_gen': return {'max': 1}
        if nm.startswith('operator') and 'obj' in n and not n.get('args'): return linear(cx, R, f, n['obj'], depth + 1)
        if nm == 'operator""_sz' and n['args']: return linear(cx, R, f, n['args'][0], depth + 1)
        return None
    if n['k'] == 'var':
        i = f.decl_init().get(n['v'])
        return linear(cx, R, f, i[0], depth + 1) if i and i[0] is not None else None
    if n['k'] == 'field' and n['name'] == R.gen: return {'gen': 1}
    if n['k'] == 'field' and n['name'] == R.maxgen: return {'max': 1}
    if n['k'] == 'ctor' and len(n['args']) == 1: return linear(cx, R, f, n['args'][0], depth + 1)
    if n['k'] == 'bin' and n['op'] in ('+', '-'):
        a, b = linear(cx, R, f, n['a'], depth + 1), linear(cx, R, f, n['b'], depth + 1)
        if a is None or b is None: return None
        r = dict(a)
        for k, v in b.items(): r[k] = r.get(k, 0) + (v if n['op'] == '+' else -v)
        return r
    return None


def bound_ok(cx, R, f, eid):
    """classifies a comparison of the generation number with the limit: True / False / None"""
    n = f.E[eid]
    if n['k'] != 'bin' or n['op'] not in ('>=', '<=', '>', '<', '==', '!='): return None
    a, b = linear(cx, R, f, n['a']), linear(cx, R, f, n['b'])
    if a is None or b is None: return None
    d = dict(a)
    for k, v in b.items(): d[k] = d.get(k, 0) - v
    if not (d.get('gen') and d.get('max')): return None
    op = n['op']
    neg = False
    p = f.parents().get(eid, [])
    for q in p:
        if f.E[q]['k'] == 'un' and f.E[q]['op'] == '!': neg = True
    if neg: op = {'>=': '<', '<': '>=', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[op]
    if d['gen'] < 0:
        d = {k: -v for k, v in d.items()}
        op = {'>=': '<=', '<=': '>=', '>': '<', '<': '>', '==': '==', '!=': '!='}[op]
    if d['gen'] != 1 or d['max'] != -1: return False
    c = d.get(1, 0)
    # gen - max + c OP 0 with the stop decision on true
    if op == '>=': return c == 1
    if op == '>': return c == 2
    if op == '==': return c == 1
    return False


class Once(Automaton):
    """counts the evaluations of the user stop condition in StopCondition::operator()"""
    exceptions = False

    def event(self, f, e, n, s):
        if not isinstance(e, dict) and n['k'] == 'call' and method_of(self.P, n, STOP, ('stop_condition',)) and f.E[n['obj']]['k'] in ('this', 'un', 'var'):
            return [min(2, s + 1)]
        return None

    def enter(self, f, e, n, g, s): return g.cls == STOP


def protocol(cx):
    '''Drives every run through the automaton.'''
    P = cx.P
    R = Roles(cx)
    A = Proto(cx, R)
    seeds = set()
    for f in P.funcs.values():
        for b, i, e in f.elems():
            if isinstance(e, int):
                n = f.E[e]
                if A.is_event(f, n) or A.invoke_event(f, n): seeds.add(f.key); break
                if f.cls in R.ga + [R.info] and A.writes(f, e): seeds.add(f.key); break
    A.relevant = reaching(P, seeds)
    n = 0
    for f in R.solves():
        for keep in (False, True):
            for cb in (False, True):
                init = tuple([False, False, False, False, False, False, 0, False, '', 0, 0, 0, False, keep, cb, False])
                A.stack = []
                res = A.run(f, init)
                n += 1
                for k, s in res:
                    if k != 'n': continue
                    if not s[IX['S']]: A.error(f, None, 'the run can end without the stop condition being consulted after the last generation')
                    if s[IX['dec']] == 'go': A.error(f, None, 'the run can end although the stop condition did not ask to stop')
                    if not s[IX['sol']]: A.error(f, None, 'the run can end without the optimal solutions of the last generation being collected')
                cx.obligation('protocol of %s [keep_all=%s callback=%s]' % (f.key, keep, cb), True)
    return A, R, n


def check(cx):
    P = cx.P
    A, R, n = protocol(cx)
    for need in ('alg', 'prep', 'sel', 'next', 'stp', 'S', 'met', 'U', 'C', 'w:gen', 'w:pop', 'w:fm', 'w:sol'):
        cx.anchor(need in A.seen_events, 'protocol event ' + need)
    for (fk, eid, msg), v in A.errors.items():
        cx.violation('C11:%s:%s' % (strip_inst(v['func']), msg), v['loc'], '%s (in %s)' % (msg, v['func']), v['chain'], v['func'])
    # the wrapper around user stop conditions
    ops = [f for f in P.by_cls.get(STOP, []) if f.name == 'operator()']
    cx.anchor(ops, 'StopCondition::operator()')
    for f in ops:
        O = Once(P)
        res = O.run(f, 0)
        bad = [s for k, s in res if s != 1]
        cx.obligation('user stop condition evaluated exactly once per consultation: ' + f.key, not bad)
        if bad: cx.violation('C11:once', f.loc(), 'the user stop condition is not evaluated exactly once on every path of the consultation', (), f.key)
        fs = [f] + [g for n2 in f.E if n2 and n2['k'] == 'call' for g in P.callees(f, n2) if P.is_repo(g)]
        verdicts = []
        for g in fs:
            for eid, n2 in enumerate(g.E):
                if n2 and n2['k'] == 'bin':
                    b = bound_ok(cx, R, g, eid)
                    if b is not None: verdicts.append((g, eid, b))
        cx.obligation('generation limit enforced in the consultation', all(v[2] for v in verdicts))
        if not verdicts:
            names = [n2.get('qn', '').rsplit('::', 1)[-1] for g in fs for n2 in g.E if n2 and n2['k'] == 'call']
            if 'max_gen' not in names: cx.violation('C11:bound-missing', f.loc(), 'the consultation of the stop condition no longer enforces the generation limit', (), f.key)
            else: cx.undecided.append('generation limit comparison not in linear form at ' + f.loc())
        for g, eid, ok in verdicts:
            if not ok: cx.violation('C11:bound', g.loc(eid), 'the generation limit test `%s` does not stop exactly when the limit is reached' % g.show(eid), (), g.key)
    cx.coverage.update(entry_states=n, functions_followed=len(A.visited), events=sorted(A.seen_events))


def strip_inst(k):
    import re
    k = re.sub(r'@.*$', '', k)
    k = re.sub(r'\(.*$', '', k)
    return re.sub(r'GA<[^>]*>', 'GA', k)
