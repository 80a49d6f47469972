"""Fitness cache and evaluation counter. The functions that evaluate candidates are found from the calls of the fitness function;
they and the functions of the cache class are interpreted abstractly over all their CFG paths, for static and dynamic fitness functions,
with the cache turned on and off."""
from absint import AbsInt, Store, TooBig, const
from roles import Roles, reaching

RULE = ('every evaluation path: counter advances exactly as often as the fitness function is called; dynamic: always called, cache never used and never aborts; '
        'a looked up fitness is used only for the looked up solution; cache: one order entry per stored entry, evict-before-append when full')
ST = 'st'
FF = 'gapp::FitnessFunctionBase'
FFI = 'gapp::FitnessFunctionInfo'


def mine(P, f): return P.is_repo(f) or 'verif_selftest' in f.key


def is_candidate(t): return t.get('rec', '').startswith('gapp::Candidate<')


def invocation(P, n, f=None):
    if n['k'] != 'call': return None
    if n.get('qn') == 'std::invoke' and f is not None and len(n['args']) == 2 and ff_class(P, f.type(n['args'][0]).get('rec', '')): return n['args'][1]
    if n.get('op') == '()' and 'obj' in n and ff_class(P, n.get('cls', '')): return n['args'][0] if n['args'] else None
    return None


def ff_class(P, c): return c.split('<')[0] == FF or any(b.split('<')[0] == FF for b in P.all_bases(c)) if c else False


class Eval(AbsInt):
    max_depth = 8

    def __init__(self, cx, R, follow, evals_acc):
        super().__init__(cx); self.R = R; self.follow = follow; self.acc = evals_acc; self.bad = []

    def bump(self, S, k):
        S = S.copy(); S.m[(ST, k)] = min(S.m.get((ST, k), 0) + 1, 3); return S

    def getter_of(self, f, n, field):
        if n['k'] != 'call' or n.get('args') or not n.get('cm'): return False
        g = self.P.funcs.get(n.get('fn'))
        return bool(g) and any(r == ('this',) and s and s[0] == field for r, s in (self.cx.paths.ret_paths(g) or ()))

    def hook_call(self, fr, S, e, n):
        P = self.P; f = fr.f
        if n['k'] != 'call': return None
        nm = n.get('qn', '').rsplit('::', 1)[-1]
        for a in self.acc.get(f.key, {}).get(e, []):
            if a.kind == 'a':
                op = (a.how or '').split(':')[-1]
                if op == 'load': return None
                ok = nm in ('operator++',) or nm in ('fetch_add', 'operator+=') and n['args'] and self.value(fr, S, n['args'][0]) == const(1)
                if not ok: self.bad.append((f, e, 'the evaluation counter is changed by something other than one atomic increment'))
                return [('n', self.bump(S, 'inc'), ('w', (fr.fid, e)))]
        arg = invocation(P, n, f)
        if arg is not None:
            l = self.lval_or_temp(fr, S, arg)
            S = self.bump(S, 'inv')
            return [('n', S, ('w', ('fit', l)))]
        if nm == 'is_dynamic' and n.get('cls', '').split('<')[0] in (FFI, FF) or nm == 'is_dynamic' and ff_class(P, n.get('cls', '')):
            return [('n', S, const(S.m.get((ST, 'dyn'), False)))]
        if 'obj' in n and not (n.get('virt')) and nm in ('get', 'find', 'at', 'contains', 'operator[]'):
            l = self.lval(fr, S, n['obj'])
            if l[1] and l[1][-1] == self.R.cache and n['args']:
                k = self.lval_or_temp(fr, S, n['args'][0])
                S1 = self.bump(S, 'hit'); S2 = S.copy()
                S1.m[(ST, 'key')] = k
                if nm == 'contains': return [('n', S1, const(True)), ('n', S2, const(False))]
                return [('n', S1, ('at', (('CACHE', k), ()))), ('n', S2, const(None))]
        return None

    def hook_elem(self, fr, S, e, n):
        if n['k'] in ('assign', 'un'):
            for a in self.acc.get(fr.f.key, {}).get(e, []):
                if a.kind == 'w' and not (n['k'] == 'assign' and n['op'] == '=' and fr.f.E[n['b']].get('v') == '0'):
                    self.bad.append((fr.f, e, 'the evaluation counter is changed without an atomic increment'))
        return None

    def hook_descend(self, fr, S, e, n, g): return g.key in self.follow


def check(cx):
    P = cx.P
    R = Roles(cx)
    seeds = set(); invs = {}
    for f in P.funcs.values():
        for e, n in enumerate(f.E):
            if n and invocation(P, n, f) is not None and mine(P, f): seeds.add(f.key); invs.setdefault(f.key, []).append(e)
    cx.anchor([k for k in seeds if P.funcs[k].cls and P.funcs[k].cls.startswith('gapp::GA<') or P.funcs[k].parent], 'calls of the fitness function by the solver')
    acc = {}
    counts = set()
    for f in P.funcs.values():
        if f.get('ctor') or not P.is_repo(f): continue
        for a in cx.effects.local(f):
            if a.kind in ('w', 'a') and a.path[0][0] in ('this', 'othis') and a.path[1][:1] == (R.evals,):
                acc.setdefault(f.key, {}).setdefault(a.eid, []).append(a)
                if a.kind == 'a' and not (a.how or '').endswith('load') or a.kind == 'w' and (f.E[a.eid]['k'] == 'un' or f.E[a.eid].get('op') in ('+=', '-=')): counts.add(f.key)
    follow = reaching(P, seeds | counts)
    setter = {a.path[1][0] for f in R.setters('cache_size') for a in cx.effects.local(f) if a.kind == 'w' and a.path[1]}
    cx.anchor(len(setter) == 1, 'cache_size setter'); cachedf = setter.pop()

    # ---- evaluating functions: outermost functions with a candidate to write to
    def cand_param(f): return [i for i, v in enumerate(f.params) if is_candidate(f.vtype(v)) and f.vtype(v).get('ref') and not f.vtype(v).get('const')]
    reach_inv = reaching(P, seeds)
    callers = {}
    for f in P.funcs.values():
        for n in f.E:
            if n and n['k'] == 'call' and n.get('fn'): callers.setdefault(n['fn'], set()).add(f.key)
    cands = [f for k, f in P.funcs.items() if k in reach_inv and cand_param(f) and f.blocks and mine(P, f)]
    roots = [f for f in cands if not any(cand_param(P.funcs[c]) and c in reach_inv for c in callers.get(f.key, ()) if c in P.funcs)]
    direct = [f for f in cands if not any(P.funcs[n['fn']] in cands for n in f.E if n and n['k'] == 'call' and n.get('fn') in P.funcs)]
    cx.anchor(roots, 'functions that evaluate candidates')
    done = 0
    for f in sorted(set(roots) | {g for g in cands if g.cls and g.cls.startswith('gapp::GA<') and any(c in {r.key for r in roots} for c in callers.get(g.key, ()))}, key=lambda f: f.key):
        i = cand_param(f)[0]; nm = label(f)
        for dyn, cached, ready in ((0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 1, 0), (0, 0, 1), (0, 1, 1)):
            if True:
                dyn = bool(dyn)
                A = Eval(cx, R, follow, acc)
                S = Store(); S.m[(ST, 'dyn')] = dyn
                S.m[(('this',), (cachedf,))] = const(2) if cached else const(0)
                S.m[(('SELF',), (cachedf,))] = const(2) if cached else const(0)
                sol = (('sol',), ())
                if ready: S.m[(sol[0], ('is_evaluated',))] = const(True)
                args = [None] * len(f.params); args[i] = ('ref', sol)
                # in a lambda `this' is captured
                try: outs = [(s, v) for k, s, v in A.call_fn(f, S, this=(('this',), ()), args=args) if k == 'n']
                except TooBig: cx.undecided.append('%s dyn=%s cached=%s' % (nm, dyn, cached)); continue
                done += 1
                what = '%s, %s fitness function, cache %s' % (nm, 'dynamic' if dyn else 'static', 'on' if cached else 'off') + (', evaluated before' if ready else '')
                cx.obligation(what)
                for g, e, msg in A.bad: cx.violation('counter|%s' % g.name, g.loc(e), msg, func=g.key)
                if not outs:
                    cx.violation('abort|%s|%s' % (nm, dyn), f.loc(), 'no candidate can be evaluated (%s)' % what, func=f.key); continue
                for s, v in outs:
                    inv, inc, hit = (s.m.get((ST, x), 0) for x in ('inv', 'inc', 'hit'))
                    if inv != inc:
                        cx.violation('count|%s' % nm, f.loc(), 'the fitness function is called %d time(s) but the evaluation counter advances %d time(s) (%s)' % (inv, inc, what), func=f.key)
                    if ready and inv and not clobbered(s, sol): cx.violation('again|%s' % nm, f.loc(), 'a static fitness function is called again for a solution that has its fitness already', func=f.key)
                    if inv > 1: cx.violation('twice|%s' % nm, f.loc(), 'a candidate is evaluated more than once (%s)' % what, func=f.key)
                    fit = fitness(A, s, sol)
                    if dyn and inv == 0: cx.violation('dynamic|%s' % nm, f.loc(), 'a candidate is not evaluated again although the fitness function is dynamic (%s)' % what, func=f.key)
                    if dyn and mention_cache(fit): cx.violation('dyncache|%s' % nm, f.loc(), 'a cached fitness is used for a dynamic fitness function', func=f.key)
                    if hit and (dyn or not cached) and mention_cache(fit): cx.violation('off|%s' % nm, f.loc(), 'the cache is used although it is turned off (%s)' % what, func=f.key)
                    if hit and not dyn and inv: cx.violation('hit|%s' % nm, f.loc(), 'the fitness function is called although the solution was found in the cache', func=f.key)
                    k = s.m.get((ST, 'key'))
                    if hit and k is not None and k[0] != ('sol',) and mention_cache(fit): cx.violation('key|%s' % nm, f.loc(), 'the fitness of another solution is taken from the cache', func=f.key)
    # ---- invocations outside of the evaluation of candidates must not be counted, counters elsewhere must not exist
    ev = reaching_down(P, [f for f in cands])
    for k in sorted(counts):
        cx.obligation('counted in an evaluation: ' + short(k))
        if k not in ev: cx.violation('counts|%s' % short(k), P.funcs[k].loc(), 'the evaluation counter advances outside of the evaluation of a candidate', func=k)
    cx.anchor(counts or cx.violations, 'increments of the evaluation counter')
    for k, m in sorted(acc.items()):
        f = P.funcs[k]
        for e, L in m.items():
            for a in L:
                if a.kind == 'w':
                    cx.obligation('write of the counter in ' + short(k))
                    n = f.E[e]
                    if not (n['k'] == 'assign' and n['op'] == '=' and f.E[n['b']].get('v') == '0' or n['k'] == 'call'):
                        if k in ev: cx.violation('counter|%s' % f.name, f.loc(e), 'the evaluation counter is changed without an atomic increment', func=k)
    # the counter starts at zero before the first evaluation of a run
    rc = reaching(P, counts)
    resets = {k for k, m in acc.items() for e, L in m.items() if any(a.kind == 'w' for a in L) and k not in counts}
    rr = reaching(P, resets)
    for f in P.funcs.values():
        if not f.cls or f.cls not in R.ga or f.key not in rr or f.key not in rc: continue
        z, v = [], []
        for b in f.blocks:
            for i, e in enumerate(f.blocks[b]['e']):
                if not isinstance(e, int): continue
                n = f.E[e]
                if any(a.kind == 'w' for a in acc.get(f.key, {}).get(e, [])) and f.key in resets: z.append((b, i))
                if n['k'] in ('call', 'ctor', 'lambda'):
                    ks = {g.key for g in P.callees(f, n)} if n['k'] != 'lambda' else set(n['ops'])
                    if ks & rr and not ks & rc: z.append((b, i))
                    if ks & rc and not ks & rr: v.append((b, i, e))
        if not z: continue
        cx.obligation('%s resets the evaluation counter before it evaluates' % short(f.key))
        for b, i, e in v:
            if any(x == b and j > i for x, j in z) or any(x in succs(f, b) for x, j in z):
                cx.violation('reset|%s' % f.name, f.loc(e), 'candidates are evaluated before the evaluation counter is reset for the run', func=f.key)
    cx.expect_selftest('verif_selftest::uncounted')
    cx.coverage['evaluating_functions'] = sorted({label(f) for f in roots})
    cache_use(cx, R, cachedf)
    entries_kept(cx, R)
    cache_class(cx, R)


def succs(f, b):
    seen = set(); st = [x for x in f.blocks[b]['s'] if x >= 0]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += [y for y in f.blocks[x]['s'] if y >= 0]
    return seen


def clobbered(s, sol):
    """the candidate was changed by something opaque (an operator) before its evaluation"""
    return any(k == sol and v[0] != 'i' for k, v in s.m.items())


def fitness(A, s, sol):
    return A.snapshot(s, (sol[0], sol[1] + ('fitness',)))


def mention_cache(t):
    if isinstance(t, (tuple, frozenset)): return t[:1] == ('CACHE',) if isinstance(t, tuple) and t[:1] == ('CACHE',) else any(mention_cache(x) for x in t)
    return False


def reaching_down(P, fs):
    seen = set(); st = [f.key for f in fs]
    while st:
        k = st.pop()
        if k in seen or k not in P.funcs: continue
        seen.add(k); f = P.funcs[k]
        for n in f.E:
            if n and n['k'] in ('call', 'ctor'):
                for g in P.callees(f, n): st.append(g.key)
            if n and n['k'] == 'lambda': st.extend(n['ops'])
    return seen


def short(k):
    import re
    return re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', k)).split('(')[0]


def label(f):
    return short(f.key) if not f.get('lambda') else 'task in %s' % short(f.parent or f.key)


# ---------------------------------------------------------------------------------------------- what the solver stores
LOOK = ('get', 'find', 'contains', 'at', 'size', 'empty', 'capacity', 'full', 'clear', 'reset', 'swap')


class Flat(AbsInt):
    def hook_descend(self, fr, S, e, n, g): return False


def mentioned(P, f, e, depth=0):
    """names of the fields of the solver a value is computed from (through local variables and getters)"""
    out = set()
    for y in f.subtree(e):
        n = f.E[y]
        if not n: continue
        if n['k'] == 'field' and f.E[n['b']]['k'] == 'this': out.add(n['name'])
        if n['k'] == 'call' and n.get('fn') in P.funcs and not n.get('args') and depth < 3:
            g = P.funcs[n['fn']]
            for m in g.E:
                if m and m['k'] == 'field' and g.E[m['b']]['k'] == 'this': out.add(m['name'])
        if n['k'] == 'var' and depth < 4:
            i = f.decl_init().get(n['v'])
            for x in i or ():
                if x is not None: out |= mentioned(P, f, x, depth + 1)
    return out


def cache_use(cx, R, cachedf):
    P = cx.P
    found = 0
    for f in P.funcs.values():
        if not f.cls or f.cls not in R.ga or not f.blocks: continue
        for e, n in enumerate(f.E):
            if not n or n['k'] != 'call' or 'obj' not in n: continue
            o = f.E[n['obj']]
            if o['k'] != 'field' or o['name'] != R.cache: continue
            nm = n.get('qn', '').rsplit('::', 1)[-1]; args = [a for a in n['args'] if f.E[a]['k'] != 'defarg']
            if nm == 'reset' and args:
                found += 1
                m = mentioned(P, f, args[0])
                cx.obligation('capacity of the cache in %s' % f.name)
                for w, x in ((cachedf, 'the number of cached generations'), (R.popsize, 'the population size')):
                    if w not in m: cx.violation('capacity|%s|%s' % (f.name, w), f.loc(e), 'the capacity of the fitness cache does not depend on %s' % x, func=f.key)
            if nm in LOOK: continue
            found += 1
            cx.obligation('what %s stores in the cache' % f.name)
            if len(args) == 3:
                x = args[2]
                while f.E[x]['k'] in ('cast', 'wrap', 'un') : x = f.E[x].get('e', f.E[x].get('a'))
                m = f.E[x]
                if m['k'] in ('declref', 'field'):
                    if m['name'] != 'fitness': cx.violation('stored|%s' % f.name, f.loc(e), 'the cache stores %s instead of the fitness' % m['name'], func=f.key)
                elif m['k'] == 'lambda':
                    for o2 in m['ops']:
                        g = P.funcs.get(o2)
                        if not g or not g.blocks: continue
                        A = Flat(cx)
                        for k, s, v in A.call_fn(g, Store(), args=[('ref', (('sol',), ()))] * len(g.params)):
                            if k == 'n' and v is not None and v not in (('i', (('sol',), ('fitness',))), ('at', (('sol',), ('fitness',)))) and v[0] in ('i', 'at', 'k', 'empty'):
                                cx.violation('stored|%s' % f.name, f.loc(e), 'the cache stores something else than the fitness of the stored solution', func=f.key)
            elif len(args) == 2:
                A = AbsInt(cx)
                a, b = (cx.paths.path(f, x) for x in args)
                want = {(r, s + ('fitness',)) for r, s in a}
                if b and want and not (set(b) & want): cx.violation('stored|%s' % f.name, f.loc(e), 'the cache stores the fitness of another solution', func=f.key)
    cx.anchor(found, 'uses of the fitness cache')


PLAIN = ('std::move', 'std::forward', 'std::addressof', 'std::as_const', 'std::launder', 'std::to_address')


def entries_kept(cx, R):
    '''What is stored in the cache is only changed by the cache: whoever looks a value up reads it.'''
    P = cx.P
    for f in P.funcs.values():
        if not f.blocks or not mine(P, f): continue
        if not (f.cls in R.ga or f.cls == R.info or 'verif_selftest' in f.key): continue
        def inside(x, deref=False):
            if x is None or not isinstance(x, int) or x < 0: return False
            return any(r in (('this',), ('othis',)) and sl[:1] == (R.cache,) and len(sl) > 1 for r, sl in (cx.paths.pointee(f, x) if deref else cx.paths.path(f, x)))
        for e, n in enumerate(f.E):
            if not n: continue
            hit = None
            if n['k'] == 'assign': hit = inside(n['a'])
            elif n['k'] == 'un' and n['op'] in ('++', '--'): hit = inside(n['a'])
            elif n['k'] in ('call', 'ctor'):
                if n.get('qn') in PLAIN: continue
                if n['k'] == 'call' and isinstance(n.get('obj'), int) and not n.get('cm') and not n.get('static'):
                    o = n['obj']
                    if n.get('op') not in ('*', '->', '==', '!=', '<', '>') and n.get('qn', '').rsplit('::', 1)[-1] not in READERS: hit = inside(o, bool(n.get('arrow')))
                for i, x in enumerate(n.get('args', [])):
                    t = P.T(n['pt'][i]) if i < len(n.get('pt', [])) else {}
                    if n['k'] == 'ctor' and n.get('move') and i == 0: t = dict(t, ref=2)
                    if t.get('ref') and not t.get('const') and inside(x): hit = True
            if hit is None: continue
            cx.obligation('entries of the cache are only read by %s' % f.name, not hit)
            if hit: cx.violation('entry-changed|%s' % label(f), f.loc(e), '%s changes or moves away a value that is stored in the fitness cache' % f.name, func=f.key)


READERS = ('begin', 'end', 'cbegin', 'cend', 'data', 'size', 'front', 'back', 'operator[]', 'at', 'get', 'empty')


# ---------------------------------------------------------------------------------------------- the cache class
INS = ('insert_or_assign', 'try_emplace', 'insert', 'emplace', 'emplace_hint')


class CacheInt(AbsInt):
    """`mapf` holds the entries, `ordf` their order of insertion"""
    max_depth = 8

    def __init__(self, cx, mapf, ordf):
        super().__init__(cx); self.mapf = mapf; self.ordf = ordf; self.bad = {}

    def err(self, fr, e, kind, msg): self.bad[(kind, fr.f.key)] = (fr.f, e, msg)

    def g(self, S, k, d=None): return S.m.get((ST, k), d)

    def put(self, S, **kw):
        S = S.copy()
        for k, v in kw.items():
            if v is None: S.m.pop((ST, k), None)
            else: S.m[(ST, k)] = v
        return S

    def sticky(self, t): return t[:1] == ('w',) and isinstance(t[1], tuple) and t[1][:1] in (('found',), ('full',), ('cap',))

    def which(self, fr, S, n):
        if 'obj' not in n: return None
        l = self.deref(S, self.value(fr, S, n['obj'])) if n.get('arrow') else self.lval(fr, S, n['obj'])
        if l == (('this',), (self.mapf,)): return 'map'
        if l == (('this',), (self.ordf,)): return 'ord'
        return None

    def hook_call(self, fr, S, e, n):
        if n['k'] != 'call': return None
        w = self.which(fr, S, n)
        if not w: return None
        nm = n.get('qn', '').rsplit('::', 1)[-1]; args = n.get('args', []); site = (fr.fid, e)
        vals = [self.value(fr, S, a) for a in args]
        if w == 'map':
            if nm in INS and args:
                if self.g(S, 'pend'): self.err(fr, e, 'pending', 'an entry is stored while the previous one has not been recorded in the insertion order')
                tok = ('w', ('stored', site))
                yes = self.put(S, pend=tok, evicted=self.g(S, 'evicted'))
                res = lambda b: ('rec', ('empty',), frozenset({(('#0',), tok), (('first',), tok), (('#1',), const(b)), (('second',), const(b))}))
                self.forget(yes, tok); 
                return [('n', yes, res(True)), ('n', S.copy(), res(False))]
            if nm == 'operator[]': return None
            if nm == 'erase' and args:
                v = vals[0]
                fronts = [('w', ('front', self.g(S, 'ver', 0)))]
                if v in fronts or v == ('fld', fronts[0], ('*',)) or mentions_front(v, fronts[0]):
                    return [('n', self.put(S, evicted=True), ('w', site))]
                self.err(fr, e, 'erase', 'an entry other than the oldest one is removed from the cache'); return [('n', S, ('w', site))]
            if nm in ('find', 'contains', 'count'):
                if nm == 'find':
                    k = self.lval_or_temp(fr, S, args[0])
                    return [('n', self.put(S, found='y'), ('at', (('ENTRY', k), ()))), ('n', self.put(S, found='n'), ('k', 'end'))]
                return None
            if nm in ('end', 'cend'): return [('n', S, ('k', 'end'))]
            if nm == 'clear': return [('n', self.put(S, mclear=True), None)]
            if nm in ('reserve', 'rehash'): return [('n', self.put(S, mres=vals[0]), None)]
            if nm == 'swap' or nm == 'operator=': return [('n', self.put(S, mswap=True), None)]
            return None
        if nm in ('full',): 
            t = self.g(S, 'full')
            if t is not None: return [('n', S, const(t))]
            return [('n', self.put(S, full=True), const(True)), ('n', self.put(S, full=False), const(False))]
        if nm == 'front' : return [('n', S, ('w', ('front', self.g(S, 'ver', 0))))]
        if nm in ('push_back', 'emplace_back'):
            p = self.g(S, 'pend'); full = self.g(S, 'full')
            if not fr.f.get('ctor'):
                if p is None: self.err(fr, e, 'order', 'an entry that was not newly stored is recorded in the insertion order')
                elif vals and vals[0] != p: self.err(fr, e, 'order', 'the position recorded in the insertion order is not the one of the stored entry')
                if full is not False and not self.g(S, 'evicted'): self.err(fr, e, 'evict', 'an entry can fall out of the insertion order without being removed from the cache')
                if full is False and self.g(S, 'evicted'): self.err(fr, e, 'dangling', 'an entry can be removed from the cache while its position stays in the insertion order')
            return [('n', self.put(S, pend=None, evicted=None, full=None, ver=min(self.g(S, 'ver', 0) + 1, 2)), None)]
        if nm == 'pop_front':
            return [('n', self.put(S, evicted=None, full=False, popped=True, ver=min(self.g(S, 'ver', 0) + 1, 2)), None)]
        if nm in ('push_front', 'pop_back', 'erase', 'insert'):
            self.err(fr, e, 'order', 'the insertion order is changed at the wrong end'); return None
        if nm == 'clear': return [('n', self.put(S, oclear=True), None)]
        if nm in ('reset', 'set_capacity'): return [('n', self.put(S, ores=vals[0], oclear=True if nm == 'reset' else self.g(S, 'oclear')), None)]
        if nm == 'swap' or nm == 'operator=': return [('n', self.put(S, oswap=True), None)]
        return None

    def forget(self, S, tok):
        for k in [k for k in S.m if k[0] == '?' and mentions_tok(k[1], tok)]: del S.m[k]


def mentions_tok(t, v): return t == v or isinstance(t, (tuple, frozenset)) and any(mentions_tok(x, v) for x in t)


def mentions_front(v, t): return v[0] == 'i' and mentions_tok(v, t) or v[0] == 'at' and mentions_tok(v, t) or v[0] == 'fld' and v[1] == t or v[0] == 'ap' and len(v) > 2 and v[2] == t


def cache_class(cx, R):
    P = cx.P
    classes = set()
    for g in R.ga:
        for c, fd in P.fields(g, True):
            if fd['name'] == R.cache: classes.add(P.T(fd['t']).get('rec'))
    classes = sorted(c for c in classes if c in P.records)
    cx.anchor(classes, 'cache class')
    tmpl = classes[0].split('<')[0]
    classes = sorted(r for r in P.records if r.split('<')[0] == tmpl and '<' in r)
    for c in classes:
        ft = {fd['name']: P.T(fd['t']) for cc, fd in P.fields(c, True)}
        mapf = [k for k, t in ft.items() if 'unordered_map<' in t.get('s', '') and 'circular' not in t.get('s', '').split('<')[0] or t.get('rec', '').startswith(('std::unordered_map', 'std::map'))]
        ordf = [k for k, t in ft.items() if k not in mapf and t.get('rec')]
        if len(mapf) != 1 or len(ordf) != 1: cx.undecided.append('cache class %s has another structure' % c); continue
        mapf, ordf = mapf[0], ordf[0]
        for f in sorted(P.by_cls.get(c, []), key=lambda f: f.key):
            if not f.blocks or f.get('defaulted') or f.get('static') or f.get('dtor'): continue
            nm = f.name
            A = CacheInt(cx, mapf, ordf)
            S = Store()
            try: outs = [(s, v) for k, s, v in A.call_fn(f, S, this=(('this',), ()), args=[None] * len(f.params)) if k == 'n']
            except TooBig: cx.undecided.append('%s::%s' % (short(c), nm)); continue
            if f.get('ctor') and len(f.params) != 1: continue
            cx.obligation('%s::%s keeps entries and insertion order in step' % (short(c), nm))
            def v(kind, msg, e=None): cx.violation('cache|%s|%s' % (nm, kind), f.loc(e), msg, func=f.key)
            for (kind, k), (g, e, msg) in A.bad.items(): cx.violation('cache|%s|%s' % (g.name, kind), g.loc(e), msg, func=g.key)
            for s, val in outs:
                G = lambda k: s.m.get((ST, k))
                if G('pend') and not f.get('ctor'): v('pending', 'a stored entry is not recorded in the insertion order: it is never removed again')
                if G('evicted') and not f.get('ctor'): v('dangling', 'an entry is removed from the cache while its position stays in the insertion order')
                if G('mclear') != G('oclear') and not (G('ores') is not None and G('mclear')): v('clear', 'only one of the entries and the insertion order is emptied')
                if G('mswap') != G('oswap'): v('swap', 'only one of the entries and the insertion order is exchanged')
                if G('ores') is not None:
                    m = G('mres')
                    if m is None or not at_least_one_more(m, G('ores')): v('reserve', 'the table can be rehashed while positions are recorded in the insertion order (room for one entry more than the capacity is needed)')
                    if not G('mclear'): v('clear', 'the capacity changes but the entries stay')
                if val is not None and mention_entry(val):
                    bad = [k for k in entry_keys(val) if not key_is_param(k)]
                    if bad: v('lookup', 'the entry of another key is returned')
                if f.params and val is not None and val == ('at', (('k', 'end'), ())): v('lookup', 'the end position is returned as an entry')
                if val is not None and val[0] in ('at', 'i', 'fld') and (G('found') == 'n' or mentions_tok(val, ('k', 'end'))): v('lookup', 'a value is returned although the key is not in the cache')


def mention_entry(t): return isinstance(t, (tuple, frozenset)) and (isinstance(t, tuple) and t[:1] == ('ENTRY',) or any(mention_entry(x) for x in t))


def entry_keys(t):
    if isinstance(t, tuple) and t[:1] == ('ENTRY',): return [t[1]]
    if isinstance(t, (tuple, frozenset)): return [k for x in t for k in entry_keys(x)]
    return []


def key_is_param(k): return k[0][0] in ('P', 'O')


def at_least_one_more(m, o):
    if m[0] == 'ap' and m[1] == '+':
        a, b = m[2], m[3]
        for x, y in ((a, b), (b, a)):
            if x == o and y[0] == 'k' and isinstance(y[1], (int, float)) and y[1] >= 1: return True
    if m[0] == 'ap' and m[1] == '*' and o in m[2:]: return True
    return False
