"""Random numbers. Every use of a random engine in the library (arguments of distributions and algorithms, direct draws, constructions) is
enumerated: all must go through the one library generator, whose draws come from per-thread engines that are derived from one constant-seeded
root by advancing it. Reseeding is checked to reset, for every registered thread and on every path, each piece of state that draws leave behind;
every object that carries state from one draw to the next must be among them."""
import re
from killflow import KillFlow, norm
from effects import MOVEISH

RULE = 'one generator for every draw; per-thread state derived from a constant-seeded root that advances for each thread; reseeding resets all state that survives a draw'
FORBIDDEN = re.compile(r'^(std::)?(rand|srand|random|srandom|drand48|lrand48|mrand48|erand48|nrand48|rand_r|getrandom|getentropy|arc4random\w*|time|clock|gettimeofday|clock_gettime|getpid|rdtsc|__rdtsc|_rdrand\w*)$')
ENGINES = ('std::mersenne_twister_engine<', 'std::linear_congruential_engine<', 'std::subtract_with_carry_engine<', 'std::discard_block_engine<', 'std::independent_bits_engine<',
           'std::shuffle_order_engine<', 'std::philox_engine<', 'std::random_device', 'std::seed_seq')
STATELESS = ('std::uniform_int_distribution<', 'std::uniform_real_distribution<', 'std::bernoulli_distribution', 'std::geometric_distribution<', 'std::exponential_distribution<', 'std::weibull_distribution<',
             'std::extreme_value_distribution<', 'std::cauchy_distribution<', 'std::discrete_distribution<', 'std::piecewise_constant_distribution<', 'std::piecewise_linear_distribution<')
clean = KillFlow.clean


class Rng:
    def __init__(self, cx):
        self.cx = cx; P = self.P = cx.P; self.PT = cx.paths
        self.engines = {r for r in P.records if self.urbg(r)}

    def methods(self, r): return self.P.records[r].get('methods', [])

    def urbg(self, r):
        ms = self.methods(r)
        call = [m for m in ms if m['name'] == 'operator()' and not m.get('pt')]
        st = {m['name'] for m in ms if m['name'] in ('min', 'max') and not m.get('pt')}
        return bool(call) and st == {'min', 'max'} and self.P.T(call[0]['ret']).get('s', '').replace('unsigned ', '').split(' ')[0] in ('long', 'int', 'short', 'char')

    def is_engine(self, ts):
        ts = clean(ts)
        return ts in self.engines or ts.startswith(ENGINES)

    def inside(self, f):
        """the function belongs to an engine class (or to a class nested in one)"""
        c = f.cls or ''
        if any(c == e or c.startswith(e + '::') for e in self.engines): return True
        if f.parent and f.get('lambda') and f.parent in self.P.funcs: return self.inside(self.P.funcs[f.parent])
        return False

    # ---- distributions that keep state between draws
    def stateful(self, ts, depth=0):
        ts = clean(ts)
        if ts.startswith('std::') and re.match(r'std::\w+_distribution(<|$)', ts): return not ts.startswith(STATELESS)
        if ts in self.P.records and not self.is_engine(ts):
            for f in self.P.by_cls.get(ts, []):
                if f.name == 'operator()' and f.params and any(self.is_engine(f.vtype(v).get('s', '')) for v in f.params):
                    if any(a.kind == 'w' and a.path[0] == ('this',) for a in self.cx.effects.summary(f)): return True
        return False


def lib(P, f): return P.is_repo(f) or 'verif_selftest' in f.qn


def check(cx):
    P = cx.P; R = Rng(cx); PT = cx.paths
    uses = []      # (f, e, type, root expr)
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if not f.blocks or not lib(P, f): continue
        inside = R.inside(f)
        for b, i, e in f.elems():
            if not isinstance(e, int): continue
            n = f.E[e]
            if n['k'] in ('call', 'fnref', 'ctor'):
                qn = n.get('qn') or n.get('rec', '')
                nm = qn if qn.startswith('std::') else qn.lstrip(':')
                if FORBIDDEN.match(nm) or 'random_device' in qn or re.match(r'std::chrono::.*::now$', nm):
                    cx.violation('%s|%s' % (f.key, nm), f.loc(e), "'%s' is a source of numbers that does not depend on the seed of the library" % nm, func=f.qn)
            if n['k'] == 'ctor' and R.is_engine(f.type(e).get('s', '')) and not n.get('copy') and not n.get('move') and not inside:
                cx.violation('%s|constructs' % f.key, f.loc(e), "a separate random engine (%s) is created here" % clean(f.type(e).get('s', ''))[:60], func=f.qn)
            if n['k'] == 'ctor' and R.is_engine(f.type(e).get('s', '')) and (n.get('copy') or n.get('move')) and not inside and n.get('args') and clean(f.type(n['args'][0]).get('s', '')) in R.engines:
                if not f.type(e).get('s', '').startswith('const gapp::rng::Concurrent'): uses.append((f, e, clean(f.type(e).get('s', '')), n['args'][0], 'copy'))
            if n['k'] == 'call':
                for a in n.get('args', []):
                    if a is None or a < 0 or n.get('qn') in MOVEISH or n.get('qn', '').endswith(('operator=', 'operator==')): continue
                    if R.is_engine(f.type(a).get('s', '')) and not inside: uses.append((f, e, clean(f.type(a).get('s', '')), a, 'arg'))
                if 'obj' in n and R.is_engine(f.type(n['obj']).get('s', '')) and n.get('qn', '').endswith('operator()') and not inside: uses.append((f, e, clean(f.type(n['obj']).get('s', '')), n['obj'], 'draw'))
        if not inside:
            for vid, v in enumerate(f.V):
                if v and v['st'] in ('local', 'static', 'tls') and clean(f.vtype(vid).get('s', '')).startswith(ENGINES):
                    cx.violation('%s|engine %s' % (f.key, v['name']), f.loc(), "the variable '%s' is a random engine of its own" % v['name'], func=f.qn)
    # which engine is the library's generator
    cnt = {}
    for f, e, t, a, how in uses: cnt[t] = cnt.get(t, 0) + 1
    cx.anchor(cnt, 'draws from a random engine')
    front = max(cnt, key=lambda t: cnt[t])
    cx.anchor(front in R.engines, 'library generator')
    for f, e, t, a, how in uses:
        ok = t == front
        cx.obligation('%s draws from the library generator (%s)' % (f.qn[:80], f.sfile), ok)
        if not ok: cx.violation('%s|other engine' % f.key, f.loc(e), "random numbers are drawn from %s instead of the library's generator" % t[:60], func=f.qn)
    # engines and stateful distributions stored anywhere
    draws = [f for f in P.by_cls.get(front, []) if f.name == 'operator()' and f.blocks]
    cx.anchor(draws, 'draw function of the generator')
    tls = {}
    for f in draws:
        gs = set()
        for a in cx.effects.summary(f):
            if a.kind == 'w' and a.path[0][0] == 'g': gs.add(a.path[0][1])
        for g in gs:
            G = P.globals[g]
            cx.obligation('a draw advances thread-local state (%s)' % G['qname'], G['tls'])
            if not G['tls']: cx.violation('%s|shared state' % f.key, f.loc(), "a draw advances '%s', which is shared by all threads: the numbers a thread gets depend on the others" % G['qname'], func=f.qn)
            else: tls[g] = G
    if not any('shared state' in v['key'] for v in cx.violations): cx.anchor(len(tls) == 1, 'thread-local engine of the generator')
    storage(cx, R, front, tls)
    if tls: seeding(cx, R, front, next(iter(tls)))
    surviving_statics(cx, R, front)
    for t in ('own_engine', 'wall_clock', 'kept_distribution', 'kept_spare'): cx.expect_selftest(t)
    cx.coverage.update(engine_uses=len(uses), generator=front)


def storage(cx, R, front, tls):
    """every static, global or member object that keeps state between draws"""
    P = cx.P
    holders = {clean(P.T(P.globals[g]['t']).get('s', '')) for g in tls}
    for G in P.globals:
        t = P.T(G['t']); ts = clean(t.get('s', ''))
        if not (G.get('repo') or 'verif_selftest' in G['qname']): continue
        if R.stateful(ts) or (R.is_engine(ts) and ts != front):
            root = ts in R.engines and any(G['qname'].startswith(e + '::') for e in R.engines)
            if root: continue
            where = P.files[G['file']].split('/src/', 1)[-1].rsplit('/', 1)[-1] + ':%d' % G['l']
            cx.violation('%s|kept' % G['qname'], where if 'verif_selftest' not in G['qname'] else 'inst.inc:1', "'%s' keeps random state that reseeding does not reach" % G['qname'], func=G['qname'])
    for f in P.funcs.values():
        if not lib(P, f): continue
        for vid, v in enumerate(f.V):
            if v and v['st'] in ('static', 'tls') and R.stateful(f.vtype(vid).get('s', '')) :
                cx.violation('%s|kept %s' % (f.key, v['name']), f.loc(), "the static variable '%s' keeps random state that reseeding does not reach" % v['name'], func=f.qn)
    n = 0
    for c, r in sorted(P.records.items()):
        if not c.startswith('gapp::') and 'verif_selftest' not in c: continue
        for cc, fd in P.fields(c, False):
            ts = clean(P.T(fd['t']).get('s', ''))
            if not R.stateful(ts) and not (R.is_engine(ts) and ts != front): continue
            n += 1
            ok = c in holders or c in R.engines
            cx.obligation('random state is stored in the thread-local generator only: %s::%s' % (c, fd['name']), ok)
            if not ok: cx.violation('%s|%s' % (c, fd['name']), '%s:%d' % (P.files[r['file']].split('/src/', 1)[-1], fd.get('l', r['l'])), "the member '%s' of %s keeps random state that reseeding does not reach" % (fd['name'], c), func=c)
    cx.anchor(n >= 1 or not tls, 'members with random state')


def seeding(cx, R, front, tls):
    P = cx.P; PT = cx.paths
    holder = clean(P.T(P.globals[tls]['t']).get('s', ''))
    fields = [(fd['name'], clean(P.T(fd['t']).get('s', ''))) for c, fd in P.fields(holder, True)] if holder in P.records else []
    engine_fields = [nm for nm, ts in fields if ts in R.engines]
    state_fields = [nm for nm, ts in fields if R.stateful(ts)]
    cx.anchor(engine_fields, 'engine stored per thread')
    roots = [i for i, G in enumerate(P.globals) if not G['tls'] and clean(P.T(G['t']).get('s', '')) in R.engines and clean(P.T(G['t']).get('s', '')) != front and G.get('repo') and not G['const']]
    cx.anchor(len(roots) == 1, 'root engine')
    root = roots[0]; G = P.globals[root]
    cx.obligation('the root engine has a constant initial state', bool(G.get('cinit')))
    if not G.get('cinit'): cx.violation('%s|initial state' % G['qname'], '%s:%d' % (P.files[G['file']].split('/src/', 1)[-1], G['l']), 'the initial state of the root engine is not a compile-time constant', func=G['qname'])
    # the list of registered generators
    lists = [i for i, X in enumerate(P.globals) if X.get('repo') and i not in (root, tls) and holder in P.T(X['t']).get('s', '') or (X.get('repo') and reaches(P, P.T(X['t']).get('s', ''), holder))]
    cx.anchor(lists, 'registry of the per-thread generators')
    KF = KillFlow(P, PT, cx.effects)
    seeds = [f for f in P.by_cls.get(front, []) if f.blocks and f.params and any(a.kind == 'w' and a.path[0] == ('g', root) for a in cx.effects.summary(f)) and not f.get('ctor')]
    cx.anchor(seeds, 'seeding function')
    ctors = [f for f in P.by_cls.get(holder, []) if f.get('ctor') and f.blocks and not f.get('copy') and not f.get('move')]
    dtors = [f for f in P.by_cls.get(holder, []) if f.get('dtor') and f.blocks]
    cx.anchor(ctors, 'constructor of the per-thread generator')
    for f in seeds:
        K, X = KF.summary(f)
        # 1. the root takes the seed before anything is derived from it
        seedcalls, derive = root_ops(cx, R, f, root)
        ok = bool(seedcalls) and before_all(f, seedcalls, derive)
        cx.obligation('%s seeds the root from its argument before deriving streams from it' % f.qn, ok)
        if not ok: cx.violation('%s|root' % f.key, f.loc(), 'on some path the root engine is not seeded from the argument before the streams of the threads are derived from it', func=f.qn)
        # 2. every piece of state of every thread
        body, hdr = loop_over(cx, f, lists)
        if body is None:
            body = lambda_over(cx, f, lists)
        if body is None:
            cx.violation('%s|all threads' % f.key, f.loc(), 'reseeding does not visit the generators of all threads', func=f.qn); continue
        g, blocks, exits_ok = body
        cx.obligation('%s visits every registered generator' % f.qn, exits_ok)
        if not exits_ok: cx.violation('%s|all threads' % f.key, f.loc(), 'the loop over the generators of all threads can be left early', func=f.qn)
        for nm in engine_fields + state_fields:
            ok, where = reset_on_all_paths(cx, R, KF, g, blocks, holder, nm)
            cx.obligation('%s resets %s of every thread' % (f.qn, nm), ok)
            if not ok: cx.violation('%s|%s' % (f.key, nm), g.loc(), "reseeding leaves '%s' of the per-thread generators as it was on some path" % nm, func=f.qn)
        for nm in engine_fields:
            for vf, ve in values_assigned(cx, g, blocks, holder, nm):
                why = derived(cx, R, vf, ve, root, blocks)
                cx.obligation('%s gives every thread its own stream' % f.qn, why is None)
                if why: cx.violation('%s|%s stream' % (f.key, nm), vf.loc(ve), why, func=f.qn)
    for f in ctors:
        for nm in engine_fields:
            ok, where = reset_on_all_paths(cx, R, KF, f, None, holder, nm, this=True)
            vals = list(values_assigned(cx, f, None, holder, nm, this=True))
            cx.obligation('a new thread derives its stream from the root', ok and bool(vals))
            if not ok or not vals: cx.violation('%s|%s' % (f.key, nm), f.loc(), 'the generator of a new thread is not derived from the root engine on some path', func=f.qn)
            last = [x for x in vals if not any(before(f, x[1], y[1]) for y in vals if y is not x)]
            for vf, ve in last:
                why = derived(cx, R, vf, ve, root, None)
                if why: cx.violation('%s|%s stream' % (f.key, nm), vf.loc(ve), why, func=f.qn)
        ok = must(cx, f, lambda n, e: registers(cx, f, n, lists))
        cx.obligation('a new thread registers its generator', ok)
        if not ok: cx.violation('%s|register' % f.key, f.loc(), 'a new per-thread generator is not entered into the registry on every path, so reseeding does not reach it', func=f.qn)
    cx.obligation('generators are removed from the registry with their thread', bool(dtors))
    if not dtors: cx.violation('%s|unregister' % holder, '%s' % ctors[0].loc(), 'the per-thread generator has no destructor that removes it from the registry', func=holder)
    for f in dtors:
        ok = must(cx, f, lambda n, e: registers(cx, f, n, lists, True))
        cx.obligation('generators are removed from the registry with their thread', ok)
        if not ok: cx.violation('%s|unregister' % f.key, f.loc(), 'a per-thread generator is destroyed without being removed from the registry on some path', func=f.qn)
    # own stateful distributions: reset restores every member
    for nm, ts in fields:
        if nm in state_fields and ts in P.records and not ts.startswith('std::'):
            rs = [f for f in P.by_cls.get(ts, []) if f.name == 'reset' and f.blocks]
            for f in rs:
                K, X = KF.summary(f)
                for c, fd in P.fields(ts, True):
                    ok = KF.covered(K, (('this',), (fd['name'],))) and const_value(f, fd['name'])
                    cx.obligation('%s restores %s' % (f.qn, fd['name']), ok)
                    if not ok: cx.violation('%s|%s' % (f.key, fd['name']), f.loc(), "resetting the distribution does not restore '%s' to a fixed value" % fd['name'], func=f.qn)


def const_value(f, name):
    for n in f.E:
        if n and n['k'] == 'assign' and f.E[n['a']]['k'] == 'field' and f.E[n['a']]['name'] == name:
            if any(f.E[x] and f.E[x]['k'] in ('field', 'call') for x in f.subtree(n['b'])): return False
    return True


def reaches(P, ts, holder, depth=0):
    ts = clean(ts)
    if depth > 4: return False
    if holder in ts: return True
    if ts in P.records:
        for c, fd in P.fields(ts, True):
            if reaches(P, P.T(fd['t']).get('s', ''), holder, depth + 1): return True
    a = KillFlow.first_targ(ts)
    return bool(a) and reaches(P, a, holder, depth + 1)


def before(f, a, b):
    """a comes before b in every run (same block order or dominance)"""
    pos = {}
    for bl in f.order():
        for i, e in enumerate(f.blocks[bl]['e']):
            if isinstance(e, int) and e not in pos: pos[e] = (bl, i)
    if a not in pos or b not in pos: return False
    if pos[a][0] == pos[b][0]: return pos[a][1] < pos[b][1]
    return pos[a][0] in dominators(f)[pos[b][0]]


def dominators(f):
    if hasattr(f, 'P') and f.key in _dom: return _dom[f.key]
    order = f.order(); preds = f.preds()
    allb = set(order); dom = {b: set(allb) for b in order}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == f.entry: continue
            ps = [p for p in preds[b] if p in allb]
            new = set.intersection(*[dom[p] for p in ps]) | {b} if ps else {b}
            if new != dom[b]: dom[b] = new; ch = True
    _dom[f.key] = dom
    return dom


_dom = {}


def root_ops(cx, R, f, root):
    """(calls that set the root's state from a parameter, calls that advance or read it)"""
    P = cx.P; PT = cx.paths
    params = {('p', i) for i in range(len(f.params))}
    seedcalls, derive = [], []
    for b, i, e in f.elems():
        if not isinstance(e, int): continue
        n = f.E[e]
        if n['k'] == 'lambda':
            for o in n['ops']:
                g = P.funcs.get(o)
                if g and any(a.path[0] == ('g', root) for a in cx.effects.summary(g)): derive.append(e)
        if n['k'] != 'call': continue
        if 'obj' in n and any(r == ('g', root) for r, s in PT._objpath(f, n)):
            reads = any(p[0] in params for a in n.get('args', []) if a is not None and a >= 0 for p in from_paths(f, PT, a))
            (seedcalls if reads and not n.get('cm') else derive).append(e)
        else:
            for g in P.callees(f, n):
                if any(a.kind == 'w' and a.path[0] == ('g', root) for a in cx.effects.summary(g)):
                    reads = any(p[0] in params for a in n.get('args', []) if a is not None and a >= 0 for p in from_paths(f, PT, a))
                    (seedcalls if reads else derive).append(e)
                    break
    return seedcalls, derive


def from_paths(f, PT, e):
    out = set()
    for x in f.subtree(e):
        if f.E[x] and f.E[x]['k'] == 'var':
            out |= PT.path(f, x)
            i = f.decl_init().get(f.E[x]['v'])
            if i and i[0] is not None and f.V[f.E[x]['v']]['st'] == 'local' and i[0] != e: 
                for y in f.subtree(i[0]):
                    if f.E[y] and f.E[y]['k'] == 'var': out |= PT.path(f, y)
    return out


def before_all(f, firsts, rest):
    if not must_elems(f, set(firsts)): return False
    return all(any(before(f, a, b) for a in firsts) for b in rest)


def must_elems(f, elems, start=None, stop=None):
    """every path from the entry to the exit passes one of the elements"""
    start = f.entry if start is None else start
    seen = set(); st = [start]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if any(e in elems for e in f.blocks[b]['e'] if isinstance(e, int)): continue
        if b == f.exit: return False
        if f.blocks[b].get('nr'): continue
        st += [s for s in f.blocks[b]['s'] if s >= 0]
    return True


def must(cx, f, pred):
    return must_elems(f, {e for b, i, e in f.elems() if isinstance(e, int) and pred(f.E[e], e)})


def registers(cx, f, n, lists, remove=False):
    if n['k'] != 'call': return False
    nm = n.get('qn', '').rsplit('::', 1)[-1]
    names = ('erase', 'erase_if', 'remove', 'erase_first_stable', 'extract') if remove else ('push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'emplace_front', 'try_emplace')
    if nm in names or any(nm.startswith(x) for x in names if remove):
        ps = set()
        if 'obj' in n: ps |= cx.paths._objpath(f, n)
        for a in n.get('args', []):
            if a is not None and a >= 0: ps |= cx.paths.path(f, a) | cx.paths.pointee(f, a)
        return any(p[0][0] == 'g' and p[0][1] in lists for p in ps)
    for g in cx.P.callees(f, n):
        if g.blocks and not g.cls.startswith(('std::', 'gapp::small_vector')) if g.cls else g.blocks:
            if any(m and registers(cx, g, m, lists, remove) for m in g.E if m): return True
    return False


def loop_over(cx, f, lists):
    """the loop of f over the registry -> ((f, blocks of the body, left only at the header), header)"""
    PT = cx.paths; preds = f.preds()
    dom = dominators(f)
    for h in f.order():
        backs = [p for p in preds[h] if p in dom and h in dom[p]]
        if not backs: continue
        body = {h}; st = list(backs)
        while st:
            b = st.pop()
            if b in body: continue
            body.add(b); st += preds[b]
        # the loop looks at the registry
        looks = False
        for b in body | {p for p in preds[h]}:
            for e in f.blocks[b]['e']:
                if not isinstance(e, int): continue
                n = f.E[e]
                if n['k'] in ('var', 'field', 'call'):
                    for p in PT.path(f, e) | PT.pointee(f, e):
                        if p[0][0] == 'g' and p[0][1] in lists: looks = True
        if not looks: continue
        leave = [(b, s) for b in body for s in f.blocks[b]['s'] if s >= 0 and s not in body and b != h and not f.blocks[s].get('nr')]
        inner = body - {h}
        return (f, (inner, h), not leave), h
    return None, None


def lambda_over(cx, f, lists):
    """for_each over the registry with a lambda"""
    for b, i, e in f.elems():
        if not isinstance(e, int): continue
        n = f.E[e]
        if n['k'] != 'call' or n.get('qn', '').rsplit('::', 1)[-1] not in ('for_each',) and 'for_each' not in n.get('qn', ''): continue
        if not any(p[0][0] == 'g' and p[0][1] in lists for a in n['args'] if a is not None and a >= 0 for p in cx.paths.pointee(f, a) | cx.paths.path(f, a)): continue
        for a in n['args']:
            for x in f.subtree(a):
                if f.E[x] and f.E[x]['k'] == 'lambda':
                    for o in f.E[x]['ops']:
                        g = cx.P.funcs.get(o)
                        if g: return (g, None, True)
    return None


def field_elems(cx, g, holder, name, blocks, kill_only, this=False, depth=0):
    """elements of g that overwrite the field of the visited generator"""
    P = cx.P; out = []
    for b in g.order():
        if blocks is not None and b not in blocks[0]: continue
        for e in g.blocks[b]['e']:
            if not isinstance(e, int):
                continue
            n = g.E[e]
            if n['k'] == 'assign' and n['op'] == '=' and is_field(g, n['a'], holder, name): out.append((e, n['b']))
            elif n['k'] == 'call':
                nm = n.get('qn', '').rsplit('::', 1)[-1]
                if 'obj' in n and is_field(g, n['obj'], holder, name):
                    if nm == 'operator=' and n['args']: out.append((e, n['args'][0]))
                    elif nm in ('reset', 'seed') and not n.get('cm'): out.append((e, n['args'][0] if n['args'] else None))
                    continue
                # whole object
                if nm == 'operator=' and 'obj' in n and clean(g.type(n['obj']).get('s', '')) == holder: out.append((e, None))
                if depth < 4:
                    for h in P.callees(g, n):
                        if not h.blocks or h.key == g.key: continue
                        if h.cls == holder or any(holder in h.vtype(v).get('s', '') for v in h.params):
                            sub = field_elems(cx, h, holder, name, None, kill_only, this, depth + 1)
                            if sub and must_elems(h, {x for x, _ in sub}):
                                # value: the argument bound to the parameter it is assigned from
                                val = None
                                for x, v in sub:
                                    if v is not None:
                                        for y in h.subtree(v):
                                            if h.E[y] and h.E[y]['k'] == 'var' and h.V[h.E[y]['v']]['st'] == 'param':
                                                ix = h.V[h.E[y]['v']]['idx']
                                                if ix < len(n.get('args', [])): val = n['args'][ix]
                                        if val is None: val = ('f', h, v)
                                out.append((e, val))
    return out


def is_field(g, e, holder, name):
    n = g.E[e]
    while n and n['k'] in ('cast', 'wrap') and n.get('e', -1) >= 0: e = n['e']; n = g.E[e]
    if n and n['k'] == 'un' and n['op'] == '*': return False
    if n and n['k'] == 'field': return n['name'] == name and n.get('cls') == holder
    if n and n['k'] == 'var' and g.vtype(n['v']).get('ref'):
        i = g.decl_init().get(n['v'])
        return bool(i) and i[0] is not None and is_field(g, i[0], holder, name)
    return False


def reset_on_all_paths(cx, R, KF, g, blocks, holder, name, this=False):
    el = field_elems(cx, g, holder, name, blocks, True, this)
    if not el:
        if this:
            # constructor initialiser
            for b in g.order():
                for e in g.blocks[b]['e']:
                    if not isinstance(e, int) and e.get('k') == 'init' and e.get('field') == name and e.get('e') is not None and root_call(cx, g, e['e']): return True, None
        return False, None
    ids = {x for x, _ in el}
    if blocks is None: return must_elems(g, ids), None
    inner, h = blocks
    # every way round the loop body passes one of them
    starts = [s for s in g.blocks[h]['s'] if s in inner]
    seen = set(); st = starts[:]
    if any(e in ids for e in g.blocks[h]['e'] if isinstance(e, int)): return True, None
    while st:
        b = st.pop()
        if b in seen or b not in inner: continue
        seen.add(b)
        if any(e in ids for e in g.blocks[b]['e'] if isinstance(e, int)): continue
        for s in g.blocks[b]['s']:
            if s == h: return False, None
            if s >= 0: st.append(s)
    return True, None


def root_call(cx, g, e):
    return any(g.E[x] and g.E[x]['k'] == 'call' for x in g.subtree(e))


def values_assigned(cx, g, blocks, holder, name, this=False):
    for e, v in field_elems(cx, g, holder, name, blocks, True, this):
        if v is None: yield g, e
        elif isinstance(v, tuple): yield v[1], v[2]
        else: yield g, v
    if this:
        for b in g.order():
            for e in g.blocks[b]['e']:
                if not isinstance(e, int) and e.get('k') == 'init' and e.get('field') == name and e.get('e') is not None and root_call(cx, g, e['e']): yield g, e['e']


def derived(cx, R, g, e, root, blocks):
    """None when the value comes from advancing the root here, else why not"""
    P = cx.P; PT = cx.paths
    st = [e]; seen = set()
    rootseen = False
    while st:
        x = st.pop()
        if x in seen or x is None: continue
        seen.add(x)
        n = g.E[x]
        if n is None: continue
        if n['k'] == 'call':
            for h in P.callees(g, n):
                m = PT.arg_binding(g, n)
                for a in cx.effects.summary(h):
                    if a.kind != 'w': continue
                    for p in PT.subst1(g, n, m, a.path[0], a.path[1]):
                        if p[0] == ('g', root):
                            if blocks is not None and not in_blocks(g, x, blocks): return 'all threads get the same stream: the root engine is not advanced for each of them'
                            return None
        if n['k'] == 'var':
            if any(p[0] == ('g', root) for p in PT.path(g, x)): rootseen = True
            i = g.decl_init().get(n['v'])
            if i and i[0] is not None: st.append(i[0])
            st += PT.assigns(g).get(n['v'], [])
        st += g.children(n)
    # the root is copied and advanced by a separate call in the same round
    if rootseen:
        for b in g.order():
            if blocks is not None and b not in blocks[0]: continue
            for x in g.blocks[b]['e']:
                if isinstance(x, int) and g.E[x]['k'] == 'call' and 'obj' in g.E[x] and any(p[0] == ('g', root) for p in PT._objpath(g, g.E[x])) and not g.E[x].get('cm'): return None
        return 'the root engine is not advanced between threads: they all get the same stream'
    return 'the stream is not derived from the seeded root engine'


def in_blocks(g, x, blocks):
    for b in blocks[0]:
        if x in g.blocks[b]['e']: return True
    return False


def surviving_statics(cx, R, front):
    """function-local statics of functions that draw: their old value must not be read"""
    P = cx.P
    draws = set()
    memo = {}

    def drawing(f, depth=0):
        if f.key in memo: return memo[f.key]
        memo[f.key] = False
        for n in f.E:
            if not n: continue
            if n['k'] == 'call':
                if 'obj' in n and clean(f.type(n['obj']).get('s', '')) == front and n.get('qn', '').endswith('operator()'): memo[f.key] = True; return True
                if any(a is not None and a >= 0 and clean(f.type(a).get('s', '')) == front for a in n.get('args', [])): memo[f.key] = True; return True
                if any(drawing(g, depth + 1) for g in P.callees(f, n)): memo[f.key] = True; return True
        return False
    KF = KillFlow(P, cx.paths, cx.effects)
    for f in P.funcs.values():
        if not f.blocks or not lib(P, f): continue
        for v in f.V:
            if not v or v.get('st') not in ('static', 'tls'): continue
            G = P.globals[v['g']]; t = P.T(G['t'])
            local = any(n and n['k'] == 'decl' and any(f.V[x['v']].get('g') == v['g'] for x in n['vars']) for n in f.E)
            if not local or t.get('const') or G.get('constexpr') or not drawing(f): continue
            k, X = KF.summary(f)
            bad = sorted((p, l) for p, l in X.items() if p[0] == ('g', v['g']))
            wr = any(a.kind in ('w', 'a') and a.path[0] == ('g', v['g']) and a.how != 'init' for a in cx.effects.summary(f))
            ok = not bad or not wr
            cx.obligation('no draw depends on a value kept in a static variable: %s in %s' % (v['name'], f.qn), ok)
            if not ok: cx.violation('%s|static %s' % (f.key, v['name']), bad[0][1], "the static variable '%s' carries a value from earlier draws that reseeding does not reset" % v['name'], func=f.qn)
