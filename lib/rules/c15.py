"""Exceptions of user code reach the caller: no function that must not throw (noexcept, destructors, thread entry points) may run code supplied by the
user, or a throw of the library, outside of a handler; and every handler passes on what it catches."""
from rules.c22 import user_code

RULE = 'no user callback or throw is reachable below a noexcept function without a handler in between; every catch handler rethrows, transports or converts'


def check(cx):
    P = cx.P
    ncalls = 0; nne = 0
    info = {}

    def direct(g):
        """[(element, what)] of the user calls and throws in g itself"""
        out = []
        for b, i, e in g.elems():
            if not isinstance(e, int): continue
            n = g.E[e]
            if n.get('mac') == 'GAPP_ASSERT' and n['k'] == 'call' and n.get('qn') == '__assert_fail': continue
            if n['k'] == 'call':
                if n.get('ne') and not (n.get('virt')): continue
                if n.get('virt') and n.get('ne'): continue
                u = user_code(P, g, n)
                if u: out.append((e, 'user code (%s)' % u))
            elif n['k'] == 'throw' and g.get('ne'): out.append((e, 'a throw'))
        return out

    def caught(g, e):
        ts = g.d.get('tries', [])
        for ix in g.tries().get(e, ()):
            if any(h.get('t') == '...' for h in ts[ix]['h']): return True
        return False
    memo = {}

    def leaks(g, stack=()):
        """first chain by which something thrown leaves g"""
        if g.key in memo: return memo[g.key]
        if g.key in stack: return None
        st = stack + (g.key,)
        r = None
        for e, what in direct(g):
            if not caught(g, e): r = (what, [g.loc(e)]); break
        if not r:
            for b, i, e in g.elems():
                if r: break
                if not isinstance(e, int):
                    continue
                n = g.E[e]
                if n['k'] in ('call', 'ctor'):
                    if caught(g, e): continue
                    hs = list(P.callees(g, n))
                    for x in n.get('args', []):
                        if isinstance(x, int) and x >= 0 and not (n.get('fn') in P.funcs) : hs += P.lambda_of(g, x)
                    for h in hs:
                        if h.get('ne') : continue
                        q = leaks(h, st)
                        if q: r = (q[0], [g.loc(e)] + q[1]); break
        if len(stack) == 0 or r: memo[g.key] = r
        return r
    for f in P.funcs.values():
        if not f.blocks or not (P.is_repo(f) or 'verif_selftest' in f.key): continue
        if not f.get('ne') or f.get('implicit') and not f.get('dtor'): continue
        if f.get('defaulted') and not f.get('dtor'): continue
        nne += 1
        r = leaks(f)
        cx.obligation('%s throws nothing' % f.key.split('(')[0][:120], not r)
        if r: cx.violation('noexcept|%s' % f.key, f.loc(), '%s may not throw, but runs %s' % (f.qn, r[0]), trace=r[1], func=f.key)
    hs = 0; par = 0
    for f in P.funcs.values():
        if not f.blocks or not (P.is_repo(f) or 'verif_selftest' in f.key): continue
        for t in f.d.get('tries', []):
            for h in t['h']:
                hs += 1
                ok = passes_on(P, f, h['b'])
                cx.obligation('the handler in %s passes the exception on' % f.key.split('(')[0][:100], ok)
                if not ok: cx.violation('swallow|%s' % f.key.split('(')[0], f.loc(), 'an exception caught in %s is neither rethrown nor transported' % f.qn, func=f.key)
        for b, i, e in f.elems():
            if not isinstance(e, int) or f.E[e]['k'] != 'call': continue
            n = f.E[e]
            if not n.get('args') or 'std::execution::' not in f.type(n['args'][0]).get('s', '') + f.type(n['args'][0]).get('rec', '') + '': continue
            par += 1
            for x in n['args']:
                for g in P.lambda_of(f, x):
                    r = leaks(g)
                    if r or direct(g): cx.violation('policy|%s' % f.key, f.loc(e), '%s runs user code under an execution policy, where an exception terminates the program' % n.get('qn'), func=f.key)
    cx.expect_selftest('never_throws'); cx.expect_selftest('swallow_all')
    cx.anchor(nne > 100, 'noexcept functions')
    cx.anchor(hs, 'exception handlers')
    cx.coverage.update(noexcept_functions=nne, handlers=hs, execution_policy_calls=par)


def keeps(P, f, n, seen, top=True):
    if n['k'] == 'throw' and (top or 'e' not in n) or n['k'] == 'call' and n.get('qn', '').rsplit('::', 1)[-1] in ('current_exception', 'rethrow_exception', 'terminate', 'abort'): return True
    if n['k'] not in ('call', 'ctor'): return False
    for g in P.callees(f, n):
        if g.key in seen: continue
        seen.add(g.key)
        if any(m and keeps(P, g, m, seen, False) for m in g.E): return True
    return False


def passes_on(P, f, b):
    """some way out of the handler keeps the exception: it is rethrown, or stored for a later rethrow on every path"""
    st = [b]; seen = set(); out = []
    entry = set(); q = [f.entry]
    while q:
        x = q.pop()
        if x in entry or x is None or x < 0: continue
        entry.add(x); q += [y for y in f.blocks[x]['s'] if y is not None and y >= 0]
    while st:
        x = st.pop()
        if x in seen or x is None or x < 0: continue
        seen.add(x)
        B = f.blocks[x]; kept = False
        for e in B['e']:
            if not isinstance(e, int): continue
            if keeps(P, f, f.E[e], set()): kept = True
        if kept or B.get('nr'): continue
        if x == f.exit or x in entry: return False
        st += [y for y in B['s'] if y is not None and y >= 0]
    return True
