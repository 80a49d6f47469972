"""Internal checks are pure: every expression inside an assertion (and everything it calls) neither writes an object that outlives the check, nor draws a
random number, nor runs code supplied by the user, so compiling the checks out cannot change a run."""
import re

RULE = 'no write effect, random draw, lock, I/O or user callback below an assertion'
IO = ('operator<<', 'printf', 'fprintf', 'puts', 'write', 'print', 'println', 'operator>>')
QUERY = ('is_dynamic', 'variable_chrom_len', 'num_vars', 'chrom_len', 'allow_variable_chrom_length')

READING = re.compile(r'ranges::__?(\w*::)?_*(is_sorted|all_of|any_of|none_of|find|count|equal|contains|max|min|adjacent|for_each_const|distance|size|includes|lower_bound|upper_bound|binary_search|is_permutation)')


def in_check(f, e):
    n = f.E[e]
    return bool(n) and n.get('mac') == 'GAPP_ASSERT'


def user_code(P, f, n):
    """what a call runs that the user may have supplied"""
    t = f.type(n['obj']) if isinstance(n.get('obj'), int) else {}
    if t.get('tmpl') == 'std::function' and n.get('qn', '').endswith('operator()'): return 'a callable'
    if n.get('virt'):
        nm = n.get('qn', '').rsplit('::', 1)[-1]
        fn = P.funcs.get(n.get('fn'))
        doc = (fn.get('doc') or '') if fn else ''
        if n.get('cm') and n.get('ne') and not n.get('args'): return None      # a non-throwing query
        if nm in QUERY or (fn and (fn.get('access') == 'public' or (fn.get('const') and not fn.params and fn.get('ne')))): return None
        return '%s (may be overridden)' % nm
    return None


def check(cx):
    P = cx.P; EF = cx.effects; PT = cx.paths
    checks = 0; exprs = 0; callees = set()
    inner = set()           # lambdas written inside a check
    for f in P.funcs.values():
        for n in f.E:
            if n and n['k'] == 'lambda' and n.get('mac') == 'GAPP_ASSERT': inner.update(n['ops'])
    memo = {}

    def users(g, seen):
        """user code reachable from g"""
        if g.key in memo: return memo[g.key]
        if g.key in seen: return None
        seen.add(g.key); r = None
        for b, i, e in g.elems():
            if not isinstance(e, int): continue
            m = g.E[e]
            if m['k'] in ('call', 'ctor'):
                u = user_code(P, g, m) if m['k'] == 'call' else None
                if u and P.is_repo(g): r = '%s at %s' % (u, g.loc(e)); break
                for h in P.callees(g, m):
                    r = users(h, seen)
                    if r: break
            if m['k'] == 'lambda':
                for o in m['ops']:
                    if o in P.funcs: r = r or users(P.funcs[o], seen)
            if r: break
        memo[g.key] = r
        return r
    for f in P.funcs.values():
        if not f.blocks or not (P.is_repo(f) or 'verif_selftest' in f.key): continue
        if f.file.endswith('utility.hpp') and False: continue
        nested = f.key in inner
        by = {}
        for a in EF.local(f): by.setdefault(a.eid, []).append(a)
        seen_here = False
        for b, i, e in f.elems():
            if not isinstance(e, int) or not in_check(f, e): continue
            n = f.E[e]; seen_here = True; exprs += 1
            where = f.loc(e)
            def bad(kind, msg, trace=()):
                cx.violation('%s|%s|%s' % (kind, f.key, n.get('qn') or n['k']), where, msg + ' inside an assertion', trace=trace, func=f.key)
            if n.get('qn') == '__assert_fail':
                checks += 1; continue
            for a in by.get(e, []):
                if a.kind not in ('w', 'a', 'W') or a.how == 'init': continue
                root, sel = a.path
                if root[0] == 't': continue
                if a.how == 'operator()(ref)' and READING.search(f.type(n['obj']).get('s', '') if isinstance(n.get('obj'), int) else ''): continue
                if root[0] == 'v' and nested: continue
                cx.obligation('assertion in %s has no side effect' % f.key[:100], False)
                bad('write', '%s is modified (%s)' % ('.'.join([str(root[-1])] + list(sel)), a.how), a.chain)
            if n['k'] in ('call', 'ctor'):
                m = PT.arg_binding(f, n)
                u = user_code(P, f, n) if n['k'] == 'call' else None
                if u: bad('user', 'user code is run: %s' % u)
                nm = n.get('qn', '').rsplit('::', 1)[-1]
                if nm in IO and not P.callees(f, n) and 'bit' not in n.get('qn', '') and f.type(n).get('s', '').find('stream') >= 0: bad('io', 'output is produced')
                for g in P.callees(f, n):
                    callees.add(g.key)
                    uu = users(g, set())
                    if uu: bad('user', 'user code is run: %s' % uu)
                    for a in EF.summary(g):
                        if a.kind not in ('w', 'a', 'W') or a.path[0][0] in ('v', 't'): continue
                        if n['k'] == 'ctor' and a.path[0] == ('this',): continue
                        if a.how == 'init' : continue
                        for r, s in PT.subst1(f, n, m, a.path[0], a.path[1]):
                            if r[0] == 't' or (r[0] == 'v' and nested): continue
                            if r[0] == 'othis' and r[1] not in (f.key, f.parent): continue
                            bad('write', '%s is modified by %s (%s)' % ('.'.join([str(x) for x in r[1:]] + list(s)), g.name, a.loc()), (f.loc(e),) + a.chain)
        if seen_here: cx.obligation('assertions of %s have no side effect' % f.key.split('(')[0][:110])
    cx.expect_selftest('counting_check::next'); cx.expect_selftest('counting_check::draw')
    cx.anchor(checks > 100, 'assertions')
    cx.coverage.update(assertions=checks, expressions=exprs, called_functions=len(callees))
