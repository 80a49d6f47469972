"""Configuration. Every class with a setter and a getter of the same name is checked by interpreting the setter and then the getter
abstractly over all CFG paths; constructors likewise. The flags that select deduced defaults are found from their use in the run and
checked after every constructor and setter. Every configured field must be read by the code of a run."""
from absint import AbsInt, Store, TooBig, const
from roles import Roles, reaching, method_of

RULE = 'get(set(x)) yields x on every normal path; constructors store each parameter where its getter reads it; default flags agree with what was given; every configured field is read outside of its accessors'
ALG = 'gapp::algorithm::Algorithm'
ALIAS = {'pc': 'crossover_rate', 'pm': 'mutation_rate', 'crossover': 'crossover_method', 'mutation': 'mutation_method'}


class Conf(AbsInt):
    max_depth = 9
    max_states = 20000

    def __init__(self, cx, depth=9): super().__init__(cx); self.max_depth = depth

    def hook_descend(self, fr, S, e, n, g):
        # containers and other utilities are taken at face value
        return bool(g.cls or g.parent) and '/utility/' not in g.file and not g.cls.startswith(('gapp::small_vector', 'gapp::detail::Matrix')) if g.cls else bool(g.parent)


def mentions(t, root):
    if t == root: return True
    if isinstance(t, (tuple, frozenset)): return any(mentions(x, root) for x in t)
    return False


def origin(A, S, v, depth=0):
    """everything a value was made from: follows addresses to the contents of freshly made objects"""
    out = [v]
    if v is not None and depth < 5:
        if v[0] == 'at':
            out.append(A.snapshot(S, v[1])); out += origin(A, S, A.snapshot(S, v[1]), depth + 1) if A.snapshot(S, v[1]) != v else []
            for k, x in S.m.items():
                if k[0] == v[1][0] and x is not v: out.append(x)
        for t in (v if isinstance(v, tuple) else ()):
            pass
    return out


def comes_from(A, S, v, i):
    root = ('P', ('root',), i)
    if v is not None and A.equal(S, v, ('i', (root, ()))) is True: return True
    return any(mentions(x, root) for x in origin(A, S, v) if x is not None)


def is_null(A, S, i):
    return A.truth(S, ('i', (('P', ('root',), i), ()))) is False


def nullish(t): return 'nullptr_t' in t.get('s', '')


def public(P, c, f):
    return f.get('access', 'public') in ('public', None)


def lib_class(P, c):
    r = P.records.get(c)
    return r and (c.startswith('gapp::') or 'verif_selftest' in c) and '/utility/' not in P.files[r['file']]


def check(cx):
    P = cx.P; R = Roles(cx)
    infl = {}
    pairs = 0
    configured = {}
    for c in sorted(P.records):
        if not lib_class(P, c) or '::dtl::' in c: continue
        own = [f for f in P.by_cls.get(c, []) if f.blocks and public(P, c, f) and not f.get('static')]
        getters = {}
        for b in [c] + P.all_bases(c):
            for f in P.by_cls.get(b, []):
                if f.blocks and public(P, b, f) and f.get('const') and not f.params and not f.get('ctor') and f.d.get('ret') is not None and f.name not in getters: getters[f.name] = f
        for f in sorted(own, key=lambda f: f.key):
            if f.get('ctor') or f.get('dtor') or f.get('const') or len(f.params) != 1 or f.name.startswith('operator') or f.name not in getters: continue
            if nullish(f.vtype(f.params[0])): continue
            if f.get('virtual') and f.name in ('initialize', 'update'): continue
            g = getters[f.name]; pairs += 1
            cx.obligation('%s::%s: the value set is the value in use' % (short(c), f.name))
            A = Conf(cx)
            try: outs = [S for k, S, v in A.call_fn(f, Store(), this=(('this',), ()), args=[None]) if k == 'n']
            except TooBig: cx.undecided.append('%s::%s' % (short(c), f.name)); continue
            for S in outs:
                if is_null(A, S, 0): continue
                B = Conf(cx)
                try: res = [(S2, v) for k, S2, v in B.call_fn(g, S.copy(), this=(('this',), ()), args=[], fid=('get',)) if k == 'n']
                except TooBig: cx.undecided.append('%s::%s' % (short(c), f.name)); continue
                for S2, v in res:
                    if not comes_from(B, S2, v, 0):
                        cx.violation('set|%s|%s' % (short(c), f.name), f.loc(), '%s::%s: on some path the getter does not return the value that was set' % (short(c), f.name), func=f.key); break
                else:
                    for k, x in S.m.items():
                        if k[0] == ('this',) and k[1] and mentions(x, ('P', ('root',), 0)): configured.setdefault((f.cls, k[1][0]), f)
            if not outs: cx.violation('set|%s|%s' % (short(c), f.name), f.loc(), '%s::%s never returns normally' % (short(c), f.name), func=f.key)
        ctors(cx, P, R, c, own, getters, configured)
        for f in sorted(own, key=lambda f: f.key):
            if f.get('ctor') or f.get('const') or f.get('static') or f.name.startswith('operator') or f.name in getters and len(f.params) == 1: continue
            ix = [i for i in range(len(f.params)) if f.V[f.params[i]]['name'] in getters]
            if not ix or len(ix) != len(f.params): continue
            A = Conf(cx)
            try: outs = [S for k, S, v in A.call_fn(f, Store(), this=(('this',), ()), args=[None] * len(f.params)) if k == 'n']
            except TooBig: cx.undecided.append('%s::%s' % (short(c), f.name)); continue
            for i in ix:
                nm = f.V[f.params[i]]['name']; pairs += 1
                cx.obligation('%s::%s: %s is the value in use' % (short(c), f.name, nm))
                for S in outs:
                    B = Conf(cx)
                    try: res = [(S2, v) for k, S2, v in B.call_fn(getters[nm], S.copy(), this=(('this',), ()), args=[], fid=('get',)) if k == 'n']
                    except TooBig: continue
                    if any(not comes_from(B, S2, v, i) for S2, v in res):
                        cx.violation('set|%s|%s|%s' % (short(c), f.name, nm), f.loc(), '%s::%s: on some path %s() does not return the value that was set' % (short(c), f.name, nm), func=f.key); break
        if c in R.ga + [R.info]: plain_setters(cx, P, c, own, getters, configured)
    cx.anchor(pairs > 10, 'setter/getter pairs')
    flags(cx, P, R)
    used(cx, P, R, configured)
    copies(cx, P, configured)
    run_arguments(cx, P, R)
    cx.coverage['setter_getter_pairs'] = pairs
    cx.expect_selftest('verif_selftest::forgetful')


def ctors(cx, P, R, c, own, getters, configured):
    rec = P.records[c]
    for f in own:
        if not f.get('ctor') or f.get('copy') or f.get('move') or f.get('defaulted') or f.get('inheriting') or not f.params: continue
        A = Conf(cx)
        names = [f.V[v]['name'] for v in f.params]
        targets = []
        for i, nm in enumerate(names):
            t = f.vtype(f.params[i])
            if nullish(t): continue
            g = getters.get(nm) or getters.get(ALIAS.get(nm, ''))
            targets.append((i, nm, g))
        if not targets: continue
        try: outs = [S for k, S, v in A.call_fn(f, Store(), this=(('this',), ()), args=[None] * len(f.params)) if k == 'n']
        except TooBig: cx.undecided.append('%s constructor' % short(c)); continue
        cx.obligation('constructor of %s stores each parameter (%s)' % (short(c), ', '.join(names)))
        for i, nm, g in targets:
            for S in outs[:64]:
                if is_null(A, S, i): continue
                if g is not None:
                    B = Conf(cx)
                    try: res = [(S2, v) for k, S2, v in B.call_fn(g, S.copy(), this=(('this',), ()), args=[], fid=('get',)) if k == 'n']
                    except TooBig: continue
                    bad = [v for S2, v in res if not comes_from(B, S2, v, i)]
                    if bad:
                        cx.violation('ctor|%s|%s' % (short(c), nm), f.loc(), '%s: the constructor parameter `%s\' is not what %s() returns afterwards' % (short(c), nm, g.name), func=f.key); break
                    for k, x in S.m.items():
                        if k[0] == ('this',) and k[1] and mentions(x, ('P', ('root',), i)): configured.setdefault((c, k[1][0]), f)
                elif not lost_ok(f, i) and '::dtl::' not in c and '::detail::' not in c:
                    if not any(k[0] == ('this',) and mentions(x, ('P', ('root',), i)) or mentions(k, ('P', ('root',), i)) for k, x in S.m.items()) and not any(k[0] == ('this',) and deep(A, S, x, i) for k, x in S.m.items()):
                        cx.violation('ctor|%s|%s' % (short(c), nm), f.loc(), '%s: the constructor parameter `%s\' is dropped on some path' % (short(c), nm), func=f.key); break


def plain_setters(cx, P, c, own, getters, configured):
    """settings of a GA without a getter: the argument must end up in a field on every path"""
    for f in sorted(own, key=lambda f: f.key):
        if f.get('ctor') or f.get('const') or f.get('static') or f.name.startswith('operator') or f.name == 'solve' or not f.params: continue
        if P.T(f.d['ret']).get('s') != 'void' if f.d.get('ret') is not None else True: continue
        if len(f.params) == 1 and f.name in getters and not nullish(f.vtype(f.params[0])): continue
        if all(nullish(f.vtype(p)) for p in f.params) or f.get('virtual'): continue
        A = Conf(cx)
        try: outs = [S for k, S, v in A.call_fn(f, Store(), this=(('this',), ()), args=[None] * len(f.params)) if k == 'n']
        except TooBig: cx.undecided.append('%s::%s' % (short(c), f.name)); continue
        cx.obligation('%s::%s stores its argument' % (short(c), f.name))
        for i in range(len(f.params)):
            for S in outs:
                hold = [k for k, x in S.m.items() if k[0] == ('this',) and k[1] and x is not None and deep(A, S, x, i)]
                if any(k[0][0] == 'N' and mentions(x, ('P', ('root',), i)) for k, x in S.m.items() if isinstance(k[0], tuple)):
                    hold += [k for k, x in S.m.items() if k[0] == ('this',) and k[1] and x != ('i', k)]      # kept in an object made here
                if any(k[0] == '?' and x is True and k[1][:2] == ('ap', '==') and mentions(k[1], ('P', ('root',), i)) and mentions(k[1], ('this',)) for k, x in S.m.items()): continue      # already the value in use
                if not hold and not is_null(A, S, i):
                    cx.violation('set|%s|%s' % (short(c), f.name), f.loc(), '%s::%s: on some path the argument is dropped' % (short(c), f.name), func=f.key); break
                for k in hold: configured.setdefault((f.cls, k[1][0]), f)


def deep(A, S, x, i): return x is not None and comes_from(A, S, x, i)


def lost_ok(f, i):
    nm = f.V[f.params[i]]['name']
    return not nm or f.vtype(f.params[i]).get('s', '').startswith('std::source_location') or 'inplace' in f.vtype(f.params[i]).get('s', '')


# ---------------------------------------------------------------------------------------------- default flags
def flags(cx, P, R):
    """bool fields that make a run replace the algorithm / the mutation rate by a deduced default"""
    solves = R.solves()
    down = set()
    from rules.c19 import reaching_down
    down = reaching_down(P, solves)
    boolf = {fd['name'] for g in R.ga for c, fd in P.fields(g, True) if P.T(fd['t']).get('s') == 'bool'}
    flag = {}
    for k in down:
        f = P.funcs[k]
        if not f.cls or f.cls not in R.ga + [R.info]: continue
        cd = {}
        for b in f.blocks:
            c = f.blocks[b].get('cond')
            if c is None or c < 0: continue
            nm = [f.E[y]['name'] for y in f.subtree(c) if f.E[y] and f.E[y]['k'] == 'field' and f.E[y]['name'] in boolf]
            for ix, s in enumerate(f.blocks[b]['s']):
                if s < 0 or not nm: continue
                other = [x for j, x in enumerate(f.blocks[b]['s']) if j != ix and x >= 0]
                reach = region(f, s) - set().union(*[region(f, o) for o in other]) if other else set()
                for rb in reach:
                    for e in f.blocks[rb]['e']:
                        if not isinstance(e, int): continue
                        n = f.E[e]
                        if n['k'] == 'call' and n.get('op') == '=' and 'obj' in n and f.E[n['obj']]['k'] == 'field' and f.E[n['obj']]['name'] == R.alg: flag.setdefault('alg', set()).update(nm)
                        if n['k'] == 'call' and n.get('qn', '').rsplit('::', 1)[-1] == 'mutation_rate' and n.get('args'): flag.setdefault('mut', set()).update(nm)
    cx.anchor(len(flag.get('alg', ())) == 1 and len(flag.get('mut', ())) == 1, 'flags of the deduced defaults')
    fa, fm = list(flag['alg'])[0], list(flag['mut'])[0]
    for g in R.ga + [R.info]:
        for f in sorted(P.by_cls.get(g, []), key=lambda f: f.key):
            if not f.blocks or f.get('copy') or f.get('move') or f.get('static') or f.get('const') or f.get('defaulted') or f.get('inheriting') or f.get('dtor'): continue
            if f.get('access') == 'private' or f.name.startswith('operator') or f.name == 'solve' or f.key in down and not f.get('ctor'): continue
            types = [f.vtype(v) for v in f.params]
            ai = first(i for i, t in enumerate(types) if is_a_param(P, t, ALG))
            mi = first(i for i, t in enumerate(types) if is_a_param(P, t, 'gapp::mutation::Mutation'))
            A = Conf(cx)
            if f.get('ctor') and g in R.ga and f.get('access') == 'protected': continue
            try: outs = [S for k, S, v in A.call_fn(f, Store(), this=(('this',), ()), args=[None] * len(f.params)) if k == 'n']
            except TooBig: cx.undecided.append('default flags after %s' % f.name); continue
            cx.obligation('default flags after %s::%s(%s)' % (short(g), f.name if not f.get('ctor') else short(g), ', '.join(t.get('s', '?')[:40] for t in types)))
            for S in outs:
                for fl, pi, what in ((fa, ai, 'algorithm'), (fm, mi, 'mutation rate')):
                    if fl == fm and g == R.info and not any(fd['name'] == fm for c, fd in P.fields(g, True)): continue
                    v = A.read(S, (('this',), (fl,)))
                    t = A.truth(S, v)
                    want = None
                    if f.get('ctor'):
                        if g == R.info and what == 'mutation rate': continue
                        if pi is None: want = (g != R.info) or None
                        else: want = given(A, S, types[pi], pi)
                    elif f.name == 'algorithm':
                        want = (True if nullish(types[0]) else given(A, S, types[0], 0)) if what == 'algorithm' and types else 'same'
                    elif f.name == 'mutation_rate' and types: want = False if what == 'mutation rate' else 'same'
                    elif f.name == 'mutation_method' and types:
                        if what == 'mutation rate': want = False if mi is not None else True
                        else: want = 'same'
                    else: want = 'same'
                    if want is None: continue
                    if want == 'same':
                        if v != ('i', (('this',), (fl,))):
                            cx.violation('flag|%s|%s' % (f.name, what), f.loc(), '%s changes whether the %s is deduced' % (f.name, what), func=f.key)
                    elif want == 'unknown':
                        if t is not None or not mentions(v, ('P', ('root',), pi)):
                            # decided on this path although the parameter may or may not be null
                            cx.violation('flag|%s|%s' % (f.name, what), f.loc(), 'whether the %s is deduced does not depend on the given pointer' % what, func=f.key)
                        elif sense(A, S, v, pi) is not True: cx.violation('flag|%s|%s' % (f.name, what), f.loc(), 'the %s is deduced in the wrong case' % what, func=f.key)
                    elif t is not want:
                        cx.violation('flag|%s|%s' % (label(f), what), f.loc(), '%s leaves the %s %s' % ('the constructor' if f.get('ctor') else f.name, what, 'deduced although one was given' if want is False else 'undeduced although none was given'), func=f.key)


def sense(A, S, v, i):
    """flag is true exactly when the pointer is null"""
    p = ('i', (('P', ('root',), i), ()))
    a = A.assume(S.copy(), p, True); b = A.assume(S.copy(), p, False)
    return a is not None and b is not None and A.truth(a, v) is False and A.truth(b, v) is True


def given(A, S, t, i):
    """False when the parameter is an object; by nullness when it is a pointer"""
    if 'unique_ptr' not in t.get('s', ''): return False
    x = A.truth(S, ('i', (('P', ('root',), i), ())))
    return 'unknown' if x is None else (not x)


def first(it): return next(iter(it), None)


def is_a_param(P, t, base):
    s = t.get('s', '')
    if t.get('rec', '').startswith('std::unique_ptr') : return ('<' + base) in s
    r = t.get('rec', '')
    return bool(r) and (r.split('<')[0] == base or any(b.split('<')[0] == base for b in P.all_bases(r)))


def region(f, b):
    seen = set(); st = [b]
    while st:
        x = st.pop()
        if x in seen or x < 0: continue
        seen.add(x); st += f.blocks[x]['s']
    return seen


# ---------------------------------------------------------------------------------------------- copies keep the settings
def copies(cx, P, configured):
    """hand-written copy / move constructors and assignments carry every setting over from the other object"""
    conf = {}
    for (c, x) in configured: conf.setdefault(short(c), set()).add(x)
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        c = f.cls
        if not c or not f.blocks or f.get('defaulted') or not (f.get('copy') or f.get('move') or f.get('copyasg') or f.get('moveasg')) or not lib_class(P, c) or '::dtl::' in c: continue
        outer = c.rsplit('::', 1)[0]
        flds = [fd for fd in P.records[c]['fields'] if fd['name'] in conf.get(short(c), ()) or P.T(fd['t']).get('s', '').startswith('std::unique_ptr') or outer in P.records and given_field(P, c, outer, fd['name'])]
        if not flds: continue
        names = carried(P, f, 0)
        for fd in flds:
            n += 1
            ok = names is None or fd['name'] in names
            cx.obligation('copying or moving keeps %s of %s (%s)' % (fd['name'], short(c), f.key[-60:]), ok)
            if not ok: cx.violation('copy|%s|%s' % (short(c), fd['name']), f.loc(), '%s: copying or moving an object loses its %s' % (short(c), fd['name']), func=f.key)
    cx.coverage['copied_settings'] = n


def given_field(P, c, outer, x):
    for cl in (c, outer):
        for f in P.by_cls.get(cl, []):
            if not f.blocks or not f.params or f.get('copy') or f.get('move') or f.get('copyasg') or f.get('moveasg') or f.get('const') or f.name in ('initialize', 'initializeImpl'): continue
            for b in f.blocks:
                for e in f.blocks[b]['e']:
                    if not isinstance(e, int) and e['k'] == 'init' and e.get('field') == x and any(f.E[y] and f.E[y]['k'] == 'var' and f.E[y]['v'] in f.params for y in f.subtree(e['e'])): return True
            if not (f.get('ctor') or len(f.params) == 1 and f.d.get('ret') is not None and P.T(f.d['ret']).get('s') == 'void' and f.get('access') == 'public'): continue
            for m in f.E:
                if not m: continue
                lhs, rhs = (m.get('a'), m.get('b')) if m['k'] == 'assign' else (m.get('obj'), (m.get('args') or [None])[0]) if m['k'] == 'call' and m.get('op') == '=' else (None, None)
                if lhs is None or rhs is None or f.E[lhs]['k'] != 'field' or f.E[lhs]['name'] != x or f.E[lhs].get('cls') != c: continue
                if any(f.E[y] and f.E[y]['k'] == 'var' and f.E[y]['v'] in f.params for y in f.subtree(rhs)): return True
    return False


def carried(P, f, depth):
    """names of the fields that are read from the other object; None: the whole object is handed on"""
    out = set(); E = f.E

    def other(e, d=0):
        while d < 8 and e is not None and e >= 0 and E[e]:
            m = E[e]; d += 1
            if m['k'] == 'var': return m['v'] in f.params
            if m['k'] in ('cast', 'wrap', 'definit'): e = m['e']
            elif m['k'] == 'call' and m.get('qn') in ('std::move', 'std::forward', 'std::as_const') and m.get('args'): e = m['args'][0]
            else: return False
        return False
    for e, m in enumerate(E):
        if not m: continue
        if m['k'] == 'field' and other(m['b']): out.add(m['name'])
        if m['k'] in ('call', 'ctor'):
            args = [a for a in m.get('args', []) if a is not None and a >= 0]
            if not any(other(a) for a in args) or m.get('qn') in ('std::move', 'std::forward', 'std::as_const'): continue
            if m['k'] == 'ctor' and m.get('rec') != f.cls and m.get('rec') in P.all_bases(f.cls): continue
            if m['k'] == 'call' and m.get('op') == '=' and m.get('cls') != f.cls and m.get('cls') in P.all_bases(f.cls): continue
            g = P.funcs.get(m.get('fn'))
            if g is not None and g.blocks and g.cls == f.cls and not g.get('defaulted') and not g.get('ctor') and depth < 3:
                r = carried(P, g, depth + 1)
                if r is None: return None
                out |= r
            else: return None
    return out


# ---------------------------------------------------------------------------------------------- configured and used
def used(cx, P, R, configured):
    """every configured field is read by something that is not an accessor, a constructor or an assertion"""
    from killflow import KillFlow
    done = set()
    readers = {}
    for f in P.funcs.values():
        if not f.blocks: continue
        for e, n in enumerate(f.E):
            if n and n['k'] == 'field': readers.setdefault(n['name'], []).append((f, e))
    for (c, x), s in sorted(configured.items(), key=lambda kv: (kv[0][0] or '', kv[0][1])):
        owner = next((cc for cc, fd in P.fields(c, True) if fd['name'] == x), c)
        if (short(owner), x) in done or '::problems::' in owner: continue
        done.add((short(owner), x))
        fam = {owner, c} | set(P.subclasses(owner, concrete=False) if owner in P.records else ())
        ok = False
        for f, e in readers.get(x, ()):
            cl = f.cls or (P.funcs[f.parent].cls if f.parent in P.funcs else None)
            if cl is None or (short(cl) not in {short(z) for z in fam} and cl not in fam and not P.is_a(cl, owner)): continue
            if f.get('ctor') or f.get('dtor') or f.name.startswith('operator=') : continue
            if is_accessor(P, f, x): continue
            if written_only(cx, f, e): continue
            ok = True; break
        if not ok and accessor_called(P, c, owner, x): ok = True
        cx.obligation('the setting %s of %s is used' % (x, short(owner)))
        if not ok: cx.violation('unused|%s|%s' % (short(owner), x), s.loc(), 'the setting stored in `%s\' of %s is never used' % (x, short(owner)), func=s.key)


def is_accessor(P, f, x):
    """the function only returns or only stores the field"""
    real = [n for n in f.E if n and n['k'] in ('call', 'ctor', 'assign', 'ret')]
    if len(f.params) <= 1 and any(g.name == f.name and g.key != f.key for g in P.by_cls.get(f.cls or '', [])) : return True
    return f.get('const') and not f.params and len(f.blocks) <= 3


def accessor_called(P, c, owner, x):
    gets = set()
    for cl in {c, owner}:
        for f in P.by_cls.get(cl, []):
            if f.get('const') and not f.params and any(n and n['k'] == 'field' and n['name'] == x for n in f.E): gets.add(f.key)
    for f in P.funcs.values():
        if not f.blocks or not P.is_repo(f): continue
        for n in f.E:
            if n and n['k'] == 'call' and n.get('fn') in gets and f.name != P.funcs[n['fn']].name: return True
    return False


def written_only(cx, f, e):
    p = f.parents().get(e, [])
    return bool(p) and all(f.E[q]['k'] == 'assign' and f.E[q]['op'] == '=' and f.E[q].get('a') == e or f.E[q]['k'] == 'call' and f.E[q].get('op') == '=' and f.E[q].get('obj') == e for q in p)


def short(k):
    import re
    s = re.sub(r'\(.*$', '', k)
    while '<' in s:
        t = re.sub(r'<[^<>]*>', '', s)
        if t == s: break
        s = t
    return s.replace('gapp::', '')


def label(f): return short(f.cls or '') if f.get('ctor') else f.name


# ---------------------------------------------------------------------------------------------- the arguments of a run
ST = ('st',)


class RunArgs(AbsInt):
    """interprets solve() up to the first question to the stop condition"""
    max_depth = 12
    max_states = 20000

    exc = False

    def __init__(self, cx, R, leads): super().__init__(cx); self.R = R; self.at_stop = []; self.skipped = set(); self.own = set(R.ga + [R.info]); self.leads = leads

    def hook_descend(self, fr, S, e, n, g):
        if g.parent: return self.in_ga(g) and g.key in self.leads
        return g.key in self.leads or (g.cls in self.own or g.cls in self.R_bases()) and self.simple(g)

    def simple(self, g):
        """stores its arguments or returns a field"""
        return len(g.params) <= 2 and not any(n and n['k'] == 'call' and n.get('fn') in self.P.funcs and self.P.funcs[n['fn']].blocks and self.P.funcs[n['fn']].cls in self.own and self.P.funcs[n['fn']].params for n in g.E)

    def in_ga(self, g):
        while g.parent and g.parent in self.P.funcs: g = self.P.funcs[g.parent]
        return g.cls in self.own

    def R_bases(self):
        if not hasattr(self, '_rb'): self._rb = {b for g in self.R.ga for b in self.P.all_bases(g)}
        return self._rb

    def hook_call(self, fr, S, e, n):
        if method_of(self.P, n, 'gapp::stopping::StopCondition', ('operator()', 'stop_condition')):
            self.at_stop.append(S.copy()); return []
        g = self.P.funcs.get(n.get('fn'))
        if n['k'] == 'ctor' or n.get('qn') in ('std::move', 'std::forward') or g is not None and g.blocks and self.P.is_repo(g) and self.hook_descend(fr, S, e, n, g): return None
        pts = n.get('pt', []); nargs = n.get('args', [])
        for a in ([n['obj']] if 'obj' in n and not n.get('cm') else []) + [a for j, a in enumerate(nargs) if not (j < len(pts) and self.P.T(pts[j]).get('ref') and self.P.T(pts[j]).get('const'))]:
            if a is None or a < 0: continue
            v = self.value(fr, S, a) if fr.f.E[a]['k'] != 'defarg' else None
            for i in range(8):
                if v is not None and mentions(v, ('P', ('root',), i)): S.m[(ST, ('used', i))] = True
        g = self.P.funcs.get(n.get('fn'))
        if g is not None and g.cls in self.own and not g.get('ctor') and not self.hook_descend(fr, S, e, n, g):
            self.skipped.add(g.key)
            return [('n', S, ('w', (fr.fid, e)))]          # does not touch what is looked at: checked by check_writers
        return None


def run_arguments(cx, P, R):
    n = 0; skipped = set()
    own = set(R.ga + [R.info])
    seeds = {f.key for f in P.funcs.values() for x in f.E if x and method_of(P, x, 'gapp::stopping::StopCondition', ('operator()', 'stop_condition', 'initialize')) and f.cls in own}
    inits = {f.key for f in P.funcs.values() for x in f.E if x and x['k'] == 'call' and x.get('op') == '=' and 'obj' in x and f.E[x['obj']]['k'] == 'field' and f.E[x['obj']]['name'] in (R.pop,) and f.cls in own and any('Candidate' in f.vtype(v).get('s', '') for v in f.params)}
    leads = {k for k in reaching(P, seeds | inits) if k in P.funcs and (P.funcs[k].cls in own or P.funcs[k].parent)}
    for f in sorted(R.solves(), key=lambda f: f.key):
        if not f.blocks: continue
        A = RunArgs(cx, R, leads)
        types = [f.vtype(v) for v in f.params]
        try: A.call_fn(f, Store(), this=(('this',), ()), args=[None] * len(f.params))
        except TooBig: cx.undecided.append('arguments of %s' % f.key[:80]); continue
        cx.obligation('%s::solve(%s): what is passed is what the run uses' % (short(f.cls), ', '.join(t.get('s', '?')[:40] for t in types)))
        if not A.at_stop:
            cx.violation('run|%s|stop' % f.key[:160], f.loc(), 'no path of %s::solve reaches the stop condition' % short(f.cls), func=f.key); continue
        n += 1
        bfield = next((fd['name'] for c, fd in P.fields(f.cls, True) if 'Bounds' in P.T(fd['t']).get('s', '') and 'vector' in P.T(fd['t']).get('s', '').lower() or 'BoundsVector' in P.T(fd['t']).get('s', '')), None)
        for i, t in enumerate(types):
            s = t.get('s', ''); rec = t.get('rec', '')
            if i == 0: what, fld = 'fitness function', R.fitfn
            elif 'Bounds' in s: what, fld = 'bounds', bfield
            elif s.replace('const ', '') in ('size_t', 'unsigned long', 'std::size_t'): what, fld = 'generation limit', R.maxgen
            elif 'Candidate' in s or 'Population' in s: what, fld = 'initial population', None
            else: continue
            for S in A.at_stop:
                if fld is not None:
                    v = A.read(S, (('this',), (fld,)))
                    ok = comes_from(A, S, v, i) or any(k[0] == ('this',) and k[1][:1] == (fld,) and comes_from(A, S, x, i) for k, x in S.m.items())
                else: ok = S.m.get((ST, ('used', i)))
                if not ok: cx.violation('run|%s|%s' % (f.key[:160], what), f.loc(), '%s::solve: the %s that is passed is not what the run uses' % (short(f.cls), what), func=f.key); break
        if not any(s.get('s', '').replace('const ', '') in ('size_t', 'unsigned long', 'std::size_t') for s in types):
            for S in A.at_stop:
                if not mentions(A.read(S, (('this',), (R.maxgen,))), (R.maxgen,)):
                    cx.violation('run|%s|limit' % f.key[:160], f.loc(), '%s::solve without a generation limit does not use the configured one' % short(f.cls), func=f.key); break
        skipped |= A.skipped
    cx.anchor(n > 4, 'solve overloads')
    from rules.c19 import reaching_down
    flds = {R.fitfn, R.maxgen, bfield}
    for k in sorted(reaching_down(P, [P.funcs[x] for x in skipped])):
        f = P.funcs[k]
        if f.cls not in own or f.get('ctor') or f.get('dtor'): continue
        for e, x in enumerate(f.E):
            if x and x['k'] == 'field' and x['name'] in flds and f.E[x['b']]['k'] == 'this' and any(f.E[q]['k'] == 'assign' and f.E[q].get('a') == e or f.E[q]['k'] == 'call' and f.E[q].get('obj') == e and not f.E[q].get('cm') for q in f.parents().get(e, [])):
                cx.violation('run|rewritten|%s|%s' % (f.name, x['name']), f.loc(e), '%s replaces what was passed to solve() during the run' % f.name, func=f.key)
