"""Per-solution data belongs to its solution: (a) typestate over the run: after every write to the population the fitness matrix is recomputed from it
before anything outside can look, selection weights are prepared from the current matrix before the first selection; (b) index-space inference over the
algorithms: every per-solution array of an algorithm is, at the end of next-population selection, ordered like the returned solutions (and like the
population after initialization), and never read or written under another solution's index."""
import re
from align import Align, State, OLD, CAND, root
from roles import Roles

RULE = 'the arrays an algorithm keeps per solution are indexed like the population they describe; the fitness matrix is recomputed after every population change'
ASSUMPTIONS = ['the index field of a sorted front element is the row of the candidate in the matrix that was sorted', 'loops over solutions run at least once (the population is never empty)']


def records(cx):
    P = cx.P
    out = [c for c in sorted(P.records) if P.is_a(c, 'gapp::algorithm::Algorithm') or P.is_a(c, 'gapp::replacement::Replacement')]
    return out + [c for c in sorted(P.records) if c.startswith('verif_selftest::') and any(f.name == 'nextPopulationImpl' for f in P.by_cls.get(c, []))]


def method(P, c, name):
    for f in P.by_cls.get(c, []):
        if f.name == name and f.blocks: return f
    return None


def elem_fields(P, s):
    m = re.match(r'(?:const )?(?:std::vector|gapp::small_vector)<(.*?)(?:, .*)?>$', s)
    return [fd['name'] for c, fd in P.fields(m.group(1))] if m and m.group(1) in P.records else []


def reads(cx, f, this, seen, out, al):
    """array terms rooted in the object that a function (and its helpers) read"""
    from align import Frame
    P = cx.P
    if f.key in seen: return
    seen.add(f.key)
    fr = Frame(f, (), {}, this)
    S = State()
    for i, n in enumerate(f.E):
        if not n: continue
        if n['k'] == 'field':
            t = al.term(fr, S, i)
            s = (f.type(n).get('rec') or f.type(n).get('s', ''))
            r = t
            while r[0] == 'f': r = r[1]
            if r == ('this',) and s.replace('const ', '').startswith(('std::vector', 'gapp::small_vector')): out.add(t); al.fields_of[t] = elem_fields(P, s)
        if n['k'] == 'call' and isinstance(n.get('obj'), int) and not n.get('virt'):
            for g in P.callees(f, n):
                if g.blocks and g.qn.startswith('gapp::algorithm') or 'verif_selftest' in g.key:
                    reads(cx, g, al.term(fr, S, n['obj']), seen, out, al)
        if n['k'] == 'lambda':
            for o in n['ops']:
                if o in P.funcs: reads(cx, P.funcs[o], this, seen, out, al)


def terms_of_calls(f, al, fr, S, pred):
    return [(e, f.E[e], al.term(fr, S, e)) for b, i, e in f.elems() if isinstance(e, int) and f.E[e]['k'] == 'call' and pred(f.E[e])]


def reach(f, a):
    """elements that may run after element a"""
    pos = {}
    for b, i, e in f.elems():
        if isinstance(e, int): pos[e] = (b, i)
    if a not in pos: return set()
    b0, i0 = pos[a]; seen = set(); st = [x for x in f.blocks[b0]['s'] if x >= 0]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += [y for y in f.blocks[x]['s'] if y >= 0]
    return {e for e, (b, i) in pos.items() if b in seen or (b == b0 and i > i0)}


def arg_of(f, n, pred):
    for x in n.get('args', []):
        if pred(f.type(x).get('rec') or f.type(x).get('s', '')): return x
    return None


is_mat = lambda s: 'Matrix<' in s
is_pop = lambda s: 'vector<gapp::Candidate<' in s


def resolve(f, al, fr, S, t, d=0):
    """follows variables to the call that initialised them"""
    while t[0] == 'v' and d < 6:
        di = f.decl_init().get(t[2])
        if not di or di[0] is None or al.assigned(f, t[2]): return t
        u = al.term(fr, S, di[0])
        if u[0] in ('call', 'v'): t = u; d += 1
        else: return t
    return t


def provenance(cx, al):
    """the matrix and the population an index refers to are the same list of solutions"""
    from align import Frame
    P = cx.P; n = 0
    A = 'gapp::algorithm::Algorithm'
    for f in P.by_cls.get(A, []):
        if not f.blocks or f.name not in ('select', 'nextPopulation', 'optimalSolutions'): continue
        fr = Frame(f, (), {}, ('this',)); S = State(); n += 1
        pops = [('v', (), p, f.V[p]['name']) for p in f.params if is_pop(f.vtype(p).get('rec') or f.vtype(p).get('s', ''))]
        mats = [('v', (), p, f.V[p]['name']) for p in f.params if is_mat(f.vtype(p).get('rec') or f.vtype(p).get('s', ''))]
        impl = terms_of_calls(f, al, fr, S, lambda m: m.get('qn', '').endswith('::' + f.name + 'Impl'))
        if len(impl) != 1: cx.undecided.append('%s: no direct call of its implementation' % f.key[:80]); continue
        ie, inode, it = impl[0]
        def bad(e, kind, msg): cx.violation('%s|%s' % (kind, f.key), f.loc(e), '%s: %s' % (f.name, msg), func=f.key)
        M = arg_of(f, inode, is_mat); X = None; me = None
        if f.name == 'select':
            ok = M is not None and al.term(fr, S, M) in mats
            cx.obligation('the matrix given to selectImpl is the one of the population', ok)
            if not ok: bad(ie, 'matrix', 'the index is chosen from another matrix than the one that belongs to the population')
            X = pops[0]
        elif f.name == 'nextPopulation':
            t = resolve(f, al, fr, S, al.term(fr, S, M))
            if t[0] == 'call' and t[1].endswith('toFitnessMatrix'): X = t[4]; me = t[3]
            else: cx.undecided.append('%s: matrix of unknown origin' % f.key[:60]); continue
            # the candidates: the parents, then the children
            order = contents(f, al, fr, S, X, pops, me)
            want = pops[:2]
            ok = order == want
            if not order: cx.undecided.append('%s: candidates of unknown order' % f.key[:60])
            else:
                cx.obligation('the rows of the combined matrix are the parents, then the children', ok)
                if not ok: bad(me, 'rows', 'the combined candidates are not the parents followed by the children')
        else: X = pops[0]
        # the indices are applied to X
        idx_ok = lambda t: resolve(f, al, fr, S, t) == it
        rets = [e for b, i, e in f.elems() if isinstance(e, int) and f.E[e]['k'] == 'ret']
        uses = []
        for b, i, e in f.elems():
            if not isinstance(e, int) or f.E[e]['k'] != 'call' or f.E[e].get('mac') == 'GAPP_ASSERT': continue
            m = f.E[e]; nm = m.get('qn', '')
            if nm.endswith('detail::select'): uses.append((e, al.term(fr, S, m['args'][0]), al.term(fr, S, m['args'][1])))
            elif nm.rsplit('::', 1)[-1] in ('operator[]', 'at') and isinstance(m.get('obj'), int) and is_pop(f.type(m['obj']).get('rec') or f.type(m['obj']).get('s', '')): uses.append((e, al.term(fr, S, m['obj']), al.term(fr, S, m['args'][0])))
            elif nm.endswith('findParetoFront'): uses.append((e, al.term(fr, S, m['args'][0]), it))
        if not uses: cx.undecided.append('%s: the use of the chosen indices was not recognised' % f.key[:60])
        for e, c, t in uses:
            if c[0] == 'call' and c[1] == 'std::move': c = c[4]
            ok = c == X
            cx.obligation('%s: chosen indices are applied to the population they were chosen from' % f.name, ok)
            if not ok: bad(e, 'population', 'the chosen indices are applied to %s, but they were chosen from %s' % (al.show(c), al.show(X)))
            ok = idx_ok(t)
            if t[0] in ('v', 'call') and not ok and resolve(f, al, fr, S, t)[0] == 'v': cx.undecided.append('%s: index of unknown origin' % f.name); continue
            cx.obligation('%s: the index used is the one that was chosen' % f.name, ok)
            if not ok: bad(e, 'index', 'the candidate is not taken by the chosen index')
        # nothing moves in between
        start = me if me is not None else ie
        after = reach(f, start)
        use = {e for e, _, _ in uses}
        before_use = {e for e in after if e not in use and any(u in reach(f, e) for u in use)}
        for e, src in appended(f, al, fr, S, X, all_writes=True):
            if e in before_use:
                cx.obligation('%s: the candidates keep their places while indices into them are held' % f.name, False)
                bad(e, 'moved', 'the candidates are rearranged between building their matrix and applying the chosen indices')
        cx.obligation('%s: the candidates keep their places while indices into them are held' % f.name)
    # helpers
    for f in P.funcs.values():
        if not f.blocks or not P.is_repo(f): continue
        if f.qn == 'gapp::detail::select' and len(f.params) == 2:
            n += 1; gather(cx, al, f, 'select', lambda t, c, i: t[0] == 'el' and t[1] == c and t[2][0] == 'el' and t[2][1] == i and t[2][2][0] in ('v', 'it'), 'element i of the selection is element indices[i] of the container')
        if f.qn == 'gapp::detail::toFitnessMatrix' and len(f.params) == 1:
            n += 1; gather(cx, al, f, 'matrix', lambda t, c, i: t[0] == 'f' and t[2] == 'fitness' and t[1][0] == 'el' and t[1][1] == c and t[1][2][0] in ('v', 'it'), 'row i of the matrix is the fitness of solution i')
    # the solver hands over its own population and matrix
    R = cx.roles
    for c in R.ga:
        for f in P.by_cls.get(c, []):
            for b, i, e in f.elems():
                if not isinstance(e, int) or f.E[e]['k'] != 'call': continue
                m = f.E[e]
                if m.get('cls') != A or m.get('qn', '').rsplit('::', 1)[-1] not in ('select', 'prepareSelections', 'nextPopulation', 'optimalSolutions'): continue
                n += 1; first = True
                for x in m['args']:
                    s = f.type(x).get('rec') or f.type(x).get('s', '')
                    want = R.fm if is_mat(s) else R.pop if is_pop(s) and first else None
                    if is_pop(s): first = False
                    if want is None: continue
                    ps = {s2[0] for r, s2 in set(cx.paths.path(f, x)) | set(cx.paths.pointee(f, x)) if r[0] in ('this', 'othis') and s2 and s2[0] not in ('*', '[]', '&')}
                    ok = not ps or want in ps
                    cx.obligation('%s gets the current %s of the solver' % (m['qn'].rsplit('::', 1)[-1], 'fitness matrix' if want == R.fm else 'population'), ok)
                    if not ok: cx.violation('arg|%s|%s' % (f.key, want), f.loc(e), '%s is not given the current %s' % (m['qn'], want), func=f.key)
    cx.anchor(n >= 8, 'population hand-over functions')
    return n


def gather(cx, al, f, what, good, text):
    from align import Frame
    fr = Frame(f, (), {}, ('this',)); S = State()
    c = ('v', (), f.params[0], f.V[f.params[0]]['name']); ix = ('v', (), f.params[1], f.V[f.params[1]]['name']) if len(f.params) > 1 else None
    puts = []
    for b, i, e in f.elems():
        if not isinstance(e, int) or f.E[e]['k'] != 'call': continue
        m = f.E[e]; nm = m.get('qn', '').rsplit('::', 1)[-1]
        if nm in ('push_back', 'emplace_back', 'append_row') and m.get('args'): puts.append((e, al.term(fr, S, m['args'][0])))
    def strip(t):
        while t[0] == 'call' and len(t) == 5 and t[1].rsplit('::', 1)[-1] in ('forward_like', 'move', 'forward'): t = t[4]
        return t
    if not puts: cx.undecided.append('%s: elements are not appended one by one' % f.key[:60]); return
    for e, t in puts:
        t = strip(t)
        ok = good(t, c, ix) and al.unconditional(f, e) and len(puts) == 1
        cx.obligation(text, ok)
        if not ok: cx.violation('%s|%s' % (what, f.key), f.loc(e), '%s: not every element is the one its position stands for (%s)' % (f.name, al.show(t)), func=f.key)


def contents(f, al, fr, S, X, pops, before):
    """the argument populations whose elements the list X consists of when `before` is reached, in order; None: not known"""
    C = {p: [p] for p in pops}
    def whole(x):
        t = al.term(fr, S, x)
        while t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('move', 'forward', 'exchange') and len(t) > 4: t = t[4]
        return t
    upto = reach_back(f, before)
    for e in sorted(upto, key=lambda x: -len(reach(f, x))):   # an operation that can run before another one comes first
        if f.E[e]['k'] == 'decl':
            for d in f.E[e]['vars']:
                init = d.get('init'); v = d['v']
                if init is None or init < 0: continue
                t = whole(init)
                me = ('v', (), v, f.V[v]['name'])
                if t in C and t != me: C[me] = list(C[t] or []) if C[t] is not None else None
            continue
        if f.E[e]['k'] != 'call': continue
        m = f.E[e]; nm = m.get('qn', '').rsplit('::', 1)[-1]
        if nm == 'swap' and isinstance(m.get('obj'), int) and m.get('args'):
            o = al.term(fr, S, m['obj']); t = whole(m['args'][-1])
            if o in C or t in C: C[o], C[t] = C.get(t), C.get(o)
            continue
        if nm == 'operator=' and isinstance(m.get('obj'), int) and m.get('args'):
            o = al.term(fr, S, m['obj']); t = whole(m['args'][-1])
            if o != t and (o in C or t in C): C[o] = C.get(t)
            continue
        for Y in dict.fromkeys(list(C) + [X]):
            for e2, src in appended(f, al, fr, S, Y, only=e):
                if isinstance(src, tuple) and src and src[0] == 'front': C[Y] = None
                elif src in C and C[src] is not None: C[Y] = (C.get(Y, []) or []) + C[src] if C.get(Y, []) is not None else None
                elif nm not in ('reserve',): C[Y] = None
    return C.get(X)


def reach_back(f, e):
    return {x for b, i, x in f.elems() if isinstance(x, int) and e in reach(f, x)}


def appended(f, al, fr, S, X, all_writes=False, only=None):
    """[(element, source container)] of the operations that change the candidate list X, in order"""
    out = []
    for b, i, e in f.elems():
        if not isinstance(e, int) or f.E[e]['k'] != 'call': continue
        if only is not None and e != only: continue
        m = f.E[e]; nm = m.get('qn', '').rsplit('::', 1)[-1]
        a = [al.term(fr, S, x) for x in m.get('args', []) if x >= 0]
        o = al.term(fr, S, m['obj']) if isinstance(m.get('obj'), int) else None
        src = next((t[1] for t in a if t[0] == 'iter' and t[1] != X), None)
        if o == X and nm in ('push_back', 'emplace_back', 'insert', 'append_range', 'insert_range', 'assign', 'erase', 'pop_back', 'clear', 'operator=', 'swap'):
            if nm == 'insert' and a and a[0][0] == 'iter' and a[0][2] != ('end',): src = ('front', src)
            if nm in ('push_back', 'emplace_back') and a:
                t = a[0]
                src = t[1] if t[0] == 'el' else src
            out.append((e, src))
        elif any(t[0] == 'call' and t[1].endswith(('back_inserter', 'front_inserter', '::inserter')) and t[4] == X for t in a): out.append((e, src))
        elif nm in ('sort', 'stable_sort', 'reverse', 'rotate', 'shuffle', 'partition', 'swap', 'iter_swap', 'nth_element', 'partial_sort', 'unique', 'remove_if') and any(root(t[1]) == X for t in a if t[0] == 'iter') : out.append((e, ('moved',)))
        elif nm in ('swap', 'exchange', 'toFitnessMatrix') and False: pass
    return out


def check(cx):
    P = cx.P
    classes = 0; arrays = 0; writes = 0
    for c in records(cx):
        nx = method(P, c, 'nextPopulationImpl')
        if not nx: continue
        classes += 1
        def report(f, e, kind, msg):
            cx.violation('%s|%s|%s' % (kind, nx.key.split('(')[0], f.key), f.loc(e), msg, func=f.key)
        al = Align(P, cx.paths, report); al.fields_of = {}
        use = set(); flds = {}
        for nm in ('selectImpl', 'optimalSolutionsImpl'):
            g = method(P, c, nm)
            if g: reads(cx, g, ('this',), set(), use, al)
        flds = al.fields_of
        S = State(arr={t: dict({'*': OLD}, **{x: OLD for x in flds.get(t, ())}) for t in use})
        outs = al.run(nx, S)
        writes += al.n
        short = c.rsplit('::', 1)[-1]
        touched = set()
        for q, rv in outs:
            if rv is None: continue
            R = None
            if rv in q.arr: R = q.arr[rv].get('*')
            for t in sorted(use, key=repr):
                for fld, st in sorted(q.arr[t].items()):
                    if fld == '*' and len(q.arr[t]) > 1 and st == OLD: continue
                    name = al.show(t) + ('' if fld == '*' else '.' + fld)
                    arrays += 1; touched.add(name)
                    ok = True; why = ''
                    if st == OLD: ok = False; why = 'keeps describing the previous population'
                    elif st == CAND: ok = False; why = 'is indexed by candidate, not by the position of the selected solution'
                    elif st is None or R is None:
                        cx.undecided.append('%s: %s %s' % (short, name, 'has no known order' if st is None else 'against a result of unknown order'))
                        if R is None and st is not None and st[0] == 'map' and st[1][0] == 'el' and st[1][1] == rv: pass
                        else: continue
                    elif st != R and not (st[0] == 'map' and st[1][0] == 'el' and st[1][1] == rv and st[1][2] == '#'):
                        ok = False; why = 'is ordered by %s, the returned solutions by %s' % (al.show(st[1]) if st[0] == 'map' else 'a later permutation', al.show(R[1]) if R[0] == 'map' else 'a later permutation')
                    cx.obligation('%s: after selecting the next population, %s is ordered like it' % (short, name), ok)
                    if not ok: cx.violation('order|%s|%s' % (nx.key.split('(')[0], name), nx.loc(), '%s::nextPopulationImpl: %s %s when the next population is returned' % (short, name, why), func=nx.key)
        init = method(P, c, 'initializeImpl')
        if init and use:
            S = State(arr={t: dict({'*': OLD}, **{x: OLD for x in flds.get(t, ())}) for t in use})
            for q, rv in al.run(init, S):
                for t in sorted(use, key=repr):
                    for fld, st in sorted(q.arr[t].items()):
                        if fld == '*' and len(q.arr[t]) > 1 and st == OLD: continue
                        name = al.show(t) + ('' if fld == '*' else '.' + fld)
                        ok = st in (CAND, None)
                        cx.obligation('%s: after initialization, %s is ordered like the population' % (short, name), ok)
                        if not ok: cx.violation('init|%s|%s' % (init.key.split('(')[0], name), init.loc(), '%s::initializeImpl: %s %s' % (short, name, 'is not set' if st == OLD else 'is ordered by the sorted fronts, not by the population'), func=init.key)
    cx.roles = Roles(cx); cx.expect_selftest('misplaced_data')
    hand = provenance(cx, Align(P, cx.paths, lambda *a: None))
    # what is remembered is about the current population whenever somebody looks
    from rules import c11
    A, _, runs = c11.protocol(cx)
    for (fk, eid, msg), v in A.errors.items():
        if 'fitness matrix' in msg or 'selections were prepared' in msg: cx.violation('stale:%s:%s' % (c11.strip_inst(v['func']), msg), v['loc'], '%s (in %s)' % (msg, v['func']), v['chain'], v['func'])
    cx.anchor(classes >= 3, 'next-population functions')
    cx.anchor(arrays, 'per-solution arrays')
    cx.coverage.update(classes=classes, arrays=arrays, element_writes=writes, handover_functions=hand)
