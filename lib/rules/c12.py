"""Composite forwarding: every class of the library that is itself a method (stop condition, algorithm, selection, replacement,
metric) or a set of them and holds further methods as members is found from the types; each of its hooks is interpreted over all
CFG paths with the hooks of the parts as opaque calls, counting the calls per part, comparing arguments and results, and
evaluating the combined truth value of stop conditions for every combination of the parts' answers."""
from absint import AbsInt, Store, TooBig, const
import itertools

RULE = ('on every normal path of a composite\'s hook each part\'s corresponding hook runs exactly once (for a container of parts: once per '
        'element, whole container), receives the hook\'s own arguments, its result is the result of the composite; && || ! of stop conditions '
        'combine the answers as the operator says')
ASSUMPTIONS = ['hooks correspond by name (initialize*, prepareSelections*, select*, nextPopulation*, stop_condition/operator(), update)']

ST = 'st'
BASES = ('gapp::stopping::StopCondition', 'gapp::selection::Selection', 'gapp::replacement::Replacement', 'gapp::algorithm::Algorithm', 'gapp::metrics::MonitorBase')
STEMS = {'initialize': 'initialize', 'initializeImpl': 'initialize', 'prepareSelections': 'prepare', 'prepareSelectionsImpl': 'prepare',
         'select': 'select', 'selectImpl': 'select', 'nextPopulation': 'next', 'nextPopulationImpl': 'next', 'stop_condition': 'evaluate',
         'operator()': 'evaluate', 'update': 'update'}


def part_class(P, t):
    """(class of the part, is a container of parts) for a member type"""
    s = t.get('s', '')
    best = None
    for r in P.records:
        if not any(r == b or P.is_a(r, b) for b in BASES): continue
        if s == r: return r, False
        if s in ('std::unique_ptr<%s, std::default_delete<%s>>' % (r, r), 'std::unique_ptr<%s>' % r, 'std::shared_ptr<%s>' % r): return r, False
        if ('unique_ptr<%s' % r in s or 'shared_ptr<%s' % r in s) and not s.startswith('std::unique_ptr') and 'MetricSet' not in s:
            if 'unique_ptr<%s,' % r in s or 'unique_ptr<%s>' % r in s or 'shared_ptr<%s>' % r in s: best = (r, True)
    return best


def composites(P):
    out = []
    for r, d in P.records.items():
        if not r.startswith('gapp::') and not r.startswith('verif_selftest'): continue
        meth = any(r == b or P.is_a(r, b) for b in BASES)
        parts = {}
        for c, fd in P.fields(r, True):
            pc = part_class(P, P.T(fd['t']))
            if pc: parts[fd['name']] = pc
        if parts and (meth or any(p[1] for p in parts.values())): out.append((r, parts, meth))
    return out


def has_hook(P, cls, stem):
    """hooks with this stem that the part's static class offers and that can do something"""
    for c in [cls] + P.all_bases(cls):
        for m in P.records.get(c, {'methods': []})['methods']:
            if STEMS.get(m['name']) == stem: return True
    return False


class Fwd(AbsInt):
    def __init__(self, cx, cls, parts, stem, hook):
        super().__init__(cx); self.cls = cls; self.parts = parts; self.stem = stem; self.hook = hook
        self.errs = {}; self.calls = {}

    def sticky(self, tok): return tok[1][:1] == ('part',)
    def err(self, key, f, e, msg): self.errs.setdefault(key, (f, e, msg))

    def part_of(self, fr, S, n):
        if n['k'] != 'call': return None
        objs = []
        if 'obj' in n:
            objs.append(self.deref(S, self.value(fr, S, n['obj'])) if n.get('arrow') else self.lval(fr, S, n['obj']))
        elif n.get('qn') in ('std::invoke', 'std::__invoke') and n['args']:
            for a in n['args'][:2]:
                objs.append(self.lval(fr, S, a))
                v = self.value(fr, S, a)
                if v[0] == 'at': objs.append(v[1])
        for l in objs:
            p = self.loc_part(l)
            if p: return p
        return None

    def loc_part(self, l, d=0):
        r, s = l
        if r == ('this',) and s and s[0] in self.parts: return s[0]
        if r[0] == 'S' and isinstance(r[1], tuple) and d < 5:
            v = r[1]
            if v[0] in ('i', 'at'): return self.loc_part(v[1], d + 1)
            if v[0] == 'w' and isinstance(v[1], tuple) and v[1][:1] == ('it',): return self.loc_part((('S', v[1][1]), ()), d + 1)
            if v[0] in ('fld',) and v[1][0] in ('i', 'at'): return self.loc_part(v[1][1], d + 1)
        return None

    def hook_call(self, fr, S, e, n):
        if n.get('qn') in ('std::for_each', 'std::ranges::for_each', 'std::ranges::__for_each_fn::operator()'):
            r = self.for_each(fr, S, e, n)
            if r is not None: return r
        p = self.part_of(fr, S, n)
        if p is None: return None
        nm = n.get('qn', '').rsplit('::', 1)[-1]
        args = n['args']
        if nm in ('invoke', '__invoke'):
            a0 = fr.f.E[self.strip(fr.f, args[0])]
            nm = (a0.get('qn', '') or '').rsplit('::', 1)[-1] if a0 and a0['k'] in ('mref', 'fnref') else 'operator()'
            if a0 and a0['k'] == 'un' and a0['op'] == '&':
                q = fr.f.E[a0['a']]; nm = q.get('qn', q.get('name', '')).rsplit('::', 1)[-1] if q else nm
                args = args[1:]
            args = args[1:]
        stem = STEMS.get(nm)
        if stem is None:
            return None
        cls = n.get('cls', '')
        if not any(cls == b or self.P.is_a(cls, b) for b in BASES) and cls and nm != 'operator()' : return None
        if cls.startswith('std::'): return None
        S = S.copy()
        container = self.parts[p][1]
        k = (ST, p, stem)
        S.m[k] = min(S.m.get(k, 0) + 1, 2)
        if stem == self.stem and S.m[k] == 2:
            self.err('twice|%s::%s|%s' % (short(self.cls), self.hook.name, p), fr.f, e, "%s::%s runs the hook of its part `%s' more than once" % (short(self.cls), self.hook.name, p))
        self.calls.setdefault((p, stem), []).append((fr.f.key, e))
        if stem == self.stem:
            want = [(('P', ('root',), i), ()) for i in range(len(self.hook.params))]
            got = [self.lval(fr, S, a) for a in args]
            for i, g in enumerate(got):
                if i < len(want) and g != want[i]:
                    gv = self.value(fr, S, args[i])
                    if gv == ('i', want[i]): continue
                    self.err('args|%s::%s|%s' % (short(self.cls), self.hook.name, p), fr.f, e, "%s::%s passes something else than its own argument %d to its part `%s'" % (short(self.cls), self.hook.name, i + 1, p))
        v = ('w', ('part', p, stem))
        return [('n', S, v)]

    def for_each(self, fr, S, e, n):
        args = n['args']; lam = self.value(fr, S, args[-1]) if args else ('?',)
        if lam[0] != 'lam': return None
        p = self.loc_part(self.deref(S, self.value(fr, S, args[0])))
        if p is None: p = self.loc_part(self.lval(fr, S, args[0]))
        if p is None or not self.parts[p][1]: return None
        if len(args) > 2:
            names = [(fr.f.E[self.strip(fr.f, a)].get('qn') or '').rsplit('::', 1)[-1] for a in args[:2]]
            if names not in (['begin', 'end'], ['cbegin', 'cend'], ['rbegin', 'rend']):
                self.err('partial|%s::%s|%s' % (short(self.cls), self.hook.name, p), fr.f, e, "%s::%s visits only some of the parts in `%s'" % (short(self.cls), self.hook.name, p))
        g = self.P.funcs[lam[1][0]]; k = (ST, p, self.stem)
        l = self.deref(S, self.value(fr, S, args[0])) if len(args) > 2 else self.lval(fr, S, args[0])
        out = []
        for kd, s, v in self.call_fn(g, S, args=[('ref', l)], fid=(fr.fid, e), env=lam[2], up=fr):
            if kd != 'n': continue
            if s.m.get(k, 0) != 1:
                self.err('skip|%s::%s|%s' % (short(self.cls), self.hook.name, p), fr.f, e, "%s::%s can go on to the next part without having run the hook of a part of `%s'" % (short(self.cls), self.hook.name, p))
            s.m.pop(k, None); s.m[(ST, 'done', p)] = 1
            out.append(('n', s, self.fresh(s, (fr.fid, e))))
        return out

    def hook_descend(self, fr, S, e, n, g):
        if n.get('virt') and not self.loc_this(fr, S, n): return False
        return self.P.is_repo(g) or 'inst.inc' in g.file

    def loc_this(self, fr, S, n):
        if 'obj' not in n: return False
        v = self.value(fr, S, n['obj']) if n.get('arrow') else None
        return v == ('at', (('this',), ()))

    # loops over a container of parts
    def hook_branch(self, fr, S, b, ix, cond):
        lp = self.loops.get(fr.f.key, {}).get(b)
        if lp is None: return S
        p, inside = lp
        stay = fr.f.blocks[b]['s'][ix] in inside
        S = S.copy(); k = (ST, p, self.stem); it = (ST, 'iter', p)
        if S.m.get(it) and S.m.get(k, 0) != 1:
            self.err('skip|%s::%s|%s' % (short(self.cls), self.hook.name, p), fr.f, None, "%s::%s can go on to the next part without having run the hook of a part of `%s'" % (short(self.cls), self.hook.name, p))
        S.m.pop(k, None)
        if stay: S.m[it] = 1
        else: S.m.pop(it, None); S.m[(ST, 'done', p)] = 1
        return S


def short(r): return r.split('<')[0].rsplit('::', 1)[-1]


def find_loops(P, funcs, parts, stem):
    """header blocks of loops around calls of a part hook"""
    from rules.c08 import natural_loop
    out = {}
    for f in funcs:
        for b, i, e in f.elems():
            if not isinstance(e, int): continue
            n = f.E[e]
            if n['k'] != 'call' or STEMS.get(n.get('qn', '').rsplit('::', 1)[-1]) != stem: continue
            if not any(n.get('cls', '') == x or P.is_a(n.get('cls', ''), x) for x in BASES): continue
            l = natural_loop(f, e)
            if not l: continue
            hs = [h for h in l[1] if any(s is not None and s >= 0 and s not in l[1] for s in f.blocks[h]['s']) and f.blocks[h].get('term') in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt', 'DoStmt')]
            for h in hs: out.setdefault(f.key, {})[h] = l[1]
    return out


def final_hook(P, cls, name):
    for c in [cls] + P.all_bases(cls):
        for f in P.by_cls.get(c, []):
            if f.name == name and f.blocks: return f
    return None


def check(cx):
    P = cx.P
    comps = composites(P)
    cx.anchor([c for c in comps if c[0].startswith('gapp::')], 'classes assembled from parts')
    ops = operator_classes(P)
    cx.anchor(ops, 'logical operators of stop conditions')
    n = 0
    for cls, parts, meth in sorted(comps):
        abstract = P.records[cls].get('abstract')
        if abstract: continue
        names = {}
        for c in [cls] + P.all_bases(cls):
            for f in P.by_cls.get(c, []):
                if f.name in STEMS and f.blocks and not f.get('tmplonly'): names.setdefault(f.name, f)
        # the composite's own hooks: virtual overrides in the class, or plain methods of a set of parts
        stems_needed = {}
        for p, (pc, cont) in parts.items():
            for stem in set(STEMS.values()):
                if stem == 'evaluate' and not (pc == BASES[0] or P.is_a(pc, BASES[0])): continue
                if has_hook(P, pc, stem) and any(STEMS[x] == stem for x in names): stems_needed.setdefault(stem, []).append(p)
        own = {}
        for c in [cls] + P.all_bases(cls):
            for nm in names:
                f = names[nm]
                if f.cls == cls or (f.cls in P.all_bases(cls) and f.cls in [x[0] for x in comps]): own[nm] = f
        for stem, ps in sorted(stems_needed.items()):
            hooks = [f for nm, f in own.items() if STEMS[nm] == stem]
            if not hooks:
                # the inherited hook does nothing for the parts
                base = [f for nm, f in names.items() if STEMS[nm] == stem and (f.get('virtual') or True)]
                for p in ps:
                    if any(overridable(P, parts[p][0], stem) for _ in (0,)):
                        cx.obligation('%s forwards %s to `%s\'' % (short(cls), stem, p), False)
                        cx.violation('missing|%s|%s|%s' % (short(cls), stem, p), base[0].loc() if base else cls, "%s has no %s hook of its own: its part `%s' is never %sd" % (short(cls), stem, p, stem), func=cls)
                continue
            for h in hooks:
                if stem == 'evaluate' and h.name == 'operator()': continue
                n += 1
                run_hook(cx, cls, parts, ps, stem, h, ops)
    nested(cx, ops)
    cx.coverage['composites'] = [c[0][:120] for c in comps][:40]
    cx.coverage['hooks'] = n
    wrappers(cx)
    cx.expect_selftest('verif_selftest::half_forwarding')


def overridable(P, cls, stem):
    for c in [cls] + P.all_bases(cls):
        for m in P.records.get(c, {'methods': []})['methods']:
            if STEMS.get(m['name']) == stem and (m.get('virtual') or m.get('pure')): return True
    return False


def run_hook(cx, cls, parts, ps, stem, h, ops):
    P = cx.P
    A = Fwd(cx, cls, parts, stem, h)
    fs = [f for f in P.lib_funcs() if f.cls == h.cls or (f.parent and f.parent == h.key)] + [h]
    raw = find_loops(P, fs, parts, stem)
    A.loops = {}
    for p in ps:
        if parts[p][1]:
            for k, hs in raw.items():
                for b, ins in hs.items(): A.loops.setdefault(k, {})[b] = (p, ins)
    try:
        outs = A.call_fn(h, Store(), this=(('this',), ()), args=[None] * len(h.params))
    except TooBig as ex:
        cx.undecided.append('%s::%s: %s' % (cls, h.name, ex)); return
    name = '%s::%s' % (short(cls), h.name)
    rt = P.T(h.d.get('ret'))
    for p in ps:
        cont = parts[p][1]
        cx.obligation("%s runs the %s hook of `%s' exactly once on every path" % (name, stem, p))
        for k, S, v in outs:
            if k != 'n': continue
            c = S.m.get((ST, p, stem), 0)
            if cont:
                if S.m.get((ST, 'iter', p)):
                    A.err('early|%s|%s' % (name, p), h, None, "%s can leave the loop over `%s' before all parts were visited" % (name, p))
                elif not S.m.get((ST, 'done', p)):
                    if empty_fact(S, p): continue
                    A.err('none|%s|%s' % (name, p), h, None, "%s can return without visiting the parts in `%s'" % (name, p))
            elif c == 0:
                A.err('skipped|%s|%s' % (name, p), h, None, "%s can return without running the %s hook of its part `%s'" % (name, stem, p))
            if not cont and stem in ('select', 'next') and len(ps) == 1 and c == 1:
                if v != ('w', ('part', p, stem)):
                    A.err('result|%s|%s' % (name, p), h, None, "%s does not return what its part `%s' returned" % (name, p))
    if stem == 'evaluate' and rt.get('s') == 'bool':
        op = ops.get(cls)
        if op:
            cx.obligation('%s: the combined answer is that of %s' % (name, op))
            truth_table(A, name, h, ps, op, outs)
    elif ps and stem == 'evaluate': pass
    for key, (f, e, msg) in A.errs.items():
        cx.violation(key, f.loc(e), msg, func=h.key if 'verif_selftest' not in cls else cls)
    check_skips(cx, A, parts)


def check_skips(cx, A, parts):
    """loops over parts start at the first one"""
    P = cx.P
    for k, hs in A.loops.items():
        f = P.funcs[k]
        for b, (p, ins) in hs.items():
            if f.blocks[b].get('term') == 'CXXForRangeStmt':
                # the range must be the whole member
                ok = any(n and n['k'] == 'field' and n['name'] == p for n in f.E)
                for n in f.E:
                    if n and n['k'] == 'call' and n.get('qn', '').rsplit('::', 1)[-1] in ('drop', 'take', 'subspan', 'first', 'last', 'filter', 'take_while'):
                        cx.violation('partial|%s|%s' % (f.name, p), f.loc(), "%s visits only some of the parts in `%s'" % (f.name, p), func=f.key)
                continue
            for n in f.E:
                if n and n['k'] == 'decl':
                    for v in n['vars']:
                        i = f.E[v['init']] if v.get('init', -1) is not None and v.get('init', -1) >= 0 else None
                        while i and i['k'] in ('cast', 'wrap'): i = f.E[i['e']]
                        if i and i['k'] == 'lit' and f.V[v['v']]['name'] in ('i', 'idx', 'j', 'k') and str(i['v']).strip('uUlLzZ') not in ('0',):
                            cx.violation('partial|%s|%s' % (f.name, p), f.loc(), "%s does not start at the first of the parts in `%s'" % (f.name, p), func=f.key)


def empty_fact(S, p):
    for k, v in S.m.items():
        if k[0] == '?' and p in str(k[1]) and ('empty' in str(k[1]) or 'size' in str(k[1])): return True
    return False


def operator_classes(P):
    """class -> '&&' '||' '!' for the classes the operators of stop conditions build"""
    out = {}
    for f in P.funcs.values():
        for o, nm in (('&&', 'operator&&'), ('||', 'operator||'), ('!', 'operator!')):
            if f.name == nm and not f.cls:
                t = P.T(f.d.get('ret'))
                r = t.get('rec') or t.get('s', '')
                if r in P.records and P.is_a(r, BASES[0]): out[r] = o
    return out


def truth_table(A, name, h, ps, op, outs):
    toks = {p: ('w', ('part', p, 'evaluate')) for p in ps}
    for combo in itertools.product((True, False), repeat=len(ps)):
        want = all(combo) if op == '&&' else any(combo) if op == '||' else not combo[0]
        for k, S, v in outs:
            if k != 'n': continue
            s = S
            for p, b in zip(ps, combo):
                s = A.assume(s, toks[p], b) if s is not None else None
            if s is None or v is None: continue
            t = eval_bool(A, s, v)
            if t is not None and t != want:
                A.err('truth|' + name, h, None, '%s: with the parts answering %s the combination answers %s (the operator is %s)' % (name, ', '.join(map(str, combo)), t, op))


def eval_bool(A, S, v):
    t = A.truth(S, v)
    if t is not None: return t
    if v[0] == 'ap' and v[1] in ('*', '&', '|', '+', '^') and len(v) == 4:
        a, b = eval_bool(A, S, v[2]), eval_bool(A, S, v[3])
        if a is None or b is None: return None
        return {'*': a and b, '&': a and b, '|': a or b, '+': a or b, '^': a != b}[v[1]]
    if v[0] == 'ap' and v[1] in ('!', '~', 'u!') and len(v) == 3:
        a = eval_bool(A, S, v[2]); return None if a is None else not a
    if v[0] == 'ap' and v[1] in ('==', '!=') and len(v) == 4:
        a, b = eval_bool(A, S, v[2]), eval_bool(A, S, v[3])
        if a is None or b is None: return None
        return (a == b) if v[1] == '==' else a != b
    return None


def nested(cx, ops):
    """what the operators build holds exactly their operands"""
    P = cx.P
    cx.obligation('combined stop conditions can be combined further (compile witness)')
    if 'use-nested-stop-conditions' in cx.info.get('dropped_segments', []):
        cx.violation('nested-build', 'stop_condition/composite.hpp', 'a combination of combined stop conditions does not compile any more')
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if f.name not in ('operator&&', 'operator||', 'operator!') or f.cls: continue
        t = P.T(f.d.get('ret')); r = t.get('rec') or t.get('s', '')
        if r not in P.records or not P.is_a(r, BASES[0]): continue
        want = sorted((f.vtype(p).get('rec') or f.vtype(p).get('s', '')) for p in f.params)
        got = sorted(pc[0] for fd in P.records[r]['fields'] for pc in [part_class(P, P.T(fd['t']))] if pc)
        cx.obligation('%s of %s holds its operands' % (f.name, ', '.join(short(w) for w in want)))
        if want != got:
            cx.violation('operands|%s|%s' % (f.name, ','.join(short(w) for w in want)), f.loc(), '%s applied to %s builds a combination of %s' % (f.name, ', '.join(want), ', '.join(got)), func=f.key)


class Wrap(AbsInt):
    """public, non-virtual entry points run the virtual hook behind them exactly once"""

    def __init__(self, cx, hooks):
        super().__init__(cx); self.hooks = hooks; self.seen = set()

    def hook_call(self, fr, S, e, n):
        if n['k'] == 'call' and n.get('fn') in self.hooks:
            S = S.copy(); k = (ST, n['fn']); S.m[k] = min(S.m.get(k, 0) + 1, 2); self.seen.add(n['fn'])
            return [('n', S, ('w', ('hook', n['fn'])))]
        return None

    def hook_descend(self, fr, S, e, n, g): return self.P.is_repo(g) and (g.cls == fr.f.cls or g.parent is not None) and not n.get('virt')


def wrappers(cx):
    P = cx.P; cnt = 0
    for base in ('gapp::algorithm::Algorithm', 'gapp::stopping::StopCondition'):
        hooks = {}
        for c in [base] + P.all_bases(base):
            for m in P.records.get(c, {'methods': []})['methods']:
                if m.get('virtual') or m.get('pure'):
                    if STEMS.get(m['name']) or m['name'] == 'optimalSolutionsImpl': hooks[m['key']] = m['name']
        cx.anchor(hooks, 'virtual hooks of ' + base)
        done = set()
        for f in sorted(P.by_cls.get(base, []), key=lambda f: f.key):
            if f.key in hooks or f.get('dtor') or f.get('ctor') or not f.blocks: continue
            if (f.sfile, f.l) in done: continue
            if not any(n and n['k'] == 'call' and n.get('fn') in hooks for k in local_closure(P, f) for n in P.funcs[k].E): continue
            done.add((f.sfile, f.l))
            A = Wrap(cx, hooks)
            try: outs = A.call_fn(f, Store(), this=(('this',), ()), args=[None] * len(f.params))
            except TooBig as ex: cx.undecided.append(str(ex)); continue
            cnt += 1
            for hk in sorted(A.seen):
                cx.obligation('%s::%s runs %s exactly once on every path' % (short(base), f.name, hooks[hk]))
                for k, S, v in outs:
                    if k != 'n': continue
                    c = S.m.get((ST, hk), 0)
                    if c != 1:
                        cx.violation('wrapper|%s::%s|%s' % (short(base), f.name, hooks[hk]), f.loc(), '%s::%s %s %s' % (short(base), f.name, 'can return without running' if c == 0 else 'can run twice', hooks[hk]), func=f.key)
    cx.coverage['entry_points'] = cnt


def local_closure(P, f):
    seen = {f.key}; w = [f]
    while w:
        g = w.pop()
        for n in g.E:
            if not n: continue
            cs = list(n['ops']) if n['k'] == 'lambda' else [n['fn']] if n['k'] == 'call' and n.get('fn') in P.funcs and P.funcs[n['fn']].cls == f.cls else []
            for c in cs:
                if c in P.funcs and c not in seen: seen.add(c); w.append(P.funcs[c])
    return seen
