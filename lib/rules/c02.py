"""Run isolation. For every class taking part in a run (stop conditions, metrics, algorithms, selection and replacement
methods, operators) the fields its per-generation hooks may write are computed (interprocedural mod/ref effects); each
must be overwritten by the class's per-run initialisation on every path (must-kill dataflow), or by the hook that
precedes the readers, before its old value can be read. The same is decided for the fields of the GA object over
every solve overload, and for every function-local static / thread_local variable reachable from a run."""
from facts import AnalysisBroken
from roles import Roles, reaching
from killflow import KillFlow, norm
import effects as EFX

RULE = 'fields written during a run are overwritten before they are read in the next run (must-kill + upward-exposed reads); function-local statics are overwritten before use'
ASSUMPTIONS = ['an element-wise store loop over a freshly resized container covers all of its elements',
               'user supplied callables keep no state of their own']
BASES = ['gapp::stopping::StopCondition', 'gapp::algorithm::Algorithm', 'gapp::selection::Selection', 'gapp::replacement::Replacement',
         'gapp::metrics::MonitorBase', 'gapp::crossover::Crossover', 'gapp::mutation::Mutation', 'gapp::FitnessFunctionBase']
INIT = ('initialize', 'initializeImpl'); PREP = ('prepareSelections', 'prepareSelectionsImpl')
# process-wide infrastructure whose state is not part of a run's outcome (the generator state is, and the property names it)
INFRA = ('gapp::rng::', 'gapp::detail::rcu_domain', 'gapp::detail::execution_context', 'gapp::detail::thread_pool')


def hooks(P, cls):
    """name -> the function run for that virtual / hook method on an object of class cls"""
    out = {}
    for c in [cls] + P.all_bases(cls):
        r = P.records.get(c)
        if not r: continue
        for f in P.by_cls.get(c, []):
            if f.get('ctor') or f.get('dtor') or f.name.startswith('operator=') or f.get('static'): continue
            key = (f.name, tuple(P.T(f.V[v]['t'])['s'] for v in f.params if f.V[v].get('t', -1) >= 0))
            if key not in out: out[key] = f
    return out


def trunc(s):
    out = []
    for x in s:
        if x in ('[]', '#n') or x.startswith('?'): break
        out.append(x)
    return tuple(out)


def collapse(P, KF, cls, s):
    """path cut where it enters a container / library object: its internals are one piece of state"""
    out = []
    for i, x in enumerate(trunc(s)):
        out.append(x)
        rec = KF.field_rec_s(cls, tuple(out))
        if x not in ('*',) and rec and (KF.container_cls(rec) or '/utility/' in P.files[P.records[rec]['file']]): break
    return tuple(out)


def strip(k):
    import re
    return re.sub(r'\(.*$', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', k)))


def hooktype(P, t):
    """the type is (a pointer to / optional / unique_ptr of) a class with hooks of its own"""
    s = t.get('s', '')
    rec = t.get('rec') or ''
    if rec and any(P.is_a(rec, b) for b in BASES): return True
    return any((b + ' ' in s or b + '<' in s or b + ',' in s or b + '>' in s or b + ' *' in s or s.endswith(b)) and ('unique_ptr' in s or '*' in s or 'shared_ptr' in s or 'optional' in s) for b in BASES)


def field_type(P, cls, name):
    for c, fd in P.fields(cls, True):
        if fd['name'] == name: return P.T(fd['t'])
    return {}


def overlap(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def check(cx):
    P = cx.P; R = Roles(cx)
    KF = KillFlow(P, cx.paths, cx.effects)
    ncls = 0
    for base in BASES:
        subs = [c for c in P.subclasses(base) if c in P.records and not P.records[c].get('abstract')]
        if base in BASES[:5]: cx.anchor(subs, 'classes derived from ' + base)
        for c in subs:
            lib = '/src/' in P.files[P.records[c]['file']]
            if not lib and 'verif_selftest' not in c: continue
            P.ctx_cls = c
            hs = hooks(P, c)
            inits = [f for (n, k), f in hs.items() if n in INIT]
            preps = [f for (n, k), f in hs.items() if n in PREP]
            virt_names = set()
            for b in [c] + P.all_bases(c):
                for m in P.records.get(b, {'methods': []})['methods']:
                    if m.get('virtual'): virt_names.add(m['name'])
            wrappers = ('operator()', 'select', 'nextPopulation', 'optimalSolutions', 'update', 'stop_condition')
            run = [f for (n, k), f in hs.items() if n not in INIT and (n in virt_names or n in wrappers) and not n.startswith('~')]
            # private helpers reached from the hooks are part of their summaries
            W = {}
            for f in run:
                for a in cx.effects.summary(f):
                    if a.kind not in ('w', 'a') or a.path[0] != ('this',): continue
                    s = collapse(P, KF, c, norm(a.path[1]))
                    if not s: continue
                    if hooktype(P, field_type(P, c, s[0])): continue
                    W.setdefault(s, (f, a))
            if not W: 
                cx.obligation('no run state: ' + c); ncls += 1
                continue
            K = None; XI = {}
            for f in inits:
                k, x = KF.summary(f)
                K = k if K is None else K | k
                XI.update(x)
            K = K or frozenset()
            KP = frozenset()
            for f in preps: KP |= KF.summary(f)[0]
            ncls += 1
            WI = {}
            for f in inits:
                for a in cx.effects.summary(f):
                    if a.kind not in ('w', 'a') or a.path[0] != ('this',) or a.how in ('resize', 'reserve'): continue
                    s = collapse(P, KF, c, norm(a.path[1]))
                    if s and s not in W and not hooktype(P, field_type(P, c, s[0])): WI.setdefault(s, (f, a))
            for w, (wf, a) in sorted(W.items()) + sorted(WI.items()):
                bad = None
                for f in run if w in W else []:
                    k, X = KF.summary(f)
                    for (r, s), loc in sorted(X.items(), key=str):
                        if r != ('this',) or not s or not overlap(collapse(P, KF, c, s), w) or not trunc(s): continue
                        if KF.covered(K, (r, s)): continue
                        if f not in preps and preps and KF.covered(KP, (r, s)): continue
                        bad = (f, loc, s); break
                    if bad: break
                if not bad and inits:
                    for (r, s), loc in sorted(XI.items(), key=str):
                        t = collapse(P, KF, c, s)
                        if r == ('this',) and t and overlap(t, w) and len(t) >= len(w): bad = (inits[0], loc, s); break
                cx.obligation('run state of %s reset before use: %s' % (c, '.'.join(w)), not bad)
                if bad:
                    cx.violation('C02:%s:%s' % (strip(c), '.'.join(w)), bad[1], '%s keeps %s from the previous run: it is written during a run (%s) and its old value can be read (%s) before the per-run initialisation has overwritten it' % (strip(c).rsplit('::', 1)[-1], '.'.join(w), a.loc(), bad[0].name), [wf.key], c)
    P.ctx_cls = None
    cx.coverage['participant_classes'] = ncls
    # ---- the GA object itself
    flags = set()
    for c in R.ga + [R.info]:
        for fd in P.records[c]['fields']:
            if P.T(fd['t']).get('s') == 'bool': flags.add(fd['name'])
    solves = [f for f in R.solves()]
    written_flags = set()
    for f in solves:
        for a in cx.effects.summary(f):
            if a.kind == 'w' and a.path[0] == ('this',) and norm(a.path[1]) and norm(a.path[1])[0] in flags and len(norm(a.path[1])) == 1: written_flags.add(norm(a.path[1])[0])
    const_flags = sorted(flags - written_flags)
    combos = [{}]
    for x in const_flags: combos = [dict(c, **{x: v}) for c in combos for v in (True, False)]
    if len(combos) > 32: combos = combos[:32]
    names = set(fd['name'] for c in R.ga + [R.info] for fd in P.records[c]['fields'])
    seen = set()
    for combo in combos:
        KC = KillFlow(P, cx.paths, cx.effects, combo)
        for f in solves:
            if len(f.params) and any('unique_ptr' not in f.vtype(v).get('s', '') for v in f.params[:1]): continue   # delegating overloads
            W = {}
            feas = feasible_writes(cx, KC, f)
            for s, loc in feas.items(): W.setdefault(s[0], loc)
            k, X = KC.summary(f)
            restored = restored_fields(cx, f)
            for w in sorted(W):
                if w not in names: continue
                ft = field_type(P, f.cls, w)
                if hooktype(P, ft) or w == R.metrics:
                    # the pointer itself, not the object
                    rel = {p: l for p, l in X.items() if p[0] == ('this',) and p[1][:1] == (w,) and len(p[1]) == 1 and w in {s[0] for s in feas if len(s) == 1}}
                    if w == R.metrics: continue
                else: rel = {p: l for p, l in X.items() if p[0] == ('this',) and p[1][:1] == (w,) and relevant_path(cx, f, p[1], feas)}
                if w in restored: rel = {}
                key = (f.cls, w)
                cx.obligation('GA state is not carried into the next run: %s (%s) %s' % (w, f.key, combo), not rel)
                for p, loc in sorted(rel.items(), key=str):
                    cx.violation('C02:GA:%s' % w, loc, 'the run reads %s before overwriting it, and a run also changes it (%s): the outcome of a run depends on the previous one' % ('.'.join(p[1]), W[w]), [f.key], f.key)
                    break
    # ---- statics
    down = set()
    st = [f.key for f in solves]
    while st:
        k = st.pop()
        if k in down: continue
        down.add(k); f = P.funcs.get(k)
        if not f: continue
        for n in f.E:
            if not n: continue
            if n['k'] in ('call', 'ctor'): st += [g.key for g in P.callees(f, n)]
            if n['k'] == 'lambda': st += n['ops']
            if n['k'] in ('fnref', 'mref') and n.get('fn') in P.funcs: st.append(n['fn'])
    nstat = 0
    for f in P.funcs.values():
        lib = P.is_repo(f)
        if not lib and 'verif_selftest' not in f.key: continue
        if lib and f.key not in down: continue
        for v in f.V:
            if not v or v.get('st') not in ('static', 'tls'): continue
            g = P.globals[v['g']]; t = P.T(g['t'])
            local = any(n and n['k'] == 'decl' and any(f.V[x['v']].get('g') == v['g'] for x in n['vars']) for n in f.E)
            if not local or t.get('const') or g.get('constexpr'): continue
            nstat += 1
            k, X = KF.summary(f)
            bad = sorted((p, l) for p, l in X.items() if p[0] == ('g', v['g']))
            # only state that the function (or what it calls) changes
            wr = any(a.kind in ('w', 'a') and a.path[0] == ('g', v['g']) and a.how != 'init' for a in cx.effects.summary(f))
            ok = not bad or not wr
            cx.obligation('static scratch variable is overwritten before use: %s in %s' % (v['name'], f.key), ok)
            if not ok: cx.violation('C02:static:%s:%s' % (strip(f.qn), v['name']), bad[0][1], 'the static variable %s of %s keeps its value between calls and it is read before being overwritten' % (v['name'], f.qn), [f.key], f.key)
    # namespace-scope / class-scope variables of the library changed during a run
    for f in solves[:]:
        for a in cx.effects.summary(f):
            if a.kind != 'w' or a.path[0][0] != 'g': continue
            g = P.globals[a.path[0][1]]
            if any(g['qname'].startswith(x) for x in INFRA): continue
            if a.f.name in ('operator=', ) and False: continue
            if '::' in g['qname'] and not g.get('local') and (g['qname'], 'x') not in seen:
                if any(n and n['k'] == 'decl' and any(a.f.V[x['v']].get('g') == a.path[0][1] for x in n['vars']) for n in a.f.E): continue
                seen.add((g['qname'], 'x'))
                cx.obligation('no run-dependent global state: ' + g['qname'], False)
                cx.violation('C02:global:' + g['qname'], a.loc(), 'the run changes the global variable %s, so its value carries over into later runs' % g['qname'], list(a.chain), a.f.key)
    # counters shared by the worker threads: they decide which thread (and so which random stream) gets which piece of work
    ncount = 0
    KG = KillFlow(P, cx.paths, cx.effects)
    for f in solves:
        cnt = {}
        for a in cx.effects.summary(f):
            if a.path[0][0] != 'g' or a.kind != 'a' or not str(a.how).startswith(('atomic:fetch_', 'atomic:operator++', 'atomic:operator--', 'atomic:operator+=', 'atomic:operator-=')) or not norm(a.path[1]): continue
            if any(P.globals[a.path[0][1]]['qname'].startswith(x) for x in INFRA[:2]): continue
            cnt.setdefault((a.path[0], norm(a.path[1])), a)
        X = KG.summary(f)[1] if cnt else {}
        for (r, s), a in sorted(cnt.items(), key=str):
            bad = sorted(l for (r2, s2), l in X.items() if r2 == r and overlap(s2, s) and trunc(s2))
            ncount += 1
            name = P.globals[r[1]]['qname'] + '.' + '.'.join(s)
            cx.obligation('shared counter restarts with the run: %s in %s' % (name, f.key), not bad)
            if bad and (name, 'c') not in seen:
                seen.add((name, 'c'))
                cx.violation('C02:counter:' + name, bad[0], 'a run advances the counter %s (%s) and it is not set anew before the run uses it: what the worker threads are given depends on the runs before' % (name, a.loc()), list(a.chain), f.key)
    cx.coverage['shared_counters'] = ncount
    cx.obligation('no other global state is written by a run (%d solve overloads)' % len(solves))
    cx.coverage.update(statics_checked=nstat, configurations=len(combos), solve_overloads=len(solves))


def feasible_writes(cx, KC, f):
    """first-level this-fields written by solve under the configuration, following calls over feasible blocks"""
    P, PT, EF = cx.P, cx.paths, cx.effects
    memo = {}

    def go(g, depth=0):
        if g.key in memo: return memo[g.key]
        memo[g.key] = {}
        out = {}
        # reachable blocks
        seen = set(); st = [g.entry] if g.blocks else []
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            blk = g.blocks[b]
            for ix, s in enumerate(blk['s']):
                if s >= 0 and KC.feasible(g, blk, ix): st.append(s)
        elems = set()
        for b in seen:
            for e in g.blocks[b]['e']:
                if isinstance(e, int): elems.add(e)
        for a in EF.local(g):
            if a.kind in ('w', 'a') and a.eid in elems and a.how != 'moved' and a.path[0][0] in ('this', 'othis', 'p', 'o'):
                s = norm(a.path[1])
                out[(a.path[0], s[:4])] = a.loc()
        for e in elems:
            n = g.E[e]
            if n['k'] in ('call', 'ctor'):
                if n['k'] == 'call' and n.get('op') == '=' and 'obj' in n and n.get('fn') in P.funcs:
                    for r, s in PT._objpath(g, n): out[(r, norm(s)[:4])] = g.loc(e)
                    continue
                m = PT.arg_binding(g, n)
                for h in P.callees(g, n):
                    for (r, s), loc in go(h, depth + 1).items():
                        for q in PT.subst1(g, n, m, r, s):
                            if q[0][0] in ('this', 'p', 'othis', 'o'): out.setdefault((q[0], norm(q[1])[:4]), loc)
            if n['k'] == 'lambda':
                for o in n['ops']:
                    h = P.funcs.get(o)
                    if h:
                        for (r, s), loc in go(h, depth + 1).items():
                            q = KC.outer(g, (r, s))
                            if q: out.setdefault((q[0], q[1]), loc)
        memo[g.key] = out
        return out
    res = {}
    for (r, s), loc in go(f).items():
        if r == ('this',) and s: res.setdefault(s, loc)
    return res


def relevant_path(cx, f, s, feas):
    """the exposed path overlaps a written path"""
    t = trunc(s)
    for w in feas:
        if w[0] != s[0]: continue
        if overlap(trunc(w), t): return True
    return False


def restored_fields(cx, f, depth=0, seen=None):
    """fields handed to a scope guard (directly or through a lambda writing them) that is alive until the run ends"""
    out = set()
    P = cx.P
    seen = seen if seen is not None else set()
    if f.key in seen or depth > 4: return out
    seen.add(f.key)
    for n in f.E:
        if not n: continue
        if n['k'] == 'ctor' and n.get('rec') in P.records:
            d = [g for g in P.by_cls.get(n['rec'], []) if g.get('dtor')]
            if not d: continue
            for a in n['args']:
                for r, s in cx.paths.path(f, a):
                    if r == ('this',) and len(norm(s)) == 1 and f.type(a).get('s', '').find('unique_ptr') < 0: out.add(norm(s)[0])
                for g in P.lambda_of(f, a):
                    for x in cx.effects.local(g):
                        if x.kind == 'w' and x.path[0][0] == 'othis' and norm(x.path[1]): out.add(norm(x.path[1])[0])
        elif n['k'] == 'call' and n.get('fn') in P.funcs and 'obj' in n and f.E[n['obj']] and f.E[n['obj']]['k'] == 'this':
            for g in P.callees(f, n): out |= restored_fields(cx, g, depth + 1, seen)
    return out
