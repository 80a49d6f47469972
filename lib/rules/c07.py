"""Lock discipline. For every object with a lock the analysis infers which of its data (and which global variables) the lock protects:
what is accessed under it somewhere, outside of construction and destruction. Every other access must then hold the same lock of the
same object, exclusively when it modifies (must-held lock sets over the CFG; private helpers and lambdas that run in place inherit what all
of their callers hold). References to protected data must not leave the locked region, explicitly acquired locks must be released on every
path including exceptional ones, no lock is acquired twice and the order in which different locks are acquired has no cycle."""
from locks import Locks
import roles

RULE = 'guarded-by inference per lock and instance: protected data is only accessed with the lock held (exclusively for writes); locks are released on every path; the acquisition order is acyclic'
ASSUMPTIONS = ['data that is never accessed under a lock is not shared under that lock (data races of the parallel loops are decided separately)']
LOCK_TYPES = ('std::mutex', 'std::shared_mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_timed_mutex')
GUARDS = ('std::scoped_lock', 'std::lock_guard', 'std::unique_lock', 'std::shared_lock')


WRAP = set()          # the member of a smart wrapper (one field, operator->)


def norm(p):
    r, s = p
    return (('this',) if r[0] in ('this', 'othis') else r, tuple(x for x in s if x not in ('&', '*') and x not in WRAP))


class LockInfo:
    def __init__(self, cx):
        self.cx = cx; P = self.P = cx.P; self.PT = cx.paths; self.L = Locks(P, self.PT)
        WRAP.clear(); WRAP.update(d['fields'][0]['name'] for r, d in P.records.items() if r.startswith('gapp::') and len(d['fields']) == 1 and any(m['name'] == 'operator->' for m in d['methods']) and 'rcu_obj' not in r)
        self.types = {r for r, d in P.records.items() if {'lock', 'unlock'} <= {m['name'] for m in d['methods']} and (r.startswith('gapp::') or 'verif_selftest' in r)}
        self.owners = {}
        for r, d in P.records.items():
            if not (r.startswith('gapp::') or 'verif_selftest' in r): continue
            ls = [fd['name'] for fd in d['fields'] if self.is_lock(P.T(fd['t']))]
            if ls: self.owners[r] = (ls, [fd['name'] for fd in d['fields'] if not self.is_lock(P.T(fd['t'])) and self.is_data(P.T(fd['t']))])
        self.entry = {}
        self.sites = self.callsites()

    def is_lock(self, t):
        s = t.get('s', '').replace('const ', '').replace('mutable ', '')
        return s in LOCK_TYPES or t.get('rec', '') in self.types

    def is_data(self, t):
        s = t.get('s', '')
        return not s.startswith(('std::atomic', 'std::condition_variable', 'std::once_flag', 'std::latch')) and not t.get('const')

    def callsites(self):
        """function -> [(caller, call eid, lambda?)]; None: may be called from anywhere"""
        P = self.P; out = {}
        for f in P.funcs.values():
            if not f.blocks: continue
            for e, n in enumerate(f.E):
                if not n: continue
                if n['k'] in ('call', 'ctor'):
                    for g in P.callees(f, n): out.setdefault(g.key, []).append((f, e, n))
                elif n['k'] == 'lambda':
                    for u in self.users(f, e):
                        for o in n['ops']: out.setdefault(o, []).append((f, u[0], u[1]))
        # instantiations of the same code share their call sites
        by = {}
        for k, v in out.items():
            if k in P.funcs: by.setdefault(P.funcs[k].loc(), []).extend(v)
        return by

    def users(self, f, e, depth=0):
        """where the closure goes: (eid, None) for a synchronous call of a library function, (eid, 'away') otherwise"""
        res = []
        for q in f.parents().get(e, []):
            n = f.E[q]
            if n['k'] in ('cast', 'wrap', 'ctor') and depth < 6 and not n.get('qn', '').startswith(('std::thread', 'std::jthread', 'std::function', 'std::async')) and not n.get('rec', '').startswith(('std::thread', 'std::jthread', 'std::function')): res += self.users(f, q, depth + 1)
            elif n['k'] == 'call' and n.get('qn', '').startswith('std::') and not n['qn'].startswith(('std::async', 'std::bind', 'std::make_')) and n.get('qn') not in ('std::move', 'std::forward'): res.append((q, None))
            elif n['k'] == 'call' and n.get('qn') in ('std::move', 'std::forward') and depth < 6: res += self.users(f, q, depth + 1)
            elif n['k'] == 'decl': pass           # named closure: its calls are ordinary call sites
            elif n['k'] == 'call' and n.get('op') == '()' : pass
            else: res.append((q, 'away'))
        return res

    def hidden(self, f):
        if f.parent or f.get('lambda'): return True
        return f.get('access') == 'private' and not f.get('virtual') or f.d.get('internal')

    def entry_locks(self, f, depth=0):
        """locks every caller holds: set of (normalised path, mode)"""
        if f.key in self.entry: return self.entry[f.key]
        self.entry[f.key] = frozenset()
        if not self.hidden(f) or depth > 6: return frozenset()
        res = None
        for g, e, n in self.sites.get(f.loc(), []):
            if n == 'away': h = set()
            else: h = self.held_at(g, e, depth + 1)
            if f.parent is None:
                h2 = set()
                c = g.E[e]
                recv = {norm(p) for p in (self.PT._objpath(g, c) if 'obj' in c else [])} if c['k'] == 'call' else set()
                for (r, s), m in h:
                    if r == ('g',) or r[0] in ('g', 'static', 'tls'): h2.add(((r, s), m))
                    for rr, rs in recv:
                        if r == rr and s[:len(rs)] == rs: h2.add(((('this',), s[len(rs):]), m))
                h = h2
            res = set(h) if res is None else res & set(h)
        self.entry[f.key] = frozenset(res or ())
        return self.entry[f.key]

    def held_at(self, f, e, depth=0):
        return frozenset((norm(x[0]), x[1]) for x in self.L.held(f).get(e, ())) | self.entry_locks(f, depth)


def writes(P, f, e):
    """is the lvalue e (or a part of it) modified at its use"""
    work = [e]; seen = set()
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x)
        for q in f.parents().get(x, []):
            n = f.E[q]; k = n['k']
            if k == 'assign' and n.get('a') == x: return True
            if k == 'un' and n['op'] in ('++', '--', 'post++', 'post--', '++post', '--post') or k == 'un' and ('++' in n['op'] or '--' in n['op']): return True
            if k == 'un' and n['op'] == '&': return True
            if k == 'call':
                if n.get('obj') == x:
                    if not n.get('cm') and not n.get('arrow') and n.get('qn', '').rsplit('::', 1)[-1] not in ('begin', 'end', 'data', 'operator->', 'operator*', 'front', 'back', 'operator[]', 'at', 'find', 'rbegin', 'rend'): return True
                    if n.get('lv') and n.get('qn', '').rsplit('::', 1)[-1] in ('front', 'back', 'operator[]', 'at', 'operator*'): work.append(q)
                elif x in n.get('args', []):
                    i = n['args'].index(x); pt = n.get('pt', [])
                    if n.get('qn') in ('std::move', 'std::forward'): return True
                    if i < len(pt):
                        t = P.T(pt[i])
                        if t.get('ref') and not t.get('const'): return True
                    if n.get('op') in ('=', '+=', '-=', '<<', '>>', '++', '--') and i == 0: return True
            elif k in ('field', 'sub') and n.get('b', n.get('a')) == x: work.append(q)
            elif k in ('cast', 'wrap') and not (k == 'cast' and n.get('cast') == 'LValueToRValue'): work.append(q)
            elif k == 'cond' and x != n.get('c'): work.append(q)
    return False


def check(cx):
    P = cx.P
    LI = LockInfo(cx)
    cx.anchor(len(LI.owners) >= 2, 'objects with a lock')
    acc = []          # (f, e, owner key, data path, lock candidates)
    for f in P.funcs.values():
        if not f.blocks or not (P.is_repo(f) or 'verif_selftest' in f.key): continue
        for e, n in enumerate(f.E):
            if not n or n['k'] != 'field': continue
            c = n.get('cls')
            if c not in LI.owners: continue
            ls, ds = LI.owners[c]
            if n['name'] not in ds: continue
            own_ctor = (f.get('ctor') or f.get('dtor') or f.name == 'operator=' and (f.get('copy') or f.get('move'))) and f.cls == c and f.E[n['b']]['k'] == 'this'
            if own_ctor: continue
            base = {(r, q[:-1]) for r, q in {norm(p) for p in cx.paths.path(f, e)} if q and q[-1] == n['name']}
            held = LI.held_at(f, e)
            mine = {(l, m) for (p, m) in held for l in ls for b in base if p == (b[0], b[1] + (l,))}
            acc.append((f, e, c, n['name'], mine, writes(P, f, e)))
    guard = {}
    for f, e, c, x, mine, w in acc:
        for l, m in mine: guard.setdefault((stem(c), x), {}).setdefault(l, [0, 0])[0] += 1
    for f, e, c, x, mine, w in sorted(acc, key=lambda a: (a[0].key, a[1])):
        g = guard.get((stem(c), x))
        if not g: continue
        best = max(sorted(g), key=lambda l: g[l][0])
        cx.obligation('%s of %s in %s' % (x, stem(c), f.key[:110]))
        modes = {m for l, m in mine if l == best}
        if not modes:
            cx.violation('unlocked|%s|%s|%s' % (stem(c), x, fname(P, f)), f.loc(e), '%s accesses %s::%s without holding %s' % (fname(P, f), stem(c), x, best), func=f.key)
        elif w and 'x' not in modes:
            cx.violation('shared-write|%s|%s|%s' % (stem(c), x, fname(P, f)), f.loc(e), '%s modifies %s::%s while %s is only held in shared mode' % (fname(P, f), stem(c), x, best), func=f.key)
        if escapes(P, f, e):
            cx.violation('escape|%s|%s|%s' % (stem(c), x, fname(P, f)), f.loc(e), '%s returns a reference to %s::%s, which is protected by %s' % (fname(P, f), stem(c), x, best), func=f.key)
    cx.anchor(len(guard) >= 2, 'data protected by a lock')
    globals_(cx, P, LI)
    balance(cx, P, LI)
    order(cx, P, LI)
    lock_impl(cx, P, LI)
    cx.coverage['protected'] = sorted('%s::%s' % k for k in guard)
    cx.expect_selftest('verif_selftest::unlocked_read'); cx.expect_selftest('verif_selftest::leaves_locked')


def escapes(P, f, e):
    t = P.T(f.d['ret']) if f.d.get('ret') is not None else {}
    if not t.get('ref') and not t.get('ptr'): return False
    for b in f.blocks.values():
        for x in b['e']:
            if isinstance(x, int) and f.E[x]['k'] == 'ret' and 'e' in f.E[x]:
                y = f.E[x]['e']
                while f.E[y]['k'] in ('cast', 'wrap') or f.E[y]['k'] == 'un' and f.E[y]['op'] == '&' or f.E[y]['k'] == 'call' and f.E[y].get('lv') and 'obj' in f.E[y] and f.E[y].get('qn', '').startswith('std::'):
                    y = f.E[y].get('e', f.E[y].get('a', f.E[y].get('obj')))
                if y == e: return True
    return False


def stem(k):
    import re
    return re.sub(r'[<(].*$', '', k).replace('gapp::', '')


def fname(P, f):
    x = f
    while x.parent and x.parent in P.funcs: x = P.funcs[x.parent]
    return stem(x.key) if not x.cls else '%s::%s' % (stem(x.cls), x.name)


# ---------------------------------------------------------------------------------------------- global variables
def globals_(cx, P, LI):
    acc = {}
    for f in P.funcs.values():
        if not f.blocks or not (P.is_repo(f) or 'verif_selftest' in f.key): continue
        for e, n in enumerate(f.E):
            if not n or n['k'] != 'var' or f.V[n['v']]['st'] not in ('static', 'global', 'member'): continue
            v = f.V[n['v']]; t = f.vtype(n['v'])
            if v.get('tls') or t.get('const') or not LI.is_data(t) or LI.is_lock(t): continue
            if t.get('rec') in LI.owners or any(o in t.get('s', '') for o in LI.owners): continue
            g = {norm(p)[0] for p in cx.paths.path(f, e)}
            for r in g:
                if r[0] != 'g': continue
                held = {(p, m) for p, m in LI.held_at(f, e)}
                acc.setdefault(r, []).append((f, e, v['name'], held, writes(P, f, e)))
    for r, xs in sorted(acc.items(), key=str):
        under = [h for f, e, nm, h, w in xs if h and w]
        if not under: continue
        common = set.union(*[{p for p, m in h} for h in under])
        for f, e, nm, h, w in xs:
            cx.obligation('global %s in %s' % (nm, f.key[:100]))
            if not {p for p, m in h} & common or w and not any(m == 'x' for p, m in h if p in common):
                cx.violation('unlocked|%s|%s' % (nm, fname(P, f)), f.loc(e), '%s accesses the global %s without the lock that protects it' % (fname(P, f), nm), func=f.key)


# ---------------------------------------------------------------------------------------------- explicit lock()/unlock()
def balance(cx, P, LI):
    for f in P.funcs.values():
        if not f.blocks or not (P.is_repo(f) or 'verif_selftest' in f.key): continue
        if f.cls in LI.types or f.cls and {'lock', 'unlock'} & {m['name'] for m in P.records.get(f.cls, {'methods': []})['methods']} : continue
        if f.cls and {'lock_shared', 'unlock_shared'} <= {m['name'] for m in P.records.get(f.cls, {'methods': []})['methods']}: continue
        ops = {}
        for e, n in enumerate(f.E):
            if not n or n['k'] != 'call' or 'obj' not in n: continue
            nm = n.get('qn', '').rsplit('::', 1)[-1]
            if nm in ('lock', 'unlock', 'lock_shared', 'unlock_shared', 'try_lock', 'try_lock_shared', 'release'):
                t = f.type(n['obj']); s = t.get('rec', '') or t.get('s', '')
                if s.startswith('std::weak_ptr'): continue
                if s.startswith(GUARDS):
                    if nm == 'release': cx.violation('release|%s' % fname(P, f), f.loc(e), '%s detaches a lock from its guard' % fname(P, f), func=f.key)
                    continue
                if not LI.is_lock({'s': s, 'rec': s}): continue
                ops[e] = (nm, frozenset(norm(p) for p in cx.paths._objpath(f, n)))
        if not ops: continue
        # may-held analysis: a lock that may still be held at an exit, or while a call may throw
        IN = {f.entry: frozenset()}; work = [f.entry]; bad = set()
        while work:
            b = work.pop(); cur = IN[b]
            for e in f.blocks[b]['e']:
                if not isinstance(e, int): continue
                n = f.E[e]
                if e in ops:
                    nm, ps = ops[e]
                    if nm.startswith('unlock'): cur = frozenset(x for x in cur if not (x[0] & ps))
                    elif nm in ('lock', 'lock_shared'): cur = cur | {(ps, e)}
                elif cur and n['k'] in ('call', 'ctor') and not n.get('ne') and not f.tries().get(e): bad |= {(x[1], 'exceptional') for x in cur}
            if b == f.exit: bad |= {(x[1], 'normal') for x in cur}
            for s in f.blocks[b]['s']:
                if s < 0: continue
                nw = IN.get(s, frozenset()) | cur
                if s not in IN or nw != IN[s]: IN[s] = nw; work.append(s)
        cx.obligation('explicit locking in %s' % f.key[:110])
        for e, how in sorted(bad): cx.violation('held|%s|%s' % (fname(P, f), how), f.loc(e), 'a lock acquired by %s is still held on some %s exit' % (fname(P, f), how), func=f.key)


# ---------------------------------------------------------------------------------------------- order
def order(cx, P, LI):
    """acquisitions while other locks are held, directly or by called functions"""
    def ident(f, p):
        r, s = p
        return '.'.join(str(x) for x in s[-1:]) + '@' + (owner_of(LI, s[-1]) if s else str(r))
    direct = {}
    for f in P.funcs.values():
        if not f.blocks or not (P.is_repo(f) or 'verif_selftest' in f.key): continue
        h = LI.L.held(f); prev = {}
        a = {}
        for e, hs in h.items():
            for p, m, v in hs: a.setdefault(norm(p), m)
        if a: direct[f.key] = a
    trans = {k: set(v) for k, v in direct.items()}
    edges = {}
    memo = {}

    def acquires(k, d=0):
        if k in memo: return memo[k]
        memo[k] = set(); f = P.funcs.get(k)
        if f is None: return set()
        out = {ident(f, p) for p in direct.get(k, ())}
        for e, n in enumerate(f.E):
            if not n: continue
            if n['k'] in ('call', 'ctor'):
                for g in P.callees(f, n):
                    if P.is_repo(g): out |= acquires(g.key, d + 1)
            for z in ([n['var']] if False else []): pass
        memo[k] = out
        return out
    for k in direct:
        f = P.funcs[k]; h = LI.L.held(f)
        for e, hs in h.items():
            n = f.E[e]
            if not hs or n is None: continue
            cur = {ident(f, norm(p)) for p, m, v in hs}
            new = set()
            if n['k'] in ('call', 'ctor'):
                for g in P.callees(f, n):
                    if P.is_repo(g) and g.cls not in LI.types: new |= acquires(g.key)
            if n['k'] == 'decl':
                for v in n['vars']:
                    t = f.vtype(v['v'])
                    if t.get('rec', '').startswith(GUARDS) and 'init' in v:
                        ga = LI.L.guard_arg(f, v['init'])
                        if ga: new |= {ident(f, norm(p)) for p in ga[0]}
            for a in cur:
                for b in new: edges.setdefault(a, {}).setdefault(b, (f, e))
    cx.obligation('lock order (%d locks, %d nested acquisitions)' % (len({x for v in direct.values() for x in v}), sum(len(v) for v in edges.values())))
    for a in edges:
        for b, (f, e) in sorted(edges[a].items()):
            if a == b or reach(edges, b, a):
                cx.violation('order|%s|%s' % (a, b), f.loc(e), '%s acquires %s while holding %s, which can deadlock' % (fname(P, f), b.split('@')[0], a.split('@')[0]), func=f.key)


def reach(edges, a, b):
    seen = set(); st = [a]
    while st:
        x = st.pop()
        if x == b: return True
        if x in seen: continue
        seen.add(x); st += list(edges.get(x, ()))
    return False


def owner_of(LI, l):
    return ','.join(sorted(stem(c) for c, (ls, ds) in LI.owners.items() if l in ls))


# ---------------------------------------------------------------------------------------------- the locks themselves
def lock_impl(cx, P, LI):
    """a spinning lock publishes what was done under it: acquiring operations acquire, releasing operations release"""
    for c in sorted(LI.types):
        if 'verif_selftest' in c: continue
        for f in P.by_cls.get(c, []):
            if not f.blocks or f.name not in ('lock', 'try_lock', 'lock_shared', 'try_lock_shared', 'unlock', 'unlock_shared'): continue
            cx.obligation('%s::%s orders memory' % (stem(c), f.name))
            release = f.name.startswith('unlock')
            if not ordered(cx, P, f, release):
                cx.violation('order|%s|%s' % (stem(c), f.name), f.loc(), '%s::%s does not %s memory on every path that %s the lock' % (stem(c), f.name, 'release' if release else 'acquire', 'gives up' if release else 'obtains'), func=f.key)


ACQ = ('memory_order_acquire', 'memory_order_acq_rel', 'memory_order_seq_cst', 'memory_order::acquire', 'memory_order::acq_rel', 'memory_order::seq_cst')
REL = ('memory_order_release', 'memory_order_acq_rel', 'memory_order_seq_cst', 'memory_order::release', 'memory_order::acq_rel', 'memory_order::seq_cst')


def orders_of(P, f, n):
    """memory orders named in the arguments of an atomic operation ('seq_cst' when defaulted)"""
    out = []
    for a in n.get('args', []):
        if a is None or a < 0: continue
        t = f.type(a).get('s', '')
        if 'memory_order' not in t: continue
        nm = None
        for x in f.subtree(a):
            y = f.E[x]
            if y and y.get('name', '').rsplit('::', 1)[-1] in ('acquire', 'release', 'relaxed', 'acq_rel', 'seq_cst', 'consume', 'memory_order_acquire', 'memory_order_release', 'memory_order_relaxed', 'memory_order_acq_rel', 'memory_order_seq_cst', 'memory_order_consume'): nm = y['name'].rsplit('::', 1)[-1].replace('memory_order_', '')
            elif y and y['k'] == 'var' and 'memory_order' in f.V[y['v']].get('name', ''): nm = f.V[y['v']]['name'].replace('memory_order_', '')
        cv = f.E[a].get('cv')
        if nm is None and cv is not None: nm = {'0': 'relaxed', '1': 'consume', '2': 'acquire', '3': 'release', '4': 'acq_rel', '5': 'seq_cst'}.get(str(cv))
        out.append(nm or 'seq_cst')
    return out


READS = ('load', 'test', 'test_and_set', 'exchange', 'compare_exchange_strong', 'compare_exchange_weak', 'fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'wait')
WRITES = ('store', 'clear', 'exchange', 'compare_exchange_strong', 'compare_exchange_weak', 'fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'test_and_set')


def ordered(cx, P, f, release):
    """every path from entry to exit performs an atomic write with release order / (acquire order on a read or a fence after the last read)
    operations of other members of the same class that order memory count (try_lock in lock)"""
    ok = set()
    for e, n in enumerate(f.E):
        if not n or n['k'] != 'call': continue
        nm = n.get('qn', '').rsplit('::', 1)[-1]
        if nm == 'atomic_thread_fence':
            o = orders_of(P, f, n)
            if o and o[0] in (('release', 'acq_rel', 'seq_cst') if release else ('acquire', 'acq_rel', 'seq_cst')): ok.add(e)
            continue
        if 'obj' not in n: continue
        if f.E[n['obj']]['k'] == 'this' or n.get('cls') == f.cls:
            g = P.funcs.get(n.get('fn'))
            if g is not None and g.cls == f.cls and g.key != f.key and ordered(cx, P, g, release): ok.add(e)
            continue
        os = f.type(n['obj']).get('s', '')
        if 'atomic' not in os and 'atomic' not in n.get('qn', ''): continue
        if nm not in (WRITES if release else READS): 
            if nm.startswith('operator') and nm not in ('operator->',): ok.add(e)     # seq_cst by default
            continue
        o = orders_of(P, f, n) or ['seq_cst']
        if o[0] in (('release', 'acq_rel', 'seq_cst') if release else ('acquire', 'acq_rel', 'seq_cst')): ok.add(e)
    # paths that give up (return false) need no ordering
    def fails(b):
        for e in f.blocks[b]['e']:
            if isinstance(e, int) and f.E[e]['k'] == 'ret' and 'e' in f.E[e] and str(f.E[f.E[e]['e']].get('cv', f.E[f.E[e]['e']].get('v', ''))) in ('0', 'false'): return True
        return False
    seen = set(); st = [f.entry]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if any(isinstance(e, int) and e in ok for e in f.blocks[b]['e']): continue
        if b == f.exit: return False
        if fails(b): continue
        # `a && b' where a fails: the result is false
        nxt = [s for s in f.blocks[b]['s'] if s >= 0]
        c = f.blocks[b].get('cond')
        if c is not None and c >= 0 and len(f.blocks[b]['s']) == 2 and f.name.startswith('try_') and any(f.E[q]['k'] == 'bin' and f.E[q]['op'] == '&&' and f.E[q].get('a') in (c,) for q in f.parents().get(c, [])): nxt = nxt[:1]
        st += nxt
    return True
