"""Must-held locks per expression: scoped lock objects and explicit lock()/unlock() calls."""
GUARDS = ('std::scoped_lock', 'std::lock_guard', 'std::unique_lock', 'std::shared_lock')


class Locks:
    def __init__(self, P, PT):
        self.P = P; self.PT = PT; self.memo = {}

    def guard_arg(self, f, i, depth=0):
        """init expression of a guard variable -> (lock paths, mode, deferred)"""
        n = f.E[i]
        if n is None or depth > 5: return None
        if n['k'] in ('cast', 'wrap'): return self.guard_arg(f, n['e'], depth + 1)
        if n['k'] == 'ctor' and n.get('rec', '').startswith(GUARDS):
            if n.get('move') or n.get('copy') or not n['args']: return None
            out = set()
            for a in n['args']:
                ts = f.type(a).get('s', '')
                if 'defer_lock' in ts or 'try_to_lock' in ts: return None
                if 'adopt_lock' in ts: continue
                for r, s in self.PT.path(f, a): out.add((r, tuple(x for x in s if x != '&')))
            return out, ('s' if n['rec'].startswith('std::shared_lock') else 'x')
        return None

    def held(self, f):
        """eid -> frozenset of (lock path, mode) held just before it is evaluated"""
        if f.key in self.memo: return self.memo[f.key]
        self.memo[f.key] = {}
        res = {}
        if not f.blocks: return res
        decls = {}
        for i, n in enumerate(f.E):
            if n and n['k'] == 'decl':
                for v in n['vars']:
                    t = f.vtype(v['v'])
                    if t.get('rec', '').startswith(GUARDS) and 'init' in v:
                        g = self.guard_arg(f, v['init'])
                        if g: decls[v['v']] = g
        relevant = decls or any(n and n['k'] == 'call' and n.get('qn', '').rsplit('::', 1)[-1] in ('lock', 'unlock', 'lock_shared', 'unlock_shared') for n in f.E)
        if not relevant: return res
        IN = {f.entry: frozenset()}
        work = [f.entry]
        it = 0
        while work and it < 3000:
            it += 1
            b = work.pop(0)
            cur = IN[b]
            for e in f.blocks[b]['e']:
                if not isinstance(e, int):
                    if e['k'] == 'adtor': cur = frozenset(x for x in cur if x[2] != e.get('v'))
                    continue
                res[e] = cur
                n = f.E[e]
                if n['k'] == 'decl':
                    for v in n['vars']:
                        if v['v'] in decls: cur = cur | {(p, decls[v['v']][1], v['v']) for p in decls[v['v']][0]}
                elif n['k'] == 'call' and 'obj' in n:
                    nm = n.get('qn', '').rsplit('::', 1)[-1]
                    o = f.E[n['obj']]
                    if nm in ('lock', 'lock_shared'):
                        if o['k'] == 'var' and o['v'] in decls: cur = cur | {(p, decls[o['v']][1], o['v']) for p in decls[o['v']][0]}
                        else: cur = cur | {((r, tuple(x for x in s if x != '&')), 's' if nm == 'lock_shared' else 'x', None) for r, s in self.PT._objpath(f, n)}
                    elif nm in ('unlock', 'unlock_shared', 'release'):
                        if o['k'] == 'var' and o['v'] in decls: cur = frozenset(x for x in cur if x[2] != o['v'])
                        elif nm != 'release':
                            ps = {(r, tuple(x for x in s if x != '&')) for r, s in self.PT._objpath(f, n)}
                            cur = frozenset(x for x in cur if x[0] not in ps)
            for s in f.blocks[b]['s']:
                if s < 0: continue
                old = IN.get(s)
                nw = cur if old is None else old & cur
                if old is None or nw != old:
                    IN[s] = nw
                    if s not in work: work.append(s)
        # second pass on the fixpoint
        for b in f.order():
            if b not in IN: continue
            cur = IN[b]
            for e in f.blocks[b]['e']:
                if not isinstance(e, int):
                    if e['k'] == 'adtor': cur = frozenset(x for x in cur if x[2] != e.get('v'))
                    continue
                res[e] = cur
                n = f.E[e]
                if n['k'] == 'decl':
                    for v in n['vars']:
                        if v['v'] in decls: cur = cur | {(p, decls[v['v']][1], v['v']) for p in decls[v['v']][0]}
                elif n['k'] == 'call' and 'obj' in n:
                    nm = n.get('qn', '').rsplit('::', 1)[-1]
                    o = f.E[n['obj']]
                    if nm in ('lock', 'lock_shared'):
                        if o['k'] == 'var' and o['v'] in decls: cur = cur | {(p, decls[o['v']][1], o['v']) for p in decls[o['v']][0]}
                        else: cur = cur | {((r, tuple(x for x in s if x != '&')), 's' if nm == 'lock_shared' else 'x', None) for r, s in self.PT._objpath(f, n)}
                    elif nm in ('unlock', 'unlock_shared', 'release'):
                        if o['k'] == 'var' and o['v'] in decls: cur = frozenset(x for x in cur if x[2] != o['v'])
                        elif nm != 'release':
                            ps = {(r, tuple(x for x in s if x != '&')) for r, s in self.PT._objpath(f, n)}
                            cur = frozenset(x for x in cur if x[0] not in ps)
        self.memo[f.key] = res
        return res

    def any_held(self, f, e):
        return bool(self.held(f).get(e))
