"""Data-race freedom of the parallel regions. For every call of the parallel loop the effects of the loop body
(interprocedural, all overriders of virtual calls, lambdas inlined) are computed over access paths whose element
selectors remember whether they are indexed by the iteration. A write must be to the iteration's own element, to
thread-local storage, atomic, or under a lock; otherwise it conflicts with every overlapping access of the body."""
from effects import Paths, Effects, Access
from facts import AnalysisBroken
from locks import Locks
from rules.c02 import strip

RULE = 'no two iterations of a parallel loop body make conflicting unsynchronised accesses (lockset / iteration-disjointness / thread-locality)'
ASSUMPTIONS = ['the elements of a parallel range are distinct objects, and an index stored in an element (e.g. its position) is unique to it',
               'user supplied callables (fitness function, repair, operators) are thread-safe themselves, as documented']
# the synchronisation machinery itself is decided by its own rules
INFRA = ('gapp::detail::thread_pool', 'gapp::detail::concurrent_queue', 'gapp::detail::latch', 'gapp::detail::rcu', 'gapp::detail::spinlock', 'gapp::detail::shared_spinlock')


class IterPaths(Paths):
    """paths with element selectors '[@a,b,key]' for elements indexed by a*iteration + b in the loop body g"""

    def __init__(self, P, g):
        super().__init__(P); self.g = g

    def is_body(self, f):
        x = f
        for _ in range(8):
            if x is None: return False
            if x.key == self.g.key: return True
            x = self.P.funcs.get(x.parent) if x.parent else None
        return False

    def var_path(self, f, vid):
        # a local proxy (reference to a bit) stands for what it was initialised from
        if f.V[vid]['st'] == 'local' and '_Bit_reference' in f.vtype(vid).get('rec', ''):
            i = self.inits(f).get(vid)
            if i and i[0] is not None: return self.path(f, i[0])
        return super().var_path(f, vid)

    def affine(self, f, e, depth=0):
        """(a, b, key) of an index expression or None"""
        if depth > 8: return None
        n = f.E[e]
        if n is None: return None
        k = n['k']
        if k in ('cast', 'wrap', 'definit'): return self.affine(f, n['e'], depth + 1)
        if k == 'ctor' and len(n['args']) == 1: return self.affine(f, n['args'][0], depth + 1)
        if k == 'lit':
            try: return (0, int(str(n['v']).rstrip('uUlLzZ')), None)
            except ValueError: return None
        if k == 'call' and 'operator""' in n.get('qn', '') and n['args']: return self.affine(f, n['args'][0], depth + 1)
        if k == 'call' and n.get('qn', '') in ('std::move', 'std::as_const', 'std::forward') and n['args']: return self.affine(f, n['args'][0], depth + 1)
        if k == 'var':
            v = f.V[n['v']]
            if v['st'] == 'param' and f.key == self.g.key and v['idx'] == 0: return (1, 0, 'it')
            if v['st'] == 'outer':
                x = self.P.funcs.get(f.parent) if f.parent else None
                while x is not None:
                    for i, w in enumerate(x.V):
                        if w and w['name'] == v['name'] and w['l'] == v['l'] and w['c'] == v['c'] and w['st'] != 'outer':
                            if not self.is_body(x): return None
                            if w['st'] == 'param': return (1, 0, 'it') if x.key == self.g.key and w['idx'] == 0 else None
                            return self.local_affine(x, i, depth)
                    x = self.P.funcs.get(x.parent) if x.parent else None
                return None
            if v['st'] == 'local': return self.local_affine(f, n['v'], depth)
            return None
        if k == 'field':
            b = self.affine(f, n['b'], depth + 1)
            return (1, 0, b[2] + '.' + n['name']) if b and b[0] == 1 and b[1] == 0 else None
        if k == 'bin' and n['op'] in ('+', '-', '*'):
            x, y = self.affine(f, n['a'], depth + 1), self.affine(f, n['b'], depth + 1)
            if x is None or y is None: return None
            if n['op'] == '*':
                if x[0] == 0: return (x[1] * y[0], x[1] * y[1], y[2])
                if y[0] == 0: return (y[1] * x[0], y[1] * x[1], x[2])
                return None
            s = 1 if n['op'] == '+' else -1
            if x[2] and y[2] and x[2] != y[2]: return None
            return (x[0] + s * y[0], x[1] + s * y[1], x[2] or y[2])
        return None

    def local_affine(self, f, vid, depth):
        if self.assigns(f).get(vid): return None
        for n in f.E:
            if n and n['k'] in ('un', 'assign') and n.get('op') in ('++', '--', '+=', '-=', '*='):
                a = f.E[n['a']]
                if a and a['k'] == 'var' and a['v'] == vid: return None
        i = self.inits(f).get(vid)
        return self.affine(f, i[0], depth + 1) if i and i[0] is not None else None

    def _path(self, f, eid):
        n = f.E[eid]
        if n is not None and self.is_body(f):
            idx = None
            if n['k'] == 'sub': idx = n['b']; base = lambda: self._container(f, n['a'])
            elif n['k'] == 'call' and 'obj' in n and n.get('args') and (n.get('op') == '[]' or n.get('qn', '').rsplit('::', 1)[-1] == 'at'): idx = n['args'][0]; base = lambda: self._objpath(f, n)
            if idx is not None and (n['k'] == 'sub' or n.get('lv') or f.type(n).get('rec')):
                a = self.affine(f, idx)
                if a and a[0] != 0 and not packed(f, n): return self.ext(base(), '[@%d,%d,%s]' % a)
        return super()._path(f, eid)

    def _pointee(self, f, eid):
        # begin() + i, std::next(begin(), i), &v[i]
        n = f.E[eid]
        if n is not None and self.is_body(f):
            off = None
            if n['k'] == 'bin' and n['op'] == '+': b, off = n['a'], n['b']
            elif n['k'] == 'call' and n.get('op') == '+' and len(n.get('args', [])) == 2: b, off = n['args']
            elif n['k'] == 'call' and n.get('op') == '+' and 'obj' in n and n['args']: b, off = n['obj'], n['args'][0]
            elif n['k'] == 'call' and n.get('qn') == 'std::next' and len(n['args']) == 2: b, off = n['args']
            if off is not None:
                a = self.affine(f, off)
                if a and a[0] != 0:
                    return {(r, s[:-1] + ('[@%d,%d,%s]' % a,)) if s and s[-1] == '[]' else (r, s) for r, s in self.pointee(f, b)}
        return super()._pointee(f, eid)


def packed(f, n):
    """elements are bits of shared words"""
    r = f.type(n).get('rec') or f.type(n).get('s', '')
    return '_Bit_reference' in r or 'bitset' in r and 'reference' in r


def norm(s): return tuple(x for x in s if x != '&')


def parse(sel):
    a, b, k = sel[2:-1].split(',', 2)
    return int(a), int(b), k


def separated(x, y):
    """two iteration-indexed selectors denote different elements in different iterations"""
    a1, b1, k1 = parse(x); a2, b2, k2 = parse(y)
    if k1 != k2 or a1 != a2: return False
    if b1 == b2: return True
    return (b1 - b2) % a1 != 0


def conflict(p, q):
    """may accesses at p in one iteration and q in another touch the same object?"""
    (r1, s1), (r2, s2) = p, q
    if r1 != r2: return False
    for x, y in zip(s1, s2):
        if x == y:
            if x.startswith('[@') and separated(x, y): return False
            continue
        if x.startswith('[@') and y.startswith('[@'):
            if separated(x, y): return False
            continue
        if x.startswith('[') and y.startswith('['): continue
        if x == '#n' or y == '#n': return False
        return False
    return True


SIZE = ('size', 'empty', 'capacity')


def loops(cx):
    """(function, call, body lambda, range argument)"""
    P = cx.P; out = []
    for f in P.funcs.values():
        for e, n in enumerate(f.E):
            if not n or n['k'] != 'call': continue
            qn = n.get('qn', '')
            if qn not in ('gapp::detail::parallel_for', 'gapp::detail::thread_pool::execute_loop'): continue
            if f.name in ('parallel_for', 'execute_loop'): continue
            bodies = []
            for a in n.get('args', []): bodies += P.lambda_of(f, a)
            out.append((f, e, n, bodies))
    return out


def check(cx):
    P = cx.P
    L = Locks(P, cx.paths)
    ls = loops(cx)
    cx.anchor(any(f.name == 'advance' or 'GA<' in f.key for f, e, n, b in ls), 'parallel loops of the solver')
    shared_sum = {}
    base = Effects(P, cx.paths); base.held = lambda f, e: L.any_held(f, e)
    nacc = npairs = 0; regions = set()
    for f, e, n, bodies in ls:
        if not bodies:
            cx.undecided.append('%s: the loop body is not a lambda' % f.loc(e)); continue
        par_it = [a for a in n['args'] if f.type(a).get('s', '')]
        for g in bodies:
            IP = IterPaths(P, g)
            EI = Effects(P, IP); EI.held = base.held
            # summaries of everything outside the body are shared between regions
            own = {h.key for h in P.funcs.values() if IP.is_body(h)}
            EI._sum = {k: v for k, v in base._sum.items()}
            EI._local = {k: v for k, v in base._local.items() if k not in own}
            for k in own: EI._sum.pop(k, None)
            acc = EI.summary(g)
            for k, v in EI._sum.items():
                if (k if isinstance(k, str) else k[0]) not in own: base._sum.setdefault(k, v)
            elem = set()
            if n.get('args'):
                for r, s in cx.paths.pointee(f, n['args'][0]):
                    s = norm(s)
                    if r[0] not in ('t',) and s and s[-1] == '[]':
                        elem.add((outer_root(cx, f, r), s[:-1] + ('[@1,0,el]',)))
            byval = g.params and not g.vtype(g.params[0]).get('ref')
            A = []
            for a in acc:
                r, s = a.path; s = norm(s)
                if any(a.f.cls and a.f.cls.startswith(x) or a.f.key.startswith(x) for x in INFRA): continue
                if r[0] in ('v', 't'): continue
                if r[0] == 'p':
                    if r[1] != 0 or byval: continue
                    for er, es in elem or {(('p', 0), ('[@1,0,el]',))}: A.append((a, (er, es + s)))
                    continue
                if r[0] == 'g':
                    gl = P.globals[r[1]]
                    if gl.get('tls') or gl.get('constexpr') or (P.T(gl['t']).get('const') and not s): continue
                    if is_tls(P, r[1]): continue
                if r[0] == 'o':
                    v = own_var(P, IP, g, r)
                    if v: continue       # variable of the body itself
                    if not outer_var(P, g, r): continue       # variable of some callee's own lambda
                if r[0] == 'othis':
                    if not encloses(P, r[1], g): continue
                    r = ('othis', '')
                if a.kind in ('r', 'R') and not touches(P, a): continue
                A.append((a, (r, s)))
            W = [x for x in A if x[0].kind in ('w', 'W', 'a') and x[0].how not in ('init',)]
            nacc += len(A); regions.add((f.qn, g.l))
            bad = {}
            for a, p in W:
                for b, q in A:
                    if not conflict(p, q): continue
                    if structural(b) and len(p[1]) > len(q[1]): continue
                    if a.kind == 'a' and b.kind == 'a': continue
                    if a.kind == 'W' and b.kind in ('R', 'W'): continue
                    if a.kind == 'a' and b.kind in ('r', 'R') and is_atomic_handle(b): continue
                    if b.kind == 'a' and a.kind in ('w',) and a.how == 'init': continue
                    npairs += 1
                    bad.setdefault(pkey(P, p), (a, b, p, q)); break
            cx.obligation('parallel loop body at %s in %s' % (g.sfile, f.key), not bad)
            for k, (a, b, p, q) in sorted(bad.items()):
                what = '%s (%s at %s) and %s (%s at %s)' % (disp(P, p), KN[a.kind], a.loc(), disp(P, q), KN[b.kind], b.loc())
                cx.violation('C06:%s:%s' % (strip(f.qn), k), a.loc(), 'iterations of the parallel loop in %s run concurrently and conflict on %s' % (f.qn, what), ['%s: parallel loop' % f.loc(e)] + list(a.chain), f.key)
    cx.coverage.update(parallel_loops=len(regions), loop_instances=len(ls), shared_accesses=nacc)


STRUCTURAL = {'size', 'empty', 'capacity', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'data', 'operator[]', 'at', 'front', 'back', 'operator->', 'operator*',
              'get', 'operator bool', 'max_size'}


def touches(P, a):
    """does a recorded read really read the object it names (and not only designate it)?"""
    f = a.f
    if a.how != 'read' or a.eid is None: return True
    n = f.E[a.eid]
    par = [f.E[p] for p in f.parents().get(a.eid, [])]
    if par and all(p['k'] == 'ctor' and p.get('rec', '').startswith('std::atomic_ref<') for p in par): return False
    t = f.type(n)
    if not t.get('rec'): return not t.get('arr')
    # an object of class type is read by copying it, or by what is called on it
    for p in par:
        if p['k'] == 'ctor' and len(p.get('args', [])) == 1 and p.get('rec') == t['rec'] and P.funcs.get(p.get('fn')) is None: return True
        if p['k'] == 'call' and p.get('obj') != a.eid and p.get('fn') not in P.funcs and p.get('qn', '').startswith('std::') and not p['qn'].startswith(('std::function<', 'std::invoke', 'std::__invoke')): return True
    return False


def structural(a):
    return a.kind in ('r', 'R') and a.how.rsplit('::', 1)[-1] in STRUCTURAL


KN = {'w': 'write', 'r': 'read', 'a': 'atomic access', 'W': 'write under a lock', 'R': 'read under a lock'}


def disp(P, p):
    r, s = p
    base = {'othis': 'this', 'g': None, 'o': None, 'p': 'element'}.get(r[0])
    if r[0] == 'g': base = P.globals[r[1]]['qname']
    if r[0] == 'o': base = r[1]
    return '.'.join([base or str(r)] + ['[i]' if x.startswith('[@') else x for x in s])


def pkey(P, p):
    r, s = p
    out = []
    for x in s:
        if x.startswith('['): break
        out.append(x)
    return '.'.join([P.globals[r[1]]['qname'] if r[0] == 'g' else r[1] if r[0] == 'o' else 'this'] + out[:2])


def is_atomic_handle(b):
    """taking the address of / naming the atomic object itself"""
    n = b.f.E[b.eid] if b.eid is not None else None
    return bool(n) and 'atomic' in b.f.type(n).get('s', '')


def is_tls(P, gid):
    for f in P.funcs.values():
        for v in f.V:
            if v and v.get('g') == gid: return v.get('st') == 'tls'
    return bool(P.globals[gid].get('tls'))


def outer_root(cx, f, r):
    """root of the enclosing function as seen from the loop body"""
    if r == ('this',): return ('othis', '')
    if r[0] == 'v':
        v = f.V[r[1]]; return ('o', v['name'], v['l'], v['c'])
    if r[0] == 'p':
        v = f.V[f.params[r[1]]]; return ('o', v['name'], v['l'], v['c'])
    if r[0] == 'othis': return ('othis', '')
    return r


def encloses(P, key, g):
    x = g
    while x is not None:
        if x.key == key: return True
        x = P.funcs.get(x.parent) if x.parent else None
    return False


def outer_var(P, g, r):
    x = P.funcs.get(g.parent) if g.parent else None
    while x is not None:
        for v in x.V:
            if v and v['name'] == r[1] and v['l'] == r[2] and v['c'] == r[3]: return True
        x = P.funcs.get(x.parent) if x.parent else None
    return False


def own_var(P, IP, g, r):
    for h in P.funcs.values():
        if not h.get('lambda') or not IP.is_body(h): continue
        for v in h.V:
            if v and v['name'] == r[1] and v['l'] == r[2] and v['c'] == r[3] and v['st'] in ('local', 'param'): return True
    return False
