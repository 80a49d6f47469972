"""Must-kill / upward-exposed-read analysis over access paths, interprocedural by summaries.

summary(f) = (K, X): K paths rooted at f's this / parameters / statics that are overwritten on every normal path
through f, X paths whose old value may be read before it is overwritten.  Element writes inside loops are counted as
overwriting the element's path (assumption: the loop covers the range)."""
import effects as EFX
from effects import ELEM, ITER, WRITE_ALGOS

KILL_CALLS = {'clear', 'assign', 'reset', 'operator=', 'store', '=', 'init', 'exchange'}
FILL_ALGOS = {'fill', 'fill_n', 'generate', 'generate_n', 'iota'} | {x.rsplit('::', 1)[-1] for x in WRITE_ALGOS}
SIZE_READS = {'size', 'empty'}
MAXL = 5


def norm(s): return tuple(x for x in s if x != '&')


class KillFlow:
    def __init__(self, P, PT, EF, assume=None):
        """assume: {field name: bool} values of boolean this-fields that are constant during the analysed phase"""
        self.P = P; self.PT = PT; self.EF = EF
        self.memo = {}; self.stack = set(); self.assume = assume or {}
        self.weak = set()
        self.rectype = {}

    # ---- coverage
    def covered(self, K, p):
        r, s = p
        for i in range(len(s) + 1):
            if (r, s[:i]) in K: return True
        return False

    def field_rec(self, f, r, s):
        """record name of the object at path (r, s) when it can be resolved"""
        P = self.P
        if r == ('this',): ts = f.cls or ''
        elif r[0] == 'p' and r[1] < len(f.params): ts = f.vtype(f.params[r[1]]).get('s', '')
        else: return None
        return self.field_rec_s(ts, s)

    def field_rec_s(self, ts, s):
        P = self.P
        for x in s:
            ts = self.clean(ts)
            if x == '#n' or x.startswith('?'): return None
            if x in ('*', '[]'):
                if ts.endswith('*'): ts = ts[:-1]; continue
                a = self.first_targ(ts)
                if a is None: return None
                ts = a; continue
            nxt = None
            for c, fd in P.fields(ts, True):
                if fd['name'] == x: nxt = P.T(fd['t']); break
            if nxt is None: return None
            ts = nxt.get('rec') or nxt.get('s', '')
        ts = self.clean(ts)
        return ts if ts in P.records else None

    @staticmethod
    def clean(ts):
        ts = ts.strip()
        while True:
            o = ts
            if ts.startswith('const '): ts = ts[6:]
            ts = ts.rstrip('& ').strip()
            if ts.endswith(' const'): ts = ts[:-6]
            if ts == o: return ts

    @staticmethod
    def first_targ(ts):
        i = ts.find('<')
        if i < 0: return None
        d = 0
        for j in range(i, len(ts)):
            if ts[j] == '<': d += 1
            elif ts[j] == '>':
                d -= 1
                if d == 0: return ts[i + 1:j]
            elif ts[j] == ',' and d == 1: return ts[i + 1:j]
        return None

    def add(self, f, K, p):
        """K plus p, closed under 'all fields overwritten'"""
        if p in K: return K
        K = set(K); K.add(p)
        r, s = p
        while s:
            base = s[:-1]
            rec = self.field_rec(f, r, base)
            if not rec or rec not in self.P.records: break
            fs = [fd['name'] for c, fd in self.P.fields(rec, True)]
            if fs and all((r, base + (x,)) in K for x in fs): K.add((r, base)); s = base
            else: break
        if p[1] and p[1][-1] in ('[]', '#n'):
            b = (r, p[1][:-1])
            if (r, b[1] + ('[]',)) in K and (r, b[1] + ('#n',)) in K: K.add(b)
        return frozenset(K)

    def container_cls(self, cls):
        """a sequence container of the library: its operations are taken at face value"""
        if not hasattr(self, '_cc'): self._cc = {}
        if cls not in self._cc:
            rec = self.P.records.get(cls); ok = False
            if rec and '/utility/' in self.P.files[rec['file']]:
                names = {m['name'] for m in rec['methods']} if rec['methods'] and 'name' in rec['methods'][0] else {m['key'].split('(')[0].rsplit('::', 1)[-1] for m in rec['methods']}
                ok = 'size' in names and ('operator[]' in names or 'push_back' in names)
            self._cc[cls] = ok
        return self._cc[cls]

    # ---- element effects
    def elem_effects(self, f):
        """element id -> list of ('r'|'k'|'w', path)"""
        par = f.parents()
        m = {}
        for a in self.EF.local(f):
            r, s = a.path; s = norm(s)
            if r[0] in ('v', 't'): continue
            p = (r, s); how = a.how or ''
            L = m.setdefault(a.eid, [])
            base = how.split('(')[0].rsplit('::', 1)[-1]
            if a.kind == 's': continue
            if a.kind == 'r':
                if how in ITER or how in ('get', 'operator*', 'operator->', 'lock'): continue
                if how in ELEM:
                    n = f.E[a.eid]
                    if self.EF.is_read(f, a.eid, par): L.append(('r', (r, s + ('[]',))))
                    continue
                if how in SIZE_READS: L.append(('r', (r, s + ('#n',)))); continue
                if how in ('reserve', 'capacity', 'max_size'): continue
                if how == 'read' and self.only_object_of_calls(f, a.eid, par): continue
                L.append(('r', p))
            elif a.kind == 'a':
                op = how.split(':')[-1]
                if op == 'exchange' and not par.get(a.eid): op = 'store'
                L.append(('k' if op in ('store', 'operator=') else 'r', p))
            else:
                if base == 'resize': L.append(('k', (r, s + ('#n',))))
                elif base == 'reserve' or base == 'shrink_to_fit': pass
                elif how in KILL_CALLS or base in KILL_CALLS:
                    if base == 'exchange' and par.get(a.eid): L.append(('r', p))
                    L.append(('k', p))
                elif base in FILL_ALGOS and s and s[-1] == '[]': L.append(('k', p))
                elif how == 'moved': L.append(('r', p))
                else: L.append(('r', p)); L.append(('w', p))
        return m

    def only_object_of_calls(self, f, e, par):
        ps = par.get(e, [])
        return bool(ps) and f.type(e).get('rec') and all(f.E[q]['k'] == 'mref' or (f.E[q]['k'] == 'call' and f.E[q].get('obj') == e) for q in ps)

    def summary(self, f):
        ck = self.P.ctx_key(f)
        if ck in self.memo: return self.memo[ck]
        if ck in self.stack: return (frozenset(), {})
        self.stack.add(ck)
        K, X = self.analyse(f)
        self.stack.discard(ck)
        self.memo[ck] = (K, X)
        return self.memo[ck]

    def feasible(self, f, blk, ix):
        c = blk.get('cond')
        if c is None or c < 0 or len(blk['s']) != 2 or blk.get('term') in ('SwitchStmt', 'CXXForRangeStmt'): return True
        pol = True
        for _ in range(6):
            n = f.E[c]
            if n['k'] == 'un' and n['op'] == '!': pol = not pol; c = n['a']
            elif n['k'] in ('cast', 'wrap'): c = n['e']
            elif n['k'] == 'call' and n.get('fn') in self.P.funcs and not n.get('args') and n.get('cm'):
                ps = self.PT.ret_paths(self.P.funcs[n['fn']]) or ()
                nm = {sl[0] for r, sl in ps if r == ('this',) and sl}
                if len(nm) == 1 and list(nm)[0] in self.assume: return ((ix == 0) == pol) == self.assume[list(nm)[0]]
                return True
            else: break
        n = f.E[c]
        if n['k'] == 'field' and n['name'] in self.assume: return ((ix == 0) == pol) == self.assume[n['name']]
        return True

    def assert_reads(self, f):
        """expressions evaluated only as an assertion's condition"""
        out = set()
        for n in f.E:
            if n and n['k'] == 'cond':
                for x in (n['a'], n['b']):
                    if any(f.E[y] and f.E[y]['k'] == 'call' and f.E[y].get('qn', '').rsplit('::', 1)[-1] in ('__assert_fail', 'abort', '__assert') for y in f.subtree(x)): out |= f.subtree(n['c'])
        return out

    def analyse(self, f):
        if not f.blocks: return (frozenset(), {})
        asr = self.assert_reads(f)
        cur = [None]
        eff = self.elem_effects(f)
        X = {}
        IN = {f.entry: frozenset()}
        order = f.order()
        pos = {b: i for i, b in enumerate(order)}
        work = [f.entry]
        n = 0
        OUT = {}

        def expose(K, p, loc):
            r, s = p
            if r[0] in ('v', 't') or cur[0] in asr: return
            if self.covered(K, p): return
            p = (r, s[:MAXL])
            if p not in X: X[p] = loc

        def transfer(b, K):
            blk = f.blocks[b]
            for e in blk['e']:
                if not isinstance(e, int):
                    if e['k'] == 'init' and 'field' in e: K = self.add(f, K, (('this',), (e['field'],)))
                    continue
                node = f.E[e]; k = node['k']; cur[0] = e
                # calls into analysed functions
                if k in ('call', 'ctor'):
                    K = self.call(f, e, node, K, expose)
                if k == 'lambda':
                    for o in node['ops']:
                        g = self.P.funcs.get(o)
                        if not g: continue
                        GK, GX = self.summary(g)
                        for p, loc in GX.items():
                            q = self.outer(f, p)
                            if q: expose(K, q, loc)
                        for p in GK:
                            if '[]' in p[1]:
                                q = self.outer(f, p)
                                if q: K = self.add(f, K, q)
                es = eff.get(e, ())
                for kind, p in es:
                    if kind == 'r': expose(K, p, f.loc(e))
                for kind, p in es:
                    if kind == 'k': K = self.add(f, K, p)
            return K

        weakall = set()
        while work:
            work.sort(key=lambda b: pos.get(b, 1 << 30))
            b = work.pop(0)
            n += 1
            if n > 5000: break
            o = transfer(b, IN[b])
            OUT[b] = o
            weakall |= {p for p in o if '[]' in p[1]}
            blk = f.blocks[b]
            if blk.get('nr'): continue
            for ix, s in enumerate(blk['s']):
                if s < 0: continue
                if not self.feasible(f, blk, ix): continue
                old = IN.get(s)
                if old is None: nw = o
                else:
                    # strong kills: intersection; element kills: union
                    nw = frozenset({p for p in (old | o) if (p in old and p in o) or '[]' in p[1]})
                if old is None or nw != old:
                    IN[s] = nw
                    if s not in work: work.append(s)
        # exposures were recorded against growing (element) and shrinking (strong) sets: recompute on the fixpoint
        X.clear()
        for b in order:
            if b in IN: transfer(b, IN[b])
        K = IN.get(f.exit, frozenset())
        K = frozenset(p for p in K if p[0][0] not in ('v', 't'))
        return K, dict(X)

    def outer(self, f, p):
        """path of a lambda body in terms of the enclosing function f"""
        r, s = p
        if r[0] == 'o':
            r2 = self.PT.own(f, r)
            return None if r2[0] in ('v', 't') else (r2, s)
        if r[0] == 'othis': return (('this',), s) if r[1] == f.key and not f.get('lambda') else ((('othis', f.parent or ''), s) if f.get('lambda') else p)
        if r[0] == 'g': return p
        return None

    def call(self, f, e, n, K, expose):
        P, PT = self.P, self.PT
        if n['k'] == 'call' and n.get('op') == '=' and 'obj' in n and n.get('fn') in P.funcs:
            # assignment of an analysed class: the whole object is overwritten
            for a in n['args']:
                for p in PT.path(f, a): expose(K, (p[0], norm(p[1])), f.loc(e)) if p[1] or p[0][0] == 'g' else None
            ps = list(PT._objpath(f, n))
            if len(ps) == 1: K = self.add(f, K, (ps[0][0], norm(ps[0][1])))
            return K
        if n['k'] == 'call' and 'obj' in n and n.get('fn') in P.funcs and self.container_cls(n.get('cls', '')):
            nm = n.get('qn', '').rsplit('::', 1)[-1]
            ps = [(r, norm(s)) for r, s in PT._objpath(f, n) if r[0] not in ('v', 't')]
            for a in n.get('args', []):
                for r, s in PT.path(f, a):
                    if s and f.E[a]['k'] not in ('lambda',) and self.EF.is_read(f, a, f.parents()): expose(K, (r, norm(s)), f.loc(e))
            for q in ps:
                if nm in ('clear', 'assign', 'reset'): K = self.add(f, K, q) if len(ps) == 1 else K
                elif nm == 'resize': K = self.add(f, K, (q[0], q[1] + ('#n',)))
                elif nm == 'fill': K = self.add(f, K, (q[0], q[1] + ('[]',)))
                elif nm in SIZE_READS or nm in ('nrows', 'ncols'): expose(K, (q[0], q[1] + ('#n',)), f.loc(e))
                elif nm in ITER or nm in ('reserve', 'capacity', 'max_size', 'get_allocator'): pass
                elif nm in ELEM:
                    if self.EF.is_read(f, e, f.parents()): expose(K, (q[0], q[1] + ('[]',)), f.loc(e))
                else: expose(K, q, f.loc(e))
            return K
        gs = P.callees(f, n)
        if n.get('virt'): gs = [g for g in gs if g.blocks]
        if not gs: return K
        m = PT.arg_binding(f, n)
        kills = None
        for g in gs:
            GK, GX = self.summary(g)
            for p, loc in GX.items():
                for q in PT.subst1(f, n, m, p[0], p[1]):
                    if q[0][0] in ('v', 't'): continue
                    q = (q[0], norm(q[1]))
                    if not q[1] and q[0][0] != 'g': continue
                    expose(K, q, loc)
            ks = set()
            for p in GK:
                qs = PT.subst1(f, n, m, p[0], p[1])
                qs = {(q[0], norm(q[1])) for q in qs}
                if len(qs) == 1: ks |= qs
            kills = ks if kills is None else kills & ks
        for q in kills or ():
            if q[0][0] not in ('v', 't') and (q[1] or q[0][0] == 'g'): K = self.add(f, K, q)
        return K
